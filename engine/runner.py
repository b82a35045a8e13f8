"""Run one property's tasks over the current tree and report."""
import json
import multiprocessing as mp
import os
import sys
import time

from . import build, core
from .build import VERIF, BuildError
from .core import run_task
from .mir import Program

G = {}
BUDGET = 700   # seconds of analysis per check


def _one(i):
    fn, args = G["tasks"][i]
    return run_task(G["prog"], G["tier"], fn, args, G["limit"], G["deadline"])


def load_findings():
    """known findings: lines 'known: property=<id> obligation=<text> :: <what fails>' (fixed entries suppress nothing)"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("known: property="):
                head, _, text = ln[len("known: property="):].partition(" :: ")
                pid, _, ob = head.partition(" obligation=")
                out.append((pid, ob.strip(), text))
    return out


def main(pid, tier, verbose=False, mirpath=None):
    from .registry import PROPS
    t0 = time.time()
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + ".violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    obs, stats, pruned, passes = [], {}, [], []
    labels = []
    builds = [("dev", "")]
    if tier == "thorough":
        builds.append(("wrap", "-Coverflow-checks=off"))
    failed = None
    for tag, flags in builds:
        try:
            if mirpath:
                path, gone = mirpath, []
            else:
                path, gone = build.extract(tag, flags)
        except BuildError as e:
            failed = e
            break
        try:
            prog = Program(path)
        finally:
            if not mirpath:
                os.remove(path)
        pruned += gone
        prog.dropped = dict(build.WHY) if not mirpath else {}
        core.TOTAL[0] = P["total"]
        G["prog"], G["tier"], G["limit"] = prog, tier, 400 if tier == "thorough" else 150
        # the whole check answers within its budget: what is left over is reported as undecided
        G["deadline"] = t0 + (BUDGET * (len(passes) + 1) / len(builds))
        G["tasks"] = P["tasks"](prog, tier)
        passes.append({"build": tag, "tasks": len(G["tasks"]), "functions_in_mir": len(prog.fns)})
        with mp.Pool(min(8, os.cpu_count() or 4)) as pool:
            for o, s, label in pool.imap_unordered(_one, range(len(G["tasks"])), chunksize=1):
                for x in o:
                    x["build"] = tag
                obs += o
                labels.append((label, round(s["t"], 2)))
                for k, v in s.items():
                    if isinstance(v, set):
                        stats.setdefault(k, set()).update(v)
                    elif k != "t":
                        stats[k] = stats.get(k, 0) + v
        if mirpath:
            break
    viol = []
    if failed is not None:
        viol.append({"obligation": "the tree type-checks (%s)" % failed.stage, "status": "violation", "detail": failed.text[-3000:], "where": "/repo", "rule": "build"})
    known = load_findings()
    shown = set()
    und = []
    seenv = set()
    for o in obs:
        if o["status"] == "violation":
            k = (o["obligation"], o["where"], o["detail"][:200])
            if k in seenv:
                continue
            seenv.add(k)
            m = [t for p, ob, t in known if p == pid and ob == o["obligation"]]
            if m:
                if o["obligation"] not in shown:
                    shown.add(o["obligation"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, m[0]))
                continue
            viol.append(o)
        elif o["status"] == "undecided":
            und.append(o)
    nob = len(obs)
    nok = sum(1 for o in obs if o["status"] == "ok")
    distinct = sorted({o["obligation"] for o in obs if o["status"] == "ok"})
    rules = {}
    for o in obs:
        rules[o["rule"]] = rules.get(o["rule"], 0) + 1
    fns = sorted(stats.get("functions", ()))
    cov = {
        "explanation": P["explain"],
        "obligations": nob, "discharged": nok, "undecided": len(und), "distinct_obligations": len(distinct),
        "rule": P["rule"], "obligations_by_rule": rules,
        "checker_cmd": "python3 check.py %s --tier %s" % (pid, tier),
        "trusted_base": TRUSTED,
        "repository_functions_analysed": len(fns), "call_targets_resolved": len(stats.get("call_targets", ())),
        "entry_point_runs": stats.get("entry_runs", 0), "outcome_states": stats.get("outcomes", 0),
        "basic_blocks_evaluated": stats.get("steps", 0), "branches_split": stats.get("branches_split", 0),
        "assertions_examined": stats.get("asserts", 0), "state_joins": stats.get("joins", 0), "loop_widenings": stats.get("widenings", 0),
        "unmodelled_calls": sorted(stats.get("unmodelled", ())), "witness_functions_dropped": sorted(set(pruned)),
        "passes": passes,
        "functions": fns[:400],
        "samples": distinct[:12],
        "undecided_list": und[:20],
    }
    rec = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
           "assumptions": P.get("assume", []) + ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    for o in und[:10]:
        print("UNDECIDED property=%s %s: %s" % (pid, o["obligation"], o["detail"][:300].replace("\n", " ")))
    if viol:
        with open(replay, "w") as f:
            json.dump({"property": pid, "violations": viol}, f, indent=1)
        for o in viol[:12]:
            print("  %s: %s\n    at %s" % (o["obligation"], o["detail"][:700], o["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs" % (pid, nob, nok, len(und), len(fns), time.time() - t0))
    if verbose:
        for o in distinct:
            print("   ok", o)
        for l in sorted(labels, key=lambda x: -x[1])[:5]:
            print("   slow", l)
    return 0


TRUSTED = ["rustc (type checker, MIR construction, monomorphisation)", "extractor/driver.rs", "engine/ (abstract interpreter)",
           "engine/models.py (models of std, hacl-star, blake2-rfc, ed25519-dalek, rand, hex, bitcoin base58)", "engine/spec.py (protocol tables)"]
ASSUME = ["dependencies behave as modelled in engine/models.py", "allocation does not fail"]
