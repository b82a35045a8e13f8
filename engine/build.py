"""Extraction: compile the extractor, type-check /repo with it, load the MIR."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
REPO = "/repo"


class BuildError(Exception):
    def __init__(self, stage, text):
        Exception.__init__(self, stage)
        self.stage, self.text = stage, text


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def driver(root):
    src = os.path.join(VERIF, "extractor", "driver.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "mirx-" + h)
    if not os.path.exists(out):
        r = sh(["rustc", "+nightly", "-O", src, "-o", out + ".tmp"])
        if r.returncode:
            raise BuildError("extractor", r.stdout)
        os.rename(out + ".tmp", out)
    return out


def prune(path, lines):
    """drop the top-level functions of the witness crate that contain the given lines"""
    text = open(path).read().split("\n")
    gone = []
    for ln in sorted(lines, reverse=True):
        i = ln - 1
        if i >= len(text):
            continue
        while i >= 0 and not re.match(r"pub fn (\w+)", text[i]):
            if text[i].startswith("use ") or text[i].startswith("}"):
                return None
            i -= 1
        if i < 0:
            return None
        j = i
        while j < len(text) and text[j] != "}":
            j += 1
        if j >= len(text):
            return None
        gone.append(re.match(r"pub fn (\w+)", text[i]).group(1))
        for k in range(i, j + 1):
            text[k] = ""
    open(path, "w").write("\n".join(text))
    return gone


WHY = {}   # witness function that no longer compiles -> what the compiler says


def reasons(text, src, out):
    for blk in re.split(r"\n(?=error)", text):
        m = re.search(r"--> (?:\S*/)?src/lib\.rs:(\d+):", blk)
        if not blk.startswith("error") or not m:
            continue
        for i in range(min(int(m.group(1)), len(src)) - 1, -1, -1):
            f = re.match(r"pub fn (\w+)", src[i])
            if f:
                out.setdefault(f.group(1), blk.strip())
                break


def extract(tag="dev", extra_flags=""):
    """-> (path of the MIR dump, list of witness functions that no longer compile)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    root = sysroot()
    drv = driver(root)
    out = os.path.join(BUILD, "mir-%s-%d.json" % (tag, os.getpid()))
    if os.path.exists(out):
        os.remove(out)
    wit = os.path.join(BUILD, "witness")
    shutil.rmtree(wit, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "witness"), wit, ignore=shutil.ignore_patterns("target"))
    env = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update({
        "LD_LIBRARY_PATH": root + "/lib", "RUSTC_WORKSPACE_WRAPPER": drv, "VX_CRATE": "vxwitness", "VX_OUT": out,
        "VX_STOP": os.path.join(VERIF, "extractor", "stop.txt"), "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings " + extra_flags,
    })
    tgt = os.path.join(BUILD, "target-" + tag)
    gone = []
    WHY.clear()
    for attempt in range(6):
        # the repository's crates are always taken through the compiler again
        c = sh(["cargo", "+nightly", "clean", "--offline", "--target-dir", tgt, "-p", "stratumv2", "-p", "noiseexplorer_nx", "-p", "vxwitness"], cwd=wit, env=env)
        if c.returncode:
            shutil.rmtree(tgt, ignore_errors=True)
        r = sh(["cargo", "+nightly", "check", "--offline", "--target-dir", tgt], cwd=wit, env=env)
        if r.returncode == 0 and os.path.exists(out):
            return out, gone
        errs = [int(m.group(1)) for m in re.finditer(r"--> (?:\S*/)?src/lib\.rs:(\d+):", r.stdout)]
        if "could not compile `vxwitness`" in r.stdout and errs:
            # a public entry point changed its signature: analyse without it
            src = os.path.join(wit, "src", "lib.rs")
            was = open(src).read().split("\n")
            g = prune(src, set(errs))
            if g:
                gone += g
                reasons(r.stdout, was, WHY)
                continue
        if attempt == 0:
            shutil.rmtree(tgt, ignore_errors=True)
            continue
        raise BuildError("repository", r.stdout)
    raise BuildError("witness", r.stdout)


if __name__ == "__main__":
    p, g = extract()
    print(p, os.path.getsize(p), g)
    os.remove(p)
