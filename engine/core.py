"""Shared machinery of the checks: analysis runs, value comparison under facts, symbolic valid
values, obligations."""
import os
import signal
import sys
import time
import traceback

from .dom import *
from .interp import Interp, PRECISE, Undecided, join_facts
from .mir import Program, REPO_CRATES
from . import models as MD
from .models import Models, seqof, sig_ok, mk_sig


# ------------------------------------------------------------------------------ printing
def brief(x, budget=220):
    """bounded rendering of any abstract value"""
    out = []
    left = [budget]

    def put(s):
        out.append(s)
        left[0] -= len(s)

    def go(v, d):
        if left[0] <= 0:
            return
        if d > 12:
            put("..")
        elif isinstance(v, L):
            if not v.t:
                put(str(v.c))
                return
            first = True
            for a, k in v.t:
                if not first:
                    put("+")
                first = False
                if k != 1:
                    put("%d*" % k)
                go(a, d + 1)
            if v.c:
                put("%+d" % v.c)
        elif isinstance(v, Atom):
            if v.op == "elem":
                go(v.args[0], d + 1)
                put("[")
                go(v.args[1], d + 1)
                put("]")
            elif v.op == "len":
                put("len(")
                go(v.args[0], d + 1)
                put(")")
            elif v.op == "sym":
                go(v.args[0], d + 1)
            elif v.op == "bits":
                b = v.args[0]
                i = 0
                put("{")
                while i < len(b) and left[0] > 0:
                    x0 = b[i]
                    if isinstance(x0, tuple) and isinstance(x0[0], Atom):
                        j = i
                        while j + 1 < len(b) and isinstance(b[j + 1], tuple) and b[j + 1][0] is x0[0] and b[j + 1][1] == x0[1] + (j + 1 - i):
                            j += 1
                        go(x0[0], d + 1)
                        put("<%d..%d>" % (x0[1], x0[1] + j - i))
                        i = j + 1
                    else:
                        put(str(x0) if not isinstance(x0, tuple) else "~")
                        i += 1
                    put("|")
                put("}")
            else:
                put(v.op + "(")
                for a in v.args:
                    go(a, d + 1)
                    put(",")
                put(")")
        elif isinstance(v, SeqV):
            put("[")
            run = bytearray()

            def flush():
                if run:
                    s = bytes(run)
                    put(repr(s)[1:] if all(32 <= c < 127 for c in s) and len(s) > 2 else "0x" + s.hex())
                    put(" ")
                    run.clear()
            for s in v.s:
                if left[0] <= 0:
                    break
                if s[0] == "e" and isinstance(s[1], L) and s[1].const is not None and 0 <= s[1].c < 256:
                    run.append(s[1].c)
                    continue
                flush()
                if s[0] == "e":
                    go(s[1], d + 1)
                elif s[0] == "s":
                    go(s[1], d + 1)
                    put("[")
                    go(s[2], d + 1)
                    put(";+")
                    go(s[3], d + 1)
                    put("]")
                else:
                    go(s[1], d + 1)
                    put("x")
                    go(s[2], d + 1)
                put(" ")
            flush()
            put("]")
        elif isinstance(v, VecV):
            go(v.seq, d)
        elif isinstance(v, BoolV):
            go(v.c, d)
        elif isinstance(v, AdtV):
            put(name_of(v) + "(")
            for f in v.f:
                go(f, d + 1)
                put(",")
            put(")")
        elif isinstance(v, Sym):
            go(v.t, d)
        elif isinstance(v, RefV):
            put("&%s" % str(v.o)[:30])
        elif isinstance(v, tuple):
            if len(v) == 2 and v[0] == "arg":
                put(str(v[1]))
            elif len(v) == 2 and v[0] == "deref":
                go(v[1], d)
            elif len(v) == 3 and v[0] == "fld":
                go(v[1], d + 1)
                put("." + str(v[2]))
            elif v and v[0] == "ge0" and len(v) == 2:
                go(v[1], d + 1)
                put(">=0")
            elif v and v[0] == "eq0" and len(v) == 2:
                go(v[1], d + 1)
                put("==0")
            elif v and v[0] == "not" and len(v) == 2:
                put("!(")
                go(v[1], d + 1)
                put(")")
            else:
                put("(")
                for i, a in enumerate(v):
                    go(a, d + 1)
                    if i + 1 < len(v):
                        put(" ")
                put(")")
        else:
            put(str(v)[:60])
    go(x, 0)
    s = "".join(out)
    return s if left[0] > 0 else s[:budget] + "..."


def name_of(v):
    p = Models.prog
    t = p.types[v.ty]
    if t["k"] == "adt":
        n = p.nd(t["def"]).split("::")[-1]
        return n if t["ak"] != "enum" else n + "::" + t["vs"][v.v]["n"]
    return t["k"]


# ------------------------------------------------------------------------------ taint
_TAINT = {}
BAD = ("call", "phi", "splice", "op", "trunc", "wrap", "int", "ovf", "cast")


def tainted(x):
    """does a value depend on something the analysis did not resolve (unmodelled call, widened loop)?"""
    seen = set()
    todo = [x]
    while todo:
        v = todo.pop()
        if isinstance(v, (str, int, bool, float, bytes)) or v is None:
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if len(seen) > 200000:
            return True
        if isinstance(v, L):
            todo.extend(a for a, _ in v.t)
        elif isinstance(v, Atom):
            if v.op in ("phi", "int", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "mul"):
                return True
            if v.op == "bits":
                for b in v.args[0]:
                    if isinstance(b, tuple):
                        todo.extend(z for z in b if not isinstance(z, (int, str)))
            else:
                todo.extend(v.args)
        elif isinstance(v, SeqV):
            for s in v.s:
                todo.extend(s[1:])
        elif isinstance(v, VecV):
            todo.append(v.seq)
        elif isinstance(v, BoolV):
            todo.append(v.c)
        elif isinstance(v, AdtV):
            todo.extend(v.f)
        elif isinstance(v, Sym):
            todo.append(v.t)
        elif isinstance(v, RefV):
            todo.append(v.p)
            todo.append(v.r)
        elif isinstance(v, ItV):
            return True
        elif isinstance(v, tuple):
            if v and isinstance(v[0], str) and v[0] in ("call", "phi", "splice", "op", "loop", "join", "loop-events", "transmute"):
                return True
            todo.extend(v)
    return False


def facts_of(st):
    return list(st.truth) + list(st.iv) + list(st.ge) + list(st.ne) + [a for a, _ in st.bits]


# ------------------------------------------------------------------------------ equality
def seq_align(I, st, a, b):
    """True / False / None: are two sequences equal in every / no concretisation of st"""
    if a == b:
        return True
    x, y = list(a.s), list(b.s)
    while x and y:
        if x[0] == y[0]:
            x.pop(0)
            y.pop(0)
            continue
        lx, ly = seg_len(x[0]), seg_len(y[0])
        if st.decide(c_eq(lx, ZERO)) is True:
            x.pop(0)
            continue
        if st.decide(c_eq(ly, ZERO)) is True:
            y.pop(0)
            continue
        if st.decide(c_eq(lx, ly)) is not True:
            if st.decide(c_le(lx, ly)) is True:
                r = I.seq_split(st, y, lx)
                if r is None:
                    return None
                y = list(r[0]) + list(r[1])
                if st.decide(c_eq(seg_len(y[0]), lx)) is not True:
                    return None
            elif st.decide(c_le(ly, lx)) is True:
                r = I.seq_split(st, x, ly)
                if r is None:
                    return None
                x = list(r[0]) + list(r[1])
                if st.decide(c_eq(seg_len(x[0]), ly)) is not True:
                    return None
            else:
                return None
        p, q = x.pop(0), y.pop(0)
        if p == q:
            continue
        r = seg_eq(I, st, p, q)
        if r is not True:
            return r
    rest = ZERO
    for s in x + y:
        rest = add(rest, seg_len(s))
    return st.decide(c_eq(rest, ZERO))


def seg_elem(I, s):
    if s[0] == "e":
        return s[1]
    if s[0] == "s":
        return I.elemval(s[1], s[2])
    return s[1]


def term_eq(I, st, a, b, depth=0):
    """are two function terms equal because their arguments are (never says that they differ)"""
    if a == b:
        return True
    if depth > 12:
        return False
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return seq_align(I, st, a, b) is True
    if isinstance(a, L) and isinstance(b, L):
        return st.decide(c_eq(a, b)) is True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(term_eq(I, st, x, y, depth + 1) for x, y in zip(a, b))
    return False


def seg_eq(I, st, p, q):
    """equal-length segments"""
    if p[0] == "s" and q[0] == "s" and p[1] != q[1] and st.decide(c_eq(p[2], q[2])) is True and term_eq(I, st, p[1], q[1]):
        return True
    if p[0] == "s" and q[0] == "s" and p[1] == q[1]:
        return st.decide(c_eq(p[2], q[2]))
    if p[0] == "r" and q[0] == "r":
        return veq(I, st, p[1], q[1])
    if st.cval(seg_len(p)) == 1:
        return veq(I, st, seg_elem(I, p), seg_elem(I, q))
    n = st.cval(seg_len(p))
    if n is not None and n <= 256 and (p[0] != "s" or q[0] != "s"):
        for i in range(n):
            r = veq(I, st, I.seq_get(st, SeqV([p]), K(i)), I.seq_get(st, SeqV([q]), K(i)))
            if r is not True:
                return r
        return True
    return None


def veq(I, st, a, b):
    """True / False / None"""
    if a is b:
        return True
    if isinstance(a, L) and isinstance(b, L):
        if a == b:
            return True
        d = st.decide(c_eq(st.simp(a), st.simp(b)))
        if d is None and len(a.t) <= 1 and len(b.t) <= 1:
            x, y = I.bits_of(st, a, 64), I.bits_of(st, b, 64)
            if x is not None and x == y:
                return True
        return d
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return st.decide(c_not(I.c_xor(st, a.c, b.c)))
    if isinstance(a, VecV):
        a = a.seq
    if isinstance(b, VecV):
        b = b.seq
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return seq_align(I, st, a, b)
    if isinstance(a, RefV) and isinstance(b, RefV):
        if a == b:
            return True
        return veq(I, st, I.deref(st, a), I.deref(st, b))
    if isinstance(a, AdtV) and isinstance(b, AdtV):
        if a.ty != b.ty:
            return False
        if a.v != b.v:
            return False
        r = True
        for x, y in zip(a.f, b.f):
            q = veq(I, st, x, y)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a == b:
            return True
        if a.t and b.t and a.t[0] == "f" and b.t[0] == "f" and isinstance(a.t[1], L) and isinstance(b.t[1], L):
            return veq(I, st, a.t[1], b.t[1])
        if a.t and b.t and a.t[0] == "sig" and b.t[0] == "sig":
            return veq(I, st, a.t[1], b.t[1])
        if a.t and b.t and (a.t[0] == "sig" or b.t[0] == "sig"):
            return veq(I, st, MD.sig_bytes(a), MD.sig_bytes(b))
    if isinstance(a, AdtV) and isinstance(b, Sym):
        a, b = b, a
    if isinstance(a, Sym) and isinstance(b, AdtV) and a.ty == b.ty and I.p.is_enum(a.ty):
        d = st.decide(c_eq(A(I.discr_atom(a)), K(int(I.p.discr_of(b.ty, b.v)))))
        if d is True and b.f:
            r = True
            for j, y in enumerate(b.f):
                q = veq(I, st, I.field(a, j, b.v), y)
                if q is not True:
                    r = q
            return r
        return d
    try:
        if a == b:
            return True
    except Exception:
        pass
    return None


def given(st, *conds):
    """assume what the obligation is about"""
    for c in conds:
        if not st.assume(c):
            raise Undecided("assumptions that contradict each other")


# ------------------------------------------------------------------------------ obligations
class Ob:
    __slots__ = ("name", "status", "detail", "where", "kind")

    def __init__(self, name, status, detail="", where="", kind=""):
        self.name, self.status, self.detail, self.where, self.kind = name, status, detail, where, kind

    def d(self):
        return {"obligation": self.name, "status": self.status, "detail": self.detail, "where": self.where, "rule": self.kind}


class Timeout(Exception):
    pass


class Chance(Exception):
    """this alternative only arises when a random or derived value happens to be special"""


CUR = [None]
MAXPATHS = 48
RETRY = 100


class Ctx:
    """one task's view: runs the analysis and collects obligations"""

    def __init__(self, prog, tier):
        self.p = prog
        self.tier = tier
        self.obs = []
        self.I = None
        self.stats = {"functions": set(), "call_targets": set(), "steps": 0, "branches_split": 0, "asserts": 0, "joins": 0,
                      "widenings": 0, "entry_runs": 0, "outcomes": 0}
        self.root = None
        self.trail, self.pos = [], 0

    # ---- alternatives: a task that needs one of several outcomes is evaluated once for each of them
    def pick(self, outs, what):
        if not outs:
            raise Undecided("%s has no outcome" % what)
        if len(outs) == 1:
            return outs[0]
        if self.pos == len(self.trail):
            self.trail.append([0, len(outs)])
        t = self.trail[self.pos]
        if t[1] != len(outs):
            raise Undecided("%s: alternatives are not stable" % what)
        self.pos += 1
        return outs[t[0]]

    def next_path(self):
        while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
            self.trail.pop()
        if not self.trail:
            return False
        self.trail[-1][0] += 1
        self.pos = 0
        return True

    # ---- bookkeeping
    def interp(self):
        I = Interp(self.p, Models())
        Models.prog = self.p
        self.I = I
        self._Is = getattr(self, "_Is", [])
        self._Is.append(I)
        return I

    def close(self):
        for I in getattr(self, "_Is", []):
            s = self.stats
            s["functions"] |= I.fns_seen
            s["call_targets"] |= I.calls_seen
            s["steps"] += I.steps
            s["branches_split"] += I.nforks
            s["asserts"] += I.nasserts
            s["joins"] += I.njoins
            s["widenings"] += I.nwiden

    def anchor(self, key):
        """the repository construct a witness entry point stands for"""
        f = self.p.fns.get(key)
        if f is None:
            return key
        seen = set()
        todo = [key]
        while todo:
            k = todo.pop(0)
            g = self.p.fns.get(k)
            if g is None or k in seen:
                continue
            seen.add(k)
            if g["crate"] in REPO_CRATES and "{closure" not in g["nd"]:
                return "%s (%s:%s)" % (g["nd"], g.get("file"), g.get("line"))
            todo.extend(self.p.callees(k))
        return f["nd"]

    def ok(self, name, detail="", kind=""):
        self.obs.append(Ob(name, "ok", detail, "", kind))

    def bad(self, name, detail, where="", kind="", dep=(), st=None, some=False):
        """a violated obligation, unless it rests on something the analysis could not resolve.
        some: the obligation asks that something exists, which one instance cannot refute"""
        if some and FIXED[0] is not None:
            return
        if st is not None:
            dep = list(dep) + facts_of(st)
            if any(e and e[0] == "loop-events" for e in st.ev):
                return self.und(name, "events inside a widened loop: " + detail, where, kind)
        for x in dep:
            if tainted(x):
                return self.und(name, "rests on an unresolved value: " + detail, where, kind)
        self.obs.append(Ob(name, "violation", detail, where or (self.anchor(self.root) if self.root else ""), kind))

    def und(self, name, detail, where="", kind=""):
        self.obs.append(Ob(name, "undecided", detail, where or (self.anchor(self.root) if self.root else ""), kind))

    def req(self, name, r, detail="", where="", kind="", dep=(), st=None, some=False):
        """r: True ok / False violated / None not established"""
        if r is True:
            self.ok(name, "", kind)
        elif r is False:
            self.bad(name, detail, where, kind, dep, st, some)
        else:
            # not established in every state the abstraction contains
            self.bad(name, detail, where, kind, dep, st, some)

    # ---- running
    def key(self, root):
        k = self.p.rootkey.get(root)
        if k is None or k not in self.p.fns:
            raise Undecided("entry point %s is not available" % root)
        return k

    def gkey(self, g, ty):
        k = self.p.gkey.get((g, ty))
        if k is None or k not in self.p.fns:
            raise Undecided("entry point %s<%s> is not available" % (g, ty))
        return k

    def argnames(self, key):
        f = self.p.fns[key]
        nm = dict((l, n) for l, n in f["names"])
        return [nm.get(i + 1, str(i)) for i in range(f["argc"])]

    def argtys(self, key):
        f = self.p.fns[key]
        return [f["locals"][i + 1] for i in range(f["argc"])]

    def symargs(self, I, key, tag="arg"):
        return [I.mk_sym((tag, n), t) for n, t in zip(self.argnames(key), self.argtys(key))]

    def run(self, I, key, args, st=None):
        self.root = key
        self.stats["entry_runs"] += 1
        outs = I.exec_fn(key, list(args), st if st is not None else State(), None)
        self.stats["outcomes"] += len(outs)
        return outs

    def split(self, outs):
        """partition Result outcomes into Ok (payload, state) and Err (payload, state); a symbolic Result
        counts as both"""
        oks, errs = [], []
        for v, s in outs:
            if isinstance(v, AdtV):
                n = self.p.vname(v.ty, v.v)
                (oks if n in ("Ok", "Some") else errs).append((v.f[0] if v.f else None, s))
            else:
                raise Undecided("result shape %s" % brief(v, 80))
        return oks, errs

    def errname(self, v):
        """variant name of an error value"""
        if isinstance(v, AdtV) and self.p.is_enum(v.ty):
            return self.p.vname(v.ty, v.v)
        return None

    # ---- references to arguments
    def ref_to(self, I, st, val, name):
        """a reference to a fresh object holding val"""
        o = ("a", name)
        st.objs[o] = val
        return RefV(o)

    def slice_ref_to(self, I, st, seq, name):
        o = ("a", name)
        st.objs[o] = seq
        return RefV(o, (), (ZERO, seq_len(seq)))

    def parser(self, I, st, seq, start=ZERO):
        """a parser over seq, made by the public constructor"""
        r = self.slice_ref_to(I, st, seq, "input")
        k = self.key("parser_new")
        outs = I.exec_fn(k, [r, start], st, None)
        v, s = self.pick(outs, "parser construction")
        s.objs[("a", "parser")] = v
        return RefV(("a", "parser")), s

    # ---- panics
    def panic_obs(self, I, name, ignore=None, label=""):
        """one obligation per entry point: no panic site is reachable (name None: only what is wrong is recorded)"""
        seen = set()
        n = 0
        for pn in I.panics:
            if ignore is not None and ignore(pn):
                continue
            if pn["why"].startswith("assert:misalign") or pn["why"].startswith("assert:null"):
                continue
            repo = [s for s in pn["stack"] if s[2] in REPO_CRATES]
            site = repo[0] if repo else pn["stack"][0]
            k = (pn["why"], site[0], site[1])
            if k in seen:
                continue
            seen.add(k)
            n += 1
            det = "%s reachable at %s in %s; call path: %s" % (pn["why"], site[1], site[0], " <- ".join(s[0].split("::")[-1] for s in pn["stack"][:8]))
            self.bad(name or "%s: the operation answers" % label, det, "%s (%s)" % (site[0], site[1]), "panic-reachability", st=pn["st"])
        if not n and name is not None:
            self.ok(name, "", "panic-reachability")


def run_task(prog, tier, fn, args, limit, deadline=None):
    """evaluate one task in this process -> (obligation dicts, stats)"""
    def left():
        return max(1, int(deadline - time.time())) if deadline else limit
    r = run_once(prog, tier, fn, args, min(limit, left()))
    if any(o["status"] == "violation" or o["rule"] == "analysis" and "limit" not in o["detail"] for o in r[0]):
        # joined facts may describe states that no path reaches: decide again with every path kept apart
        PRECISE[0] = True
        try:
            q = run_once(prog, tier, fn, args, min(limit, RETRY, left()))
        finally:
            PRECISE[0] = False
        if not any(o["rule"] == "analysis" for o in q[0]):
            q[1]["t"] += r[1]["t"]
            r = q
    if any(o["status"] == "undecided" for o in r[0]) and not any(o["status"] == "violation" for o in r[0]):
        # what is not decided for inputs of every length may still be wrong for inputs of one length
        for n, sp in INSTANCES:
            if deadline and time.time() > deadline - 20:
                break
            FIXED[0] = n
            spread(sp)
            try:
                q = run_once(prog, tier, fn, args, min(limit, 30, left()))
            finally:
                FIXED[0] = None
                spread(False)
            r[1]["t"] += q[1]["t"]
            bad = [o for o in q[0] if o["status"] == "violation"]
            if bad:
                for o in bad:
                    o["detail"] += " (shown for variable-length parts of %d elements%s)" % (n, " or slightly more" if sp else "")
                    r[0].append(o)
                break
    return r


INSTANCES = ((2, False), (2, True), (0, False), (5, False), (33, True), (256, False))


# properties whose statement says that the operation answers (with a value or an error): a panic answers nothing
TOTAL = [False]


def run_once(prog, tier, fn, args, limit):
    c = Ctx(prog, tier)
    t0 = time.time()

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    label = getattr(fn, "__name__", "task") + (":" + ",".join(str(a) for a in args) if args else "")
    CUR[0] = c
    paths = done = 0
    try:
        while True:
            paths += 1
            try:
                fn(c, *args)
                done += 1
            except Chance:
                pass
            except Undecided as e:
                if os.environ.get("ENGINE_DEBUG"):
                    traceback.print_exc()
                c.und(label, "analysis gave up: %s" % str(e)[:300], kind="analysis")
            if not c.next_path():
                break
            if paths >= MAXPATHS:
                c.und(label, "more than %d alternatives" % MAXPATHS, kind="analysis")
                break
        if TOTAL[0]:
            for I in getattr(c, "_Is", []):
                c.panic_obs(I, None, label=label)
        if not done and not any(o.status != "ok" for o in c.obs):
            c.und(label, "no alternative completes", kind="analysis")
    except Timeout:
        c.und(label, "analysis time limit", kind="analysis")
    except RecursionError:
        c.und(label, "analysis depth limit", kind="analysis")
    except Exception as e:
        if os.environ.get("ENGINE_DEBUG"):
            traceback.print_exc()
        c.und(label, "internal: " + "".join(traceback.format_exception(e))[-900:], kind="analysis")
    finally:
        signal.alarm(0)
    c.close()
    if any(getattr(I, "short_cut", False) for I in getattr(c, "_Is", [])) and not any(o.status == "violation" for o in c.obs):
        c.und(label, "not followed beyond the writer's second short write", kind="short-writes")
    for I in getattr(c, "_Is", []):
        for u, stk in I.unknown.items():
            c.stats.setdefault("unmodelled", set()).add(u)
    c.stats["t"] = time.time() - t0
    return [o.d() for o in c.obs], c.stats, label
