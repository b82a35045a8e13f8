"""Memory used by decoding, and what freshly made objects hold."""
from .core import *
from .p_noise import SESSION, Chance, handshake, init, keypair, one, sym_seq
from .p_sess import secret, secret_leaves, t_peer_new
from .p_codec import short
from .p_msg import t_pure
from .spec import *

SLACK = 4096


# ================================================================================ C34 memory
def alloc_obs(c, I, name, given_len, where=None):
    seen = set()
    n = 0
    for size, unit, st, stk in I.allocs:
        n += 1
        total = scale(size, unit)
        if st.decide(c_le(total, add(given_len, K(SLACK)))) is True:
            continue
        repo = [s for s in stk if s[2] in REPO_CRATES]
        site = repo[0] if repo else stk[0]
        if site in seen:
            continue
        seen.add(site)
        c.bad(name, "memory for %s elements of %d bytes is requested in %s at %s, whatever the size of the input" % (brief(size), unit, site[0], site[1]),
              "%s (%s)" % (site[0], site[1]), "allocation-bound", dep=[size], st=st)
    if not seen:
        c.ok(name, "%d requests" % n, "allocation-bound")


def t_alloc_de(c, ty):
    I = c.interp()
    I.allocs = []
    st = State()
    inp = SeqV([("s", ("arg", "input"), ZERO, symlen(("arg", "input"), 0, (1 << 62)))])
    at = I.mk_sym(("arg", "offset"), c.p.find("usize"))
    pr, st = c.parser(I, st, inp, at)
    c.run(I, c.gkey("g_de", ty), [pr], st)
    alloc_obs(c, I, "decoding %s from a parser" % short(ty), seq_len(inp))


def t_alloc_dev(c, ty):
    I = c.interp()
    I.allocs = []
    st = State()
    inp = SeqV([("s", ("arg", "input"), ZERO, symlen(("arg", "input"), 0, (1 << 62)))])
    r = c.slice_ref_to(I, st, inp, "bytes")
    c.run(I, c.gkey("g_dev", ty), [r], st)
    alloc_obs(c, I, "decoding %s from a slice" % short(ty), seq_len(inp))


def t_alloc_unframe(c, ty):
    I = c.interp()
    I.allocs = []
    k = c.gkey("g_unframe", ty)
    mty = c.p.pointee(c.argtys(k)[0])
    st = State()
    inp = SeqV([("s", ("arg", "payload"), ZERO, symlen(("arg", "payload"), 0, (1 << 62)))])
    flds = c.p.fields(mty)
    tty = dict(flds)["message_type"]
    for j in range(len(c.p.types[tty]["vs"])):
        mv = AdtV(mty, 0, [AdtV(tty, j, []) if f == "message_type" else VecV(inp) for f, _ in flds])
        s = st.copy()
        c.run(I, k, [c.ref_to(I, s, mv, "m")], s)
    alloc_obs(c, I, "unframing %s" % short(ty), seq_len(inp))


def c34_tasks(p, tier):
    out = []
    for g, ty in sorted(p.gkey):
        t = {"g_de": t_alloc_de, "g_dev": t_alloc_dev, "g_unframe": t_alloc_unframe}.get(g)
        if t is not None:
            out.append((t, (ty,)))
    return out


# ================================================================================ C35 exposure
NX = "noiseexplorer_nx::types::"
HOLDERS = [NX + "Key", NX + "PrivateKey", NX + "Psk", NX + "Keypair", SESSION, "stratumv2::network::ConnectionEncryptor", "stratumv2::network::NoiseConfig"]
SESSIONS = [SESSION, "stratumv2::network::ConnectionEncryptor"]
PRINTS = {"g_debug": "Debug", "g_display": "Display", "g_lowerhex": "LowerHex"}


def holders(c, I, ty):
    """[(what, value with recognizable secrets, state)]"""
    p = c.p
    i = p.find(ty)
    if i is None:
        raise Undecided("type %s not found" % ty)
    st = State()
    if ty == NX + "Keypair":
        _, v, st = keypair(c, I, st, "sA")
        return [("a key pair", v, st)]
    if ty in (NX + "Key", NX + "PrivateKey", NX + "Psk"):
        root = {"Key": "key_from_bytes", "PrivateKey": "sk_from_bytes", "Psk": "psk_from_bytes"}[ty.split("::")[-1]]
        v, st = one(c.run(I, c.key(root), [sym_seq(I, "sA", 32)], st), "key construction")
        return [("a key", v, st)]
    if ty == SESSION:
        h = handshake(c, I)
        return [("a session", h.st.objs[o], h.st) for o in (h.A, h.R)] + [("a session in its handshake", h.mid.objs[o], h.mid) for o in (h.A, h.R)]
    if ty.endswith("NoiseConfig"):
        _, k, st = keypair(c, I, st, "sA")
        key = c.key("cfg_noise")
        v, st = one(c.run(I, key, [I.mk_sym(("arg", "m"), c.argtys(key)[0]), k], st), "configuration")
        return [("a configuration", v, st)]
    h = handshake(c, I)
    st = h.st
    fs = p.fields(i)
    if len(fs) == 1 and p.tname(fs[0][1]) == SESSION:
        return [("a connection", AdtV(i, 0, [st.objs[o]]), st) for o in (h.A, h.R)]
    raise Undecided("shape of %s" % ty)


def reaches(I, st, x, depth=0):
    """secret values an argument of a printing call leads to"""
    if depth > 8 or x is None:
        return []
    if isinstance(x, RefV):
        try:
            v = I.slice_of(st, x) if x.r is not None else I.deref(st, x)
        except Undecided:
            return []
        return reaches(I, st, v, depth + 1)
    if isinstance(x, AdtV):
        return [y for f in x.f for y in reaches(I, st, f, depth + 1)]
    if isinstance(x, Sym) and isinstance(x.t, tuple) and x.t and x.t[0] in ("fmtargs", "call"):
        return [y for f in x.t[1:] for y in reaches(I, st, f, depth + 1)] or ([x] if secret(x) else [])
    if isinstance(x, tuple):
        return [y for f in x for y in reaches(I, st, f, depth + 1)]
    if isinstance(x, SeqV):
        out = [y for s in x.s if s[0] in ("e", "r") for y in reaches(I, st, s[1], depth + 1)]
        return out or ([x] if secret(x) else [])
    if isinstance(x, VecV):
        return reaches(I, st, x.seq, depth + 1)
    return [x] if secret(x) else []


def t_print(c, g, ty):
    name = "%s of %s shows no secret" % (PRINTS[g], short(ty))
    if (g, ty) not in c.p.gkey:
        if c.p.find(ty) is None:
            raise Undecided("type %s not found" % ty)
        c.ok(name, "not implemented", kind="exposure")
        return
    I = c.interp()
    vals = holders(c, I, ty)
    key = c.gkey(g, ty)
    for what, v, st in vals:
        st = st.copy()
        r = c.ref_to(I, st, v, "x")
        I.fmtout = []
        c.run(I, key, [r, I.mk_sym(("arg", "f"), c.argtys(key)[1])], st)
        hit = False
        for args, s, stk in I.fmtout:
            bad = [y for x in args for y in reaches(I, s, x)]
            if bad:
                hit = True
                repo = [z for z in stk if z[2] in REPO_CRATES]
                site = repo[0] if repo else stk[0]
                c.bad(name, "printing %s hands %s to the formatter at %s" % (what, brief(bad[0], 100), site[1]), "%s (%s)" % (site[0], site[1]), kind="exposure", dep=bad, st=s)
                break
        if not hit:
            c.ok(name, kind="exposure")
        I.fmtout = None


def t_unique(c, ty):
    name = "%s cannot be duplicated" % short(ty)
    if c.p.find(ty) is None:
        raise Undecided("type %s not found" % ty)
    if ("g_clone", ty) not in c.p.gkey:
        c.ok(name, kind="exposure")
        return
    I = c.interp()
    key = c.gkey("g_clone", ty)
    for what, v, st in holders(c, I, ty):
        st = st.copy()
        r = c.ref_to(I, st, v, "x")
        for w, s in c.run(I, key, [r], st):
            bad = secret_leaves(w)
            if bad:
                c.bad(name, "a copy of %s holds the same keys, so both would encrypt with the same nonces: %s" % (what, brief(bad[0][1], 100)), kind="exposure", dep=[bad[0][1]], st=s)
            else:
                c.ok(name, kind="exposure")


def c35_tasks(p, tier):
    return [(t_print, (g, ty)) for ty in HOLDERS for g in sorted(PRINTS)] + [(t_unique, (ty,)) for ty in SESSIONS]


# ================================================================================ C36 fresh objects
CFG = {"cfg_noise": "a Noise configuration", "cfg_network": "a network configuration", "cfg_server": "a server configuration"}


def t_config(c, root):
    I = c.interp()
    key = c.key(root)
    a = c.symargs(I, key)
    names = c.argnames(key)
    outs = c.run(I, key, a, State())
    n = CFG[root]
    for v, s in outs:
        fs = c.p.fields(v.ty)
        c.req("%s has a part for each argument" % n, len(fs) >= len(a), "has %d parts" % len(fs), kind="stored")
        for x, ty, nm in zip(a, c.argtys(key), names):
            mine = [j for j, (_, t) in enumerate(fs) if t == ty]
            if not mine:
                raise Undecided("%s keeps its arguments in another form" % n)
            hits = [j for j in mine if veq(I, s, v.f[j], x) is True]
            c.req("%s holds the value it was given" % n, bool(hits), "its %s is %s" % (fs[mine[0]][0], brief(v.f[mine[0]], 120)), kind="stored", dep=[v.f[j] for j in mine], st=s)
    c.panic_obs(I, "making %s returns" % n)


def t_manager(c):
    I = c.interp()
    for v, s in c.run(I, c.key("chan_mgr_new"), [], State()):
        for n, s2 in c.run(I, c.key("chan_mgr_connections"), [v], s):
            c.req("a new channel manager knows no connection", s2.decide(c_eq(n, ZERO)), "it has %s" % brief(n), kind="stored", dep=[n], st=s2)


def c36_tasks(p, tier):
    return [(t_config, (r,)) for r in sorted(CFG)] + [(t_manager, ()), (t_peer_new, ())]


# ================================================================================ C38 shared state
RAND = (r"^rand", r"^getrandom")
CLOCK = (r"^(std|core|alloc)::time::(SystemTime|Instant)::(now|elapsed)",)
DRAWS = "kp_default authority_gen ns_init ns_responder ns_initiator ns_send ns_recv enc_inbound enc_outbound enc_init enc_recv channel_id".split()
TIMED = "cert_verify time_now".split()


def effect_roots(p):
    pre = ("ns_", "pk_", "sk_", "key_", "psk_", "kp_", "enc_", "peer_", "cfg_", "chan_mgr", "cert_", "ser_", "authority_", "channel_id", "ne_", "se_", "conv_", "time_")
    return sorted(r for r in p.rootkey if r.startswith(pre))


def t_effects(c, root):
    allowed = (RAND if root in DRAWS else ()) + (CLOCK if root in TIMED else ())
    label = root + (" (fresh randomness apart)" if root in DRAWS else " (the clock apart)" if root in TIMED else "")
    t_pure(c, c.key(root), label, allowed)


def c38_tasks(p, tier):
    return [(t_effects, (r,)) for r in effect_roots(p)]


# ================================================================================ C41 channel numbers
def rand_terms(x, out=None):
    """the draws a value is made of"""
    out = [] if out is None else out
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if id(y) in seen or y is None or isinstance(y, (str, int)):
            continue
        seen.add(id(y))
        if isinstance(y, tuple):
            if y and y[0] in ("rand", "randkey"):
                if y not in out:
                    out.append(y)
                continue
            todo += [z for z in y]
        elif isinstance(y, list):
            todo += y
        elif isinstance(y, L):
            todo += [a for a, _ in y.t]
        elif isinstance(y, Atom):
            todo += list(y.args)
        elif isinstance(y, SeqV):
            todo += [z for q in y.s for z in q[1:]]
        elif isinstance(y, Sym):
            todo.append(y.t)
    return out


def drawn_bit(b):
    """is it one bit of a draw, as drawn or inverted?"""
    a = b[1] if b[0] == "n" else b[0]
    if isinstance(a, Atom) and a.op in ("lin", "wrap") and isinstance(a.args[0], L):
        x = a.args[0]
        a = x.t[0][0] if len(x.t) == 1 and abs(x.t[0][1]) == 1 else None
    return isinstance(a, Atom) and a.op in ("sym", "elem") and isinstance(a.args[0], tuple) and bool(a.args[0]) and a.args[0][0] == "rand"


def t_numbers(c):
    """two numbers handed out one after the other"""
    from .p_sess import secure_rng
    I = c.interp()
    key = c.key("channel_id")
    n = 0
    I.draw_limit = 5
    firsts = c.run(I, key, [], State())
    for v0, s0 in firsts[:6]:
        I.draw_limit = sum(1 for e in s0.ev if e[0] == "rand") + 5
        for v, s in c.run(I, key, [], s0)[:6]:
            if not isinstance(v0, L) or not isinstance(v, L):
                c.und("a channel number is read", brief(v, 80), kind="draw")
                continue
            n += 1
            d0, d = rand_terms(v0), rand_terms(v)
            c.req("a channel number is drawn at random", bool(d), "is %s" % brief(v, 120), kind="draw", dep=[v], st=s)
            if not d:
                continue
            c.req("a channel number is a new draw each time", not set(map(str, d)) & set(map(str, d0)), "made of %s, like the one before" % brief(v, 120), kind="draw", dep=[v], st=s)
            r = [secure_rng(t[2]) if len(t) > 2 else None for t in d]
            if any(x is None for x in r) and False not in r:
                c.und("channel numbers come from a secure generator", "generator of %s not known" % brief(v, 80), kind="draw")
            else:
                c.req("channel numbers come from a secure generator", False not in r, "made of %s" % brief(v, 160), kind="draw", st=s)
            # spread: the range the number lies in, or the bits of it that are drawn
            lo, hi = s.rng(v)
            name = "channel numbers spread over the 32-bit numbers"
            if hi - lo < (1 << 32) - (1 << 20):
                c.bad(name, "they lie in %d..=%d" % (lo, hi), kind="draw", st=s)
                continue
            b = I.bits_of(s, v, 32)
            if b is None or any(isinstance(x, tuple) and not drawn_bit(x) for x in b):
                c.und(name, "form %s" % brief(v, 100), kind="draw")
                continue
            fixed = [i for i, x in enumerate(b) if isinstance(x, int)]
            c.req(name, not fixed and len(set(b)) == 32, "bits %s are %s" % (fixed[:4], "always the same" if fixed else "copies of others"), kind="draw", st=s)
    c.req("channel numbers are handed out", n > 0, "never", kind="draw")


def t_number_state(c):
    from .p_msg import effects
    c.root = key = c.key("channel_id")
    bad, _ = effects(c, key, RAND)
    if bad is not None:
        c.bad("channel numbers rest on no state shared with earlier ones", bad[0], bad[1], "effects")
    else:
        c.ok("channel numbers rest on no state shared with earlier ones", kind="effects")


def c41_tasks(p, tier):
    return [(t_numbers, ()), (t_number_state, ())]


# ================================================================================ C39 threads
def thr_names():
    import os
    import re
    from .build import VERIF
    src = open(os.path.join(VERIF, "witness", "src", "lib.rs")).read()
    return re.findall(r"^pub fn ((?:mv|sh)_\w+)\(\) \{\n    (?:movable|sharable)::<([^\n]*)>\(\)", src, re.M)


def t_thread(c, root, ty):
    what = "%s can be %s" % (ty.replace("stratumv2::", ""), "moved to another thread" if root.startswith("mv_") else "used from several threads at once")
    c.root = None
    if root in c.p.rootkey:
        c.ok(what, kind="auto-trait")
        return
    why = c.p.dropped.get(root, "")
    if "cannot be sent between threads safely" in why or "cannot be shared between threads safely" in why:
        lines = [ln.strip() for ln in why.split("\n") if ln.startswith(("error", "   = note", "note:", "help:")) or "cannot be" in ln]
        at = [ln.strip()[4:] for ln in why.split("\n") if ln.strip().startswith("-->") and "src/lib.rs" not in ln or "/repo/" in ln and "-->" in ln]
        c.bad(what, "the compiler refuses: " + " | ".join(lines)[:500], at[0] if at else "/repo", kind="auto-trait")
    else:
        c.und(what, "the witness no longer compiles", "/repo", kind="auto-trait")


UNSHARED = {"Send": ("Rc", "Weak", "MutexGuard", "RwLockReadGuard", "RwLockWriteGuard"), "Sync": ("Rc", "Weak", "Cell", "RefCell", "OnceCell")}


def holds(p, i, bad, seen):
    """the first type of that kind a value of type i is made of (what a lock guards apart)"""
    if i in seen:
        return None
    seen.add(i)
    t = p.types[i]
    d = (p.adt_def(i) or "").split("::")[-1]
    if d in bad:
        return p.tname(i)
    if d in ("Mutex", "RwLock"):
        return None
    sub_ = [x for _, x in p.fields(i)] if t["k"] == "adt" and p.adt_def(i).split("::")[0] in REPO_CRATES else []
    sub_ += [a if isinstance(a, int) else a[1] for a in t.get("args", ()) if isinstance(a, int) or isinstance(a, list) and a and a[0] == "ty"]
    for x in sub_:
        r = holds(p, x, bad, seen)
        if r:
            return r
    return None


def t_unsafe_auto(c):
    """what an unsafe impl asserts is looked at in the type's fields"""
    name = "thread safety is inferred by the compiler, not asserted against it"
    n = 0
    for tr, st, *_ in c.p.impls:
        tn = tr.split("::")[-1]
        if tn not in ("Send", "Sync"):
            continue
        n += 1
        try:
            r = holds(c.p, st, UNSHARED[tn], set())
        except Exception:
            r = None
        if r:
            c.bad(name, "unsafe impl %s for %s, which holds a %s" % (tn, c.p.tname(st), r), "/repo", kind="auto-trait")
        else:
            c.und(name, "unsafe impl %s for %s" % (tn, c.p.tname(st)), "/repo", kind="auto-trait")
    if not n:
        c.ok(name, kind="auto-trait")


def c39_tasks(p, tier):
    return [(t_thread, x) for x in thr_names()] + [(t_unsafe_auto, ())]
