"""Noise sessions, continued: typestate over all call sequences, secrets, forbidden keys, key
provenance; the connection wrapper and the peer queue."""
from .core import *
from .models import dh_seq, pub_seq, seqeq
from .p_noise import *

MASK = (1 << 64) - 1


# ------------------------------------------------------------------------------ secret terms
def secret(x, names=("sA", "sB", "eA", "eB", "eX"), memo=None):
    """does a value depend on a private key or a shared secret other than through a public function of it
    (public key, ciphertext, tag)?"""
    memo = {} if memo is None else memo

    def go(v):
        if v is None or isinstance(v, (str, int, bool, float, bytes)):
            return False
        k = id(v)
        if k in memo:
            return memo[k][1]
        memo[k] = (v, False)
        r = look(v)
        memo[k] = (v, r)
        return r

    def look(v):
        if isinstance(v, L):
            return any(go(a) for a, _ in v.t)
        if isinstance(v, Atom):
            if v.op == "len":
                return False
            if v.op == "bits":
                return any(go(z) for b in v.args[0] if isinstance(b, tuple) for z in b)
            return any(go(a) for a in v.args)
        if isinstance(v, SeqV):
            return any(go(s[1]) for s in v.s)
        if isinstance(v, VecV):
            return go(v.seq)
        if isinstance(v, AdtV):
            return any(go(f) for f in v.f)
        if isinstance(v, BoolV):
            return False
        if isinstance(v, Sym):
            return go(v.t)
        if isinstance(v, frozenset):
            return any(go(z) for z in v)
        if isinstance(v, tuple) and v:
            h = v[0]
            if h == "arg":
                return len(v) > 1 and v[1] in names
            if h in ("DH", "DHS", "randkey", "rand"):
                return True
            if h == "PUB" or h in ("MAC", "DEC"):
                return False
            if h == "ENC":
                # the keystream block used for rekeying is the next key
                return len(v) > 2 and v[2] == REKEY_NONCE and go(v[1])
            return any(go(z) for z in v)
        return False
    return go(x)


REKEY_NONCE = bytes_seq([0] * 4 + [0xff] * 8)


def secret_leaves(v):
    return [(p, x) for p, x in leaves(v) if secret(x)]


# ------------------------------------------------------------------------------ C23
def ended(c, I, st, o, what):
    """end the session and look at what its memory held"""
    v = st.objs[o]
    s0 = st.copy()
    s0.objs.pop(o, None)
    I.watch = frozenset((SESSION,))
    try:
        outs = c.run(I, c.key("ns_end"), [v], s0)
    finally:
        I.watch = frozenset()
    if not outs:
        c.bad("ending a session %s returns" % what, "it never returns", kind="secrets", st=s0)
    for _, s in outs:
        gone = newev(s, s0, "gone")
        if not gone:
            raise Undecided("the session's memory is not released when it is ended")
        for e in gone:
            bad = secret_leaves(e[1])
            c.req("ending a session %s leaves no secret in its memory" % what, not bad, "still held: %s" % "; ".join(brief(x, 100) for _, x in bad[:3]),
                  kind="secrets", dep=[x for _, x in bad], st=s)


def errstates(c, I, st, root, o, buf):
    """one state per way a message is refused"""
    seen, out = set(), []
    for e, _, s in msg(c, I, st, root, o, buf)[1]:
        k = (c.errname(e), s.objs[o])
        if k not in seen:
            seen.add(k)
            out.append((c.errname(e), s))
    return out


def anybuf(I, name, lo=0, hi=1 << 40):
    t = ("arg", name)
    I.srcty[t] = I.u8
    return SeqV([("s", t, ZERO, symlen(t, lo, hi))])


def t_end(c, role):
    I = c.interp()
    h = handshake(c, I)
    o = h.A if role else h.R
    who = "as initiator" if role else "as responder"
    st0 = State()
    sk, kp, st0 = keypair(c, I, st0, "sA")
    fresh = init(c, I, st0, role, h.pro, kp, o)
    ended(c, I, fresh, o, "%s right after its creation" % who)
    sk, ke, s1 = keypair(c, I, fresh, "eA")
    withe = setk(c, I, s1, o, ke)
    ended(c, I, withe, o, "%s with an ephemeral key set" % who)
    buf = anybuf(I, "any")
    # own ephemeral key drawn by the session
    if role:
        oks, errs = msg(c, I, fresh, "ns_send", o, anybuf(I, "a", 32, MAXMSG))
        for _, s in oks:
            ended(c, I, s, o, "%s after the first message with a generated ephemeral key" % who)
    mid = h.mid if role else h.mid2
    ended(c, I, mid, o, "%s in the middle of the handshake" % who)
    root = "ns_recv" if role else "ns_send"
    for nm, s in errstates(c, I, mid, root, o, buf):
        ended(c, I, s, o, "%s after a failed second message (%s)" % (who, nm))
        for nm2, s2 in errstates(c, I, s, root, o, anybuf(I, "any2"))[:4]:
            ended(c, I, s2, o, "%s after two failed second messages (%s, %s)" % (who, nm, nm2))
    ended(c, I, h.st, o, "%s after the handshake" % who)
    g, gb, _ = general(c, I, h, o)
    ended(c, I, g, o, "%s after any number of messages" % who)
    for root in ("ns_send", "ns_recv"):
        for nm, s in errstates(c, I, g, root, o, anybuf(I, "any3")):
            ended(c, I, s, o, "%s after a failed transport message (%s, %s)" % (who, root[3:], nm))
    for root in ("ns_rekey_local", "ns_rekey_remote", "ns_clear_local", "ns_clear_remote"):
        for _, s in op(c, I, g, root, o):
            ended(c, I, s, o, "%s after %s" % (who, root[3:]))
    sk, kx, s1 = keypair(c, I, h.st, "eX")
    ended(c, I, setk(c, I, s1, o, kx), o, "%s with an ephemeral key set after the handshake" % who)


def t_wiped(c, role):
    """which secrets a live session keeps"""
    I = c.interp()
    h = handshake(c, I)
    o = h.A if role else h.R
    who = "initiator" if role else "responder"
    k1, k2 = h.ref.k1, h.ref.k2

    def keeps(s, allowed, what):
        bad = [(p, x) for p, x in secret_leaves(s.objs[o]) if not any(isinstance(x, SeqV) and seq_align(I, s, x, a) is True for a in allowed)]
        c.req("%s: %s" % (who, what), not bad, "still held: %s" % "; ".join(brief(x, 100) for _, x in bad[:3]), kind="secrets", dep=[x for _, x in bad], st=s)
    keeps(h.st, (k1, k2), "once the handshake is complete only the two transport keys are kept")
    g, buf, _ = general(c, I, h, o)
    for root in ("ns_send", "ns_recv"):
        for b, s in msg(c, I, g, root, o, buf)[0]:
            keeps(s, (k1, k2), "a transport message leaves only the two transport keys (%s)" % root[3:])
    for _, s in live(I, op(c, I, g, "ns_rekey_local", o), k1, k2):
        keeps(s, (rekeyed(k1), k2), "rekeying the local direction forgets the old key")
    for _, s in live(I, op(c, I, g, "ns_rekey_remote", o), k1, k2):
        keeps(s, (k1, rekeyed(k2)), "rekeying the remote direction forgets the old key")
    for a, b, ka, kb in (("ns_clear_local", "ns_clear_remote", k1, k2), ("ns_clear_remote", "ns_clear_local", k2, k1)):
        s = one(op(c, I, g, a, o), a)[1]
        keeps(s, (kb,), "%s forgets that direction's key" % a[3:])
        s = one(op(c, I, s, b, o), b)[1]
        keeps(s, (), "clearing both directions forgets both keys (%s first)" % a[3:])
        for root, ev in (("ns_send", "enc"), ("ns_recv", "dec")):
            oks, errs = msg(c, I, s, root, o, anybuf(I, "cl"))
            c.req("%s: with cleared keys nothing is %s" % (who, "sent" if ev == "enc" else "received"), not oks, "succeeds", kind="secrets", st=oks[0][1] if oks else None)
            for e, _, s2 in errs:
                c.req("%s: with cleared keys the cipher is not called (%s)" % (who, root[3:]), not newev(s2, s, "enc", "dec", "decfail"), "called", kind="secrets", st=s2)
                c.req("%s: with cleared keys the refusal is EmptyKeyError or a length or exhaustion error (%s)" % (who, root[3:]),
                      c.errname(e) in ("EmptyKeyError", "UnsupportedMessageLengthError", "ExhaustedNonceError"), "is %s" % c.errname(e), kind="secrets", st=s2)


def t_keypair_clear(c):
    I = c.interp()
    st = State()
    sk, kp, st = keypair(c, I, st, "sA")
    o = ("a", "kp")
    st = put(st, o, kp)
    for _, s in c.run(I, c.key("kp_clear"), [RefV(o)], st):
        z = all(isinstance(x, SeqV) and seq_align(I, s, x, bytes_seq([0] * 32)) is True for _, x in leaves(s.objs[o]))
        c.req("clearing a key pair leaves zero bytes only", z, "left: %s" % brief(s.objs[o], 160), kind="secrets", dep=[s.objs[o]], st=s)
        for v, s2 in c.run(I, c.key("kp_is_empty"), [RefV(o)], s):
            c.req("a cleared key pair is empty", isinstance(v, BoolV) and s2.decide(v.c) is True, "not empty", kind="secrets", dep=[v], st=s2)


def c23_tasks(p, tier):
    return [(t_end, (True,)), (t_end, (False,)), (t_wiped, (True,)), (t_wiped, (False,)), (t_keypair_clear, ())]


# ------------------------------------------------------------------------------ all call sequences (C17, C20)
def abstract(c, I, st, v):
    """forget everything about a session but its shape, flags and small counters -> (value, fresh state)"""
    n = State()
    v0 = v

    def go(v, ty, path):
        if isinstance(v, AdtV):
            fs = c.p.fields(v.ty, v.v) if c.p.is_enum(v.ty) else c.p.fields(v.ty)
            return AdtV(v.ty, v.v, [go(x, fs[i][1], path + (v.v, i)) for i, x in enumerate(v.f)])
        if isinstance(v, BoolV):
            d = st.decide(v.c)
            if d is None:
                return I.mk_sym(("any", path), ty)
            return BoolV(d)
        if isinstance(v, L):
            lo, hi = st.rng(v)
            if lo == hi and lo <= 2:
                return K(lo)
            w = c.p.types[ty].get("w", 64)
            return A(Atom("sym", (("any", path),), w, 3 if lo >= 3 else 0, counter_top(c, v0, path, w)))
        if isinstance(v, SeqV):
            k = st.cval(seq_len(v))
            if k is None:
                raise Undecided("variable-length session field")
            I.srcty[("any", path)] = I.u8
            return SeqV([("s", ("any", path), ZERO, K(k))]) if k else v
        if isinstance(v, VecV):
            I.srcty[("any", path)] = I.u8
            t = ("any", path)
            return VecV(SeqV([("s", t, ZERO, symlen(t, 0, 1 << 40))]))
        if isinstance(v, Sym):
            return I.mk_sym(("any", path), v.ty)
        if v is UNINIT or isinstance(v, (RefV, FnV)):
            return v
        raise Undecided("session field %s" % brief(v, 60))
    return go(v, v.ty, ()), n


NSOPS = ("ns_send", "ns_recv", "ns_rekey_local", "ns_rekey_remote", "ns_clear_local", "ns_clear_remote", "ns_set_e")
VIEWS = ("ns_hash", "ns_count", "ns_remote", "ns_is_transport")


def explore(c, I, role, visit, limit=60):
    """every abstract session state reachable from a fresh session of this role under any sequence of public
    operations; visit(phase, session, steps) sees each state once, with the outcomes of every operation:
    steps = {root: [(kind, value, state)]}"""
    o = ("a", "N")
    st = State()
    sk, kp, st = keypair(c, I, st, "sA")
    st = init(c, I, st, role, sym_seq(I, "prologue"), kp, o)
    v, s0 = abstract(c, I, st, st.objs[o])
    todo, seen = [(0, v)], set()
    buf = anybuf(I, "buf")
    ke = I.mk_sym(("arg", "anykeypair"), c.argtys(c.key("ns_set_e"))[1])
    while todo:
        ph, v = todo.pop(0)
        if (ph, v) in seen:
            continue
        seen.add((ph, v))
        if len(seen) > limit:
            raise Undecided("too many abstract session states")
        base = put(State(), o, v)
        steps = {}
        for root in VIEWS:
            steps[root] = [("view", x, s) for x, s in c.run(I, c.key(root), [RefV(o)], base)]
        for root in NSOPS:
            if root in ("ns_send", "ns_recv"):
                b = put(base, B_, buf)
                oks, errs = c.split(c.run(I, c.key(root), [RefV(o), RefV(B_, (), (ZERO, seq_len(buf)))], b))
                steps[root] = [("ok", None, s) for _, s in oks] + [("err", e, s) for e, s in errs]
            else:
                steps[root] = [("done", x, s) for x, s in c.run(I, c.key(root), [RefV(o)] + ([ke] if root == "ns_set_e" else []), base)]
            for kind, _, s in steps[root]:
                nv, _ = abstract(c, I, s, s.objs[o])
                todo.append((min(2, ph + 1) if kind == "ok" else ph, nv))
        steps["ns_end"] = [("done", x, s) for x, s in c.run(I, c.key("ns_end"), [v], State())]
        visit(ph, v, base, steps)
    return len(seen)


def t_typestate(c, role):
    I = c.interp()
    who = "initiator" if role else "responder"
    o = ("a", "N")
    legal = {0: {"ns_send": role, "ns_recv": not role}, 1: {"ns_send": not role, "ns_recv": role}, 2: {"ns_send": True, "ns_recv": True}}
    reached = set()
    buf = anybuf(I, "buf")

    def visit(ph, v, base, steps):
        reached.add(ph)
        for k, x, s in steps["ns_is_transport"]:
            c.req("%s: transport mode is reported exactly after both handshake messages (after %d)" % (who, ph), isinstance(x, BoolV) and s.decide(x.c) is (ph == 2),
                  "reports %s after %d successful messages" % (brief(x, 40), ph), kind="typestate", st=s)
        for root, what in (("ns_hash", "the handshake hash"), ("ns_remote", "the remote static key")):
            for k, x, s in steps[root]:
                some = isinstance(x, AdtV) and c.p.vname(x.ty, x.v) == "Some"
                c.req("%s: %s is available exactly after both handshake messages (after %d)" % (who, what, ph), some is (ph == 2),
                      "%s after %d successful messages" % ("available" if some else "hidden", ph), kind="typestate", st=s)
        cnt = [x for _, x, _ in steps["ns_count"]]
        for root in ("ns_send", "ns_recv"):
            verb = "sends" if root == "ns_send" else "receives"
            oks = [s for k, _, s in steps[root] if k == "ok"]
            errs = [(e, s) for k, e, s in steps[root] if k == "err"]
            if not legal[ph][root]:
                c.req("%s: never %s a message as its %s" % (who, verb, "first step" if ph == 0 else "second step"), not oks, "succeeds", kind="typestate", st=oks[0] if oks else None)
                for e, s in errs:
                    c.req("%s: a refused out-of-order step changes nothing (%s)" % (who, root[3:]), veq(I, s, s.objs[o], v), "the session changes", kind="typestate", st=s)
                    c.req("%s: a refused out-of-order step leaves the buffer alone (%s)" % (who, root[3:]), seq_align(I, s, s.objs[B_], buf), "the buffer changes", kind="typestate", st=s)
            else:
                c.req("%s: step %d can be taken (%s)" % (who, ph, root[3:]), bool(oks), "never succeeds", kind="typestate", some=True)
            for s in oks:
                for x, s2 in c.run(I, c.key("ns_count"), [RefV(o)], s):
                    c.req("%s: a message is counted once (%s)" % (who, root[3:]), len(cnt) == 1 and s2.decide(c_eq(x, add(cnt[0], ONE))), "count goes from %s to %s" % (brief(cnt[0]), brief(x)),
                          kind="typestate", dep=[x] + cnt, st=s2)
            for e, s in errs:
                for x, s2 in c.run(I, c.key("ns_count"), [RefV(o)], s):
                    c.req("%s: a refused message is not counted (%s)" % (who, root[3:]), len(cnt) == 1 and s2.decide(c_eq(x, cnt[0])), "count goes from %s to %s" % (brief(cnt[0]), brief(x)),
                          kind="typestate", dep=[x] + cnt, st=s2)
    n = explore(c, I, role, visit)
    c.req("%s: handshake and transport are reachable" % who, reached == {0, 1, 2}, "phases %s" % sorted(reached), kind="typestate", some=True)
    c.stats["abstract_states"] = c.stats.get("abstract_states", 0) + n


def c20_tasks(p, tier):
    return [(t_typestate, (True,)), (t_typestate, (False,))]


# ------------------------------------------------------------------------------ C17
def overflow128(pn):
    return False


def t_session_panics(c, role):
    I = c.interp()
    n = explore(c, I, role, lambda *a: None)
    c.root = c.key("ns_send")
    c.panic_obs(I, "no sequence of session calls panics (%s)" % ("initiator" if role else "responder"))
    c.stats["abstract_states"] = c.stats.get("abstract_states", 0) + n


KEYROOTS = ("ns_init", "ns_responder", "ns_initiator", "pk_from_bytes", "pk_from_str", "pk_empty", "pk_is_empty", "pk_as_bytes", "sk_from_bytes", "sk_from_str", "sk_public",
            "sk_is_empty", "key_from_bytes", "key_from_str", "key_is_empty", "key_public", "psk_from_str", "psk_is_empty", "kp_default", "kp_empty", "kp_from_private",
            "kp_from_key", "kp_public", "kp_is_empty", "kp_clear", "cert_new", "cert_msg_new", "cert_msg_sign", "cert_format_new", "cert_verify", "authority_gen",
            "enc_inbound", "enc_outbound", "peer_new", "channel_id", "cfg_noise", "cfg_network", "cfg_server", "time_to_u32", "time_now", "u24_to_u32", "u24_to_usize",
            "mt_new", "mt_ext", "mt_msg", "mt_chan", "message_new")


def t_root_panics(c, root):
    """one public function on arbitrary valid arguments"""
    I = c.interp()
    key = c.key(root)
    args = c.symargs(I, key)
    st = State()
    outs = c.run(I, key, args, st)
    c.req("%s returns" % root, bool(outs), "never returns", kind="panic-reachability")
    c.root = key
    c.panic_obs(I, "%s never panics" % root)


def t_wrapper_panics(c, root):
    """the connection wrapper, to a fixpoint over its abstract states"""
    I = c.interp()
    o = ("a", "E")
    key = c.key(root)
    outs = c.run(I, key, c.symargs(I, key), State())
    todo, seen = [], set()
    for v, s in outs:
        todo.append(abstract(c, I, s, v)[0])
    while todo:
        v = todo.pop(0)
        if v in seen:
            continue
        seen.add(v)
        if len(seen) > 60:
            raise Undecided("too many abstract states")
        for r in ("enc_init", "enc_recv", "enc_complete", "enc_remote"):
            st = put(State(), o, v)
            buf = anybuf(I, "buf")
            st = put(st, B_, buf)
            args = [RefV(o)] + ([RefV(B_, (), (ZERO, seq_len(buf)))] if r == "enc_recv" else [])
            for x, s in c.run(I, c.key(r), args, st):
                todo.append(abstract(c, I, s, s.objs[o])[0])
    c.root = c.key("enc_recv")
    c.panic_obs(I, "no sequence of calls panics (%s)" % root)
    c.stats["abstract_states"] = c.stats.get("abstract_states", 0) + len(seen)


def c17_tasks(p, tier):
    return [(t_session_panics, (True,)), (t_session_panics, (False,)), (t_wrapper_panics, ("enc_inbound",)), (t_wrapper_panics, ("enc_outbound",))] + \
        [(t_root_panics, (r,)) for r in KEYROOTS]


# ------------------------------------------------------------------------------ C24
def _c(tail, head, mid=0xff):
    return [head] + [mid] * 30 + [tail]


# the values cr.yp.to/ecdh.html lists as the ones to reject
FORBIDDEN = [
    [0] * 32,
    [1] + [0] * 31,
    [224, 235, 122, 124, 59, 65, 184, 174, 22, 86, 227, 250, 241, 159, 196, 106, 218, 9, 141, 235, 156, 50, 177, 253, 134, 98, 5, 22, 95, 73, 184, 0],
    [95, 156, 149, 188, 163, 80, 140, 36, 177, 208, 177, 85, 156, 131, 239, 91, 4, 68, 92, 196, 88, 28, 142, 134, 216, 34, 78, 221, 208, 159, 17, 87],
    _c(127, 236), _c(127, 237), _c(127, 238),
    [205, 235, 122, 124, 59, 65, 184, 174, 22, 86, 227, 250, 241, 159, 196, 106, 218, 9, 141, 235, 156, 50, 177, 253, 134, 98, 5, 22, 95, 73, 184, 128],
    [76, 156, 149, 188, 163, 80, 140, 36, 177, 208, 177, 85, 156, 131, 239, 91, 4, 68, 92, 196, 88, 28, 142, 134, 216, 34, 78, 221, 208, 159, 17, 215],
    _c(255, 217), _c(255, 218), _c(255, 219),
]


def pin(I, st, src, const):
    """the state in which the 32 bytes of a term are these constants, or None"""
    s = st.copy()
    I.srcty.setdefault(src, I.u8)
    for i, b in enumerate(const):
        if not s.assume(c_eq(I.elemval(src, K(i)), K(b))):
            return None
    return s


def same_bytes(I, s, q, const):
    return s.cval(seq_len(q)) == 32 and seq_align(I, s, q, bytes_seq(const)) is True


def others(c, I, st, q):
    """states in which the 32 bytes are none of the forbidden values"""
    for i in range(32):
        s = st.copy()
        x = I.seq_get(s, q, K(i))
        if all(s.assume(c_not(c_eq(x, K(b)))) for b in sorted({f[i] for f in FORBIDDEN})):
            yield i, s
    s = st.copy()
    if all(s.assume(c_not(seqeq(I, s, q, bytes_seq(f)))) for f in FORBIDDEN):
        yield None, s


def only(c, who, what, oks, errs):
    if what is not None:
        c.req("%s accepts a value whose byte %d no forbidden value has" % (who, what), bool(oks) and not errs, "refused with %s" % [c.errname(e) for e, _ in errs], kind="forbidden",
              st=errs[0][1] if errs else None)
    elif oks and not errs:
        c.ok("%s refuses forbidden values only" % who, kind="forbidden")
    else:
        c.und("%s refuses forbidden values only" % who, "comparison not resolved", kind="forbidden")


def t_pk_constructors(c):
    I = c.interp()
    q = sym_seq(I, "key", 32)
    oks, errs = c.split(c.run(I, c.key("pk_from_bytes"), [q], State()))
    c.req("from_bytes accepts some value", bool(oks), "none", kind="forbidden", some=True)
    for v, s in oks:
        x = [y for _, y in leaves(v)]
        c.req("from_bytes keeps the bytes it is given", len(x) == 1 and isinstance(x[0], SeqV) and seq_align(I, s, x[0], q), "holds %s" % brief(v, 120), kind="forbidden", dep=x, st=s)
    for what, s in others(c, I, State(), q):
        oks, errs = c.split(c.run(I, c.key("pk_from_bytes"), [q], s))
        only(c, "from_bytes", what, oks, errs)
    for n, f in enumerate(FORBIDDEN):
        oks, errs = c.split(c.run(I, c.key("pk_from_bytes"), [bytes_seq(f)], State()))
        c.req("from_bytes refuses forbidden value %d" % n, not oks, "accepted", kind="forbidden")
        for e, s in errs:
            c.req("from_bytes reports a forbidden value as InvalidPublicKeyError", c.errname(e) == "InvalidPublicKeyError", "reports %s" % c.errname(e), kind="forbidden", st=s)
    key = c.key("pk_from_str")
    st = State()
    arg = c.symargs(I, key)
    text = I.slice_of(st, arg[0])
    src = ("unhex", text)
    n32 = c_eq(symlen(src, 0, 1 << 62), K(32))
    for n, f in enumerate(FORBIDDEN):
        s = pin(I, st, src, f)
        if s is None or not s.assume(n32) or not s.assume(("hexok", text)):
            raise Undecided("hex text of a forbidden value")
        oks, errs = c.split(c.run(I, key, arg, s))
        c.req("from_str refuses forbidden value %d" % n, not oks, "accepted", kind="forbidden", st=oks[0][1] if oks else None)
    oks, errs = c.split(c.run(I, key, arg, st))
    c.req("from_str accepts some text", bool(oks), "none", kind="forbidden", some=True)
    for v, s in oks:
        x = [y for _, y in leaves(v)]
        want = SeqV([("s", src, ZERO, K(32))])
        c.req("from_str holds the bytes the text spells", len(x) == 1 and isinstance(x[0], SeqV) and seq_align(I, s, x[0], want), "holds %s" % brief(v, 120), kind="forbidden", dep=x, st=s)
    s0 = st.copy()
    given(s0, n32)
    for what, s in others(c, I, s0, SeqV([("s", src, ZERO, K(32))])):
        if s.assume(("hexok", text)):
            oks, errs = c.split(c.run(I, key, arg, s))
            only(c, "from_str", what, oks, errs)


def t_pk_handshake(c, n):
    I = c.interp()
    f = FORBIDDEN[n]
    h = handshake(c, I)
    key = bytes_seq(f)
    # the peer's ephemeral key, in either message
    st0 = State()
    sk, kp, st0 = keypair(c, I, st0, "sB")
    fresh = init(c, I, st0, False, h.pro, kp, h.R)
    for who, o, st in (("responder", h.R, fresh), ("initiator", h.A, h.pre_fin)):
        tail = anybuf(I, "tail")
        buf = cat(key, tail)
        oks, errs = msg(c, I, st, "ns_recv", o, buf)
        c.req("the %s refuses a handshake message with forbidden ephemeral key %d" % (who, n), not oks, "accepted", kind="forbidden", st=oks[0][1] if oks else None)
        for e, b, s in errs:
            ev = [x for x in newev(s, st, "dh") if seq_align(I, s, x[2], key) is not False]
            c.req("the %s derives nothing from forbidden ephemeral key %d" % (who, n), not ev, "the key agreement is still computed", kind="forbidden", st=s)
            for v, s2 in accessor(c, I, s, "ns_is_transport", o):
                c.req("the %s stays out of transport mode after forbidden ephemeral key %d" % (who, n), s2.decide(v.c) is False, "transport mode", kind="forbidden", st=s2)
    # the responder's static key, sent encrypted
    buf = anybuf(I, "m2", 96, MAXMSG)
    st = h.pre_fin
    srcs = []
    for b, s in msg(c, I, st, "ns_recv", h.A, buf)[0]:
        for e in newev(s, st, "dec"):
            if s.cval(seq_len(e[4])) == 32:
                t = ("DEC",) + tuple(e[1:])
                if t not in srcs:
                    srcs.append(t)
    if not srcs:
        c.und("static key %d" % n, "no decrypted static key seen", kind="forbidden")
    for src in srcs:
        s = pin(I, st, src, f)
        if s is None:
            raise Undecided("decrypted key")
        oks, errs = msg(c, I, s, "ns_recv", h.A, buf)
        c.req("the initiator refuses forbidden static key %d" % n, not oks, "accepted", kind="forbidden", st=oks[0][1] if oks else None)
        for e, b, s2 in errs:
            ev = [x for x in newev(s2, s, "dh") if seq_align(I, s2, x[2], key) is True]
            c.req("the initiator derives nothing from forbidden static key %d" % n, not ev, "the key agreement is still computed", kind="forbidden", st=s2)


def c24_tasks(p, tier):
    return [(t_pk_constructors, ())] + [(t_pk_handshake, (n,)) for n in range(len(FORBIDDEN))]


# ------------------------------------------------------------------------------ C25
def t_drain(c, k=None):
    """a drain of a queue of any length, or of a queue of k messages"""
    I = c.interp()
    I.lock_len = k
    st = State()
    key = c.key("peer_pending")
    outs = c.run(I, key, c.symargs(I, key), st)
    c.req("draining returns", bool(outs), "never returns", kind="drain")
    for v, s in outs:
        locks = [e for e in s.ev if e[0] == "lock"]
        unlocks = [e for e in s.ev if e[0] == "unlock"]
        if len(locks) != 1:
            c.bad("the queue is locked once per drain", "locked %d times" % len(locks), kind="drain", st=s)
            continue
        c.ok("the queue is locked once per drain", kind="drain")
        c.req("the lock is released", len(unlocks) == 1, "released %d times" % len(unlocks), kind="drain", st=s)
        data = locks[0][2]
        c.req("draining returns exactly the queued messages in order", veq(I, s, v, data), "returns %s, the queue held %s" % (brief(v, 100), brief(data, 100)), kind="drain", dep=[v], st=s)
        left = lockdata(c, I, s, locks[0][1])
        c.req("the queue is left empty", isinstance(left, VecV) and s.decide(c_eq(seq_len(left.seq), ZERO)), "left holding %s" % brief(left, 100), kind="drain", dep=[left], st=s)


def lockdata(c, I, s, ref):
    v = I.deref(s, ref)
    ty = v.ty
    for _ in range(4):
        fs = dict((n, (j, f)) for j, (n, f) in enumerate(c.p.fields(ty)))
        n = "data" if "data" in fs else "value" if "value" in fs else None
        if n is None:
            break
        v = I.field(v, fs[n][0]) if not isinstance(v, AdtV) else v.f[fs[n][0]]
        ty = fs[n][1]
    return v


def t_peer_new(c):
    I = c.interp()
    key = c.key("peer_new")
    a = c.symargs(I, key)
    for v, s in c.run(I, key, a, State()):
        vecs = []

        def go(x):
            if isinstance(x, VecV):
                vecs.append(x)
            elif isinstance(x, AdtV):
                for y in x.f:
                    go(y)
        for (n, ty), x in zip(c.p.fields(v.ty), v.f):
            if ty == c.argtys(key)[0]:
                c.req("a new peer keeps its encryptor", veq(I, s, x, a[0]), "holds %s" % brief(x, 100), kind="drain", st=s)
            else:
                go(x)
        c.req("a new peer has nothing pending", bool(vecs) and all(s.decide(c_eq(seq_len(x.seq), ZERO)) is True for x in vecs), "starts with %s" % brief(vecs, 100), kind="drain", st=s)


def c25_tasks(p, tier):
    return [(t_drain, ()), (t_peer_new, ())] + [(t_drain, (k,)) for k in range(4 if tier == "quick" else 9)]


# ------------------------------------------------------------------------------ C27
SECURE = ("ThreadRng", "OsRng")


def secure_rng(rn):
    """True / False / None"""
    if isinstance(rn, tuple) and rn and rn[0] == "seeded":
        if rn[1] in ("from_entropy", "from_os_rng"):
            return True
        if rn[1] == "from_rng":
            return secure_rng(rn[2])
        if rn[1] == "seed_from_u64":
            return False
        q = rn[2].seq if isinstance(rn[2], VecV) else rn[2]
        return secure_bytes(q)
    n = str(rn).split("::")[-1]
    if n in SECURE:
        return True
    if n in ("SmallRng", "StepRng", "XorShiftRng", "IsaacRng", "Isaac64Rng", "Pcg32", "Pcg64", "Lcg64Xsh32", "Lcg128Xsl64"):
        return False
    return None


def draws(q):
    """the generator draws 32 bytes are made of: {(term, offset)} or None"""
    out = []
    for s in q.s:
        if s[0] == "s" and isinstance(s[1], tuple) and s[1][0] in ("randkey", "rand") and s[2].const is not None and s[3].const is not None:
            out += [(s[1], s[2].c + i) for i in range(s[3].c)]
        elif s[0] == "e" and isinstance(s[1], L) and s[1].c == 0 and len(s[1].t) == 1 and s[1].t[0][1] == 1:
            a = s[1].t[0][0]
            if a.op == "elem" and isinstance(a.args[0], tuple) and a.args[0][0] in ("randkey", "rand") and a.args[1].const is not None:
                out.append((a.args[0], a.args[1].c))
            elif a.op == "sym" and isinstance(a.args[0], tuple) and a.args[0][0] == "rand" and a.w == 8:
                out.append((a.args[0], 0))
            else:
                return None
        else:
            return None
    return out


def secure_bytes(q):
    if not isinstance(q, SeqV):
        return None
    d = draws(q)
    if d is None or len(d) < 32 or len(set(d)) != len(d):
        return False
    r = [secure_rng(t[2]) for t, _ in d]
    return False if False in r else None if None in r else True


def need_secure(c, name, s, q):
    r = secure_bytes(q) if isinstance(q, SeqV) else None
    if r is None:
        c.und(name, "generator of %s not known" % brief(q, 80), kind="keys")
    else:
        c.req(name, r, "made of %s" % brief(q, 160), kind="keys", dep=[q], st=s)


def pair_of(c, I, s, kp):
    """(private bytes, public bytes) of a key pair, told apart as the one that is public"""
    o = ("a", "kpview")
    s = put(s, o, kp)
    pubs = c.run(I, c.key("kp_public"), [RefV(o)], s)
    if len(pubs) != 1:
        raise Undecided("key pair view")
    pub = [x for _, x in leaves(pubs[0][0])][0]
    priv = [x for _, x in leaves(kp) if x != pub]
    if len(priv) != 1:
        return None, pub, pubs[0][1]
    return priv[0], pub, pubs[0][1]


def t_generate(c):
    I = c.interp()
    st = State()
    prev = None
    for n in (1, 2):
        outs = c.run(I, c.key("kp_default"), [], st)
        for v, s in outs:
            priv, pub, s = pair_of(c, I, s, v)
            need_secure(c, "a generated key pair's private key is 32 fresh bytes of a secure generator", s, priv)
            if isinstance(priv, SeqV):
                c.req("a generated key pair's public key belongs to its private key", seq_align(I, s, pub, pub_seq(priv)), "is %s" % brief(pub, 120), kind="keys", dep=[pub], st=s)
                c.req("every generated key pair is a new one", prev is None or priv != prev, "same key again", kind="keys", st=s)
                prev = priv
            st = s
    for v, s in c.run(I, c.key("authority_gen"), [], State()):
        if isinstance(v, Sym) and v.t and v.t[0] == "edkp":
            r = secure_rng(v.t[2])
            if r is None:
                c.und("an authority key comes from a secure generator", "generator %s not known" % str(v.t[2]), kind="keys")
            else:
                c.req("an authority key comes from a secure generator", r, "comes from %s" % str(v.t[2])[:100], kind="keys", st=s)
        else:
            c.und("an authority key comes from a secure generator", "value %s" % brief(v, 100), kind="keys")


def t_derive(c):
    """public keys belong to the given private keys"""
    I = c.interp()
    q = sym_seq(I, "sA", 32)
    for v, s in c.run(I, c.key("sk_from_bytes"), [q], State()):
        x = [y for _, y in leaves(v)]
        c.req("a private key holds the bytes it is given", len(x) == 1 and seq_align(I, s, x[0], q), "holds %s" % brief(v, 100), kind="keys", dep=x, st=s)
        o = ("a", "sk")
        for r, root, by in (("generate_public_key", "sk_public", True), ("from_private_key", "kp_from_private", False), ("from_key", "kp_from_key", False)):
            s1 = put(s, o, v)
            outs = c.run(I, c.key(root), [RefV(o) if by else v], s1)
            oks, errs = c.split(outs)
            c.req("%s works" % r, bool(oks), "never", kind="keys")
            for y, s2 in oks:
                if by:
                    pub = [z for _, z in leaves(y)][0]
                else:
                    priv, pub, s2 = pair_of(c, I, s2, y)
                    c.req("%s keeps the private key" % r, isinstance(priv, SeqV) and seq_align(I, s2, priv, q), "holds %s" % brief(priv, 100), kind="keys", dep=[priv], st=s2)
                c.req("%s gives the public key of the private key" % r, seq_align(I, s2, pub, pub_seq(q)), "gives %s" % brief(pub, 100), kind="keys", dep=[pub], st=s2)
            for e, s2 in errs:
                c.req("%s refuses only the empty key" % r, same_bytes(I, s2, q, [0] * 32), "refuses others with %s" % c.errname(e), kind="keys", st=s2)
    for v, s in c.run(I, c.key("key_public"), [c.ref_to(I, *(lambda s0: (s0, q, "kb"))(st0 := State()))], st0):
        pub = [z for _, z in leaves(v)][0]
        c.req("Key::generate_public_key gives the public key of the private key", seq_align(I, s, pub, pub_seq(q)), "gives %s" % brief(pub, 100), kind="keys", dep=[pub], st=s)
    for root in ("sk_from_str", "key_from_str", "psk_from_str"):
        key = c.key(root)
        arg = c.symargs(I, key)
        st = State()
        text = I.slice_of(st, arg[0])
        src = ("unhex", text)
        n = symlen(src, 0, 1 << 62)
        oks, errs = c.split(c.run(I, key, arg, st))
        for v, s in oks:
            x = [y for _, y in leaves(v)]
            c.req("%s holds the bytes the text spells" % root, len(x) == 1 and seq_align(I, s, x[0], SeqV([("s", src, ZERO, K(32))])), "holds %s" % brief(v, 100), kind="keys", dep=x, st=s)
            c.req("%s accepts 64 hexadecimal digits only" % root, s.decide(c_eq(n, K(32))) is True and s.truth.get(("hexok", text)) is True, "accepts other texts", kind="keys", st=s)
        s = st.copy()
        if s.assume(c_eq(n, K(32))) and s.assume(("hexok", text)):
            oks, errs = c.split(c.run(I, key, arg, s))
            c.req("%s accepts 64 hexadecimal digits" % root, bool(oks) and not errs, "refused", kind="keys", st=errs[0][1] if errs else None)
    for root in ("key_from_bytes", "psk_from_bytes"):
        for v, s in c.run(I, c.key(root), [q], State()):
            x = [y for _, y in leaves(v)]
            c.req("%s holds the bytes it is given" % root, len(x) == 1 and seq_align(I, s, x[0], q), "holds %s" % brief(v, 100), kind="keys", dep=x, st=s)
    # emptiness: exactly the all-zero key
    for root in ("sk_is_empty", "key_is_empty", "psk_is_empty", "pk_is_empty"):
        key = c.key(root)
        arg = c.symargs(I, key)
        st = State()
        b = [x for _, x in leaves(I.deref(st, arg[0]))]
        if len(b) != 1 or not isinstance(b[0], SeqV) or st.cval(seq_len(b[0])) != 32:
            raise Undecided("key shape")
        at = [I.seq_get(st, b[0], K(i)) for i in range(32)]
        s = st.copy()
        for x in at:
            given(s, c_eq(x, ZERO))
        for v, s2 in c.run(I, key, arg, s):
            c.req("%s: the all-zero key is empty" % root, s2.decide(v.c), "says %s" % brief(v, 60), kind="keys", dep=[v], st=s2)
        for i, x in enumerate(at):
            s = st.copy()
            given(s, c_not(c_eq(x, ZERO)))
            for v, s2 in c.run(I, key, arg, s):
                d = s2.decide(v.c)
                c.req("%s: a key with a nonzero byte %d is not empty" % (root, i), None if d is None else not d, "says %s" % brief(v, 60), kind="keys", dep=[v], st=s2)


def t_session_keys(c):
    """sessions draw their own keys"""
    I = c.interp()
    seen = []
    st = State()
    o1, o2 = ("a", "A"), ("a", "R")

    def only_secure(what, v, s):
        qs = [x for _, x in leaves(v) if isinstance(x, SeqV) and secret(x)]
        c.req("%s has a key of its own" % what, bool(qs), "no secret", kind="keys")
        for q in qs:
            need_secure(c, "%s's keys are fresh bytes of a secure generator" % what, s, q)
            seen.append(q)
    (v, st), = c.run(I, c.key("ns_initiator"), [], st)
    only_secure("a new initiator", v, st)
    st = put(st, o1, v)
    root = c.key("ns_responder")
    nt = c.argtys(root)[0]
    none = AdtV(nt, c.p.variant(nt, "None"), [])
    (v, st), = c.run(I, root, [none], st)
    only_secure("a new responder without a given key", v, st)
    st = put(st, o2, v)
    n1 = symlen(("arg", "msgA"), 96, MAXMSG)
    I.srcty[("arg", "msgA")] = I.u8
    buf = SeqV([("s", ("arg", "msgA"), ZERO, n1)])

    def eph(b, s, what):
        q = I.seq_slice(s, b, ZERO, K(32))
        t = q.s[0][1] if len(q.s) == 1 and q.s[0][0] == "s" else None
        if isinstance(t, tuple) and t[0] == "PUB":
            need_secure(c, "%s's ephemeral key is fresh bytes of a secure generator" % what, s, t[1])
            c.req("%s's ephemeral key is used for nothing else" % what, t[1] not in seen, "key reused", kind="keys", st=s)
            seen.append(t[1])
        else:
            c.req("%s sends the public key of its ephemeral key" % what, False, "sends %s" % brief(q, 100), kind="keys", dep=[q], st=s)
    oks, errs = msg(c, I, st, "ns_send", o1, buf)
    for b, s in oks[:1]:
        eph(b, s, "the initiator")
        o3, _ = msg(c, I, s, "ns_recv", o2, b)
        for b2, s2 in o3[:1]:
            o4, _ = msg(c, I, s2, "ns_send", o2, b2)
            for b3, s3 in o4[:1]:
                eph(b3, s3, "the responder")
                # a second session has its own
                (v, s4), = c.run(I, c.key("ns_initiator"), [], s3)
                only_secure("another initiator", v, s4)
                s4 = put(s4, o1, v)
                for b5, s5 in msg(c, I, s4, "ns_send", o1, buf)[0][:1]:
                    eph(b5, s5, "another initiator")
            c.req("the responder generates an ephemeral key", bool(o4), "never", kind="keys")
    c.req("the initiator generates an ephemeral key", bool(oks), "never", kind="keys")
    k = [draws(q) for q in seen if isinstance(q, SeqV)]
    flat = [t for d in k if d for t in {x[0] for x in d}]
    c.req("no two keys share random bytes", len(flat) == len(set(flat)), "draws reused", kind="keys")


def t_own_keys(c, root):
    """no key handed out twice through a value made once and shared"""
    from .p_misc import RAND
    from .p_msg import effects
    c.root = key = c.key(root)
    bad, _ = effects(c, key, RAND)
    if bad is not None and "made once from" in bad[0]:
        c.bad("%s draws keys of its own" % root, bad[0], bad[1], "keys")
    else:
        c.ok("%s draws keys of its own" % root, kind="keys")


def c27_tasks(p, tier):
    made = [r for r in "ns_initiator ns_responder enc_inbound enc_outbound kp_default authority_gen ns_send ns_recv enc_init enc_recv".split() if r in p.rootkey]
    return [(t_generate, ()), (t_derive, ()), (t_session_keys, ())] + [(t_own_keys, (r,)) for r in made]


# ------------------------------------------------------------------------------ C28
EXTERNAL = "a dependency's error"


def t_source(c, root):
    """the cause of an error is nothing, a part of it, or a cause of a part of it"""
    I = c.interp()
    key = c.key(root)
    rty = c.argtys(key)[0]
    ety = c.p.pointee(rty)
    nm = c.p.tname(ety).split("::")[-1]
    for i, var in enumerate(c.p.types[ety]["vs"]):
        o = ("a", "err%d" % i)
        st = State()
        fs = c.p.fields(ety, i)
        st.objs[o] = AdtV(ety, i, [I.mk_sym(("arg", "err", i, n), t) for n, t in fs])
        # a nested error of the library itself is enumerated too
        cases = [st]
        for j, (n, t) in enumerate(fs):
            if c.p.is_enum(t) and (c.p.adt_def(t) or "").split("::")[0] in ("noiseexplorer_nx", "stratumv2"):
                cases = []
                for k in range(len(c.p.types[t]["vs"])):
                    s = st.copy()
                    f = list(st.objs[o].f)
                    f[j] = AdtV(t, k, [I.mk_sym(("arg", "err", i, k, n2), t2) for n2, t2 in c.p.fields(t, k)])
                    s.objs[o] = AdtV(ety, i, f)
                    cases.append(s)
        for s0 in cases:
            for v, s in c.run(I, key, [RefV(o)], s0):
                name = "%s::%s: the cause is none or a part of the error" % (nm, var["n"])
                if isinstance(v, AdtV) and c.p.vname(v.ty, v.v) == "None":
                    c.ok(name, kind="error-chain")
                    continue
                x = v.f[0] if isinstance(v, AdtV) and v.f else v
                while isinstance(x, AdtV) and x.f and not isinstance(x, RefV):
                    x = x.f[0]
                if isinstance(x, RefV):
                    if x.o == o:
                        c.req(name, len(x.p) > 0, "the error is its own cause", kind="error-chain", st=s)
                    else:
                        c.ok(name, "part of the error", kind="error-chain")
                elif not fs:
                    c.und(name, "cause %s" % brief(v, 80), kind="error-chain")
                elif fromparts(v, i):
                    # left to a dependency's error type
                    c.ok(name, EXTERNAL, kind="error-chain")
                else:
                    c.und(name, "cause %s" % brief(v, 80), kind="error-chain")
    c.root = key
    c.panic_obs(I, "asking any %s for its cause returns" % nm)


def fromparts(v, i):
    t = v.t if isinstance(v, Sym) else None
    return isinstance(t, tuple) and t and t[0] in ("call", "ret", "cause")


CONV = {"conv_noise": "NoiseError", "conv_io": "IOError", "conv_utf8": "Utf8Error", "conv_from_utf8": "FromUtf8Error", "conv_time": "SystemTimeError", "conv_slice": "TryFromSliceError"}


def t_conv(c, root):
    I = c.interp()
    key = c.key(root)
    a = c.symargs(I, key)
    for v, s in c.run(I, key, a, State()):
        n = c.errname(v)
        c.req("converting a lower-level error keeps its kind (%s)" % CONV[root], n == CONV[root], "becomes %s" % n, kind="error-chain", st=s)
        c.req("converting a lower-level error keeps the error itself (%s)" % CONV[root], isinstance(v, AdtV) and len(v.f) == 1 and veq(I, s, v.f[0], a[0]), "holds %s" % brief(v, 100), kind="error-chain", st=s)


def t_kept(c, key, label):
    """an operation that fails because a layer below failed reports that layer's error, in its own variant"""
    I = c.interp()
    I.track_err = True
    args = c.symargs(I, key)
    n = 0
    for v, s in c.run(I, key, args, State()):
        if not (isinstance(v, AdtV) and c.p.is_enum(v.ty) and c.p.vname(v.ty, v.v) == "Err"):
            continue
        low = [e[1] for e in s.ev if e[0] == "deperr"]
        if not low:
            continue
        n += 1
        e = v.f[0]
        c.req("%s: a failure of a lower layer is reported as that failure" % label, holds(e, low[-1]),
              "%s is reported as %s" % (brief(low[-1], 80), brief(e, 120)), kind="error-chain", dep=[e], st=s)
    if n == 0:
        c.ok("%s: a failure of a lower layer is reported as that failure" % label, "calls nothing below that fails", kind="error-chain")
    c.root = key


def holds(e, low):
    return e == low or (isinstance(e, AdtV) and any(holds(x, low) for x in e.f))


def fallible(p):
    """every entry point that returns the library's own Result"""
    out = []
    for root in sorted(p.rootkey):
        if root.startswith(("conv_", "g_")):
            continue
        key = p.rootkey[root]
        r = p.fns[key]["locals"][0]
        if p.is_enum(r) and p.adt_def(r) == "std::result::Result":
            out.append((key, root))
    for (g, t) in sorted(p.gkey):
        if g in ("g_ser", "g_serv", "g_de", "g_dev", "g_frame", "g_unframe"):
            out.append((p.gkey[(g, t)], "%s of %s" % (GOPS[g], t.split("::")[-1] if t.count("::") < 2 else "::".join(t.split("::")[1:]))))
    return out


GOPS = {"g_ser": "serialize", "g_serv": "serialize to bytes", "g_de": "deserialize", "g_dev": "deserialize bytes", "g_frame": "frame", "g_unframe": "unframe"}


def c28_tasks(p, tier):
    return [(t_kept, x) for x in fallible(p)] + [(t_source, ("ne_source",)), (t_source, ("se_source",))] + [(t_conv, (r,)) for r in CONV]


# ------------------------------------------------------------------------------ C29
def vec_of(v):
    return v.seq if isinstance(v, VecV) else None


def t_wrapper(c, given):
    """two connection ends talk to each other; every buffer is compared with the NX transcript"""
    I = c.interp()
    st = State()
    oO, oI = ("a", "out"), ("a", "in")
    who = "with a given static key" if given else "with a static key of its own"
    root = c.key("enc_inbound")
    nt = c.argtys(root)[0]
    if given:
        sB, kp, st = keypair(c, I, st, "sB")
        a = AdtV(nt, c.p.variant(nt, "Some"), [kp])
    else:
        sB, a = None, AdtV(nt, c.p.variant(nt, "None"), [])
    v, st = one(c.run(I, root, [a], st), "inbound construction")
    st = put(st, oI, v)
    v, st = one(c.run(I, c.key("enc_outbound"), [], st), "outbound construction")
    st = put(st, oO, v)

    def status(s, o, name, done, remote=None):
        for x, s2 in c.run(I, c.key("enc_complete"), [RefV(o)], s):
            c.req("%s: completion is reported exactly when the handshake is complete" % name, s2.decide(x.c) is done, "reports %s" % brief(x, 40), kind="wrapper", st=s2)
        for x, s2 in c.run(I, c.key("enc_remote"), [RefV(o)], s):
            q = opt(c, x)
            if not done:
                c.req("%s: no remote key before the handshake is complete" % name, q is None, "reveals %s" % brief(q, 60), kind="wrapper", st=s2)
            elif remote is not None:
                c.req("%s: the remote key is the peer's static key" % name, q is not None and seq_align(I, s2, q, remote), "is %s" % brief(q, 120), kind="wrapper", dep=[q], st=s2)

    def call(root, o, s, buf=None):
        args = [RefV(o)]
        if buf is not None:
            s = put(s, B_, buf)
            args.append(RefV(B_, (), (ZERO, seq_len(buf))))
        return c.split(c.run(I, c.key(root), args, s))

    def best(oks, errs, what):
        bad = [nerr(c, e) for e, _ in errs if nerr(c, e) not in CHANCE]
        c.req(what, bool(oks) and not bad, "refused with %s" % bad, kind="wrapper", st=errs[0][1] if errs else None)
        if not oks:
            raise Undecided(what)
        return vec_of(oks[0][0]), oks[0][1]
    status(st, oO, "outbound", False)
    status(st, oI, "inbound", False)
    # wrong way round
    for root, o, b, nm in (("enc_init", oI, None, "an inbound connection does not start a handshake"), ("enc_recv", oO, anybuf(I, "early"), "an outbound connection that has not started accepts nothing")):
        oks, errs = call(root, o, st, b)
        c.req(nm, not oks, "accepted", kind="wrapper", st=oks[0][1] if oks else None)
        for e, s in errs:
            status(s, o, nm + " and stays incomplete", False)
    # the first message
    oks, errs = call("enc_init", oO, st)
    m1, st = best(oks, errs, "an outbound connection starts a handshake")
    e = pubsrc(I, st, m1)
    if m1 is None or e is None:
        c.bad("the first message starts with a fresh ephemeral public key", "message %s" % brief(m1, 120), kind="wrapper", dep=[m1], st=st)
        return
    ref = NX(I, st, EMPTY)
    pay = I.seq_slice(st, m1, K(32), sub(seq_len(m1), K(32)))
    c.req("the first message leaves room for the answer", st.decide(c_and([c_le(K(96), seq_len(m1)), c_le(seq_len(m1), K(MAXMSG))])), "is %s bytes" % brief(seq_len(m1), 40), kind="wrapper", st=st)
    c.req("the unencrypted payload of the first message holds no secret", not secret(pay), "carries %s" % brief(pay, 100), kind="wrapper", dep=[pay], st=st)
    w1 = ref.msg_a(e, pay)
    status(st, oO, "outbound after the first message", False)
    # failure of the second step is reported and completes nothing
    x = anybuf(I, "forged")
    oks, errs = call("enc_recv", oI, st, x)
    for e2, s in errs:
        status(s, oI, "inbound after a refused message", False)
        c.req("a refused message is reported as a Noise error", c.errname(e2) == "NoiseError", "reported as %s" % c.errname(e2), kind="wrapper", st=s)
    # the second message
    oks, errs = call("enc_recv", oI, st, w1)
    m2, st = best(oks, errs, "an inbound connection answers the first message")
    c.req("the answer is the buffer the session filled", m2 is not None and seq_align(I, st, m2, st.objs[B_]), "is %s" % brief(m2, 120), kind="wrapper", dep=[m2], st=st)
    e = pubsrc(I, st, m2) if m2 is not None else None
    if e is None:
        c.bad("the second message starts with a fresh ephemeral public key", "message %s" % brief(m2, 120), kind="wrapper", dep=[m2], st=st)
        return
    if not given:
        cand = [q for q in secretkeys(st, "sk") if q != e]
        hit = None
        for q in cand:
            r2 = NX(I, st, EMPTY)
            r2.msg_a(ref.e, pay)
            w = r2.msg_b(e, q, I.seq_slice(st, w1, K(80), sub(seq_len(w1), K(96))))
            if seq_align(I, st, m2, w) is True:
                hit = q
        c.req("an inbound connection %s answers as NX prescribes" % who, hit is not None, "no generated key explains the answer", kind="wrapper", dep=[m2], st=st)
        sB = hit
        if hit is None:
            return
        need_secure(c, "the inbound connection's own static key is fresh bytes of a secure generator", st, sB)
        w2 = m2
    else:
        w2 = ref.msg_b(e, sB, I.seq_slice(st, w1, K(80), sub(seq_len(w1), K(96))))
        c.req("an inbound connection %s answers as NX prescribes" % who, seq_align(I, st, m2, w2), "answers %s" % brief(m2, 120), kind="wrapper", dep=[m2], st=st)
    status(st, oI, "inbound %s after both messages" % who, True)
    status(st, oO, "outbound before the second message", False)
    # a forged second message
    oks, errs = call("enc_recv", oO, st, anybuf(I, "forged2", 0, 95))
    c.req("an outbound connection refuses a truncated second message", not oks, "accepted", kind="wrapper", st=oks[0][1] if oks else None)
    oks, errs = call("enc_recv", oO, st, anybuf(I, "forged3"))
    for e2, s in errs:
        if newev(s, st, "decfail"):
            status(s, oO, "outbound after a forged second message", False)
            c.req("a forged second message is reported as a Noise error", c.errname(e2) == "NoiseError", "reported as %s" % c.errname(e2), kind="wrapper", st=s)
    oks, errs = call("enc_recv", oO, st, w2)
    m3, st = best(oks, errs, "an outbound connection accepts the second message")
    status(st, oO, "outbound %s after both messages" % who, True, pub_seq(sB))


def nerr(c, e):
    n = c.errname(e)
    if n == "NoiseError" and e.f:
        return c.errname(e.f[0])
    return n


def pubsrc(I, s, q):
    """the private key whose public key a buffer starts with"""
    if q is None or s.decide(c_le(K(32), seq_len(q))) is not True:
        return None
    h = I.seq_slice(s, q, ZERO, K(32))
    if len(h.s) == 1 and h.s[0][0] == "s" and isinstance(h.s[0][1], tuple) and h.s[0][1][0] == "PUB" and h.s[0][2] == ZERO:
        return h.s[0][1][1]
    return None


def secretkeys(st, _):
    """every 32-byte run of generated key bytes held by the objects of a state"""
    out = []
    for k, v in st.objs.items():
        if isinstance(v, AdtV):
            for _, x in leaves(v):
                if isinstance(x, SeqV):
                    for s in x.s:
                        if s[0] == "s" and isinstance(s[1], tuple) and s[1][0] == "PUB" and isinstance(s[1][1], SeqV) and s[1][1] not in out:
                            out.append(s[1][1])
        for e in ():
            pass
    for e in st.ev:
        if e[0] == "dh" and e[1] not in out:
            out.append(e[1])
    return out


def t_wrapper_lengths(c):
    """an inbound connection's answer is as long as what it received, whatever the length"""
    I = c.interp()
    st = State()
    o = ("a", "in")
    root = c.key("enc_inbound")
    sB, kp, st = keypair(c, I, st, "sB")
    nt = c.argtys(root)[0]
    v, st = one(c.run(I, root, [AdtV(nt, c.p.variant(nt, "Some"), [kp])], st), "inbound construction")
    st = put(st, o, v)
    buf = anybuf(I, "first")
    n = seq_len(buf)
    st = put(st, B_, buf)
    oks, errs = c.split(c.run(I, c.key("enc_recv"), [RefV(o), RefV(B_, (), (ZERO, n))], st))
    c.req("some first message is answered", bool(oks), "none", kind="wrapper", some=True)
    for v, s in oks:
        q = vec_of(v)
        c.req("the answer is as long as the message", q is not None and s.decide(c_eq(seq_len(q), n)), "length %s" % brief(seq_len(q), 60) if q is not None else "?", kind="wrapper", st=s)
        c.req("the answer is the buffer the session filled", q is not None and seq_align(I, s, q, s.objs[B_]), "is %s" % brief(q, 100), kind="wrapper", dep=[q], st=s)
        c.req("an answer takes both handshake steps", s.decide(c_le(K(96), n)), "answered a message of %s bytes" % (s.rng(n),), kind="wrapper", st=s)
    s = st.copy()
    if s.assume(c_le(K(96), n)) and s.assume(c_le(n, K(MAXMSG))):
        oks, errs = c.split(c.run(I, c.key("enc_recv"), [RefV(o), RefV(B_, (), (ZERO, n))], s))
        bad = [(nerr(c, e), s2) for e, s2 in errs if nerr(c, e) not in CHANCE]
        c.req("every admissible first message is answered", bool(oks) and not bad, "refused with %s" % [x for x, _ in bad], kind="wrapper", st=bad[0][1] if bad else None)


def c29_tasks(p, tier):
    return [(t_wrapper, (True,)), (t_wrapper, (False,)), (t_wrapper_lengths, ())]
