"""Noise sessions: transcript conformance, nonces, roles, tampering, directions, secrets, keys.

Everything is driven through the public session operations; a session is an opaque value whose
fields are looked at only as "some leaf of the value", never by name."""
from .core import *
from .models import dh_seq, pub_seq, seqeq

MAXMSG = 65535
S_, B_ = ("a", "S"), ("a", "B")
CHANCE = ("EmptyKeyError", "InvalidPublicKeyError", "InvalidKeyError", "ExhaustedNonceError")
SESSION = "noiseexplorer_nx::noisesession::NoiseSession"


# ------------------------------------------------------------------------------ terms
def sym_seq(I, name, n=None, lo=0, hi=1 << 20):
    t = ("arg", name)
    I.srcty[t] = I.u8
    ln = K(n) if n is not None else symlen(t, lo, hi)
    return SeqV([("s", t, ZERO, ln)])


def cat(*qs):
    out = []
    for q in qs:
        out += list(q.s)
    return mkseq(out)


def Hs(q):
    return SeqV([("s", ("H", K(32), q), ZERO, K(32))])


def hmac(I, st, key, data):
    kb = [I.seq_get(st, key, K(i)) for i in range(32)] + [ZERO] * 32
    ip = mkseq([("e", I.binop(None, st, "BitXor", b, K(0x36), I.u8)) for b in kb])
    op = mkseq([("e", I.binop(None, st, "BitXor", b, K(0x5c), I.u8)) for b in kb])
    return Hs(cat(op, Hs(cat(ip, data))))


def hkdf2(I, st, ck, ikm):
    t = hmac(I, st, ck, ikm)
    o1 = hmac(I, st, t, bytes_seq([1]))
    o2 = hmac(I, st, t, cat(o1, bytes_seq([2])))
    return o1, o2


def nonce_seq(I, st, n):
    return mkseq([("e", ZERO)] * 4 + list(I.int_to_bytes(st, n, 64).s))


def aead(k, n, ad, m):
    t = (k, n, ad, m)
    return cat(SeqV([("s", ("ENC",) + t, ZERO, seq_len(m))] if seq_len(m) != ZERO else []), SeqV([("s", ("MAC",) + t, ZERO, K(16))]))


EMPTY = SeqV([])


class NX:
    """the NX pattern, written from the Noise specification (revision 34)"""

    def __init__(self, I, st, prologue):
        self.I, self.st = I, st
        self.h = Hs(bytes_seq(b"Noise_NX_25519_ChaChaPoly_BLAKE2s"))
        self.ck = self.h
        self.k = None
        self.n = 0
        self.secrets = []
        self.mix_hash(prologue)

    def mix_hash(self, d):
        self.h = Hs(cat(self.h, d))

    def mix_key(self, ikm):
        self.ck, self.k = hkdf2(self.I, self.st, self.ck, ikm)
        self.n = 0
        self.secrets += [self.ck, self.k, ikm]

    def enc_hash(self, m):
        c = aead(self.k, nonce_seq(self.I, self.st, K(self.n)), self.h, m)
        self.n += 1
        self.mix_hash(c)
        return c

    def msg_a(self, e, payload):
        self.e = e
        self.mix_hash(pub_seq(e))
        self.mix_hash(payload)
        return cat(pub_seq(e), payload)

    def msg_b(self, e, s, payload):
        self.mix_hash(pub_seq(e))
        self.mix_key(dh_seq(e, pub_seq(self.e)))
        cs = self.enc_hash(pub_seq(s))
        self.mix_key(dh_seq(s, pub_seq(self.e)))
        cp = self.enc_hash(payload)
        self.k1, self.k2 = hkdf2(self.I, self.st, self.ck, EMPTY)
        return cat(pub_seq(e), cs, cp)


def rekeyed(k):
    t = (k, bytes_seq([0] * 4 + [0xff] * 8), EMPTY, bytes_seq([0] * 32))
    return SeqV([("s", ("ENC",) + t, ZERO, K(32))])


# ------------------------------------------------------------------------------ running operations
def put(st, o, v):
    st = st.copy()
    st.objs[o] = v
    return st


def keypair(c, I, st, name):
    """a key pair from arbitrary private key bytes, through the public constructors -> (secret, pair, state)"""
    sk = sym_seq(I, name, 32)
    v, s = c.pick(c.run(I, c.key("sk_from_bytes"), [sk], st), "private key construction")
    oks, _ = c.split(c.run(I, c.key("kp_from_private"), [v], s))
    if not oks:
        raise Undecided("key pair construction")
    v, s = c.pick(oks, "key pair construction")
    return sk, v, s


def init(c, I, st, role, prologue, kp, o):
    st = st.copy()
    r = c.slice_ref_to(I, st, prologue, "prologue")
    outs = c.run(I, c.key("ns_init"), [BoolV(role), r, kp], st)
    v, s = c.pick(outs, "session construction")
    return put(s, o, v)


def op(c, I, st, root, o, *args):
    return c.run(I, c.key(root), [RefV(o)] + list(args), st)


def one(outs, what):
    return CUR[0].pick(outs, what)


def live(I, outs, *keys):
    """drop the outcomes in which one of these (derived) keys happens to be all-zero"""
    z = bytes_seq([0] * 32)
    return [(v, s) for v, s in outs if not any(s.decide(seqeq(I, s, k, z)) is True for k in keys)]


def setk(c, I, st, o, kp):
    return one(op(c, I, st, "ns_set_e", o, kp), "set_ephemeral")[1]


def msg(c, I, st, root, o, buf):
    """send/recv buf -> (oks [(buffer, state)], errs [(error, buffer, state)])"""
    st = put(st, B_, buf)
    oks, errs = c.split(op(c, I, st, root, o, RefV(B_, (), (ZERO, seq_len(buf)))))
    return [(s.objs[B_], s) for _, s in oks], [(e, s.objs[B_], s) for e, s in errs]


def named(name, o):
    return ("a", name + o)


def leaves(v, path=()):
    if isinstance(v, AdtV):
        for i, x in enumerate(v.f):
            yield from leaves(x, path + (v.v, i))
    elif isinstance(v, VecV):
        yield path, v.seq
    else:
        yield path, v


def newev(s, before, *kinds):
    return [e for e in s.ev[len(before.ev):] if e[0] in kinds]


class HS:
    """the legitimate handshake with symbolic keys, prologue and payloads"""


def handshake(c, I, check=None):
    """check(name, r, detail, dep, st) is called for every step when given"""
    h = HS()
    st = State()
    h.sA, kA, st = keypair(c, I, st, "sA")
    h.sB, kB, st = keypair(c, I, st, "sB")
    h.eA, keA, st = keypair(c, I, st, "eA")
    h.eB, keB, st = keypair(c, I, st, "eB")
    pro = sym_seq(I, "prologue")
    A_, R_ = ("a", "A"), ("a", "R")
    st = init(c, I, st, True, pro, kA, A_)
    st = init(c, I, st, False, pro, kB, R_)
    st = setk(c, I, st, A_, keA)
    st = setk(c, I, st, R_, keB)
    ref = NX(I, st, pro)
    n1 = symlen(("arg", "msgA"), 48, MAXMSG)
    b1 = SeqV([("s", ("arg", "msgA"), ZERO, n1)])
    n2 = symlen(("arg", "msgB"), 96, MAXMSG)
    b2 = SeqV([("s", ("arg", "msgB"), ZERO, n2)])
    I.srcty[("arg", "msgA")] = I.u8
    I.srcty[("arg", "msgB")] = I.u8
    pay1 = I.seq_slice(st, b1, K(32), sub(n1, K(32)))
    pay2 = I.seq_slice(st, b2, K(80), sub(n2, K(96)))

    def step(root, o, buf, s0, want, what):
        oks, errs = msg(c, I, s0, root, o, buf)
        for e, _, s in errs:
            if c.errname(e) not in CHANCE and check:
                check(what + " is accepted at every admissible length", False, "refused with %s at length in %s" % (c.errname(e) or brief(e), s.rng(seq_len(buf))), [], s)
        if not oks:
            if check:
                check(what + " is accepted at every admissible length", False, "never accepted", [], s0)
            if errs and all(c.errname(e) in CHANCE for e, _, _ in errs):
                raise Chance()
            raise Undecided("handshake cannot complete")
        if check and len(oks) == 1:
            check(what + " is accepted at every admissible length", True, "", [], s0)
        b, s = c.pick(oks, what)
        if check and want is not None:
            check(what + " is what NX prescribes", seq_align(I, s, b, want), "buffer holds %s" % brief(b, 160), [b], s)
        return b, s
    h.w1 = ref.msg_a(h.eA, pay1)
    m1, st = step("ns_send", A_, b1, st, h.w1, "the first handshake message")
    h.mid = st
    _, st = step("ns_recv", R_, m1 if check is None else h.w1, st, h.w1, "receiving the first handshake message")
    h.mid2 = st
    h.w2 = ref.msg_b(h.eB, h.sB, pay2)
    m2, st = step("ns_send", R_, b2, st, h.w2, "the second handshake message")
    w3 = cat(pub_seq(h.eB), pub_seq(h.sB), I.seq_slice(st, h.w2, K(64), K(16)), pay2, I.seq_slice(st, h.w2, sub(n2, K(16)), K(16)))
    h.pre_fin = st
    h.m2 = m2
    m3, st = step("ns_recv", A_, m2 if check is None else h.w2, st, None, "receiving the second handshake message")
    if check:
        check("the second handshake message's payload is recovered", seq_align(I, st, I.seq_slice(st, m3, K(80), sub(n2, K(96))), pay2),
              "got %s" % brief(I.seq_slice(st, m3, K(80), sub(n2, K(96))), 160), [m3], st)
    st = st.copy()
    st.objs.pop(B_, None)
    h.st, h.ref, h.A, h.R, h.pro = st, ref, A_, R_, pro
    return h


def accessor(c, I, st, root, o):
    outs = c.run(I, c.key(root), [RefV(o)], st)
    return outs


def opt(c, v):
    if isinstance(v, AdtV) and c.p.vname(v.ty, v.v) == "Some":
        x = v.f[0]
        while isinstance(x, AdtV) and len(x.f) == 1:
            x = x.f[0]
        return x
    if isinstance(v, AdtV) and c.p.vname(v.ty, v.v) == "None":
        return None
    raise Undecided("option %s" % brief(v, 80))


# ------------------------------------------------------------------------------ C18
def t_transcript(c):
    I = c.interp()

    def chk(name, r, detail, dep, st):
        c.req(name, r, detail, kind="transcript", dep=dep, st=st)
    h = handshake(c, I, chk)
    st = h.st
    for who, o in (("initiator", h.A), ("responder", h.R)):
        for v, s in accessor(c, I, st, "ns_hash", o):
            q = opt(c, v)
            c.req("the %s's handshake hash is what NX prescribes" % who, q is not None and seq_align(I, s, q, h.ref.h), "is %s" % brief(q, 160), kind="transcript", dep=[q], st=s)
    for v, s in accessor(c, I, st, "ns_remote", h.A):
        q = opt(c, v)
        c.req("the initiator learns the responder's static key", q is not None and seq_align(I, s, q, pub_seq(h.sB)), "learns %s" % brief(q, 160), kind="transcript", dep=[q], st=s)
    # transport: first three messages in each direction, read back by the peer
    buf = SeqV([("s", ("arg", "msg"), ZERO, symlen(("arg", "msg"), 16, MAXMSG))])
    I.srcty[("arg", "msg")] = I.u8
    n = seq_len(buf)
    for who, o, peer, key in (("initiator", h.A, h.R, h.ref.k1), ("responder", h.R, h.A, h.ref.k2)):
        s = st
        for i in range(3):
            m = I.seq_slice(s, buf, ZERO, sub(n, K(16)))
            oks, errs = msg(c, I, s, "ns_send", o, buf)
            bad = [c.errname(e) for e, _, _ in errs if c.errname(e) not in CHANCE]
            c.req("transport message %d of the %s is sent at every admissible length" % (i, who), bool(oks) and not bad, "refused with %s" % bad, kind="transcript")
            if not oks:
                break
            b, s = oks[0]
            want = aead(key, nonce_seq(I, s, K(i)), EMPTY, m)
            c.req("transport message %d of the %s is encrypted as Noise prescribes" % (i, who), seq_align(I, s, b, want), "buffer holds %s" % brief(b, 160), kind="transcript", dep=[b], st=s)
            oks, errs = msg(c, I, s, "ns_recv", peer, want)
            bad = [c.errname(e) for e, _, _ in errs if c.errname(e) not in CHANCE]
            c.req("transport message %d of the %s is accepted by its peer" % (i, who), bool(oks) and not bad, "refused with %s" % bad, kind="transcript")
            if not oks:
                break
            b, s = oks[0]
            c.req("transport message %d of the %s is read back unchanged" % (i, who), seq_align(I, s, I.seq_slice(s, b, ZERO, sub(n, K(16))), m), "read as %s" % brief(b, 160),
                  kind="transcript", dep=[b], st=s)


def t_lengths(c, role, phase):
    """outside 16..65535 bytes nothing is sent or received; the buffer is left alone"""
    I = c.interp()
    h = handshake(c, I)
    st, o = (h.st, h.A if role else h.R)
    for nm, lo, hi in (("shorter than a tag", 0, 15), ("longer than 65535 bytes", MAXMSG + 1, 1 << 40)):
        buf = SeqV([("s", ("arg", "m" + nm), ZERO, symlen(("arg", "m" + nm), lo, hi))])
        for root, verb in (("ns_send", "sent"), ("ns_recv", "received")):
            oks, errs = msg(c, I, st, root, o, buf)
            c.req("no transport message %s is %s" % (nm, verb), not oks, "accepted", kind="length", st=oks[0][1] if oks else None)
            for e, b, s in errs:
                c.req("a message %s is refused as UnsupportedMessageLengthError (%s)" % (nm, verb), c.errname(e) == "UnsupportedMessageLengthError", "refused with %s" % c.errname(e), kind="length", st=s)


def t_wire_minimum(c):
    """a handshake message too short for its mandatory fields is refused"""
    I = c.interp()
    h = handshake(c, I)
    for root, o, st, hi, what in (("ns_recv", h.R, h.mid, 31, "first"), ("ns_recv", h.A, h.pre_fin, 95, "second"), ("ns_send", h.R, h.mid2, 95, "second")):
        buf = SeqV([("s", ("arg", "short" + what), ZERO, symlen(("arg", "short" + what), 0, hi))])
        I.srcty[("arg", "short" + what)] = I.u8
        oks, errs = msg(c, I, st, root, o, buf)
        c.req("a too short %s handshake message is refused (%s)" % (what, root[3:]), not oks, "accepted", kind="length", st=oks[0][1] if oks else None)


def c18_tasks(p, tier):
    return [(t_transcript, ()), (t_lengths, (True, 2)), (t_lengths, (False, 2)), (t_wire_minimum, ())]


# ------------------------------------------------------------------------------ transport steps from arbitrary counters
def general(c, I, h, o, extra=()):
    """the session after the handshake with every counter that transport operations move made arbitrary"""
    base = h.st.objs[o]
    st = h.st
    buf = SeqV([("s", ("arg", "g"), ZERO, symlen(("arg", "g"), 16, MAXMSG))])
    I.srcty[("arg", "g")] = I.u8
    moved = {}
    b0 = dict(leaves(base))
    for root in ("ns_send", "ns_recv"):
        oks, _ = msg(c, I, st, root, o, buf)
        for b, s in oks:
            for p, x in leaves(s.objs[o]):
                y = b0.get(p)
                if y is None:
                    raise Undecided("session shape changes during transport")
                if x != y:
                    if not (isinstance(x, L) and isinstance(y, L)):
                        raise Undecided("a transport message changes more than counters")
                    moved[p] = y

    def rebuild(v, path=()):
        if isinstance(v, AdtV):
            return AdtV(v.ty, v.v, [rebuild(x, path + (v.v, i)) for i, x in enumerate(v.f)])
        if path in moved:
            ty = leafty(c, base, path)
            w = c.p.types[ty].get("w", 64)
            lo = st.rng(moved[path])[0]
            hi = counter_top(c, base, path, w)
            return A(Atom("sym", (("ctr", path),), w, lo, hi))
        return v
    g = put(st, o, rebuild(base))
    return g, buf, moved


def has_counter(p, ty, depth=0):
    t = p.types[ty]
    if t["k"] == "int":
        return t.get("w", 0) >= 64
    return depth < 6 and t["k"] == "adt" and t["ak"] == "struct" and not p.is_vec(ty) and any(has_counter(p, f, depth + 1) for _, f in p.fields(ty))


def counter_top(c, v, path, w):
    """the largest value a counter in v may have: the count of all messages, a field beside the cipher states, stays
    below 2^62 in any run; the numbers a cipher state uses up may be all used"""
    for var, i in zip(path[0:-2:2], path[1:-2:2]):
        v = v.f[i]
    fs = c.p.fields(v.ty, v.v) if c.p.is_enum(v.ty) else c.p.fields(v.ty)
    ints = [i for i, (_, t) in enumerate(fs) if c.p.types[t]["k"] == "int" and c.p.types[t].get("w", 0) >= 64]
    if ints == [path[-1]] and any(i not in ints and has_counter(c.p, t) for i, (_, t) in enumerate(fs)):
        return 1 << 62
    return (1 << w) - 1 if w <= 64 else (1 << 64)


def leafty(c, v, path):
    ty = v.ty
    i = 0
    while i < len(path):
        var, ix = path[i], path[i + 1]
        ty = c.p.fields(ty, var)[ix][1] if c.p.is_enum(ty) else c.p.fields(ty)[ix][1]
        i += 2
    return ty


def nonce_of(I, s, q):
    """the 64-bit counter in a 12-byte nonce, or None when the first four bytes are not zero"""
    if s.cval(seq_len(q)) != 12:
        return None
    for i in range(4):
        if s.decide(c_eq(I.seq_get(s, q, K(i)), ZERO)) is not True:
            return None
    return I.bytes_to_int(s, I.seq_slice(s, q, K(4), K(8)))


def used(c, I, s0, s, kind):
    ev = newev(s, s0, kind)
    if len(ev) != 1:
        return None, None
    return ev[0], nonce_of(I, s, ev[0][2])


def t_nonce(c, role):
    I = c.interp()
    h = handshake(c, I)
    o = h.A if role else h.R
    who = "initiator" if role else "responder"
    # base: the first message in each direction uses nonce zero
    buf0 = SeqV([("s", ("arg", "m0"), ZERO, symlen(("arg", "m0"), 16, MAXMSG))])
    I.srcty[("arg", "m0")] = I.u8
    for root, kind in (("ns_send", "enc"), ("ns_recv", "dec")):
        oks, _ = msg(c, I, h.st, root, o, buf0)
        c.req("%s: a first message can be %s" % (who, "sent" if kind == "enc" else "received"), bool(oks), "never succeeds", kind="nonce", some=True)
        for b, s in oks:
            e, n = used(c, I, h.st, s, kind)
            c.req("%s: the first message %s uses nonce zero, big-endian zero prefix and little-endian counter" % (who, "sent" if kind == "enc" else "received"),
                  n is not None and s.decide(c_eq(n, ZERO)), "uses %s" % (brief(e[2]) if e else "no single AEAD call"), kind="nonce", dep=[e and e[2]], st=s)
    # step: from any counters
    g, buf, moved = general(c, I, h, o)
    buf2 = SeqV([("s", ("arg", "g2"), ZERO, symlen(("arg", "g2"), 16, MAXMSG))])
    buf3 = SeqV([("s", ("arg", "g3"), ZERO, symlen(("arg", "g3"), 16, MAXMSG))])
    I.srcty[("arg", "g2")] = I.srcty[("arg", "g3")] = I.u8
    MAXN = (1 << 64) - 1
    for root, kind, verb in (("ns_send", "enc", "sent"), ("ns_recv", "dec", "received")):
        other, okind = ("ns_recv", "dec") if root == "ns_send" else ("ns_send", "enc")
        oks, errs = msg(c, I, g, root, o, buf)
        pre = None
        for b, s in oks:
            e, n = used(c, I, g, s, kind)
            if n is None:
                c.bad("%s: each message %s uses one well-formed nonce" % (who, verb), "AEAD calls: %s" % len(newev(s, g, kind)), kind="nonce", st=s)
                continue
            c.ok("%s: each message %s uses one well-formed nonce" % (who, verb), kind="nonce")
            c.req("%s: nonce 2^64-1 is never used (%s)" % (who, verb), s.decide(c_lt(n, K(MAXN))), "nonce in %s" % (s.rng(n),), kind="nonce", dep=[n], st=s)
            lo, hi = g.rng(n)
            c.req("%s: every lower nonce is usable (%s)" % (who, verb), s.rng(n)[0] == 0 and s.rng(n)[1] == MAXN - 1, "nonce in %s" % (s.rng(n),), kind="nonce", dep=[n], st=s)
            pre = n

            # whatever happens in between, the next one in this direction uses the next nonce
            def then(s1, what):
                oks2, errs2 = msg(c, I, s1, root, o, buf3)
                for b2, s2 in oks2:
                    e2, n2 = used(c, I, s1, s2, kind)
                    c.req("%s: the next message %s uses the next nonce%s" % (who, verb, what), n2 is not None and s2.decide(c_eq(n2, add(n, ONE))),
                          "after %s uses %s" % (brief(n), brief(n2) if n2 is not None else "no single nonce"), kind="nonce", dep=[n2], st=s2)
            then(s, "")
            o2, e2 = msg(c, I, s, other, o, buf2)
            for _, s1 in o2:
                then(s1, ", with the other direction used in between")
            for e, _, s1 in e2:
                then(s1, ", with a failed message in the other direction in between")
            for _, _, s1 in msg(c, I, s, root, o, buf2)[1]:
                then(s1, ", with a failed message in between")
            for rk in ("ns_rekey_local", "ns_rekey_remote"):
                for _, s1 in op(c, I, s, rk, o):
                    then(s1, ", with a rekey in between")
            for rk in ("ns_clear_local", "ns_clear_remote"):
                for _, s1 in op(c, I, s, rk, o):
                    then(s1, ", with a key cleared in between")
        if pre is not None:
            # exhausted: refused as such
            x = g.copy()
            if x.assume(c_eq(pre, K(MAXN))):
                o3, e3 = msg(c, I, x, root, o, buf)
                c.req("%s: an exhausted direction refuses (%s)" % (who, verb), not o3, "still succeeds", kind="nonce")
                for e, _, s in e3:
                    nm = c.errname(e)
                    c.req("%s: exhaustion is reported as ExhaustedNonceError (%s)" % (who, verb), nm in ("ExhaustedNonceError", "UnsupportedMessageLengthError"), "reported as %s" % nm, kind="nonce", st=s)
                    c.req("%s: nothing is encrypted or decrypted once exhausted (%s)" % (who, verb), not newev(s, x, "enc", "dec", "decfail"), "the AEAD is still called", kind="nonce", st=s)


def t_handshake_nonce(c):
    """within the handshake, each key is used from nonce zero and only once per nonce"""
    I = c.interp()
    h = handshake(c, I)
    evs = [e for e in h.st.ev if e[0] == "enc"]
    seen = {}
    for e in evs:
        k = (e[1], e[2])
        c.req("no handshake key and nonce pair encrypts twice", k not in seen or seen[k] == e, "two different plaintexts under one key and nonce", kind="nonce")
        seen[k] = e
    c.req("the handshake encrypts the static key and the payload", len(evs) == 2, "%d encryptions" % len(evs), kind="nonce")


def c19_tasks(p, tier):
    return [(t_nonce, (True,)), (t_nonce, (False,)), (t_handshake_nonce, ())]


# ------------------------------------------------------------------------------ C21
def t_tamper(c, role):
    I = c.interp()
    h = handshake(c, I)
    o = h.A if role else h.R
    who = "initiator" if role else "responder"
    g, buf, moved = general(c, I, h, o)
    n = seq_len(buf)
    ct = I.seq_slice(g, buf, ZERO, sub(n, K(16)))
    tag = I.seq_slice(g, buf, sub(n, K(16)), K(16))
    rk = h.ref.k2 if role else h.ref.k1
    oks, errs = msg(c, I, g, "ns_recv", o, buf)
    c.req("%s: some transport message is accepted" % who, bool(oks), "none", kind="tamper", some=True)
    for b, s in oks:
        ev = newev(s, g, "dec")
        good = False
        for e in ev:
            good = good or (seq_align(I, s, e[1], rk) is True and seq_align(I, s, e[3], EMPTY) is True and seq_align(I, s, e[4], ct) is True and seq_align(I, s, e[5], tag) is True)
        c.req("%s: a transport message is accepted only if its tag verifies over the whole ciphertext" % who, good and len(ev) == 1,
              "accepted with %d verified decryptions" % len(ev), kind="tamper", st=s)
        if ev:
            want = SeqV([("s", ("DEC",) + ev[0][1:], ZERO, seq_len(ct))])
            c.req("%s: an accepted message yields the decrypted text" % who, seq_align(I, s, I.seq_slice(s, b, ZERO, sub(n, K(16))), want), "yields %s" % brief(b, 120), kind="tamper", dep=[b], st=s)
    kinds = set()
    for e, b, s in errs:
        nm = c.errname(e)
        kinds.add(nm)
        c.req("%s: a refused transport message leaves the buffer as received (%s)" % (who, nm), seq_align(I, s, b, buf), "buffer holds %s" % brief(b, 120), kind="tamper", dep=[b], st=s)
        r = veq(I, s, s.objs[o], g.objs[o])
        c.req("%s: a refused transport message leaves the session as it was (%s)" % (who, nm), r, "session changed", kind="tamper", st=s)
        if newev(s, g, "decfail"):
            c.req("%s: a bad tag is reported as DecryptionError" % who, nm == "DecryptionError", "reported as %s" % nm, kind="tamper", st=s)
    c.req("%s: a bad tag is refused" % who, "DecryptionError" in kinds, "no refusal for a bad tag", kind="tamper")
    # sending: what is produced is the ciphertext and its tag; a refusal changes nothing
    oks, errs = msg(c, I, g, "ns_send", o, buf)
    sk = h.ref.k1 if role else h.ref.k2
    for b, s in oks:
        ev = newev(s, g, "enc")
        if len(ev) != 1:
            c.bad("%s: a sent message is encrypted once" % who, "%d encryptions" % len(ev), kind="tamper", st=s)
            continue
        want = aead(sk, ev[0][2], EMPTY, ct)
        c.req("%s: a sent message is the ciphertext of the whole text followed by its tag" % who, seq_align(I, s, b, want), "buffer holds %s" % brief(b, 120), kind="tamper", dep=[b], st=s)
    for e, b, s in errs:
        c.req("%s: a refused send leaves the text as it was" % who, seq_align(I, s, b, buf), "buffer holds %s" % brief(b, 120), kind="tamper", dep=[b], st=s)
        c.req("%s: a refused send leaves the session as it was" % who, veq(I, s, s.objs[o], g.objs[o]), "session changed", kind="tamper", st=s)


def t_tamper_handshake(c):
    """the second handshake message is accepted only if both tags verify; a refused one completes nothing"""
    I = c.interp()
    h = handshake(c, I)
    st = h.pre_fin
    buf = SeqV([("s", ("arg", "x"), ZERO, symlen(("arg", "x"), 0, 1 << 40))])
    I.srcty[("arg", "x")] = I.u8
    n = seq_len(buf)
    oks, errs = msg(c, I, st, "ns_recv", h.A, buf)
    c.req("some second handshake message is accepted", bool(oks), "none", kind="tamper", some=True)
    for b, s in oks:
        ev = newev(s, st, "dec")
        c1 = any(seq_align(I, s, cat(e[4], e[5]), I.seq_slice(s, buf, K(32), K(48))) is True for e in ev)
        c2 = any(seq_align(I, s, cat(e[4], e[5]), I.seq_slice(s, buf, K(80), sub(n, K(80)))) is True for e in ev)
        c.req("the responder's static key is accepted only with a verified tag", c1, "accepted unverified", kind="tamper", st=s)
        c.req("the second handshake payload is accepted only with a verified tag", c2, "accepted unverified", kind="tamper", st=s)
        ads = [e[3] for e in ev]
        c.req("handshake tags cover the handshake hash", len(ads) == 2 and all(s.cval(seq_len(a)) == 32 for a in ads), "associated data %s" % [brief(a, 60) for a in ads], kind="tamper", st=s)
    for e, b, s in errs:
        nm = c.errname(e)
        for v, s2 in accessor(c, I, s, "ns_is_transport", h.A):
            c.req("a refused second handshake message does not complete the handshake (%s)" % nm, isinstance(v, BoolV) and s2.decide(v.c) is False, "the session reports transport", kind="tamper", st=s2)
        for root in ("ns_hash", "ns_remote"):
            for v, s2 in accessor(c, I, s, root, h.A):
                c.req("after a refused handshake message %s stays hidden" % root[3:], opt(c, v) is None, "revealed", kind="tamper", st=s2)


def c21_tasks(p, tier):
    return [(t_tamper, (True,)), (t_tamper, (False,)), (t_tamper_handshake, ())]


# ------------------------------------------------------------------------------ C22
def t_directions(c, role):
    I = c.interp()
    h = handshake(c, I)
    o = h.A if role else h.R
    who = "initiator" if role else "responder"
    k = {"i2r": h.ref.k1, "r2i": h.ref.k2}
    mine = {"ns_send": "i2r" if role else "r2i", "ns_recv": "r2i" if role else "i2r"}
    g, buf, moved = general(c, I, h, o)

    def keys(s0, what, want):
        for root, kind in (("ns_send", "enc"), ("ns_recv", "dec")):
            oks, errs = msg(c, I, s0, root, o, buf)
            w = want[mine[root]]
            name = "%s: %s key after %s" % (who, "sending" if kind == "enc" else "receiving", what)
            if w is None:
                c.req(name + " is gone", not oks, "still usable", kind="directions", st=oks[0][1] if oks else None)
                for e, _, s in errs:
                    c.req("%s: a cleared direction reports EmptyKeyError" % who, c.errname(e) in ("EmptyKeyError", "ExhaustedNonceError"), "reports %s" % c.errname(e), kind="directions", st=s)
                continue
            c.req(name + " is usable", bool(oks), "every message is refused", kind="directions")
            for b, s in oks:
                ev = newev(s, s0, kind)
                c.req(name + " is the right one", len(ev) == 1 and seq_align(I, s, ev[0][1], w), "uses %s" % (brief(ev[0][1], 120) if ev else "none"), kind="directions", dep=[ev and ev[0][1]], st=s)
    keys(g, "the handshake", k)
    c.req("the two directions have different keys", seq_align(I, g, k["i2r"], k["r2i"]) is not True, "same key", kind="directions")
    for root, d in (("ns_rekey_local", "i2r"), ("ns_rekey_remote", "r2i")):
        for _, s in live(I, op(c, I, g, root, o), k[d]):
            w = dict(k)
            w[d] = rekeyed(k[d])
            keys(s, root[3:], w)
            for _, s2 in live(I, op(c, I, s, root, o), w[d]):
                w2 = dict(k)
                w2[d] = rekeyed(rekeyed(k[d]))
                keys(s2, root[3:] + " twice", w2)
        other = "ns_rekey_remote" if root == "ns_rekey_local" else "ns_rekey_local"
        for _, s in live(I, op(c, I, g, root, o), *k.values()):
            for _, s2 in live(I, op(c, I, s, other, o), *k.values()):
                keys(s2, "rekeying both (%s first)" % root[3:], {x: rekeyed(y) for x, y in k.items()})
    for root, d in (("ns_clear_local", "i2r"), ("ns_clear_remote", "r2i")):
        for _, s in op(c, I, g, root, o):
            w = dict(k)
            w[d] = None
            keys(s, root[3:], w)
            rk = root.replace("clear", "rekey")
            for _, s2 in op(c, I, s, rk, o):
                keys(s2, "%s then %s" % (root[3:], rk[3:]), w)
                for _, s3 in op(c, I, s2, rk, o):
                    keys(s3, "%s then %s twice" % (root[3:], rk[3:]), w)


def t_rekey_interop(c):
    """peers that issue the same rekey calls stay in step"""
    I = c.interp()
    h = handshake(c, I)
    buf = SeqV([("s", ("arg", "m"), ZERO, symlen(("arg", "m"), 16, MAXMSG))])
    I.srcty[("arg", "m")] = I.u8
    n = seq_len(buf)
    for rk in ("ns_rekey_local", "ns_rekey_remote"):
        ks = (h.ref.k1, h.ref.k2)
        s = one(live(I, op(c, I, h.st, rk, h.A), *ks), rk)[1]
        s = one(live(I, op(c, I, s, rk, h.R), *ks), rk)[1]
        for a, b, who in ((h.A, h.R, "initiator"), (h.R, h.A, "responder")):
            oks, _ = msg(c, I, s, "ns_send", a, buf)
            for x, s1 in oks:
                o2, e2 = msg(c, I, s1, "ns_recv", b, x)
                bad = [c.errname(e) for e, _, _ in e2 if c.errname(e) not in CHANCE]
                c.req("after both peers %s, what the %s sends is received" % (rk[3:], who), bool(o2) and not bad, "refused with %s" % bad, kind="directions", st=s1)


def c22_tasks(p, tier):
    return [(t_directions, (True,)), (t_directions, (False,)), (t_rekey_interop, ())]
