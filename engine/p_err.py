"""Which error names which cause (C40)."""
import re

from .core import *
from .models import seqeq
from .spec import *
from .p_codec import short, wire, valid_values, ser, lenseg
from .p_msg import inp_seq, requirements, t_code_from, t_ctor, t_frame_accept, t_mt_new, t_unframe
from .p_cert import secs_of, t_cert_new, unb58_seq
from .p_msg import is_epoch, MD_secs, MSG
from .p_noise import MAXMSG, CHANCE, Chance, accessor, general, handshake, init, keypair, live, msg, newev, one, op, sym_seq, t_lengths, used
from .p_sess import FORBIDDEN, anybuf, pin, put

TEXTERR = {"FromUtf8Error", "Utf8Error"}


def only(fn, pat):
    """the obligations of another task that speak about the kind of an error"""
    r = re.compile(pat)

    def t(c, *a):
        n = len(c.obs)
        try:
            fn(c, *a)
        finally:
            c.obs[n:] = [o for o in c.obs[n:] if r.search(o.name) or o.kind == "analysis"]
    t.__name__ = fn.__name__
    return t


def kinds(c, name, oks, errs, want, fault=True):
    """every outcome is an error of the wanted kind (a fault that is accepted is not reported)"""
    for v, s in oks:
        if fault:
            c.bad(name, "accepted: not reported at all", kind="error-kind", st=s)
    for e, s in errs:
        n = c.errname(e)
        c.req(name, n in want, "reported as %s" % n, kind="error-kind", st=s)


# ------------------------------------------------------------------------------ decoding
def cuts(I, st, q):
    """every proper prefix of a byte sequence: (bytes, state)"""
    segs = list(q.s)
    for i, g in enumerate(segs):
        if g[0] == "s":
            av = A(Atom("sym", (("arg", "avail%d" % i),), 64))
            s = st.copy()
            if s.assume(c_lt(av, g[3])):
                yield mkseq(segs[:i] + [("s", g[1], g[2], av)]), s
        elif g[0] == "e":
            yield mkseq(segs[:i]), st.copy()
        else:
            raise Undecided("segment of an encoding")


def fault_free(c, I, ty):
    """(label, [wire segments per field], fields, args, state) of a valid message, for every variant"""
    from .p_codec import ctor_values, root_desc
    if ty == UNION:
        for root, (tag, vn) in UNION_CTORS.items():
            for args, v, st in ctor_values(c, I, root):
                yield vn, [[("e", K(tag))]], MSGS[MC + "SetupConnection"][1], args, st
        return
    root, fields = MSGS[ty][0], MSGS[ty][1]
    for args, v, st in ctor_values(c, I, root):
        yield root_desc(args), [], fields, args, st


def t_trunc(c, ty):
    I = c.interp()
    name = "a truncated %s is reported as ParseError" % short(ty)
    k = c.gkey("g_de", ty)
    vals = []
    if ty in MSGS or ty == UNION:
        for d, head, fields, args, st in fault_free(c, I, ty):
            vals.append((mkseq([x for h in head for x in h] + [x for n, wt in fields for x in wire(I, st, wt, args[n])]), st))
    else:
        for d, v, st in valid_values(c, I, ty):
            for o, s, ev in ser(c, I, c.gkey("g_ser", ty), v, st):
                from .p_codec import written
                if any(e[0] == "write_err" for e in ev) or not (isinstance(o, AdtV) and c.p.vname(o.ty, o.v) == "Ok"):
                    continue
                q = written(I, s, ev)
                if q is not None:
                    vals.append((q, s))
    done = set()
    n = 0
    for q, st in vals:
        for b, s in cuts(I, st, q):
            if b in done:
                continue
            done.add(b)
            n += 1
            pr, s = c.parser(I, s, b)
            oks, errs = c.split(c.run(I, k, [pr], s))
            kinds(c, name, oks, errs, {"ParseError"})
    if not n:
        raise Undecided("no encoding to cut")


def t_text(c, ty):
    """a complete text whose bytes are not UTF-8"""
    hb, mx, text, root = BOUNDED[ty]
    I = c.interp()
    q, st = bad_text(I, "text" + root, 1, mx)
    pr, st = c.parser(I, st, mkseq(lenseg(I, st, seq_len(q), hb) + list(q.s) + list(inp_seq("rest").s)))
    oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
    kinds(c, "a %s that is not UTF-8 is reported as such" % short(ty), oks, errs, TEXTERR)


def bad_text(I, name, lo, hi, st=None):
    t = ("arg", name)
    I.srcty[t] = I.u8
    q = SeqV([("s", t, ZERO, symlen(t, lo, hi))])
    st = st.copy() if st is not None else State()
    given(st, c_not(("utf8", q)))
    return q, st


def t_over(c, ty):
    """too long for the type: made or decoded"""
    hb, mx, text, root = BOUNDED[ty]
    I = c.interp()
    k = c.key(root)
    a = I.mk_sym(("arg", "v"), c.argtys(k)[0])
    st = State()
    given(st, c_lt(K(mx), seq_len(a.seq)))
    oks, errs = c.split(c.run(I, k, [a], st))
    kinds(c, "making a %s of more than %d bytes is reported as RequirementError" % (short(ty), mx), oks, errs, {"RequirementError"})
    if mx < (1 << (8 * hb)) - 1:
        t = ("arg", "over" + root)
        I.srcty[t] = I.u8
        q = SeqV([("s", t, ZERO, symlen(t, mx + 1, (1 << (8 * hb)) - 1))])
        st = State()
        if text:
            given(st, ("utf8", q))
        pr, st = c.parser(I, st, mkseq(lenseg(I, st, seq_len(q), hb) + list(q.s) + list(inp_seq("rest").s)))
        oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
        kinds(c, "decoding a %s of more than %d bytes is reported as RequirementError" % (short(ty), mx), oks, errs, {"RequirementError"})


def t_u24(c, root):
    I = c.interp()
    k = c.key(root)
    a = I.mk_sym(("arg", "v"), c.argtys(k)[0])
    st = State()
    given(st, c_lt(K((1 << 24) - 1), a))
    oks, errs = c.split(c.run(I, k, [a], st))
    kinds(c, "%s reports a number over 2^24-1 as RequirementError" % root, oks, errs, {"RequirementError"})


def undefined(I, st, mask):
    """states in which a flag word has some undefined bit: (word, state)"""
    w = A(Atom("sym", (("arg", "badflags"),), 32))
    for i in range(32):
        if not (mask >> i) & 1:
            s = st.copy()
            if s.assume(bit_cond(I.bits_of(s, w, 32)[i])):
                yield w, s


def unknown_text(I, st, ty):
    """texts of every length that are none of the codes: (text, state)"""
    t = ("arg", "badcode")
    I.srcty[t] = I.u8
    q = SeqV([("s", t, ZERO, symlen(t, 0, 255))])
    n = seq_len(q)
    codes = sorted(CODES[ty].values())
    for ln in [None] + sorted({len(b) for b in codes}):
        s = st.copy()
        given(s, ("utf8", q))
        if ln is None:
            ok = all(s.assume(c_not(c_eq(n, K(len(b))))) for b in codes)
        else:
            ok = s.assume(c_eq(n, K(ln))) and all(s.assume(c_not(seqeq(I, s, q, bytes_seq(b)))) for b in codes if len(b) == ln)
        if not ok:
            raise Undecided("unknown text")
        yield q, s


def t_flags(c, ty):
    I = c.interp()
    for w, s in undefined(I, State(), FLAGS[ty]):
        q = I.int_to_bytes(s, w, 32)
        pr, s = c.parser(I, s, mkseq(list(q.s) + list(inp_seq("rest").s)))
        oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], s))
        kinds(c, "undefined bits of %s are reported as UnknownFlags" % short(ty), oks, errs, {"UnknownFlags"})


def t_code(c, ty):
    I = c.interp()
    for q, s in unknown_text(I, State(), ty):
        pr, s = c.parser(I, s, mkseq(lenseg(I, s, seq_len(q), 1) + list(q.s) + list(inp_seq("rest").s)))
        oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], s))
        kinds(c, "an unknown text for %s is reported as UnknownErrorCode" % short(ty), oks, errs, {"UnknownErrorCode"})


def t_protocol(c):
    I = c.interp()
    b = A(Atom("sym", (("arg", "b"),), 8))
    st = State()
    given(st, c_lt(K(3), b))
    oks, errs = c.split(c.run(I, c.key("proto_try_u8"), [b], st))
    kinds(c, "an unknown protocol number is reported as DeserializationError", oks, errs, {"DeserializationError"})
    for ty in (CC + "Protocol", UNION):
        pr, s = c.parser(I, st, mkseq([("e", b)] + list(inp_seq("rest").s)))
        oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], s))
        kinds(c, "an unknown protocol number is reported as DeserializationError (decoding %s)" % short(ty), oks, errs, {"DeserializationError"})
    for x in (2, 3):
        pr, s = c.parser(I, State(), mkseq([("e", K(x))] + list(inp_seq("rest").s)))
        oks, errs = c.split(c.run(I, c.gkey("g_de", UNION), [pr], s))
        kinds(c, "a protocol without messages is reported as Unimplemented", oks, errs, {"Unimplemented"})


def t_fault(c, ty):
    """a complete message with exactly one faulty field"""
    I = c.interp()
    k = c.gkey("g_de", ty)
    rest = list(inp_seq("rest").s)
    nm = short(ty)
    for d, head, fields, args, st0 in fault_free(c, I, ty):
        root = MSGS[ty][0] if ty in MSGS else [r for r, (t, v) in UNION_CTORS.items() if v == d][0]
        head = [x for h in head for x in h]

        def decode(faulty, segs, s, want, what):
            body = list(head)
            for n, wt in fields:
                body += segs if n == faulty else wire(I, s, wt, args[n])
            pr, s = c.parser(I, s, mkseq(body + rest))
            oks, errs = c.split(c.run(I, k, [pr], s))
            kinds(c, "decoding %s: %s is reported as %s" % (nm, what, "/".join(sorted(want))), oks, errs, want)
        for n, wt in fields:
            if wt == "STR0_255":
                q, s = bad_text(I, "bad" + n, 1, 255, st0)
                decode(n, lenseg(I, s, seq_len(q), 1) + list(q.s), s, TEXTERR, "%s that is not UTF-8" % n)
                if n in ("vendor", "firmware") and "setup_connection" in root:
                    decode(n, [("e", K(0))], st0.copy(), {"RequirementError"}, "an empty %s" % n)
            elif wt == "B0_32":
                t = ("arg", "bad" + n)
                I.srcty[t] = I.u8
                q = SeqV([("s", t, ZERO, symlen(t, 33, 255))])
                decode(n, lenseg(I, st0, seq_len(q), 1) + list(q.s), st0.copy(), {"RequirementError"}, "%s over 32 bytes" % n)
            elif wt == "u32f":
                ft = c.p.tname(args[n].ty)
                for w, s in list(undefined(I, st0, FLAGS[ft]))[:: 6 if len(fields) > 3 else 1]:
                    decode(n, list(I.int_to_bytes(s, w, 32).s), s, {"UnknownFlags"}, "undefined %s" % n)
            elif wt == "code":
                for q, s in unknown_text(I, st0, c.p.tname(args[n].ty)):
                    decode(n, lenseg(I, s, seq_len(q), 1) + list(q.s), s, {"UnknownErrorCode"}, "an unknown %s" % n)
            if n in ("min_version", "max_version"):
                for x in (0, 1):
                    decode(n, [("e", K(x)), ("e", K(0))], st0.copy(), {"VersionError"}, "%s below 2" % n)
        if "setup_connection_error" in root and d.endswith("UnsupportedFeatureFlags"):
            decode("flags", [("e", K(0))] * 4, st0.copy(), {"RequirementError"}, "no flags with unsupported-feature-flags")


def bit_of(I, s, x, i, n=8):
    return bit_cond(I.bits_of(s, x, n)[i])


def t_frame_unknown(c):
    """a complete frame whose message number nobody assigned"""
    I = c.interp()
    m, hi, lo = [A(Atom("sym", (("arg", n),), 8)) for n in ("msg", "hi", "lo")]
    pl = inp_seq("payload")
    st0 = State()
    given(st0, c_le(seq_len(pl), K((1 << 24) - 1)))
    cases = []
    for h in (0, 128):
        s = st0.copy()
        if all(s.assume(c_not(c_eq(m, K(x[1])))) for x in MSGTYPES.values() if x[0] == 0):
            cases.append(("message number", ZERO, K(h), s))
    for x, n in ((lo, 8), (hi, 7)):
        for i in range(n):
            s = st0.copy()
            if s.assume(bit_of(I, s, x, i)):
                cases.append(("extension", lo, hi, s))
    if len(cases) != 17:
        raise Undecided("frame header")
    for what, l, h, st in cases:
        pr, st = c.parser(I, st, mkseq([("e", l), ("e", h), ("e", m)] + lenseg(I, st, seq_len(pl), 3) + list(pl.s) + list(inp_seq("rest").s)))
        oks, errs = c.split(c.run(I, c.gkey("g_de", MSG), [pr], st))
        kinds(c, "a frame of an unassigned %s is reported as UnknownMessageType" % what, oks, errs, {"UnknownMessageType"})


def t_sig(c):
    """64 bytes that are not a signature"""
    I = c.interp()
    for ty, n in (("ed25519::Signature", 0), ("stratumv2::noise::SignatureNoiseMessage", 10)):
        for i in (5, 6, 7):
            st = State()
            q = SeqV([("s", ("arg", "sig"), ZERO, K(64))])
            I.srcty[("arg", "sig")] = I.u8
            if not st.assume(bit_of(I, st, I.seq_get(st, q, K(63)), i)):
                raise Undecided("signature bytes")
            head = list(sym_seq(I, "head", n).s) if n else []
            pr, st = c.parser(I, st, mkseq(head + list(q.s) + list(inp_seq("rest").s)))
            oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
            kinds(c, "a malformed signature is reported as AuthorityKeyError (decoding %s)" % short(ty), oks, errs, {"AuthorityKeyError"})


def t_io(c, key, label):
    I = c.interp()
    k = c.gkey(*key) if isinstance(key, tuple) else c.key(key)
    n = 0
    for o, s in c.run(I, k, c.symargs(I, k)):
        if any(e[0] == "write_err" for e in s.ev) and isinstance(o, AdtV) and c.p.vname(o.ty, o.v) == "Err":
            n += 1
            nm = c.errname(o.f[0])
            c.req("a failing writer is reported as IOError (%s)" % label, nm == "IOError", "reported as %s" % nm, kind="error-kind", st=s)
    if not n:
        c.und("a failing writer is reported as IOError (%s)" % label, "no failing write seen", kind="error-kind")


# ------------------------------------------------------------------------------ time and certificates
def t_time(c, root):
    I = c.interp()
    k = c.key(root)
    args = c.symargs(I, k)
    oks, errs = c.split(c.run(I, k, args))
    for e, s in errs:
        tt = [(t, b) for t, b in s.truth.items() if isinstance(t, tuple) and t and t[0] == "notbefore"]
        nm = c.errname(e)
        if any(b is False for _, b in tt):
            c.req("%s reports a time before the epoch as SystemTimeError" % root, nm == "SystemTimeError", "reported as %s" % nm, kind="error-kind", st=s)
        elif any(b is True for _, b in tt):
            c.req("%s reports a time past 2^32-1 seconds as RequirementError" % root, nm == "RequirementError", "reported as %s" % nm, kind="error-kind", st=s)
        else:
            c.und("%s: cause of %s" % (root, nm), "refused before the time is looked at", kind="error-kind")


def t_key_text(c):
    I = c.interp()
    k = c.key("cert_format_new")
    args = c.symargs(I, k)
    text = I.slice_of(State(), args[0])
    q = unb58_seq(text)

    def run(what, want, *conds):
        st = State()
        for cd in conds:
            if not st.assume(cd):
                raise Undecided("assumptions")
        oks, errs = c.split(c.run(I, k, args, st))
        kinds(c, "an authority key text %s is reported as %s" % (what, want), oks, errs, {want})
    run("that is not base58", "Base58Error", c_not(("b58ok", text)))
    run("of fewer than 32 bytes", "ParseError", ("b58ok", text), c_lt(seq_len(q), K(32)))
    run("of more than 32 bytes", "ParseError", ("b58ok", text), c_lt(K(32), seq_len(q)))
    oks, errs = c.split(c.run(I, k, args))
    for e, s in errs:
        if any(isinstance(t, tuple) and t and t[0] == "edpkok" and b is False for t, b in s.truth.items()):
            nm = c.errname(e)
            c.req("an authority key text naming no curve point is reported as AuthorityKeyError", nm == "AuthorityKeyError", "reported as %s" % nm, kind="error-kind", st=s)


def t_verify(c):
    from .p_cert import fld
    I = c.interp()
    k = c.key("cert_verify")
    args = c.symargs(I, k)
    st0 = State()
    text = I.slice_of(st0, args[0])
    mg = I.deref(st0, args[2])
    frm, until = fld(c, mg, "valid_from"), fld(c, mg, "not_valid_after")
    oks, errs = c.split(c.run(I, k, args))
    q = unb58_seq(text)
    base = [("b58ok", text), c_eq(seq_len(q), K(32)), ("edpkok", q)]
    nowt, sigt = None, None
    for v, s in oks:
        for t, b in s.truth.items():
            if isinstance(t, tuple) and t and t[0] == "notbefore" and b is True and is_epoch(t[2]):
                nowt = t
            if isinstance(t, tuple) and t and t[0] == "edverify" and b is True:
                sigt = t
    if nowt is None or sigt is None:
        raise Undecided("no accepted certificate to vary")
    sec = secs_of(nowt[1], nowt[2])
    fits = c_le(sec, K((1 << 32) - 1))
    ok = base + [nowt, fits, c_le(frm, sec), c_lt(sec, until), sigt]

    def run(what, want, conds):
        st = State()
        for cd in conds:
            if not st.assume(cd):
                raise Undecided("assumptions")
        o2, e2 = c.split(c.run(I, k, args, st))
        kinds(c, "verification reports %s as %s" % (what, want), o2, e2, {want})
    run("a clock before the epoch", "SystemTimeError", base + [c_not(nowt), sigt])
    run("a clock past 2^32-1 seconds", "RequirementError", base + [nowt, c_lt(K((1 << 32) - 1), sec), sigt])
    run("a certificate that is not valid yet", "RequirementError", base + [nowt, fits, c_lt(sec, frm), c_lt(sec, until), sigt])
    run("an expired certificate", "RequirementError", base + [nowt, fits, c_le(frm, sec), c_le(until, sec), sigt])
    run("a signature that does not verify", "AuthorityKeyError", ok[:-1] + [c_not(sigt)])


# ------------------------------------------------------------------------------ sessions and keys
def t_transport(c, role):
    I = c.interp()
    h = handshake(c, I)
    o = h.A if role else h.R
    who = "initiator" if role else "responder"
    g, buf, moved = general(c, I, h, o)
    k = {"i2r": h.ref.k1, "r2i": h.ref.k2}
    mine = {"ns_send": "i2r" if role else "r2i", "ns_recv": "r2i" if role else "i2r"}
    MAXN = (1 << 64) - 1
    for root, kind, verb in (("ns_send", "enc", "sending"), ("ns_recv", "dec", "receiving")):
        oks, errs = msg(c, I, g, root, o, buf)
        pre = None
        for b, s in oks:
            e, n = used(c, I, g, s, kind)
            pre = n if n is not None else pre
        for e, b, s in errs:
            if newev(s, g, "decfail"):
                c.req("%s: an altered message is reported as DecryptionError" % who, c.errname(e) == "DecryptionError", "reported as %s" % c.errname(e), kind="error-kind", st=s)
        if pre is None:
            c.und("%s: exhaustion (%s)" % (who, verb), "the nonce is not identified", kind="error-kind")
            continue
        for b, s in live(I, [(e, s) for e, _, s in errs], *k.values()):
            if s.decide(c_lt(pre, K(MAXN))) is True and not newev(s, g, "decfail"):
                c.bad("%s: a usable direction refuses nothing else (%s)" % (who, verb), "refused with %s" % c.errname(b), kind="error-kind", st=s)
        x = g.copy()
        if x.assume(c_eq(pre, K(MAXN))):
            o3, e3 = msg(c, I, x, root, o, buf)
            for e, s in live(I, [(e, s) for e, _, s in e3], *k.values()):
                c.req("%s: an exhausted direction is reported as ExhaustedNonceError (%s)" % (who, verb), c.errname(e) == "ExhaustedNonceError", "reported as %s" % c.errname(e), kind="error-kind", st=s)
        y = g.copy()
        if not y.assume(c_lt(pre, K(MAXN))):
            raise Undecided("counter")
        clear = "ns_clear_local" if mine[root] == "i2r" else "ns_clear_remote"
        for _, s in op(c, I, y, clear, o):
            o4, e4 = msg(c, I, s, root, o, buf)
            for e, _, s2 in e4:
                c.req("%s: a cleared direction is reported as EmptyKeyError (%s)" % (who, verb), c.errname(e) == "EmptyKeyError", "reported as %s" % c.errname(e), kind="error-kind", st=s2)


def t_order(c):
    I = c.interp()
    h = handshake(c, I)
    st0 = State()
    sk, kp, st0 = keypair(c, I, st0, "sA")
    for what, st, root, o in (
            ("an initiator receiving first", init(c, I, st0, True, h.pro, kp, ("a", "ini")), "ns_recv", ("a", "ini")),
            ("a responder sending first", init(c, I, st0, False, h.pro, kp, ("a", "res")), "ns_send", ("a", "res")),
            ("an initiator sending twice", h.mid, "ns_send", h.A), ("a responder receiving twice", h.mid2, "ns_recv", h.R)):
        oks, errs = msg(c, I, st, root, o, anybuf(I, "any", 16, MAXMSG))
        kinds(c, "%s is reported as HandshakeOrderError" % what, [(b, s) for b, s in oks], [(e, s) for e, _, s in errs], {"HandshakeOrderError"})


def t_keys(c):
    I = c.interp()
    for n, f in enumerate(FORBIDDEN):
        oks, errs = c.split(c.run(I, c.key("pk_from_bytes"), [bytes_seq(f)], State()))
        kinds(c, "a forbidden public key is reported as InvalidPublicKeyError", oks, errs, {"InvalidPublicKeyError"})
    for root in ("pk_from_str", "sk_from_str", "key_from_str", "psk_from_str"):
        key = c.key(root)
        st = State()
        arg = c.symargs(I, key)
        text = I.slice_of(st, arg[0])
        n = symlen(("unhex", text), 0, 1 << 62)
        for what, conds in (("not hexadecimal", [c_not(("hexok", text))]), ("too short", [("hexok", text), c_lt(n, K(32))]), ("too long", [("hexok", text), c_lt(K(32), n)])):
            s = st.copy()
            if not all(s.assume(x) for x in conds):
                raise Undecided("assumptions")
            oks, errs = c.split(c.run(I, key, arg, s))
            kinds(c, "%s reports a text that is %s as InvalidInputError" % (root, what), oks, errs, {"InvalidInputError"})
        if root == "pk_from_str":
            for f in FORBIDDEN:
                s = pin(I, st, ("unhex", text), f)
                if s is None or not s.assume(c_eq(n, K(32))) or not s.assume(("hexok", text)):
                    raise Undecided("hex text of a forbidden value")
                oks, errs = c.split(c.run(I, key, arg, s))
                kinds(c, "pk_from_str reports a forbidden public key as InvalidPublicKeyError", oks, errs, {"InvalidPublicKeyError"})
    for v, s in c.run(I, c.key("sk_from_bytes"), [bytes_seq([0] * 32)], State()):
        for root, by in (("sk_public", True), ("kp_from_private", False), ("kp_from_key", False)):
            s1 = put(s, ("a", "sk"), v)
            oks, errs = c.split(c.run(I, c.key(root), [RefV(("a", "sk")) if by else v], s1))
            kinds(c, "%s reports the empty private key as InvalidKeyError" % root, oks, errs, {"InvalidKeyError"}, fault=False)


def c40_tasks(p, tier):
    out = []
    des = sorted(t for (g, t) in p.gkey if g == "g_de")
    out += [(t_trunc, (t,)) for t in des]
    out += [(t_text, (t,)) for t in BOUNDED if BOUNDED[t][2]] + [(t_over, (t,)) for t in BOUNDED]
    out += [(t_u24, (r,)) for r in ("u24_new", "u24_try_u32", "u24_try_usize")]
    out += [(t_flags, (t,)) for t in FLAGS] + [(t_code, (t,)) for t in CODES] + [(t_protocol, ())]
    out += [(t_fault, (t,)) for t in list(MSGS) + [UNION]]
    out += [(t_frame_unknown, ()), (t_sig, ())]
    out += [(only(t_mt_new, "refused as"), ())] + [(only(t_frame_accept, "refused as"), (n,)) for n in MSGTYPES]
    out += [(only(t_unframe, "refuses other messages as|reports the expected type"), (t,)) for (g, t) in sorted(p.gkey) if g == "g_unframe"]
    out += [(only(t_ctor, "reports a broken"), (r,)) for r in sorted(p.rootkey) if r.startswith("new_")]
    for ty, pre in ((CC + "SetupConnectionErrorCode", "scec"), (MC + "OpenMiningChannelErrorCode", "omcec")):
        out += [(only(t_code_from, "refused as"), (ty, pre + r)) for r in ("_from_str", "_try_string", "_try_str0")]
    out += [(t_io, (("g_ser", t), short(t))) for (g, t) in sorted(p.gkey) if g == "g_ser"] + [(t_io, (r, r)) for r in ("ser_cert_format", "ser_signed_cert")]
    out += [(t_time, (r,)) for r in ("time_to_u32", "time_now")] + [(t_key_text, ()), (t_verify, ()), (only(t_cert_new, "as RequirementError"), ())]
    out += [(t_transport, (r,)) for r in (True, False)] + [(only(t_lengths, "is refused as"), (r, 2)) for r in (True, False)] + [(t_order, ()), (t_keys, ())]
    return out
