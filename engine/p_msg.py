"""Message identity, framing, constructors, enumerations, the parser, timestamps, codec purity."""
import re

from .core import *
from .spec import *
from .p_codec import (short, flag_val, valid_values, ctor_values, root_desc, written, ser, vec_of, de, probe, lenseg, check_bytes, msg_layout)

MSG = "stratumv2::codec::Message"


def inp_seq(name="input"):
    return SeqV([("s", ("arg", name), ZERO, symlen(("arg", name), 0, (1 << 62)))])


# ================================================================================ message types
def mt_ty(c):
    return c.argtys(c.key("message_new"))[0]


def t_mt_table(c):
    I = c.interp()
    ty = mt_ty(c)
    names = [v["n"] for v in c.p.types[ty]["vs"]]
    for n in MSGTYPES:
        if n not in names:
            c.bad("MessageType::%s exists" % n, "the variant is gone", kind="table")
    seen = {}
    for j, n in enumerate(names):
        got = {}
        for root in ("mt_ext", "mt_msg", "mt_chan"):
            st = State()
            r = c.ref_to(I, st, AdtV(ty, j, []), "t")
            outs = c.run(I, c.key(root), [r], st)
            if len(outs) != 1:
                raise Undecided("%s forks" % root)
            v, s = outs[0]
            got[root] = s.decide(v.c) if isinstance(v, BoolV) else s.cval(v)
        t = (got["mt_ext"], got["mt_msg"], got["mt_chan"])
        if None in t:
            c.und("ids of MessageType::%s" % n, "not constant")
            continue
        if n in MSGTYPES:
            c.req("ids of MessageType::%s" % n, t == MSGTYPES[n], "(extension, type, channel bit) is %s, protocol says %s" % (t, MSGTYPES[n]), kind="table")
        else:
            c.req("extension type of MessageType::%s fits 15 bits" % n, t[0] < 0x8000, "0x%x collides with the channel bit" % t[0], kind="table")
        k = (t[0], t[1])
        c.req("id of MessageType::%s is unique" % n, k not in seen, "shares its id with %s" % seen.get(k), kind="table")
        seen.setdefault(k, n)
        # and back
        outs = c.run(I, c.key("mt_new"), [K(t[0]), K(t[1])])
        oks, errs = c.split(outs)
        r = len(oks) == 1 and not errs and isinstance(oks[0][0], AdtV) and c.p.vname(oks[0][0].ty, oks[0][0].v) == n
        c.req("MessageType::new(ids of %s) gives it back" % n, r, "gives %s" % [brief(v) for v, _ in outs], kind="table")


def t_mt_new(c):
    """for all (ext, msg): Ok only for an id in the table, Err(UnknownMessageType) otherwise"""
    I = c.interp()
    k = c.key("mt_new")
    e, m = c.symargs(I, k)
    oks, errs = c.split(c.run(I, k, [e, m]))
    for v, s in oks:
        n = c.p.vname(v.ty, v.v) if isinstance(v, AdtV) else None
        if n is None:
            raise Undecided("shape")
        want = MSGTYPES.get(n)
        if want is None:
            continue
        r = s.decide(c_and([c_eq(e, K(want[0])), c_eq(m, K(want[1]))]))
        c.req("MessageType::new gives %s only for its id" % n, r, "also for extension %s, type %s" % (s.rng(e), s.rng(m)), kind="table", st=s)
    for v, s in errs:
        c.req("unknown ids are refused as UnknownMessageType", c.errname(v) == "UnknownMessageType", "refused with %s" % c.errname(v), kind="table", st=s)


def t_mt_of(c, ty):
    I = c.interp()
    outs = c.run(I, c.gkey("g_mt", ty), [])
    want = "SetupConnection" if ty == UNION else MSGS[ty][4] if ty in MSGS else None
    for v, s in outs:
        n = c.p.vname(v.ty, v.v) if isinstance(v, AdtV) else None
        c.req("%s travels under its message type" % short(ty), n == want if want else True, "message_type() is %s, should be %s" % (n, want), kind="table", st=s)


def c07_tasks(p, tier):
    return [(t_mt_table, ()), (t_mt_new, ())] + [(t_mt_of, (t,)) for (g, t) in sorted(p.gkey) if g == "g_mt"]


# ================================================================================ frames
def frame_header(I, st, n, ln):
    e, m, ch = MSGTYPES[n]
    e |= 0x8000 if ch else 0
    return [("e", K(e & 255)), ("e", K(e >> 8)), ("e", K(m))] + lenseg(I, st, ln, 3)


def t_frame_enc(c, n):
    I = c.interp()
    ty = mt_ty(c)
    j = [x["n"] for x in c.p.types[ty]["vs"]].index(n)
    k = c.key("message_new")
    pl = I.mk_sym(("arg", "payload"), c.argtys(k)[1])
    ln = seq_len(pl.seq)
    mx = K((1 << 24) - 1)
    for v, st in c.run(I, k, [AdtV(ty, j, []), pl]):
        fit = st.copy()
        if fit.assume(c_le(ln, mx)):
            check_bytes(c, I, "frame of %s: header and payload" % n, MSG, v, fit, lambda s: mkseq(frame_header(I, s, n, ln) + list(pl.seq.s)), "frame-layout")
        over = st.copy()
        if not over.assume(c_lt(mx, ln)):
            continue
        for o, s, ev in ser(c, I, c.gkey("g_ser", MSG), v, over):
            isok = isinstance(o, AdtV) and c.p.vname(o.ty, o.v) == "Ok"
            c.req("frame of %s: a payload over 2^24-1 bytes is refused" % n, not isok, "encodes although the length does not fit the header", kind="frame-length", st=s)


def t_frame_dec(c):
    I = c.interp()
    inp = inp_seq()
    pr, st = c.parser(I, State(), inp)
    N = seq_len(inp)
    oks, errs = c.split(c.run(I, c.gkey("g_de", MSG), [pr], st))
    by = lambda s, i: I.seq_get(s, inp, K(i))
    if not oks:
        c.bad("frames decode", "no input decodes", kind="frame-decode", some=True)
    got = set()
    for v, s in oks:
        fl = dict(zip([f for f, _ in c.p.fields(v.ty)], v.f))
        mt, pl = fl.get("message_type"), fl.get("payload")
        if not isinstance(mt, AdtV) or not isinstance(pl, VecV):
            raise Undecided("shape of Message")
        n = c.p.vname(mt.ty, mt.v)
        got.add(n)
        c.req("decoded frame had 6 header bytes", s.decide(c_le(K(6), N)), "input length in %s" % (s.rng(N),), kind="frame-decode", st=s)
        if n in MSGTYPES:
            e, m, ch = MSGTYPES[n]
            e |= 0x8000 if ch else 0
            for i, (w, what) in enumerate(((e & 255, "extension low byte"), (e >> 8, "extension high byte and channel bit"), (m, "message type"))):
                c.req("frame decodes as %s only with its header: %s" % (n, what), s.decide(c_eq(by(s, i), K(w))),
                      "accepts %s in %s" % (what, s.rng(by(s, i))), kind="frame-decode", st=s)
        ln = I.bytes_to_int(s, I.seq_slice(s, inp, K(3), K(3)))
        c.req("frame payload has the announced length (%s)" % n, s.decide(c_eq(seq_len(pl.seq), ln)), "payload length %s" % brief(seq_len(pl.seq)), kind="frame-decode", dep=[pl], st=s)
        c.req("frame payload is the bytes behind the header (%s)" % n, seq_align(I, s, pl.seq, I.seq_slice(s, inp, K(6), ln)), "payload %s" % brief(pl), kind="frame-decode", dep=[pl], st=s)
        c.req("a truncated payload is not accepted (%s)" % n, s.decide(c_le(add(ln, K(6)), N)), "accepts an input shorter than header + payload", kind="frame-decode", st=s)
    for n in MSGTYPES:
        c.req("frames of %s decode" % n, n in got, "no input decodes to it", kind="frame-decode", some=True)
    for e, s in errs:
        c.req("refusals use the documented kinds", c.errname(e) in ("ParseError", "UnknownMessageType", "UnexpectedChannelBit", "TryFromSliceError", "RequirementError"),
              "refused with %s" % c.errname(e), kind="frame-refuse", st=s)


def t_frame_accept(c, n):
    """complete frames are accepted; with the wrong channel bit, or cut anywhere, they are refused"""
    I = c.interp()
    e, m, ch = MSGTYPES[n]
    e |= 0x8000 if ch else 0
    pl = inp_seq("payload")
    rest = inp_seq("rest")
    ln = seq_len(pl)

    def build(hi, avail):
        st = State()
        given(st, c_le(ln, K((1 << 24) - 1)))
        hdr = [("e", K(e & 255)), ("e", K(hi)), ("e", K(m))] + lenseg(I, st, ln, 3)
        if avail is None:
            return mkseq(hdr + list(pl.s) + list(rest.s)), st
        given(st, c_lt(avail, ln))
        return mkseq(hdr + [("s", ("arg", "payload"), ZERO, avail)]), st
    q, st = build(e >> 8, None)
    pr, st = c.parser(I, st, q)
    oks, errs = c.split(c.run(I, c.gkey("g_de", MSG), [pr], st))
    for x, s in errs:
        c.bad("complete frames of %s are accepted" % n, "refused with %s" % c.errname(x), kind="frame-accept", st=s)
    for v, s in oks:
        fl = dict(zip([f for f, _ in c.p.fields(v.ty)], v.f))
        mt = fl["message_type"]
        c.req("complete frames of %s decode to that type" % n, isinstance(mt, AdtV) and c.p.vname(mt.ty, mt.v) == n, "decodes to %s" % brief(mt), kind="frame-accept", st=s)
        c.req("complete frames of %s decode to their payload" % n, veq(I, s, fl["payload"], pl), "decodes to %s" % brief(fl["payload"]), kind="frame-accept", dep=[fl["payload"]], st=s)
        for okp, tail, s3 in probe(c, I, s, pr, seq_len(rest)):
            c.req("decoding a frame of %s stops at its end" % n, seq_align(I, s3, tail, rest) if okp else False, "the following bytes are not the next frame", kind="frame-accept", st=s3)
    q, st = build((e >> 8) ^ 0x80, None)
    pr, st = c.parser(I, st, q)
    oks, errs = c.split(c.run(I, c.gkey("g_de", MSG), [pr], st))
    for v, s in oks:
        c.bad("the wrong channel bit on %s is refused" % n, "accepted", kind="channel-bit", st=s)
    for x, s in errs:
        c.req("the wrong channel bit on %s is refused as UnexpectedChannelBit(received)" % n,
              c.errname(x) == "UnexpectedChannelBit" and (not x.f or not isinstance(x.f[0], BoolV) or s.decide(x.f[0].c) is (not ch)),
              "refused with %s" % brief(x), kind="channel-bit", st=s)
    av = A(Atom("sym", (("arg", "avail"),), 64))
    q, st = build(e >> 8, av)
    pr, st = c.parser(I, st, q)
    oks, errs = c.split(c.run(I, c.gkey("g_de", MSG), [pr], st))
    for v, s in oks:
        c.bad("a truncated frame of %s is refused" % n, "accepted", kind="frame-accept", st=s)
    for x, s in errs:
        c.ok("a truncated frame of %s is refused" % n, kind="frame-accept")


def c08_tasks(p, tier):
    return [(t_frame_enc, (n,)) for n in MSGTYPES] + [(t_frame_accept, (n,)) for n in MSGTYPES] + [(t_frame_dec, ())]


# ================================================================================ frame / unframe
def t_frame_of(c, ty):
    """frame(x) carries x's encoding under x's type, and unframe(frame(x)) = x"""
    I = c.interp()
    want = "SetupConnection" if ty == UNION else MSGS[ty][4] if ty in MSGS else None
    for d, v, st in valid_values(c, I, ty):
        tag = short(ty) + (" [" + d + "]" if d else "")
        oks, errs = vec_of(c, I, ty, v, st)
        for bv, s in oks:
            s1 = s.copy()
            r = c.ref_to(I, s1, v, "x")
            fo, fe = c.split(c.run(I, c.gkey("g_frame", ty), [r], s1))
            for e, s2 in fe:
                c.bad("frame(%s) succeeds" % tag, "refused with %s" % c.errname(e), kind="frame", st=s2)
            for m, s2 in fo:
                fl = dict(zip([f for f, _ in c.p.fields(m.ty)], m.f))
                mt, pl = fl.get("message_type"), fl.get("payload")
                n = c.p.vname(mt.ty, mt.v) if isinstance(mt, AdtV) else None
                if want is not None:
                    c.req("frame(%s) is typed %s" % (tag, want), n == want, "typed %s" % n, kind="frame", st=s2)
                c.req("frame(%s) carries exactly its encoding" % tag, veq(I, s2, pl, bv), "carries %s, encoding %s" % (brief(pl), brief(bv)), kind="frame", dep=[pl], st=s2)
                s3 = s2.copy()
                mr = c.ref_to(I, s3, m, "m")
                uo, ue = c.split(c.run(I, c.gkey("g_unframe", ty), [mr], s3))
                for e, s4 in ue:
                    c.bad("unframe(frame(%s)) succeeds" % tag, "refused with %s" % c.errname(e), kind="frame", st=s4)
                for w, s4 in uo:
                    c.req("unframe(frame(%s)) is the same value" % tag, veq(I, s4, w, v), "gives %s" % brief(w), kind="frame", dep=[w], st=s4)


def t_unframe(c, ty):
    """for every message: unframe::<T> decodes iff the type matches and the payload decodes"""
    I = c.interp()
    k = c.gkey("g_unframe", ty)
    want = "SetupConnection" if ty == UNION else MSGS[ty][4] if ty in MSGS else None
    mty = c.p.pointee(c.argtys(k)[0])
    flds = [f for f, _ in c.p.fields(mty)]
    vs = [v["n"] for v in c.p.types[dict(c.p.fields(mty))["message_type"]]["vs"]]
    tty = dict(c.p.fields(mty))["message_type"]
    for j, n in enumerate(vs):
        st = State()
        pl = VecV(inp_seq("payload"))
        mv = AdtV(mty, 0, [AdtV(tty, j, []) if f == "message_type" else pl for f in flds])
        r = c.ref_to(I, st, mv, "m")
        oks, errs = c.split(c.run(I, k, [r], st))
        if n != want:
            for v, s in oks:
                c.bad("unframe::<%s> refuses %s messages" % (short(ty), n), "a payload of the wrong message type is decoded", kind="unframe", st=s)
            for e, s in errs:
                good = c.errname(e) == "UnexpectedMessageType"
                c.req("unframe::<%s> refuses other messages as UnexpectedMessageType" % short(ty), good, "%s message refused with %s" % (n, c.errname(e)), kind="unframe", st=s)
                if good and want and len(e.f) == 2:
                    w = MSGTYPES[want]
                    c.req("unframe::<%s> reports the expected type" % short(ty), s.decide(c_and([c_eq(e.f[0], K(w[0])), c_eq(e.f[1], K(w[1]))])),
                          "reports %s/%s" % (brief(e.f[0]), brief(e.f[1])), kind="unframe", st=s)
            continue
        # matching type: same outcome as decoding the payload
        s0 = State()
        sr = c.slice_ref_to(I, s0, pl.seq, "bytes")
        doks, derrs = c.split(c.run(I, c.gkey("g_dev", ty), [sr], s0))
        name = "unframe::<%s> of a matching message = decode of its payload" % short(ty)
        if not oks:
            c.bad(name, "never succeeds", kind="unframe", some=True)
        for v, s in oks:
            hit = any(veq(I, s, v, w) is True for w, _ in doks)
            c.req(name, True if hit else None, "gives %s, which decoding the payload does not" % brief(v), kind="unframe", dep=[v], st=s)
        dn = {c.errname(e) for e, _ in derrs}
        for e, s in errs:
            c.req(name + " (errors)", c.errname(e) in dn, "refused with %s although the type matches" % c.errname(e), kind="unframe", st=s)


def c09_tasks(p, tier):
    ts = sorted(t for (g, t) in p.gkey if g == "g_unframe")
    return [(t_frame_of, (t,)) for t in ts] + [(t_unframe, (t,)) for t in ts]


# ================================================================================ constructors
def requirements(c, I, st, root, args):
    """(what, condition, error kinds allowed when it fails)"""
    out = []
    L255 = lambda n: (n + " at most 255 bytes", c_le(seq_len(args[n].seq), K(255)), {"RequirementError"})
    if "setup_connection" in root and "error" not in root and "success" not in root:
        out.append(("vendor not empty", c_le(ONE, seq_len(args["vendor"].seq)), {"RequirementError"}))
        out.append(("firmware not empty", c_le(ONE, seq_len(args["firmware"].seq)), {"RequirementError"}))
        out.append(("min_version at least 2", c_le(K(2), args["min_version"]), {"VersionError"}))
        out.append(("max_version at least 2", c_le(K(2), args["max_version"]), {"VersionError"}))
        out += [L255(n) for n in ("endpoint_host", "vendor", "hardware_version", "firmware", "device_id")]
    elif "setup_connection_error" in root:
        e = args["error_code"]
        fe = c_eq(args["flags"].f[0], ZERO)
        need = c_not(fe) if c.p.vname(e.ty, e.v) == "UnsupportedFeatureFlags" else True
        out.append(("flags not empty with unsupported-feature-flags", need, {"RequirementError"}))
    for n, v in args.items():
        if n == "user_identity":
            out.append(L255(n))
        elif n == "extranonce_prefix":
            out.append(("extranonce_prefix at most 32 bytes", c_le(seq_len(v.seq), K(32)), {"RequirementError"}))
    return out


def t_ctor(c, root):
    import itertools
    from .p_codec import valid_arg
    I = c.interp()
    k = c.key(root)
    names, tys = c.argnames(k), c.argtys(k)
    for combo in itertools.product(*[valid_arg(c, I, n, t) for n, t in zip(names, tys)]):
        args = dict(zip(names, combo))
        d = root_desc(args)
        tag = root + (" [" + d + "]" if d else "")
        oks, errs = c.split(c.run(I, k, combo))
        reqs = requirements(c, I, None, root, args)
        impossible = any(r is False for _, r, _ in reqs)
        if not oks and not impossible:
            c.bad("%s accepts valid arguments" % tag, "never succeeds", kind="constructor", some=True)
        for v, s in oks:
            for what, cond, _ in reqs:
                c.req("%s enforces: %s" % (tag, what), s.decide(cond), "accepts arguments that break it", kind="constructor", st=s)
            # what was passed is what is stored
            val = v
            if root.startswith("new_c_") and isinstance(v, AdtV):
                wantv = UNION_CTORS[root][1]
                c.req("%s builds the right variant" % tag, c.p.vname(v.ty, v.v) == wantv, "builds %s" % name_of(v), kind="constructor", st=s)
                val = v.f[0]
            if isinstance(val, AdtV):
                for (fn_, ft), x in zip(c.p.fields(val.ty), val.f):
                    if fn_ not in args:
                        continue
                    a = args[fn_]
                    if isinstance(x, AdtV) and isinstance(a, VecV):
                        xs = [y for y in x.f if isinstance(y, VecV)]
                        r = veq(I, s, xs[0], a) if len(xs) == 1 else None
                        for y in x.f:
                            if isinstance(y, L):
                                r = r if veq(I, s, y, seq_len(a.seq)) is True else None
                    else:
                        r = veq(I, s, x, a)
                    c.req("%s stores %s unchanged" % (tag, fn_), r, "stores %s" % brief(x), kind="constructor", dep=[x], st=s)
        # completeness: arguments meeting every requirement are accepted ...
        st = State()
        if all(st.assume(r) for _, r, _ in reqs):
            o2, e2 = c.split(c.run(I, k, combo, st))
            for e, s in e2:
                c.bad("%s refuses only invalid arguments" % tag, "refuses valid arguments with %s" % c.errname(e), kind="constructor", st=s)
            c.ok("%s accepts every valid argument list" % tag, kind="constructor")
        # ... and with exactly one broken, that one is named
        for i, (w, r, ks) in enumerate(reqs):
            st = State()
            if st.assume(c_not(r)) and all(st.assume(r2) for j2, (_, r2, _) in enumerate(reqs) if j2 != i):
                o2, e2 = c.split(c.run(I, k, combo, st))
                for v, s in o2:
                    c.bad("%s enforces: %s" % (tag, w), "accepts arguments that break it", kind="constructor", st=s)
                for e, s in e2:
                    c.req("%s reports a broken '%s' as %s" % (tag, w, "/".join(ks)), c.errname(e) in ks, "refused with %s" % c.errname(e), kind="constructor", st=s)


def t_decoded_valid(c, ty):
    """whatever decodes satisfies the same requirements"""
    I = c.interp()
    inp = inp_seq()
    pr, st = c.parser(I, State(), inp)
    oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
    root = MSGS[ty][0] if ty in MSGS else "new_c_setup_connection_mining"
    for v, s in oks:
        val = v.f[0] if ty == UNION else v
        args = {}
        for (fn_, ft), x in zip(c.p.fields(val.ty), val.f):
            if isinstance(x, AdtV) and any(isinstance(y, VecV) for y in x.f):
                args[fn_] = [y for y in x.f if isinstance(y, VecV)][0]
            else:
                args[fn_] = x
        for what, cond, _ in requirements(c, I, s, root, args):
            c.req("decoded %s: %s" % (short(ty), what), s.decide(cond), "decodes a value that breaks it", kind="decode-validation", st=s)


def c11_tasks(p, tier):
    roots = sorted(r for r in p.rootkey if r.startswith("new_"))
    return [(t_ctor, (r,)) for r in roots] + [(t_decoded_valid, (t,)) for t in list(MSGS) + [UNION]]


# ================================================================================ enumerations
def t_flags(c, ty):
    I = c.interp()
    inp = inp_seq()
    pr, st = c.parser(I, State(), inp)
    oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
    m = FLAGS[ty]
    nm = short(ty)
    N = seq_len(inp)
    if not oks:
        c.bad("%s decodes defined flags" % nm, "nothing decodes", kind="flags", some=True)
    for v, s in oks:
        w = I.bytes_to_int(s, I.seq_slice(s, inp, ZERO, K(4)))
        bits = I.bits_of(s, w, 32)
        r = True
        for i in range(32):
            if not (m >> i) & 1:
                b = s.bit(bits[i]) if bits is not None else None
                if b != 0:
                    r = s.decide(c_not(bit_cond(bits[i]))) if bits is not None else None
                    if r is not True:
                        break
        c.req("%s refuses undefined bits" % nm, r, "an undefined bit is accepted", kind="flags", st=s)
        c.req("%s keeps every bit it accepts" % nm, veq(I, s, v.f[0], w), "decodes %s from %s" % (brief(v), brief(w)), kind="flags", dep=[v], st=s)
    for e, s in errs:
        if s.decide(c_lt(N, K(4))) is True:
            continue
        nme = c.errname(e)
        c.req("%s refuses undefined bits as UnknownFlags" % nm, nme == "UnknownFlags", "refused with %s" % nme, kind="flags", st=s)
    for x in range(1 << 8):
        if x & ~m or x > m:
            continue
        pr, st = c.parser(I, State(), mkseq([("e", K(b)) for b in (x & 255, x >> 8, 0, 0)] + list(inp_seq("rest").s)))
        o2, e2 = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
        r = len(o2) == 1 and not e2 and veq(I, o2[0][1], o2[0][0].f[0], K(x))
        c.req("%s accepts every combination of defined bits" % nm, r, "combination %d is refused or changed" % x, kind="flags")


def t_code_from(c, ty, root):
    I = c.interp()
    k = c.key(root)
    args = c.symargs(I, k)
    a = args[0]
    codes = CODES[ty]
    nm = short(ty)

    def text(s):
        v = a
        if isinstance(v, AdtV):
            v = [x for x in v.f if isinstance(x, VecV)][0]
        return seqof(I, s, v)
    oks, errs = c.split(c.run(I, k, args))
    seen = set()
    for v, s in oks:
        n = c.p.vname(v.ty, v.v) if isinstance(v, AdtV) else None
        seen.add(n)
        if n in codes:
            q = text(s)
            r = s.decide(c_eq(seq_len(q), K(len(codes[n])))) is True and seq_align(I, s, q, bytes_seq(codes[n]))
            c.req("%s: only \"%s\" is %s (%s)" % (nm, codes[n].decode(), n, root), r or None, "another text is accepted", kind="codes", st=s)
    for n in codes:
        c.req("%s: \"%s\" is accepted (%s)" % (nm, codes[n].decode(), root), n in seen, "no text gives %s" % n, kind="codes", some=True)
    for e, s in errs:
        c.req("%s: unknown texts are refused as UnknownErrorCode (%s)" % (nm, root), c.errname(e) == "UnknownErrorCode", "refused with %s" % c.errname(e), kind="codes", st=s)
    for n, text_ in codes.items():
        q = bytes_seq(text_)
        st = State()
        if isinstance(a, AdtV):
            arg = AdtV(a.ty, 0, [VecV(q) if isinstance(x, VecV) else K(len(text_)) for x in a.f])
        elif isinstance(a, VecV):
            arg = VecV(q)
        else:
            arg = c.slice_ref_to(I, st, q, "text")
        o2, e2 = c.split(c.run(I, k, [arg], st))
        c.req("%s: \"%s\" is %s (%s)" % (nm, text_.decode(), n, root), len(o2) == 1 and not e2 and c.p.vname(o2[0][0].ty, o2[0][0].v) == n,
              "is not", kind="codes")


def t_code_to(c, ty, root):
    I = c.interp()
    i = c.p.find(ty)
    for n, text in CODES[ty].items():
        st = State()
        r = c.ref_to(I, st, AdtV(i, c.p.variant(i, n), []), "e")
        for v, s in c.run(I, c.key(root), [r], st):
            q = None
            if isinstance(v, VecV):
                q = v.seq
            elif isinstance(v, AdtV):
                q = [x for x in v.f if isinstance(x, VecV)][0].seq
                for x in v.f:
                    if isinstance(x, L):
                        c.req("%s(%s) records its length" % (root, n), s.decide(c_eq(x, K(len(text)))), "length %s" % brief(x), kind="codes", st=s)
            c.req("%s(%s) is \"%s\"" % (root, n, text.decode()), seq_align(I, s, q, bytes_seq(text)), "is %s" % brief(q), kind="codes", dep=[q], st=s)


def t_protocol(c):
    I = c.interp()
    i = c.p.find(CC + "Protocol")
    for n, b in PROTOCOL.items():
        j = c.p.variant(i, n)
        if j is None:
            c.bad("Protocol::%s exists" % n, "gone", kind="protocol")
            continue
        for root in ("proto_to_u8", "proto_ref_to_u8"):
            st = State()
            a = AdtV(i, j, [])
            if root == "proto_ref_to_u8":
                a = c.ref_to(I, st, a, "p")
            for v, s in c.run(I, c.key(root), [a], st):
                c.req("Protocol::%s is byte %d (%s)" % (n, b, root), s.decide(c_eq(v, K(b))), "is %s" % brief(v), kind="protocol", st=s)
        oks, errs = c.split(c.run(I, c.key("proto_try_u8"), [K(b)]))
        c.req("protocol byte %d is %s" % (b, n), len(oks) == 1 and not errs and c.p.vname(oks[0][0].ty, oks[0][0].v) == n, "is not", kind="protocol")
    x, = c.symargs(I, c.key("proto_try_u8"))
    oks, errs = c.split(c.run(I, c.key("proto_try_u8"), [x]))
    for v, s in oks:
        c.req("only bytes 0..3 name a protocol", s.decide(c_le(x, K(3))), "byte %s accepted" % (s.rng(x),), kind="protocol", st=s)
    for e, s in errs:
        c.req("bytes 0..3 are not refused", s.decide(c_lt(K(3), x)), "byte %s refused" % (s.rng(x),), kind="protocol", st=s)
    # decoding
    inp = inp_seq()
    pr, st = c.parser(I, State(), inp)
    oks, errs = c.split(c.run(I, c.gkey("g_de", CC + "Protocol"), [pr], st))
    for v, s in oks:
        n = c.p.vname(v.ty, v.v) if isinstance(v, AdtV) else None
        c.req("decoded protocol byte", s.decide(c_eq(I.seq_get(s, inp, ZERO), K(PROTOCOL.get(n, 999)))), "%s from %s" % (n, s.rng(I.seq_get(s, inp, ZERO))), kind="protocol", st=s)
    # the SetupConnection union refuses what it does not implement
    pr, st = c.parser(I, State(), inp)
    oks, errs = c.split(c.run(I, c.gkey("g_de", UNION), [pr], st))
    for v, s in oks:
        n = c.p.vname(v.ty, v.v)
        c.req("SetupConnection::%s only behind its protocol byte" % n, s.decide(c_eq(I.seq_get(s, inp, ZERO), K(PROTOCOL.get(n, 999)))),
              "decoded behind protocol byte %s" % (s.rng(I.seq_get(s, inp, ZERO)),), kind="protocol", st=s)


def t_bool_de(c):
    """only the least significant bit of a boolean byte is interpreted"""
    I = c.interp()
    inp = inp_seq()
    pr, st = c.parser(I, State(), inp)
    oks, errs = c.split(c.run(I, c.gkey("g_de", "bool"), [pr], st))
    for v, s in oks:
        b = single(I.seq_get(s, inp, ZERO))
        for bit in (0, 1):
            t = s.copy()
            cd = ("bit", b, 0)
            if t.assume(cd if bit else c_not(cd)):
                c.req("a boolean is the low bit of its byte", t.decide(v.c) is bool(bit) or None, "low bit %d decodes to %s" % (bit, brief(v)), kind="flags", dep=[v], st=t)
    for e, s in errs:
        c.req("any byte is a boolean", s.decide(c_lt(seq_len(inp), ONE)), "a byte is refused", kind="flags", st=s)


def c12_tasks(p, tier):
    out = [(t_flags, (t,)) for t in FLAGS] + [(t_protocol, ()), (t_bool_de, ())]
    for ty, pre in ((CC + "SetupConnectionErrorCode", "scec"), (MC + "OpenMiningChannelErrorCode", "omcec")):
        out += [(t_code_from, (ty, pre + "_" + r)) for r in ("from_str", "try_string", "try_str0")]
        out += [(t_code_to, (ty, pre + "_" + r)) for r in ("to_string", "to_str0")]
    return out


# ================================================================================ parser
def t_parser(c):
    I = c.interp()
    inp = inp_seq()
    N = seq_len(inp)
    start = A(Atom("sym", (("arg", "start"),), 64))
    n = A(Atom("sym", (("arg", "n"),), 64))
    m = A(Atom("sym", (("arg", "m"),), 64))
    k = c.key("parser_next")

    def go(*conds):
        st = State()
        for cd in conds:
            if not st.assume(cd):
                raise Undecided("assumption")
        pr, st = c.parser(I, st, inp, start)
        o, e = c.split(c.run(I, k, [pr, n], st))
        return pr, o, e
    # any position, any length
    pr, oks, errs = go()
    if not oks:
        c.bad("next_by succeeds", "never", kind="parser")
    for v, s in oks:
        q = I.slice_of(s, v)
        c.req("next_by(n) stays inside the input", s.decide(c_le(add(start, n), N)), "position %s + %s against length" % (s.rng(start), s.rng(n)), kind="parser", st=s)
        c.req("next_by(n) returns exactly n bytes", s.decide(c_eq(seq_len(q), n)), "returns %s bytes" % brief(seq_len(q)), kind="parser", st=s)
        c.req("next_by(n) returns the bytes at the position", seq_align(I, s, q, I.seq_slice(s, inp, start, n)), "returns %s" % brief(q), kind="parser", dep=[q], st=s)
        o2, e2 = c.split(c.run(I, k, [pr, m], s))
        for w, s2 in o2:
            q2 = I.slice_of(s2, w)
            c.req("the next read continues where the last ended", seq_align(I, s2, q2, I.seq_slice(s2, inp, add(start, n), m)), "reads %s" % brief(q2), kind="parser", dep=[q2], st=s2)
            c.req("the next read stays inside the input", s2.decide(c_le(add(add(start, n), m), N)), "reads past the end", kind="parser", st=s2)
    # fits: accepted, twice in a row
    pr, oks, errs = go(c_le(add(start, n), N))
    for e, s in errs:
        c.bad("a read inside the input succeeds", "refused with %s" % c.errname(e), kind="parser", st=s)
    pr, oks, errs = go(c_le(add(start, n), N), c_le(add(add(start, n), m), N))
    for v, s in oks:
        for e, s2 in c.split(c.run(I, k, [pr, m], s))[1]:
            c.bad("a read inside the input succeeds", "the second read is refused with %s" % c.errname(e), kind="parser", st=s2)
    c.ok("a read inside the input succeeds", kind="parser")
    # does not fit: refused, and the position stays
    pr, oks, errs = go(c_lt(N, add(start, n)), c_le(add(start, m), N))
    for v, s in oks:
        c.bad("a read beyond the input is refused", "accepted", kind="parser", st=s)
    for e, s in errs:
        o2, e2 = c.split(c.run(I, k, [pr, m], s))
        for e2_, s2 in e2:
            c.bad("a refused read does not lose input", "after a refused read, a read that fits is refused", kind="parser", st=s2)
        for w, s2 in o2:
            q2 = I.slice_of(s2, w)
            c.req("a refused read does not move the position", seq_align(I, s2, q2, I.seq_slice(s2, inp, start, m)), "the read after a refused one gives %s" % brief(q2), kind="parser", dep=[q2], st=s2)
    c.panic_obs(I, "next_by never panics")


def t_slice_entry(c, ty):
    """deserialize(bytes) decodes from the first byte on"""
    I = c.interp()
    inp = inp_seq()
    st = State()
    r = c.slice_ref_to(I, st, inp, "bytes")
    o1, e1 = c.split(c.run(I, c.gkey("g_dev", ty), [r], st))
    pr, st = c.parser(I, State(), inp)
    o2, e2 = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
    name = "deserialize::<%s>(bytes) reads from the first byte" % short(ty)
    for v, s in o1:
        hit = any(veq(I, s, v, w) is True for w, _ in o2)
        c.req(name, True if hit else None, "gives %s" % brief(v), kind="parser", dep=[v], st=s)
    n2 = {c.errname(e) for e, _ in e2}
    for e, s in e1:
        c.req(name + " (errors)", c.errname(e) in n2, "refused with %s" % c.errname(e), kind="parser", st=s)


def c13_tasks(p, tier):
    from .p_codec import rt_types
    return [(t_parser, ())] + [(t_slice_entry, (t,)) for t in rt_types(p)]


# ================================================================================ timestamps
def t_time(c, root):
    I = c.interp()
    k = c.key(root)
    args = c.symargs(I, k)
    oks, errs = c.split(c.run(I, k, args))
    if not oks:
        c.bad("%s succeeds" % root, "never", kind="timestamp")
    for v, s in oks:
        if root == "time_now":
            now = [e for e in s.ev if e[0] == "now"]
            c.req("%s reads the clock" % root, len(now) == 1, "reads it %d times" % len(now), kind="timestamp", st=s)
        sec = MD_secs(s, root, args, I)
        if sec is None:
            c.bad("%s measures from the epoch" % root, "gives %s without comparing the time with the epoch" % brief(v), kind="timestamp", dep=[v], st=s)
            continue
        c.req("%s is the whole seconds since the epoch" % root, veq(I, s, v, sec), "gives %s" % brief(v), kind="timestamp", dep=[v], st=s)
        c.req("%s refuses times past 2^32-1 seconds" % root, s.decide(c_le(sec, K((1 << 32) - 1))), "wraps: seconds in %s" % (s.rng(sec),), kind="timestamp", st=s)
        tt = [(t, b) for t, b in s.truth.items() if isinstance(t, tuple) and t and t[0] == "notbefore"]
        c.req("%s refuses times before the epoch" % root, any(b is True for _, b in tt), "not checked", kind="timestamp", st=s)
    for e, s in errs:
        tt = [(t, b) for t, b in s.truth.items() if isinstance(t, tuple) and t and t[0] == "notbefore"]
        before = any(b is False for _, b in tt)
        sec = MD_secs(s, root, args, I)
        late = sec is not None and s.decide(c_lt(K((1 << 32) - 1), sec)) is True
        c.req("%s refuses only times it cannot represent" % root, before or late, "refused with %s" % c.errname(e), kind="timestamp", st=s)


TIMES = [(0, 0), (0, 999999999), (1, 500000000), ((1 << 24) + 1, 0), ((1 << 31) - 1, 999999999), (1 << 31, 0), ((1 << 32) - 129, 0),
         ((1 << 32) - 1, 0), ((1 << 32) - 1, 999999999), (1 << 32, 0), ((1 << 32) + 5, 1), (1 << 48, 0), ((1 << 63) - 1, 999999999)]


def t_time_at(c, root):
    """the same at single times, where also arithmetic that is not followed symbolically is decided"""
    for secs, nanos in TIMES:
        MD.TIME_AT[0] = (secs, nanos)
        try:
            I = c.interp()
            k = c.key(root)
            args = c.symargs(I, k)
            outs = c.run(I, k, args)
        finally:
            MD.TIME_AT[0] = None
        for v, s in outs:
            if MD_secs(s, root, args, I) is None:
                continue
            if any(isinstance(t, tuple) and t and t[0] == "notbefore" and (b is False or not is_epoch(t[2])) for t, b in s.truth.items()):
                continue
            name = "%s at %d.%09d s" % (root, secs, nanos)
            fine = c.p.vname(v.ty, v.v) == "Ok" if isinstance(v, AdtV) else None
            if fine is None:
                raise Undecided("result shape")
            if secs >= 1 << 32:
                c.req(name + " is refused", not fine, "gives %s" % brief(v), kind="timestamp", st=s)
            elif fine and not (isinstance(v.f[0], L) and s.cval(v.f[0]) is not None):
                c.und(name + " is its whole seconds", "gives %s" % brief(v, 100), kind="timestamp")
            else:
                c.req(name + " is its whole seconds", fine and veq(I, s, v.f[0], K(secs)), "gives %s" % brief(v), kind="timestamp", dep=[v], st=s)


def is_epoch(x):
    """the constant time 0s 0ns"""
    if isinstance(x, L):
        return x.const == 0
    if isinstance(x, AdtV):
        return all(is_epoch(y) for y in x.f)
    if isinstance(x, Sym):
        return is_epoch(x.t)
    if isinstance(x, tuple):
        return x[:1] == ("pat",) and all(y in (0, None) for y in x[1]) and any(y == 0 for y in x[1])
    return False


def MD_secs(s, root, args, I):
    """seconds of (the given time - epoch), as the models name them"""
    for t in s.truth:
        if isinstance(t, tuple) and t and t[0] == "notbefore" and is_epoch(t[2]):
            if root == "time_now":
                if not any(e == ("now", t[1][1]) for e in s.ev if isinstance(t[1], tuple) and t[1][0] == "now"):
                    continue
            else:
                v = I.deref(s, args[0])
                if MD.tterm(I, v) != t[1]:
                    continue
            return A(Atom("sym", (("fld", ("dur", t[1], t[2]), "secs"),), 64))
    return None


def c14_tasks(p, tier):
    return [(t, (r,)) for t in (t_time, t_time_at) for r in ("time_to_u32", "time_now")]


# ================================================================================ purity
IMPURE = (r"^(std|core|alloc)::time::(SystemTime|Instant)::(now|elapsed)", r"^rand", r"^getrandom", r"^std::env::", r"^std::fs::", r"^std::net::", r"^std::process::",
          r"^std::thread::", r"^std::io::(stdin|stdout|stderr|_print|_eprint)", r"LocalKey", r"^(std|core)::ptr::(read|write)_volatile",
          r"(HashMap|HashSet|hash::map|hash::set)\b.*::(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values|retain)$")
# a table built on first use: whether what it holds depends on the first caller is not decided here
LAZY = re.compile(r"OnceLock|OnceCell|LazyLock|LazyCell|lazy::|Lazy<")


def once_draws(p, key):
    """what randomness, clock or environment the values a function makes once are drawn from"""
    pats = [re.compile(x) for x in IMPURE]
    # the value is made by the closure or function handed to the one-time call
    todo = [tk for nm, tk in p.call_edges(key) if tk and LAZY.search(nm)]
    named = {x for tk in todo for x in re.findall(r"fn\(\) -> [^{}]*\{([^{}]+)\}", tk)}
    if todo:
        todo += p.closures_of(key) + [k for k, f in p.fns.items() if f["nd"] in named]
    seen = set(todo)
    while todo:
        k = todo.pop()
        f = p.fns.get(k)
        if f is None:
            continue
        mine = f["crate"] in REPO_CRATES
        for nm, tk in p.call_edges(k):
            if mine and any(r.search(nm) for r in pats):
                return nm
            if tk and tk not in seen:
                seen.add(tk)
                todo.append(tk)
    return None


def effects(c, key, allowed=()):
    """(function, what, path) of the first effect on any path of the call graph from key; unresolved ones"""
    pats = [re.compile(x) for x in IMPURE if x not in allowed]
    p = c.p
    seen = {key: None}
    todo = [key]
    bad, lazy = None, None
    while todo and bad is None:
        k = todo.pop()
        f = p.fns.get(k)
        if f is None:
            continue
        mine = f["crate"] in REPO_CRATES or f["crate"] == "vxwitness"
        if mine:
            c.stats["functions"].add(f["nd"])
        for nm, tk in p.call_edges(k):
            if mine:
                c.stats["call_targets"].add(nm)
                if any(r.search(nm) for r in pats):
                    bad = (k, nm)
                    break
            if tk and tk not in seen:
                seen[tk] = k
                todo.append(tk)
        if not mine:
            continue
        for tk in p.closures_of(k):
            if tk not in seen:
                seen[tk] = k
                todo.append(tk)
        for a, tn in p.static_refs(k):
            if LAZY.search(tn):
                if re.search(r"Mutex|RwLock|RefCell|Atomic|[^a-z]Cell<", tn):
                    bad = (k, "static %s, which changes while it is used" % a)
                    continue
                drawn = once_draws(p, k)
                if drawn:
                    bad = (k, "static %s, made once from %s and then shared" % (a, drawn))
                    continue
                lazy = (k, "static " + a)
            else:
                bad = (k, "static " + a)

    def show(b):
        path, k = [], b[0]
        while k is not None:
            path.append(p.fns[k]["nd"])
            k = seen[k]
        return "reaches %s: %s" % (b[1], " <- ".join(path[:6])), "%s (%s:%s)" % (p.fns[b[0]]["nd"], p.fns[b[0]].get("file"), p.fns[b[0]].get("line"))
    return (show(bad) if bad else None), (show(lazy) if lazy else None)


def t_pure(c, key, label, allowed=()):
    """no effect other than writing to the given writer, on any path of the call graph"""
    c.root = key
    bad, lazy = effects(c, key, allowed)
    name = "%s is a function of its arguments" % label
    if bad is not None:
        c.bad(name, bad[0], bad[1], "effects")
    elif lazy is not None:
        c.und(name, lazy[0], lazy[1], "effects")
    else:
        c.ok(name, kind="effects")


def t_pure_g(c, g, ty):
    t_pure(c, c.gkey(g, ty), "%s<%s>" % (g, short(ty)))


def t_pure_r(c, r):
    t_pure(c, c.key(r), r)


def c26_tasks(p, tier):
    from .p_codec import CODEC_ROOTS
    out = [(t_pure_g, k) for k in sorted(p.gkey) if k[0] in ("g_ser", "g_serv", "g_de", "g_dev", "g_frame", "g_unframe", "g_mt")]
    roots = [r for r in CODEC_ROOTS if not r.startswith("time_now")] + sorted(r for r in p.rootkey if r.startswith(("new_", "eq_"))) + [
        "cert_new", "cert_msg_new", "cert_format_new", "ser_cert_format", "ser_signed_cert"]
    return out + [(t_pure_r, (r,)) for r in roots]
