"""Codec properties: totality, layout, round trip, canonical decoding, writers, bounded types,
message ids, framing, constructors, enumerations, parser."""
import itertools

from .core import *
from .spec import *

PRIMS = {"bool": 1, "u8": 1, "u16": 2, "u32": 4, "f32": 4}


def short(t):
    return t.replace("stratumv2::", "")


# ------------------------------------------------------------------------------ valid values
def flag_val(I, ty, term):
    m = FLAGS[I.p.tname(ty)]
    (fname, fty), = I.p.fields(ty)
    a = Atom("sym", (("fld", term, fname),), 32)
    return AdtV(ty, 0, [from_bits([(a, i) if (m >> i) & 1 else 0 for i in range(32)])])


def valid_arg(c, I, name, ty):
    """list of values covering every valid argument of a constructor"""
    tn = c.p.tname(ty)
    if tn in FLAGS:
        return [flag_val(I, ty, ("arg", name))]
    if tn in CODES or tn.endswith("::Protocol") or tn.endswith("::MessageType"):
        return [AdtV(ty, j, []) for j in range(len(c.p.types[ty]["vs"]))]
    return [I.mk_sym(("arg", name), ty)]


def ctor_values(c, I, root):
    """(args by name, value, state) for every value the constructor can produce"""
    k = c.key(root)
    names, tys = c.argnames(k), c.argtys(k)
    out = []
    for combo in itertools.product(*[valid_arg(c, I, n, t) for n, t in zip(names, tys)]):
        outs = c.run(I, k, combo)
        oks, errs = c.split(outs)
        for v, s in oks:
            out.append((dict(zip(names, combo)), v, s))
    return out


def valid_values(c, I, ty):
    """(description, value, state): covers every valid value of a serializable type"""
    p = c.p
    if ty in MSGS:
        return [(root_desc(a), v, s) for a, v, s in ctor_values(c, I, MSGS[ty][0])]
    if ty == UNION:
        return [(r, v, s) for r in UNION_CTORS for a, v, s in ctor_values(c, I, r)]
    if ty in BOUNDED:
        return [(root_desc(a), v, s) for a, v, s in ctor_values(c, I, BOUNDED[ty][3])]
    i = p.find(ty)
    if i is None:
        raise Undecided("type %s not found" % ty)
    if ty in FLAGS:
        return [("any defined flags", flag_val(I, i, ("arg", "x")), State())]
    if ty in CODES or ty == CC + "Protocol":
        return [(p.vname(i, j), AdtV(i, j, []), State()) for j in range(len(p.types[i]["vs"]))]
    if ty == TY + "U24":
        return [("", v, s) for a, v, s in ctor_values(c, I, "u24_new")]
    if ty == "stratumv2::codec::Message":
        k = c.key("message_new")
        mt = c.argtys(k)[0]
        out = []
        for j in range(len(p.types[mt]["vs"])):
            st = State()
            pl = I.mk_sym(("arg", "payload"), c.argtys(k)[1])
            given(st, c_le(seq_len(pl.seq), K((1 << 24) - 1)))
            for v, s in c.run(I, k, [AdtV(mt, j, []), pl], st):
                out.append((p.vname(mt, j), v, s))
        return out
    if ty == "ed25519::Signature":
        q = SeqV([("s", ("arg", "sig"), ZERO, K(64))])
        st = State()
        given(st, sig_ok(I, st, q))
        return [("", mk_sig(q, i), st)]
    if ty == "stratumv2::noise::SignatureNoiseMessage":
        st = State()
        q = SeqV([("s", ("arg", "sig"), ZERO, K(64))])
        given(st, sig_ok(I, st, q))
        fs = p.fields(i)
        vals = [mk_sig(q, f) if p.tname(f) == "ed25519::Signature" else I.mk_sym(("arg", n), f) for n, f in fs]
        return [("", AdtV(i, 0, vals), st)]
    if ty == "bool":
        return [("", BoolV(("bit", Atom("sym", (("arg", "x"),), 1), 0)), State())]
    return [("", I.mk_sym(("arg", "x"), i), State())]


def root_desc(args):
    d = ["%s=%s" % (k, name_of(v).split("::")[-1]) for k, v in args.items() if isinstance(v, AdtV) and Models.prog.is_enum(v.ty)]
    return ",".join(d)


# ------------------------------------------------------------------------------ reference layout
def lenseg(I, st, n, nb):
    b = I.bits_of(st, n, 64)
    if b is None:
        raise Undecided("length header")
    return [("e", st.norm(from_bits(b[8 * i:8 * i + 8]))) for i in range(nb)]


def wire(I, st, wt, v):
    if wt in ("u8", "u16", "u32"):
        return list(I.int_to_bytes(st, v, int(wt[1:])).s)
    if wt == "u32f":
        return list(I.int_to_bytes(st, v.f[0], 32).s)
    if wt == "f32":
        if isinstance(v, Sym) and v.t[0] == "f":
            return list(I.int_to_bytes(st, v.t[1], 32).s)
        raise Undecided("float value")
    if wt == "U256":
        return list(seqof(I, st, v).s)
    if wt in ("STR0_255", "B0_32"):
        q = seqof(I, st, v)
        return lenseg(I, st, seq_len(q), 1) + list(q.s)
    if wt == "code":
        t = CODES[I.p.tname(v.ty)][I.p.vname(v.ty, v.v)]
        return [("e", K(len(t)))] + [("e", K(b)) for b in t]
    raise Undecided("wire type " + wt)


def msg_layout(I, st, fields, args):
    segs = []
    for n, wt in fields:
        segs += wire(I, st, wt, args[n])
    return mkseq(segs)


# ------------------------------------------------------------------------------ writers
def written(I, st, evs):
    """bytes handed to the writer, or None if bytes are left out behind a short write"""
    segs = []
    rest = None
    for e in evs:
        if e[0] not in ("write", "write_all"):
            continue
        if rest is not None and not seq_align(I, st, e[1], rest):
            return None
        rest = None
        if e[0] == "write" and st.decide(c_eq(e[2], seq_len(e[1]))) is not True:
            segs += list(I.seq_slice(st, e[1], ZERO, e[2]).s)
            rest = I.seq_slice(st, e[1], e[2], sub(seq_len(e[1]), e[2]))
        else:
            segs += list(e[1].s)
    return None if rest is not None else mkseq(segs)


def ser(c, I, key, v, st):
    """run serialize(&v, &mut w) -> list of (result value, state, new events)"""
    st = st.copy()
    r = c.ref_to(I, st, v, "x")
    args = [r]
    if len(c.argtys(key)) > 1:
        args.append(I.mk_sym(("arg", "w"), c.argtys(key)[1]))
    n = len(st.ev)
    return [(o, s, s.ev[n:]) for o, s in c.run(I, key, args, st)]


def vec_of(c, I, ty, v, st):
    """serialize::<T>(&v) -> list of (Ok bytes, state), list of errors"""
    k = c.gkey("g_serv", ty)
    st = st.copy()
    r = c.ref_to(I, st, v, "x")
    return c.split(c.run(I, k, [r], st))


def de(c, I, ty, seq, st):
    """T::deserialize over a parser on seq followed by arbitrary bytes"""
    rest = SeqV([("s", ("arg", "rest"), ZERO, symlen(("arg", "rest"), 0, (1 << 62)))])
    whole = mkseq(list(seq.s) + list(rest.s))
    st = st.copy()
    pr, st = c.parser(I, st, whole)
    k = c.gkey("g_de", ty)
    return pr, rest, whole, c.run(I, k, [pr], st)


def probe(c, I, st, pr, n):
    """what the next n bytes of the parser are -> [(ok?, seq or None, state)]"""
    k = c.key("parser_next")
    keep = c.root
    outs = I.exec_fn(k, [pr, n], st, None)
    c.root = keep
    res = []
    for v, s in outs:
        if isinstance(v, AdtV) and c.p.vname(v.ty, v.v) == "Ok":
            res.append((True, I.slice_of(s, v.f[0]), s))
        else:
            res.append((False, None, s))
    return res


# ================================================================================ C01 totality
def t_no_panic_g(c, g, ty):
    I = c.interp()
    k = c.gkey(g, ty)
    c.run(I, k, c.symargs(I, k))
    c.panic_obs(I, "%s<%s> returns for every input" % (g, short(ty)))


def t_no_panic(c, root, tag=""):
    I = c.interp()
    k = c.key(root)
    c.run(I, k, c.symargs(I, k))
    c.panic_obs(I, "%s returns for every input" % root)


CODEC_ROOTS = ("parser_new parser_next message_new mt_new mt_ext mt_msg mt_chan u24_new u24_try_u32 u24_try_usize u24_to_u32 u24_to_usize "
               "u256_from u256_into b0_31_new b0_32_new b0_255_new b0_64k_new b0_16m_new b0_32_into str0_32_new str0_255_new str0_255_into "
               "time_to_u32 time_now proto_to_u8 proto_ref_to_u8 proto_try_u8 scec_from_str scec_try_string scec_try_str0 scec_to_string "
               "scec_to_str0 omcec_from_str omcec_try_string omcec_try_str0 omcec_to_string omcec_to_str0").split()
CERT_ROOTS = "cert_new cert_msg_new cert_msg_sign cert_format_new cert_verify ser_cert_format ser_signed_cert authority_gen".split()


def ctor_roots(p):
    return sorted(r for r in p.rootkey if r.startswith("new_"))


DECODE_ROOTS = "parser_new parser_next mt_new proto_try_u8 scec_from_str scec_try_string scec_try_str0 omcec_from_str omcec_try_string omcec_try_str0 cert_format_new cert_verify".split()


def c01_tasks(p, tier):
    out = [(t_no_panic_g, (g, ty)) for (g, ty) in sorted(p.gkey) if g in ("g_de", "g_dev", "g_unframe")]
    return out + [(t_no_panic, (r,)) for r in DECODE_ROOTS]


def c37_tasks(p, tier):
    out = [(t_no_panic_g, (g, ty)) for (g, ty) in sorted(p.gkey) if g in ("g_ser", "g_serv", "g_frame", "g_mt")]
    roots = [r for r in CODEC_ROOTS + CERT_ROOTS if r not in DECODE_ROOTS]
    return out + [(t_no_panic, (r,)) for r in roots + ctor_roots(p) + sorted(r for r in p.rootkey if r.startswith("eq_") or r.endswith("_into2"))]


# ================================================================================ C02 layout
def check_bytes(c, I, name, ty, v, st, want, kind):
    for o, s, ev in ser(c, I, c.gkey("g_ser", ty), v, st):
        if any(e[0] == "write_err" for e in ev):
            continue
        if not (isinstance(o, AdtV) and c.p.vname(o.ty, o.v) == "Ok"):
            if any(e[0] == "write_none" for e in ev):
                continue
            c.bad(name, "encoding a valid value fails", kind=kind, st=s)
            continue
        got = written(I, s, ev)
        if got is None:
            c.bad(name, "some bytes may not reach the writer (short write ignored)", kind=kind, st=s)
            continue
        w = want(s)
        c.req(name, seq_align(I, s, got, w), "bytes written %s, protocol layout %s" % (brief(got), brief(w)), kind=kind, dep=[got], st=s)


def t_layout_msg(c, ty):
    I = c.interp()
    root, fields = MSGS[ty][0], MSGS[ty][1]
    vals = ctor_values(c, I, root)
    if not vals:
        c.bad("constructor of %s" % short(ty), "no value can be constructed", some=True)
    for args, v, st in vals:
        d = root_desc(args)
        check_bytes(c, I, "layout of %s%s" % (short(ty), "[" + d + "]" if d else ""), ty, v, st, lambda s: msg_layout(I, s, fields, args), "layout")


def t_layout_union(c, root):
    I = c.interp()
    tag, vn = UNION_CTORS[root]
    for args, v, st in ctor_values(c, I, root):
        check_bytes(c, I, "layout of SetupConnection union (%s)" % vn, UNION, v, st,
                    lambda s: mkseq([("e", K(tag))] + list(msg_layout(I, s, MSGS[MC + "SetupConnection"][1], args).s)), "layout")


def ref_prim(I, ty, v, s):
    """reference encoding of a value of a basic type"""
    if ty == "bool":
        return mkseq([("e", b2i(v.c))])
    if ty in PRIMS:
        return mkseq(wire(I, s, ty, v))
    if ty == TY + "U24":
        return SeqV(I.int_to_bytes(s, v.f[0], 32).s[:3]) if v.f[0].const is not None else mkseq(
            [("e", from_bits(I.bits_of(s, v.f[0], 32)[8 * i:8 * i + 8])) for i in range(3)])
    if ty == TY + "U256" or ty == "noiseexplorer_nx::types::PublicKey":
        return seqof(I, s, v)
    if ty == "ed25519::Signature":
        return MD.sig_bytes(v)
    if ty in FLAGS:
        return mkseq(wire(I, s, "u32f", v))
    if ty in CODES:
        return mkseq(wire(I, s, "code", v))
    if ty == CC + "Protocol":
        return mkseq([("e", K(PROTOCOL[I.p.vname(v.ty, v.v)]))])
    if ty == "stratumv2::noise::SignatureNoiseMessage":
        segs = []
        for n in ("version", "valid_from", "not_valid_after", "signature"):
            for j, (fn_, ft) in enumerate(I.p.fields(v.ty)):
                if fn_ == n:
                    x = v.f[j]
                    segs += list(MD.sig_bytes(x).s) if n == "signature" else wire(I, s, "u16" if n == "version" else "u32", x)
        return mkseq(segs)
    raise Undecided("no reference encoding for " + ty)


def t_layout_basic(c, ty):
    I = c.interp()
    if ty in BOUNDED:
        hb, mx, text, root = BOUNDED[ty]
        for args, v, st in ctor_values(c, I, root):
            q = list(args.values())[0].seq
            check_bytes(c, I, "layout of %s" % short(ty), ty, v, st, lambda s: mkseq(lenseg(I, s, seq_len(q), hb) + list(q.s)), "layout")
        return
    for d, v, st in valid_values(c, I, ty):
        check_bytes(c, I, "layout of %s %s" % (short(ty), d), ty, v, st, lambda s: ref_prim(I, ty, v, s), "layout")


BASIC = list(PRIMS) + [TY + "U24", TY + "U256"] + list(BOUNDED) + list(FLAGS) + list(CODES) + [
    CC + "Protocol", "ed25519::Signature", "stratumv2::noise::SignatureNoiseMessage", "noiseexplorer_nx::types::PublicKey"]


def c02_tasks(p, tier):
    return [(t_layout_msg, (m,)) for m in MSGS] + [(t_layout_union, (r,)) for r in UNION_CTORS] + [(t_layout_basic, (b,)) for b in BASIC]


# ================================================================================ C03 round trip
def t_roundtrip(c, ty):
    I = c.interp()
    n = 0
    for d, v, st in valid_values(c, I, ty):
        name = "decode(encode(x)) = x for %s%s" % (short(ty), " [" + d + "]" if d else "")
        oks, errs = vec_of(c, I, ty, v, st)
        if errs:
            c.bad(name, "encoding a valid value fails: %s" % brief(errs[0][0]), kind="round-trip", st=errs[0][1])
        for bv, s in oks:
            q = seqof(I, s, bv)
            pr, rest, whole, outs = de(c, I, ty, q, s)
            doks, derrs = c.split(outs)
            for e, s2 in derrs:
                c.bad(name, "decoding the encoding is refused with %s" % (c.errname(e) or brief(e)), kind="round-trip", dep=[q], st=s2)
            for w, s2 in doks:
                n += 1
                c.req(name, veq(I, s2, w, v), "decoded value %s differs from the encoded one %s" % (brief(w), brief(v)), kind="round-trip", dep=[w], st=s2)
                for okp, tail, s3 in probe(c, I, s2, pr, seq_len(rest)):
                    c.req(name + ": consumes exactly its bytes", seq_align(I, s3, tail, rest) if okp else False,
                          "after decoding, the parser is not at the end of the encoding (next bytes %s)" % (brief(tail) if okp else "out of bounds"),
                          kind="round-trip", st=s3)
            # the slice-level entry point agrees
            s4 = s.copy()
            r = c.slice_ref_to(I, s4, q, "bytes")
            o2, e2 = c.split(c.run(I, c.gkey("g_dev", ty), [r], s4))
            for e, s5 in e2:
                c.bad(name + " (from a slice)", "refused with %s" % (c.errname(e) or brief(e)), kind="round-trip", st=s5)
            for w, s5 in o2:
                c.req(name + " (from a slice)", veq(I, s5, w, v), "decoded value %s differs from %s" % (brief(w), brief(v)), kind="round-trip", dep=[w], st=s5)
    if not n and not c.obs:
        c.bad("round trip of %s" % short(ty), "no value round-trips", some=True)


def rt_types(p):
    return sorted(t for (g, t) in p.gkey if g == "g_de" and ("g_serv", t) in p.gkey)


def c03_tasks(p, tier):
    return [(t_roundtrip, (t,)) for t in rt_types(p)]


# ================================================================================ C04 canonical
def t_canonical(c, ty):
    """every accepted byte string is the encoding of the decoded value"""
    I = c.interp()
    k = c.gkey("g_de", ty)
    st = State()
    inp = SeqV([("s", ("arg", "input"), ZERO, symlen(("arg", "input"), 0, (1 << 62)))])
    pr, st = c.parser(I, st, inp)
    outs = c.run(I, k, [pr], st)
    oks, errs = c.split(outs)
    name = "encode(decode(b)) = consumed bytes for %s" % short(ty)
    if not oks:
        c.bad(name, "nothing decodes", kind="canonical", some=True)
    for v, s in oks:
        o2, e2 = vec_of(c, I, ty, v, s)
        for e, s2 in e2:
            c.bad(name, "a decoded value cannot be re-encoded (%s)" % (c.errname(e) or brief(e)), kind="canonical", st=s2)
        for bv, s2 in o2:
            q = seqof(I, s2, bv)
            n = seq_len(q)
            inside = s2.decide(c_le(n, seq_len(inp)))
            pref = I.seq_slice(s2, inp, ZERO, n)
            r = seq_align(I, s2, q, pref) if inside is True else False
            c.req(name, r, "re-encoding gives %s for the accepted input %s%s" % (brief(q), brief(pref), "" if inside else " (longer than the input)"),
                  kind="canonical", dep=[q], st=s2)
            rest = sub(seq_len(inp), n)
            for okp, tail, s3 in probe(c, I, s2, pr, rest):
                r = seq_align(I, s3, tail, I.seq_slice(s3, inp, n, rest)) if okp else False
                c.req(name + ": position", r, "after decoding the parser is not just behind the decoded bytes", kind="canonical", st=s3)


def c04_tasks(p, tier):
    return [(t_canonical, (t,)) for t in rt_types(p) if t != "bool"]


# ================================================================================ C05 writers
def t_writer(c, ty):
    I = c.interp()
    k = c.gkey("g_ser", ty)
    for d, v, st in valid_values(c, I, ty):
        writer_obs(c, I, k, short(ty), v, st)
    # and for arbitrary field contents (public fields), where the result may be an error
    I = c.interp()
    args = c.symargs(I, k)
    n0 = 0
    outs = [(o, s, s.ev) for o, s in c.run(I, k, args)]
    writer_outs(c, I, short(ty) + " (any contents)", outs, valid=False)


def writer_obs(c, I, k, label, v, st, valid=True):
    writer_outs(c, I, label, ser(c, I, k, v, st), valid)


def writer_outs(c, I, label, outs, valid):
    name = "serialize of %s" % label
    for o, s, ev in outs:
        if not isinstance(o, AdtV):
            c.und(name, "result shape")
            continue
        isok = c.p.vname(o.ty, o.v) == "Ok"
        werr = any(e[0] == "write_err" for e in ev)
        if werr:
            c.req(name + ": a failed write is reported", not isok, "a write error is swallowed: the call returns Ok", kind="io-error-propagation", st=s)
            i = [j for j, e in enumerate(ev) if e[0] == "write_err"][0]
            c.req(name + ": stops after a failed write", len(ev) == i + 1, "more bytes are written after a failed write", kind="io-error-propagation", st=s)
            continue
        if isok:
            q = written(I, s, ev)
            if q is None:
                c.bad(name + ": no byte is dropped", "a short write is treated as complete", kind="complete-write", st=s)
                continue
            c.ok(name + ": no byte is dropped", kind="complete-write")
            if valid:
                c.req(name + ": reported length", veq(I, s, o.f[0], seq_len(q)), "returns %s but wrote %s bytes" % (brief(o.f[0]), brief(seq_len(q))),
                      kind="byte-count", dep=[o.f[0]], st=s)
        elif valid and not any(e[0] == "write_none" for e in ev):
            c.bad(name + ": valid values encode", "returns %s without a write error" % brief(o.f[0]), kind="io-error-propagation", st=s)


def t_writer_vec(c, ty):
    """serialize() collects exactly the bytes T::serialize writes"""
    I = c.interp()
    for d, v, st in valid_values(c, I, ty):
        name = "serialize::<%s> returns the written bytes" % short(ty)
        want = None
        for o, s, ev in ser(c, I, c.gkey("g_ser", ty), v, st):
            if not any(e[0] == "write_err" for e in ev) and isinstance(o, AdtV) and c.p.vname(o.ty, o.v) == "Ok":
                want = written(I, s, ev)
                oks, errs = vec_of(c, I, ty, v, s)
                for bv, s2 in oks:
                    if want is not None:
                        c.req(name, seq_align(I, s2, seqof(I, s2, bv), want), "returns %s, writes %s" % (brief(bv), brief(want)), kind="byte-count", st=s2)


def t_writer_root(c, root):
    I = c.interp()
    k = c.key(root)
    outs = [(o, s, s.ev) for o, s in c.run(I, k, c.symargs(I, k))]
    writer_outs(c, I, root, outs, True)


def c05_tasks(p, tier):
    ts = sorted(t for (g, t) in p.gkey if g == "g_ser")
    return [(t_writer, (t,)) for t in ts] + [(t_writer_vec, (t,)) for t in ts] + [(t_writer_root, (r,)) for r in ("ser_cert_format", "ser_signed_cert")]


# ================================================================================ C06 bounded
def t_bounded_new(c, ty):
    hb, mx, text, root = BOUNDED[ty]
    I = c.interp()
    k = c.key(root)
    arg = I.mk_sym(("arg", "v"), c.argtys(k)[0])
    oks, errs = c.split(c.run(I, k, [arg]))
    n = seq_len(arg.seq)
    nm = short(ty)
    if not oks:
        c.bad("%s::new accepts values" % nm, "never succeeds", kind="bounds", some=True)
    for v, s in oks:
        c.req("%s::new refuses more than %d bytes" % (nm, mx), s.decide(c_le(n, K(mx))), "accepts a value whose length is only known to be in %s" % (s.rng(n),), kind="bounds", st=s)
        flds = dict(zip([f for f, _ in c.p.fields(v.ty)], v.f))
        for f, x in flds.items():
            if isinstance(x, VecV):
                c.req("%s::new keeps the data" % nm, seq_align(I, s, x.seq, arg.seq), "stores %s" % brief(x), kind="bounds", dep=[x], st=s)
            else:
                y = x
                while isinstance(y, AdtV) and len(y.f) == 1:
                    y = y.f[0]
                c.req("%s::new records the length" % nm, veq(I, s, y, n), "stores length %s" % brief(x), kind="bounds", dep=[y], st=s)
    for e, s in errs:
        c.req("%s::new accepts up to %d bytes" % (nm, mx), s.decide(c_lt(K(mx), n)), "refuses a value of length in %s" % (s.rng(n),), kind="bounds", st=s)


def t_bounded_de(c, ty):
    hb, mx, text, root = BOUNDED[ty]
    I = c.interp()
    inp = SeqV([("s", ("arg", "input"), ZERO, symlen(("arg", "input"), 0, (1 << 62)))])
    pr, st = c.parser(I, State(), inp)
    oks, errs = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
    nm = short(ty)
    for v, s in oks:
        data = [x for x in v.f if isinstance(x, VecV)]
        ln = [x for x in v.f if not isinstance(x, VecV)]
        if len(data) != 1:
            raise Undecided("shape of " + ty)
        q = data[0].seq
        c.req("decoded %s holds at most %d bytes" % (nm, mx), s.decide(c_le(seq_len(q), K(mx))), "decodes a value of length in %s" % (s.rng(seq_len(q)),), kind="bounds", st=s)
        hdr = I.bytes_to_int(s, I.seq_slice(s, inp, ZERO, K(hb)))
        c.req("decoded %s has the announced length" % nm, s.decide(c_eq(seq_len(q), hdr)), "length %s, header %s" % (brief(seq_len(q)), brief(hdr)), kind="bounds", dep=[q], st=s)
        c.req("decoded %s is the bytes behind the header" % nm, seq_align(I, s, q, I.seq_slice(s, inp, K(hb), hdr)), "takes %s" % brief(q), kind="bounds", dep=[q], st=s)
        for x in ln:
            y = x
            while isinstance(y, AdtV) and len(y.f) == 1:
                y = y.f[0]
            c.req("decoded %s records the length" % nm, veq(I, s, y, seq_len(q)), "length field %s" % brief(y), kind="bounds", dep=[y], st=s)
        if text:
            c.req("decoded %s is valid UTF-8" % nm, True if MD.is_utf8(I, s, q) is True or s.decide(("utf8", q)) is True else None,
                  "decodes bytes not checked to be UTF-8", kind="bounds", st=s)
    # acceptance: every announced length up to the limit, with enough input
    I = c.interp()
    data = SeqV([("s", ("arg", "data"), ZERO, symlen(("arg", "data"), 0, (1 << 62)))])
    rest = SeqV([("s", ("arg", "rest"), ZERO, symlen(("arg", "rest"), 0, (1 << 62)))])
    n = seq_len(data)
    st = State()
    given(st, c_le(n, K(mx)))
    if text:
        given(st, ("utf8", data))
    pr, st = c.parser(I, st, mkseq(lenseg(I, st, n, hb) + list(data.s) + list(rest.s)))
    o2, e2 = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
    for e, s in e2:
        c.bad("%s accepts every length up to %d" % (nm, mx), "a complete value of length in %s is refused with %s" % (s.rng(n), c.errname(e) or brief(e)), kind="bounds", st=s)
    if o2 and not e2:
        c.ok("%s accepts every length up to %d" % (nm, mx), kind="bounds")
    # an announced length beyond the input is refused
    av = A(Atom("sym", (("arg", "avail"),), 64))
    st = State()
    given(st, c_le(n, K(mx)))
    given(st, c_lt(av, n))
    pr, st = c.parser(I, st, mkseq(lenseg(I, st, n, hb) + [("s", ("arg", "data"), ZERO, av)]))
    o2, e2 = c.split(c.run(I, c.gkey("g_de", ty), [pr], st))
    for v, s in o2:
        c.bad("%s refuses truncated data" % nm, "accepts fewer bytes than announced", kind="bounds", st=s)
    if not o2:
        c.ok("%s refuses truncated data" % nm, kind="bounds")


def t_u24(c, root):
    I = c.interp()
    k = c.key(root)
    a = I.mk_sym(("arg", "v"), c.argtys(k)[0])
    oks, errs = c.split(c.run(I, k, [a]))
    mx = K((1 << 24) - 1)
    for v, s in oks:
        c.req("%s refuses values over 2^24-1" % root, s.decide(c_le(a, mx)), "accepts %s" % (s.rng(a),), kind="bounds", st=s)
        c.req("%s keeps the value" % root, veq(I, s, v.f[0], a), "stores %s" % brief(v), kind="bounds", dep=[v], st=s)
    for e, s in errs:
        c.req("%s accepts values up to 2^24-1" % root, s.decide(c_lt(mx, a)), "refuses %s" % (s.rng(a),), kind="bounds", st=s)


def t_u24_de(c):
    I = c.interp()
    inp = SeqV([("s", ("arg", "input"), ZERO, symlen(("arg", "input"), 0, (1 << 62)))])
    pr, st = c.parser(I, State(), inp)
    oks, errs = c.split(c.run(I, c.gkey("g_de", TY + "U24"), [pr], st))
    for v, s in oks:
        c.req("decoded U24 fits 24 bits", s.decide(c_le(v.f[0], K((1 << 24) - 1))), "decodes %s" % brief(v), kind="bounds", st=s)
    for e, s in errs:
        c.req("U24 decodes from any 3 bytes", s.decide(c_lt(seq_len(inp), K(3))), "refuses 3 available bytes", kind="bounds", st=s)


def t_conv(c, root, what):
    """lossless conversions out of the bounded types"""
    I = c.interp()
    k = c.key(root)
    args = c.symargs(I, k)
    for v, s in c.run(I, k, args):
        a = args[0]
        if isinstance(v, (SeqV, VecV)):
            src = [x for x in (a.f if isinstance(a, AdtV) else [a]) if isinstance(x, (VecV, SeqV))]
            r = veq(I, s, v, src[0]) if len(src) == 1 else None
        elif isinstance(v, AdtV) and isinstance(a, SeqV):
            r = veq(I, s, v.f[0], a)
        else:
            r = veq(I, s, v, a.f[0] if isinstance(a, AdtV) else a)
        c.req("%s is lossless" % root, r, "%s becomes %s" % (brief(a), brief(v)), kind="bounds", dep=[v], st=s)


def t_eq(c, root):
    """cross-type equality means equal contents"""
    I = c.interp()
    k = c.key(root)
    args = c.symargs(I, k)

    def content(st, x):
        while isinstance(x, RefV):
            x = I.deref(st, x)
        if isinstance(x, AdtV):
            ys = [y for y in x.f if isinstance(y, (VecV, SeqV))]
            x = ys[0] if ys else x.f[0]
        return x.seq if isinstance(x, VecV) else x
    for v, s in c.run(I, k, args):
        a, b = content(s, args[0]), content(s, args[1])
        if isinstance(a, L):
            want = c_eq(a, b)
            t, f = I.fork(s, want)
            r = True
            if t is not None and t.decide(v.c) is not True:
                r = None
            if f is not None and f.decide(v.c) is not False:
                r = None
        else:
            cd = MD.seqeq(I, s, a, b)
            r = True if (v.c == cd) else None
            if r is None:
                t = s.copy()
                if t.assume(cd) and t.decide(v.c) is not True:
                    r = False
                f = s.copy()
                if r is None and f.assume(c_not(cd)) and f.decide(v.c) is False and t.decide(v.c) is True:
                    r = True
        c.req("%s compares the contents" % root, r, "equality is %s" % brief(v), kind="bounds", dep=[v], st=s)


def c06_tasks(p, tier):
    out = [(t_bounded_new, (t,)) for t in BOUNDED] + [(t_bounded_de, (t,)) for t in BOUNDED]
    out += [(t_u24, (r,)) for r in ("u24_new", "u24_try_u32", "u24_try_usize")] + [(t_u24_de, ())]
    out += [(t_conv, (r, "")) for r in ("u24_to_u32", "u24_to_usize", "u256_from", "u256_into", "b0_32_into", "str0_255_into")]
    out += [(t_conv, (r, "")) for r in p.rootkey if r.endswith("_into2")]
    out += [(t_eq, (r,)) for r in sorted(p.rootkey) if r.startswith("eq_")]
    return out
