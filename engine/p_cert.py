"""Certificates: what verification checks, what signing covers."""
from .core import *
from .spec import *
from .p_codec import written
from .p_msg import is_epoch

U32 = (1 << 32) - 1


def fld(c, v, name):
    for (n, _), x in zip(c.p.fields(v.ty), v.f):
        if n == name:
            return x
    raise Undecided("field " + name)


def cert_bytes(I, st, version, frm, until, pk):
    return mkseq(list(I.int_to_bytes(st, version, 16).s) + list(I.int_to_bytes(st, frm, 32).s) + list(I.int_to_bytes(st, until, 32).s) + list(seqof(I, st, pk).s))


def setup(c, I, root="cert_verify"):
    k = c.key(root)
    args = c.symargs(I, k)
    st = State()
    text = I.slice_of(st, args[0])
    pk = I.deref(st, args[1])
    msg = I.deref(st, args[2])
    return k, args, text, pk, msg


def secs_of(nowterm, epoch):
    return A(Atom("sym", (("fld", ("dur", nowterm, epoch), "secs"),), 64))


def t_verify(c):
    I = c.interp()
    k, args, text, pk, msg = setup(c, I)
    ver, frm, until, sig = (fld(c, msg, n) for n in ("version", "valid_from", "not_valid_after", "signature"))
    oks, errs = c.split(c.run(I, k, args))
    if not oks:
        c.bad("a certificate can verify", "never succeeds", kind="certificate", some=True)
    tmpl = None
    for v, s in oks:
        nb = [(t, b) for t, b in s.truth.items() if isinstance(t, tuple) and t and t[0] == "notbefore" and b is True and is_epoch(t[2])
              and isinstance(t[1], tuple) and t[1][0] == "now" and ("now", t[1][1]) in s.ev]
        if not nb:
            c.bad("verify consults the current time", "accepts without reading the clock", kind="certificate", st=s)
            continue
        sec = None
        good = False
        for t, _ in nb:
            sec = secs_of(t[1], t[2])
            if s.decide(c_le(frm, sec)) is True and s.decide(c_lt(sec, until)) is True:
                good = True
                tmpl = t
        c.req("verify refuses a certificate that is not valid yet", any(s.decide(c_le(frm, secs_of(t[1], t[2]))) is True for t, _ in nb),
              "accepted without the current time being at or after valid_from", kind="certificate", st=s)
        c.req("verify refuses an expired certificate", any(s.decide(c_lt(secs_of(t[1], t[2]), until)) is True for t, _ in nb),
              "accepted without the current time being before not_valid_after", kind="certificate", st=s)
        vs = [e for e in s.ev if e[0] == "verified"]
        if not vs:
            c.bad("verify checks the signature", "accepts without a successful signature check", kind="certificate", st=s)
            continue
        okm = okk = oks_ = False
        want = cert_bytes(I, s, ver, frm, until, pk)
        for e in vs:
            m = seq_align(I, s, e[2], want) is True
            kk = e[1] == ("edpk", SeqV([("s", ("unb58", text), ZERO, seq_len_of(s, text))])) or key_ok(s, e[1], text)
            ss = sig_same(I, s, e[3], sig)
            okm, okk, oks_ = okm or m, okk or kk, oks_ or ss
            if m and kk and ss:
                okm = okk = oks_ = True
                break
        c.req("the signature is checked over version, validity and static key", okm, "checked over %s" % brief(vs[0][2], 300), kind="certificate", dep=[vs[0][2]], st=s)
        c.req("the signature is checked with the given authority key", okk, "checked with %s" % brief(vs[0][1]), kind="certificate", dep=[vs[0][1]], st=s)
        c.req("the signature checked is the message's", oks_, "checked %s" % brief(vs[0][3]), kind="certificate", dep=[vs[0][3]], st=s)
    # completeness: a certificate with all of that is accepted
    if tmpl is not None:
        q = unb58_seq(text)
        I2 = I
        st = State()
        sec = secs_of(tmpl[1], tmpl[2])
        want = cert_bytes(I2, st, ver, frm, until, pk)
        for cd in (("b58ok", text), c_eq(seq_len(q), K(32)), ("edpkok", q), tmpl, c_le(sec, K(U32)), c_le(frm, sec), c_lt(sec, until)):
            if not st.assume(cd):
                raise Undecided("assumptions")
        # the operand terms come from the accepted run, so that the truth of exactly that check is assumed
        for v, s in oks:
            for t, b in s.truth.items():
                if isinstance(t, tuple) and t and t[0] == "edverify" and b is True:
                    st.assume(t)
        o2, e2 = c.split(c.run(I2, k, args, st))
        for e, s in e2:
            c.bad("a valid, current, correctly signed certificate verifies", "refused with %s" % brief(e), kind="certificate", st=s)
        c.req("a valid, current, correctly signed certificate verifies", bool(o2), "never accepted", kind="certificate", some=True)


def unb58_seq(text):
    t = ("unb58", text)
    return SeqV([("s", t, ZERO, symlen(t, 0, 1 << 62))])


def seq_len_of(s, text):
    return symlen(("unb58", text), 0, 1 << 62)


def key_ok(s, pkterm, text):
    if not (isinstance(pkterm, tuple) and pkterm and pkterm[0] == "edpk"):
        return False
    q = pkterm[1]
    return isinstance(q, SeqV) and len(q.s) == 1 and q.s[0][0] == "s" and q.s[0][1] == ("unb58", text) and q.s[0][2] == ZERO and s.cval(seq_len(q)) == 32


def sig_same(I, s, got, want):
    if got == want:
        return True
    if isinstance(want, Sym) and got == want.t:
        return True
    try:
        return veq(I, s, got, want) is True
    except Exception:
        return False


def t_key_text(c):
    """only a base58 text of 32 bytes naming a curve point becomes an authority key"""
    I = c.interp()
    k = c.key("cert_format_new")
    args = c.symargs(I, k)
    text = I.slice_of(State(), args[0])
    q = unb58_seq(text)
    oks, errs = c.split(c.run(I, k, args))
    for v, s in oks:
        c.req("authority key text is base58", s.decide(("b58ok", text)), "accepted unchecked", kind="certificate", st=s)
        c.req("authority key is 32 bytes", s.decide(c_eq(seq_len(q), K(32))), "accepted unchecked", kind="certificate", st=s)
        ek = [t for t, b in s.truth.items() if isinstance(t, tuple) and t and t[0] == "edpkok" and b is True]
        c.req("authority key is a valid point", bool(ek) and any(key_ok(s, ("edpk", t[1]), text) for t in ek), "accepted unchecked", kind="certificate", st=s)
    for e, s in errs:
        bad = s.decide(("b58ok", text)) is False or s.decide(c_eq(seq_len(q), K(32))) is False or any(
            isinstance(t, tuple) and t and t[0] == "edpkok" and b is False for t, b in s.truth.items())
        c.req("valid authority keys are accepted", bad, "refused with %s" % brief(e), kind="certificate", st=s)


def c15_tasks(p, tier):
    return [(t_verify, ()), (t_key_text, ())]


# ------------------------------------------------------------------------------ issuing
def t_cert_new(c):
    I = c.interp()
    k = c.key("cert_new")
    args = dict(zip(c.argnames(k), c.symargs(I, k)))
    oks, errs = c.split(c.run(I, k, list(args.values())))
    f, u = args["valid_from"], args["not_valid_after"]
    for v, s in oks:
        c.req("a certificate's validity starts before it ends", s.decide(c_lt(f, u)), "an empty validity interval is accepted", kind="issue", st=s)
        for n, a in args.items():
            try:
                x = fld(c, v, n)
            except Undecided:
                continue
            c.req("certificate keeps %s" % n, veq(I, s, x, a), "stores %s" % brief(x), kind="issue", dep=[x], st=s)
    for e, s in errs:
        c.req("every non-empty validity interval is accepted", s.decide(c_le(u, f)), "refused with %s" % c.errname(e), kind="issue", st=s)
        c.req("an empty validity interval is refused as RequirementError", c.errname(e) == "RequirementError", "refused with %s" % c.errname(e), kind="issue", st=s)


def t_sign(c):
    I = c.interp()
    k = c.key("cert_msg_sign")
    args = c.symargs(I, k)
    st = State()
    kp, cert = I.deref(st, args[0]), I.deref(st, args[1])
    names = ("version", "valid_from", "not_valid_after")
    want = cert_bytes(I, st, *[fld(c, cert, n) for n in names], I.deref(st, fld(c, cert, "public_key")))
    oks, errs = c.split(c.run(I, k, args))
    for e, s in errs:
        c.bad("signing succeeds", "fails with %s" % brief(e), kind="issue", st=s)
    for v, s in oks:
        for n in names:
            c.req("signed message carries the certificate's %s" % n, veq(I, s, fld(c, v, n), fld(c, cert, n)), "carries %s" % brief(fld(c, v, n)), kind="issue", dep=[fld(c, v, n)], st=s)
        sg = [e for e in s.ev if e[0] == "signed"]
        r = len(sg) == 1 and seq_align(I, s, sg[0][2], want) is True
        c.req("the signature covers version, validity and static key", r, "signs %s" % (brief(sg[0][2], 300) if sg else "nothing"), kind="issue", dep=[sg[0][2]] if sg else (), st=s)
        if sg:
            sig = fld(c, v, "signature")
            c.req("the message carries that signature", isinstance(sig, Sym) and sig.t[:1] == ("edsig",) and sig.t[1:] == sg[0][1:3], "carries %s" % brief(sig), kind="issue", dep=[sig], st=s)
            kt = kp.t if isinstance(kp, Sym) else kp
            c.req("signed with the authority key pair", sg[0][1] == kt or sg[0][1] == kp, "signed with %s" % brief(sg[0][1]), kind="issue", st=s)


def t_msg_new(c):
    I = c.interp()
    k = c.key("cert_msg_new")
    args = c.symargs(I, k)
    st = State()
    cert = I.deref(st, args[0])
    for v, s in c.run(I, k, args):
        for n in ("version", "valid_from", "not_valid_after"):
            c.req("SignatureNoiseMessage::new carries the certificate's %s" % n, veq(I, s, fld(c, v, n), fld(c, cert, n)), "carries %s" % brief(fld(c, v, n)), kind="issue", dep=[fld(c, v, n)], st=s)
        c.req("SignatureNoiseMessage::new carries the signature", veq(I, s, fld(c, v, "signature"), args[1]), "carries %s" % brief(fld(c, v, "signature")), kind="issue", st=s)


def ser_outs(c, I, root, v, st):
    st = st.copy()
    r = c.ref_to(I, st, v, "c")
    k = c.key(root)
    n = len(st.ev)
    return [(o, s, s.ev[n:]) for o, s in c.run(I, k, [r, I.mk_sym(("arg", "w"), c.argtys(k)[1])], st)]


def t_same_bytes(c):
    """the bytes a certificate is signed over are the bytes a receiver verifies"""
    I = c.interp()
    st = State()
    pkr = I.mk_sym(("arg", "pk"), c.argtys(c.key("cert_new"))[3])
    ver, frm, until = [I.mk_sym(("arg", n), t) for n, t in zip(("version", "valid_from", "not_valid_after"), c.argtys(c.key("cert_new"))[:3])]
    want = cert_bytes(I, st, ver, frm, until, I.deref(st, pkr))
    oks, _ = c.split(c.run(I, c.key("cert_new"), [ver, frm, until, pkr], st))
    for cert, s in oks:
        for o, s2, ev in ser_outs(c, I, "ser_signed_cert", cert, s):
            if any(e[0] in ("write_err", "write_none") for e in ev):
                continue
            got = written(I, s2, ev)
            c.req("signed bytes are version, validity, static key", got is not None and seq_align(I, s2, got, want), "are %s" % brief(got, 300), kind="issue", dep=[got], st=s2)
        s3 = s.copy()
        cr = c.ref_to(I, s3, cert, "cert")
        sigty = c.argtys(c.key("cert_msg_new"))[1]
        for msg, s4 in c.run(I, c.key("cert_msg_new"), [cr, I.mk_sym(("arg", "signature"), sigty)], s3):
            s5 = s4.copy()
            mr = c.ref_to(I, s5, msg, "msg")
            k = c.key("cert_format_new")
            txt = I.mk_sym(("arg", "authority"), c.argtys(k)[0])
            fo, fe = c.split(c.run(I, k, [txt, pkr, mr], s5))
            for f, s6 in fo:
                for o, s7, ev in ser_outs(c, I, "ser_cert_format", f, s6):
                    if any(e[0] in ("write_err", "write_none") for e in ev):
                        continue
                    got = written(I, s7, ev)
                    c.req("verified bytes are the signed bytes", got is not None and seq_align(I, s7, got, want), "are %s" % brief(got, 300), kind="issue", dep=[got], st=s7)


def c16_tasks(p, tier):
    return [(t_cert_new, ()), (t_sign, ()), (t_msg_new, ()), (t_same_bytes, ())]
