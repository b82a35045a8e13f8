"""Equality and cloning of values: every part counts."""
import itertools

from .core import *
from .spec import *
from .p_codec import flag_val, root_desc, short, valid_arg, valid_values
from .p_msg import inp_seq

PLAIN = ("u32", "std::string::String", "std::vec::Vec<u8>", "[u8; 32]")


# ------------------------------------------------------------------------------ shapes
def expand(c, I, v, path=()):
    """v's enum-typed parts: [(path, type, field path...)]"""
    out = []
    if isinstance(v, Sym):
        t = c.p.types[v.ty] if v.ty is not None else {}
        if t.get("k") == "adt" and c.p.is_enum(v.ty):
            out.append((path, v.ty, v.t))
    elif isinstance(v, AdtV):
        for i, f in enumerate(v.f):
            out += expand(c, I, f, path + (i,))
    return out


def put(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = put(f[path[0]], path[1:], x)
    return AdtV(v.ty, v.v, f)


def get(v, path):
    for i in path:
        v = v.f[i]
    return v


def variant(c, I, ty, term, j):
    return AdtV(ty, j, [I.mk_sym(("fld", term, (j, n)), f) for n, f in c.p.fields(ty, j)])


def shapes(c, I, ty, tag="x"):
    """[(what, value)]: the value with its enum parts at their first variant, and then each enum part at each
    of its other variants"""
    v = I.mk_sym(("arg", tag), ty)
    for _ in range(6):
        es = expand(c, I, v)
        if not es:
            break
        for path, ety, term in es:
            v = put(v, path, variant(c, I, ety, term, 0))
    out = [("", v)]

    def enums(w, path=()):
        if isinstance(w, AdtV):
            if c.p.is_enum(w.ty):
                yield path, w
            for i, f in enumerate(w.f):
                yield from enums(f, path + (i,))
    for path, w in list(enums(v)):
        for j in range(1, len(c.p.types[w.ty]["vs"])):
            x = variant(c, I, w.ty, ("arg", tag, path, j), j)
            for _ in range(6):
                es = expand(c, I, x)
                if not es:
                    break
                for p2, ety, term in es:
                    x = put(x, p2, variant(c, I, ety, term, 0))
            out.append((c.p.vname(w.ty, j), put(v, path, x)))
    return out


def leaves(c, v, path=(), name=""):
    """[(path, field name, value)] of the parts that carry data"""
    if isinstance(v, AdtV):
        fs = c.p.fields(v.ty, v.v) if c.p.is_enum(v.ty) else c.p.fields(v.ty)
        out = []
        for i, ((n, _), f) in enumerate(zip(fs, v.f)):
            out += leaves(c, f, path + (i,), "%s.%s" % (name, n[-1] if isinstance(n, tuple) else n) if name else str(n[-1] if isinstance(n, tuple) else n))
        return out
    return [(path, name or "value", v)]


def is_float(v):
    return isinstance(v, Sym) and isinstance(v.t, tuple) and v.t and v.t[0] == "f"


def plain(c, v):
    """the value with its floating-point parts fixed (a NaN is not equal to itself)"""
    for path, n, x in leaves(c, v):
        if is_float(x):
            v = put(v, path, Sym(("f", K(0x3f800000)), x.ty))
    return v


def flips(x, w, bits):
    """[(how, a, b)]: the number with one bit clear and set"""
    a = x.t[0][0]
    for i in bits:
        yield "bit %d" % i, from_bits([0 if k == i else (a, k) for k in range(w)]), from_bits([1 if k == i else (a, k) for k in range(w)])


def others(c, I, x, limit=260):
    """[(how, a, b, state)]: two contents of one part that differ"""
    out = []
    if isinstance(x, L):
        t = x.t[0][0] if x.t else None
        if t is None:
            return out
        return [(how, p, q, State()) for how, p, q in flips(x, t.w, range(t.w))]
    if isinstance(x, BoolV):
        return [("set", BoolV(True), BoolV(False), State()), ("clear", BoolV(False), BoolV(True), State())]
    if is_float(x):
        return [("different", Sym(("f", K(0x3f800000)), x.ty), Sym(("f", K(0x40000000)), x.ty), State()),
                ("different sign", Sym(("f", K(0x3f800000)), x.ty), Sym(("f", K(0xbf800000)), x.ty), State())]
    if isinstance(x, (VecV, SeqV)):
        q = x.seq if isinstance(x, VecV) else x
        wrap = (lambda s: VecV(s)) if isinstance(x, VecV) else (lambda s: s)
        n = State().cval(seq_len(q))
        if n is None:
            o = inp_seq("other")
            st = State()
            if st.assume(c_lt(seq_len(q), seq_len(o))):
                out.append(("shorter", x, wrap(o), st))
            st = State()
            if st.assume(c_lt(seq_len(o), seq_len(q))):
                out.append(("longer", x, wrap(o), st))
        for m in ((1, 3, 40, 200, 260) if n is None else (n,)):
            if not m or n is None and m > limit:
                continue
            es = [A(Atom("sym", (("arg", "e", i),), 8)) for i in range(m)]
            for i in sorted({0, m // 2, m - 1}):
                for how, p, q in flips(es[i], 8, (0, 7)):
                    out.append(("with %s of byte %d of %d different" % (how, i, m), wrap(SeqV([("e", p if j == i else e) for j, e in enumerate(es)])),
                                wrap(SeqV([("e", q if j == i else e) for j, e in enumerate(es)])), State()))
            if m > 1:
                i, j = 0, m - 1
                for how, p, q in flips(es[i], 8, (0,)):
                    a, b = list(es), list(es)
                    a[i], a[j], b[i], b[j] = p, q, q, p
                    out.append(("with two bytes of %d exchanged" % m, wrap(SeqV([("e", e) for e in a])), wrap(SeqV([("e", e) for e in b])), State()))
        return out
    return out


def eq_run(c, I, key, a, b, st):
    st = st.copy()
    ra, rb = c.ref_to(I, st, a, "a"), c.ref_to(I, st, b, "b")
    return c.run(I, key, [ra, rb], st)


def ask(c, I, name, key, a, b, st, want, detail):
    for v, s in eq_run(c, I, key, a, b, st):
        d = s.decide(v.c) if isinstance(v, BoolV) else None
        if d is None and isinstance(v, BoolV):
            # decided in neither way: a state in which the answer is the wrong one
            t = s.copy()
            if not t.assume(c_not(v.c) if want else v.c):
                d = want
        c.req(name, d is want if d is not None else None, detail, kind="equality", dep=[v], st=s)


MSG = "stratumv2::codec::Message"


def ctors_of(ty):
    if ty in MSGS:
        return [MSGS[ty][0]]
    if ty == UNION:
        return list(UNION_CTORS)
    if ty in BOUNDED:
        return [BOUNDED[ty][3]]
    if ty == TY + "U24":
        return ["u24_new"]
    if ty == MSG:
        return ["message_new"]
    return []


def fixfloat(v):
    return Sym(("f", K(0x3f800000)), v.ty) if is_float(v) else v


def differing(c, I, name, x, ty, limit):
    """[(how, a, b, state)]: two valid arguments of a constructor that differ"""
    tn = c.p.tname(ty)
    if tn in FLAGS:
        out = []
        for i in range(32):
            if (FLAGS[tn] >> i) & 1:
                b = x.f[0]
                on, off = State(), State()
                q = flag_val(I, ty, ("arg", name + "2"))
                bits = I.bits_of(off, b, 32)
                y = AdtV(ty, 0, [from_bits([(1 if bits[k] == 0 else 0) if k == i else bits[k] for k in range(32)])])
                z = AdtV(ty, 0, [from_bits([0 if k == i else bits[k] for k in range(32)])])
                w = AdtV(ty, 0, [from_bits([1 if k == i else bits[k] for k in range(32)])])
                out.append(("flag bit %d" % i, z, w, State()))
        return out
    if isinstance(x, AdtV) and c.p.is_enum(ty):
        return [("%s / %s" % (c.p.vname(ty, x.v), c.p.vname(ty, j)), x, AdtV(ty, j, []), State())
                for j in range(len(c.p.types[ty]["vs"])) if j != x.v]
    if isinstance(x, AdtV):
        out = []
        for path, n, l in leaves(c, x):
            for how, p, q, st in others(c, I, l, limit):
                out.append((how, put(x, path, p), put(x, path, q), st))
        return out
    return others(c, I, x, limit)


def t_eq_ctor(c, ty, root):
    """values of a type with a validating constructor: every constructor argument counts"""
    I = c.interp()
    key = c.gkey("g_eq", "%s == %s" % (ty, ty))
    k = c.key(root)
    names, tys = c.argnames(k), c.argtys(k)
    n = short(ty) if len(ctors_of(ty)) == 1 else "%s (%s)" % (short(ty), root)

    def make(args, st):
        outs = c.run(I, k, args, st.copy())
        return [(v, s) for v, s in outs if not fallible] if not fallible else c.split(outs)[0]
    rt = c.p.types[c.p.fns[k]["locals"][0]]
    fallible = c.p.is_enum(c.p.fns[k]["locals"][0]) and ty != MSG and rt["vs"][0]["n"] in ("Ok", "Err")
    combos = list(itertools.product(*[valid_arg(c, I, a, t) for a, t in zip(names, tys)]))
    for nc, combo in enumerate(combos):
        combo0 = nc == 0
        combo = [fixfloat(x) for x in combo]
        d = root_desc(dict(zip(names, combo)))
        tag = n + (" [" + d + "]" if d else "")
        for v, s in make(combo, State()):
            ask(c, I, "%s equals itself" % tag, key, v, v, s, True, "a value can compare different from a copy of itself")
        for j, (a, t) in enumerate(zip(names, tys)):
            for how, p, q, st in differing(c, I, a, combo[j], t, 260 if combo0 else 3):
                p, q = fixfloat(p), fixfloat(q)
                for v, s in make(combo[:j] + [p] + combo[j + 1:], st):
                    for w, s2 in make(combo[:j] + [q] + combo[j + 1:], s):
                        if veq(I, s2, v, w) is True:
                            continue  # the constructor itself does not keep them apart
                        ask(c, I, "%s: equality sees %s" % (tag, a), key, v, w, s2, False, "two values that differ in %s (%s) compare equal" % (a, how))


def t_eq_ctors(c, ty):
    """values made by different constructors differ"""
    I = c.interp()
    key = c.gkey("g_eq", "%s == %s" % (ty, ty))
    vs = valid_values(c, I, ty)
    for i, (da, a, sa) in enumerate(vs):
        for j, (db, b, sb) in enumerate(vs):
            if i != j and isinstance(a, AdtV) and isinstance(b, AdtV) and a.v != b.v:
                ask(c, I, "%s: equality tells %s from %s" % (short(ty), da, db), key, plain(c, a), plain(c, b), State(), False,
                    "values of different variants compare equal")


def t_eq_same(c, ty):
    I = c.interp()
    key = c.gkey("g_eq", "%s == %s" % (ty, ty))
    n = short(ty)
    t = c.p.pointee(c.argtys(key)[0])
    if ty in FLAGS:
        v = flag_val(I, t, ("arg", "x"))
        ask(c, I, "%s equals itself" % n, key, v, v, State(), True, "a value can compare different from a copy of itself")
        for how, p, q, st in differing(c, I, "x", v, t, 260):
            ask(c, I, "%s: equality sees %s" % (n, how), key, p, q, st, False, "two values that differ in %s compare equal" % how)
        return
    sh = shapes(c, I, t)
    for what, v in sh:
        tag = n + (" [" + what + "]" if what else "")
        w = plain(c, v)
        ask(c, I, "%s equals itself" % tag, key, w, w, State(), True, "a value can compare different from a copy of itself")
        for path, f, x in leaves(c, w):
            for how, p, q, st in others(c, I, x):
                ask(c, I, "%s: equality sees %s" % (tag, f), key, put(w, path, p), put(w, path, q), st, False,
                    "two values that differ in %s (%s) compare equal" % (f, how))
    for i, (wa, a) in enumerate(sh):
        for j, (wb, b) in enumerate(sh):
            if i == j or i and j and not c.p.is_enum(t):
                continue
            ask(c, I, "%s: equality tells %s from %s" % (n, wa or "the first variant", wb or "the first variant"), key, plain(c, a), plain(c, b), State(), False,
                "values of different variants compare equal")


def t_eq_cross(c, ty, a, b):
    """equality between a value and its plain contents"""
    I = c.interp()
    key = c.gkey("g_eq", ty)
    ta, tb = (c.p.pointee(x) for x in c.argtys(key))
    n = "%s == %s" % (short(a), short(b))
    side = 0 if ctors_of(a) or a not in PLAIN else 1
    own, tp = ((a, tb), (b, ta))[side]
    town = (ta, tb)[side]
    y = I.mk_sym(("arg", "y"), tp)
    if not isinstance(y, (L, VecV, SeqV)):
        return

    def made(x, st):
        """the wire value with contents x"""
        cs = ctors_of(own)
        if not cs:
            v = I.mk_sym(("arg", "x"), town)
            ls = leaves(c, v)
            if len(ls) != 1:
                raise Undecided("shape of %s" % own)
            return [(put(v, ls[0][0], x), st)]
        k = c.key(cs[0])
        return c.split(c.run(I, k, [x], st.copy()))[0]

    def pair(v, x):
        return (x, v) if side else (v, x)
    for v, s in made(y, State()):
        p, q = pair(v, y)
        ask(c, I, "%s: the same contents are equal" % n, key, p, q, s, True, "equal contents can compare different")
    for how, p, q, st in others(c, I, y):
        for v, s in made(p, st):
            l, r = pair(v, q)
            ask(c, I, "%s: different contents differ" % n, key, l, r, s, False, "contents that differ (%s) compare equal" % how)


def t_clone(c, ty):
    I = c.interp()
    key = c.gkey("g_clone", ty)
    t = c.p.pointee(c.argtys(key)[0])
    n = short(ty)
    vs = valid_values(c, I, ty) if ctors_of(ty) or ty in FLAGS or ty in CODES else [(w, v, State()) for w, v in shapes(c, I, t)]
    for what, v, st in vs:
        tag = n + (" [" + what + "]" if what else "")
        st = st.copy()
        r = c.ref_to(I, st, v, "x")
        for w, s in c.run(I, key, [r], st):
            if isinstance(w, AdtV) and isinstance(v, AdtV) and w.ty == v.ty and w.v == v.v:
                for (path, f, x) in leaves(c, v):
                    y = get(w, path)
                    c.req("a clone of %s has the same %s" % (tag, f), veq(I, s, x, y), "the clone has %s" % brief(y), kind="clone", dep=[y], st=s)
            else:
                c.req("a clone of %s is the same value" % tag, veq(I, s, v, w), "the clone is %s" % brief(w), kind="clone", dep=[w], st=s)
            c.req("cloning %s leaves the original alone" % tag, veq(I, s, I.deref(s, r), v), "the original becomes %s" % brief(I.deref(s, r)), kind="clone", st=s)
    c.panic_obs(I, "cloning %s returns" % n)


def c10_tasks(p, tier):
    out = []
    for (g, t) in sorted(p.gkey):
        if g == "g_eq":
            a, b = t.split(" == ")
            if a == b and ctors_of(a):
                out += [(t_eq_ctor, (a, r)) for r in ctors_of(a)]
                if len(ctors_of(a)) > 1:
                    out.append((t_eq_ctors, (a,)))
            elif a == b:
                out.append((t_eq_same, (a,)))
            else:
                out.append((t_eq_cross, (t, a, b)))
        elif g == "g_clone":
            out.append((t_clone, (t,)))
    return out
