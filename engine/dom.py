"""Abstract domain: value-numbered terms, linear integer forms, bit-level forms, conditions,
segment-list sequences, and an abstract state with facts (intervals, disequalities, known bits,
linear inequalities, truth of opaque predicates).  No solver is used anywhere: every decision is
interval arithmetic over normal forms."""
from functools import lru_cache


# ----------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("op", "args", "w", "lo", "hi", "id", "__weakref__")
    table = {}
    count = 0

    def __new__(cls, op, args, w, lo=None, hi=None):
        key = (op, args, w)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.op, a.args, a.w = op, args, w
            a.lo = 0 if lo is None else lo
            a.hi = ((1 << w) - 1) if hi is None else hi
            Atom.count += 1
            a.id = Atom.count
            cls.table[key] = a
        return a

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


class L:
    """c + sum(coef*atom): an integer in exact arithmetic."""
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, L) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return show_L(self)

    @property
    def const(self):
        return self.c if not self.t else None


def K(n):
    return L(n)


ZERO = L(0)
ONE = L(1)


def mkL(c, d):
    return L(c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)))


def A(atom):
    if atom.op == "lin":
        return atom.args[0]
    return L(0, ((atom, 1),))


import os
FIXED = [int(os.environ["FIXLEN"]) if os.environ.get("FIXLEN") else None]   # when set, every variable-length input has (about) this length


SPREAD = {} if os.environ.get("FIXSPREAD") else None   # when set, each input has a length of its own


def spread(on):
    global SPREAD
    SPREAD = {} if on else None


def symlen(term, lo=0, hi=(1 << 63) - 1):
    """the length of a variable-length input"""
    if FIXED[0] is not None and isinstance(term, tuple) and term and term[0] in ("arg", "deref", "fld"):
        n = FIXED[0]
        if SPREAD is not None:
            n += SPREAD.setdefault(term, len(SPREAD))
        return K(min(max(n, lo), hi))
    return A(Atom("len", (term,), 64, lo, hi))



def add(x, y, k=1):
    if not y.t:
        return L(x.c + k * y.c, x.t) if y.c else x
    d = dict(x.t)
    for a, c in y.t:
        d[a] = d.get(a, 0) + k * c
    return mkL(x.c + k * y.c, d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 0:
        return ZERO
    return L(x.c * k, tuple((a, c * k) for a, c in x.t))


def neg(x):
    return scale(x, -1)


def single(x):
    """the atom if x is exactly one atom"""
    if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        return x.t[0][0]
    return None


# ------------------------------------------------------------------------------------ bits
# a bit is 0, 1 or (atom, i) or ("n", atom, i) for a negated bit or ("c", cond)
def to_bits(x, w):
    """bit list (LSB first) of a non-negative integer form known to fit w bits, or None"""
    if x.const is not None:
        v = x.c & ((1 << w) - 1)
        return [(v >> i) & 1 for i in range(w)]
    a = single(x)
    if a is None:
        b = disjoint_bits(x, w)
        if b is not None:
            return b
        a = Atom("lin", (x,), w)
        return [(a, i) for i in range(w)]
    if a.op == "bits":
        b = list(a.args[0])
    elif a.op == "b2i":
        c = a.args[0]
        if isinstance(c, tuple) and c[0] == "bit":
            b = [(c[1], c[2])]
        elif isinstance(c, tuple) and c[0] == "not" and c[1][0] == "bit":
            b = [("n", c[1][1], c[1][2])]
        else:
            b = [("c", c)]
    else:
        b = [(a, i) for i in range(a.w)]
    return (b + [0] * w)[:w]


def disjoint_bits(x, w):
    """bits of a sum of terms that occupy different bit positions, or None"""
    out = [0] * w
    parts = []
    if x.c:
        if x.c < 0:
            return None
        parts.append([(x.c >> i) & 1 for i in range(x.c.bit_length())])
    for a, k in x.t:
        if k <= 0 or k & (k - 1) or a.op in ("phi", "int"):
            return None
        s = k.bit_length() - 1
        b = to_bits(A(a), a.w)
        b = b[:max(a.hi.bit_length(), 0)] if a.hi is not None else b
        parts.append([0] * s + b)
    for b in parts:
        for i, y in enumerate(b):
            if y == 0 and not isinstance(y, tuple):
                continue
            if i >= w or out[i] != 0:
                return None
            out[i] = y
    return out


def join_bits(x, w):
    """a sum of terms at different bit positions, written as those bits"""
    if len(x.t) < 2 and not (x.t and x.c):
        return x
    if len(x.t) > 8 or not any(k >= 2 or (a.op == "bits" and a.args[0][0] == 0) for a, k in x.t):
        return x
    b = disjoint_bits(x, w)
    return x if b is None else from_bits(b)


def from_bits(b):
    b = list(b)
    w = len(b)
    while b and b[-1] == 0:
        b.pop()
    if all(x in (0, 1) and not isinstance(x, tuple) for x in b):
        return K(sum(x << i for i, x in enumerate(b)))
    f = b[0]
    if isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], Atom) and f[1] == 0:
        a = f[0]
        if len(b) <= a.w and all(x == (a, i) for i, x in enumerate(b)):
            aw = a.w
            if len(b) == aw or (a.hi < (1 << len(b))):
                return A(a)
    hi = sum((1 << i) for i, x in enumerate(b) if x != 0)
    lo = sum((1 << i) for i, x in enumerate(b) if x == 1 and not isinstance(x, tuple))
    return A(Atom("bits", (tuple(b),), len(b), lo, hi))


_LOWRUN = {}


def lowrun(a):
    """the atom b if a is exactly the low bits b<0..k>"""
    r = _LOWRUN.get(a, 0)
    if r == 0:
        bs = a.args[0]
        f = bs[0]
        r = None
        if isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], Atom) and f[1] == 0:
            if all(x == (f[0], i) for i, x in enumerate(bs)):
                r = f[0]
        _LOWRUN[a] = r
    return r


def cond_atoms(c, out):
    """atoms whose single bits a condition mentions"""
    if isinstance(c, tuple):
        if c and c[0] == "bit":
            out.add(c[1])
        else:
            for x in c[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], tuple):
                        for y in x:
                            cond_atoms(y, out)
                    else:
                        cond_atoms(x, out)


def bit_cond(b):
    if b == 0 or b == 1:
        return bool(b)
    if b[0] == "n":
        return ("not", ("bit", b[1], b[2]))
    if b[0] == "c":
        return b[1]
    return ("bit", b[0], b[1])


# ------------------------------------------------------------------------------- conditions
def c_not(c):
    if isinstance(c, bool):
        return not c
    if c[0] == "not":
        return c[1]
    if c[0] == "ge0":
        return c_ge0(sub(neg(c[1]), ONE))
    if c[0] == "and":
        return c_or([c_not(x) for x in c[1]])
    if c[0] == "or":
        return c_and([c_not(x) for x in c[1]])
    return ("not", c)


def c_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True or c in out:
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else ("and", tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False or c in out:
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else ("or", tuple(out))


def c_ge0(x):
    if x.const is not None:
        return x.c >= 0
    return ("ge0", x)


def c_eq(x, y):
    d = sub(x, y)
    if d.const is not None:
        return d.c == 0
    if d.t[0][1] < 0:
        d = neg(d)
    if len(d.t) == 1 and d.t[0][1] == 1:
        a = d.t[0][0]
        k = -d.c
        if k < a.lo or k > a.hi:
            return False
        if a.op == "bits":
            bs = a.args[0]
            if k < 0 or k >= (1 << len(bs)):
                return False
            syms = [(i, b) for i, b in enumerate(bs) if isinstance(b, tuple)]
            for i, b in enumerate(bs):
                if not isinstance(b, tuple) and b != ((k >> i) & 1):
                    return False
            if len(syms) == 1:
                i, b = syms[0]
                c = bit_cond(b)
                return c if (k >> i) & 1 else c_not(c)
        if a.op == "b2i":
            if k == 1:
                return a.args[0]
            if k == 0:
                return c_not(a.args[0])
            return False
        if a.w == 1:
            c = ("bit", a, 0)
            return c if k == 1 else c_not(c)
    return ("eq0", d)


def c_lt(x, y):
    return c_ge0(sub(sub(y, x), ONE))


def c_le(x, y):
    return c_ge0(sub(y, x))


def b2i(c):
    if isinstance(c, bool):
        return K(int(c))
    if c[0] == "bit":
        return from_bits([(c[1], c[2])])
    return A(Atom("b2i", (c,), 1))


# ---------------------------------------------------------------------------------- values
class V:
    __slots__ = ()

    def _k(self):
        raise NotImplementedError

    def __eq__(self, o):
        return type(self) is type(o) and self._k() == o._k()

    def __hash__(self):
        return hash((type(self).__name__, self._k()))


class BoolV(V):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def _k(self):
        return self.c

    def __repr__(self):
        return "B(%s)" % show_cond(self.c)


class AdtV(V):
    """struct / enum variant / tuple / closure"""
    __slots__ = ("ty", "v", "f", "_h")

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, tuple(f)
        self._h = None

    def _k(self):
        return (self.ty, self.v, self.f)

    def __eq__(self, o):
        return self is o or (isinstance(o, AdtV) and hash(self) == hash(o) and self.ty == o.ty and self.v == o.v and self.f == o.f)

    def __hash__(self):
        if self._h is None:
            self._h = hash(("adt", self.ty, self.v, self.f))
        return self._h

    def __repr__(self):
        return "Adt(%s#%s%r)" % (self.ty, self.v, list(self.f))


class SeqV(V):
    """sequence content: segments ('e',val) ('s',src,off,len) ('r',val,len)"""
    __slots__ = ("s", "_h", "id")
    table = {}

    def __new__(cls, s):
        s = tuple(s)
        v = cls.table.get(s)
        if v is None:
            v = object.__new__(cls)
            v.s = s
            v._h = hash(("seq", s))
            v.id = len(cls.table)
            cls.table[s] = v
        return v

    def __init__(self, s):
        pass

    def _k(self):
        return self.s

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "Seq[%s]" % ", ".join(show_seg(x) for x in self.s)


class VecV(V):
    """owned growable sequence (Vec<T> / String)"""
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq

    def _k(self):
        return self.seq

    def __repr__(self):
        return "Vec(%r)" % (self.seq,)


class RefV(V):
    __slots__ = ("o", "p", "r")

    def __init__(self, o, p=(), r=None):
        self.o, self.p, self.r = o, tuple(p), r

    def _k(self):
        return (self.o, self.p, self.r)

    def __repr__(self):
        return "&%s%s%s" % (self.o, "".join("." + str(x) for x in self.p),
                            "" if self.r is None else "[%r;+%r]" % self.r)


class Sym(V):
    """unknown value of a type, identified by its term"""
    __slots__ = ("t", "ty")

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def _k(self):
        return (self.t, self.ty)

    def __repr__(self):
        return "Sym(%s:%s)" % (show_term(self.t), self.ty)


class FnV(V):
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = tuple(key) if isinstance(key, list) else key

    def _k(self):
        return self.key

    def __repr__(self):
        return "fn(%s)" % (self.key,)


class ItV(V):
    """iterator node"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, tuple(a)

    def _k(self):
        return (self.k, self.a)

    def __repr__(self):
        return "It(%s %r)" % (self.k, self.a)


class UninitV(V):
    __slots__ = ()

    def _k(self):
        return 0

    def __repr__(self):
        return "uninit"


UNINIT = UninitV()


# ------------------------------------------------------------------------------- sequences
def seg_len(x):
    return ONE if x[0] == "e" else x[3] if x[0] == "s" else x[2]


def seq_len(q):
    n = ZERO
    for x in q.s:
        n = add(n, seg_len(x))
    return n


def elem_atom(src, idx, w=8):
    return Atom("elem", (src, idx), w)


def _is_elem(v):
    """(src, idx) if v is elem(src, idx) as a byte"""
    if isinstance(v, L):
        a = single(v)
        if a is not None and a.op == "elem":
            return a.args
    if isinstance(v, Sym) and isinstance(v.t, tuple) and v.t and v.t[0] == "elem":
        return (v.t[1], v.t[2])
    return None


def mkseq(segs):
    """normal form: merge contiguous runs of one source; drop empties; expand small repeats"""
    out = []
    for x in segs:
        if x[0] == "r":
            n = x[2].const
            if n is not None:
                if n <= 4096:
                    out.extend([("e", x[1])] * n)
                    continue
        if x[0] == "s" and x[3] == ZERO:
            continue
        out.append(x)
    res = []
    for x in out:
        if x[0] == "e":
            e = _is_elem(x[1])
            if e is not None:
                x = ("s", e[0], e[1], ONE)
        if x[0] == "s" and res and res[-1][0] == "s" and res[-1][1] == x[1] and add(res[-1][2], res[-1][3]) == x[2]:
            res[-1] = ("s", x[1], res[-1][2], add(res[-1][3], x[3]))
            continue
        if x[0] == "r" and res and res[-1][0] == "r" and res[-1][1] == x[1]:
            res[-1] = ("r", x[1], add(res[-1][2], x[2]))
            continue
        res.append(x)
    return SeqV(res)


def bytes_seq(bs):
    return SeqV([("e", K(b)) for b in bs])


# ------------------------------------------------------------------------------------ state
class State:
    __slots__ = ("objs", "iv", "ne", "bits", "truth", "ge", "ev", "n", "vals")

    def __init__(self):
        self.objs = {}
        self.iv = {}
        self.ne = {}
        self.bits = {}
        self.truth = {}
        self.ge = ()
        self.ev = ()
        self.n = 0

    def copy(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.iv = dict(self.iv)
        s.ne = dict(self.ne)
        s.bits = dict(self.bits)
        s.truth = dict(self.truth)
        s.ge = self.ge
        s.ev = self.ev
        s.n = self.n
        return s

    # ---- integer reasoning
    def arng(self, a):
        lo, hi = self.iv.get(a, (a.lo, a.hi))
        if a.op == "bits":
            l2 = h2 = 0
            for i, b in enumerate(a.args[0]):
                b = self.bit(b)
                if b == 1 and not isinstance(b, tuple):
                    l2 |= 1 << i
                    h2 |= 1 << i
                elif isinstance(b, tuple):
                    h2 |= 1 << i
            lo, hi = max(lo, l2), min(hi, h2)
        elif a.op == "b2i":
            d = self.decide(a.args[0])
            if d is not None:
                lo = hi = int(d)
        elif a.op in ("elem", "sym", "discr") and self.bits:
            m = self._bitmask(a)
            if m is not None:
                lo, hi = max(lo, m[0]), min(hi, m[1])
        elif a.op == "min":
            xs = [self.rng(x) for x in a.args]
            lo, hi = max(lo, min(x[0] for x in xs)), min(hi, min(x[1] for x in xs))
        elif a.op == "lin":
            r = self.rng(a.args[0])
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def _bitmask(self, a):
        known = [(i, v) for (x, i), v in self.bits.items() if x is a]
        if not known:
            return None
        lo = 0
        hi = (1 << a.w) - 1
        for i, v in known:
            if v:
                lo |= 1 << i
            else:
                hi &= ~(1 << i)
        return lo, hi

    def bit(self, b):
        if not isinstance(b, tuple):
            return b
        if b[0] == "n":
            v = self.bits.get((b[1], b[2]))
            return b if v is None else 1 - v
        if b[0] == "c":
            v = self.decide(b[1])
            return b if v is None else int(v)
        v = self.bits.get((b[0], b[1]))
        if v is not None:
            return v
        r = self.iv.get(b[0])
        if r is not None and r[0] == r[1]:
            return (r[0] >> b[1]) & 1
        return b

    def rng(self, x):
        lo = hi = x.c
        for a, k in x.t:
            l, h = self.arng(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def norm(self, x):
        """replace truncations bits{a<0..k>} by a where the facts bound a below 2^k"""
        for a, _ in x.t:
            if a.op == "bits" and lowrun(a) is not None:
                break
        else:
            return x
        y = K(x.c)
        for a, k in x.t:
            b = lowrun(a) if a.op == "bits" else None
            if b is not None and self.arng(b)[0] >= 0 and self.arng(b)[1] < (1 << a.w):
                y = add(y, scale(A(b), k))
            elif b is not None and b.op == "lin" and self.rng(b.args[0])[0] >= 0 and self.rng(b.args[0])[1] < (1 << a.w):
                y = add(y, scale(b.args[0], k))
            else:
                y = add(y, scale(A(a), k))
        return y

    def cval(self, x):
        """constant value of an integer form under the facts, or None"""
        if not x.t:
            return x.c
        lo, hi = self.rng(x)
        return lo if lo == hi else None

    def simp(self, x):
        """replace atoms of known value by constants"""
        if not x.t:
            return x
        c = x.c
        t = []
        ch = False
        for a, k in x.t:
            l, h = self.arng(a)
            if l == h:
                c += k * l
                ch = True
            else:
                t.append((a, k))
        return L(c, tuple(t)) if ch else x

    def ge0(self, x, depth=2):
        """True / False / None: is x >= 0 on all / no states"""
        lo, hi = self.rng(x)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if depth and self.ge:
            at = {a for a, _ in x.t}
            nx = sub(neg(x), ONE)
            for f in self.ge:
                if not any(a in at for a, _ in f.t):
                    continue
                d = sub(x, f)
                if len(d.t) <= len(x.t) + len(f.t) - 1:
                    if self.rng(d)[0] >= 0:
                        return True
                d2 = sub(nx, f)
                if self.rng(d2)[0] >= 0:
                    return False
            if depth > 1:
                for f in self.ge:
                    if not any(a in at for a, _ in f.t):
                        continue
                    d = sub(x, f)
                    if len(d.t) < len(x.t) + len(f.t) and self._ge0_only(d):
                        return True
                    d2 = sub(nx, f)
                    if len(d2.t) < len(x.t) + len(f.t) and self._ge0_only(d2):
                        return False
        return None

    def _ge0_only(self, x):
        if self.rng(x)[0] >= 0:
            return True
        at = {a for a, _ in x.t}
        for f in self.ge:
            if any(a in at for a, _ in f.t):
                if self.rng(sub(x, f))[0] >= 0:
                    return True
        return False

    def decide(self, c):
        if isinstance(c, bool):
            return c
        r = self._decide(c)
        if r is None and c[0] == "eq0" and self.norm(c[1]) is not c[1]:
            r = self._decide_eq(c)
        return r

    def _decide_eq(self, c):
        x = c[1]
        lo, hi = self.rng(x)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        if len(x.t) == 1 and abs(x.t[0][1]) == 1:
            a = x.t[0][0]
            kk = -x.c * x.t[0][1]
            if kk in self.ne.get(a, ()):
                return False
            if a.op == "bits":
                alleq = True
                for i, b in enumerate(a.args[0]):
                    b = self.bit(b)
                    if isinstance(b, tuple):
                        alleq = False
                    elif b != ((kk >> i) & 1):
                        return False
                if kk >= (1 << len(a.args[0])):
                    return False
                if alleq:
                    return True
                if any(isinstance(b, tuple) and b[0] == "c" for b in a.args[0]):
                    t = self.copy()
                    if not t._set_bits(a, kk):
                        return False
            elif self.bits:
                for (y, i), v in self.bits.items():
                    if y is a and v != ((kk >> i) & 1):
                        return False
        elif len(x.t) == 2 and not x.c and {k for _, k in x.t} == {1, -1} and "bits" in (x.t[0][0].op, x.t[1][0].op):
            same = True
            w = max(x.t[0][0].w, x.t[1][0].w)
            for p, q in zip(to_bits(A(x.t[0][0]), w), to_bits(A(x.t[1][0]), w)):
                if p != q:
                    p, q = self.bit(p), self.bit(q)
                    if not isinstance(p, tuple) and not isinstance(q, tuple) and p != q:
                        return False
                    same = same and p == q
            if same:
                return True
        g1 = self.ge0(x)
        g2 = self.ge0(neg(x))
        if g1 is False or g2 is False:
            return False
        if g1 and g2:
            return True
        return self.truth.get(c)

    def _decide(self, c):
        k = c[0]
        if k == "ge0":
            y = self.norm(c[1])
            r = self.ge0(y)
            return self.ge0(c[1]) if r is None and y is not c[1] else r
        if k == "eq0":
            x = self.norm(c[1])
            if x is not c[1]:
                c = c_eq(x, ZERO)
                if isinstance(c, bool):
                    return c
                if c[0] != "eq0":
                    return self.decide(c)
            return self._decide_eq(c)
        if k == "bit":
            v = self.bit((c[1], c[2]))
            if not isinstance(v, tuple):
                return bool(v)
            return None
        if k == "not":
            d = self.decide(c[1])
            return None if d is None else not d
        if k == "and":
            r = True
            for x in c[1]:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        if k == "or":
            r = False
            for x in c[1]:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    r = None
            return r
        return self.truth.get(c)

    def assume(self, c):
        """in place; returns False if contradictory"""
        d = self.decide(c)
        if d is True:
            return True
        if d is False:
            return False
        n = c[1] if c[0] == "not" else c
        if n[0] == "eq0":
            y = self.norm(n[1])
            if y is not n[1]:
                n = c_eq(y, ZERO)
                if not self._assume(c):
                    return False
                c = c_not(n) if c[0] == "not" else n
                if isinstance(c, bool):
                    return c
        return self._assume(c)

    def _assume(self, c):
        k = c[0]
        if k == "ge0":
            self._assume_ge(c[1])
            y = self.norm(c[1])
            if y is not c[1]:
                self._assume_ge(y)
            return True
        if k == "eq0":
            x = c[1]
            self.truth[c] = True
            if len(x.t) == 1 and abs(x.t[0][1]) == 1:
                a = x.t[0][0]
                kk = -x.c * x.t[0][1]
                self._set(a, kk)
            else:
                self._assume_ge(x)
                self._assume_ge(neg(x))
                return self._unify_bits(x)
            return True
        if k == "not" and c[1][0] == "eq0":
            x = c[1][1]
            self.truth[c[1]] = False
            if len(x.t) == 1 and abs(x.t[0][1]) == 1:
                a = x.t[0][0]
                kk = -x.c * x.t[0][1]
                self.ne[a] = self.ne.get(a, frozenset()) | {kk}
                lo, hi = self.arng(a)
                s = self.ne[a]
                while lo in s and lo <= hi:
                    lo += 1
                while hi in s and hi >= lo:
                    hi -= 1
                if lo > hi:
                    return False
                self.iv[a] = (lo, hi)
                if lo == hi:
                    self._set(a, lo)
            else:
                g1 = self.ge0(x)
                if g1:
                    self._assume_ge(sub(x, ONE))
                elif self.ge0(neg(x)):
                    self._assume_ge(sub(neg(x), ONE))
            return True
        if k == "bit":
            self._setbit(c[1], c[2], 1)
            return True
        if k == "not" and c[1][0] == "bit":
            self._setbit(c[1][1], c[1][2], 0)
            return True
        if k == "and":
            for x in c[1]:
                if not self.assume(x):
                    return False
            return True
        if k == "or":
            open_ = [x for x in c[1] if self.decide(x) is not False]
            if len(open_) == 1:
                return self.assume(open_[0])
            self.truth[c] = True
            return True
        if k == "not":
            self.truth[c[1]] = False
            return True
        self.truth[c] = True
        if k == "seqeq":
            return self._assume_seqeq(c[1], c[2])
        return True

    def _assume_seqeq(self, x, y):
        """equality with a constant byte string fixes every element"""
        for a, b in ((x, y), (y, x)):
            if not b.s or not all(e[0] == "e" and isinstance(e[1], L) and e[1].const is not None for e in b.s):
                continue
            i = 0
            for e in a.s:
                n = self.cval(seg_len(e))
                if n is None:
                    n = len(b.s) - i if e is a.s[-1] else None
                if n is None or i + n > len(b.s):
                    return True
                for j in range(n):
                    v = e[1] if e[0] != "s" else A(elem_atom(e[1], add(e[2], K(j))))
                    if isinstance(v, L) and not self.assume(c_eq(v, b.s[i + j][1])):
                        return False
                i += n
            return True
        return True

    def _unify_bits(self, x):
        """x = a - b assumed 0: the bits of a and b agree"""
        if x.c or len(x.t) != 2 or {k for _, k in x.t} != {1, -1}:
            return True
        a, b = x.t[0][0], x.t[1][0]
        if "bits" not in (a.op, b.op):
            return True
        w = max(a.w, b.w)
        for p, q in zip(to_bits(A(a), w), to_bits(A(b), w)):
            p, q = self.bit(p), self.bit(q)
            if isinstance(q, tuple):
                p, q = q, p
            if isinstance(q, tuple):
                continue
            if not isinstance(p, tuple):
                if p != q:
                    return False
            elif p[0] == "n":
                self.bits[(p[1], p[2])] = 1 - q
            elif p[0] == "c":
                if not self.assume(p[1] if q else c_not(p[1])):
                    return False
            else:
                self.bits[(p[0], p[1])] = q
        return True

    def _setbit(self, a, i, v):
        self.bits[(a, i)] = v

    def _set(self, a, kk):
        self.iv[a] = (kk, kk)
        if a.op == "bits":
            for i, b in enumerate(a.args[0]):
                if isinstance(b, tuple):
                    v = (kk >> i) & 1
                    if b[0] == "n":
                        self.bits[(b[1], b[2])] = 1 - v
                    elif b[0] == "c":
                        self.assume(b[1] if v else c_not(b[1]))
                    else:
                        self.bits[(b[0], b[1])] = v
        elif a.op == "b2i":
            self.assume(a.args[0] if kk else c_not(a.args[0]))
        elif a.op == "lin":
            self.assume(c_eq(a.args[0], K(kk)))

    def _set_bits(self, a, kk):
        """the bits of a are those of kk: False if that contradicts the facts"""
        seen = set()
        for i, b in enumerate(a.args[0]):
            v = (kk >> i) & 1
            b = self.bit(b)
            if not isinstance(b, tuple):
                if b != v:
                    return False
                continue
            c = bit_cond(b)
            if not self.assume(c if v else c_not(c)):
                return False
            cond_atoms(c, seen)
        for x in seen:
            n = 0
            for j in range(x.w):
                b = self.bit((x, j))
                if isinstance(b, tuple):
                    break
                n |= b << j
            else:
                lo, hi = self.arng(x)
                if not lo <= n <= hi or n in self.ne.get(x, ()):
                    return False
        return True

    def _assume_ge(self, x):
        if len(x.t) == 1:
            a, k = x.t[0]
            lo, hi = self.arng(a)
            if k > 0:
                nlo = -(x.c // k) if x.c % k == 0 else -(x.c // k)
                lo = max(lo, -((x.c) // k))
            else:
                hi = min(hi, x.c // (-k))
            # skip excluded end points
            s = self.ne.get(a, ())
            while lo in s and lo <= hi:
                lo += 1
            while hi in s and hi >= lo:
                hi -= 1
            self.iv[a] = (lo, hi)
            if lo == hi:
                self._set(a, lo)
        elif x not in self.ge:
            self.ge = self.ge + (x,)

    # ---- facts as a comparable object
    def facts(self):
        return (frozenset(self.iv.items()), frozenset(self.ne.items()), frozenset(self.bits.items()),
                frozenset(self.truth.items()), frozenset(self.ge))


# ----------------------------------------------------------------------------------- printing
def show_term(t, d=0):
    if d > 6:
        return ".."
    if isinstance(t, Atom):
        return show_atom(t, d)
    if isinstance(t, L):
        return show_L(t, d)
    if isinstance(t, SeqV):
        return "[" + ", ".join(show_seg(x, d) for x in t.s[:70]) + ("..." if len(t.s) > 70 else "") + "]"
    if isinstance(t, tuple):
        if t and t[0] == "arg" and len(t) == 2:
            return str(t[1])
        if t and t[0] == "fld":
            return "%s.%s" % (show_term(t[1], d + 1), t[2])
        if t and t[0] == "deref" and len(t) == 2:
            return show_term(t[1], d)
        if t and isinstance(t[0], str):
            return "%s(%s)" % (t[0], ", ".join(show_term(x, d + 1) for x in t[1:]))
        return "(" + ", ".join(show_term(x, d + 1) for x in t) + ")"
    return str(t)


def show_atom(a, d=0):
    if a.op == "bits":
        b = a.args[0]
        out = []
        i = 0
        while i < len(b):
            x = b[i]
            if isinstance(x, tuple) and isinstance(x[0], Atom):
                j = i
                while j + 1 < len(b) and isinstance(b[j + 1], tuple) and b[j + 1][0] is x[0] and b[j + 1][1] == x[1] + (j + 1 - i):
                    j += 1
                out.append("%s<%d..%d>" % (show_atom(x[0], d + 1), x[1], x[1] + j - i))
                i = j + 1
            else:
                out.append(str(x) if not isinstance(x, tuple) else "b(%s)" % show_term(x, d + 1))
                i += 1
        return "bits{%s}" % "|".join(out)
    if a.op == "elem":
        return "%s[%s]" % (show_term(a.args[0], d + 1), show_L(a.args[1], d + 1))
    if a.op == "len":
        return "len(%s)" % show_term(a.args[0], d + 1)
    if a.op == "sym":
        return show_term(a.args[0], d)
    if a.op == "b2i":
        return "b2i(%s)" % show_cond(a.args[0])
    return "%s(%s)" % (a.op, ", ".join(show_term(x, d + 1) for x in a.args))


def show_L(x, d=0):
    s = []
    for a, k in x.t:
        s.append(("%s" if k == 1 else "-%s" if k == -1 else str(k) + "*%s") % show_atom(a, d))
    if x.c or not s:
        s.append(str(x.c))
    return " + ".join(s)


def show_cond(c):
    if isinstance(c, bool):
        return str(c)
    if c[0] == "ge0":
        return "%r >= 0" % c[1]
    if c[0] == "eq0":
        return "%r == 0" % c[1]
    if c[0] == "bit":
        return "bit(%r,%d)" % (c[1], c[2])
    if c[0] == "not":
        return "!(%s)" % show_cond(c[1])
    if c[0] in ("and", "or"):
        return "(%s)" % ((" && " if c[0] == "and" else " || ").join(show_cond(x) for x in c[1]))
    return show_term(c)


def show_seg(x, d=0):
    if x[0] == "e":
        return repr(x[1]) if not isinstance(x[1], L) else show_L(x[1], d)
    if x[0] == "s":
        return "%s[%s;+%s]" % (show_term(x[1], d + 1), show_L(x[2], d), show_L(x[3], d))
    return "%r x %s" % (x[1], show_L(x[2], d))
