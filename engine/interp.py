"""Abstract interpreter over monomorphic MIR.

Context-sensitive (callees are analysed per calling state), trace-partitioned (states that differ in
more than their facts stay apart, up to a cap), flow-sensitive; loops whose trip count is decided by
the abstract state are unrolled, all others are widened to a fixpoint.  Every undecided branch takes
both sides; there is no satisfiability query anywhere."""
import math
import struct
import sys

from .dom import *
from .accel import accelerate, natural_loop
from .mir import REPO_CRATES

sys.setrecursionlimit(200000)

UNROLL = 6000
ACCEL = True
SYMLOOP = 4
CUTLOOP = 48
PRECISE = [False]   # keep every path apart instead of joining facts at merge points
FNCALL = {"std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call", "core::ops::FnOnce::call_once", "core::ops::FnMut::call_mut", "core::ops::Fn::call"}
BLOCKCAP = 160


class Undecided(Exception):
    pass


class Frame:
    __slots__ = ("key", "fn", "d", "bb", "parent", "symloop", "cutloop", "sub", "uid")

    def __init__(self, key, fn, d, parent):
        self.key, self.fn, self.d, self.parent = key, fn, d, parent
        self.bb = 0
        self.symloop = set()
        self.cutloop = set()


class Outcome:
    __slots__ = ("val", "st")

    def __init__(self, val, st):
        self.val, self.st = val, st


DEPERR = {"utf8err", "tryfromslice", "ioerr", "timeerr", "hexerr", "b58err", "sigerr", "edpkerr", "edsigerr"}


DEPERR = {"utf8err", "tryfromslice", "ioerr", "timeerr", "hexerr", "b58err", "sigerr", "edpkerr", "edsigerr"}


def first_indexed(x):
    """the first place with an index projection in a statement"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and \
           any(isinstance(e, (list, tuple)) and e and e[0] == "i" for e in x[1]):
            return x
        for y in x:
            r = first_indexed(y)
            if r is not None:
                return r
    return None


def shape(v, depth):
    """which variants a value is made of, down to a depth"""
    if isinstance(v, AdtV):
        return (v.ty, v.v) + (tuple(shape(x, depth - 1) for x in v.f) if depth > 1 else ())
    return type(v).__name__


class Interp:
    def __init__(self, prog, models):
        self.p = prog
        self.watch = frozenset()
        self.models = models
        self.otype = {}
        self.srcty = {}
        self.utf8 = set()
        self.panics = []
        self.allocs = None
        self.fmtout = None
        self.unknown = {}
        self.steps = 0
        self.maxsteps = 4_000_000
        self.fns_seen = set()
        self.calls_seen = set()
        self.track_err = False  # record where errors of the layers below arise
        self.nforks = 0
        self.nasserts = 0
        self.njoins = 0
        self.nframe = 0
        self.nwiden = 0
        self.closure_keys = None
        self.u8 = prog.find("u8")
        self.ctx = None

    # ------------------------------------------------------------------ symbolic values
    def mk_sym(self, term, ty, st=None):
        p = self.p
        t = p.types[ty]
        k = t["k"]
        if k == "bool":
            return BoolV(("bit", Atom("sym", (term,), 1), 0))
        if k == "int" or k == "char":
            lo, hi = p.int_rng(ty)
            return A(Atom("sym", (term,), t.get("w", 32), lo, hi))
        if k == "float":
            return Sym(("f", A(Atom("sym", (("fb", term),), t["w"]))), ty)
        if k == "array":
            self.srcty[term] = t["e"]
            return SeqV([("s", term, ZERO, K(t["len"]))]) if t["len"] else SeqV([])
        if k in ("ref", "ptr") or (k == "adt" and t.get("box")):
            e = p.pointee(ty)
            o = ("o", term)
            et = p.types[e]
            if et["k"] in ("slice", "str"):
                src = ("deref", term)
                self.srcty[src] = p.elem(e)
                if et["k"] == "str":
                    self.utf8.add(src)
                self.otype[o] = e
                return RefV(o, (), (ZERO, symlen(src, 0, (1 << 63) - 1)))
            self.otype[o] = e
            return RefV(o)
        if k == "tuple":
            return AdtV(ty, 0, [self.mk_sym(("fld", term, n), f) for n, f in p.fields(ty)])
        if k == "closure":
            return AdtV(ty, 0, [self.mk_sym(("fld", term, n), f) for n, f in p.fields(ty)])
        if k == "fndef":
            return FnV(t.get("inst") or t["def"])
        if k == "adt":
            if p.is_vec(ty):
                self.srcty[term] = p.vec_elem(ty)
                if p.adt_def(ty) == "std::string::String":
                    self.utf8.add(term)
                return VecV(SeqV([("s", term, ZERO, symlen(term, 0, (1 << 63) - 1))]))
            if t["ak"] == "struct" and (t["crate"] in REPO_CRATES or t["crate"] == "vxwitness" or len(t["vs"][0]["fs"]) == 0
                                        or p.adt_def(ty) in ("std::sync::Mutex", "std::cell::UnsafeCell", "std::ops::Range")):
                return AdtV(ty, 0, [self.mk_sym(("fld", term, n), f) for n, f in p.fields(ty)])
        return Sym(term, ty)

    def fresh(self, st, tag, ty):
        st.n += 1
        return self.mk_sym((tag, st.n), ty)

    # ------------------------------------------------------------------ objects
    def getobj(self, st, o):
        v = st.objs.get(o)
        if v is not None:
            return v
        k = o[0]
        if k == "o":
            ty = self.otype[o]
            t = self.p.types[ty]
            term = ("deref", o[1])
            if t["k"] in ("slice", "str"):
                self.srcty[term] = self.p.elem(ty)
                return SeqV([("s", term, ZERO, symlen(term, 0, (1 << 63) - 1))])
            return self.mk_sym(term, ty)
        if k == "smut":
            return self.mk_sym(("static", o[1]), o[2])
        if k in ("alloc", "static"):
            a, e = o[1], o[2]
            d = self.p.alloc_data(a)
            t = self.p.types[e]
            if d is None:
                return self.mk_sym(("static", a), e)
            data, ptrs = d
            if t["k"] in ("slice", "str"):
                el = self.p.elem(e)
                es = self.p.size(el)
                if el == self.u8:
                    return SeqV([("e", K(x) if x is not None else UNINIT) for x in data])
                n = len(data) // max(es, 1)
                return SeqV([("e", self.p.decode(el, data, ptrs, j * es)) for j in range(n)])
            if k == "static" and t["k"] == "adt":
                return self.mk_sym(("static", a), e)
            return self.p.decode(e, data, ptrs, 0)
        if k == "allocoff":
            d = self.p.alloc_data(o[1])
            return self.p.decode(o[3], d[0], d[1], o[2])
        if k == "dangling":
            return SeqV([])
        raise Undecided("read of missing object %r" % (o,))

    def elemval(self, src, idx):
        ty = self.srcty.get(src, self.u8)
        if ty == self.u8:
            return A(elem_atom(src, idx))
        return self.mk_sym(("elem", src, idx), ty)

    # ---- sequences
    def seq_split(self, st, segs, off):
        left = []
        p = ZERO
        segs = list(segs)
        c = st.cval(off)
        if c is not None:
            off = K(c)
        for j, x in enumerate(segs):
            rem = sub(off, p)
            if rem == ZERO or st.decide(c_eq(rem, ZERO)) is True:
                return left, segs[j:]
            n = seg_len(x)
            if rem == n or st.decide(c_le(n, rem)) is True:
                left.append(x)
                p = add(p, n)
                continue
            last = j == len(segs) - 1
            if x[0] == "e":
                return None
            if (last or st.decide(c_le(rem, n)) is True) and (st.decide(c_le(ZERO, rem)) is True):
                if x[0] == "s":
                    a = ("s", x[1], x[2], rem)
                    b = ("s", x[1], add(x[2], rem), sub(n, rem))
                else:
                    a = ("r", x[1], rem)
                    b = ("r", x[1], sub(n, rem))
                return left + [a], [b] + segs[j + 1:]
            return None
        return left, []

    def seq_slice(self, st, seq, off, ln):
        r = self.seq_split(st, seq.s, off)
        if r is not None:
            r2 = self.seq_split(st, r[1], ln)
            if r2 is not None:
                return mkseq(r2[0])
        src = ("seq", seq)
        for x in seq.s:
            if x[0] == "s" and x[1] in self.srcty:
                self.srcty[src] = self.srcty[x[1]]
        return mkseq([("s", src, off, ln)])

    def seq_get(self, st, seq, idx):
        r = self.seq_split(st, seq.s, idx)
        if r is not None and r[1]:
            x = r[1][0]
            if x[0] == "e":
                return x[1]
            if len(r[1]) == 1 or st.decide(c_le(ONE, seg_len(x))) is True:
                return self.elemval(x[1], x[2]) if x[0] == "s" else x[1]
        src = ("seq", seq)
        for x in seq.s:
            if x[0] == "s" and x[1] in self.srcty:
                self.srcty[src] = self.srcty[x[1]]
            elif x[0] == "e" and isinstance(x[1], (AdtV, Sym)):
                self.srcty[src] = x[1].ty
        return self.elemval(src, idx)

    def elem_alts(self, st, o, path, base, idx):
        """[(index, state)]: one per element when a short constant sequence of
        structured values is read at an unknown index, else None"""
        x = st.norm(add(base, idx))
        if x.const is not None:
            return None
        try:
            v = self.read(st, o, path)
        except Undecided:
            return None
        if isinstance(v, VecV):
            v = v.seq
        if not isinstance(v, SeqV) or not 0 < len(v.s) <= 16:
            return None
        if not all(e[0] == "e" and not isinstance(e[1], (L, BoolV)) for e in v.s):
            return None
        out = []
        for k in range(len(v.s)):
            t, _ = self.fork(st, c_eq(x, K(k)))
            if t is not None:
                out.append((K(k), t))
        return out or None

    def elem_alts_at(self, fr, st, bb):
        """the same for the first element access of block `bb`"""
        for s in fr.fn["blocks"][bb]["s"]:
            pl = first_indexed(s)
            if pl is None:
                continue
            i = next(j for j, e in enumerate(pl[1]) if e[0] == "i")
            try:
                o, path, r, ty, var = self.place(fr, st, [pl[0], pl[1][:i]])
                ix = st.simp(self.read(st, (fr.d, pl[1][i][1])))
            except Undecided:
                return None
            if var is not None or not isinstance(ix, L):
                return None
            alts = self.elem_alts(st, o, path, r[0] if r is not None else ZERO, ix)
            if alts:
                base = r[0] if r is not None else ZERO
                for k, t in alts:
                    t.objs[(fr.d, pl[1][i][1])] = sub(k, t.norm(base))
                return [t for _, t in alts]
            return None
        return None

    def seq_splice(self, st, seq, off, ln, new):
        """replace [off, off+ln) by new segments"""
        r = self.seq_split(st, seq.s, off)
        if r is not None:
            r2 = self.seq_split(st, r[1], ln)
            if r2 is not None:
                return mkseq(list(r[0]) + list(new) + list(r2[1]))
        return mkseq([("s", ("splice", seq, off, SeqV(new)), ZERO, seq_len(seq))])

    # ---- read / write through paths
    def field(self, v, i, variant=None):
        if isinstance(v, AdtV):
            return v.f[i]
        if isinstance(v, Sym):
            t = self.p.types[v.ty]
            if t["k"] == "adt" and t["ak"] == "union":
                n, fty = self.p.fields(v.ty, 0)[i]
                if isinstance(v.t, tuple) and v.t[0] == "unionv":
                    return v.t[1]
                return self.mk_sym(("fld", v.t, n), fty)
            if t["k"] == "adt" and t["ak"] == "enum":
                vv = 0 if variant is None else variant
                n, fty = self.p.fields(v.ty, vv)[i]
                return self.mk_sym(("vf", v.t, self.p.vname(v.ty, vv), n), fty)
            n, fty = self.p.fields(v.ty, 0)[i]
            return self.mk_sym(("fld", v.t, n), fty)
        if isinstance(v, VecV) and i == 0:
            return v
        if isinstance(v, (VecV, ItV)):
            raise Undecided("field %d of modelled container %r" % (i, type(v).__name__))
        if v is UNINIT:
            return UNINIT
        if isinstance(v, RefV):
            # transparent pointer wrappers (NonNull, Unique, Box internals)
            return v
        if isinstance(v, SeqV) and i == 0:
            return v
        raise Undecided("field of %r" % (v,))

    def rd(self, st, v, path):
        for pe in path:
            if isinstance(pe, int):
                v = self.field(v, pe)
            elif pe[0] == "v":
                v = self.field(v, pe[2], pe[1])
            elif pe[0] == "i":
                if isinstance(v, VecV):
                    v = v.seq
                if isinstance(v, SeqV):
                    v = self.seq_get(st, v, pe[1])
                elif pe[1] == ZERO:
                    pass
                else:
                    raise Undecided("index into %r" % (v,))
            else:
                raise Undecided("path %r" % (pe,))
        return v

    def read(self, st, o, path=(), r=None):
        v = self.rd(st, self.getobj(st, o), path)
        if r is not None:
            if isinstance(v, VecV):
                v = v.seq
            if isinstance(v, AdtV) and len(v.f) == 1:
                v = v.f[0]
            if not isinstance(v, SeqV):
                raise Undecided("slice of %r" % (v,))
            if r[0] == ZERO and r[1] == seq_len(v):
                return v
            return self.seq_slice(st, v, r[0], r[1])
        return v

    def wr(self, st, v, path, new):
        if not path:
            return new
        pe = path[0]
        if isinstance(pe, int) or pe[0] == "v":
            i = pe if isinstance(pe, int) else pe[2]
            vv = 0 if isinstance(pe, int) else pe[1]
            if isinstance(v, Sym) or v is UNINIT:
                ty = v.ty if isinstance(v, Sym) else None
                if ty is None:
                    raise Undecided("field write to uninit")
                t = self.p.types[ty]
                if t["k"] == "adt" and t["ak"] == "union":
                    return Sym(("unionv", self.wr(st, self.field(v, i), path[1:], new)), ty)
                v = AdtV(ty, vv, [self.field(v, j, vv) for j in range(len(self.p.fields(ty, vv)))])
            if isinstance(v, (RefV, SeqV)) or (isinstance(v, VecV) and i == 0):
                return self.wr(st, v, path[1:], new)
            if not isinstance(v, AdtV):
                raise Undecided("field write to %r" % (v,))
            f = list(v.f)
            f[i] = self.wr(st, f[i], path[1:], new)
            return AdtV(v.ty, v.v, f)
        if pe[0] == "i":
            vec = isinstance(v, VecV)
            q = v.seq if vec else v
            if not isinstance(q, SeqV):
                if pe[1] == ZERO:
                    return self.wr(st, v, path[1:], new)
                raise Undecided("index write to %r" % (v,))
            if len(path) > 1:
                old = self.seq_get(st, q, pe[1])
                new = self.wr(st, old, path[1:], new)
            q = self.seq_splice(st, q, pe[1], ONE, [("e", new)])
            return VecV(q) if vec else q
        raise Undecided("path %r" % (pe,))

    def write(self, st, o, path, new):
        if not path:
            st.objs[o] = new
            return
        st.objs[o] = self.wr(st, self.getobj(st, o), path, new)

    def write_range(self, st, ref, seq):
        """overwrite the elements a slice reference denotes"""
        base = self.rd(st, self.getobj(st, ref.o), ref.p)
        if isinstance(base, AdtV) and len(base.f) == 1:
            ref = RefV(ref.o, ref.p + (0,), ref.r)
            base = base.f[0]
        vec = isinstance(base, VecV)
        q = base.seq if vec else base
        if ref.r is None:
            n = seq
        else:
            n = self.seq_splice(st, q, ref.r[0], ref.r[1], list(seq.s))
        self.write(st, ref.o, ref.p, VecV(n) if vec else n)

    def deref(self, st, ref):
        """value a reference denotes"""
        if isinstance(ref, RefV):
            return self.read(st, ref.o, ref.p, ref.r)
        raise Undecided("deref of %r" % (ref,))

    def store(self, st, ref, val):
        self.write(st, ref.o, ref.p, val)

    def slice_of(self, st, ref):
        """SeqV denoted by a reference to slice / array / Vec / String / str"""
        v = self.deref(st, ref)
        while True:
            if isinstance(v, VecV):
                return v.seq
            if isinstance(v, SeqV):
                return v
            if isinstance(v, AdtV) and len(v.f) == 1:
                v = v.f[0]
                continue
            if isinstance(v, RefV):
                v = self.deref(st, v)
                continue
            raise Undecided("sequence expected, got %r" % (v,))

    def slice_ref(self, st, ref):
        """RefV with a range for a reference to slice/array/Vec/str"""
        if ref.r is not None:
            return ref
        v = self.rd(st, self.getobj(st, ref.o), ref.p)
        p = ref.p
        while isinstance(v, AdtV) and len(v.f) == 1:
            v = v.f[0]
            p = p + (0,)
        if isinstance(v, RefV):
            return self.slice_ref(st, v)
        if isinstance(v, VecV):
            return RefV(ref.o, p, (ZERO, seq_len(v.seq)))
        if isinstance(v, SeqV):
            return RefV(ref.o, p, (ZERO, seq_len(v)))
        raise Undecided("slice_ref of %r" % (v,))

    def new_heap(self, st, val, ty=None):
        st.n += 1
        o = ("h", st.n)
        st.objs[o] = val
        return o

    # ------------------------------------------------------------------ places
    def place(self, fr, st, pl):
        """-> (obj, path, range, ty)"""
        p = self.p
        o = (fr.d, pl[0])
        path = ()
        r = None
        ty = fr.fn["locals"][pl[0]]
        var = None
        for e in pl[1]:
            k = e[0]
            if k == "d":
                v = self.read(st, o, path)
                ety = p.pointee(ty)
                if ety is None:
                    # NonNull-like pattern types
                    raise Undecided("deref of type %s" % p.tname(ty))
                if isinstance(v, Sym):
                    v = self.mk_sym(v.t, ty)
                if isinstance(v, AdtV) and len(v.f) >= 1:
                    w = v
                    while isinstance(w, AdtV) and w.f:
                        w = w.f[0]
                    v = w
                if not isinstance(v, RefV):
                    raise Undecided("deref of %r" % (v,))
                o, path, r = v.o, v.p, v.r
                ty = ety
            elif k == "f":
                if var is not None:
                    path = path + (("v", var, e[1]),)
                    var = None
                else:
                    path = path + (e[1],)
                ty = e[2]
            elif k == "v":
                var = e[1]
            elif k == "i":
                iv = self.read(st, (fr.d, e[1]))
                iv = st.simp(iv)
                if r is not None:
                    iv = add(r[0], iv)
                    r = None
                path = path + (("i", iv),)
                ty = p.elem(ty)
            elif k == "ci":
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    ln = r[1] if r is not None else seq_len(self.slice_of(st, RefV(o, path)))
                    iv = sub(ln, K(off))
                else:
                    iv = K(off)
                if r is not None:
                    iv = add(r[0], iv)
                    r = None
                path = path + (("i", iv),)
                ty = p.elem(ty)
            elif k == "ss":
                fm, to, fe = e[1], e[2], e[3]
                if r is None:
                    r = (ZERO, seq_len(self.slice_of(st, RefV(o, path))))
                end = sub(r[1], K(to)) if fe else K(to)
                r = (add(r[0], K(fm)), sub(end, K(fm)))
            elif k == "oc":
                pass
            else:
                raise Undecided("projection %r" % (e,))
        return o, path, r, ty, var

    def read_place(self, fr, st, pl):
        o, path, r, ty, var = self.place(fr, st, pl)
        v = self.read(st, o, path, r)
        return v

    def place_ty(self, fr, st, pl):
        p = self.p
        ty = fr.fn["locals"][pl[0]]
        for e in pl[1]:
            k = e[0]
            if k == "d":
                ty = p.pointee(ty)
            elif k == "f":
                ty = e[2]
            elif k in ("i", "ci"):
                ty = p.elem(ty)
            elif k == "oc":
                ty = e[1]
        return ty

    # ------------------------------------------------------------------ operands
    def opty(self, fr, op):
        if op[0] in ("c", "m"):
            return self.place_ty(fr, None, op[1])
        if op[0] in ("k", "z", "u"):
            return op[1]
        return self.p.find("bool")

    def operand(self, fr, st, op):
        k = op[0]
        if k == "c" or k == "m":
            pl = op[1]
            if not pl[1]:
                v = st.objs.get((fr.d, pl[0]))
                if v is None:
                    ty = fr.fn["locals"][pl[0]]
                    v = self.zst(ty)
                    if v is None:
                        v = UNINIT
                elif k == "m" and self.watch and self.p.adt_def(fr.fn["locals"][pl[0]]) in self.watch:
                    st.objs[(fr.d, pl[0])] = UNINIT
                return v
            return self.read_place(fr, st, pl)
        if k == "k":
            data, ptrs = self.p.hexdata(op[2])
            return self.p.decode(op[1], data, ptrs, 0)
        if k == "z":
            return self.zst(op[1])
        if k == "u":
            return UNINIT
        if k == "rc":
            # runtime checks: overflow checks on, ub checks / contract checks off
            return BoolV(op[1] in ("OverflowChecks",))
        raise Undecided("operand %r" % (op,))

    def zst(self, ty):
        t = self.p.types[ty]
        k = t["k"]
        if k == "fndef":
            return FnV(t.get("inst") or t["def"])
        if k in ("tuple", "closure"):
            fs = [self.zst(f) for _, f in self.p.fields(ty)]
            return None if any(x is None for x in fs) else AdtV(ty, 0, fs)
        if k == "array" and t["len"] == 0:
            return SeqV([])
        if k == "adt" and t["ak"] == "struct" and not self.p.is_vec(ty):
            fs = [self.zst(f) for _, f in self.p.fields(ty)]
            return None if any(x is None for x in fs) else AdtV(ty, 0, fs)
        return None

    # ------------------------------------------------------------------ integer operations
    def wrap(self, st, x, ty):
        lo, hi = self.p.int_rng(ty)
        l, h = st.rng(x)
        if l >= lo and h <= hi:
            return x
        w = self.p.types[ty].get("w", 32)
        if x.const is not None:
            v = x.c & ((1 << w) - 1)
            if lo < 0 and v >> (w - 1):
                v -= 1 << w
            return K(v)
        return A(Atom("wrap", (x, ty), w, lo, hi))

    def bits_of(self, st, x, w):
        l, h = st.rng(x)
        if l < 0 or h >= (1 << w):
            return None
        x = st.simp(x)
        return [st.bit(b) for b in to_bits(x, w)]

    def float_const(self, st, v):
        if isinstance(v.t, tuple) and len(v.t) == 2 and v.t[0] == "f" and isinstance(v.t[1], L):
            n = st.cval(v.t[1])
            w = self.p.types[v.ty]["w"]
            if n is not None and w in (32, 64):
                return struct.unpack("<f" if w == 32 else "<d", (n & ((1 << w) - 1)).to_bytes(w // 8, "little"))[0]
        return None

    def float_of(self, x, ty):
        """a constant of a floating-point type, rounded to its width"""
        w = self.p.types[ty]["w"]
        try:
            b = struct.pack("<f" if w == 32 else "<d", x)
        except OverflowError:
            b = struct.pack("<f" if w == 32 else "<d", math.copysign(math.inf, x))
        return Sym(("f", K(int.from_bytes(b, "little"))), ty)

    def float_cast(self, st, kind, v, dty):
        """conversions of constants from and to floating point"""
        t = self.p.types[dty]
        if kind == "IntToFloat":
            n = st.cval(v) if isinstance(v, L) else None
            # a double holds integers up to 2^53 exactly: rounding it once more to a single is then the only rounding
            return self.float_of(float(n), dty) if n is not None and t.get("w") in (32, 64) and (t["w"] == 64 or abs(n) <= 1 << 53) else None
        x = self.float_const(st, v) if isinstance(v, Sym) else None
        if x is None or t.get("w") not in (8, 16, 32, 64, 128):
            return None
        if kind == "FloatToFloat":
            return self.float_of(x, dty) if t["w"] in (32, 64) else None
        lo, hi = self.p.int_rng(dty)
        if x != x:
            return K(0)
        return K(lo if x <= lo else hi if x >= hi else int(x))

    def binop(self, fr, st, op, a, b, ty, checked=False):
        p = self.p
        if op in ("Add", "Sub", "Mul", "Div") and isinstance(a, Sym) and isinstance(b, Sym) and p.types[ty]["k"] == "float":
            x, y = self.float_const(st, a), self.float_const(st, b)
            # single-precision results computed in double precision and rounded once more are exact
            if x is not None and y is not None and not (op == "Div" and y == 0):
                try:
                    return self.float_of(x + y if op == "Add" else x - y if op == "Sub" else x * y if op == "Mul" else x / y, ty)
                except OverflowError:
                    pass
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            ca, cb = a.c, b.c
            if op == "BitAnd":
                return BoolV(c_and([ca, cb]))
            if op == "BitOr":
                return BoolV(c_or([ca, cb]))
            if op in ("BitXor", "Ne"):
                return BoolV(self.c_xor(st, ca, cb))
            if op == "Eq":
                return BoolV(c_not(self.c_xor(st, ca, cb)))
            if op in ("Lt", "Le", "Gt", "Ge"):
                a, b = b2i(ca), b2i(cb)
            else:
                raise Undecided("bool op " + op)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if isinstance(a, L) and isinstance(b, L):
                a, b = st.simp(a), st.simp(b)
                if op == "Eq":
                    return BoolV(c_eq(a, b))
                if op == "Ne":
                    return BoolV(c_not(c_eq(a, b)))
                if op == "Lt":
                    return BoolV(c_lt(a, b))
                if op == "Le":
                    return BoolV(c_le(a, b))
                if op == "Gt":
                    return BoolV(c_lt(b, a))
                if op == "Ge":
                    return BoolV(c_le(b, a))
            if op in ("Eq", "Ne") and isinstance(a, RefV) and isinstance(b, RefV):
                c = self.ptr_eq(st, a, b)
                return BoolV(c if op == "Eq" else c_not(c))
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and isinstance(a, Sym) and isinstance(b, Sym) and p.types[a.ty]["k"] == "float":
                if op in ("Gt", "Ge"):
                    op, a, b = "Lt" if op == "Gt" else "Le", b, a
                x, y = self.float_const(st, a), self.float_const(st, b)
                if x is not None and y is not None:
                    return BoolV({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y}[op])
                if op == "Ne":
                    return BoolV(c_not(("cmp", "Eq", a, b)))
            return BoolV(("cmp", op, a, b))
        if op == "Offset":
            return self.ptr_add(st, a, b)
        if not (isinstance(a, L) and isinstance(b, L)):
            return self.mk_sym(("op", op, a, b), ty)
        t = p.types[ty]
        w = t.get("w", 32)
        if op in ("Add", "AddUnchecked"):
            r = join_bits(add(a, b), w)
            return r if op == "AddUnchecked" else self.wrap(st, r, ty)
        if op in ("Sub", "SubUnchecked"):
            r = sub(a, b)
            return r if op == "SubUnchecked" else self.wrap(st, r, ty)
        if op in ("Mul", "MulUnchecked"):
            return self.wrap(st, self.mul(st, a, b, w), ty)
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.bits_of(st, a, w), self.bits_of(st, b, w)
            if x is not None and y is not None:
                out = []
                ok = True
                for i in range(w):
                    r = self.bitop(op, x[i], y[i])
                    if r is None:
                        ok = False
                        break
                    out.append(r)
                if ok:
                    return st.norm(from_bits(out))
            return A(Atom(op, (a, b), w))
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            n = st.cval(b)
            x = self.bits_of(st, a, w)
            if n is not None and x is not None:
                n %= w
                if op.startswith("Shl"):
                    return st.norm(from_bits(([0] * n + x)[:w]))
                return st.norm(from_bits(x[n:]))
            return A(Atom(op, (a, b), w))
        if op in ("Div", "Rem"):
            n = st.cval(b)
            m = st.cval(a)
            if n and m is not None and m >= 0 and n > 0:
                return K(m // n if op == "Div" else m % n)
            if n and n > 0:
                if n & (n - 1) == 0:
                    x = self.bits_of(st, a, w)
                    if x is not None:
                        s = n.bit_length() - 1
                        return st.norm(from_bits(x[s:] if op == "Div" else x[:s]))
                l, h = st.rng(a)
                if l >= 0:
                    return A(Atom(op, (a, b), w, 0, h // n if op == "Div" else min(h, n - 1)))
            return A(Atom(op, (a, b), w))
        raise Undecided("binop " + op)

    def mul(self, st, a, b, w):
        ca, cb = st.cval(a), st.cval(b)
        if ca is not None:
            return scale(b, ca)
        if cb is not None:
            return scale(a, cb)
        la, ha = st.rng(a)
        lb, hb = st.rng(b)
        xs = [la * lb, la * hb, ha * lb, ha * hb]
        return A(Atom("mul", tuple(sorted((a, b), key=lambda x: (x.c, tuple((q.id, k) for q, k in x.t)))), w * 2, min(xs), max(xs)))

    def c_xor(self, st, a, b):
        da, db = st.decide(a), st.decide(b)
        if da is not None:
            return c_not(b) if da else b
        if db is not None:
            return c_not(a) if db else a
        if a == b:
            return False
        if a == c_not(b):
            return True
        return c_or([c_and([a, c_not(b)]), c_and([c_not(a), b])])

    @staticmethod
    def bitneg(b):
        if not isinstance(b, tuple):
            return 1 - b
        if b[0] == "n":
            return (b[1], b[2])
        if b[0] == "c":
            return ("c", c_not(b[1]))
        if isinstance(b[0], Atom):
            return ("n", b[0], b[1])
        return None

    def bitop(self, op, x, y):
        if isinstance(x, tuple) and not isinstance(y, tuple):
            x, y = y, x
        if not isinstance(x, tuple):
            if op == "BitAnd":
                return y if x else 0
            if op == "BitOr":
                return 1 if x else y
            return self.bitneg(y) if x else y
        if x == y:
            return 0 if op == "BitXor" else x
        cx, cy = bit_cond(x), bit_cond(y)
        if op == "BitAnd":
            return ("c", c_and([cx, cy]))
        if op == "BitOr":
            return ("c", c_or([cx, cy]))
        return ("c", ("xor", cx, cy))

    # ---- pointers
    def ptr_add(self, st, a, n):
        if isinstance(a, AdtV) and a.f:
            return AdtV(a.ty, a.v, (self.ptr_add(st, a.f[0], n),) + a.f[1:])
        if not isinstance(a, RefV) or a.r is not None:
            raise Undecided("pointer arithmetic on %r" % (a,))
        if a.p and not isinstance(a.p[-1], int) and a.p[-1][0] == "i":
            return RefV(a.o, a.p[:-1] + (("i", add(a.p[-1][1], n)),))
        if st.cval(n) == 0:
            return a
        return RefV(a.o, a.p + (("i", n),))

    def ptr_eq(self, st, a, b):
        def split(x):
            if x.p and not isinstance(x.p[-1], int) and x.p[-1][0] == "i":
                return x.o, x.p[:-1], x.p[-1][1]
            return x.o, x.p, ZERO
        x, y = split(a), split(b)
        if x[:2] == y[:2]:
            return c_eq(x[2], y[2])
        return ("ptreq", a, b)

    # ------------------------------------------------------------------ casts
    def cast(self, fr, st, kind, v, sty, dty):
        p = self.p
        t = p.types[dty]
        if kind in ("IntToInt",):
            if isinstance(v, BoolV):
                v = b2i(v.c)
            if isinstance(v, Sym):
                s = p.types[v.ty]
                if s["k"] == "adt":
                    v = self.discr(st, v)
            if isinstance(v, AdtV):
                v = K(int(p.discr_of(v.ty, v.v)))
            if not isinstance(v, L):
                return self.mk_sym(("cast", v, p.tname(dty)), dty)
            lo, hi = p.int_rng(dty)
            l, h = st.rng(v)
            if lo <= l and h <= hi:
                return v
            c = st.cval(v)
            w = t.get("w", 32)
            if c is not None:
                return self.wrap(st, K(c), dty)
            sw = p.types[sty].get("w", 32)
            if l >= 0 and not t.get("s"):
                b = self.bits_of(st, v, max(sw, 128 if h >= (1 << sw) else sw))
                if b is not None:
                    return st.norm(from_bits(b[:w]))
            return A(Atom("trunc", (v, dty), w, lo, hi))
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            if isinstance(v, RefV):
                return self.ptr_cast(st, v, p.pointee(sty), p.pointee(dty))
            return v
        if kind.startswith("PointerCoercion") or kind.startswith("ptr:"):
            if "Unsize" in kind:
                e = p.pointee(dty)
                if e is not None and p.types[e]["k"] == "slice" and isinstance(v, RefV):
                    se = p.pointee(sty)
                    n = p.types[se].get("len") if se is not None else None
                    if n is None:
                        return self.slice_ref(st, v)
                    return RefV(v.o, v.p, (ZERO, K(n)))
                if p.types[dty]["k"] == "adt" and isinstance(v, RefV):
                    return v
                return v
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind:
                return v
            return v
        if kind in ("Transmute", "BoxDerefTransmute"):
            return self.transmute(st, v, sty, dty)
        if kind in ("PointerExposeAddress", "PointerExposeProvenance"):
            return self.mk_sym(("addr", v), dty)
        if kind in ("PointerWithExposedProvenance",):
            return RefV(("wild", v), ())
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            if isinstance(v, Sym) and kind == "FloatToFloat" and sty == dty:
                return v
            r = self.float_cast(st, kind, v, dty)
            if r is not None:
                return r
            return self.mk_sym(("cast", kind, v, p.tname(dty)), dty)
        return self.mk_sym(("cast", kind, v, p.tname(dty)), dty)

    def ptr_cast(self, st, v, se, de):
        """*S as *D: descend through offset-0 fields or strip them"""
        p = self.p
        if se == de or se is None or de is None:
            return v
        if v.r is not None:
            if p.types[de]["k"] in ("slice", "str") or p.types[de]["k"] == "adt":
                return v
            # slice -> element pointer
            return RefV(v.o, v.p + (("i", v.r[0]),))
        path = []
        cur = se
        for _ in range(8):
            if cur == de:
                return RefV(v.o, v.p + tuple(path))
            t = p.types[cur]
            if t["k"] == "array":
                path.append(("i", ZERO))
                cur = t["e"]
                continue
            if t["k"] == "adt" and t["ak"] in ("struct", "union") and t["vs"] and not p.is_vec(cur):
                fs = p.fields(cur, 0)
                offs = t["lay"]["f"] if t.get("lay") else None
                nxt = None
                for j, (n, f) in enumerate(fs):
                    o = offs[j] if isinstance(offs, list) else 0
                    if o == 0 and (p.size(f) or len(fs) == 1):
                        nxt = (j, f)
                        break
                if nxt is None:
                    break
                path.append(nxt[0])
                cur = nxt[1]
                continue
            break
        # inner -> outer: strip trailing zero fields
        if v.p and v.p[-1] == 0:
            return RefV(v.o, v.p[:-1])
        return v

    def transmute(self, st, v, sty, dty):
        p = self.p
        if sty == dty:
            return v
        s, d = p.types[sty], p.types[dty]
        if "pat" in (s["k"], d["k"]) and isinstance(v, L):
            return v
        if s["k"] == "float" and d["k"] == "int":
            if isinstance(v, Sym) and v.t[0] == "f":
                return v.t[1]
        if s["k"] == "int" and d["k"] == "float":
            return Sym(("f", v), dty)
        if s["k"] == "array" and d["k"] == "int":
            return self.bytes_to_int(st, v)
        if s["k"] == "int" and d["k"] == "array":
            return self.int_to_bytes(st, v, s["w"])
        if d["k"] in ("ref", "ptr") or d["k"] == "fnptr":
            return v
        if isinstance(v, RefV):
            return v
        if d["k"] == "adt" and d["ak"] == "struct" and len(p.fields(dty)) == 1 and not p.is_vec(dty):
            return AdtV(dty, 0, [self.transmute(st, v, sty, p.fields(dty)[0][1])])
        if s["k"] == "adt" and isinstance(v, AdtV) and len(v.f) == 1 and s["ak"] == "struct":
            return self.transmute(st, v.f[0], p.fields(sty)[0][1], dty)
        if s["k"] in ("bool", "int", "char") and d["k"] in ("int", "char") and isinstance(v, (L, BoolV)):
            return b2i(v.c) if isinstance(v, BoolV) else v
        if s["k"] == "int" and p.is_enum(dty) and isinstance(v, L):
            c = st.cval(v)
            if c is not None:
                for j, x in enumerate(d["vs"]):
                    if int(x["d"]) == c:
                        return AdtV(dty, j, [])
        if s["k"] == "array" and d["k"] == "array" and isinstance(v, SeqV):
            return v
        if isinstance(v, SeqV) and d["k"] == "adt":
            return v
        if isinstance(v, Sym) and d["k"] == "int" and p.tname(sty).endswith("::Nanoseconds"):
            return A(Atom("sym", (("nanos", v.t),), d["w"], 0, 999999999))
        return self.mk_sym(("transmute", v, p.tname(dty)), dty)

    def byte_bits(self, st, v):
        if isinstance(v, L):
            return self.bits_of(st, v, 8)
        return None

    def bytes_to_int(self, st, seq, big=False, n=None):
        n = n or st.cval(seq_len(seq))
        if n is None:
            raise Undecided("integer from bytes of unknown number")
        bs = [self.seq_get(st, seq, K(i)) for i in range(n)]
        if big:
            bs.reverse()
        bits = []
        for b in bs:
            x = self.byte_bits(st, b)
            if x is None:
                return A(Atom("int", (seq, big), 8 * n))
            bits += x
        return st.norm(from_bits(bits))

    def int_to_bytes(self, st, x, w, big=False):
        if not isinstance(x, L):
            return SeqV([("s", ("bytes", x), ZERO, K(w // 8))])
        l, h = st.rng(x)
        b = self.bits_of(st, x, w)
        if b is None:
            if l < 0 and x.const is not None:
                b = to_bits(K(x.c & ((1 << w) - 1)), w)
            else:
                return SeqV([("s", ("bytes", x, w, big), ZERO, K(w // 8))])
        out = [("e", st.norm(from_bits(b[i:i + 8]))) for i in range(0, w, 8)]
        if big:
            out.reverse()
        return mkseq(out)

    # ------------------------------------------------------------------ rvalues
    def discr(self, st, v):
        if isinstance(v, AdtV):
            t = self.p.types[v.ty]
            if t["k"] == "adt" and t["vs"]:
                return K(int(t["vs"][v.v]["d"]))
            return ZERO
        if isinstance(v, Sym):
            return A(self.discr_atom(v))
        raise Undecided("discriminant of %r" % (v,))

    def discr_atom(self, v):
        t = self.p.types[v.ty]
        ds = [int(x["d"]) for x in t["vs"]] or [0]
        return Atom("discr", (v.t,), 64, min(ds), max(ds))

    def rvalue(self, fr, st, rv, dty):
        k = rv[0]
        p = self.p
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k in ("ref", "addr"):
            pl = rv[1]
            o, path, r, ty, var = self.place(fr, st, pl)
            if r is None and p.types[ty]["k"] in ("slice", "str"):
                return self.slice_ref(st, RefV(o, path))
            return RefV(o, path, r)
        if k == "rep":
            n = rv[2]
            v = self.operand(fr, st, rv[1])
            return mkseq([("r", v, K(int(n)))])
        if k == "len":
            o, path, r, ty, var = self.place(fr, st, rv[1])
            if r is not None:
                return r[1]
            return seq_len(self.slice_of(st, RefV(o, path)))
        if k == "cast":
            return self.cast(fr, st, rv[1], self.operand(fr, st, rv[2]), self.opty(fr, rv[2]), rv[3])
        if k == "bin":
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            return self.binop(fr, st, rv[1], a, b, dty)
        if k == "cbin":
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            fs = p.fields(dty)
            ity = fs[0][1]
            op = rv[1]
            if isinstance(a, L) and isinstance(b, L):
                w = p.types[ity]["w"]
                x = join_bits(add(a, b), w) if op == "Add" else sub(a, b) if op == "Sub" else self.mul(st, a, b, w)
                lo, hi = p.int_rng(ity)
                ov = c_or([c_not(c_le(K(lo), x)), c_not(c_le(x, K(hi)))])
                d = st.decide(ov)
                return AdtV(dty, 0, [x, BoolV(ov if d is None else d)])
            return AdtV(dty, 0, [self.mk_sym(("op", op, a, b), ity), BoolV(("ovf", op, a, b))])
        if k == "un":
            op = rv[1]
            v = self.operand(fr, st, rv[2])
            if op == "Not":
                if isinstance(v, BoolV):
                    return BoolV(c_not(v.c))
                w = p.types[dty]["w"]
                b = self.bits_of(st, v, w)
                if b is not None:
                    nb = [self.bitneg(x) for x in b]
                    if all(x is not None for x in nb):
                        return from_bits(nb)
                return A(Atom("not", (v,), w))
            if op == "Neg":
                if isinstance(v, L):
                    return self.wrap(st, neg(v), dty)
                return self.mk_sym(("neg", v), dty)
            if op == "PtrMetadata":
                if isinstance(v, RefV):
                    if v.r is not None:
                        return v.r[1]
                    if p.types[dty]["k"] == "int":
                        return seq_len(self.slice_of(st, v))
                    return AdtV(dty, 0, [])
                return self.mk_sym(("meta", v), dty)
        if k == "discr":
            return self.discr(st, self.read_place(fr, st, rv[1]))
        if k == "agg":
            kind = rv[1]
            vals = [self.operand(fr, st, x) for x in rv[2]]
            if kind[0] == "array":
                return mkseq([("e", v) for v in vals])
            if kind[0] in ("tuple",):
                return AdtV(dty, 0, vals)
            if kind[0] == "adt":
                ty, v, fi = kind[1], kind[2], kind[3]
                if fi is not None:
                    return Sym(("unionv", vals[0]), ty)
                if self.p.is_vec(ty) and len(vals) == 1 and isinstance(vals[0], VecV):
                    return vals[0]
                return AdtV(ty, v, vals)
            if kind[0] == "closure":
                return AdtV(kind[1], 0, vals)
            if kind[0] == "rawptr":
                a, m = vals[0], vals[1]
                if isinstance(a, RefV):
                    if isinstance(m, L):
                        if a.r is not None:
                            return RefV(a.o, a.p, (a.r[0], m))
                        if a.p and not isinstance(a.p[-1], int) and a.p[-1][0] == "i":
                            return RefV(a.o, a.p[:-1], (a.p[-1][1], m))
                        return RefV(a.o, a.p, (ZERO, m))
                    return a
                raise Undecided("raw pointer aggregate %r" % (vals,))
        raise Undecided("rvalue %r" % (rv[:2],))

    # ------------------------------------------------------------------ panics / unknowns
    def stack(self, fr):
        out = []
        while fr is not None:
            out.append((fr.fn["nd"], self.p.site(fr.key, fr.bb), fr.fn["crate"]))
            fr = fr.parent
        return out

    def panic(self, fr, st, why):
        stk = self.stack(fr)
        self.panics.append({"why": why, "stack": stk, "st": st.copy(), "ctx": self.ctx})

    def note_unknown(self, fr, name):
        key = self.p.nd(name)
        if key not in self.unknown:
            self.unknown[key] = self.stack(fr)[:4]

    # ------------------------------------------------------------------ forking
    def fork(self, st, c):
        d = st.decide(c)
        if d is True:
            return st, None
        if d is False:
            return None, st
        self.nforks += 1
        t = st.copy()
        f = st.copy()
        if not t.assume(c):
            t = None
        if not f.assume(c_not(c)):
            f = None
        return t, f

    # ------------------------------------------------------------------ calls
    def call(self, fr, st, callee, args, dty, argtys=None):
        """-> list of (val, st).  callee = (defname, gargs, resolved)"""
        if not self.track_err:
            return self.call0(fr, st, callee, args, dty, argtys)
        outs = self.call0(fr, st, callee, args, dty, argtys)
        name = self.p.nd(callee[2][1]) if callee[2] else self.p.nd(callee[0])
        here = fr.fn["nd"] if fr is not None else ""
        res = []
        for v, s in outs:
            e = v.f[0] if isinstance(v, AdtV) and v.f and self.p.is_enum(v.ty) and self.p.vname(v.ty, v.v) == "Err" else None
            t = None
            if isinstance(e, Sym) and isinstance(e.t, tuple) and e.t and e.t[0] in DEPERR:
                t = e
            elif isinstance(e, AdtV) and (self.p.adt_def(e.ty) or "") == "noiseexplorer_nx::error::NoiseError" and "noiseexplorer_nx::" in name and "noiseexplorer_nx::" not in here:
                t = e
            if t is not None and ("deperr", t) not in s.ev:
                s = s.copy()
                s.ev = s.ev + (("deperr", t),)
            res.append((v, s))
        return res

    def call0(self, fr, st, callee, args, dty, argtys=None):
        defname, gargs, res = callee
        rdef = self.p.nd(res[1]) if res else self.p.nd(defname)
        key = res[2] if res else None
        self.calls_seen.add(rdef)
        if defname in FNCALL and gargs and len(args) == 2 and isinstance(args[1], AdtV):
            # a fn item called through its function type
            g = gargs[0]
            while isinstance(g, int) and self.p.types[g]["k"] == "ref":
                g = self.p.types[g]["e"]
            t = self.p.types[g] if isinstance(g, int) else {"k": None}
            if t["k"] == "fndef":
                return self.call(fr, st, (t["def"], t["args"], t.get("inst")), list(args[1].f), dty)
            if t["k"] == "fnptr":
                return self.call_value(fr, st, args[0], list(args[1].f), dty=dty)
        m = self.models.lookup(rdef, self.p.nd(defname))
        if m is not None:
            r = m(self, fr, st, args, Call(self, rdef, self.p.nd(defname), gargs, key, dty, argtys))
            if r is not NotImplemented:
                return r
        if key is not None and key in self.p.fns:
            fn = self.p.fns[key]
            if defname in FNCALL and fn["nd"].rsplit("::", 1)[-1].startswith("{closure") and len(args) == 2 and isinstance(args[1], AdtV) \
               and self.p.types[args[1].ty]["k"] == "tuple" and fn["argc"] == 1 + len(args[1].f):
                # the arguments of a closure call arrive as one tuple
                args = [args[0]] + list(args[1].f)
                if self.p.types[fn["locals"][1]]["k"] == "ref" and not isinstance(args[0], RefV):
                    st = st.copy()
                    args[0] = RefV(self.new_heap(st, args[0]))
            elif fn["argc"] != len(args) and args and isinstance(args[-1], AdtV) and ("call_once" in rdef or "call_mut" in rdef or "::call" in rdef or "{closure" in fn["nd"] or "call" in self.p.nd(defname)):
                args = list(args[:-1]) + list(args[-1].f)
                if fn["argc"] == len(args) - 1:
                    args = args[1:]
            return self.exec_fn(key, args, st, fr)
        t = self.p.types[dty] if dty is not None else {"k": None}
        if t["k"] == "adt" and not self.p.is_vec(dty):
            # a constructor used as a function
            d = self.p.nd(t["def"])
            for j, v in enumerate(t["vs"]):
                full = d + "::" + v["n"] if t["ak"] == "enum" else d
                if (rdef == full or rdef == d + "::{constructor#0}") and len(v["fs"]) == len(args) and t["ak"] != "union":
                    return [(AdtV(dty, j, list(args)), st)]
        return self.opaque(fr, st, rdef, args, dty, argtys)

    def opaque(self, fr, st, name, args, dty, argtys=None):
        self.note_unknown(fr, name)
        st = st.copy()
        st.n += 1
        tag = ("call", name, st.n)
        for j, a in enumerate(args):
            if isinstance(a, RefV) and argtys and argtys[j] is not None:
                t = self.p.types[argtys[j]]
                if t["k"] in ("ref", "ptr") and t.get("m"):
                    try:
                        if a.r is not None:
                            self.write_range(st, a, SeqV([("s", tag + ("mut", j), ZERO, a.r[1])]))
                        else:
                            self.store(st, a, self.mk_sym(tag + ("mut", j), t["e"]))
                    except Undecided:
                        pass
        return [(self.mk_sym(tag, dty), st)]

    def call_key(self, fr, st, key, args, dty=None):
        fn = self.p.fns.get(key)
        if fn is None:
            d = self.p.nobody.get(key)
            return self.call(fr, st, (d[0] if d else key, [], ["item", d[0] if d else key, key]), args, dty)
        return self.call(fr, st, (fn["def"], fn["args"], ["item", fn["def"], key]), args, fn["locals"][0], None)

    def call_value(self, fr, st, f, args, mode="call_mut", dty=None):
        """call a closure / fn item value with untupled args.  f: value or RefV to it"""
        fv = f
        while isinstance(fv, RefV):
            fv = self.deref(st, fv)
        if isinstance(fv, FnV) and isinstance(fv.key, (list, tuple)):
            return self.call(fr, st, (fv.key[1], [], list(fv.key)), args, dty)
        if isinstance(fv, FnV):
            return self.call_key(fr, st, fv.key, args, dty)
        if isinstance(fv, AdtV) and self.p.types[fv.ty]["k"] == "closure":
            key = self.closure_key(fv.ty)
            fn = self.p.fns[key]
            ety = fn["locals"][1]
            if self.p.types[ety]["k"] == "ref":
                if isinstance(f, RefV):
                    while True:
                        w = self.deref(st, f)
                        if isinstance(w, RefV):
                            f = w
                        else:
                            break
                    env = f
                    return self.exec_fn(key, [env] + list(args), st, fr)
                st = st.copy()
                o = self.new_heap(st, fv)
                out = self.exec_fn(key, [RefV(o)] + list(args), st, fr)
                for _, s in out:
                    s.objs.pop(o, None)
                return out
            return self.exec_fn(key, [fv] + list(args), st, fr)
        if isinstance(fv, AdtV) or isinstance(fv, Sym):
            # fn item adt? constructor shims
            pass
        raise Undecided("call of %r" % (fv,))

    def closure_key(self, ty):
        if self.closure_keys is None:
            self.closure_keys = {}
            for key, fn in self.p.fns.items():
                if fn["argc"] >= 1 and "{closure" in fn["nd"]:
                    l1 = fn["locals"][1]
                    t = self.p.types[l1]
                    if t["k"] == "ref":
                        l1 = t["e"]
                    if self.p.types[l1]["k"] == "closure":
                        self.closure_keys.setdefault(l1, key)
        k = self.closure_keys.get(ty)
        if k is None:
            raise Undecided("closure body of %s" % self.p.tname(ty))
        return k

    def gone(self, fr, st, i):
        """record what a watched value held when its storage ended"""
        if self.p.adt_def(fr.fn["locals"][i]) in self.watch:
            v = st.objs.get((fr.d, i))
            if v is not None and v is not UNINIT:
                st.ev = st.ev + (("gone", v),)
                st.objs[(fr.d, i)] = UNINIT

    # ------------------------------------------------------------------ function execution
    def exec_fn(self, key, args, st, parent):
        fn = self.p.fns[key]
        d = parent.d + 1 if parent is not None else 1
        if d > 120:
            raise Undecided("call depth")
        if fn["crate"] in REPO_CRATES:
            self.fns_seen.add(fn["nd"])
        fr = Frame(key, fn, d, parent)
        self.nframe += 1
        fr.uid = self.nframe
        st = st.copy()
        if fn["argc"] != len(args):
            raise Undecided("arity of %s: %d vs %d" % (fn["nd"], fn["argc"], len(args)))
        for i, a in enumerate(args):
            st.objs[(d, i + 1)] = a
        num, preds, heads = self.p.rpo(key)
        pend = {0: [st]}
        visits = {}
        rets = []
        widened = {}
        while pend:
            bb = min(pend, key=lambda b: num[b])
            sts = pend.pop(bb)
            if len(sts) > 1:
                sts = self.merge(sts)
            if bb in heads:
                if ACCEL and bb not in visits and len(sts) == 1:
                    fr.bb = bb
                    r = accelerate(self, fr, bb, sts[0], heads)
                    if r is not None:
                        for nb, ns in r:
                            if nb == "ret":
                                rets.append(ns)
                            else:
                                pend.setdefault(nb, []).append(ns)
                        continue
                visits[bb] = visits.get(bb, 0) + 1
                n = visits[bb]
                fr.bb = bb
                if (n > SYMLOOP and bb in fr.symloop) or (n > CUTLOOP and bb in fr.cutloop) or n > UNROLL:
                    sts = self.widen(fr, bb, sts, widened)
                    if not sts:
                        continue
            if len(sts) > BLOCKCAP:
                sts = self.force_join(fr, bb, sts)
            for s in sts:
                fr.bb = bb
                for nb, ns in self.exec_block(fr, s, bb, heads):
                    if nb == "ret":
                        rets.append(ns)
                    else:
                        if (nb in heads) and num[nb] <= num[bb] and False:
                            pass
                        pend.setdefault(nb, []).append(ns)
        out = []
        for s in rets:
            if self.watch:
                for i in range(1, len(fn["locals"])):
                    self.gone(fr, s, i)
            v = s.objs.get((d, 0))
            if v is None:
                v = self.zst(fn["locals"][0])
                if v is None:
                    v = UNINIT
            for k in [k for k in s.objs if k[0] == d]:
                del s.objs[k]
            out.append((v, s))
        return self.merge_outcomes(out)

    def merge_outcomes(self, out):
        if len(out) <= 1:
            return out
        groups = {}
        for v, s in out:
            k = (v, frozenset(s.objs.items()), s.ev, s.n)
            if PRECISE[0]:
                k = (k, frozenset(s.iv.items()), frozenset(s.ge), frozenset(s.truth.items()), frozenset(s.ne.items()), frozenset(s.bits.items()))
            groups.setdefault(k, []).append((v, s))
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
            else:
                self.njoins += 1
                res.append((g[0][0], join_facts([s for _, s in g])))
        return res

    def merge(self, sts):
        groups = {}
        for s in sts:
            k = (frozenset(s.objs.items()), s.ev, s.n)
            if PRECISE[0]:
                k = (k, frozenset(s.iv.items()), frozenset(s.ge), frozenset(s.truth.items()), frozenset(s.ne.items()), frozenset(s.bits.items()))
            groups.setdefault(k, []).append(s)
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
            else:
                self.njoins += 1
                res.append(join_facts(g))
        return res

    def force_join(self, fr, bb, sts):
        """too many traces: join all states (per event list) into one"""
        for depth in (3, 1, 0):
            groups = {}
            for s in sts:
                k = (s.ev, frozenset((o, shape(v, depth)) for o, v in s.objs.items()) if depth else None)
                groups.setdefault(k, []).append(s)
            if len(groups) <= 24:
                break
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            self.njoins += 1
            j = join_facts(g)
            keys = set(g[0].objs)
            for s in g[1:]:
                keys &= set(s.objs)
            j.n = max(s.n for s in g)
            objs = {}
            for k in keys:
                vs = [s.objs[k] for s in g]
                objs[k] = self.phi(vs, ("join", fr.fn["nd"], bb, k, self.njoins), j, g)
            j.objs = objs
            out.append(j)
        return out

    def phi(self, vs, tag, j=None, sts=None):
        v0 = vs[0]
        if all(v == v0 for v in vs[1:]):
            return v0
        if all(isinstance(v, AdtV) and v.ty == v0.ty and v.v == v0.v for v in vs) and isinstance(v0, AdtV):
            return AdtV(v0.ty, v0.v, [self.phi([v.f[i] for v in vs], tag + (i,), j, sts) for i in range(len(v0.f))])
        if all(isinstance(v, L) for v in vs):
            a = Atom("phi", (tag,), 128)
            if sts is not None and j is not None:
                rs = [s.rng(v) for s, v in zip(sts, vs)]
                lo, hi = min(x for x, _ in rs), max(x for _, x in rs)
                if lo >= 0 and hi < (1 << 128):
                    j.assume(c_le(K(lo), A(a)))
                    j.assume(c_le(A(a), K(hi)))
            return A(a)
        if all(isinstance(v, BoolV) for v in vs):
            return BoolV(("bit", Atom("phi", (tag,), 1), 0))
        if all(isinstance(v, SeqV) for v in vs):
            n = seq_len(v0)
            if all(seq_len(v) == n for v in vs):
                return SeqV([("s", ("phi", tag), ZERO, n)])
            return SeqV([("s", ("phi", tag), ZERO, symlen(("phi", tag), 0, (1 << 63) - 1))])
        if all(isinstance(v, VecV) for v in vs):
            return VecV(self.phi([v.seq for v in vs], tag, j))
        if all(isinstance(v, (AdtV, Sym)) and v.ty == v0.ty for v in vs):
            return Sym(("phi", tag), v0.ty)
        if all(isinstance(v, RefV) and v.o == v0.o and v.p == v0.p and v.r is not None for v in vs):
            return RefV(v0.o, v0.p, (self.phi([v.r[0] for v in vs], tag + ("o",), j), self.phi([v.r[1] for v in vs], tag + ("l",), j)))
        if all(isinstance(v, ItV) and v.k == v0.k and len(v.a) == len(v0.a) for v in vs):
            return ItV(v0.k, *[self.phi([v.a[i] for v in vs], tag + (i,), j) if isinstance(v0.a[i], (V, L)) else v0.a[i] for i in range(len(v0.a))])
        return UNINIT

    def widen(self, fr, bb, sts, widened):
        """loop header of an undecided loop: join with what was seen, phi what differs"""
        self.nwiden += 1
        out = []
        prev = widened.get(bb)
        allst = ([prev] if prev is not None else []) + sts
        j = join_facts(allst)
        keys = set(allst[0].objs)
        for s in allst[1:]:
            keys &= set(s.objs)
        j.objs = {k: self.phi([s.objs[k] for s in allst], ("loop", fr.fn["nd"], bb, fr.uid, k), j) for k in keys}
        j.ev = allst[0].ev
        if any(s.ev != j.ev for s in allst):
            n = 0
            while all(len(s.ev) > n and s.ev[n] == allst[0].ev[n] for s in allst):
                n += 1
            j.ev = allst[0].ev[:n] + (("loop-events", fr.fn["nd"], bb),)
        j.n = allst[0].n if prev is not None else max(s.n for s in allst)
        # drop facts that mention phi atoms of this loop (they may not be inductive)
        def mine(a):
            return a.op == "phi" and a.args[0][:4] == ("loop", fr.fn["nd"], bb, fr.uid)
        # bounds on phi atoms: keep only those holding in every incoming state, widening unstable ones
        for a in list(j.iv):
            if mine(a):
                del j.iv[a]
        j.ge = tuple(g for g in j.ge if not any(mine(a) for a, _ in g.t))
        # phi ranges: the hull of incoming values for integers compared by type bound only
        if prev is not None and j.objs == prev.objs and j.ev == prev.ev:
            return []
        widened[bb] = j
        return [j]

    def exec_block(self, fr, st, bb, heads):
        """-> list of (next block | 'ret', state)"""
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided("step budget")
        b = fr.fn["blocks"][bb]
        st = st.copy()
        for s in b["s"]:
            k = s[0]
            if k == "=":
                pl = s[1]
                if not pl[1]:
                    dty = fr.fn["locals"][pl[0]]
                    st.objs[(fr.d, pl[0])] = self.rvalue(fr, st, s[2], dty)
                else:
                    dty = self.place_ty(fr, st, pl)
                    v = self.rvalue(fr, st, s[2], dty)
                    self.assign(fr, st, pl, v)
            elif k == "dead":
                if self.watch:
                    self.gone(fr, st, s[1])
                st.objs.pop((fr.d, s[1]), None)
            elif k == "sd":
                o, path, r, ty, var = self.place(fr, st, s[1])
                old = self.read(st, o, path) if (path or o in st.objs) else UNINIT
                n = len(self.p.fields(ty, s[2]))
                f = list(old.f) if isinstance(old, AdtV) and len(old.f) == n else [UNINIT] * n
                self.write(st, o, path, AdtV(ty, s[2], f))
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            v = self.operand(fr, st, t[1])
            out = []
            cur = st
            und = False
            targets = []
            for val, tb in t[2]:
                if cur is None:
                    break
                val = int(val)
                if isinstance(v, BoolV):
                    c = v.c if val else c_not(v.c)
                elif isinstance(v, L):
                    lo, hi = 0, 0
                    vv = val
                    ty = self.opty(fr, t[1])
                    tt = self.p.types[ty]
                    if tt["k"] == "int" and tt.get("s") and vv >> (tt["w"] - 1):
                        vv -= 1 << tt["w"]
                    c = c_eq(v, K(vv))
                else:
                    c = ("sw", v, val)
                if cur.decide(c) is None:
                    und = True
                a, cur = self.fork(cur, c)
                if a is not None:
                    out.append((tb, a))
            if cur is not None:
                ob = t[3]
                if fr.fn["blocks"][ob]["t"][0] != "unreach" or fr.fn["blocks"][ob]["s"]:
                    out.append((ob, cur))
            if und:
                # a loop left or continued on an undecided condition
                for h in heads:
                    if h not in fr.cutloop:
                        body = natural_loop(self.p, fr.key, h)
                        if fr.bb in body and any(x not in body for x, _ in out):
                            fr.cutloop.add(h)
            return out
        if k == "assert":
            c = self.operand(fr, st, t[1])
            cond = c.c if t[2] else c_not(c.c)
            self.nasserts += 1
            a, f = self.fork(st, cond)
            if f is not None:
                self.panic(fr, f, "assert:" + "/".join(str(x) for x in (t[3] if isinstance(t[3], list) else [t[3]]) if isinstance(x, (str, int))))
            if a is not None and isinstance(t[3], list) and t[3] and t[3][0] == "bounds":
                alts = self.elem_alts_at(fr, a, t[4])
                if alts:
                    return [(t[4], x) for x in alts]
            return [(t[4], a)] if a is not None else []
        if k == "unreach":
            return []
        if k == "drop":
            return self.do_drop(fr, st, t)
        if k == "call":
            return self.do_call(fr, st, t)
        if k in ("resume", "abort"):
            return []
        raise Undecided("terminator " + k)

    def assign(self, fr, st, pl, v):
        o, path, r, ty, var = self.place(fr, st, pl)
        if r is not None:
            raise Undecided("assignment to unsized place")
        if path and o not in st.objs and o[0] == fr.d:
            # field-wise initialisation of a local
            st.objs[o] = self.blank(fr.fn["locals"][o[1]])
        self.write(st, o, path, v)

    def blank(self, ty):
        t = self.p.types[ty]
        if t["k"] in ("tuple", "closure") or (t["k"] == "adt" and t["ak"] == "struct" and not self.p.is_vec(ty)):
            return AdtV(ty, 0, [self.blank(f) for _, f in self.p.fields(ty)])
        if t["k"] == "array":
            return mkseq([("r", UNINIT, K(t["len"]))])
        if t["k"] == "adt" and t["ak"] == "union":
            return Sym(("uninit-union", ty), ty)
        return UNINIT

    def do_drop(self, fr, st, t):
        pl, glue, target = t[1], t[2], t[3]
        if glue and self.p.glue_matters(glue):
            o, path, r, ty, var = self.place(fr, st, pl)
            if not (o in st.objs or path or o[0] != fr.d):
                return [(target, st)]
            v = self.read(st, o, path, r)
            d = self.p.adt_def(ty)
            if d == "std::sync::MutexGuard":
                st = st.copy()
                st.ev = st.ev + (("unlock", self.guard_lock(v)),)
                return [(target, st)]
            if glue in self.p.fns:
                outs = self.exec_fn(glue, [RefV(o, path, r)], st, fr)
                return [(target, s) for _, s in outs]
        if not pl[1]:
            # the value is gone
            pass
        return [(target, st)]

    def guard_lock(self, v):
        w = v
        while isinstance(w, AdtV) and w.f:
            w = w.f[0]
        return w

    def do_call(self, fr, st, t):
        _, callee, aops, dest, target, _unw = t
        args = [self.operand(fr, st, a) for a in aops]
        argtys = [self.opty(fr, a) for a in aops]
        dty = self.place_ty(fr, st, dest)
        if callee[0] == "dyn":
            f = self.operand(fr, st, callee[1])
            if isinstance(f, FnV):
                outs = self.call_value(fr, st, f, args, dty=dty)
            else:
                outs = self.opaque(fr, st, "dyn", args, dty, argtys)
        else:
            outs = self.call(fr, st, (callee[1], callee[2], callee[3]), args, dty, argtys)
        if target is None:
            if callee[0] == "fn":
                nm = self.p.nd(callee[3][1] if callee[3] else callee[1])
                for _, s in outs:
                    self.panic(fr, s, "diverges:" + nm)
            return []
        res = []
        for v, s in outs:
            s = s.copy()
            if not dest[1]:
                s.objs[(fr.d, dest[0])] = v
            else:
                self.assign(fr, s, dest, v)
            res.append((target, s))
        return res


class Call:
    __slots__ = ("I", "name", "tname", "gargs", "key", "dty", "argtys")

    def __init__(self, I, name, tname, gargs, key, dty, argtys):
        self.I, self.name, self.tname, self.gargs, self.key, self.dty, self.argtys = I, name, tname, gargs, key, dty, argtys


def hull(s, a, lo, hi):
    """the bounds lo..hi of a, widened to hold in s as well"""
    l2, h2 = s.arng(a)
    if l2 < lo and not (s.ge and s.ge0(sub(A(a), K(lo))) is True):
        lo = l2
    if h2 > hi and not (s.ge and s.ge0(sub(K(hi), A(a))) is True):
        hi = h2
    return lo, hi


def join_facts(sts):
    """a state with the facts common to all (objects/events of the first)"""
    r = sts[0].copy()
    for s in sts[1:]:
        iv = {}
        for a, (lo, hi) in r.iv.items():
            lo, hi = hull(s, a, lo, hi)
            if (lo, hi) != (a.lo, a.hi):
                iv[a] = (lo, hi)
        for a, (lo, hi) in s.iv.items():
            if a not in iv:
                lo, hi = hull(r, a, lo, hi)
                if (lo, hi) != (a.lo, a.hi):
                    iv[a] = (lo, hi)
        ne = {}
        for a, x in r.ne.items():
            lo, hi = s.arng(a)
            y = frozenset(k for k in x if k in s.ne.get(a, ()) or k < lo or k > hi)
            if y:
                ne[a] = y
        for a, x in s.ne.items():
            lo, hi = r.arng(a)
            y = frozenset(k for k in x if k < lo or k > hi)
            if y:
                ne[a] = ne.get(a, frozenset()) | y
        bits = {k: v for k, v in r.bits.items() if s.bits.get(k) == v}
        truth = {k: v for k, v in r.truth.items() if s.truth.get(k) == v}
        ge = [g for g in r.ge if g in s.ge or s.ge0(g) is True]
        for g in s.ge:
            if g not in ge and r.ge0(g) is True:
                ge.append(g)
        r = r.copy()
        r.iv, r.ne, r.bits, r.truth, r.ge = iv, ne, bits, truth, tuple(ge)
    return r
