"""Models of standard-library and dependency functions (the trusted base of the analysis).

Everything not listed here is analysed through its MIR when the extractor has a body for it; a call to
a function with neither a model nor a body is recorded as unknown and its result is unconstrained."""
import re

from .dom import *
from .interp import Undecided

EXACT = {}
REGEX = []


def M(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def R(*pats):
    def deco(f):
        for n in pats:
            REGEX.append((re.compile(n), f))
        return f
    return deco


class Models:
    def __init__(self):
        self.cache = {}

    def lookup(self, rdef, tdef):
        k = (rdef, tdef)
        if k in self.cache:
            return self.cache[k]
        m = EXACT.get(rdef)
        if m is None and not rdef.lstrip("<&").startswith(("stratumv2::", "noiseexplorer_nx::")):
            for r, f in REGEX:
                if r.search(rdef):
                    m = f
                    break
        self.cache[k] = m
        return m


# ---------------------------------------------------------------------------------- helpers
def unit(I, dty):
    return AdtV(dty, 0, [])


def mkvar(I, ty, name, *vals):
    v = I.p.variant(ty, name)
    if v is None:
        raise Undecided("variant %s of %s" % (name, I.p.tname(ty)))
    return AdtV(ty, v, vals)


def fty(I, ty, name, i=0):
    v = I.p.variant(ty, name)
    return I.p.fields(ty, v)[i][1]


def some(I, ty, v):
    return mkvar(I, ty, "Some", v)


def none(I, ty):
    return mkvar(I, ty, "None")


def ok(I, ty, v):
    return mkvar(I, ty, "Ok", v)


def err(I, ty, v):
    return mkvar(I, ty, "Err", v)


def bump(st):
    st = st.copy()
    st.n += 1
    return st


def asref(I, st, v):
    """strip references to references / wrappers down to a RefV on a sequence holder"""
    while isinstance(v, RefV) and v.r is None:
        w = I.deref(st, v)
        if isinstance(w, RefV):
            v = w
            continue
        break
    return v


def sref(I, st, v):
    v = asref(I, st, v)
    if isinstance(v, RefV):
        return I.slice_ref(st, v)
    raise Undecided("slice reference expected: %r" % (v,))


def seqof(I, st, v):
    """contents of a sequence given by value or reference"""
    while True:
        if isinstance(v, SeqV):
            return v
        if isinstance(v, VecV):
            return v.seq
        if isinstance(v, RefV):
            v = I.deref(st, v)
            continue
        if isinstance(v, AdtV) and len(v.f) == 1:
            v = v.f[0]
            continue
        raise Undecided("sequence expected: %r" % (v,))


def idx_range(I, st, ix, n):
    """(lo, hi, extra) of an index argument against length n; None if not a range"""
    if isinstance(ix, AdtV):
        d = I.p.adt_def(ix.ty) or ""
        d = d.split("::")[-1]
        f = ix.f
        if d == "Range":
            return f[0], f[1]
        if d == "RangeTo":
            return ZERO, f[0]
        if d == "RangeFrom":
            return f[0], n
        if d == "RangeFull":
            return ZERO, n
        if d == "RangeInclusive":
            return f[0], add(f[1], ONE)
        if d == "RangeToInclusive":
            return ZERO, add(f[0], ONE)
    return None


def fixlen(st, q):
    """the same sequence with known segment lengths written as constants"""
    out = []
    for s in q.s:
        n = st.cval(s[3]) if s[0] == "s" else st.cval(s[2]) if s[0] == "r" else None
        out.append(s if n is None else s[:-1] + (K(n),))
    return mkseq(out)


def seqeq(I, st, a, b):
    """condition: two sequences are equal"""
    if a == b:
        return True
    la, lb = seq_len(a), seq_len(b)
    c = c_eq(la, lb)
    d = st.decide(c)
    if d is False:
        return False
    n = st.cval(la) if d else None
    if n is None:
        n2 = st.cval(la)
        n3 = st.cval(lb)
        if n2 is not None and n3 is not None and n2 != n3:
            return False
    if n is not None and n <= 4096:
        ea = [I.seq_get(st, a, K(i)) for i in range(n)]
        eb = [I.seq_get(st, b, K(i)) for i in range(n)]
        same = True
        for x, y in zip(ea, eb):
            if isinstance(x, L) and isinstance(y, L):
                q = st.decide(c_eq(x, y))
                if q is False:
                    return False
                if q is not True:
                    same = False
            elif x != y:
                same = False
        if same:
            return True
    x, y = sorted((fixlen(st, a), fixlen(st, b)), key=lambda s: s.id)
    core = ("seqeq", x, y)
    if d is True:
        return core
    return c_and([c, core])


def iter_of(I, st, v):
    return v


# ---------------------------------------------------------------------------------- slices
@M("std::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "std::string::String::len", "std::str::<impl str>::len")
def m_len(I, fr, st, a, c):
    r = sref(I, st, a[0])
    return [(r.r[1], st)]


@M("std::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty", "std::string::String::is_empty", "std::str::<impl str>::is_empty")
def m_is_empty(I, fr, st, a, c):
    r = sref(I, st, a[0])
    return [(BoolV(c_eq(r.r[1], ZERO)), st)]


@M("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::string::String::as_bytes", "std::string::String::as_str",
   "std::str::<impl str>::as_bytes", "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
   "<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::ops::DerefMut>::deref_mut",
   "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut",
   "<std::string::String as std::convert::AsRef<[u8]>>::as_ref", "<std::string::String as std::convert::AsRef<str>>::as_ref",
   "<str as std::convert::AsRef<[u8]>>::as_ref", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow", "std::str::converts::from_utf8_unchecked",
   "std::str::from_utf8_unchecked", "std::array::<impl [T; N]>::as_slice", "std::array::<impl [T; N]>::as_mut_slice",
   "std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref", "std::array::<impl std::convert::AsMut<[T]> for [T; N]>::as_mut",
   "<std::string::String as std::borrow::Borrow<str>>::borrow", "std::array::<impl std::borrow::Borrow<[T]> for [T; N]>::borrow",
   "std::slice::<impl [T]>::as_mut_slice", "std::slice::<impl [T]>::as_slice", "std::str::<impl str>::as_str")
def m_as_slice(I, fr, st, a, c):
    return [(sref(I, st, a[0]), st)]


@M("std::slice::<impl [T]>::as_ptr", "std::slice::<impl [T]>::as_mut_ptr", "std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr")
def m_as_ptr(I, fr, st, a, c):
    r = sref(I, st, a[0])
    return [(RefV(r.o, r.p + (("i", r.r[0]),)), st)]


def do_index(I, fr, st, ref, ix, c, checked):
    """-> list of (RefV or None, st); None = out of bounds"""
    r = sref(I, st, ref)
    n = r.r[1]
    if isinstance(ix, L):
        cond = c_lt(ix, n)
        t, f = I.fork(st, cond)
        out = []
        alts = I.elem_alts(t, r.o, r.p, r.r[0], ix) if t is not None else None
        if alts:
            for k, u in alts:
                out.append((RefV(r.o, r.p + (("i", k),)), u))
        elif t is not None:
            out.append((RefV(r.o, r.p + (("i", add(r.r[0], ix)),)), t))
        if f is not None:
            out.append((None, f))
        return out
    lh = idx_range(I, st, ix, n)
    if lh is None:
        raise Undecided("index by %r" % (ix,))
    lo, hi = lh
    cond = c_and([c_le(lo, hi), c_le(hi, n)])
    t, f = I.fork(st, cond)
    out = []
    if t is not None:
        t.assume(c_le(lo, hi))
        t.assume(c_le(hi, n))
        out.append((RefV(r.o, r.p, (add(r.r[0], lo), sub(hi, lo))), t))
    if f is not None:
        out.append((None, f))
    return out


@M("std::slice::index::<impl std::ops::Index<I> for [T]>::index", "std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
   "std::array::<impl std::ops::Index<I> for [T; N]>::index", "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut",
   "<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut")
def m_index(I, fr, st, a, c):
    out = []
    for r, s in do_index(I, fr, st, a[0], a[1], c, True):
        if r is None:
            I.panic(fr, s, "index out of bounds")
        else:
            out.append((r, s))
    return out


@R(r"^<std::ops::Range\w*(<usize>)? as std::slice::SliceIndex<\[T\]>>::index(_mut)?$", r"^<usize as std::slice::SliceIndex<\[T\]>>::index(_mut)?$")
def m_sliceindex(I, fr, st, a, c):
    return m_index(I, fr, st, [a[1], a[0]], c)


@R(r"^<std::ops::Range\w*(<usize>)? as std::slice::SliceIndex<\[T\]>>::get(_mut)?$", r"^<usize as std::slice::SliceIndex<\[T\]>>::get(_mut)?$")
def m_sliceget(I, fr, st, a, c):
    return m_get(I, fr, st, [a[1], a[0]], c)


@R(r"<impl std::ops::Index(Mut)?<I> for str>::index(_mut)?$", r"^<std::string::String as std::ops::Index(Mut)?<.*>>::index(_mut)?$")
def m_str_index(I, fr, st, a, c):
    out = []
    for r, s in do_index(I, fr, st, a[0], a[1], c, True):
        if r is None:
            I.panic(fr, s, "str index out of bounds")
            continue
        full = r.r[0] == ZERO and r.r[1] == sref(I, st, a[0]).r[1]
        if not full:
            t, f = I.fork(s, ("charbound", seqof(I, s, a[0]), r.r[0], r.r[1]))
            if f is not None:
                I.panic(fr, f, "str index not on a char boundary")
            s = t
            if s is None:
                continue
        out.append((r, s))
    return out


@M("std::slice::<impl [T]>::get", "std::slice::<impl [T]>::get_mut")
def m_get(I, fr, st, a, c):
    out = []
    for r, s in do_index(I, fr, st, a[0], a[1], c, False):
        out.append((none(I, c.dty) if r is None else some(I, c.dty, r), s))
    return out


@M("std::slice::<impl [T]>::get_unchecked", "std::slice::<impl [T]>::get_unchecked_mut")
def m_get_unchecked(I, fr, st, a, c):
    return m_index(I, fr, st, a, c)


@R(r"^std::slice::<impl \[T\]>::(first|last)(_mut)?$")
def m_first(I, fr, st, a, c):
    r = sref(I, st, a[0])
    t, f = I.fork(st, c_le(ONE, r.r[1]))
    out = []
    if t is not None:
        ix = r.r[0] if "first" in c.name else sub(add(r.r[0], r.r[1]), ONE)
        out.append((some(I, c.dty, RefV(r.o, r.p + (("i", ix),))), t))
    if f is not None:
        out.append((none(I, c.dty), f))
    return out


@R(r"^std::slice::<impl \[T\]>::split_(first|last)(_mut)?$")
def m_split_first(I, fr, st, a, c):
    r = sref(I, st, a[0])
    t, f = I.fork(st, c_le(ONE, r.r[1]))
    out = []
    if t is not None:
        first = "first" in c.name
        ix = r.r[0] if first else sub(add(r.r[0], r.r[1]), ONE)
        rest = RefV(r.o, r.p, (add(r.r[0], ONE) if first else r.r[0], sub(r.r[1], ONE)))
        tt = fty(I, c.dty, "Some")
        out.append((some(I, c.dty, AdtV(tt, 0, [RefV(r.o, r.p + (("i", ix),)), rest])), t))
    if f is not None:
        out.append((none(I, c.dty), f))
    return out


@R(r"^std::slice::<impl \[T\]>::split_at(_mut)?(_checked|_unchecked)?$", r"^std::slice::<impl \[T\]>::split_at(_mut)?_unchecked$")
def m_split_at(I, fr, st, a, c):
    r = sref(I, st, a[0])
    t, f = I.fork(st, c_le(a[1], r.r[1]))
    out = []
    chk = c.name.endswith("_checked")
    if t is not None:
        l = RefV(r.o, r.p, (r.r[0], a[1]))
        rr = RefV(r.o, r.p, (add(r.r[0], a[1]), sub(r.r[1], a[1])))
        if chk:
            out.append((some(I, c.dty, AdtV(fty(I, c.dty, "Some"), 0, [l, rr])), t))
        else:
            out.append((AdtV(c.dty, 0, [l, rr]), t))
    if f is not None:
        if chk:
            out.append((none(I, c.dty), f))
        else:
            I.panic(fr, f, "split_at out of bounds")
    return out


@R(r"^std::slice::<impl \[T\]>::(copy|clone)_from_slice$")
def m_copy_from_slice(I, fr, st, a, c):
    d = sref(I, st, a[0])
    s_ = sref(I, st, a[1])
    t, f = I.fork(st, c_eq(d.r[1], s_.r[1]))
    if f is not None:
        I.panic(fr, f, "copy_from_slice length mismatch")
    if t is None:
        return []
    t = t.copy()
    I.write_range(t, d, I.slice_of(t, s_))
    return [(unit(I, c.dty), t)]


@M("std::slice::<impl [T]>::fill")
def m_fill(I, fr, st, a, c):
    st = st.copy()
    d = sref(I, st, a[0])
    I.write_range(st, d, mkseq([("r", a[1], d.r[1])]))
    return [(unit(I, c.dty), st)]


@R(r"^(std::slice|alloc::slice|core::slice)::<impl \[T\]>::(sort(_unstable)?(_by(_key|_cached_key)?)?|reverse|rotate_left|rotate_right)$")
def m_reorder(I, fr, st, a, c):
    """the elements of a sequence whose content is not known, in another order"""
    d = sref(I, st, a[0])
    if st.cval(d.r[1]) is not None:
        return NotImplemented
    x = I.slice_of(st, d)
    st = st.copy()
    I.write_range(st, d, mkseq([("s", ("reordered", c.name.split("::")[-1], x), ZERO, d.r[1])]))
    return [(unit(I, c.dty), st)]


@M("std::slice::<impl [T]>::swap_with_slice")
def m_swap_with_slice(I, fr, st, a, c):
    d, e = sref(I, st, a[0]), sref(I, st, a[1])
    t, f = I.fork(st, c_eq(d.r[1], e.r[1]))
    if f is not None:
        I.panic(fr, f, "swap_with_slice length mismatch")
    if t is None:
        return []
    t = t.copy()
    x, y = I.slice_of(t, d), I.slice_of(t, e)
    I.write_range(t, d, y)
    I.write_range(t, e, x)
    return [(unit(I, c.dty), t)]


@M("std::slice::<impl [T]>::copy_within")
def m_copy_within(I, fr, st, a, c):
    out = []
    d = sref(I, st, a[0])
    for r, s in do_index(I, fr, st, a[0], a[1], c, True):
        if r is None:
            I.panic(fr, s, "copy_within out of bounds")
            continue
        t, f = I.fork(s, c_le(add(a[2], r.r[1]), d.r[1]))
        if f is not None:
            I.panic(fr, f, "copy_within out of bounds")
        if t is not None:
            t = t.copy()
            src = I.slice_of(t, r)
            I.write_range(t, RefV(d.o, d.p, (add(d.r[0], a[2]), r.r[1])), src)
            out.append((unit(I, c.dty), t))
    return out


@M("std::slice::<impl [T]>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "std::str::<impl std::borrow::ToOwned for str>::to_owned",
   "std::str::<impl str>::to_owned", "<std::string::String as std::convert::From<&str>>::from", "<std::vec::Vec<T> as std::convert::From<&[T]>>::from",
   "<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from", "<std::string::String as std::convert::From<&std::string::String>>::from",
   "<std::vec::Vec<u8> as std::convert::From<&str>>::from", "<str as std::string::SpecToString>::spec_to_string",
   "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from", "<std::string::String as std::convert::From<&mut str>>::from",
   "<std::vec::Vec<T, A> as std::clone::Clone>::clone", "<std::string::String as std::clone::Clone>::clone", "std::slice::<impl [T]>::to_vec_in",
   "<str as std::string::ToString>::to_string", "<std::string::String as std::string::ToString>::to_string",
   "<[T] as std::borrow::ToOwned>::to_owned", "<str as std::borrow::ToOwned>::to_owned", "<std::string::String as std::string::SpecToString>::spec_to_string",
   "std::str::<impl str>::to_string")
def m_to_vec(I, fr, st, a, c):
    return [(VecV(seqof(I, st, a[0])), st)]


@M("<std::vec::Vec<T> as std::convert::From<[T; N]>>::from", "std::slice::<impl [T]>::into_vec", "<std::vec::Vec<u8> as std::convert::From<std::string::String>>::from",
   "std::string::String::into_bytes", "<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>::from")
def m_into_vec(I, fr, st, a, c):
    return [(VecV(seqof(I, st, a[0])), st)]


@M("std::string::String::from_utf8_unchecked")
def m_from_utf8_unchecked(I, fr, st, a, c):
    return [(VecV(seqof(I, st, a[0])), st)]


def is_utf8(I, st, q):
    """True / False / condition: bytes form valid UTF-8"""
    vals = []
    for x in q.s:
        if x[0] == "e" and isinstance(x[1], L) and x[1].const is not None:
            vals.append(x[1].c)
        else:
            vals = None
            break
    if vals is not None:
        try:
            bytes(vals).decode("utf-8")
            return True
        except UnicodeDecodeError:
            return False
    if len(q.s) == 1 and q.s[0][0] == "s" and q.s[0][1] in I.utf8 and q.s[0][2] == ZERO and q.s[0][3] == symlen(q.s[0][1], 0, (1 << 63) - 1):
        return True
    c = ("utf8", q)
    if c not in st.truth:
        from .core import seq_align
        for t in st.truth:
            if isinstance(t, tuple) and t[0] == "utf8" and isinstance(t[1], SeqV) and seq_align(I, st, q, t[1]) is True:
                return t
    return c


@M("std::string::String::from_utf8", "std::str::from_utf8", "std::str::converts::from_utf8", "std::str::<impl str>::from_utf8", "std::str::from_utf8_mut",
   "std::string::FromUtf8Error::into_utf8")
def m_from_utf8(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    t, f = I.fork(st, is_utf8(I, st, q))
    out = []
    if t is not None:
        v = VecV(q) if "String" in c.name else sref(I, t, a[0])
        out.append((ok(I, c.dty, v), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("utf8err", q), fty(I, c.dty, "Err"))), f))
    return out


# ---- letter case and trimming: folded on literals, otherwise a new text related to the old one only through its name
def known(q):
    out = []
    for s in q.s:
        if s[0] != "e" or not isinstance(s[1], L) or s[1].const is None:
            return None
        out.append(s[1].const)
    return bytes(out)


def lit_seq(b):
    return SeqV([("e", K(x)) for x in b])


@R(r"^std::(str::<impl str>|slice::.*<impl \[u8\]>)::(to|make)_(ascii_)?(lower|upper)case$")
def m_case(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    op = c.name.rsplit("::", 1)[-1]
    low, asc = "lower" in op, "ascii" in op
    k = known(q)
    if k is not None and all(x < 128 for x in k):
        r = lit_seq(k.lower() if low else k.upper())
    else:
        src = ("case", low, asc, q)
        r = SeqV([("s", src, ZERO, seq_len(q) if asc else symlen(src, 0, (1 << 62)))])
        I.utf8.add(src)
    if op.startswith("make"):
        st = st.copy()
        I.write_range(st, sref(I, st, a[0]), r)
        return [(unit(I, c.dty), st)]
    return [(VecV(r), st)]


@R(r"^std::(str::<impl str>|slice::.*<impl \[u8\]>)::eq_ignore_ascii_case$")
def m_eq_nocase(I, fr, st, a, c):
    qs = []
    for x in a:
        q = seqof(I, st, x)
        k = known(q)
        qs.append(lit_seq(k.lower()) if k is not None else SeqV([("s", ("case", True, True, q), ZERO, seq_len(q))]))
    return [(BoolV(seqeq(I, st, qs[0], qs[1])), st)]


@R(r"^std::(str::<impl str>|slice::.*<impl \[u8\]>)::trim(_ascii)?(_start|_end|_left|_right)?$")
def m_trim(I, fr, st, a, c):
    op = c.name.rsplit("::", 1)[-1]
    q = seqof(I, st, a[0])
    k = known(q)
    if k is not None and all(x < 128 for x in k):
        r = k.lstrip() if op.endswith(("_start", "_left")) else k.rstrip() if op.endswith(("_end", "_right")) else k.strip()
        r = lit_seq(r)
    else:
        src = ("trim", op, q)
        I.utf8.add(src)
        r = SeqV([("s", src, ZERO, symlen(src, 0, (1 << 62)))])
    st = st.copy()
    o = I.new_heap(st, r)
    return [(RefV(o, (), (ZERO, seq_len(r))), st)]


@R(r"^std::str::<impl str>::trim(_start|_end|_left|_right)?_matches$")
def m_trim_matches(I, fr, st, a, c):
    op = c.name.rsplit("::", 1)[-1]
    pat = a[1]
    q = seqof(I, st, a[0])
    if isinstance(pat, RefV):
        pk = seqof(I, st, pat)
    elif isinstance(pat, L):
        pk = pat
    else:
        return NotImplemented
    src = ("trim", op, q, pk)
    r = SeqV([("s", src, ZERO, symlen(src, 0, (1 << 62)))])
    st = st.copy()
    I.utf8.add(src)
    k, pb = known(q), known(pk) if isinstance(pk, SeqV) else (bytes([pk.const]) if pk.const is not None and pk.const < 128 else None)
    if k is not None and pb is not None and len(pb) and all(x < 128 for x in k + pb):
        n = len(pb)
        b = k
        if not op.startswith(("trim_end", "trim_right")):
            while b[:n] == pb:
                b = b[n:]
        if not op.startswith(("trim_start", "trim_left")):
            while b and b[-n:] == pb:
                b = b[:-n]
        r = lit_seq(b)
    o = I.new_heap(st, r)
    return [(RefV(o, (), (ZERO, seq_len(r))), st)]


@M("std::string::String::from_utf8_lossy")
def m_lossy(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    t, f = I.fork(st, is_utf8(I, st, q))
    out = []
    if t is not None:
        out.append((mkvar(I, c.dty, "Borrowed", sref(I, t, a[0])), t))
    if f is not None:
        src = ("lossy", q)
        I.utf8.add(src)
        out.append((mkvar(I, c.dty, "Owned", VecV(SeqV([("s", src, ZERO, symlen(src, 0, (1 << 63) - 1))]))), f))
    return out


@M("std::borrow::Cow::<'_, B>::into_owned")
def m_cow_owned(I, fr, st, a, c):
    v = a[0]
    if isinstance(v, AdtV):
        x = v.f[0]
        return [(x if isinstance(x, VecV) else VecV(seqof(I, st, x)), st)]
    return NotImplemented


# ---------------------------------------------------------------------------------- Vec / String
def alloc(I, fr, st, n, c):
    """memory for n elements is requested here"""
    if I.allocs is None or not isinstance(n, L):
        return
    size = 1
    ty = c.dty
    if not I.p.is_vec(ty) and c.argtys:
        ty = c.argtys[0]
        while I.p.types[ty]["k"] in ("ref", "ptr"):
            ty = I.p.pointee(ty)
    if I.p.is_vec(ty) and I.p.adt_def(ty) == "std::vec::Vec":
        size = max(1, I.p.size(I.p.elem(ty)))
    I.allocs.append((n, size, st.copy(), I.stack(fr)))


@M("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::string::String::new", "std::string::String::with_capacity",
   "<std::vec::Vec<T> as std::default::Default>::default", "<std::string::String as std::default::Default>::default", "std::vec::Vec::<T, A>::with_capacity_in",
   "std::vec::Vec::<T, A>::new_in")
def m_vec_new(I, fr, st, a, c):
    if "with_capacity" in c.name:
        alloc(I, fr, st, a[0], c)
    return [(VecV(SeqV([])), st)]


def upd_vec(I, st, ref, f):
    st = st.copy()
    ref = asref(I, st, ref)
    v = I.deref(st, ref)
    if not isinstance(v, VecV):
        raise Undecided("Vec expected: %r" % (v,))
    I.store(st, ref, VecV(f(v.seq)))
    return st


@M("std::vec::Vec::<T, A>::push")
def m_push(I, fr, st, a, c):
    return [(unit(I, c.dty), upd_vec(I, st, a[0], lambda q: mkseq(list(q.s) + [("e", a[1])])))]


@M("std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str")
def m_extend(I, fr, st, a, c):
    q2 = seqof(I, st, a[1])
    return [(unit(I, c.dty), upd_vec(I, st, a[0], lambda q: mkseq(list(q.s) + list(q2.s))))]


@R(r"^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$", r"^<std::vec::Vec<T, A> as std::vec::spec_extend::SpecExtend<.*>>::spec_extend$")
def m_extend_iter(I, fr, st, a, c):
    out = []
    for q2, s in collect_iter(I, fr, st, a[1]):
        out.append((unit(I, c.dty), upd_vec(I, s, a[0], lambda q: mkseq(list(q.s) + list(q2.s)))))
    return out


@M("std::vec::Vec::<T, A>::append")
def m_append(I, fr, st, a, c):
    q2 = seqof(I, st, a[1])
    st = upd_vec(I, st, a[0], lambda q: mkseq(list(q.s) + list(q2.s)))
    st = upd_vec(I, st, a[1], lambda q: SeqV([]))
    return [(unit(I, c.dty), st)]


@M("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def m_clear(I, fr, st, a, c):
    return [(unit(I, c.dty), upd_vec(I, st, a[0], lambda q: SeqV([])))]


@R(r"^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit|shrink_to)$", r"^std::string::String::(reserve|shrink_to_fit)$")
def m_reserve(I, fr, st, a, c):
    if "reserve" in c.name:
        alloc(I, fr, st, a[1], c)
    return [(unit(I, c.dty), st)]


@M("std::vec::Vec::<T, A>::capacity")
def m_capacity(I, fr, st, a, c):
    n = sref(I, st, a[0]).r[1]
    st = bump(st)
    x = I.mk_sym(("cap", st.n), c.dty)
    st.assume(c_le(n, x))
    return [(x, st)]


@M("std::vec::Vec::<T, A>::truncate")
def m_truncate(I, fr, st, a, c):
    r = sref(I, st, a[0])
    t, f = I.fork(st, c_lt(a[1], r.r[1]))
    out = []
    if t is not None:
        out.append((unit(I, c.dty), upd_vec(I, t, a[0], lambda q: I.seq_slice(t, q, ZERO, a[1]))))
    if f is not None:
        out.append((unit(I, c.dty), f))
    return out


@M("std::vec::Vec::<T, A>::resize")
def m_resize(I, fr, st, a, c):
    alloc(I, fr, st, a[1], c)
    r = sref(I, st, a[0])
    t, f = I.fork(st, c_lt(a[1], r.r[1]))
    out = []
    if t is not None:
        out.append((unit(I, c.dty), upd_vec(I, t, a[0], lambda q: I.seq_slice(t, q, ZERO, a[1]))))
    if f is not None:
        out.append((unit(I, c.dty), upd_vec(I, f, a[0], lambda q: mkseq(list(q.s) + [("r", a[2], sub(a[1], r.r[1]))]))))
    return out


@M("std::vec::Vec::<T, A>::pop")
def m_pop(I, fr, st, a, c):
    r = sref(I, st, a[0])
    t, f = I.fork(st, c_le(ONE, r.r[1]))
    out = []
    if t is not None:
        q = seqof(I, t, a[0])
        n = sub(seq_len(q), ONE)
        x = I.seq_get(t, q, n)
        out.append((some(I, c.dty, x), upd_vec(I, t, a[0], lambda q: I.seq_slice(t, q, ZERO, n))))
    if f is not None:
        out.append((none(I, c.dty), f))
    return out


@M("std::vec::Vec::<T, A>::retain", "std::vec::Vec::<T, A>::retain_mut")
def m_retain(I, fr, st, a, c):
    """known elements are asked one by one; of an unknown sequence only a part is left, unless nothing is dropped"""
    q = seqof(I, st, a[0])
    f = a[1]

    def ask(s, v):
        s = s.copy()
        o = I.new_heap(s, v)
        for w, s2, _ in call_mut(I, fr, s, f, [RefV(o)]):
            t, e = I.fork(s2, w.c)
            for keep, x in ((True, t), (False, e)):
                if x is not None:
                    y = x.objs.pop(o, None)
                    yield keep, y, x
    n = st.cval(seq_len(q))
    if n is not None and n <= 8:
        work = [([], st)]
        for i in range(n):
            nxt = []
            for kept, s in work:
                for keep, y, x in ask(s, I.seq_get(s, q, K(i))):
                    nxt.append((kept + [("e", y)] if keep else kept, x))
            work = nxt
        return [(unit(I, c.dty), upd_vec(I, s, a[0], lambda q, k=k: mkseq(k))) for k, s in work]
    if len(q.s) != 1 or q.s[0][0] != "s":
        return NotImplemented
    x = Atom("sym", (("retained", q),), 64)
    v = I.elemval(q.s[0][1], A(x))
    r = list(ask(st, v))
    if all(k for k, y, s in r):
        return [(unit(I, c.dty), st)]
    src = ("retained", q, a[1] if isinstance(a[1], Sym) else "f")
    I.srcty[src] = I.srcty.get(q.s[0][1])
    return [(unit(I, c.dty), upd_vec(I, st, a[0], lambda q: SeqV([("s", src, ZERO, symlen(src, 0, (1 << 62)))])))]


@R(r"^std::vec::Vec::<T, A>::dedup(_by|_by_key)?$")
def m_dedup(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    if st.decide(c_le(seq_len(q), ONE)) is True:
        return [(unit(I, c.dty), st)]
    src = ("deduped", q)
    x = [z for z in q.s if z[0] == "s"]
    if x:
        I.srcty[src] = I.srcty.get(x[0][1])
    return [(unit(I, c.dty), upd_vec(I, st, a[0], lambda q: SeqV([("s", src, ZERO, symlen(src, 0, (1 << 62)))])))]


@R(r"^std::array::<impl \[T; N\]>::map$", r"^std::array::from_fn$")
def m_array_map(I, fr, st, a, c):
    t = I.p.types[c.dty]
    if t["k"] != "array" or not isinstance(t["len"], int) or t["len"] > 64:
        return NotImplemented
    src = a[0] if c.name.endswith("map") else None
    f = a[-1]
    st = st.copy()
    fo = None
    if not isinstance(f, RefV):
        fo = I.new_heap(st, f)
        f = RefV(fo)
    work = [([], st)]
    for i in range(t["len"]):
        nxt = []
        for done, s in work:
            x = I.seq_get(s, src, K(i)) if src is not None else K(i)
            for w, s2, _ in call_mut(I, fr, s, f, [x]):
                nxt.append((done + [("e", w)], s2))
        if len(nxt) > 64:
            raise Undecided("array map with too many outcomes")
        work = nxt
    out = []
    for done, s in work:
        s = s.copy()
        if fo is not None:
            s.objs.pop(fo, None)
        out.append((mkseq(done), s))
    return out


@M("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::insert", "std::vec::Vec::<T, A>::swap_remove", "std::vec::Vec::<T, A>::split_off")
def m_vec_at(I, fr, st, a, c):
    r = sref(I, st, a[0])
    m = c.name.split("::")[-1]
    cond = c_lt(a[1], r.r[1]) if m in ("remove", "swap_remove") else c_le(a[1], r.r[1])
    t, f = I.fork(st, cond)
    if f is not None:
        I.panic(fr, f, "Vec::%s out of bounds" % m)
    if t is None:
        return []
    q = seqof(I, t, a[0])
    if m == "remove":
        x = I.seq_get(t, q, a[1])
        return [(x, upd_vec(I, t, a[0], lambda q: I.seq_splice(t, q, a[1], ONE, [])))]
    if m == "insert":
        return [(unit(I, c.dty), upd_vec(I, t, a[0], lambda q: I.seq_splice(t, q, a[1], ZERO, [("e", a[2])])))]
    if m == "split_off":
        tail = I.seq_slice(t, q, a[1], sub(seq_len(q), a[1]))
        return [(VecV(tail), upd_vec(I, t, a[0], lambda q: I.seq_slice(t, q, ZERO, a[1])))]
    n = sub(seq_len(q), ONE)
    x = I.seq_get(t, q, a[1])
    last = I.seq_get(t, q, n)
    q2 = I.seq_slice(t, I.seq_splice(t, q, a[1], ONE, [("e", last)]), ZERO, n)
    return [(x, upd_vec(I, t, a[0], lambda q: q2))]


@M("std::vec::Vec::<T, A>::drain")
def m_drain(I, fr, st, a, c):
    out = []
    for r, s in do_index(I, fr, st, a[0], a[1], c, True):
        if r is None:
            I.panic(fr, s, "drain out of bounds")
            continue
        q = I.slice_of(s, r)
        s2 = upd_vec(I, s, a[0], lambda v: I.seq_splice(s, v, r.r[0], r.r[1], []))
        out.append((ItV("vals", q), s2))
    return out


@M("std::vec::Vec::<T, A>::into_boxed_slice")
def m_into_boxed(I, fr, st, a, c):
    st = st.copy()
    q = seqof(I, st, a[0])
    o = I.new_heap(st, q)
    return [(RefV(o, (), (ZERO, seq_len(q))), st)]


@M("std::vec::from_elem")
def m_from_elem(I, fr, st, a, c):
    alloc(I, fr, st, a[1], c)
    return [(VecV(mkseq([("r", a[0], a[1])])), st)]


@M("std::boxed::Box::<T>::new_uninit", "std::boxed::box_new_uninit")
def m_box_new_uninit(I, fr, st, a, c):
    st = st.copy()
    ty = c.gargs[0] if c.gargs and isinstance(c.gargs[0], int) else None
    v = I.blank(ty) if ty is not None else UNINIT
    # Box<MaybeUninit<T>>
    mu = I.p.pointee(c.dty)
    o = I.new_heap(st, Sym(("uninit-union", mu), mu) if mu is not None and I.p.types[mu]["k"] == "adt" else v)
    return [(RefV(o), st)]


@M("std::boxed::box_assume_init_into_vec_unsafe")
def m_box_into_vec(I, fr, st, a, c):
    st = st.copy()
    v = a[0]
    q = I.deref(st, v)
    while not isinstance(q, SeqV):
        if isinstance(q, Sym) and isinstance(q.t, tuple) and q.t[0] == "unionv":
            q = q.t[1]
        elif isinstance(q, AdtV) and len(q.f) == 1:
            q = q.f[0]
        elif isinstance(q, Sym) and q.t[0] == "uninit-union":
            q = SeqV([])
        else:
            raise Undecided("vec! of %r" % (q,))
    st.objs.pop(v.o, None)
    return [(VecV(q), st)]


@M("std::boxed::Box::<T>::new")
def m_box_new(I, fr, st, a, c):
    st = st.copy()
    return [(RefV(I.new_heap(st, a[0])), st)]


@M("std::convert::AsRef::as_ref")
def m_asref(I, fr, st, a, c):
    return NotImplemented


# ---------------------------------------------------------------------------------- equality
@R(r"<impl std::cmp::PartialEq(<.*>)? for str>::(eq|ne)$", r"<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$",
   r"^std::array::equality::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$", r"^std::vec::partial_eq::<impl .*>::(eq|ne)$",
   r"^<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", r"<impl std::cmp::PartialEq<.*> for std::string::String>::(eq|ne)$",
   r"<impl std::cmp::PartialEq<std::string::String> for .*>::(eq|ne)$", r"^<std::vec::Vec<.*> as std::cmp::PartialEq<.*>>::(eq|ne)$",
   r"^<T as std::array::equality::SpecArrayEq<U, N>>::spec_(eq|ne)$")
def m_seq_eq(I, fr, st, a, c):
    x, y = seqof(I, st, a[0]), seqof(I, st, a[1])
    for q in (x, y):
        for s in q.s:
            if s[0] == "e" and not isinstance(s[1], L):
                # element-wise comparison of non-integers: only structural equality is known
                if x == y:
                    return [(BoolV(True), st)]
                e = ("seqeq",) + tuple(sorted((x, y), key=lambda z: z.id))
                return [(BoolV(c_not(e) if c.name.endswith("ne") else e), st)]
    e = seqeq(I, st, x, y)
    return [(BoolV(c_not(e) if c.name.endswith("ne") else e), st)]


@M("constant_time_eq::constant_time_eq", "constant_time_eq::constant_time_eq_32", "constant_time_eq::constant_time_eq_16")
def m_cteq(I, fr, st, a, c):
    return [(BoolV(seqeq(I, st, seqof(I, st, a[0]), seqof(I, st, a[1]))), st)]


@M("std::intrinsics::raw_eq")
def m_raw_eq(I, fr, st, a, c):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if isinstance(x, SeqV) and isinstance(y, SeqV):
        return [(BoolV(seqeq(I, st, x, y)), st)]
    return [(BoolV(True if x == y else ("raweq", x, y)), st)]


@R(r"^std::slice::<impl \[T\]>::(starts|ends)_with$")
def m_starts_with(I, fr, st, a, c):
    x, y = seqof(I, st, a[0]), seqof(I, st, a[1])
    n, m = seq_len(x), seq_len(y)
    t, f = I.fork(st, c_le(m, n))
    out = []
    if t is not None:
        off = ZERO if "starts" in c.name else sub(n, m)
        out.append((BoolV(seqeq(I, t, I.seq_slice(t, x, off, m), y)), t))
    if f is not None:
        out.append((BoolV(False), f))
    return out


# ---------------------------------------------------------------------------------- arrays
@R(r"<impl std::convert::TryFrom<&(mut )?\[T\]> for \[T; N\]>::try_from$", r"<impl std::convert::TryFrom<&'?a? ?(mut )?\[T\]> for &'?a? ?(mut )?\[T; N\]>::try_from$")
def m_arr_try_from(I, fr, st, a, c):
    oty = fty(I, c.dty, "Ok")
    t0 = I.p.types[oty]
    isref = t0["k"] == "ref"
    n = I.p.types[t0["e"]]["len"] if isref else t0["len"]
    r = sref(I, st, a[0])
    t, f = I.fork(st, c_eq(r.r[1], K(n)))
    out = []
    if t is not None:
        if isref:
            v = RefV(r.o, r.p, (r.r[0], K(n)))
        else:
            v = I.seq_slice(t, I.slice_of(t, r), ZERO, K(n))
        out.append((ok(I, c.dty, v), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("tryfromslice",), fty(I, c.dty, "Err"))), f))
    return out


@R(r"<impl std::convert::TryFrom<std::vec::Vec<T, A>> for \[T; N\]>::try_from$")
def m_arr_try_from_vec(I, fr, st, a, c):
    oty = fty(I, c.dty, "Ok")
    n = I.p.types[oty]["len"]
    q = seqof(I, st, a[0])
    t, f = I.fork(st, c_eq(seq_len(q), K(n)))
    out = []
    if t is not None:
        out.append((ok(I, c.dty, I.seq_slice(t, q, ZERO, K(n))), t))
    if f is not None:
        out.append((err(I, c.dty, a[0]), f))
    return out


@R(r"^std::array::<impl std::clone::Clone for \[T; N\]>::clone$", r"^<\[T; N\] as std::clone::Clone>::clone$")
def m_arr_clone(I, fr, st, a, c):
    return [(seqof(I, st, a[0]), st)]


# ---------------------------------------------------------------------------------- clones of plain data
@R(r"^std::clone::impls::<impl std::clone::Clone for (?!&).*>::clone$")
def m_clone_plain(I, fr, st, a, c):
    return [(I.deref(st, a[0]), st)]


@R(r"^std::clone::impls::<impl std::clone::Clone for &.*>::clone$")
def m_clone_ref(I, fr, st, a, c):
    return [(I.deref(st, a[0]), st)]


# ---------------------------------------------------------------------------------- integers
def int_ty(I, c, a):
    return None


@R(r"^std::(num|f32|f64)::<impl ([uif]\w+)>::to_(le|be|ne)_bytes$")
def m_to_bytes(I, fr, st, a, c):
    v = a[0]
    m = re.search(r"<impl ([uif])(\w+)>::to_(le|be|ne)_bytes", c.name)
    w = 64 if m.group(2) == "size" else int(m.group(2))
    if isinstance(v, Sym) and isinstance(v.t, tuple) and v.t[0] == "f":
        v = v.t[1]
    return [(I.int_to_bytes(st, v, w, m.group(3) == "be"), st)]


@R(r"^std::(num|f32|f64)::<impl ([uif]\w+)>::from_(le|be|ne)_bytes$")
def m_from_bytes(I, fr, st, a, c):
    m = re.search(r"<impl ([uif])(\w+)>::from_(le|be|ne)_bytes", c.name)
    q = seqof(I, st, a[0])
    x = I.bytes_to_int(st, q, m.group(3) == "be", 8 if m.group(2) == "size" else int(m.group(2)) // 8)
    if m.group(1) == "f":
        return [(Sym(("f", x), c.dty), st)]
    if m.group(1) == "i":
        w = int(m.group(2))
        if x.const is not None:
            v = x.c
            return [(K(v - (1 << w) if v >> (w - 1) else v), st)]
        return [(I.mk_sym(("signed", x), c.dty), st)]
    return [(x, st)]


@R(r"^std::(f32|f64)::<impl f\d+>::to_bits$")
def m_f_to_bits(I, fr, st, a, c):
    v = a[0]
    if isinstance(v, Sym) and v.t[0] == "f":
        return [(v.t[1], st)]
    return NotImplemented


@R(r"^std::(num::imp::libm|core_float_math|intrinsics|f32|f64|f32::math|f64::math)::(<impl f\d+>::)?(abs|fabs|fabsf32|fabsf64)$")
def m_fabs(I, fr, st, a, c):
    v = a[0]
    if isinstance(v, Sym) and v.t[0] == "f":
        w = I.p.types[v.ty]["w"]
        b = I.bits_of(st, v.t[1], w)
        if b is not None:
            return [(Sym(("f", st.norm(from_bits(list(b[:w - 1]) + [0]))), c.dty), st)]
    return NotImplemented


@R(r"^std::(f32|f64)::<impl f\d+>::from_bits$")
def m_f_from_bits(I, fr, st, a, c):
    return [(Sym(("f", a[0]), c.dty), st)]


@R(r"^std::num::<impl [ui]\w+>::(to|from)_(le|be)$")
def m_to_le(I, fr, st, a, c):
    if c.name.endswith("le"):
        return [(a[0], st)]
    w = I.p.types[c.dty]["w"]
    b = I.bits_of(st, a[0], w)
    if b is None:
        return [(A(Atom("swapbytes", (a[0],), w)), st)]
    out = []
    for i in range(w - 8, -1, -8):
        out += b[i:i + 8]
    return [(from_bits(out), st)]


@R(r"^std::num::<impl [ui]\w+>::swap_bytes$")
def m_swap_bytes(I, fr, st, a, c):
    w = I.p.types[c.dty]["w"]
    b = I.bits_of(st, a[0], w)
    if b is None:
        return [(A(Atom("swapbytes", (a[0],), w)), st)]
    out = []
    for i in range(w - 8, -1, -8):
        out += b[i:i + 8]
    return [(from_bits(out), st)]


@R(r"^std::num::<impl [ui]\w+>::(wrapping|checked|saturating|overflowing|unchecked|strict)_(add|sub|mul)$")
def m_arith(I, fr, st, a, c):
    m = re.search(r"::(wrapping|checked|saturating|overflowing|unchecked|strict)_(add|sub|mul)$", c.name)
    kind, op = m.groups()
    x, y = a[0], a[1]
    if not (isinstance(x, L) and isinstance(y, L)):
        return NotImplemented
    ity = c.dty
    if kind == "checked":
        ity = fty(I, c.dty, "Some")
    elif kind == "overflowing":
        ity = I.p.fields(c.dty)[0][1]
    w = I.p.types[ity]["w"]
    lo, hi = I.p.int_rng(ity)
    r = add(x, y) if op == "add" else sub(x, y) if op == "sub" else I.mul(st, x, y, w)
    ovhi, ovlo = c_not(c_le(r, K(hi))), c_not(c_le(K(lo), r))
    ov = c_or([ovhi, ovlo])
    if kind == "wrapping":
        return [(I.wrap(st, r, ity), st)]
    if kind in ("unchecked",):
        return [(r, st)]
    t, f = I.fork(st, ov)
    out = []
    if f is not None:
        f.assume(c_not(ovhi))
        f.assume(c_not(ovlo))
        if kind == "checked":
            out.append((some(I, c.dty, r), f))
        elif kind == "overflowing":
            out.append((AdtV(c.dty, 0, [r, BoolV(False)]), f))
        else:
            out.append((r, f))
    if t is not None:
        if kind == "checked":
            out.append((none(I, c.dty), t))
        elif kind == "overflowing":
            out.append((AdtV(c.dty, 0, [I.wrap(t, r, ity), BoolV(True)]), t))
        elif kind == "strict":
            I.panic(fr, t, "arithmetic overflow (strict)")
        else:
            th, tl = I.fork(t, ovhi)
            if th is not None:
                out.append((K(hi), th))
            if tl is not None:
                out.append((K(lo), tl))
    return out


@R(r"^std::num::<impl [ui]\w+>::pow$", r"^std::num::<impl [ui]\w+>::(checked|wrapping|saturating)_pow$")
def m_pow(I, fr, st, a, c):
    x, y = st.cval(a[0]), st.cval(a[1])
    if x is None or y is None:
        return NotImplemented
    chk = "checked" in c.name
    ity = fty(I, c.dty, "Some") if chk else c.dty
    lo, hi = I.p.int_rng(ity)
    v = x ** y
    if lo <= v <= hi:
        return [(some(I, c.dty, K(v)) if chk else K(v), st)]
    if chk:
        return [(none(I, c.dty), st)]
    if c.name.endswith("::pow"):
        I.panic(fr, st, "pow overflow")
        return []
    return NotImplemented


@R(r"<impl std::cmp::(Partial)?Ord for [ui]\w+>::(lt|le|gt|ge|cmp|partial_cmp|min|max|clamp)$")
def m_int_ord(I, fr, st, a, c):
    op = c.name.split("::")[-1]
    if op in ("min", "max"):
        return int_minmax(I, st, a[0], a[1], op)
    if op == "clamp":
        return NotImplemented
    x, y = a[0], a[1]
    x = I.deref(st, x) if isinstance(x, RefV) else x
    y = I.deref(st, y) if isinstance(y, RefV) else y
    if op in ("lt", "le", "gt", "ge"):
        f = {"lt": c_lt(x, y), "le": c_le(x, y), "gt": c_lt(y, x), "ge": c_le(y, x)}[op]
        return [(BoolV(f), st)]
    oty = c.dty if op == "cmp" else fty(I, c.dty, "Some")
    out = []
    l, ge = I.fork(st, c_lt(x, y))
    if l is not None:
        out.append((mkvar(I, oty, "Less"), l))
    if ge is not None:
        e, g = I.fork(ge, c_eq(x, y))
        if e is not None:
            out.append((mkvar(I, oty, "Equal"), e))
        if g is not None:
            out.append((mkvar(I, oty, "Greater"), g))
    if op == "partial_cmp":
        out = [(some(I, c.dty, v), s) for v, s in out]
    return out


def int_minmax(I, st, x, y, op):
    t, f = I.fork(st, c_le(x, y))
    out = []
    if t is not None:
        out.append((x if op == "min" else y, t))
    if f is not None:
        out.append((y if op == "min" else x, f))
    return out


@M("std::cmp::min", "std::cmp::max", "std::cmp::Ord::min", "std::cmp::Ord::max")
def m_minmax(I, fr, st, a, c):
    if isinstance(a[0], L) and isinstance(a[1], L):
        return int_minmax(I, st, a[0], a[1], c.name.split("::")[-1])
    return NotImplemented


@R(r"<impl std::cmp::PartialEq for ([ui]\w+|bool|char)>::(eq|ne)$")
def m_int_eq(I, fr, st, a, c):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if isinstance(x, L) and isinstance(y, L):
        e = c_eq(x, y)
    elif isinstance(x, BoolV) and isinstance(y, BoolV):
        e = c_not(I.c_xor(st, x.c, y.c))
    else:
        return NotImplemented
    return [(BoolV(c_not(e) if c.name.endswith("ne") else e), st)]


@R(r"^std::convert::num::.*<impl std::convert::TryFrom<\w+> for \w+>::try_from$")
def m_int_try_from(I, fr, st, a, c):
    oty = fty(I, c.dty, "Ok")
    lo, hi = I.p.int_rng(oty)
    x = a[0]
    if not isinstance(x, L):
        return NotImplemented
    cond = c_and([c_le(K(lo), x), c_le(x, K(hi))])
    t, f = I.fork(st, cond)
    out = []
    if t is not None:
        t.assume(c_le(K(lo), x))
        t.assume(c_le(x, K(hi)))
        out.append((ok(I, c.dty, x), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("tryfromint",), fty(I, c.dty, "Err"))), f))
    return out


@R(r"^std::convert::num::<impl std::convert::From<\w+> for \w+>::from$")
def m_int_from(I, fr, st, a, c):
    v = a[0]
    if isinstance(v, BoolV):
        return [(b2i(v.c), st)]
    if isinstance(v, L) and I.p.types[c.dty]["k"] in ("int", "char"):
        return [(v, st)]
    return NotImplemented


@R(r"^std::num::<impl [ui]\w+>::(is_power_of_two|count_ones|leading_zeros|trailing_zeros|rotate_left|rotate_right)$")
def m_int_misc(I, fr, st, a, c):
    op = c.name.split("::")[-1]
    w = None
    if op.startswith("rotate"):
        w = I.p.types[c.dty]["w"]
        n = st.cval(a[1])
        b = I.bits_of(st, a[0], w)
        if n is not None and b is not None:
            n %= w
            if op == "rotate_right":
                n = (w - n) % w
            return [(from_bits(b[w - n:] + b[:w - n]), st)]
    return [(I.mk_sym((op,) + tuple(a), c.dty), st)]


# ---------------------------------------------------------------------------------- mem
@M("std::mem::swap", "std::intrinsics::typed_swap_nonoverlapping", "std::ptr::swap")
def m_swap(I, fr, st, a, c):
    st = st.copy()
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    put(I, st, a[0], y)
    put(I, st, a[1], x)
    return [(unit(I, c.dty), st)]


def put(I, st, ref, v):
    if ref.r is not None:
        I.write_range(st, ref, v)
    else:
        I.store(st, ref, v)


@M("std::mem::replace", "std::ptr::replace")
def m_replace(I, fr, st, a, c):
    st = st.copy()
    x = I.deref(st, a[0])
    put(I, st, a[0], a[1])
    return [(x, st)]


@M("std::mem::take")
def m_take(I, fr, st, a, c):
    x = I.deref(st, a[0])
    if isinstance(x, VecV):
        st = st.copy()
        put(I, st, a[0], VecV(SeqV([])))
        return [(x, st)]
    return NotImplemented


@M("std::ptr::read", "std::ptr::read_unaligned", "std::ptr::read_volatile", "std::intrinsics::volatile_load")
def m_ptr_read(I, fr, st, a, c):
    return [(I.deref(st, a[0]), st)]


@M("std::ptr::write", "std::ptr::write_unaligned", "std::ptr::write_volatile", "std::intrinsics::volatile_store")
def m_ptr_write(I, fr, st, a, c):
    st = st.copy()
    put(I, st, a[0], a[1])
    return [(unit(I, c.dty), st)]


@R(r"^std::mem::(drop|forget)$")
def m_forget(I, fr, st, a, c):
    if c.name.endswith("drop") and isinstance(a[0], AdtV):
        d = I.p.adt_def(a[0].ty)
        if d == "std::sync::MutexGuard":
            st = st.copy()
            st.ev = st.ev + (("unlock", I.guard_lock(a[0])),)
            return [(unit(I, c.dty), st)]
        return NotImplemented
    return [(unit(I, c.dty), st)]


@R(r"precondition_check$", r"^std::intrinsics::(assume|cold_path|likely|unlikely)$", r"^std::hint::assert_unchecked$", r"^std::sync::atomic::(compiler_)?fence$",
   r"^std::intrinsics::atomic_(single_thread)?fence")
def m_nop(I, fr, st, a, c):
    if c.name.endswith("likely"):
        return [(a[0], st)]
    return [(unit(I, c.dty), st)]


@R(r"^std::intrinsics::is_val_statically_known$", r"^std::intrinsics::const_eval_select$")
def m_false(I, fr, st, a, c):
    if c.name.endswith("known"):
        return [(BoolV(False), st)]
    return NotImplemented


@R(r"^std::hint::black_box$", r"^std::convert::identity$", r"^std::intrinsics::black_box$")
def m_id(I, fr, st, a, c):
    return [(a[0], st)]


# ---------------------------------------------------------------------------------- iterators
@M("std::slice::<impl [T]>::iter", "std::slice::<impl [T]>::iter_mut", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
   "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
   "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter", "std::slice::Iter::<'a, T>::new", "std::slice::IterMut::<'a, T>::new")
def m_iter(I, fr, st, a, c):
    return [(ItV("slice", sref(I, st, a[0])), st)]


@R(r"^std::array::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$", r"^std::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$",
   r"<impl std::iter::IntoIterator for &'a (mut )?\[T(; N)?\]>::into_iter$")
def m_iter2(I, fr, st, a, c):
    return [(ItV("slice", sref(I, st, a[0])), st)]


@R(r"<impl std::iter::IntoIterator for \[T; N\]>::into_iter$", r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$")
def m_into_iter_vals(I, fr, st, a, c):
    return [(ItV("vals", seqof(I, st, a[0])), st)]


@M("std::str::<impl str>::bytes")
def m_bytes(I, fr, st, a, c):
    return [(ItV("vals", seqof(I, st, a[0])), st)]


@M("std::str::<impl str>::chars")
def m_chars(I, fr, st, a, c):
    return [(ItV("chars", seqof(I, st, a[0])), st)]


def nchars(I, st, q):
    """number of characters of a UTF-8 string: anything from a quarter of its bytes to all of them"""
    bs = [st.cval(x[1]) if x[0] == "e" else None for x in q.s]
    if all(b is not None for b in bs):
        return K(sum(1 for b in bs if b & 0xc0 != 0x80)), st
    n = A(Atom("sym", (("nchars", q),), 64, 0, 1 << 62))
    st = st.copy()
    st.assume(c_le(n, seq_len(q)))
    st.assume(c_le(seq_len(q), scale(n, 4)))
    return n, st


@R(r"^std::slice::<impl \[T\]>::(chunks|chunks_exact)(_mut)?$")
def m_chunks(I, fr, st, a, c):
    n = st.cval(a[1])
    if not n:
        raise Undecided("chunks of unknown size")
    return [(ItV("chunks", sref(I, st, a[0]), n, "exact" in c.name), st)]


@R(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::ExactSizeIterator>::len$", r"^<std::(vec|array)::IntoIter<.*> as std::iter::ExactSizeIterator>::len$")
def m_it_len(I, fr, st, a, c):
    it = I.deref(st, a[0])
    return [(it.a[0].r[1] if it.k == "slice" else seq_len(it.a[0]), st)]


def it_size(I, st, it):
    """number of items still to come, or None"""
    if isinstance(it, RefV):
        it = I.deref(st, it)
    if not isinstance(it, ItV):
        return None
    if it.k == "slice":
        return it.a[0].r[1] if it.a[0].r is not None else None
    if it.k == "vals":
        return seq_len(it.a[0])
    return None


@R(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::size_hint$", r"^<std::(vec|array)::IntoIter<.*> as std::iter::Iterator>::size_hint$", r"^<std::str::Bytes<.*> as std::iter::Iterator>::size_hint$")
def m_size_hint(I, fr, st, a, c):
    n = it_size(I, st, a[0])
    if n is None:
        raise Undecided("size of an iterator")
    oty = I.p.fields(c.dty, 0)[1][1]
    return [(AdtV(c.dty, 0, [n, some(I, oty, n)]), st)]


@M("std::iter::TrustedRandomAccessNoCoerce::size")
def m_tra_size(I, fr, st, a, c):
    n = it_size(I, st, a[0])
    if n is None:
        return NotImplemented
    return [(n, st)]


def cstep(st, cond, fr):
    if st.decide(cond) is None and fr is not None:
        # an undecided trip count: mark the enclosing loops of the nearest frames
        f = fr
        for _ in range(4):
            if f is None:
                break
            for h in _heads(f):
                f.symloop.add(h)
            f = f.parent


def _heads(f):
    return Models.prog.rpo(f.key)[2]


def as_slice_it(I, it):
    """a slice iterator built from its raw begin and end pointers"""
    if isinstance(it, AdtV) and I.p.adt_def(it.ty) in ("std::slice::Iter", "std::slice::IterMut"):
        e = []
        for x in it.f[:2]:
            while isinstance(x, AdtV) and x.f:
                x = x.f[0]
            if not isinstance(x, RefV) or x.r is not None or not x.p or not isinstance(x.p[-1], tuple) or x.p[-1][0] != "i":
                return it
            e.append(x)
        b, n = e
        if b.o == n.o and b.p[:-1] == n.p[:-1]:
            return ItV("slice", RefV(b.o, b.p[:-1], (b.p[-1][1], sub(n.p[-1][1], b.p[-1][1]))))
    return it


def it_next(I, fr, st, it):
    """-> list of (val | None, new iterator, st)"""
    it = as_slice_it(I, it)
    if isinstance(it, ItV):
        if it.k == "slice":
            r = it.a[0]
            n = r.r[1]
            cond = c_le(ONE, n)
            cstep(st, cond, fr)
            t, f = I.fork(st, cond)
            out = []
            if t is not None:
                out.append((RefV(r.o, r.p + (("i", r.r[0]),)), ItV("slice", RefV(r.o, r.p, (add(r.r[0], ONE), sub(n, ONE)))), t))
            if f is not None:
                out.append((None, it, f))
            return out
        if it.k == "vals":
            q = it.a[0]
            n = seq_len(q)
            cond = c_le(ONE, n)
            cstep(st, cond, fr)
            t, f = I.fork(st, cond)
            out = []
            if t is not None:
                x = I.seq_get(t, q, ZERO)
                out.append((x, ItV("vals", I.seq_slice(t, q, ONE, sub(n, ONE))), t))
            if f is not None:
                out.append((None, it, f))
            return out
        if it.k == "chunks":
            r, k, exact = it.a
            n = r.r[1]
            cond = c_le(K(k if exact else 1), n)
            cstep(st, cond, fr)
            t, f = I.fork(st, cond)
            out = []
            if t is not None:
                full, part = I.fork(t, c_le(K(k), n))
                if full is not None:
                    out.append((RefV(r.o, r.p, (r.r[0], K(k))), ItV("chunks", RefV(r.o, r.p, (add(r.r[0], K(k)), sub(n, K(k)))), k, exact), full))
                if part is not None:
                    out.append((RefV(r.o, r.p, (r.r[0], n)), ItV("chunks", RefV(r.o, r.p, (add(r.r[0], n), ZERO)), k, exact), part))
            if f is not None:
                out.append((None, it, f))
            return out
        if it.k == "chars":
            q = it.a[0]
            n = seq_len(q)
            cond = c_le(ONE, n)
            cstep(st, cond, fr)
            t, f = I.fork(st, cond)
            out = []
            if t is not None:
                b = I.seq_get(t, q, ZERO)
                asc, wide = I.fork(t, c_lt(b, K(128)))
                if asc is not None:
                    out.append((b, ItV("chars", I.seq_slice(asc, q, ONE, sub(n, ONE))), asc))
                if wide is not None:
                    wide = wide.copy()
                    w = A(Atom("sym", (("charw", q),), 64, 2, 4))
                    wide.assume(c_le(w, n))
                    out.append((A(Atom("sym", (("char", q),), 32, 0x80, 0x10ffff)), ItV("chars", I.seq_slice(wide, q, w, sub(n, w))), wide))
            if f is not None:
                out.append((None, it, f))
            return out
        if it.k == "rev":
            return it_next_back(I, fr, st, it.a[0], wrap=True)
    if isinstance(it, AdtV):
        d = I.p.adt_def(it.ty) or ""
        nm = d.split("::")[-1]
        f = it.f
        if nm == "Range":
            lo, hi = f
            cond = c_lt(lo, hi)
            cstep(st, cond, fr)
            t, e = I.fork(st, cond)
            out = []
            if t is not None:
                out.append((lo, AdtV(it.ty, 0, [add(lo, ONE), hi]), t))
            if e is not None:
                out.append((None, it, e))
            return out
        if nm == "RangeInclusive":
            lo, hi, ex = f
            out = []
            done, live = I.fork(st, ex.c)
            if done is not None:
                out.append((None, it, done))
            if live is not None:
                cstep(live, c_lt(lo, hi), fr)
                t, e = I.fork(live, c_lt(lo, hi))
                if t is not None:
                    out.append((lo, AdtV(it.ty, 0, [add(lo, ONE), hi, BoolV(False)]), t))
                if e is not None:
                    eq, gt = I.fork(e, c_eq(lo, hi))
                    if eq is not None:
                        out.append((lo, AdtV(it.ty, 0, [lo, hi, BoolV(True)]), eq))
                    if gt is not None:
                        out.append((None, it, gt))
            return out
        if nm in ("Copied", "Cloned"):
            out = []
            for v, n, s in it_next(I, fr, st, f[0]):
                out.append((None if v is None else I.deref(s, v), AdtV(it.ty, it.v, (n,) + f[1:]), s))
            return out
        if nm == "Map":
            out = []
            for v, n, s in it_next(I, fr, st, f[0]):
                if v is None:
                    out.append((None, AdtV(it.ty, it.v, (n, f[1])), s))
                    continue
                for w, s2, f2 in call_mut(I, fr, s, f[1], [v]):
                    out.append((w, AdtV(it.ty, it.v, (n, f2)), s2))
            return out
        if nm == "Enumerate":
            out = []
            for v, n, s in it_next(I, fr, st, f[0]):
                if v is None:
                    out.append((None, AdtV(it.ty, it.v, (n, f[1])), s))
                else:
                    tty = tuple_ty(I, it)
                    out.append((AdtV(tty, 0, [f[1], v]), AdtV(it.ty, it.v, (n, add(f[1], ONE))), s))
            return out
        if nm == "Zip":
            out = []
            for v, n, s in it_next(I, fr, st, f[0]):
                if v is None:
                    out.append((None, AdtV(it.ty, it.v, (n,) + f[1:]), s))
                    continue
                for w, m, s2 in it_next(I, fr, s, f[1]):
                    if w is None:
                        out.append((None, AdtV(it.ty, it.v, (n, m) + f[2:]), s2))
                    else:
                        out.append((AdtV(tuple_ty(I, it), 0, [v, w]), AdtV(it.ty, it.v, (n, m) + f[2:]), s2))
            return out
        if nm == "Rev":
            return [(v, AdtV(it.ty, it.v, (n,)), s) for v, n, s in it_next_back(I, fr, st, f[0])]
        if nm == "Chain":
            a, b = f
            out = []
            if isinstance(a, AdtV) and I.p.vname(a.ty, a.v) == "Some":
                for v, n, s in it_next(I, fr, st, a.f[0]):
                    if v is not None:
                        out.append((v, AdtV(it.ty, it.v, (AdtV(a.ty, a.v, [n]), b)), s))
                    else:
                        out += it_next(I, fr, s, AdtV(it.ty, it.v, (none(I, a.ty), b)))
                return out
            if isinstance(b, AdtV) and I.p.vname(b.ty, b.v) == "Some":
                for v, n, s in it_next(I, fr, st, b.f[0]):
                    out.append((v, AdtV(it.ty, it.v, (a, AdtV(b.ty, b.v, [n]))), s))
                return out
            return [(None, it, st)]
        if nm == "Take":
            inner, n0 = f
            t, e = I.fork(st, c_le(ONE, n0))
            out = []
            if t is not None:
                for v, n, s in it_next(I, fr, t, inner):
                    out.append((v, AdtV(it.ty, it.v, (n, sub(n0, ONE))), s))
            if e is not None:
                out.append((None, it, e))
            return out
        if nm == "Skip":
            inner, n0 = f
            k = st.cval(n0)
            if k is None:
                raise Undecided("skip of unknown count")
            states = [(inner, st)]
            for _ in range(k):
                nxt = []
                for i2, s in states:
                    for v, n, s2 in it_next(I, fr, s, i2):
                        nxt.append((n, s2))
                states = nxt
            out = []
            for i2, s in states:
                for v, n, s2 in it_next(I, fr, s, i2):
                    out.append((v, AdtV(it.ty, it.v, (n, ZERO)), s2))
            return out
        if nm == "Filter":
            out = []
            todo = [(it, st)]
            while todo:
                cur, s0 = todo.pop()
                for v, n, s in it_next(I, fr, s0, cur.f[0]):
                    if v is None:
                        out.append((None, AdtV(it.ty, it.v, (n, cur.f[1])), s))
                        continue
                    s = s.copy()
                    o = I.new_heap(s, v)
                    for w, s2, f2 in call_mut(I, fr, s, cur.f[1], [RefV(o)]):
                        s2.objs.pop(o, None)
                        y, nn = I.fork(s2, w.c)
                        if y is not None:
                            out.append((v, AdtV(it.ty, it.v, (n, f2)), y))
                        if nn is not None:
                            todo.append((AdtV(it.ty, it.v, (n, f2)), nn))
                if len(out) > 400:
                    raise Undecided("filter")
            return out
    raise Undecided("iterator %r" % (it,))


def it_next_back(I, fr, st, it, wrap=False):
    it = as_slice_it(I, it)
    if isinstance(it, ItV) and it.k in ("slice", "vals"):
        n = it.a[0].r[1] if it.k == "slice" else seq_len(it.a[0])
        cond = c_le(ONE, n)
        cstep(st, cond, fr)
        t, f = I.fork(st, cond)
        out = []
        if t is not None:
            if it.k == "slice":
                r = it.a[0]
                out.append((RefV(r.o, r.p + (("i", sub(add(r.r[0], n), ONE)),)), ItV("slice", RefV(r.o, r.p, (r.r[0], sub(n, ONE)))), t))
            else:
                q = it.a[0]
                out.append((I.seq_get(t, q, sub(n, ONE)), ItV("vals", I.seq_slice(t, q, ZERO, sub(n, ONE))), t))
        if f is not None:
            out.append((None, it, f))
        return out
    if isinstance(it, AdtV):
        nm = (I.p.adt_def(it.ty) or "").split("::")[-1]
        if nm == "Range":
            lo, hi = it.f
            cond = c_lt(lo, hi)
            cstep(st, cond, fr)
            t, e = I.fork(st, cond)
            out = []
            if t is not None:
                out.append((sub(hi, ONE), AdtV(it.ty, 0, [lo, sub(hi, ONE)]), t))
            if e is not None:
                out.append((None, it, e))
            return out
        if nm in ("Copied", "Cloned"):
            return [(None if v is None else I.deref(s, v), AdtV(it.ty, it.v, (n,)), s) for v, n, s in it_next_back(I, fr, st, it.f[0])]
        if nm == "Enumerate" or nm == "Map":
            pass
    raise Undecided("reverse iterator %r" % (it,))


def tuple_ty(I, it):
    return -1


def call_mut(I, fr, st, f, args):
    """call closure value f by reference; -> list of (val, st, f')"""
    if isinstance(f, RefV):
        return [(v, s, f) for v, s in I.call_value(fr, st, f, args)]
    if isinstance(f, AdtV) and f.f:
        st = st.copy()
        o = I.new_heap(st, f)
        out = []
        for v, s in I.call_value(fr, st, RefV(o), args):
            nf = s.objs.pop(o, f)
            out.append((v, s, nf))
        return out
    return [(v, s, f) for v, s in I.call_value(fr, st, f, args)]


def collect_iter(I, fr, st, it):
    """-> list of (SeqV, st)"""
    it = as_iter(I, st, it)
    if isinstance(it, ItV) and it.k == "vals":
        return [(it.a[0], st)]
    if isinstance(it, ItV) and it.k == "slice":
        return [(I.slice_of(st, it.a[0]), st)]
    if isinstance(it, AdtV) and (I.p.adt_def(it.ty) or "").split("::")[-1] in ("Copied", "Cloned") and isinstance(it.f[0], ItV) and it.f[0].k == "slice":
        return [(I.slice_of(st, it.f[0].a[0]), st)]
    if isinstance(it, AdtV) and (I.p.adt_def(it.ty) or "").split("::")[-1] == "Chain":
        def part(o):
            if isinstance(o, AdtV) and I.p.vname(o.ty, o.v) == "Some":
                return o.f[0]
            return None
        out = [(SeqV([]), st)]
        for o in it.f:
            p = part(o)
            if p is None:
                continue
            nxt = []
            for q, s in out:
                for q2, s2 in collect_iter(I, fr, s, p):
                    nxt.append((mkseq(list(q.s) + list(q2.s)), s2))
            out = nxt
        return out
    return [(mkseq([("e", v) for v in vs]), s) for vs, s in drain_iter(I, fr, st, it)]


def as_iter(I, st, it):
    while isinstance(it, RefV):
        if it.r is not None:
            return ItV("slice", it)
        w = I.deref(st, it)
        if isinstance(w, (ItV, AdtV, RefV)):
            it = w
        else:
            return ItV("slice", sref(I, st, it))
    if isinstance(it, VecV):
        return ItV("vals", it.seq)
    if isinstance(it, SeqV):
        return ItV("vals", it)
    if isinstance(it, AdtV) and (I.p.adt_def(it.ty) or "").split("::")[-1] == "Take" and isinstance(it.f[0], AdtV):
        # a value repeated a number of times
        r = it.f[0]
        if (I.p.adt_def(r.ty) or "").split("::")[-1] == "Repeat" and len(r.f) == 1 and isinstance(it.f[1], L) and isinstance(r.f[0], (L, BoolV)):
            return ItV("vals", mkseq([("r", r.f[0], it.f[1])]))
    return it


def drain_iter(I, fr, st, it):
    """run an iterator to exhaustion (decided trip counts only) -> list of (list of values, st)"""
    todo = [([], it, st)]
    res = []
    n = 0
    while todo:
        vs, cur, s = todo.pop()
        for v, nx, s2 in it_next(I, fr, s, cur):
            if v is None:
                res.append((vs, s2))
            else:
                todo.append((vs + [v], nx, s2))
        n += 1
        if len(todo) + len(res) > 600 or n > 20000:
            raise Undecided("iterator of unknown length")
    return res


ITERS = r"(std::(slice|vec|array|ops|iter|str|range)(::[A-Za-z_]+)*)"


@R(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next$", r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$", r"^<std::vec::Drain<.*> as std::iter::Iterator>::next$",
   r"^<std::array::IntoIter<.*> as std::iter::Iterator>::next$", r"^std::iter::range::<impl std::iter::Iterator for std::ops::Range(Inclusive)?<A>>::next$",
   r"^<std::slice::Chunks\w*<.*> as std::iter::Iterator>::next$", r"^<std::str::(Bytes|Chars)<.*> as std::iter::Iterator>::next$", r"^<std::ops::Range<T> as std::iter::range::RangeIteratorImpl>::spec_next$",
   r"^<std::iter::(Copied|Cloned|Map|Enumerate|Zip|Rev|Chain|Take|Skip|Filter)<.*> as std::iter::Iterator>::next$")
def m_next(I, fr, st, a, c):
    it = I.deref(st, a[0])
    while isinstance(it, RefV):
        a = [it]
        it = I.deref(st, it)
    out = []
    for v, n, s in it_next(I, fr, st, it):
        s = s.copy()
        I.store(s, a[0], n)
        if v is None:
            out.append((none(I, c.dty), s))
        else:
            if isinstance(v, AdtV) and v.ty == -1:
                v = AdtV(fty(I, c.dty, "Some"), 0, v.f)
            out.append((some(I, c.dty, v), s))
    return out


@R(r"^<.* as std::iter::DoubleEndedIterator>::next_back$", r"<impl std::iter::DoubleEndedIterator for .*>::next_back$")
def m_next_back(I, fr, st, a, c):
    it = I.deref(st, a[0])
    out = []
    for v, n, s in it_next_back(I, fr, st, it):
        s = s.copy()
        I.store(s, a[0], n)
        out.append((none(I, c.dty) if v is None else some(I, c.dty, v), s))
    return out


def fix_tuple(I, fr, f, v):
    """give a modelled tuple item its type from the closure's parameter"""
    if isinstance(v, AdtV) and v.ty == -1:
        w = f
        if isinstance(w, AdtV):
            try:
                key = I.closure_key(w.ty)
                return AdtV(I.p.fns[key]["locals"][2], 0, v.f)
            except Undecided:
                pass
    return v


def run_fold(I, fr, st, it, step, acc):
    """step(st, acc, v) -> list of (acc, st, stop)"""
    todo = [(acc, it, st)]
    done = []
    n = 0
    while todo:
        acc, cur, s = todo.pop()
        for v, nx, s2 in it_next(I, fr, s, cur):
            if v is None:
                done.append((acc, s2, False))
                continue
            for a2, s3, stop in step(s2, acc, v):
                if stop:
                    done.append((a2, s3, True))
                else:
                    todo.append((a2, nx, s3))
        n += 1
        if n > 20000 or len(todo) > 600 or len(done) > 600:
            raise Undecided("fold over iterator of unknown length")
    return done


@R(r"^std::iter::Iterator::(sum|product)$", r"^<\w+ as std::iter::(Sum|Product)(<.*>)?>::(sum|product)$")
def m_sum(I, fr, st, a, c):
    it = as_iter(I, st, a[0])
    ty = c.dty
    if I.p.types[ty]["k"] != "int":
        return NotImplemented
    lo, hi = I.p.int_rng(ty)
    prod = "roduct" in c.name

    def step(s, acc, v):
        while isinstance(v, RefV):
            v = I.deref(s, v)
        r = I.mul(s, acc, v, 64) if prod else add(acc, v)
        t, f = I.fork(s, c_le(r, K(hi)))
        if f is not None:
            I.panic(fr, f, "overflow in iterator sum")
        return [(r, t, False)] if t is not None else []
    return [(acc, s) for acc, s, _ in run_fold(I, fr, st, it, step, ONE if prod else ZERO)]


@R(r"^std::iter::Iterator::fold$", r"^<.* as std::iter::Iterator>::fold$", r"<impl std::iter::Iterator for .*>::fold$")
def m_fold(I, fr, st, a, c):
    it = as_iter(I, st, a[0])
    f = a[2]

    def step(s, acc, v):
        return [(w, s2, False) for w, s2, _ in call_mut(I, fr, s, f, [acc, v])]
    return [(acc, s) for acc, s, _ in run_fold(I, fr, st, it, step, a[1])]


@R(r"^std::iter::Iterator::for_each$", r"^<.* as std::iter::Iterator>::for_each$")
def m_for_each(I, fr, st, a, c):
    it = as_iter(I, st, a[0])
    st = st.copy()
    o = I.new_heap(st, a[1])

    def step(s, acc, v):
        v = fix_tuple(I, fr, a[1], v)
        return [(None, s2, False) for w, s2 in I.call_value(fr, s, RefV(o), [v])]
    out = []
    for acc, s, _ in run_fold(I, fr, st, it, step, None):
        s.objs.pop(o, None)
        out.append((unit(I, c.dty), s))
    return out


@R(r"^std::iter::Iterator::(any|all)$", r"^<.* as std::iter::Iterator>::(any|all)$")
def m_any(I, fr, st, a, c):
    it = I.deref(st, a[0])
    isany = c.name.endswith("any")
    f = a[1]

    def step(s, acc, v):
        out = []
        for w, s2, _ in call_mut(I, fr, s, f, [fix_tuple(I, fr, f, v)]):
            t, e = I.fork(s2, w.c)
            if t is not None:
                out.append((True, t, isany))
            if e is not None:
                out.append((False, e, not isany))
        return out
    res = []
    for acc, s, stop in run_fold(I, fr, st, it, step, None):
        res.append((BoolV(isany if stop else not isany), s))
    return res


@R(r"^std::iter::Iterator::(find|position)$", r"^<.* as std::iter::Iterator>::(find|position)$")
def m_find(I, fr, st, a, c):
    it = I.deref(st, a[0])
    f = a[1]
    isfind = c.name.endswith("find")

    def step(s, acc, v):
        out = []
        s = s.copy()
        arg = v
        o = None
        if isfind:
            o = I.new_heap(s, v)
            arg = RefV(o)
        for w, s2, _ in call_mut(I, fr, s, f, [arg]):
            if o is not None:
                s2.objs.pop(o, None)
            t, e = I.fork(s2, w.c)
            if t is not None:
                out.append((some(I, c.dty, v if isfind else K(acc)), t, True))
            if e is not None:
                out.append((acc + 1, e, False))
        return out
    res = []
    for acc, s, stop in run_fold(I, fr, st, it, step, 0):
        res.append((acc if stop else none(I, c.dty), s))
    return res


@R(r"^std::iter::Iterator::count$", r"^<.* as std::iter::Iterator>::count$")
def m_count(I, fr, st, a, c):
    it = as_iter(I, st, a[0])
    if isinstance(it, ItV) and it.k == "slice":
        return [(it.a[0].r[1], st)]
    if isinstance(it, ItV) and it.k == "vals":
        return [(seq_len(it.a[0]), st)]
    if isinstance(it, ItV) and it.k == "chars":
        return [nchars(I, st, it.a[0])]
    return [(K(len(vs)), s) for vs, s in drain_iter(I, fr, st, it)]


@R(r"^std::iter::Iterator::collect$", r"^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$")
def m_collect(I, fr, st, a, c):
    if I.p.types[c.dty]["k"] == "adt" and I.p.adt_def(c.dty) == "std::string::String":
        return m_collect_text(I, fr, st, a, c)
    if not I.p.is_vec(c.dty) or I.p.adt_def(c.dty) != "std::vec::Vec":
        return NotImplemented
    out = collect_iter(I, fr, st, a[0])
    for q, s in out:
        alloc(I, fr, s, seq_len(q), c)
    return [(VecV(q), s) for q, s in out]


# ---------------------------------------------------------------------------------- io::Write
SHORT_WRITES = 2


def io_err(I, st, ety):
    st = bump(st)
    return Sym(("ioerr", st.n), ety), st


@R(r"<impl std::io::Write for std::vec::Vec<u8(, A)?>>::write(_all)?$", r"^<std::vec::Vec<u8(, A)?> as std::io::Write>::write(_all)?$")
def m_vec_write(I, fr, st, a, c):
    q2 = seqof(I, st, a[1])
    st = upd_vec(I, st, a[0], lambda q: mkseq(list(q.s) + list(q2.s)))
    if c.name.endswith("write_all"):
        return [(ok(I, c.dty, unit(I, fty(I, c.dty, "Ok"))), st)]
    return [(ok(I, c.dty, seq_len(q2)), st)]


@R(r"^<vxwitness::W as std::io::Write>::write$")
def m_w_write(I, fr, st, a, c):
    q = seqof(I, st, a[1])
    ln = seq_len(q)
    e, s2 = io_err(I, st, fty(I, c.dty, "Err"))
    s2.ev = s2.ev + (("write_err",),)
    s0 = bump(st)
    s0.ev = s0.ev + (("write", q, ln),)
    out = [(ok(I, c.dty, ln), s0), (err(I, c.dty, e), s2)]
    # or only the first of the bytes are taken
    if sum(1 for x in st.ev if x[0] == "write" and len(x) > 3) >= SHORT_WRITES:
        I.short_cut = True
        return out
    s1 = bump(st)
    n = I.mk_sym(("written", s1.n), fty(I, c.dty, "Ok"))
    t, _ = I.fork(s1, c_and([c_le(ONE, n), c_lt(n, ln)]))
    if t is not None:
        t = t.copy()
        t.ev = t.ev + (("write", q, n, "short"),)
        out.append((ok(I, c.dty, n), t))
    # or none of them: the writer takes no more, which a caller may report as an error
    z, _ = I.fork(bump(st), c_lt(ZERO, ln))
    if z is not None:
        z = z.copy()
        z.ev = z.ev + (("write", q, ZERO, "short"), ("write_none",))
        out.append((ok(I, c.dty, ZERO), z))
    return out


@R(r"^<vxwitness::W as std::io::Write>::flush$")
def m_w_flush(I, fr, st, a, c):
    e, s2 = io_err(I, st, fty(I, c.dty, "Err"))
    s2.ev = s2.ev + (("write_err",),)
    return [(ok(I, c.dty, unit(I, fty(I, c.dty, "Ok"))), st), (err(I, c.dty, e), s2)]


def is_w(I, st, v, ty):
    return True


@M("std::io::Write::write_all")
def m_write_all(I, fr, st, a, c):
    q = seqof(I, st, a[1])
    tgt = a[0]
    v = None
    while isinstance(tgt, RefV):
        v = I.deref(st, tgt)
        if isinstance(v, RefV):
            tgt = v
        else:
            break
    if isinstance(v, VecV):
        st = upd_vec(I, st, tgt, lambda x: mkseq(list(x.s) + list(q.s)))
        return [(ok(I, c.dty, unit(I, fty(I, c.dty, "Ok"))), st)]
    s1 = st.copy()
    s1.ev = s1.ev + (("write_all", q),)
    e, s2 = io_err(I, st, fty(I, c.dty, "Err"))
    s2.ev = s2.ev + (("write_err",),)
    return [(ok(I, c.dty, unit(I, fty(I, c.dty, "Ok"))), s1), (err(I, c.dty, e), s2)]


# ---------------------------------------------------------------------------------- sync
@R(r"^std::sync::Mutex::<T>::(lock|try_lock)$", r"^std::sync::poison::mutex::Mutex::<T>::(lock|try_lock)$")
def m_lock(I, fr, st, a, c):
    ref = asref(I, st, a[0])
    lockref = ref
    st = bump(st)
    mty = None
    v = I.deref(st, ref)
    mty = v.ty
    # other threads may have changed the data since it was last seen
    path = []
    ty = mty
    for _ in range(4):
        fs = I.p.fields(ty)
        nm = {n: (j, f) for j, (n, f) in enumerate(fs)}
        if "data" in nm:
            path.append(nm["data"][0])
            ty = nm["data"][1]
            continue
        if "value" in nm:
            path.append(nm["value"][0])
            ty = nm["value"][1]
        break
    data = I.mk_sym(("locked", st.n), ty)
    k = getattr(I, "lock_len", None)
    if isinstance(data, VecV) and k is not None:
        t = ("locked", st.n)
        data = VecV(mkseq([("e", I.mk_sym(("queued", st.n, i), I.srcty[t])) for i in range(k)]))
    I.write(st, ref.o, ref.p + tuple(path), data)
    st.ev = st.ev + (("lock", lockref, data),)
    gty = fty(I, c.dty, "Ok")
    gfs = I.p.fields(gty)
    g = AdtV(gty, 0, [lockref] + [I.mk_sym(("guard", st.n, n), f) for n, f in gfs[1:]])
    out = [(ok(I, c.dty, g), st)]
    ety = fty(I, c.dty, "Err")
    e = st.copy()
    if I.p.is_enum(ety):
        out.append((err(I, c.dty, Sym(("trylockerr", st.n), ety)), e))
    else:
        fs = I.p.fields(ety)
        out.append((err(I, c.dty, AdtV(ety, 0, [g] + [I.mk_sym(("pe", n), f) for n, f in fs[1:]])), e))
    return out


# ---------------------------------------------------------------------------------- time
@M("std::time::SystemTime::now", "std::time::Instant::now")
def m_now(I, fr, st, a, c):
    st = bump(st)
    st.ev = st.ev + (("now", st.n),)
    return [(Sym(("now", st.n), c.dty), st)]


def tterm(I, v):
    if isinstance(v, Sym):
        return v.t
    return v


TIME_AT = [None]   # (seconds, nanoseconds) between the times asked about, where one instance is looked at


def duration(I, ty, secs, nanos):
    out = []
    for n, f in I.p.fields(ty):
        x = K(secs if "sec" in n else nanos)
        while I.p.types[f]["k"] == "adt":
            inner = I.p.fields(f)
            if len(inner) != 1:
                raise Undecided("shape of a duration")
            f, wrap = inner[0][1], f
            x = AdtV(wrap, 0, [x])
        out.append(x)
    return AdtV(ty, 0, out)


@M("std::time::SystemTime::duration_since")
def m_dur(I, fr, st, a, c):
    v = I.deref(st, a[0])
    d = ("dur", tterm(I, v), tterm(I, a[1]))
    t, f = I.fork(st, ("notbefore", tterm(I, v), tterm(I, a[1])))
    out = []
    if t is not None:
        dty = fty(I, c.dty, "Ok")
        out.append((ok(I, c.dty, Sym(d, dty) if TIME_AT[0] is None else duration(I, dty, *TIME_AT[0])), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("timeerr",), fty(I, c.dty, "Err"))), f))
    return out


def plain(x):
    """a constant wrapped in a range-restricted integer type is that constant"""
    if isinstance(x, AdtV):
        return AdtV(x.ty, x.v, [plain(y) for y in x.f])
    if isinstance(x, Sym) and isinstance(x.t, tuple) and x.t[:1] == ("transmute",) and "pattern_type" in str(x.t[-1]) and isinstance(x.t[1], L):
        return x.t[1]
    if isinstance(x, Sym) and isinstance(x.t, tuple) and x.t[:1] == ("pat",) and all(isinstance(y, int) or y is None for y in x.t[1]):
        return K(sum((y or 0) << (8 * i) for i, y in enumerate(x.t[1])))
    return x


def no_time(st, x):
    if isinstance(x, AdtV):
        return bool(x.f) and all(no_time(st, y) for y in x.f)
    return isinstance(x, L) and st.cval(x) == 0


def shifted(I, st, a, sign):
    """a time moved by a duration, as a term of its own; None for what has no better description than its code"""
    t, d = a[0], plain(a[1])
    if isinstance(t, RefV):
        t = I.deref(st, t)
    if not isinstance(t, Sym):
        return None
    if isinstance(d, AdtV) and no_time(st, d):
        return t.t
    return ("moved", sign, t.t, d.t if isinstance(d, Sym) else d)


@R(r"^<std::time::SystemTime as std::ops::(Add|Sub)<std::time::Duration>>::(add|sub)$")
def m_time_shift(I, fr, st, a, c):
    t = shifted(I, st, a, "+" if c.name.endswith("add") else "-")
    if t is None:
        return NotImplemented
    if t[:1] == ("moved",):
        t1, f1 = I.fork(st, ("timefits", t))
        if f1 is not None:
            I.panic(fr, f1, "overflow when moving a time by a duration")
        st = t1
    return [] if st is None else [(Sym(t, c.dty), st)]


@M("std::time::SystemTime::checked_add", "std::time::SystemTime::checked_sub")
def m_time_shift_checked(I, fr, st, a, c):
    t = shifted(I, st, a, "+" if c.name.endswith("add") else "-")
    if t is None:
        return NotImplemented
    t1, f1 = I.fork(st, ("timefits", t))
    out = []
    if t1 is not None:
        out.append((some(I, c.dty, Sym(t, fty(I, c.dty, "Some"))), t1))
    if f1 is not None:
        out.append((none(I, c.dty), f1))
    return out


@M("std::time::SystemTime::elapsed")
def m_elapsed(I, fr, st, a, c):
    v = I.deref(st, a[0])
    st = bump(st)
    st.ev = st.ev + (("now", st.n),)
    d = ("dur", ("now", st.n), tterm(I, v))
    t, f = I.fork(st, ("notbefore", ("now", st.n), tterm(I, v)))
    out = []
    if t is not None:
        dty = fty(I, c.dty, "Ok")
        out.append((ok(I, c.dty, Sym(d, dty) if TIME_AT[0] is None else duration(I, dty, *TIME_AT[0])), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("timeerr",), fty(I, c.dty, "Err"))), f))
    return out


# ---------------------------------------------------------------------------------- formatting (opaque)
@R(r"^std::fmt::format$", r"^std::fmt::format::format_inner$", r"^<T as std::string::SpecToString>::spec_to_string$", r"^<T as std::string::ToString>::to_string$")
def m_format(I, fr, st, a, c):
    printed(I, fr, st, a)
    st = bump(st)
    return [(I.mk_sym(("fmt", st.n), c.dty), st)]


@R(r"^std::fmt::Arguments::.*$", r"^std::fmt::rt::.*$")
def m_fmt_args(I, fr, st, a, c):
    return [(Sym(("fmtargs",) + tuple(a), c.dty), st)]


@R(r"^<.* as std::fmt::(Debug|Display|Write)>::\w+$", r"^std::fmt::Formatter::<.*>::\w+$")
def m_fmt(I, fr, st, a, c):
    if c.key in I.p.fns and I.p.fns[c.key]["crate"] in ("stratumv2", "noiseexplorer_nx"):
        return NotImplemented
    printed(I, fr, st, a)
    st = bump(st)
    return [(I.mk_sym(("fmtres", st.n), c.dty), st)]


@R(r"^std::fmt::(builders::)?Debug(Struct|Tuple|List|Map|Set)::<.*>::\w+$")
def m_fmt_builder(I, fr, st, a, c):
    printed(I, fr, st, a)
    st = bump(st)
    if c.argtys and c.dty == c.argtys[0]:
        return [(a[0], st)]
    return [(I.mk_sym(("fmtres", st.n), c.dty), st)]


def printed(I, fr, st, a):
    if I.fmtout is not None:
        I.fmtout.append((tuple(a), st.copy(), I.stack(fr)))


@R(r"^std::io::Error::(new|other)$", r"^<std::io::Error as std::convert::From<.*>>::from$")
def m_ioerr(I, fr, st, a, c):
    return [(Sym(("ioerror",) + tuple(x for x in a if isinstance(x, AdtV)), c.dty), st)]


@M("std::io::Error::kind")
def m_iokind(I, fr, st, a, c):
    v = I.deref(st, a[0])
    return [(Sym(("iokind", tterm(I, v)), c.dty), st)]


# ---------------------------------------------------------------------------------- randomness
@M("rand::rngs::thread::thread_rng", "rand::thread_rng")
def m_thread_rng(I, fr, st, a, c):
    return [(Sym(("thread_rng",), c.dty), st)]


def rng_name(I, st, v, ty=None):
    while isinstance(v, RefV):
        v = I.deref(st, v)
    if isinstance(v, Sym) and v.t and v.t[0] == "seeded":
        return v.t
    if isinstance(v, (AdtV, Sym)):
        return I.p.adt_def(v.ty) or I.p.tname(v.ty)
    return "?"


@R(r"SeedableRng(>)?::(seed_from_u64|from_seed|from_rng|from_entropy|from_os_rng)$")
def m_seed(I, fr, st, a, c):
    how = c.name.split("::")[-1]
    if how in ("from_entropy", "from_os_rng"):
        return [(Sym(("seeded", how), c.dty), st)]
    v = a[0]
    if how == "from_rng":
        d = ("seeded", how, rng_name(I, st, v))
        if I.p.is_enum(c.dty):
            return [(ok(I, c.dty, Sym(d, fty(I, c.dty, "Ok"))), st)]
        return [(Sym(d, c.dty), st)]
    return [(Sym(("seeded", how, I.deref(st, v) if isinstance(v, RefV) else v), c.dty), st)]


def overdrawn(I, st):
    """a task may leave out the paths that draw again and again, as a loop that rejects draws does"""
    return getattr(I, "draw_limit", None) is not None and sum(1 for e in st.ev if e[0] == "rand") >= I.draw_limit


@R(r"rand(_core)?::Rng(Ext)?::gen_range$")
def m_gen_range(I, fr, st, a, c):
    if overdrawn(I, st):
        return []
    st = bump(st)
    rn = rng_name(I, st, a[0])
    if len(a) == 3 and isinstance(a[1], L) and isinstance(a[2], L):
        t, f = I.fork(st, c_lt(a[1], a[2]))
        if f is not None:
            I.panic(fr, f, "gen_range: low >= high")
        if t is None:
            return []
        x = I.mk_sym(("rand", t.n, rn), c.dty)
        t.assume(c_le(a[1], x))
        t.assume(c_lt(x, a[2]))
        t.ev = t.ev + (("rand", rn, a[1], a[2]),)
        return [(x, t)]
    st.ev = st.ev + (("rand", rn),)
    return [(I.mk_sym(("rand", st.n, rn), c.dty), st)]


@R(r"rand(_core)?::Rng(Ext)?::gen$", r"^rand::random$", r"RngCore(>)?::next_u(32|64)$")
def m_gen(I, fr, st, a, c):
    if overdrawn(I, st):
        return []
    st = bump(st)
    rn = rng_name(I, st, a[0]) if a else "rand::rngs::thread::ThreadRng"
    st.ev = st.ev + (("rand", rn),)
    return [(I.mk_sym(("rand", st.n, rn), c.dty), st)]


@R(r"(RngCore|Rng)(>)?::(fill_bytes|try_fill_bytes|fill)$")
def m_fill_bytes(I, fr, st, a, c):
    if overdrawn(I, st):
        return []
    st = bump(st)
    rn = rng_name(I, st, a[0])
    d = sref(I, st, a[1])
    I.write_range(st, d, SeqV([("s", ("rand", st.n, rn), ZERO, d.r[1])]))
    st.ev = st.ev + (("rand", rn),)
    if I.p.types[c.dty]["k"] == "tuple":
        return [(unit(I, c.dty), st)]
    return [(ok(I, c.dty, unit(I, fty(I, c.dty, "Ok"))), st)]


# ---------------------------------------------------------------------------------- crypto (ideal terms)
@M("blake2_rfc::blake2s::Blake2s::new")
def m_b2_new(I, fr, st, a, c):
    t, f = I.fork(st, c_and([c_le(ONE, a[0]), c_le(a[0], K(32))]))
    if f is not None:
        I.panic(fr, f, "Blake2s::new digest length")
    return [(Sym(("b2s", a[0], SeqV([])), c.dty), t)] if t is not None else []


@M("blake2_rfc::blake2s::Blake2s::with_key")
def m_b2_key(I, fr, st, a, c):
    return [(Sym(("b2s", (a[0], seqof(I, st, a[1])), SeqV([])), c.dty), st)]


@M("blake2_rfc::blake2s::Blake2s::update")
def m_b2_update(I, fr, st, a, c):
    st = st.copy()
    v = I.deref(st, a[0])
    q = seqof(I, st, a[1])
    I.store(st, a[0], Sym(("b2s", v.t[1], mkseq(list(v.t[2].s) + list(q.s))), v.ty))
    return [(unit(I, c.dty), st)]


@M("blake2_rfc::blake2s::Blake2s::finalize")
def m_b2_fin(I, fr, st, a, c):
    v = a[0]
    return [(Sym(("H", v.t[1], v.t[2]), c.dty), st)]


@M("blake2_rfc::blake2s::blake2s")
def m_b2_oneshot(I, fr, st, a, c):
    key = seqof(I, st, a[1])
    n = a[0] if seq_len(key) == ZERO else (a[0], key)
    return [(Sym(("H", n, seqof(I, st, a[2])), c.dty), st)]


@M("blake2_rfc::blake2s::Blake2sResult::as_bytes", "<blake2_rfc::blake2s::Blake2sResult as std::convert::AsRef<[u8]>>::as_ref")
def m_b2_bytes(I, fr, st, a, c):
    st = st.copy()
    v = I.deref(st, a[0])
    n = v.t[1]
    n = n if isinstance(n, L) else n[0]
    o = ("hash", v.t)
    st.objs[o] = SeqV([("s", v.t, ZERO, n)])
    return [(RefV(o, (), (ZERO, n)), st)]


@M("hacl_star::chacha20poly1305::key", "hacl_star::chacha20poly1305::nonce", "hacl_star::curve25519::secretkey", "hacl_star::curve25519::publickey")
def m_hacl_ref(I, fr, st, a, c):
    return [(a[0], st)]


@M("hacl_star::chacha20poly1305::Key::nonce")
def m_hacl_nonce(I, fr, st, a, c):
    return [(AdtV(c.dty, 0, [a[0], a[1]]), st)]


def opened(I, st, k, n, ad, m, mac):
    """the text, when this is exactly what was encrypted under this key, nonce and associated data"""
    from .core import seq_align
    segs = [g for g in mac.s if st.decide(c_eq(seg_len(g), ZERO)) is not True]
    if len(segs) != 1 or segs[0][0] != "s" or segs[0][2] != ZERO:
        return None
    t = segs[0][1]
    if not (isinstance(t, tuple) and t[0] == "MAC"):
        return None
    want = mkseq([("s", ("ENC",) + t[1:], ZERO, seq_len(t[4]))])
    for x, y in ((k, t[1]), (n, t[2]), (ad, t[3]), (m, want)):
        if x != y and seq_align(I, st, x, y) is not True:
            return None
    return t[4]


@R(r"^hacl_star::chacha20poly1305::<impl hacl_star::And<.*>>::(en|de)crypt$")
def m_aead(I, fr, st, a, c):
    st = st.copy()
    k, n = seqof(I, st, a[0].f[0]), seqof(I, st, a[0].f[1])
    ad = seqof(I, st, a[1])
    d = sref(I, st, a[2])
    m = I.slice_of(st, d)
    if c.name.endswith("encrypt"):
        t = (k, n, ad, m)
        I.write_range(st, d, mkseq([("s", ("ENC",) + t, ZERO, d.r[1])]))
        I.write_range(st, sref(I, st, a[3]), SeqV([("s", ("MAC",) + t, ZERO, K(16))]))
        st.ev = st.ev + (("enc",) + t,)
        return [(unit(I, c.dty), st)]
    mac = seqof(I, st, a[3])
    t = (k, n, ad, m, mac)
    pt = opened(I, st, k, n, ad, m, mac)
    if pt is not None:
        # exactly what was encrypted under this key, nonce and associated data
        I.write_range(st, d, pt)
        st.ev = st.ev + (("dec",) + t,)
        return [(BoolV(True), st)]
    y, f = I.fork(st, ("authok",) + t)
    out = []
    if y is not None:
        y = y.copy()
        I.write_range(y, d, mkseq([("s", ("DEC",) + t, ZERO, d.r[1])]))
        y.ev = y.ev + (("dec",) + t,)
        out.append((BoolV(True), y))
    if f is not None:
        f = f.copy()
        f.ev = f.ev + (("decfail",) + t,)
        out.append((BoolV(False), f))
    return out


@M("hacl_star::curve25519::scalarmult")
def m_scalarmult(I, fr, st, a, c):
    st = st.copy()
    sk, pk = seqof(I, st, a[1]), seqof(I, st, a[2])
    st.ev = st.ev + (("dh", sk, pk),)
    I.write_range(st, sref(I, st, a[0]), dh_seq(sk, pk))
    return [(unit(I, c.dty), st)]


@M("hacl_star::curve25519::SecretKey::exchange")
def m_exchange(I, fr, st, a, c):
    st = st.copy()
    sk, pk = seqof(I, st, a[0]), seqof(I, st, a[1])
    st.ev = st.ev + (("dh", sk, pk),)
    I.write_range(st, sref(I, st, a[2]), dh_seq(sk, pk))
    return [(unit(I, c.dty), st)]


BASEPOINT = bytes_seq([9] + [0] * 31)


def dh_seq(sk, pk):
    if pk == BASEPOINT:
        return pub_seq(sk)
    if len(pk.s) == 1 and pk.s[0][0] == "s" and isinstance(pk.s[0][1], tuple) and pk.s[0][1][0] == "PUB" and pk.s[0][2] == ZERO:
        # both ends compute the same secret
        return SeqV([("s", ("DHS", frozenset((sk, pk.s[0][1][1]))), ZERO, K(32))])
    return SeqV([("s", ("DH", sk, pk), ZERO, K(32))])


def pub_seq(sk):
    return SeqV([("s", ("PUB", sk), ZERO, K(32))])


@M("hacl_star::curve25519::SecretKey::get_public")
def m_get_public(I, fr, st, a, c):
    sk = seqof(I, st, a[0])
    return [(AdtV(c.dty, 0, [pub_seq(sk)]), st)]


@M("hacl_star::curve25519::keypair")
def m_keypair(I, fr, st, a, c):
    st = bump(st)
    rn = rng_name(I, st, a[0])
    st.ev = st.ev + (("rand", rn, "curve25519"),)
    sk = SeqV([("s", ("randkey", st.n, rn), ZERO, K(32))])
    fs = I.p.fields(c.dty)
    return [(AdtV(c.dty, 0, [AdtV(fs[0][1], 0, [sk]), AdtV(fs[1][1], 0, [pub_seq(sk)])]), st)]


@R(r"^<\[Z; \d+\] as zeroize::Zeroize>::zeroize$", r"^<\[Z; N\] as zeroize::Zeroize>::zeroize$", r"^<\[Z\] as zeroize::Zeroize>::zeroize$")
def m_zeroize(I, fr, st, a, c):
    st = st.copy()
    d = sref(I, st, a[0])
    I.write_range(st, d, mkseq([("r", ZERO, d.r[1])]))
    return [(unit(I, c.dty), st)]


@R(r"^<std::vec::Vec<Z> as zeroize::Zeroize>::zeroize$", r"^<std::string::String as zeroize::Zeroize>::zeroize$")
def m_zeroize_vec(I, fr, st, a, c):
    return [(unit(I, c.dty), upd_vec(I, st, a[0], lambda q: SeqV([])))]


@R(r"^<Z as zeroize::Zeroize>::zeroize$")
def m_zeroize_int(I, fr, st, a, c):
    st = st.copy()
    I.store(st, a[0], ZERO)
    return [(unit(I, c.dty), st)]


@M("hex::encode", "hex::encode_upper")
def m_hex_encode(I, fr, st, a, c):
    return [(VecV(text_term(I, c.name, seqof(I, st, asref(I, st, a[0]) if isinstance(a[0], RefV) else a[0]))), st)]


@M("hex::decode", "<T as hex::FromHex>::from_hex", "<std::vec::Vec<u8> as hex::FromHex>::from_hex")
def m_hex(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    t, f = I.fork(st, ("hexok", q))
    out = []
    src = ("unhex", q)
    if t is not None:
        out.append((ok(I, c.dty, VecV(SeqV([("s", src, ZERO, symlen(src, 0, (1 << 62)))]))), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("hexerr", q), fty(I, c.dty, "Err"))), f))
    return out


@M("bitcoin::util::base58::from")
def m_b58(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    t, f = I.fork(st, ("b58ok", q))
    out = []
    src = ("unb58", q)
    if t is not None:
        out.append((ok(I, c.dty, VecV(SeqV([("s", src, ZERO, symlen(src, 0, (1 << 62)))]))), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("b58err", q), fty(I, c.dty, "Err"))), f))
    return out


# ---- ed25519
def sig_ok(I, st, q):
    b = I.bits_of(st, I.seq_get(st, q, K(63)), 8)
    if b is None:
        return ("sigok", q)
    return c_and([c_not(bit_cond(x)) for x in b[5:]])


def mk_sig(q, ty):
    return Sym(("sig", q), ty)


@M("ed25519::Signature::new")
def m_sig_new(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    t, f = I.fork(st, sig_ok(I, st, q))
    if f is not None:
        I.panic(fr, f, "ed25519::Signature::new panics on a non-reduced signature")
    return [(mk_sig(q, c.dty), t)] if t is not None else []


@R(r"^ed25519::Signature::from_bytes$", r"^<ed25519::Signature as std::convert::TryFrom<&('a )?\[u8\]>>::try_from$", r"^<ed25519::Signature as signature::\w*:*Signature>::from_bytes$",
   r"^<ed25519::Signature as std::convert::TryFrom<.*>>::try_from$")
def m_sig_from(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    out = []
    ety = fty(I, c.dty, "Err")
    t, f = I.fork(st, c_eq(seq_len(q), K(64)))
    if f is not None:
        out.append((err(I, c.dty, Sym(("sigerr",), ety)), f))
    if t is not None:
        q = I.seq_slice(t, q, ZERO, K(64))
        t2, f2 = I.fork(t, sig_ok(I, t, q))
        if t2 is not None:
            out.append((ok(I, c.dty, mk_sig(q, fty(I, c.dty, "Ok"))), t2))
        if f2 is not None:
            out.append((err(I, c.dty, Sym(("sigerr",), ety)), f2))
    return out


def sig_bytes(v):
    if isinstance(v.t, tuple) and v.t[0] == "sig":
        return v.t[1]
    return SeqV([("s", ("sigbytes", v.t), ZERO, K(64))])


@M("ed25519::Signature::to_bytes")
def m_sig_bytes(I, fr, st, a, c):
    v = a[0]
    while isinstance(v, RefV):
        v = I.deref(st, v)
    return [(sig_bytes(v), st)]


@M("<ed25519::Signature as std::convert::AsRef<[u8]>>::as_ref")
def m_sig_asref(I, fr, st, a, c):
    st = st.copy()
    v = I.deref(st, a[0])
    o = ("sigbuf", v.t)
    st.objs[o] = sig_bytes(v)
    return [(RefV(o, (), (ZERO, K(64))), st)]


@R(r"^<ed25519::Signature as std::clone::Clone>::clone$", r"^<ed25519_dalek::.* as std::clone::Clone>::clone$")
def m_sig_clone(I, fr, st, a, c):
    return [(I.deref(st, a[0]), st)]


@R(r"^<ed25519::Signature as std::cmp::PartialEq>::(eq|ne)$")
def m_sig_eq(I, fr, st, a, c):
    e = seqeq(I, st, sig_bytes(I.deref(st, a[0])), sig_bytes(I.deref(st, a[1])))
    return [(BoolV(c_not(e) if c.name.endswith("ne") else e), st)]


@M("ed25519_dalek::public::PublicKey::from_bytes")
def m_edpk(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    t, f = I.fork(st, ("edpkok", q))
    out = []
    if t is not None:
        out.append((ok(I, c.dty, Sym(("edpk", q), fty(I, c.dty, "Ok"))), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("edpkerr", q), fty(I, c.dty, "Err"))), f))
    return out


@R(r"^<ed25519_dalek::public::PublicKey as signature::\w*:*Verifier<.*>>::verify$", r"^ed25519_dalek::public::PublicKey::verify_strict$")
def m_verify(I, fr, st, a, c):
    pk = I.deref(st, a[0])
    msg = seqof(I, st, a[1])
    sg = I.deref(st, a[2])
    t, f = I.fork(st, ("edverify", tterm(I, pk), msg, tterm(I, sg)))
    out = []
    if t is not None:
        t = t.copy()
        t.ev = t.ev + (("verified", tterm(I, pk), msg, tterm(I, sg)),)
        out.append((ok(I, c.dty, unit(I, fty(I, c.dty, "Ok"))), t))
    if f is not None:
        out.append((err(I, c.dty, Sym(("edsigerr",), fty(I, c.dty, "Err"))), f))
    return out


@R(r"^signature::signer::Signer::(try_)?sign$", r"as signature::signer::Signer<.*>>::(try_)?sign$")
def m_sign(I, fr, st, a, c):
    kp = I.deref(st, a[0])
    while isinstance(kp, RefV):
        kp = I.deref(st, kp)
    msg = seqof(I, st, a[1])
    st = st.copy()
    t = ("edsig", tterm(I, kp), msg)
    st.ev = st.ev + (("signed", tterm(I, kp), msg),)
    if c.name.endswith("try_sign"):
        e = err(I, c.dty, Sym(("edsigerr",), fty(I, c.dty, "Err")))
        return [(ok(I, c.dty, Sym(t, fty(I, c.dty, "Ok"))), st), (e, st.copy())]
    return [(Sym(t, c.dty), st)]


@M("ed25519_dalek::keypair::Keypair::generate")
def m_edgen(I, fr, st, a, c):
    st = bump(st)
    st.ev = st.ev + (("rand", rng_name(I, st, a[0]), "ed25519"),)
    return [(Sym(("edkp", st.n, rng_name(I, st, a[0])), c.dty), st)]


@R(r"^std::result::unwrap_failed$", r"^std::option::(unwrap|expect)_failed$", r"^std::panicking::.*$", r"^std::rt::.*panic.*$", r"_fail(ed)?(_inner)?$", r"^std::alloc::handle_alloc_error$",
   r"^std::handle_alloc_error$", r"^std::num::imp::overflow_panic::.*$", r"^std::process::(abort|exit)$")
def m_diverge(I, fr, st, a, c):
    return [(UNINIT, st)]


# ---------------------------------------------------------------------------------- text
def pat_of(I, st, v, ty):
    """a text pattern (a string, or a character below 128), or None"""
    p = I.p
    while ty is not None and p.types[ty]["k"] in ("ref", "ptr") and p.types[p.pointee(ty)]["k"] not in ("str", "slice"):
        ty = p.pointee(ty)
        if isinstance(v, RefV) and v.r is None:
            v = I.deref(st, v)
    t = p.types[ty]
    if t["k"] == "char" and isinstance(v, L):
        return SeqV([("e", v)]) if st.decide(c_lt(v, K(128))) is True else None
    if t["k"] in ("ref", "ptr") and p.types[p.pointee(ty)]["k"] == "str" or t["k"] == "adt" and p.adt_def(ty) == "std::string::String":
        return seqof(I, st, v)
    return None


def text_term(I, tag, *args):
    """a text about which only its origin is known"""
    src = (tag,) + args
    I.utf8.add(src)
    return SeqV([("s", src, ZERO, symlen(src, 0, 1 << 62))])


@R(r"^std::str::<impl str>::(starts|ends)_with$")
def m_str_starts(I, fr, st, a, c):
    y = pat_of(I, st, a[1], c.argtys[1])
    if y is None:
        return NotImplemented
    x = seqof(I, st, a[0])
    n, m = seq_len(x), seq_len(y)
    t, f = I.fork(st, c_le(m, n))
    out = []
    if t is not None:
        off = ZERO if "starts" in c.name else sub(n, m)
        out.append((BoolV(seqeq(I, t, I.seq_slice(t, x, off, m), y)), t))
    if f is not None:
        out.append((BoolV(False), f))
    return out


@R(r"^std::str::<impl str>::strip_(prefix|suffix)$", r"^std::slice::<impl \[T\]>::strip_(prefix|suffix)$")
def m_str_strip(I, fr, st, a, c):
    if "[T]" in c.name:
        v = I.deref(st, a[1]) if isinstance(a[1], RefV) else a[1]
        if not isinstance(v, (SeqV, VecV)):
            return NotImplemented
        y = seqof(I, st, a[1])
    else:
        y = pat_of(I, st, a[1], c.argtys[1])
    if y is None:
        return NotImplemented
    x = sref(I, st, a[0])
    q = seqof(I, st, a[0])
    n, m = seq_len(q), seq_len(y)
    t, f = I.fork(st, c_le(m, n))
    out = []
    if t is not None:
        pre = "prefix" in c.name
        eq = seqeq(I, t, I.seq_slice(t, q, ZERO if pre else sub(n, m), m), y)
        yes, no = I.fork(t, eq)
        if yes is not None:
            r = RefV(x.o, x.p, (add(x.r[0], m) if pre else x.r[0], sub(n, m)))
            out.append((some(I, c.dty, r), yes))
        if no is not None:
            out.append((none(I, c.dty), no))
    if f is not None:
        out.append((none(I, c.dty), f))
    return out


@R(r"^std::str::<impl str>::(replace|replacen)$")
def m_str_replace(I, fr, st, a, c):
    q, y, z = seqof(I, st, a[0]), pat_of(I, st, a[1], c.argtys[1]), seqof(I, st, a[2])
    k = known(q)
    if y is not None and k is not None and known(y) and known(z) is not None and c.name.endswith("replace"):
        return [(VecV(lit_seq(k.replace(known(y), known(z)))), st)]
    return [(VecV(text_term(I, "replaced", q, y, z)), st)]


@M("std::string::String::push")
def m_str_push(I, fr, st, a, c):
    ch = a[1]
    k = st.cval(ch)
    if k is not None:
        segs = list(lit_seq(chr(k).encode("utf-8", "surrogatepass")).s)
    elif st.decide(c_lt(ch, K(128))) is True:
        segs = [("e", ch)]
    else:
        at = ch.t[0][0] if len(ch.t) == 1 and not ch.c else None
        if at is not None and at.op == "sym" and isinstance(at.args[0], tuple) and at.args[0][0] == "char":
            # the first character of a text
            q = at.args[0][1]
            segs = list(I.seq_slice(st, q, ZERO, A(Atom("sym", (("charw", q),), 64, 2, 4))).s)
        else:
            out = []
            asc, wide = I.fork(st, c_lt(ch, K(128)))
            if asc is not None:
                out += m_str_push(I, fr, asc, a, c)
            if wide is not None:
                q = ("utf8 of", ch)
                I.utf8.add(q)
                w = A(Atom("len", (q,), 64, 2, 4))
                out.append((unit(I, c.dty), upd_vec(I, wide, a[0], lambda v: mkseq(list(v.s) + [("s", q, ZERO, w)]))))
            return out
    return [(unit(I, c.dty), upd_vec(I, st, a[0], lambda q: mkseq(list(q.s) + segs)))]


@M("std::string::String::pop")
def m_str_pop(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    n = seq_len(q)
    t, f = I.fork(st, c_le(ONE, n))
    out = []
    if f is not None:
        out.append((none(I, c.dty), f))
    if t is not None:
        b = I.seq_get(t, q, sub(n, ONE))
        asc, wide = I.fork(t, c_lt(b, K(128)))
        if asc is not None:
            out.append((some(I, c.dty, b), upd_vec(I, asc, a[0], lambda v: I.seq_slice(asc, v, ZERO, sub(n, ONE)))))
        if wide is not None:
            wide = wide.copy()
            w = A(Atom("sym", (("lastw", q),), 64, 2, 4))
            if wide.assume(c_le(w, n)):
                ch = A(Atom("sym", (("lastchar", q),), 32, 0x80, 0x10ffff))
                out.append((some(I, c.dty, ch), upd_vec(I, wide, a[0], lambda v: I.seq_slice(wide, v, ZERO, sub(n, w)))))
    return out


@M("std::string::String::truncate")
def m_str_truncate(I, fr, st, a, c):
    q = seqof(I, st, a[0])
    n = seq_len(q)
    t, f = I.fork(st, c_le(n, a[1]))
    out = []
    if t is not None:
        out.append((unit(I, c.dty), t))
    if f is not None:
        k = known(q)
        g, h = (f, None) if k is not None and all(x < 128 for x in k) else I.fork(f, ("charbound", q, ZERO, a[1]))
        if h is not None:
            I.panic(fr, h, "String::truncate not on a char boundary")
        if g is not None:
            out.append((unit(I, c.dty), upd_vec(I, g, a[0], lambda v: I.seq_slice(g, v, ZERO, a[1]))))
    return out


def chars_base(it):
    """the text a chain of adaptors takes characters from"""
    for _ in range(12):
        if isinstance(it, ItV) and it.k == "chars":
            return it
        nx = [x for x in (it.a if isinstance(it, ItV) else it.f if isinstance(it, AdtV) else ()) if isinstance(x, (ItV, AdtV)) and chars_base(x) is not None]
        if len(nx) != 1:
            return None
        it = nx[0]
    return None


@R(r"^<std::string::String as std::iter::FromIterator<char>>::from_iter$")
def m_collect_text(I, fr, st, a, c):
    it = as_iter(I, st, a[0])
    if isinstance(it, ItV) and it.k == "chars":
        return [(VecV(it.a[0]), st)]
    base = chars_base(it)
    if base is None:
        return NotImplemented
    q = base.a[0]
    k = known(q)
    if k is not None and all(x < 128 for x in k) and len(k) <= 64:
        out = []
        for vs, s in drain_iter(I, fr, st, it):
            ks = [s.cval(v) if isinstance(v, L) else None for v in vs]
            if any(x is None for x in ks):
                raise Undecided("characters collected into a text")
            out.append((VecV(lit_seq("".join(map(chr, ks)).encode())), s))
        return out
    return [(VecV(text_term(I, "chosen characters", q, st.n)), bump(st))]


@R(r"^std::thread::LocalKey::<T>::with$")
def m_random_state(I, fr, st, a, c):
    """the seeds a hash table takes from its thread; nothing else kept per thread is followed"""
    if (I.p.adt_def(c.dty) or "").split("::")[-1] != "RandomState":
        return NotImplemented
    st = bump(st)
    return [(Sym(("hash seed", st.n), c.dty), st)]


# ---------------------------------------------------------------------------------- atomics
@R(r"^std::sync::atomic::Atomic(::<\w+>|[A-Z]\w*)?::(load|swap|fetch_\w+|into_inner|compare_exchange(_weak)?|compare_and_swap)$")
def m_atomic_get(I, fr, st, a, c):
    """shared with other threads: any value may be found"""
    st = bump(st)
    x = I.mk_sym(("atomic", st.n), c.dty) if not I.p.is_enum(c.dty) else None
    st.ev = st.ev + (("atomic", c.name.rsplit("::", 1)[-1], a[0] if isinstance(a[0], RefV) else None),)
    if x is not None:
        return [(x, st)]
    v = I.mk_sym(("atomic", st.n), fty(I, c.dty, "Ok"))
    return [(ok(I, c.dty, v), st), (err(I, c.dty, v), st.copy())]


@R(r"^std::sync::atomic::Atomic(::<\w+>|[A-Z]\w*)?::store$")
def m_atomic_set(I, fr, st, a, c):
    return [(unit(I, c.dty), st)]
