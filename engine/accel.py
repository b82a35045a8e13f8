"""Exact summaries of counting loops.

A loop whose only way out is its own trip count, and whose body changes the state by the same step each
time, is replaced by its closed form: the state after j rounds is guessed from one round, checked to be
inductive by interpreting the body once more from that guess, and then instantiated at the trip count."""
from .dom import *


class No(Exception):
    pass


def natural_loop(p, key, h):
    num, preds, heads = p.rpo(key)
    body = {h}
    todo = [b for b in preds.get(h, ()) if num[b] >= num[h]]
    while todo:
        b = todo.pop()
        if b in body:
            continue
        body.add(b)
        todo.extend(x for x in preds.get(b, ()) if x not in body)
    return body


def one_round(I, fr, h, body, st, heads):
    """-> (states back at the header, [(block, state)] that left the loop)"""
    pend = {h: [st]}
    num = I.p.rpo(fr.key)[0]
    back, exits = [], []
    first = True
    while pend:
        bb = min(pend, key=lambda b: (b != h or not first, num[b]))
        sts = pend.pop(bb)
        first = False
        if len(sts) > 8:
            raise No
        for s in sts:
            fr.bb = bb
            for nb, ns in I.exec_block(fr, s, bb, heads):
                if nb == h:
                    back.append(ns)
                elif nb == "ret" or nb not in body:
                    exits.append((nb, ns))
                else:
                    pend.setdefault(nb, []).append(ns)
    return back, exits


def gen(I, st, a, b, n):
    """the value after n rounds, where one round takes a to b"""
    if a == b:
        return a
    if isinstance(a, L) and isinstance(b, L):
        d = sub(b, a)
        if d.const is None:
            raise No
        return add(a, scale(n, d.c))
    if isinstance(a, AdtV) and isinstance(b, AdtV) and a.ty == b.ty and a.v == b.v and len(a.f) == len(b.f):
        return AdtV(a.ty, a.v, [gen(I, st, x, y, n) for x, y in zip(a.f, b.f)])
    if isinstance(a, RefV) and isinstance(b, RefV) and a.o == b.o and a.r is not None and b.r is not None and len(a.p) == len(b.p):
        return RefV(a.o, gpath(I, st, a.p, b.p, n), (gen(I, st, a.r[0], b.r[0], n), gen(I, st, a.r[1], b.r[1], n)))
    if isinstance(a, RefV) and isinstance(b, RefV) and a.o == b.o and a.r is None and b.r is None and len(a.p) == len(b.p):
        return RefV(a.o, gpath(I, st, a.p, b.p, n))
    if isinstance(a, ItV) and isinstance(b, ItV) and a.k == b.k and len(a.a) == len(b.a):
        return ItV(a.k, *[gen(I, st, x, y, n) if isinstance(x, V) else same(x, y) for x, y in zip(a.a, b.a)])
    if isinstance(a, VecV) and isinstance(b, VecV):
        return VecV(gen(I, st, a.seq, b.seq, n))
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return gseq(I, st, a, b, n)
    raise No


def same(x, y):
    if x != y:
        raise No
    return x


def gpath(I, st, p, q, n):
    out = []
    for x, y in zip(p, q):
        if x == y:
            out.append(x)
        elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "i":
            out.append(("i", gen(I, st, x[1], y[1], n)))
        else:
            raise No
    return tuple(out)


def times(seg, n):
    """n rounds' worth of one appended segment"""
    if seg[0] == "s":
        k = seg[3].const
        if k is None or k < 1:
            raise No
        return ("s", seg[1], seg[2], scale(n, k))
    if seg[0] == "e":
        return ("r", seg[1], n)
    k = seg[2].const
    if k is None:
        raise No
    return ("r", seg[1], scale(n, k))


def gseq(I, st, a, b, n):
    la, lb = seq_len(a), seq_len(b)
    d = sub(lb, la)
    if d.const is None:
        raise No
    if d.c > 0:
        # appended
        r = I.seq_split(st, b.s, la)
        if r is None:
            raise No
        if mkseq(list(r[0])) == a and len(r[1]) == 1:
            return mkseq(list(a.s) + [times(r[1][0], n)])
        raise No
    if d.c < 0:
        # taken from the front
        r = I.seq_split(st, a.s, K(-d.c))
        if r is None or mkseq(list(r[1])) != b or len(a.s) != 1:
            raise No
        k = scale(n, -d.c)
        x = a.s[0]
        if x[0] == "s":
            return mkseq([("s", x[1], add(x[2], k), sub(x[3], k))])
        if x[0] == "r":
            return mkseq([("r", x[1], sub(x[2], k))])
        raise No
    # overwritten from the front, one place after the other
    for k in (1, 2, 4):
        ra, rb = I.seq_split(st, a.s, K(k)), I.seq_split(st, b.s, K(k))
        if ra is None or rb is None:
            continue
        if mkseq(list(ra[1])) == mkseq(list(rb[1])) and len(rb[0]) == 1 and len(a.s) == 1:
            x = a.s[0]
            m = scale(n, k)
            if x[0] == "s":
                rest = ("s", x[1], add(x[2], m), sub(x[3], m))
            elif x[0] == "r":
                rest = ("r", x[1], sub(x[2], m))
            else:
                raise No
            return mkseq([times(rb[0][0], n), rest])
    raise No


def facts(st):
    return set(st.truth.items()), dict(st.ne), dict(st.bits)


def plain(c, j):
    return all(a is j or a.op in ("len", "sym", "elem", "bits", "min", "iter") for a, _ in c.t)


def state_at(I, s0, s1, n, drop):
    """the header state after n rounds"""
    objs = {}
    for k, v in s0.objs.items():
        if k in drop:
            objs[k] = UNINIT
            continue
        w = s1.objs.get(k)
        if w is None:
            continue
        objs[k] = gen(I, s1, v, w, n)
    return objs


def droppable(I, s0, s1, fr):
    """locals of this function that are overwritten with unrelated values each round"""
    out = set()
    for k, v in s0.objs.items():
        w = s1.objs.get(k)
        if w is None or v == w:
            continue
        try:
            gen(I, s1, v, w, ONE)
        except No:
            if k[0] != fr.d:
                raise
            out.add(k)
    return out


def accelerate(I, fr, h, st, heads):
    """-> [(block, state)] after the whole loop, or None"""
    body = natural_loop(I.p, fr.key, h)
    if any(b in heads and b != h for b in body):
        return None
    snap = (len(I.panics), dict(I.unknown))
    marks = []
    f = fr
    while f is not None:
        marks.append((f, set(f.symloop), set(f.cutloop)))
        f = f.parent
    try:
        r = _accel(I, fr, h, st, heads, body)
        if r is not None:
            return r
    except (No, RecursionError):
        pass
    except Exception as e:
        if type(e).__name__ != "Undecided":
            raise
    del I.panics[snap[0]:]
    I.unknown = snap[1]
    for f, a, b in marks:
        f.symloop, f.cutloop = a, b
    return None


def _accel(I, fr, h, st, heads, body):
    np = len(I.panics)
    back, exits = one_round(I, fr, h, body, st.copy(), heads)
    if len(back) != 1 or len(exits) > 1:
        return done(I, np)
    s1 = back[0]
    if s1.ev != st.ev or s1.n != st.n:
        return done(I, np)
    drop = droppable(I, st, s1, fr)
    # locals that appear only inside a round are not part of the header state
    j = Atom("iter", (fr.fn["nd"], h, fr.d, st.n), 64, 0, (1 << 62))
    J = A(j)
    del I.panics[np:]

    def at(n, extra):
        s = st.copy()
        s.objs = state_at(I, st, s1, n, drop)
        for c in extra:
            if not s.assume(c):
                raise No
        return s
    hj = at(J, ())
    bk, ex = one_round(I, fr, h, body, hj.copy(), heads)
    if len(bk) != 1 or len(ex) != 1:
        return done(I, np)
    b, (xb, x) = bk[0], ex[0]
    if b.ev != st.ev or b.n != st.n or facts(b) != facts(hj) or facts(x) != facts(hj):
        return done(I, np)
    # the trip count: the exit says j >= N, staying says j < N
    count = None
    cand = [g for g in x.ge if g not in hj.ge]
    for g in cand:
        co = dict(g.t).get(j)
        if co == 1:
            count = sub(J, g)
            break
    if count is None and j in x.iv and x.iv[j][0] > 0:
        count = K(x.iv[j][0])
    if count is None or any(a is j for a, _ in count.t):
        return done(I, np)
    if b.decide(c_le(add(J, ONE), count)) is not True or st.decide(c_le(ZERO, count)) is not True:
        return done(I, np)
    # inductive: one round from H(j) gives H(j+1)
    want = state_at(I, st, s1, add(J, ONE), drop)
    for k, v in want.items():
        if k in drop:
            continue
        if b.objs.get(k) != v:
            return done(I, np)
    # reaching round j requires nothing beyond j < N; leave at j = N
    hn = at(count, ())
    m = len(I.panics)
    bk, ex = one_round(I, fr, h, body, hn, heads)
    if bk or len(ex) != 1 or len(I.panics) != m:
        return done(I, np)
    I.nsum = getattr(I, "nsum", 0) + 1
    return ex


def done(I, np):
    del I.panics[np:]
    return None
