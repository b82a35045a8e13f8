"""Loader for the extractor's JSON: types, constants, functions."""
import json
import re
import struct

from .dom import *

REPO_CRATES = ("stratumv2", "noiseexplorer_nx")

_RE1 = re.compile(r"stratumv2::bitcoin::bitcoin_hashes::_export::_core::|bitcoin::bitcoin_hashes::_export::_core::")
_RE2 = re.compile(r"\b(?:core|alloc)::")


def norm(name):
    name = _RE1.sub("std::", name)
    name = name.replace("stratumv2::bitcoin::", "bitcoin::")
    name = _RE2.sub("std::", name)
    name = name.replace("std::std::", "std::")
    return name


class Program:
    def __init__(self, path):
        m = json.load(open(path))
        self.types = m["types"]
        self.allocs = m["allocs"]
        self.fns = m["fns"]
        self.roots = m["roots"]
        self.groots = m["groots"]
        self.impls = m["impls"]
        self.defs = m["defs"]
        self.nobody = {k: (d, c) for k, d, c in m["nobody"]}
        self.normcache = {}
        for f in self.fns.values():
            f["nd"] = norm(f["def"])
        self.rootkey = {}
        for k in self.roots:
            self.rootkey[self.fns[k]["def"].split("::")[-1]] = k
        self.gkey = {}
        for g, tn, ty, key in self.groots:
            self.gkey[(g.split("::")[-1], norm(tn))] = key
        self.tycache = {}
        self._rpo = {}
        self._reach = None
        self._glue = {}
        self._clos = None
        for i, t in enumerate(self.types):
            if t:
                self.tycache.setdefault(norm(t["n"]), i)

    def nd(self, name):
        r = self.normcache.get(name)
        if r is None:
            r = self.normcache[name] = norm(name)
        return r

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.nd(self.types[i]["n"])

    def is_adt(self, i, *names):
        t = self.types[i]
        return t["k"] == "adt" and self.nd(t["def"]) in names

    def adt_def(self, i):
        t = self.types[i]
        return self.nd(t["def"]) if t["k"] == "adt" else None

    def is_vec(self, i):
        d = self.adt_def(i)
        return d in ("std::vec::Vec", "std::string::String")

    def vec_elem(self, i):
        t = self.types[i]
        d = self.nd(t["def"])
        if d == "std::string::String":
            return self.find("u8")
        for a in t["args"]:
            if isinstance(a, int):
                return a
            if isinstance(a, list) and a and a[0] == "ty":
                return a[1]
        raise KeyError(i)

    def find(self, name):
        return self.tycache.get(name)

    def int_rng(self, i):
        t = self.types[i]
        if t["k"] == "bool":
            return 0, 1
        if t["k"] == "char":
            return 0, 0x10FFFF
        w = t["w"]
        if t.get("s"):
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return 0, (1 << w) - 1

    def pointee(self, i):
        t = self.types[i]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt" and t.get("box"):
            return self.first_ty_arg(t)
        return None

    def first_ty_arg(self, t):
        for a in t["args"]:
            if isinstance(a, int):
                return a
        return None

    def elem(self, i):
        t = self.types[i]
        k = t["k"]
        if k in ("array", "slice"):
            return t["e"]
        if k == "str":
            return self.find("u8")
        if k == "adt" and self.is_vec(i):
            return self.vec_elem(i)
        return None

    def fields(self, i, variant=0):
        t = self.types[i]
        k = t["k"]
        if k == "tuple":
            return [(str(j), f) for j, f in enumerate(t["fs"])]
        if k == "closure":
            up = t["up"]
            if isinstance(up, int):
                up = self.types[up]["fs"] if self.types[up]["k"] == "tuple" else []
            return [(str(j), f) for j, f in enumerate(up)]
        if k == "adt":
            if not t["vs"]:
                return []
            return [(n, f) for n, f in t["vs"][variant]["fs"]]
        return []

    def is_enum(self, i):
        t = self.types[i]
        return t["k"] == "adt" and t["ak"] == "enum"

    def variant(self, i, name):
        for j, v in enumerate(self.types[i]["vs"]):
            if v["n"] == name:
                return j
        return None

    def vname(self, i, v):
        return self.types[i]["vs"][v]["n"]

    def discr_of(self, i, v):
        return self.types[i]["vs"][v]["d"]

    def size(self, i):
        t = self.types[i]
        lay = t.get("lay")
        if lay:
            return lay["size"]
        k = t["k"]
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k in ("int", "float"):
            return t["w"] // 8
        if k == "array":
            return t["len"] * self.size(t["e"])
        if k in ("ref", "ptr"):
            return 16 if self.types[t["e"]]["k"] in ("slice", "str", "dyn") else 8
        if k in ("fndef", "never"):
            return 0
        if k == "fnptr":
            return 8
        return 0

    # ------------------------------------------------------------------ constants
    def decode(self, ty, data, ptrs, off=0):
        """value of type ty encoded in memory (data: list of ints or None), ptrs {off: alloc}"""
        t = self.types[ty]
        k = t["k"]
        lay = t.get("lay")

        def rd(o, n):
            b = data[o:o + n]
            if any(x is None for x in b):
                return None
            return int.from_bytes(bytes(b), "little")
        if k == "bool":
            v = rd(off, 1)
            return UNINIT if v is None else BoolV(bool(v))
        if k == "char":
            v = rd(off, 4)
            return UNINIT if v is None else K(v)
        if k == "int":
            n = t["w"] // 8
            v = rd(off, n)
            if v is None:
                return UNINIT
            if off in ptrs:
                return Sym(("ptrint", ptrs[off], v), ty)
            if t.get("s") and v >> (t["w"] - 1):
                v -= 1 << t["w"]
            return K(v)
        if k == "float":
            v = rd(off, t["w"] // 8)
            return UNINIT if v is None else Sym(("f", K(v)), ty)
        if k in ("ref", "ptr"):
            e = t["e"]
            et = self.types[e]
            a = ptrs.get(off)
            if a is None:
                v = rd(off, 8)
                if et["k"] in ("slice", "str"):
                    ln = rd(off + 8, 8)
                    return RefV(("dangling", e), (), (ZERO, K(ln or 0)))
                return RefV(("dangling", e), ())
            v = rd(off, 8) or 0
            al = self.allocs[a] if isinstance(self.allocs, list) else self.allocs[str(a)]
            if "fn" in al:
                return FnV(al["fn"])
            if et["k"] in ("slice", "str"):
                ln = rd(off + 8, 8)
                if v == 0:
                    return RefV(("alloc", a, e), (), (ZERO, K(ln)))
                es = self.size(self.elem(e))
                return RefV(("alloc", a, e), (), (K(v // max(es, 1)), K(ln)))
            if "static" in al:
                return RefV(("static" if k == "ref" else "smut", a, e), ())
            if v == 0:
                return RefV(("alloc", a, e), ())
            return RefV(("allocoff", a, v, e), ())
        if k == "array":
            n = t["len"]
            e = t["e"]
            es = self.size(e)
            et = self.types[e]
            if et["k"] == "int" and et["w"] == 8 and not et.get("s"):
                out = []
                for x in data[off:off + n]:
                    out.append(("e", UNINIT if x is None else K(x)))
                return SeqV(out)
            return SeqV([("e", self.decode(e, data, ptrs, off + j * es)) for j in range(n)])
        if k in ("tuple", "closure"):
            offs = lay["f"] if lay else []
            return AdtV(ty, 0, [self.decode(f, data, ptrs, off + offs[j]) for j, (n, f) in enumerate(self.fields(ty))])
        if k == "fndef":
            return FnV(t.get("inst") or t["def"])
        if k == "adt":
            if t["ak"] == "union":
                return Sym(("union", bytes(x if x is not None else 0 for x in data[off:off + lay["size"]])), ty)
            if self.is_vec(ty):
                # only empty vectors can be constants
                return VecV(SeqV([]))
            vs = lay["v"]
            if not t["vs"]:
                return UNINIT
            if "single" in vs:
                v = vs["single"]
                offs = lay["f"]
                if isinstance(offs, dict):
                    offs = []
                fs = self.fields(ty, v)
                return AdtV(ty, v, [self.decode(f, data, ptrs, off + (offs[j] if j < len(offs) else 0)) for j, (n, f) in enumerate(fs)])
            tag = vs["tag"]
            tf = vs["tag_field"]
            toff = lay["f"][tf] if not isinstance(lay["f"], dict) else 0
            mm = re.search(r"length: I(\d+)", str(tag))
            tw = int(mm.group(1)) if mm else 64
            tv = rd(off + toff, tw // 8)
            isptr = (off + toff) in ptrs
            enc = vs["enc"]
            var = None
            if enc == "direct":
                if tv is None:
                    return UNINIT
                for j, x in enumerate(t["vs"]):
                    if (int(x["d"]) & ((1 << tw) - 1)) == tv:
                        var = j
            else:
                if isptr:
                    var = enc["untagged"]
                elif tv is None:
                    return UNINIT
                else:
                    rel = (tv - int(enc["start"])) & ((1 << tw) - 1)
                    cnt = enc["hi"] - enc["lo"] + 1
                    var = enc["lo"] + rel if rel < cnt else enc["untagged"]
            if var is None:
                return UNINIT
            offs = vs["offs"][var]
            fs = self.fields(ty, var)
            return AdtV(ty, var, [self.decode(f, data, ptrs, off + offs[j]) for j, (n, f) in enumerate(fs)])
        if k == "pat":
            return Sym(("pat", tuple(data[off:off + 8])), ty)
        return Sym(("const", ty), ty)

    def alloc_data(self, a):
        al = self.allocs[a] if isinstance(self.allocs, list) else self.allocs[str(a)]
        if "static" in al:
            init = al.get("init")
            if not init:
                return None
            al = {"mem": init}
        m = al.get("mem")
        if m is None:
            return None
        return self.hexdata(m)

    def hexdata(self, m):
        h = m["b"]
        data = [None if h[i:i + 2] == "??" else int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
        return data, {o: a for o, a in m.get("p", [])}

    # ------------------------------------------------------------------ CFG
    def rpo(self, key):
        r = self._rpo.get(key)
        if r is not None:
            return r
        f = self.fns[key]
        bl = f["blocks"]
        succ = [self.succ(b["t"]) for b in bl]
        order = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        on = {0}
        back = set()
        while stack:
            n, it = stack[-1]
            for s in it:
                if s in on:
                    back.add((n, s))
                if s not in seen:
                    seen.add(s)
                    on.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(n)
                on.discard(n)
                stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        preds = {}
        for b in order:
            for s in succ[b]:
                preds.setdefault(s, set()).add(b)
        heads = {h for _, h in back}
        r = self._rpo[key] = (num, preds, heads)
        return r

    @staticmethod
    def succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    # ------------------------------------------------------------------ call graph
    def callees(self, key):
        f = self.fns.get(key)
        if not f:
            return []
        out = []
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "fn" and t[1][3]:
                out.append(t[1][3][2])
            elif t[0] == "drop" and t[2]:
                out.append(t[2])
        return out

    def call_edges(self, key):
        """(callee name, callee key or None) of every call and drop"""
        f = self.fns.get(key)
        out = []
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "fn":
                r = t[1][3]
                out.append((self.nd(r[1] if r else t[1][1]), r[2] if r else None))
            elif t[0] == "drop" and t[2]:
                out.append((self.nd(t[2]), t[2]))
        return out

    def closures_of(self, key):
        """closures written in a function"""
        if self._clos is None:
            self._clos = {}
            for k, f in self.fns.items():
                i = f["nd"].rfind("::{closure")
                if i > 0:
                    self._clos.setdefault(f["nd"][:i], []).append(k)
        return self._clos.get(self.fns[key]["nd"], [])

    def static_refs(self, key):
        """(name, type) of mutable or interior-mutable statics a function names"""
        out = []

        def go(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "k" and isinstance(x[2], dict):
                    for _, a in x[2].get("p", []):
                        al = self.allocs[a] if isinstance(self.allocs, list) else self.allocs[str(a)]
                        if "static" in al:
                            tn = self.tname(al["ty"])
                            if self.types[x[1]]["k"] == "ptr" or re.search(r"Cell|Atomic|Mutex|RwLock|Once|Lazy", tn):
                                out.append((al["static"], tn))
                    return
                for y in x:
                    go(y)
        for b in self.fns[key]["blocks"]:
            go(b["s"])
            go(b["t"])
        return out

    def glue_matters(self, key):
        """drop glue reaches a Drop impl of the repository, or a MutexGuard's"""
        r = self._glue.get(key)
        if r is not None:
            return r
        seen = {key}
        todo = [key]
        res = False
        while todo:
            k = todo.pop()
            f = self.fns.get(k)
            if f is not None and (f["crate"] in REPO_CRATES or "MutexGuard" in f["def"]) and "drop" in f["def"]:
                res = True
                break
            if f is None and k in self.nobody and "MutexGuard" in k:
                res = True
                break
            for c in self.callees(k):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        self._glue[key] = res
        return res

    def site(self, key, bb):
        f = self.fns[key]
        b = f["blocks"][bb]
        return "%s:%s" % (b.get("f") or f.get("file"), b.get("l"))
