"""Models of the Python builtins and of the libraries the analysed package uses.

Everything that is not modelled is an uninterpreted operation: equal operations on equal values give
equal values, nothing else is assumed.
"""

import ast
import re

from .lib2d import ImageMixin, is_mask, two
from .libattr import AttrMixin
from .libcall import CallMixin
from .libdata import DataMixin
from .libdata2 import Data2Mixin
from .libio import IoMixin
from .libmeth import MethMixin
from .terms import *  # noqa: F403
from .terms import T, mk

from .libtab import *  # noqa: F403


class Lib(CallMixin, MethMixin, AttrMixin, DataMixin, Data2Mixin, IoMixin, ImageMixin):
    OPS = {
        ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
        ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
    }
    CMP = {
        ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "notin",
        ast.Is: "is", ast.IsNot: "isnot",
    }

    def __init__(self, e):
        self.e = e
        self.locks = []
        self.reentrant = set()
        self.argparsers = {}
        self.yaml = {}
        self.tables = {}
        self.there = set()
        self.absent = set()
        self.argv = None  # options of the command line, if they are fixed
        self.cellinfo = {}
        self.observed = {}

    # -- names ---------------------------------------------------------------------------------------

    def canon(self, name):
        for a, b in CANON:
            if name == a or name.startswith(a) and a.endswith("."):
                name = b + name[len(a) :]
        name = NUMCONST.get(name, name)
        return name

    def builtin(self, name):
        if name in BUILTINS or name.startswith("SA_"):
            return ext(name)
        if name in ("__name__",):
            return const("module")
        return self.e.unsupported("name " + name)

    def extattr(self, base, name):
        n = self.canon(base + "." + name)
        if n == "numpy.newaxis":
            return NONE
        if n in ("numpy.pi", "numpy.inf", "numpy.nan"):
            return sym(n, "float")
        if n in ("sys.platform",):
            return sym(n, "str")
        if name == "__version__":
            return sym(n, "str")
        if n in ("sys.argv",):
            return sym(n, "list")
        return ext(n)

    # -- known shapes --------------------------------------------------------------------------------

    def known(self, v):
        """list of the elements that iterating over v gives, None if not known"""
        e = self.e
        v = e.simp(v)
        if v.op == "ref":
            if v.a[1] == "inst":
                return None
            c = e.st.store.get(("C", v))
            return self.known(e.simp(c)) if c is not None else None
        if v.op in ("tuple", "list", "set"):
            return None if any(x.op == "star" for x in v.a) else list(v.a)
        if v.op == "dict":
            return list(v.a[::2])
        if v.op == "dkeys":
            return self.known(v.a[0])
        if v.op == "dvalues":
            d = self.dictof(v.a[0])
            return list(d.a[1::2]) if d is not None else self.h5children(v.a[0], 1)
        if v.op == "ditems":
            d = self.dictof(v.a[0])
            if d is not None:
                return [tup(*d.a[i : i + 2]) for i in range(0, len(d.a), 2)]
            return self.h5children(v.a[0], 2)
        if v.op in ("h5node", "h5file"):
            return self.h5children(v, 0)
        if v.op == "range":
            lo, hi, st = v.a
            if cint(lo) and cint(hi) and cint(st) and abs(cval(hi) - cval(lo)) <= 4096 and cval(st):
                return [const(i) for i in range(cval(lo), cval(hi), cval(st))]
            return None
        if v.op == "enumerate":
            ks = self.known(v.a[0])
            if ks is None:
                return None
            return [tup(binop("+", v.a[1], const(i)), x) for i, x in enumerate(ks)]
        if v.op == "zip":
            ks = [self.known(x) for x in v.a]
            # an iterable without known end is paired with one of known length
            n = [len(k) for k in ks if k is not None]
            if not n or any(k is None and x.op != "count" for k, x in zip(ks, v.a)):
                return None
            n = min(n)
            ks = [k if k is not None else [binop("+", x.a[0], const(i)) for i in range(n)] for k, x in zip(ks, v.a)]
            return [tup(*r) for r in zip(*ks)]
        if v.op == "reversed":
            ks = self.known(v.a[0])
            return None if ks is None else ks[::-1]
        if v.op == "const" and isinstance(cval(v), str):
            return [const(c) for c in cval(v)]
        if v.op in ("iterrows", "dfitems", "itertuples"):
            return self.df_iter(v)
        if v.op == "dfc":
            return list(v.a[1].a)
        if v.op == "serc":
            return list(v.a[1].a)
        if v.op == "gamma":
            a, b = self.known(v.a[1]), self.known(v.a[2])
            if a is not None and b is not None and len(a) == len(b):
                return [gamma(v.a[0], x, y) for x, y in zip(a, b)]
            return None
        if v.op == "call" and v.a[0] in ("numpy.array", "conv") and len(v.a) == 2:
            return self.known(v.a[1])
        if v.op == "conv" and v.a[0] == "bytesarray":
            ks = self.known(v.a[1])
            return None if ks is None else [mk("conv", "bytes", k) for k in ks]
        if v.op == "call" and v.a[0] == "astype":
            return self.known(v.a[1])
        if v.op == "upd":
            ks = self.known(v.a[0])
            if ks is not None and cint(v.a[1]) and -len(ks) <= cval(v.a[1]) < len(ks):
                ks = list(ks)
                ks[cval(v.a[1])] = v.a[2]
                return ks
            return None
        if v.op == "call" and v.a[0] in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty") and cint(v.a[1]) and 0 <= cval(v.a[1]) <= 64:
            fill = {"numpy.zeros": const(0.0), "numpy.ones": const(1.0), "numpy.empty": unk("empty")}.get(v.a[0]) or (v.a[2] if len(v.a) > 2 and v.a[2].op != "kw" else None)
            if fill is None:
                return None
            return [fill] * cval(v.a[1])
        if v.op == "call" and v.a[0] in ("numpy.linspace", "numpy.logspace", "numpy.geomspace"):
            a = [x for x in v.a[1:] if x.op != "kw"]
            n = a[2] if len(a) > 2 else {x.a[0]: x.a[1] for x in v.a[1:] if x.op == "kw"}.get("num", const(50))
            return [mk("item", v, const(i)) for i in range(cval(n))] if cint(n) and 0 < cval(n) <= 8 else None
        if v.op == "item" and v.a[1].op == "slice" and all(x is NONE or cint(x) for x in v.a[1].a) and kind(v.a[0]) == "array":
            ks = self.known(v.a[0])
            return None if ks is None else ks[slice(*[cval(x) for x in v.a[1].a])]
        return None

    def dictof(self, t):
        c = self.e.simp(t)
        if c.op == "ref":
            c = self.e.simp(self.e.st.store.get(("C", c), unk("content")))
        if c.op == "serc":
            return mk("dict", *[x for p in zip(c.a[0].a, c.a[1].a) for x in p])
        return c if c.op == "dict" else None

    def space(self, it):
        """(number of turns, element of turn bv) of iterating over something of unknown shape"""
        e = self.e
        it = e.simp(it)
        if it.op == "range":
            lo, hi, st = it.a
            if cint(st) and cval(st) == 1:
                n = hi if cint(lo) and cval(lo) == 0 else binop("-", hi, lo)
                return n, lambda b: b if cint(lo) and cval(lo) == 0 else binop("+", lo, b)
            if cint(st) and cval(st) == -1:
                return binop("-", lo, hi), lambda b: binop("-", lo, b)
            return mk("call", "len", it), lambda b: mk("bin", "+", lo, mk("bin", "*", b, st))
        if it.op == "enumerate":
            n, f = self.space(it.a[0])
            return n, lambda b: tup(b if cint(it.a[1]) and cval(it.a[1]) == 0 else binop("+", it.a[1], b), f(b))
        if it.op == "zip":
            sp = [self.space(x) for x in it.a]
            return sp[0][0], lambda b: tup(*[f(b) for _, f in sp])
        if it.op == "reversed":
            n, f = self.space(it.a[0])
            return n, lambda b: f(binop("-", binop("-", n, const(1)), b))
        if it.op == "count":
            return mk("call", "len", it), lambda b: binop("+", it.a[0], b)
        v = e.val(it)
        if v.op == "ditems":
            d = v.a[0]
            ks = mk("dkeys", d)
            return self.len_(d), lambda b: self.ditem(d, b)
        if v.op == "dkeys":
            return self.len_(v.a[0]), lambda b: self.ditem(v.a[0], b).a[0]
        if v.op == "dvalues":
            return self.len_(v.a[0]), lambda b: self.ditem(v.a[0], b).a[1]
        if v.op == "iterrows":
            df = v.a[0]
            idx = lambda b: mk("item", mk("attr", df, "index"), b)  # noqa: E731
            return self.len_(df), lambda b: tup(idx(b), e.box(mk("row", df, idx(b))))
        if v.op == "itertuples":
            df = v.a[0]
            return self.len_(df), lambda b: mk("row", df, mk("item", mk("attr", df, "index"), b))
        if v.op in ("h5node", "h5file"):
            return mk("call", "len", v), lambda b: mk("item", mk("dkeys", v), b)
        k = kind(v)
        if k == "dict":
            return self.len_(v), lambda b: self.ditem(v, b).a[0]
        if v.op == "map" and v.a[3] is TRUE:
            return v.a[0], lambda b: subst(v.a[2], {v.a[1]: b})
        return self.len_(v), lambda b: self.getitem(v, b)

    def ditem(self, d, b):
        """(key, value) number b of a dictionary that is not known in detail"""
        if d.op == "dbuild" and d.a[0].op == "dict" and not d.a[0].a and d.a[5] is TRUE:
            m = {d.a[2]: b}
            return tup(subst(d.a[3], m), subst(d.a[4], m))
        k = mk("item", mk("dkeys", d), b)
        return tup(k, mk("item", d, k))

    def len_(self, v):
        e = self.e
        v = e.simp(v)
        ks = self.known(v)
        v = e.val(v)
        if v.op == "gamma" and has_op(v, "dfc"):
            return gamma(v.a[0], self.len_(v.a[1]), self.len_(v.a[2]))
        if v.op == "dfc":
            return const(len(v.a[0].a))
        if ks is not None and v.op not in ("dfc",):
            return const(len(ks))
        if v.op == "const" and isinstance(cval(v), (str, bytes)):
            return const(len(cval(v)))
        if v.op == "const" and not isinstance(cval(v), (tuple, list, dict, set)):
            e.raise_(e.st, "TypeError")
            e.st = None
            return unk("dead")
        if v.op == "range":
            return self.space(v)[0]
        if v.op == "map" and v.a[3] is TRUE:
            return v.a[0]
        if v.op == "dbuild" and v.a[0].op == "dict" and not v.a[0].a and v.a[5] is TRUE:
            return v.a[1]
        if v.op == "upd" or v.op == "build":
            return self.len_(v.a[0])
        if v.op == "gamma":
            return gamma(v.a[0], self.len_(v.a[1]), self.len_(v.a[2]))
        if v.op == "call":
            f, a = v.a[0], [x for x in v.a[1:] if x.op != "kw"]
            kws = {x.a[0]: x.a[1] for x in v.a[1:] if x.op == "kw"}
            if f in ("numpy.linspace", "numpy.logspace", "numpy.geomspace"):
                return a[2] if len(a) > 2 else kws.get("num", const(50))
            if f in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty") and a and kind(a[0]) in ("int", "num", "any"):
                return a[0]
            if f in ("numpy.array", "values", "astype", "copy", "numpy.abs", "numpy.sqrt", "numpy.isnan", "numpy.log10") and a:
                return self.len_(a[0])
            if f == "numpy.diff":
                return binop("-", self.len_(a[0]), const(1))
        if v.op == "neg" or v.op == "not":
            return self.len_(v.a[0])
        if v.op == "rowset" or v.op == "rowbuild":
            return self.len_(v.a[0])
        return mk("call", "len", v)

    # -- lists and dictionaries ------------------------------------------------------------------------

    def each(self, ref, f):
        """apply f to the content of a container, alternative by alternative"""

        def go(c):
            if c.op == "gamma":
                fc = self.e.fact(c.a[0])
                if fc is TRUE:
                    return go(c.a[1])
                if fc is FALSE:
                    return go(c.a[2])
                return gamma(c.a[0], go(c.a[1]), go(c.a[2]))
            return f(c)

        self.e.setcontent(ref, go(self.e.content(ref)))

    def append(self, ref, v):
        self.each(ref, lambda c: mk("list", *c.a, v) if c.op == "list" else mk("lappend", c, v))

    def extend(self, ref, v):
        ks = self.known(v)

        def f(c):
            if ks is not None:
                if c.op == "list":
                    return mk("list", *c.a, *ks)
                for k in ks:
                    c = mk("lappend", c, k)
                return c
            if c.op == "list" and not c.a:
                return self.e.val(v)
            return mk("concat", c, self.e.val(v))

        self.each(ref, f)

    def dget(self, c, k):
        """index of key k among the entries of a dict content, -1 if certainly absent, None if unknown"""
        sure = True
        for i in range(0, len(c.a), 2):
            if c.a[i] is k:
                return i
            if not self.differ(c.a[i], k):
                sure = False
        return -1 if sure else None

    def differ(self, a, b):
        if a is b:
            return False
        if a.op == "const" and b.op == "const":
            return True
        if a.op == "tuple" and b.op == "tuple":
            return len(a.a) != len(b.a) or any(self.differ(x, y) for x, y in zip(a.a, b.a))
        if {a.op, b.op} <= {"const", "tuple", "class", "ext", "func"}:
            return a is not b
        r = self.e.compare_("==", a, b) if a.op in ("const", "strcat") and b.op in ("const", "strcat") else None
        return r is FALSE

    def dset(self, c, k, v):
        if c.op == "dict":
            i = self.dget(c, k)
            if i is not None and i >= 0:
                return mk("dict", *c.a[: i + 1], v, *c.a[i + 2 :])
            if i == -1:
                return mk("dict", *c.a, k, v)
        return mk("dset", c, k, v)

    def dict_update(self, ref, v):
        d = self.dictof(v)
        if d is None:
            ks = self.known(v)
            if ks is not None and all(x.op == "tuple" and len(x.a) == 2 for x in ks):
                for x in ks:
                    self.each(ref, lambda c: self.dset(c, x.a[0], x.a[1]))
                return
            vv = self.e.val(v)
            if vv.op == "gamma":
                self.e.split(vv.a[0], lambda: (self.dict_update(ref, vv.a[1]), NONE)[1], lambda: (self.dict_update(ref, vv.a[2]), NONE)[1])
                return
            self.each(ref, lambda c: vv if c.op == "dict" and not c.a else mk("dunion", c, vv))
            return
        for i in range(0, len(d.a), 2):
            k, x = d.a[i], d.a[i + 1]
            self.each(ref, lambda c: self.dset(c, k, x))

    def spread(self, v, kw):
        """the entries of a dictionary as arguments; (condition, then, else) if its keys depend on a condition"""
        d = self.dictof(v)
        if d is not None and all(cstr(k) for k in d.a[::2]):
            for i in range(0, len(d.a), 2):
                kw[cval(d.a[i])] = d.a[i + 1]
            return
        v = self.e.simp(v)
        if v.op == "ref":
            c = self.e.content(v)
            if c.op == "gamma":
                # a dictionary whose entries depend on a condition
                a, b = {}, {}
                g = mk
                for x, out in ((c.a[1], a), (c.a[2], b)):
                    if x.op != "dict":
                        out["**"] = self.e.val(x)
                        continue
                    for i in range(0, len(x.a), 2):
                        out[cval(x.a[i])] = x.a[i + 1]
                if a.keys() == b.keys():
                    for k in a:
                        kw[k] = gamma(c.a[0], a[k], b[k])
                    return
                if "**" not in a and "**" not in b or any(x.op == "gamma" for x in c.a[1:]):
                    return c.a
        elif v.op == "dict" and all(cstr(k) for k in v.a[::2]):
            for i in range(0, len(v.a), 2):
                kw[cval(v.a[i])] = v.a[i + 1]
            return
        elif v.op == "gamma":
            return v.a
        kw["**"] = self.e.val(v)

    def dict_lookup(self, c, k, default=None):
        """value of key k in dict content c; default: value if it is absent (None: an error)"""
        e = self.e
        if c.op == "gamma":
            f = e.fact(c.a[0])
            if f is TRUE:
                return self.dict_lookup(c.a[1], k, default)
            if f is FALSE:
                return self.dict_lookup(c.a[2], k, default)
            return gamma(c.a[0], self.dict_lookup(c.a[1], k, default), self.dict_lookup(c.a[2], k, default))
        if c.op == "dict":
            i = self.dget(c, k)
            if i is not None and i >= 0:
                return c.a[i + 1]
            if i == -1:
                return default if default is not None else ABSENT
            on = [i for i in range(0, len(c.a), 2) if not self.differ(c.a[i], k)]
            if k.op not in ("const", "gamma") and kind(k) in ("tuple", "int", "num", "float", "str", "path") and len(on) <= 3:
                r = default if default is not None else mk("item", e.val(c), e.val(k))
                for i in reversed(on):
                    r = gamma(e.truth(e.compare_("==", k, c.a[i])), c.a[i + 1], r)
                return r
        if c.op == "dset":
            if c.a[1] is k:
                return c.a[2]
            if self.differ(c.a[1], k):
                return self.dict_lookup(c.a[0], k, default)
        if c.op == "dbuild" and c.a[5] is TRUE:
            # written for every bv as key(bv): is k one of them?
            m = match(c.a[3], c.a[2], k)
            if m is not None:
                return subst(c.a[4], {c.a[2]: m})
            if c.a[0].op == "dict" and self.dget(c.a[0], k) not in (None, -1) and self.differ(c.a[3], k):
                return self.dict_lookup(c.a[0], k, default)
        v = e.val(c)
        kk = e.val(k)
        if default is not None:
            return gamma(mk("in", kk, v), mk("item", v, kk), default)
        return mk("item", v, kk)

    def contains(self, c, k):
        """k in c"""
        e = self.e
        c, k = e.simp(c), e.simp(k)
        if c.op == "gamma":
            return gamma(c.a[0], self.contains(c.a[1], k), self.contains(c.a[2], k))
        if k.op == "gamma":
            return gamma(k.a[0], self.contains(c, k.a[1]), self.contains(c, k.a[2]))
        if c.op == "ref" and c.a[1] != "inst":
            cc = e.content(c)
            if cc.op == "gamma":
                return e.fact(gamma(cc.a[0], self.contains(cc.a[1], k), self.contains(cc.a[2], k)))
            return self.contains(cc, k)
        if c.op == "ref":
            return e.truth(e.callmethod(c, "__contains__", [k], {}, e.fakenode()))
        if c.op == "dict" or c.op == "dset":
            if c.op == "dset":
                if c.a[1] is k:
                    return TRUE
                if self.differ(c.a[1], k):
                    return self.contains(c.a[0], k)
            else:
                i = self.dget(c, k)
                if i is not None:
                    v = c.a[i + 1] if i >= 0 else None
                    return const(i >= 0)
        if c.op in ("h5node", "h5file", "h5attrs"):
            return e.fact(self.h5contains(c, k))
        if c.op in ("dkeys",):
            return self.contains(c.a[0], k)
        if c.op in ("dfc", "fr"):
            return const(k in c.a[1].a)
        if c.op == "serc":
            return const(k in c.a[0].a)
        if cstr(c) and cstr(k):
            return const(cval(k) in cval(c))
        if c.op == "strcat" and cstr(k) and any(cstr(p) and cval(k) in cval(p) for p in c.a):
            return TRUE
        if c.op in ("attr",) and c.a[1] == "columns":
            return self.contains(c.a[0], k)
        ks = self.known(c)
        if ks is not None and c.op != "const":
            if any(x is k for x in ks):
                return TRUE
            rest = [x for x in ks if not self.differ(x, k)]
            if kind(k) in ("int", "str", "any", "opt:str", "num", "float", "path") or k.op != "const":
                return e.fact(disj([e.truth(e.compare_("==", k, x)) for x in rest]))
            return const(bool(rest)) if not rest else e.fact(disj([e.truth(e.compare_("==", k, x)) for x in rest]))
        return e.fact(mk("in", e.val(k), e.val(c)))

    # -- subscripts ----------------------------------------------------------------------------------

    def getitem(self, o, k):
        e = self.e
        o, k = e.simp(o), e.simp(k)
        if o.op == "gamma":
            if has(o, NONE):
                return e.split(o.a[0], lambda: self.getitem(o.a[1], k), lambda: self.getitem(o.a[2], k))
            return gamma(o.a[0], self.getitem(o.a[1], k), self.getitem(o.a[2], k))
        if o.op == "ref" and o.a[1] == "inst":
            return e.callmethod(o, "__getitem__", [k], {}, e.fakenode())
        if o.op in ("loc", "at", "iloc", "iat"):
            return self.loc_get(o, k)
        if o is NONE or o.op == "const" and not isinstance(cval(o), (str, bytes, tuple, list, dict)):
            e.raise_(e.st, "TypeError")
            e.st = None
            return unk("dead")
        if cint(k) and (o.op in ("list", "tuple") or o.op == "ref" and o.a[1] in ("list", "tuple")):
            n = self.known(o)
            if n is not None and not -len(n) <= cval(k) < len(n):
                e.raise_(e.st, "IndexError")
                e.st = None
                return unk("dead")
        if o.op in ("h5node", "h5file", "h5attrs"):
            return self.h5getitem(o, k)
        if o.op == "class" or o.op == "ext":
            return ext("typing")
        if o.op == "instdict":
            return e.getattr(o.a[0], cval(k)) if cstr(k) else unk("attribute")
        kd = kind(o)
        c = e.content(o) if o.op == "ref" else o
        k = self.image_index(k)
        if c.op == "call" and c.a[0] == "numpy.histogram_bin_edges" and cint(k) and cval(k) in (0, -1):  # the ends of the range
            kw = {x.a[0]: x.a[1] for x in c.a[1:] if x.op == "kw"}
            if "range" not in kw and len([x for x in c.a[1:] if x.op != "kw"]) == 1:
                return mk("call", "min" if cval(k) == 0 else "max", e.val(c.a[1]))
            r = self.known(kw["range"]) if "range" in kw else None
            if r is not None and len(r) == 2:
                return r[cval(k)]
        if c.op == "call" and c.a[0] in ("SA_nonzero", "SA_where", "SA_column"):
            r = self.image_item(c, k)
            if r is not None:
                return r
        if c.op == "call" and c.a[0] in ("numpy.array", "numpy.stack") and two(e.val(c)):
            r = self.stack_item(e.val(c), e.val(k))
            if r is not None:
                return r
        if kd == "dict" or c.op == "dict":
            v = self.dict_lookup(c, k)
            if v is ABSENT:
                e.event("absentkey", key=k)
                e.raise_(e.st, "KeyError")
                e.st = None
                return unk("dead")
            return e.simp(v)
        if c.op == "gamma" and kd in ("list", "tuple"):
            return gamma(c.a[0], self.getitem(c.a[1], k), self.getitem(c.a[2], k))
        if kd in ("df", "series"):
            return self.df_getitem(o, c, k)
        if kd == "str":
            if c.op == "const" and cint(k):
                try:
                    return const(cval(c)[cval(k)])
                except IndexError:
                    e.raise_(e.st, "IndexError")
                    e.st = None
                    return unk("dead")
            if c.op == "const" and k.op == "slice" and all(x is NONE or cint(x) for x in k.a):
                return const(cval(c)[slice(*[None if x is NONE else cval(x) for x in k.a])])
        ks = self.known(c) if c.op not in ("dict",) else None
        if ks is not None and c.op != "const":
            if cint(k) and -len(ks) <= cval(k) < len(ks):
                return ks[cval(k)]
            if k.op == "slice" and all(x is NONE or cint(x) for x in k.a) and c.op in ("list", "tuple"):
                s = slice(*[None if x is NONE else cval(x) for x in k.a])
                return tup(*ks[s]) if kd == "tuple" else e.fresh_ref("list", mk("list", *ks[s]))
            if kind(k) in ("array",) and c.op == "list":
                pass
        if c.op == "upd" and c.a[1] is k:
            return c.a[2]
        if c.op == "build":
            for kv in c.a[3].a[::-1]:
                m = match(kv.a[0], c.a[2], k)
                if m is not None:
                    return subst(kv.a[1], {c.a[2]: m})
        v = e.val(c)
        kk = e.val(k)
        if kind(kk) == "tuple" and kk.op == "tuple" and len(kk.a) == 0:
            return v
        r = e.note(item(v, kk))
        return e.box(r) if kind(r) in ("array", "boolarray", "series", "df") else r

    def setitem(self, o, k, v):
        e = self.e
        o, k = e.simp(o), self.image_index(e.simp(k))
        if o.op in ("loc", "at", "iloc", "iat"):
            self.loc_set(o, k, v)
            return None
        if o.op in ("h5node", "h5file", "h5attrs"):
            self.h5setitem(o, k, v)
            return None
        if o.op == "instdict":
            if cstr(k):
                e.setattr(o.a[0], cval(k), v)
            return None
        if o.op == "h5val" or kind(o) == "tuple":
            return None
        if o.op == "ref":
            kd = o.a[1]
            if kd == "dict":
                self.each(o, lambda c: self.dset(c, e.val(k), v))
                return None
            if kd in ("df", "series"):
                self.df_setitem(o, k, v)
                return None
            if kd == "list":

                def f(c):
                    if c.op == "list" and cint(k) and -len(c.a) <= cval(k) < len(c.a):
                        xs = list(c.a)
                        xs[cval(k)] = v
                        return mk("list", *xs)
                    return mk("upd", c, e.val(k), e.val(v))

                self.each(o, f)
                return None
            kk, vv = e.val(k), e.val(v)
            if kk.op == "slice" and all(x is NONE for x in kk.a) or kk is ELL:
                self.e.setcontent(o, mk("fill", e.val(e.content(o)), vv) if kind(vv) not in ("array",) else vv)
                return None
            self.each(o, lambda c: e.note(self.upd(c, kk, self.element(c, vv))))
            return None
        e.event("mutate", obj=e.val(o), how="item")
        return mk("upd", e.val(o), e.val(k), e.val(v))

    def element(self, c, v):
        """a number put into an array of integers becomes one"""
        while c.op == "upd":
            c = c.a[0]
        if c.op != "call" or not isinstance(c.a[0], str) or kind(v) not in ("float", "num", "any"):
            return v
        f = c.a[0].split(".")[-1]
        if f not in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like"):
            return v
        a = [x for x in c.a[1:] if x.op != "kw"]
        d = {x.a[0]: x.a[1] for x in c.a[1:] if x.op == "kw"}.get("dtype") or (a[2 if "full" in f else 1] if len(a) > (2 if "full" in f else 1) else None)
        if d is None and f.endswith("_like"):
            whole = kind(a[0]) == "index" or a[0].op == "range" or a[0].op == "attr" and a[0].a[1] == "index" or (self.known(a[0]) or [NONE]) and all(kind(x) == "int" for x in self.known(a[0]) or [NONE])
        else:
            whole = d is not None and d.op in ("ext", "class", "const") and str(d.a[0]).split(".")[-1] in ("int", "int64", "int32", "int16", "uint", "uint64", "uint32", "intp")
        return mk("call", "int", v) if whole else v

    def upd(self, c, k, v):
        if c.op == "upd" and c.a[1] is k:
            return mk("upd", c.a[0], k, v)
        if c.op == "upd" and cint(k) and cint(c.a[1]) and cval(k) < cval(c.a[1]) and cval(k) >= 0:
            return mk("upd", self.upd(c.a[0], k, v), c.a[1], c.a[2])
        return mk("upd", c, k, v)

    def delitem(self, o, k):
        e = self.e
        o = e.simp(o)
        if o.op in ("h5node", "h5file"):
            self.h5delete(o, k)
            return
        if o.op == "ref" and o.a[1] == "dict":

            def f(c):
                if c.op == "dict":
                    i = self.dget(c, k)
                    if i is not None and i >= 0:
                        return mk("dict", *c.a[:i], *c.a[i + 2 :])
                return mk("ddel", c, e.val(k))

            self.each(o, f)
            return
        if o.op == "ref" and o.a[1] == "list":

            def g(c):
                if c.op == "list" and cint(k) and -len(c.a) <= cval(k) < len(c.a):
                    xs = list(c.a)
                    del xs[cval(k)]
                    return mk("list", *xs)
                return mk("ldel", c, e.val(k))

            self.each(o, g)
            return
        if o.op == "ref" and o.a[1] == "df":
            self.df_drop(o, [k])
            return
        e.event("mutate", obj=e.val(o), how="del")

    # -- types ---------------------------------------------------------------------------------------

    def isinstance_(self, v, cls):
        e = self.e
        v = e.simp(v)
        if v.op == "gamma":
            return e.fact(gamma(v.a[0], self.isinstance_(v.a[1], cls), self.isinstance_(v.a[2], cls)))
        cs = self.known(cls) if cls.op in ("tuple", "ref") else None
        if cls.op == "bin" and cls.a[0] == "|":
            cs = [cls.a[1], cls.a[2]]
        if cs is not None:
            return e.fact(disj([self.isinstance_(v, c) for c in cs]))
        if cls is NONE:
            return e.is_none(v)
        if v.op == "ref" and v.a[1] == "inst":
            if cls.op == "class":
                return const(cls.a[0] in e.mro(v.a[2]))
            return FALSE
        name = cls.a[0].split(".")[-1] if cls.op == "ext" and ("collections" in cls.a[0] or "typing" in cls.a[0] or "numbers" in cls.a[0]) else (cls.a[0] if cls.op in ("ext", "class") else "?")
        name = ALIAS.get(name, name)
        if name == "float" and cls.a[0] != "float":
            name = "numpy.float64"
        k = kind(v)
        if v.op == "conv" and v.a[0] == "bytes":
            k = "bytes"
        if v.op == "h5node":
            if name in ("h5py.Group", "h5py._hl.group.Group", "h5py.Dataset"):
                g = self.h5isgroup(v)
                return g if name != "h5py.Dataset" else neg(g)
            return FALSE
        if k in KINDCLS:
            names = set(KINDCLS[k])
            for n in list(names):
                names |= ALSO.get(n, set())
            if k == "bool":
                names |= ALSO["int"]
            return const(name in names)
        if k.startswith("opt:"):
            kk = k[4:]
            names = set(KINDCLS.get(kk, ()))
            return conj([neg(e.is_none(v)), const(name in names)])
        if k == "num" and name not in ("int", "float", "bool", "numpy.float64", "numpy.int64", "numpy.integer", "numpy.floating", "Number", "Integral", "Real", "numpy.number"):
            return FALSE
        r = v
        while r.op in ("item", "filter"):
            r = r.a[0]
        if r.op == "sym" and r.a[1] in ("array", "boolarray") and name in ("bytes", "str", "dict", "list", "tuple", "pint.Quantity", "pandas.DataFrame", "pandas.Timestamp", "pathlib.Path", "pathlib.PurePath"):
            return FALSE
        return e.fact(mk("isinstance", e.val(v), name))

    def str_(self, v):
        e = self.e
        v = e.simp(v)
        k = kind(v)
        if v.op == "gamma":
            return gamma(v.a[0], self.str_(v.a[1]), self.str_(v.a[2]))
        if v.op == "const":
            return const(str(cval(v)))
        if k == "str":
            return v
        if v.op == "P":
            return v.a[0]
        if k == "path":
            return mk("call", "str", e.val(v))
        if v.op == "ref" and v.a[1] == "inst":
            f, _ = e.findattr(v.a[2], "__str__")
            if f is not None:
                return e.callmethod(v, "__str__", [], {}, e.fakenode())
        if v.op == "class":
            return const(f"<class '{v.a[0]}'>")
        vv = e.val(v)
        if vv.op == "attr" and vv.a[1] == "dtype":
            d = self.dtypestr(vv.a[0])
            if d:
                return const(d)
        return mk("call", "str", vv)

    def dtypestr(self, x):
        x = self.e.val(x)
        if x.op == "filter":
            return self.dtypestr(x.a[0])
        if x.op == "gamma":
            d = self.dtypestr(x.a[1])
            return d if d == self.dtypestr(x.a[2]) else None
        if x.op == "call" and x.a[0] == "pandas.Series" and len(x.a) == 2:
            x = x.a[1].a[1] if x.a[1].op == "kw" and x.a[1].a[0] == "data" else x.a[1]
        ks = self.known(x)
        if ks is not None and ks:
            kk = {kind(y) for y in ks}
            if kk == {"str"}:
                return "<U16"
            if kk <= {"int", "float", "num", "bool", "npint", "npfloat"}:
                return "int64" if kk == {"int"} else "float64"
            if kk <= {"list", "tuple", "array"}:
                return "float64"
            return None
        k = kind(x)
        if x.op == "sym" and k in ("array", "series"):
            return "float64"
        if k in ("array", "series") and x.op in ("bin", "neg") or x.op == "call" and x.a[0] in ("numpy.linspace", "numpy.logspace", "numpy.geomspace", "numpy.diff", "numpy.histogram_bin_edges", "mean", "std", "var", "numpy.ones", "numpy.zeros", "SA_calcI", "SA_matchx") and k in ("array", "series"):
            return "float64"
        if x.op == "call" and x.a[0] == "astype" and len(x.a) == 3 and x.a[2].op == "const" and str(x.a[2].a[0]).startswith("float") or x.op == "astype":
            return "float64"
        if x.op == "call" and x.a[0] == "astype" and len(x.a) == 3 and x.a[2].op == "const" and x.a[2].a[0] in ("int", "int64", "bool", "str", "complex", "object"):
            return {"int": "int64", "str": "<U16", "complex": "complex128"}.get(x.a[2].a[0], x.a[2].a[0])
        if x.op == "item" and k == "array" and x.a[1].op == "slice":
            return self.dtypestr(x.a[0])
        if x.op == "sym" and k == "strarray":
            return "<U16"
        if x.op == "sym" and k == "boolarray":
            return "bool"
        return None

    def invert(self, v):
        e = self.e
        vv = e.val(e.simp(v))
        if is_bool(vv) or kind(vv) in ("boolarray",):
            return e.box(neg(vv))
        return e.box(mk("call", "numpy.invert", vv))

    def binop_special(self, op, a, b):
        e = self.e
        ka, kb = kind(a), kind(b)
        if op in ("&", "|", "*") and (a.op == "ref" or b.op == "ref" or is_bool(a) or is_bool(b)):
            va, vb = e.val(a), e.val(b)
            for x, y in ((va, vb), (vb, va)):  # np.ones(..., dtype=bool) & y
                if x.op == "call" and x.a[0] in ("numpy.ones", "numpy.ones_like") and x.a[-1] is mk("kw", "dtype", ext("bool")) and is_bool(y):
                    return y if op != "|" else x
            if is_bool(va) and is_bool(vb) and (op != "*" or "boolarray" in (ka, kb) or two(va) and two(vb)):
                return conj([va, vb]) if op != "|" else disj([va, vb])
        if op == "+":
            if ka == "list" and kb == "list":
                x, y = self.known(a), self.known(b)
                if x is not None and y is not None:
                    return mk("list", *x, *y)
                return mk("concat", e.val(a), e.val(b))
            if ka == "tuple" and kb == "tuple":
                x, y = self.known(a), self.known(b)
                if x is not None and y is not None:
                    return tup(*x, *y)
            if ka == "str" or kb == "str":
                return strcat(a, b)
        if op == "*" and ka == "list" and cint(b):
            x = self.known(a)
            if x is not None and len(x) * cval(b) <= 64:
                return mk("list", *(x * cval(b)))
        if op == "%" and ka == "str":
            return self.percent(a, b)
        if op == "|" and ka == "dict" and kb == "dict":
            r = e.fresh_ref("dict", e.content(a) if a.op == "ref" else a)
            self.dict_update(r, b)
            return e.content(r)
        if op in ("-", "|", "&") and ka == "set" and kb == "set":
            x, y = self.known(a), self.known(b)
            if x is not None and y is not None and all(p.op == "const" for p in x + y):
                if op == "-":
                    return mk("set", *[p for p in x if p not in y])
                if op == "&":
                    return mk("set", *[p for p in x if p in y])
                return mk("set", *dict.fromkeys(x + y))
        return None

    def percent(self, a, b):
        if cstr(a):
            parts = re.split(r"(%[sdirf])", cval(a))
            args = list(b.a) if b.op == "tuple" else [b]
            if len(parts) // 2 == len(args) and all(p in ("%s", "%d", "%i") for p in parts[1::2]):
                out = []
                for i, p in enumerate(parts):
                    out.append(const(p) if i % 2 == 0 else self.str_(args[i // 2]))
                return strcat(*out)
        return mk("call", "format", self.e.val(a), self.e.val(b))


def match(pat, bv, t):
    """the value of bv for which pat is t, if pat is simple enough"""
    if pat is t and not has(pat, bv):
        return None
    if pat is bv:
        return t
    res = []

    def go(p, x):
        if p is bv:
            res.append(x)
            return True
        if p is x:
            return True
        if p.op != x.op or len(p.a) != len(x.a):
            return False
        for i, j in zip(p.a, x.a):
            if isinstance(i, T) and isinstance(j, T):
                if not go(i, j):
                    return False
            elif i != j:
                return False
        return True

    if go(pat, t) and res and all(r is res[0] for r in res):
        return res[0]
    return None
