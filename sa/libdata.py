"""Model of pandas frames and series.

Content of a frame: ("dfc", index, columns, cells of column 1, ...) if rows and columns are known,
("fr", index, columns, value of column 1, ...) if only the columns are known, anything else is
symbolic.  Content of a series: ("serc", index, values) or symbolic.
"""

import ast

from .terms import *  # noqa: F403
from .terms import T, mk

NAN = sym("numpy.nan", "float")
REDUCTIONS = {"mean", "std", "var", "sem", "sum", "min", "max", "median", "prod", "skew", "kurt", "count"}
DDOF = {"std": 1, "var": 1, "sem": 1}


def fr(index, cols, vals):
    return mk("fr", index, tup(*cols), *vals)


class DataMixin:
    # -- helpers -------------------------------------------------------------------------------------

    def fcontent(self, o):
        e = self.e
        o = e.simp(o)
        if o.op == "ref":
            return e.content(o)
        return o

    def alts(self, c, f):
        """f of a content, alternative by alternative"""
        if c.op == "gamma":
            x = self.e.fact(c.a[0])
            if x is TRUE:
                return self.alts(c.a[1], f)
            if x is FALSE:
                return self.alts(c.a[2], f)
            return gamma(c.a[0], self.alts(c.a[1], f), self.alts(c.a[2], f))
        return f(c)

    def altsplit(self, c, f):
        """the same where f may raise an exception for some of the alternatives"""
        if c.op == "gamma" and self.e.st is not None:
            return self.e.split(c.a[0], lambda: self.altsplit(c.a[1], f), lambda: self.altsplit(c.a[2], f))
        return f(c)

    def boxed(self, t):
        if t.op == "gamma" and kind(t) in ("df", "series"):
            return self.e.fresh_ref(kind(t), t)
        return self.e.box(self.e.note(t))

    def serc(self, idx, vals):
        return mk("serc", tup(*idx), tup(*vals))

    def colnames(self, c):
        """names of the columns of a frame content, None if not known"""
        if c.op in ("dfc", "fr"):
            return list(c.a[1].a)
        if c.op == "filter":
            return self.colnames(c.a[0])
        return None

    def col(self, c, k):
        """column k of the frame content c"""

        def f(c):
            if c.op in ("dfc", "fr"):
                if k in c.a[1].a:
                    v = c.a[2 + c.a[1].a.index(k)]
                    return mk("serc", c.a[0], v) if c.op == "dfc" else v
                if all(self.differ(k, x) for x in c.a[1].a):
                    e = self.e
                    e.event("absentkey", key=k)
                    e.raise_(e.st, "KeyError")
                    e.st = None
                    return unk("dead")
            if c.op == "filter":
                return mk("filter", self.col(c.a[0], k), c.a[1])
            if c.op == "upd" and kind(c.a[0]) == "df":
                if c.a[1] is k:
                    return c.a[2]
                if c.a[1].op == "const" and k.op == "const":
                    return self.col(c.a[0], k)
            return mk("col", c, k)

        return self.altsplit(c, f)

    def row(self, c, k):
        def f(c):
            if c.op == "dfc":
                if k in c.a[0].a:
                    i = c.a[0].a.index(k)
                    return mk("serc", c.a[1], tup(*[x.a[i] for x in c.a[2:]]))
            if c.op == "rowset":
                if c.a[1] is k:
                    return c.a[2]
                if self.differ(c.a[1], k):
                    return self.row(c.a[0], k)
            return mk("row", c, k)

        return self.alts(c, f)

    def cell(self, c, r, k):
        def f(c):
            if c.op == "dfc" and k in c.a[1].a:
                if r in c.a[0].a:
                    return c.a[2 + c.a[1].a.index(k)].a[c.a[0].a.index(r)]
                return mk("cell", c, r, k)
            if c.op == "fr" and k in c.a[1].a:
                return item(c.a[2 + c.a[1].a.index(k)], r)
            if c.op == "upd" and c.a[1].op == "tuple" and len(c.a[1].a) == 2:
                r2, k2 = c.a[1].a
                if r2 is r and k2 is k:
                    return c.a[2]
                if self.differ(k2, k) or self.differ(r2, r):
                    return self.cell(c.a[0], r, k)
            if c.op == "rowset":
                if c.a[1] is r:
                    return self.pick(c.a[2], k)
                if self.differ(c.a[1], r):
                    return self.cell(c.a[0], r, k)
            return mk("cell", c, r, k)

        return self.alts(c, f)

    def pick(self, v, k):
        """entry k of a row value"""
        d = self.dictof(v)
        if d is not None:
            i = self.dget(d, k)
            if i is not None and i >= 0:
                return d.a[i + 1]
            if i == -1:
                return NAN
        return mk("item", self.e.val(v), k)

    def df_iter(self, v):
        e = self.e
        c = self.fcontent(v.a[0])
        if c.op == "gamma":
            return None
        if c.op == "serc" and v.op == "dfitems":
            return [tup(i, x) for i, x in zip(c.a[0].a, c.a[1].a)]
        if c.op == "dfc" and v.op == "iterrows":
            return [tup(i, self.boxed(self.row(c, i))) for i in c.a[0].a]
        if c.op == "dfc" and v.op == "itertuples":
            return [mk("namedrow", tup(*[const("Index")] + list(c.a[1].a)), tup(i, *[x.a[n] for x in c.a[2:]])) for n, i in enumerate(c.a[0].a)]
        ks = self.colnames(c)
        if v.op == "dfitems" and ks is not None:
            return [tup(k, self.boxed(self.bcast(self.col(c, k)))) for k in ks]
        return None

    def bcast(self, v):
        """a column of equal values"""
        return mk("call", "SA_bcast", v) if kind(v) in ("float", "int", "num", "str", "bool", "none") else v

    # -- reading -------------------------------------------------------------------------------------

    def df_getitem(self, o, c, k):
        e = self.e
        kk = e.val(k)
        if kind(o) == "series":

            def f(c):
                if c.op == "serc":
                    if kk in c.a[0].a:
                        return c.a[1].a[c.a[0].a.index(kk)]
                    at = [i for i, x in enumerate(c.a[0].a) if x.op == "tuple" and len(x.a) == 2 and x.a[0] is kk]
                    if at:
                        return mk("serc", tup(*[c.a[0].a[i].a[1] for i in at]), tup(*[c.a[1].a[i] for i in at]))
                    if kk.op == "slice":
                        return mk("item", e.val(c), kk)
                if kk.op != "const" and (is_bool(kk) or kind(kk) in ("series", "array", "boolarray")):
                    return mk("filter", e.val(c), kk)
                if c.op == "row":
                    return self.cell(c.a[0], c.a[1], kk)
                if kk.op == "const":
                    return self.pick(c, kk)
                return item(e.val(c), kk)

            return self.boxed(self.alts(c, f))
        if kind(kk) == "list":
            ks = self.known(kk)
            if ks is not None and all(x.op == "const" for x in ks):

                def g(c):
                    if c.op == "dfc" and all(x in c.a[1].a for x in ks):
                        return mk("dfc", c.a[0], tup(*ks), *[c.a[2 + c.a[1].a.index(x)] for x in ks])
                    if c.op == "dfc":
                        return mk("cols", c, tup(*ks))
                    return fr(mk("attr", e.val(c), "index"), ks, [self.col(c, x) for x in ks])

                return self.boxed(self.alts(c, g))
        if kk.op not in ("const", "tuple", "strcat") and (is_bool(kk) or kind(kk) in ("series", "boolarray", "array")):
            return self.boxed(self.filter_(c, kk))
        if kk.op == "slice":
            return self.boxed(mk("item", e.val(c), kk))
        lv = self.firstlevel(c, kk)
        return self.boxed(self.col(c, kk) if lv is None else lv)

    def firstlevel(self, c, k):
        """the part of a table whose columns are pairs that belongs to one first label"""
        if c.op != "dfc" or k.op != "const" or k in c.a[1].a or not c.a[1].a or not all(x.op == "tuple" and len(x.a) == 2 for x in c.a[1].a):
            return None
        at = [i for i, x in enumerate(c.a[1].a) if x.a[0] is k]
        return mk("dfc", c.a[0], tup(*[c.a[1].a[i].a[1] for i in at]), *[c.a[2 + i] for i in at]) if at else None

    def filter_(self, c, m):
        e = self.e

        def f(c):
            if m is TRUE:
                return c
            if c.op == "filter":
                m2 = self.unfilter(m, c.a[1])
                if m2 is not None:
                    return mk("filter", c.a[0], conj([c.a[1], m2]))
            return mk("filter", e.val(c), m)

        return self.alts(c, f)

    def unfilter(self, t, m1):
        """an element by element mask over filtered values -> the mask over the unfiltered ones"""

        def go(t):
            if t.op == "filter":
                return t.a[0] if t.a[1] is m1 else None
            if t.op in ("cmp", "bin", "neg", "not", "and", "or", "notna") or t.op == "call" and t.a[0] in ("numpy.abs", "numpy.isfinite", "numpy.isnan"):
                xs = [go(x) if isinstance(x, T) else x for x in t.a]
                return None if any(x is None for x in xs) else rebuild(t.op, tuple(xs))
            if kind(t) in ("series", "df", "array", "boolarray") or has_op(t, "filter") and has(t, m1):
                return None
            return t

        return go(t)

    def loc_get(self, o, k):
        e = self.e
        f, how = o.a[0], o.op
        k = e.simp(k)
        if kind(f) in ("array", "boolarray", "strarray"):
            return self.getitem(f, k)
        if kind(f) == "series":
            c = self.fcontent(f)
            if how in ("iloc", "iat"):

                def g(c):
                    ks = list(c.a[1].a) if c.op == "serc" else None
                    if ks is not None and cint(k) and -len(ks) <= cval(k) < len(ks):
                        return ks[cval(k)]
                    return mk("item", e.val(c), e.val(k)) if kind(k) == "slice" or k.op == "slice" else mk("iloc", e.val(c), e.val(k))

                return self.boxed(self.alts(c, g))
            return self.df_getitem(f, c, k)
        c = self.fcontent(f)
        if how in ("iloc", "iat"):
            ks = k.a if k.op == "tuple" else (k,)

            def h(c):
                if c.op == "dfc" and all(cint(x) for x in ks) and -len(c.a[0].a) <= cval(ks[0]) < len(c.a[0].a):
                    r = c.a[0].a[cval(ks[0])]
                    return self.row(c, r) if len(ks) == 1 else self.cell(c, r, c.a[1].a[cval(ks[1])])
                if c.op == "fr" and len(ks) == 1 and k.op == "slice":
                    return mk("fr", c.a[0], c.a[1], *[mk("item", x, e.val(k)) for x in c.a[2:]])
                return mk("iloc", e.val(c), e.val(k))

            return self.boxed(self.alts(c, h))
        if k.op == "tuple" and len(k.a) == 2:
            r, cc = e.val(k.a[0]), e.val(k.a[1])
            if r.op == "slice" and all(x is NONE for x in r.a):
                return self.df_getitem(f, c, k.a[1])
            if kind(cc) == "list" or cc.op == "slice":
                x = self.df_getitem(f, c, k.a[1]) if kind(cc) == "list" else f
                return self.loc_get(mk("loc", x), k.a[0])
            if is_bool(r) or kind(r) in ("boolarray", "array", "series"):
                x = self.df_getitem(f, c, k.a[1])
                return self.df_getitem(x, self.fcontent(x), k.a[0])
            return self.boxed(self.cell(c, r, cc))
        kk = e.val(k)
        if is_bool(kk) and kk.op != "const" or kind(kk) in ("boolarray", "series"):
            return self.boxed(self.filter_(c, kk))
        if kk.op == "slice":
            return f if all(x is NONE for x in kk.a) else self.boxed(mk("item", e.val(c), kk))
        return self.boxed(self.row(c, kk))

    # -- writing -------------------------------------------------------------------------------------

    def loc_set(self, o, k, v):
        e = self.e
        f = o.a[0]
        if f.op != "ref":
            e.event("mutate", obj=e.val(f), how="loc")
            return
        vv = e.val(v)
        k = e.simp(k)
        e.event("framewrite", frame=f, key=e.val(k), value=vv)
        if o.op in ("iloc", "iat"):
            self.each(f, lambda c: mk("upd", e.val(c), mk("iloc", e.val(k)), vv))
            return
        if kind(f) == "series":
            self.each(f, lambda c: self.ser_set(c, e.val(k), vv))
            return
        if k.op == "tuple" and len(k.a) == 2:
            r, cc = e.val(k.a[0]), e.val(k.a[1])
            if r.op == "slice" and all(x is NONE for x in r.a):
                self.each(f, lambda c: self.setcol(c, cc, vv))
                return
            if cc.op in ("seq", "tup") or kind(cc) in ("list", "tuple"):
                names = self.known(k.a[1])
                names = None if names is None else [e.val(x) for x in names]
                vs = None
                if names is not None and all(cstr(x) for x in names):
                    if vv.op == "serc" and set(names) <= set(vv.a[0].a):
                        d = dict(zip(vv.a[0].a, vv.a[1].a))
                        vs = [d[x] for x in names]
                    elif kind(vv) in ("int", "float", "num", "str", "bool", "none"):
                        vs = [vv] * len(names)
                    elif kind(vv) in ("list", "tuple", "array"):
                        ks = self.known(v)
                        vs = [e.val(x) for x in ks] if ks is not None and len(ks) == len(names) else None
                if vs is None:
                    self.each(f, lambda c: unk("columns set in a frame"))
                    return
                for n, x in zip(names, vs):
                    self.each(f, lambda c, n=n, x=x: e.note(self.setcell(c, r, n, x)))
                return
            self.each(f, lambda c: e.note(self.setcell(c, r, cc, vv)))
            return
        self.each(f, lambda c: e.note(self.setrow(c, e.val(k), vv)))

    def ser_set(self, c, k, v):
        if c.op == "serc":
            idx = list(c.a[0].a)
            if k in idx:
                vs = list(c.a[1].a)
                vs[idx.index(k)] = v
                return mk("serc", c.a[0], tup(*vs))
            if all(self.differ(k, x) for x in idx):
                return mk("serc", tup(*idx, k), tup(*c.a[1].a, v))
        return mk("upd", self.e.val(c), k, v)

    def setcell(self, c, r, k, v):
        if c.op == "dfc":
            idx, cols = list(c.a[0].a), list(c.a[1].a)
            vals = [list(x.a) for x in c.a[2:]]
            if r in idx or all(self.differ(r, x) for x in idx):
                if r not in idx:
                    idx.append(r)
                    for x in vals:
                        x.append(NAN)
                if k not in cols:
                    cols.append(k)
                    vals.append([NAN] * len(idx))
                vals[cols.index(k)][idx.index(r)] = v
                return mk("dfc", tup(*idx), tup(*cols), *[tup(*x) for x in vals])
        if c.op == "upd" and c.a[1].op == "tuple" and c.a[1].a == (r, k):
            return mk("upd", c.a[0], c.a[1], v)
        if c.op == "fr" and k.op == "const" and k in c.a[1].a and kind(r) == "boolarray":
            n = 2 + c.a[1].a.index(k)
            return mk("fr", *c.a[:n], mk("upd", c.a[n], r, v), *c.a[n + 1 :])
        return mk("upd", c, tup(r, k), v)

    def rowvals(self, v, cols):
        """the values a row gets from v"""
        d = self.dictof(v)
        if d is not None:
            return [self.pick(d, k) for k in cols]
        ks = self.known(v)
        if ks is not None and v.op in ("list", "tuple"):
            return ks if len(ks) == len(cols) else None
        if v.op == "gamma":
            a, b = self.rowvals(v.a[1], cols), self.rowvals(v.a[2], cols)
            return None if a is None or b is None else [gamma(v.a[0], x, y) for x, y in zip(a, b)]
        if kind(v) in ("dict", "series", "array", "list", "any"):
            if v.op == "row":
                return [self.cell(v.a[0], v.a[1], k) for k in cols]
            return [mk("item", v, k if kind(v) != "array" else const(i)) for i, k in enumerate(cols)]
        return [v] * len(cols)

    def setrow(self, c, r, v):
        if c.op == "dfc":
            idx = list(c.a[0].a)
            vs = self.rowvals(v, list(c.a[1].a))
            if vs is not None and (r in idx or all(self.differ(r, x) for x in idx)):
                if r in idx:
                    n = idx.index(r)
                    cols = [tup(*x.a[:n], y, *x.a[n + 1 :]) for x, y in zip(c.a[2:], vs)]
                else:
                    idx.append(r)
                    cols = [tup(*x.a, y) for x, y in zip(c.a[2:], vs)]
                return mk("dfc", tup(*idx), c.a[1], *cols)
        if c.op == "rowset" and c.a[1] is r:
            return mk("rowset", c.a[0], r, v)
        return mk("rowset", c, r, v)

    def setcol(self, c, k, v):
        e = self.e
        if c.op == "dfc" and not c.a[0].a and kind(v) in ("array", "series", "boolarray", "list", "any") and v.op != "serc":
            c = fr(NONE, c.a[1].a, [NAN] * len(c.a[1].a))
        if c.op == "dfc" and not c.a[0].a and v.op == "serc":
            c = mk("dfc", v.a[0], c.a[1], *[tup(*[NAN] * len(v.a[0].a))] * len(c.a[1].a))
        if c.op == "dfc":
            idx, cols = c.a[0], list(c.a[1].a)
            n = len(idx.a)
            kv = kind(v)
            if v.op == "serc":
                vs = [self.pick(v, i) for i in idx.a]
            elif kv in ("array", "series", "list", "tuple", "boolarray"):
                ks = self.known(v)
                vs = ks if ks is not None and len(ks) == n else [item(v, const(i)) for i in range(n)]
            else:
                vs = [v] * n
            vals = list(c.a[2:])
            if k in cols:
                vals[cols.index(k)] = tup(*vs)
            else:
                cols.append(k)
                vals.append(tup(*vs))
            return mk("dfc", idx, tup(*cols), *vals)
        if c.op == "fr":
            cols, vals = list(c.a[1].a), list(c.a[2:])
            if k in cols:
                vals[cols.index(k)] = v
            else:
                cols.append(k)
                vals.append(v)
            return fr(c.a[0], cols, vals)
        if c.op == "upd" and c.a[1] is k:
            return mk("upd", c.a[0], k, v)
        return mk("upd", e.val(c), k, v)

    def df_setitem(self, o, k, v):
        e = self.e
        kk, vv = e.val(k), e.val(v)
        e.event("framewrite", frame=o, key=kk, value=vv)
        if o.a[1] == "series":
            self.each(o, lambda c: self.ser_set(c, kk, vv))
            return
        self.each(o, lambda c: e.note(self.setcol(c, kk, vv)))

    def df_drop(self, o, keys):
        e = self.e

        def f(c):
            if c.op in ("dfc", "fr") and all(k.op == "const" for k in keys):
                n = [i for i, k in enumerate(c.a[1].a) if k not in keys]
                return mk(c.op, c.a[0], tup(*[c.a[1].a[i] for i in n]), *[c.a[2 + i] for i in n])
            return mk("dropcols", e.val(c), tup(*[e.val(k) for k in keys]))

        e.setcontent(o, self.alts(e.content(o), f))

    def set_columns(self, o, v):
        e = self.e
        ks = self.known(v)

        def f(c):
            if c.op in ("dfc", "fr") and ks is not None and len(ks) == len(c.a[1].a):
                return mk(c.op, c.a[0], tup(*ks), *c.a[2:])
            return mk("call", "set_columns", e.val(c), e.val(v))

        self.each(o, f)
