"""Attributes and methods of frames and series, constructors."""

import ast

from .libdata import DDOF, NAN, REDUCTIONS, fr
from .terms import *  # noqa: F403
from .terms import T, mk


def conditions(ts):
    """the conditions that these alternatives depend on"""
    out = []
    for t in ts:
        if t.op == "gamma":
            out += [x for x in conditions(t.a) if x not in out]
        elif t is not TRUE and t is not FALSE and t not in out:
            out.append(t)
    return out


class Data2Mixin:
    def df_attr(self, o, name):
        e = self.e
        c = self.fcontent(o)
        if name in ("loc", "at", "iloc", "iat"):
            return mk(name, o)
        if name in ("str", "dt"):
            return mk("bmeth", name, o)
        if kind(o) == "df":
            if name in ("index", "columns"):
                def f(c):
                    if c.op == "dfc":
                        return mk("list", *c.a[0 if name == "index" else 1].a)
                    if c.op == "fr" and name == "columns":
                        return mk("list", *c.a[1].a)
                    if c.op == "filter" and name == "columns":
                        return self.alts(c.a[0], f)
                    return mk("attr", e.val(c), name)

                return self.alts(c, f)
            if name == "values":
                return self.df_values(o)
            if name == "T":
                def g(c):
                    if c.op == "dfc":
                        return mk("dfc", c.a[1], c.a[0], *[tup(*[x.a[i] for x in c.a[2:]]) for i in range(len(c.a[0].a))])
                    return mk("call", "transpose", e.val(c))

                return self.boxed(self.alts(c, g))
            if name == "shape":
                def s(c):
                    return tup(self.rows(c), const(len(c.a[1].a))) if c.op in ("dfc", "fr") else mk("attr", e.val(c), name)

                return self.alts(c, s)
            if name == "size" and c.op == "dfc":
                return const(len(c.a[0].a) * len(c.a[1].a))
            if name in ("dtypes", "ndim", "attrs", "style"):
                return mk("attr", e.val(c), name)
            if name == "empty":
                return e.compare_("==", self.rows(c), const(0))
            if not self.ismethod(name):
                return self.boxed(self.col(c, const(name)))
            return None
        if name == "values" or name == "array":
            return self.df_values(o)
        if name == "index":
            return self.alts(c, lambda c: mk("list", *c.a[0].a) if c.op == "serc" else mk("attr", e.val(c), "index"))
        if name in ("shape", "size", "dtype", "name", "ndim", "dtypes"):
            v = e.val(c)
            if name == "dtype":
                return mk("attr", v, "dtype")
            if name == "ndim":
                return const(1)
            if name == "size":
                return self.len_(o)
            if name == "shape":
                return tup(self.len_(o))
            return mk("attr", v, name)
        if name == "empty":
            return e.compare_("==", self.len_(o), const(0))
        if not self.ismethod(name):
            return self.df_getitem(o, c, const(name))
        return None

    METHS = set(
        "query dropna copy to_dict iterrows items keys values mean std sem sum min max median var prod skew kurt count T stack unstack astype "
        "to_numpy drop reset_index sort_values sort_index between isin rename apply head tail itertuples map any all isna isnull notna notnull "
        "equals pipe assign set_index fillna get pop insert update append eval where mask clip abs round transpose tolist to_list to_csv "
        "to_string describe groupby agg aggregate merge join concat replace filter select_dtypes iteritems idxmin idxmax add sub mul div ge gt le lt eq ne "
        "unique nunique squeeze ravel item cumsum diff shift rolling interpolate duplicated drop_duplicates sample nlargest nsmallest xs reindex "
        "info memory_usage pow truediv between_time".split()
    )

    def ismethod(self, name):
        return name in self.METHS or name.startswith("__")

    def rows(self, c):
        if c.op == "dfc":
            return const(len(c.a[0].a))
        return self.len_(c)

    def df_values(self, o):
        e = self.e

        def f(c):
            if c.op == "serc":
                return mk("call", "numpy.array", mk("list", *c.a[1].a))
            if c.op == "dfc":
                return mk("call", "numpy.array", mk("list", *[mk("list", *[x.a[i] for x in c.a[2:]]) for i in range(len(c.a[0].a))]))
            return mk("call", "values", e.val(c))

        r = self.alts(self.fcontent(o), f)
        return e.fresh_ref("array", r)

    def notna(self, c):
        """True if nothing can be missing"""
        if c.op == "serc":
            if any(x is NAN for x in c.a[1].a):
                return None
        return None

    def reduce_(self, c, name, kw):
        """a reduction over the rows of a frame or the entries of a series"""
        e = self.e
        kw = dict(kw)
        if kw.get("skipna") is TRUE:
            kw.pop("skipna")
        for k in ("numeric_only", "dtype"):
            kw.pop(k, None)
        if kw.get("axis") in (const(0), const("index"), NONE):
            kw.pop("axis")
        if name in DDOF and "ddof" not in kw:
            kw["ddof"] = const(DDOF[name])

        def one(x):
            return e.note(mk("call", name, x, *self.kws(kw)))

        def f(c):
            if "axis" not in kw:
                if c.op == "dfc":
                    return mk("serc", c.a[1], tup(*[one(mk("list", *x.a)) for x in c.a[2:]]))
                if c.op == "fr":
                    return mk("serc", c.a[1], tup(*[one(x) for x in c.a[2:]]))
                if c.op == "serc":
                    return one(mk("list", *c.a[1].a))
            if c.op == "dfc" and kw.get("axis") in (const(1), const("columns")):
                k2 = [x for x in self.kws(kw) if x.a[0] != "axis"]
                return mk("serc", c.a[0], tup(*[mk("call", name, mk("list", *[x.a[i] for x in c.a[2:]]), *k2) for i in range(len(c.a[0].a))]))
            return one(e.val(c))

        return self.boxed(self.alts(c, f))

    def df_method(self, o, name, args, kw):
        e = self.e
        c = self.fcontent(o)
        isdf = kind(o) == "df"
        inplace = kw.get("inplace") is TRUE
        kw = {k: v for k, v in kw.items() if k != "inplace"}

        def done(t):
            if inplace and o.op == "ref":
                e.setcontent(o, t)
                return NONE
            return self.boxed(t)

        if name in ("copy", "infer_objects", "convert_dtypes", "squeeze"):
            return e.fresh_ref(kind(o), c)
        if name in REDUCTIONS:
            names = {"mean": ["axis"], "std": ["axis", "skipna", "ddof"], "sem": ["axis", "skipna", "ddof"]}.get(name, ["axis"])
            kw = dict(zip(names, args)) | kw
            return self.reduce_(c, name, kw)
        if name == "query" and isdf and cstrlike(args[0]):
            m = self.querymask(e.val(args[0]), c)
            if m is not None:
                return done(self.filter_(c, m))
        if name == "dropna":
            if isdf and not args and set(kw) <= {"inplace", "thresh", "how", "subset"} and self.alltab(c):
                t = self.alts(c, lambda c: self.dropknown(c, kw) or unk("too many cases"))
                if not has_op(t, "unk"):
                    return done(t)
            if isdf and not args and set(kw) - {"inplace"} == {"subset"}:
                sub = e.simp(kw["subset"])
                sub = [sub] if cstr(sub) else self.known(sub)
                if sub and all(cstr(k) for k in sub):
                    return done(self.alts(c, lambda c: self.dropna(c, sub)))
            if "thresh" in kw or "subset" in kw or "how" in kw or "axis" in kw or args:
                return done(self.alts(c, lambda c: mk("call", "dropna", e.val(c), *[e.val(a) for a in args], *self.kws(kw))))
            return done(self.alts(c, self.dropna))
        if name == "fillna" and args and not kw and kind(args[0]) in ("int", "float", "num") and self.alltab(c):
            v = e.val(args[0])

            def fillcell(x):
                m = self.missing(x)
                return x if m is FALSE else gamma(m, v, x)

            return done(self.alts(c, lambda c: mk("dfc", c.a[0], c.a[1], *[tup(*[fillcell(x) for x in col.a]) for col in c.a[2:]])))
        if name in ("isna", "isnull"):
            return self.boxed(self.alts(c, lambda c: neg(mk("notna", e.val(c)))))
        if name in ("notna", "notnull"):
            return self.boxed(self.alts(c, lambda c: mk("notna", e.val(c))))
        if name == "between" and kind(o) == "series":
            r = self.between(e.val(c), args, kw)
            if r is not None:
                return self.boxed(r)
        if name == "to_dict":
            return self.to_dict(o, c, args, kw)
        if name == "iterrows":
            return mk("iterrows", o)
        if name == "itertuples":
            return mk("itertuples", o)
        if name in ("items", "iteritems"):
            return mk("dfitems", o)
        if name == "keys":
            return self.df_attr(o, "columns" if isdf else "index")
        if name in ("to_numpy", "ravel", "__array__"):
            v = self.df_values(o)
            d = kw.get("dtype", args[0] if args else None)
            return v if d is None else e.box(self.astype(e.val(v), d))
        if name in ("tolist", "to_list"):
            return self.call("list", [o], {})
        if name == "transpose" and isdf:
            return self.df_attr(o, "T")
        if name == "stack" and isdf:

            def st(c):
                if c.op == "dfc":
                    return mk("serc", tup(*[tup(i, k) for i in c.a[0].a for k in c.a[1].a]), tup(*[x.a[n] for n in range(len(c.a[0].a)) for x in c.a[2:]]))
                return mk("call", "stack", e.val(c))

            return e.fresh_ref("series", self.alts(c, st))
        if name == "get" and args:
            has_ = self.contains(o, args[0])
            d = args[1] if len(args) > 1 else NONE
            return e.split(e.truth(has_), lambda: self.df_getitem(o, self.fcontent(o), e.simp(args[0])), lambda: d)
        if name == "astype":
            return self.boxed(self.alts(c, lambda c: c)) if isdf else self.astype(e.val(c), args[0])
        if name == "drop" and isdf:
            cols = kw.get("columns")
            if cols is None and kw.get("axis") in (const(1), const("columns")):
                cols = args[0] if args else kw.get("labels")
            ks = None if cols is None else ([cols] if cstr(e.simp(cols)) else self.known(cols))
            if ks is not None:
                r = o if inplace else e.fresh_ref("df", c)
                self.df_drop(r, ks)
                return NONE if inplace else r
        if name == "assign" and isdf:
            r = e.fresh_ref("df", c)
            for k, v in kw.items():
                if v.op in ("closure", "func"):
                    v = e.call(v, [r], {}, e.fakenode())
                self.df_setitem(r, const(k), v)
            return r
        if name in ("head", "tail"):
            pass
        if name in ("abs", "round", "clip") and not isdf:
            return self.call({"abs": "numpy.abs", "clip": "numpy.clip"}.get(name, name), [o] + args, kw)
        if name in ("add", "sub", "mul", "div", "truediv", "pow") and len(args) == 1 and not kw:
            return e.binop({"add": "+", "sub": "-", "mul": "*", "div": "/", "truediv": "/", "pow": "**"}[name], o, args[0])
        if name in ("ge", "gt", "le", "lt", "eq", "ne") and len(args) == 1 and not kw:
            return e.compare({"ge": ">=", "gt": ">", "le": "<=", "lt": "<", "eq": "==", "ne": "!="}[name], o, args[0])
        if name in ("any", "all") and not isdf:
            return self.call(name, [o] + args, kw)
        if name == "item" and not args:
            return mk("call", "item", e.val(c))
        if name == "pop" and o.op == "ref" and isdf:
            v = self.df_getitem(o, c, args[0])
            self.df_drop(o, [e.simp(args[0])])
            return v
        if name in ("insert", "update", "append") and o.op == "ref":
            if name == "insert" and len(args) == 3:
                self.df_setitem(o, args[1], args[2])
                return NONE
            e.setcontent(o, mk("call", "df." + name, e.val(c), *[e.val(a) for a in args], *self.kws(kw)))
            return NONE
        if name == "reset_index" and isdf and kw.get("drop") is TRUE:

            def ri(c):
                if c.op == "dfc":
                    return mk("dfc", tup(*[const(i) for i in range(len(c.a[0].a))]), *c.a[1:])
                return mk("call", "reset_index", e.val(c))

            t = self.alts(c, ri)
            return done(t)
        if name == "sort_values" and isdf and not set(kw) - {"by", "ignore_index", "inplace", "kind"}:
            by = e.simp(args[0] if args else kw.get("by", NONE))
            by = [by] if cstr(by) else self.known(by) or []
            if len(by) == 1 and cstr(by[0]):
                t = self.alts(c, lambda c: self.sortrows(c, by[0], kw.get("ignore_index") is TRUE))
                return done(t)
        if name == "drop_duplicates" and isdf and not args and not set(kw) - {"ignore_index", "inplace"}:
            return done(self.alts(c, lambda c: self.distinct(c, kw.get("ignore_index") is TRUE)))
        if name == "rename" and isdf and "columns" in kw:
            d = self.dictof(kw["columns"])
            if d is not None and c.op in ("dfc", "fr"):
                m = dict(zip(d.a[::2], d.a[1::2]))
                return done(mk(c.op, c.a[0], tup(*[m.get(k, k) for k in c.a[1].a]), *c.a[2:]))
        t = self.alts(c, lambda c: mk("call", "df." + name, e.val(c), *[e.val(a) for a in args], *self.kws(kw)))
        if inplace and o.op == "ref":
            e.setcontent(o, t)
            return NONE
        if name in ("sort_values", "sort_index", "reset_index", "set_index", "head", "tail", "rename", "fillna", "reindex", "sample", "drop", "where", "mask", "replace"):
            return e.fresh_ref(kind(o), e.note(t))
        if name in ("apply", "agg", "isin", "map"):
            return e.fresh_ref("series", e.note(t))
        return self.boxed(t)

    def sortrows(self, c, by, ignore):
        """a small table in the order of one column: one alternative per order of its rows"""
        e = self.e
        if c.op != "dfc" or by not in c.a[1].a or len(c.a[0].a) > 3:
            return mk("call", "df.sort_values", e.val(c), mk("kw", "by", by))
        idx, vals = c.a[0].a, c.a[2 + c.a[1].a.index(by)].a
        n = len(idx)

        def build(rows):
            ix = range(n) if ignore else rows
            return mk("dfc", tup(*[const(i) if ignore else idx[i] for i in ix]), c.a[1], *[tup(*[x.a[i] for i in rows]) for x in c.a[2:]])

        def go(done_, i):
            if i == n:
                return build(done_)

            def place(j):  # row i goes before place j
                if j < 0:
                    return go([i, *done_], i + 1)
                less = e.compare_("<", vals[i], vals[done_[j]])
                at = lambda: go([*done_[: j + 1], i, *done_[j + 1 :]], i + 1)  # noqa: E731
                return place(j - 1) if less is TRUE else at() if less is FALSE else gamma(less, place(j - 1), at())

            return place(len(done_) - 1)

        return go([], 0)

    def distinct(self, c, ignore):
        """a small table without the rows that equal an earlier one: one alternative per choice of rows"""
        e = self.e
        if c.op != "dfc" or len(c.a[0].a) > 3:
            return mk("call", "df.drop_duplicates", e.val(c))
        n = len(c.a[0].a)

        def go(kept, i):
            if i == n:
                return mk("dfc", tup(*[const(j) for j in range(len(kept))]) if ignore else tup(*[c.a[0].a[j] for j in kept]), c.a[1], *[tup(*[x.a[j] for j in kept]) for x in c.a[2:]])
            same = disj([conj([e.truth(e.compare_("==", x.a[i], x.a[j])) for x in c.a[2:]]) for j in kept])
            if same is TRUE:
                return go(kept, i + 1)
            return go([*kept, i], i + 1) if same is FALSE else gamma(same, go(kept, i + 1), go([*kept, i], i + 1))

        return go([], 0)

    def between(self, x, args, kw):
        e = self.e
        inc = e.val(args[2] if len(args) > 2 else kw.get("inclusive", const("both")))
        lo, hi = e.val(args[0]), e.val(args[1])
        if inc.op == "const" and cval(inc) in ("both", "left", "right", "neither", True, False):
            i = cval(inc)
            a = mk("cmp", "<=" if i in ("both", "left", True) else "<", lo, x)
            b = mk("cmp", "<=" if i in ("both", "right", True) else "<", x, hi)
            return conj([a, b])
        return None

    def complete(self, x, subset=None):
        """which rows have no missing value?"""
        if x.op == "fr" and (subset is None or all(k in x.a[1].a for k in subset)):
            cols = [v for k, v in zip(x.a[1].a, x.a[2:]) if subset is None or k in subset]
            return conj([neg(mk("call", "numpy.isnan", v)) for v in sorted(cols, key=lambda v: v.id)])
        return mk("notna", x) if subset is None else mk("notna", mk("cols", x, tup(*sorted(subset, key=str))))

    def alltab(self, c):
        return self.alltab(c.a[1]) and self.alltab(c.a[2]) if c.op == "gamma" else c.op == "dfc" and 0 < len(c.a[0].a) <= 4

    def missing(self, x):
        """is this cell NaN?  what was computed from datapoints is taken to be a number"""
        if x is NAN:
            return TRUE
        if x.op == "gamma":
            return gamma(x.a[0], self.missing(x.a[1]), self.missing(x.a[2]))
        if x.op in ("sym", "item", "cell", "unk"):
            return mk("call", "numpy.isnan", x)
        return FALSE

    def atleast(self, n, ms):
        """are at least n of these conditions false?"""
        ms = [m for m in ms if m is not TRUE]
        if n <= 0:
            return TRUE
        if len(ms) < n:
            return FALSE
        if sum(m is FALSE for m in ms) >= n:
            return TRUE
        m = next(m for m in ms if m is not FALSE)
        while m.op == "gamma":
            m = m.a[0]

        def given(t, v):
            if t is m:
                return const(v)
            return gamma(given(t.a[0], v), given(t.a[1], v), given(t.a[2], v)) if t.op == "gamma" else t

        return gamma(m, self.atleast(n, [given(t, True) for t in ms]), self.atleast(n, [given(t, False) for t in ms]))

    def dropknown(self, c, kw):
        e = self.e
        sub = None
        if kw.get("subset", NONE) is not NONE:
            sub = e.simp(kw["subset"])
            sub = [sub] if cstr(sub) else self.known(sub)
            if not sub or not all(k in c.a[1].a for k in sub):
                return None
        cols = [v for k, v in zip(c.a[1].a, c.a[2:]) if sub is None or k in sub]
        n = e.simp(kw.get("thresh", NONE))
        if n is NONE:
            n = const(1 if kw.get("how") is const("all") else len(cols))
        if not cint(n):
            return None
        keep = []
        for i in range(len(c.a[0].a)):
            ms = [self.missing(e.val(v.a[i])) for v in cols]
            if len(conditions(ms)) > 8:
                return None
            keep.append(self.atleast(cval(n), ms))

        def rows(i, kept):
            if i == len(keep):
                return mk("dfc", tup(*[c.a[0].a[j] for j in kept]), c.a[1], *[tup(*[v.a[j] for j in kept]) for v in c.a[2:]])
            return gamma(keep[i], rows(i + 1, kept + [i]), rows(i + 1, kept))

        return rows(0, [])

    def dropna(self, c, subset=None):
        e = self.e
        x = c.a[0] if c.op == "filter" else c
        n = self.complete(e.val(x), subset)
        return self.filter_(c, n) if c.op != "filter" else mk("filter", x, conj([c.a[1], n]))

    def to_dict(self, o, c, args, kw):
        e = self.e
        orient = e.val(args[0] if args else kw.get("orient", const("dict")))
        ori = cval(orient) if cstr(orient) else None

        def new(*kv):
            return e.fresh_ref("dict", mk("dict", *kv))

        def lst(xs):
            return e.fresh_ref("list", mk("list", *xs))

        def f(c):
            if c.op == "serc":
                return mk("dict", *[x for p in zip(c.a[0].a, c.a[1].a) for x in p])
            if c.op == "dfc":
                idx, cols, vals = c.a[0].a, c.a[1].a, c.a[2:]
                if ori == "split":
                    rows = [lst([x.a[i] for x in vals]) for i in range(len(idx))]
                    return mk("dict", const("index"), lst(idx), const("columns"), lst(cols), const("data"), lst(rows))
                if ori == "index":
                    return mk("dict", *[y for n, i in enumerate(idx) for y in (i, new(*[z for k, x in zip(cols, vals) for z in (k, x.a[n])]))])
                if ori == "dict":
                    return mk("dict", *[y for k, x in zip(cols, vals) for y in (k, new(*[z for p in zip(idx, x.a) for z in p]))])
                if ori == "list":
                    return mk("dict", *[y for k, x in zip(cols, vals) for y in (k, lst(x.a))])
                if ori == "records":
                    return mk("list", *[new(*[z for k, x in zip(cols, vals) for z in (k, x.a[n])]) for n in range(len(idx))])
            if c.op == "row":
                return mk("rowdict", c.a[0], c.a[1])
            return mk("call", "to_dict", e.val(c), *([] if ori in (None, "dict") else [orient]))

        t = self.alts(c, f)
        k = kind(t) if t.op != "gamma" else ("list" if ori == "records" else "dict")
        return e.fresh_ref("list" if k == "list" else "dict", t)

    # -- query strings -------------------------------------------------------------------------------

    def querymask(self, s, c):
        """the rows that a query text selects"""
        e = self.e
        holes = []
        text = ""
        for p in pieces(s):
            if cstr(p):
                text += cval(p)
            else:
                q = p
                if q.op == "call" and q.a[0] == "str" and len(q.a) == 2:
                    q = q.a[1]
                text += f" HOLE_{len(holes)}_ "
                holes.append(q)
        try:
            tree = ast.parse(text.strip().replace("@", "AT_"), mode="eval").body
        except SyntaxError:
            return None

        def ev(n):
            if isinstance(n, ast.Constant):
                return const(n.value)
            if isinstance(n, ast.Name):
                if n.id.startswith("HOLE_"):
                    return holes[int(n.id.split("_")[1])]
                if n.id.startswith("AT_"):
                    return self.localname(n.id[3:])
                if n.id == "index":
                    return mk("attr", e.val(c), "index")
                if n.id in ("inf", "nan"):
                    return sym("numpy." + n.id, "float")
                return self.col(c, const(n.id))
            if isinstance(n, ast.Compare):
                cs = []
                left = ev(n.left)
                for op, r in zip(n.ops, n.comparators):
                    right = ev(r)
                    o = self.CMP.get(type(op))
                    if left is None or right is None or o not in ("<", "<=", ">", ">=", "==", "!="):
                        return None
                    cs.append(e.val(e.compare(o, left, right)))
                    left = right
                return conj(cs)
            if isinstance(n, ast.BoolOp) or isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                xs = [ev(x) for x in (n.values if isinstance(n, ast.BoolOp) else (n.left, n.right))]
                if any(x is None for x in xs):
                    return None
                return conj(xs) if isinstance(n.op, (ast.And, ast.BitAnd)) else disj(xs)
            if isinstance(n, ast.BinOp) and type(n.op) in self.OPS:
                a, b = ev(n.left), ev(n.right)
                return None if a is None or b is None else e.val(e.binop(self.OPS[type(n.op)], a, b))
            if isinstance(n, ast.UnaryOp):
                x = ev(n.operand)
                if x is None:
                    return None
                return neg(x) if isinstance(n.op, (ast.Not, ast.Invert)) else mk("neg", x) if isinstance(n.op, ast.USub) else x
            if isinstance(n, ast.Attribute):
                v = ev(n.value)
                return None if v is None else e.val(e.getattr(v, n.attr))
            if isinstance(n, ast.Subscript):
                v, k = ev(n.value), ev(n.slice)
                return None if v is None or k is None else e.val(self.getitem(v, k))
            return None

        return ev(tree)

    def localname(self, name):
        """@name in a query: a local variable of the analysed frame"""
        e = self.e
        fr_ = e.curframe
        if fr_ is None:
            return None
        return e.val(e.lookup(name, fr_))

    # -- constructors --------------------------------------------------------------------------------

    def f_pandas_Series(self, args, kw):
        e = self.e
        d = dict(zip(["data", "index", "dtype", "name"], args)) | kw
        v = e.simp(d.get("data", NONE))
        idx = self.known(d["index"]) if "index" in d and d["index"] is not NONE else None
        dd = self.dictof(v) if kind(v) in ("dict", "series") or v.op == "ref" else None
        if dd is not None and all(x.op in ("const", "tuple") for x in dd.a[::2]):
            idx = idx or list(dd.a[::2])
            return e.fresh_ref("series", self.serc(idx, [e.val(self.pick(dd, i)) for i in idx]))
        ks = self.known(v)
        if idx is not None and ks is not None and len(ks) == len(idx):
            return e.fresh_ref("series", self.serc(idx, [e.val(x) for x in ks]))
        if idx is not None and kind(v) not in ("array", "series", "list", "any", "dict"):
            return e.fresh_ref("series", self.serc(idx, [NAN if v is NONE else e.val(v)] * len(idx)))
        if set(d) <= {"data", "name"} and kind(v) in ("array", "series", "boolarray"):
            return e.fresh_ref("series", e.val(v))
        return self.generic("pandas.Series", [], d)

    def f_pandas_DataFrame(self, args, kw):
        e = self.e
        d = dict(zip(["data", "index", "columns", "dtype"], args)) | kw
        d.pop("copy", None)
        v = e.simp(d.get("data", NONE))
        if v.op == "gamma":
            return e.split(v.a[0], *[(lambda x: lambda: self.call("pandas.DataFrame", [], d | {"data": x}))(x) for x in v.a[1:]])

        def opt(n):
            if n not in d or e.simp(d[n]) is NONE:
                return None
            return d[n]

        i, cl = opt("index"), opt("columns")
        idx = self.known(i) if i is not None else None
        cols = self.known(cl) if cl is not None else None
        if i is not None and idx is None or cl is not None and cols is None:
            return e.fresh_ref("df", e.note(mk("call", "pandas.DataFrame", *[mk("kw", k, e.val(d[k])) for k in sorted(d) if d[k] is not NONE])))

        def new(t):
            return e.fresh_ref("df", e.note(t))

        if v is NONE:
            ix, cs = idx or [], cols or []
            return new(mk("dfc", tup(*ix), tup(*cs), *[tup(*[NAN] * len(ix))] * len(cs)))
        if kind(v) == "df":
            r = e.fresh_ref("df", self.fcontent(v))
            return r if cols is None and idx is None else self.df_getitem(r, self.fcontent(r), d["columns"]) if idx is None else None
        dd = self.dictof(v) if kind(v) == "dict" else None
        if dd is not None:
            ks, vs = list(dd.a[::2]), [e.val(x) for x in dd.a[1::2]]
            if cols is not None:
                vs = [e.val(self.pick(dd, k)) for k in cols]
                ks = cols
            sers = [x for x in vs if x.op in ("serc", "dict")]
            if vs and len(sers) == len(vs):
                first = [list(x.a[0].a) if x.op == "serc" else list(x.a[::2]) for x in vs]
                ix = idx or first[0]
                if idx is not None or all(x == ix for x in first):
                    return new(mk("dfc", tup(*ix), tup(*ks), *[tup(*[self.pick(x, i) for i in ix]) for x in vs]))
            known = [self.known(x) if kind(x) in ("list", "tuple", "array") else None for x in vs]
            if vs and all(x is not None for x in known) and len({len(x) for x in known}) == 1:
                n = len(known[0])
                ix = idx if idx is not None else [const(j) for j in range(n)]
                if len(ix) == n:
                    return new(mk("dfc", tup(*ix), tup(*ks), *[tup(*x) for x in known]))
            if not vs:
                return new(mk("dfc", tup(*(idx or [])), tup()))
            return new(fr(NONE if idx is None else tup(*idx), ks, vs))
        ks = self.known(v)
        if ks is not None and ks and all(kind(x) in ("dict",) for x in ks):
            ds = [self.dictof(x) for x in ks]
            if all(x is not None for x in ds):
                cs = cols or list(dict.fromkeys(k for x in ds for k in x.a[::2]))
                ix = idx or [const(j) for j in range(len(ds))]
                return new(mk("dfc", tup(*ix), tup(*cs), *[tup(*[e.val(self.pick(x, k)) for x in ds]) for k in cs]))
        if ks is not None and cols is not None:
            rows = [self.known(x) for x in ks]
            if all(r is not None and len(r) == len(cols) for r in rows):
                ix = idx or [const(j) for j in range(len(rows))]
                if len(ix) == len(rows):
                    return new(mk("dfc", tup(*ix), tup(*cols), *[tup(*[e.val(r[j]) for r in rows]) for j in range(len(cols))]))
        vv = e.val(v)
        if cols is not None and idx is not None and kind(vv) in ("array", "any", "list", "h5val"):
            return new(mk("dfc", tup(*idx), tup(*cols), *[tup(*[item(item(vv, const(r)), const(j)) for r in range(len(idx))]) for j in range(len(cols))]))
        return e.fresh_ref("df", e.note(mk("call", "pandas.DataFrame", *[mk("kw", k, e.val(d[k])) for k in sorted(d) if d[k] is not NONE])))

    def f_pandas_read_csv(self, args, kw):
        e = self.e
        d = dict(zip(["filepath_or_buffer"], args)) | kw
        p = d.pop("filepath_or_buffer", NONE)
        spread = {k: v for k, v in d.items()}
        e.event("read_csv", path=e.val(p), kw={k: e.val(v) for k, v in spread.items()})
        if self.gone(e.val(self.topath(p))):
            return self.notfound()
        h = self.tables.get(e.val(self.topath(p)))
        if h is not None:
            return e.call(h, [], spread, e.fakenode())
        t = e.note(mk("call", "pandas.read_csv", e.val(self.topath(p)), *self.kws(spread)))
        ns = self.known(d["names"]) if "names" in d else None
        if ns and all(cstr(n) for n in ns) and not {"usecols", "index_col"} & set(d):
            t = mk("fr", NONE, tup(*ns), *[mk("col", t, n) for n in ns])
        return e.fresh_ref("df", t)

    def sa_DF(self, args, kw):
        """SA_DF(name): a frame of unknown length with three columns; SA_DF(name, n, cols): known rows"""
        e = self.e
        if len(args) == 1:
            return e.fresh_ref("df", sym(cval(args[0]), "df"))
        n, cols = cval(args[1]), self.known(args[2])
        nm = cval(args[0])
        return e.fresh_ref("df", mk("dfc", tup(*[const(i) for i in range(n)]), tup(*cols), *[tup(*[sym(f"{nm}[{i},{cval(c)}]", "num") for i in range(n)]) for c in cols]))


def cstrlike(t):
    return kind(t) == "str" or cstr(t)
