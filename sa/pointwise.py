"""What an array expression is at any single point of the given arrays.

Selections by masks, numpy.where and assignments to masked elements become case distinctions, so that
different ways to write an elementwise computation compare as equal.  Anything that is not surely
elementwise raises Unclear.
"""
from .terms import *  # noqa: F403
from .terms import T, mk

ELEMENTWISE = set(
    "sin cos tan exp log log10 log2 sqrt abs square power add subtract multiply divide true_divide negative isnan isfinite isinf logical_and logical_or "
    "logical_not invert maximum minimum sinc hypot reciprocal cbrt".split()
)
ARITH = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**"}
SAME = {"copy", "astype", "numpy.array", "numpy.atleast_1d", "numpy.ascontiguousarray", "squeeze", "flatten", "deepcopy", "numpy.asarray"}


class Unclear(Exception):
    pass


def cmp(o, x, y):
    return mk("cmp", o, x, y)


class Points:
    def __init__(self):
        self.arrays = {}
        self.memo = {}
        self.results = []

    def point(self, t, masks=()):
        k = (t, masks)
        if k not in self.memo:
            self.memo[k] = self.point_(t, masks)
            if not masks:
                self.results.append(self.memo[k])
        return self.memo[k]

    def plain(self, t):
        """a single number, the same for all points"""
        return t.op in ("const", "ext") or kind(t) in ("int", "float", "num", "str", "none", "bool") and t.op in ("sym", "item", "call", "bin", "neg", "attr", "draw")

    def point_(self, t, masks):
        p = lambda x: self.point(x, masks)  # noqa: E731
        if t.op == "sym" and kind(t) == "array":
            self.arrays[t] = sym(t.a[0], "num")
            return self.arrays[t]
        if t.op in ("const", "ext"):
            return t
        if t.op == "gamma":
            return gamma(p(t.a[0]), p(t.a[1]), p(t.a[2]))
        if t.op == "upd":
            m = t.a[1]
            if kind(m) != "boolarray" and m.op not in ("cmp", "not", "and", "or") and not is_bool(m):
                raise Unclear("assignment to " + show(m, 3))
            return gamma(self.truth(m, masks), self.point(t.a[2], masks + (m,)), p(t.a[0]))
        if t.op in ("item", "filter") and isinstance(t.a[1], T) and (is_bool(t.a[1]) or kind(t.a[1]) == "boolarray" or t.a[1].op in ("cmp", "not", "and", "or")):
            if t.a[1] not in masks:
                raise Unclear("selection by " + show(t.a[1], 3))
            return p(t.a[0])
        if t.op == "item" and (cint(t.a[1]) or cstr(t.a[1])):
            if t.a[0].op == "sym" or self.plain(t):
                return t
            raise Unclear(show(t, 3))
        if t.op in ("bin", "neg"):
            return mk(t.op, *[p(x) if isinstance(x, T) else x for x in t.a])
        if t.op in ("cmp", "not", "and", "or", "truth"):
            return self.truth(t, masks)
        if t.op == "app":
            return self.interpolated(t, p)
        if t.op == "call":
            f, a = t.a[0], [x for x in t.a[1:] if x.op != "kw"]
            kw = {x.a[0]: x.a[1] for x in t.a[1:] if x.op == "kw"}
            n = f.split(".")[-1]
            if f in SAME:
                return p(a[0])
            if f.startswith("SA_fun:interp_"):
                return mk("call", f, a[0], a[1], p(a[2]))
            if f == "numpy.where" and len(a) == 3:
                return gamma(self.truth(a[0], masks), self.point(a[1], masks), self.point(a[2], masks))
            if f in ("numpy.isnan", "pandas.isna"):
                return self.isnan(p(a[0]))
            if f == "numpy.isfinite":
                return neg(self.isnan(p(a[0])))
            if f in ("numpy.zeros_like", "numpy.zeros", "numpy.ones_like", "numpy.ones"):
                return const(0) if "zeros" in f else const(1)
            if f in ("numpy.full_like", "numpy.full"):
                return p(kw.get("fill_value", a[1] if len(a) > 1 else None))
            if f.startswith("numpy.") and n in ARITH and len(a) == 2:
                return mk("bin", ARITH[n], p(a[0]), p(a[1]))
            if f == "numpy.square":
                return mk("bin", "**", p(a[0]), const(2))
            if f == "numpy.negative":
                return mk("neg", p(a[0]))
            if f == "numpy.reciprocal":
                return mk("bin", "/", const(1), p(a[0]))
            if f == "numpy.divide":
                raise Unclear(f)
            if f.startswith("numpy.") and n in ELEMENTWISE and not kw:
                return mk("call", f, *[p(x) for x in a])
            if f == "numpy.nan_to_num":
                x = p(a[0])
                return gamma(self.isnan(x), kw.get("nan", const(0)), x)
            if f in ("min_of", "max_of"):
                return mk("call", f, *[p(x) for x in a])
            if f in ("numpy.maximum", "numpy.minimum") and len(a) == 2:
                return mk("call", "max_of" if "max" in f else "min_of", *[p(x) for x in a])
            if f in ("min", "max", "mean", "sum", "float", "len", "numpy.max", "numpy.min") and not has_op(t, "unk", "mu", "loopval"):
                if f == "float":
                    return p(a[0])
                return t
        if self.plain(t) and not any(s.op == "sym" and kind(s) == "array" for s in walk(t)):
            return t
        raise Unclear(show(t, 3)[:120])

    def truth(self, t, masks):
        p = lambda x: self.point(x, masks)  # noqa: E731
        if t.op == "cmp":
            return self.compared(t.a[0], p(t.a[1]), p(t.a[2]))
        if t.op == "not":
            return neg(self.truth(t.a[0], masks))
        if t.op in ("and", "or"):
            return (conj if t.op == "and" else disj)([self.truth(x, masks) for x in t.a])
        if t.op == "truth":
            return self.truth(t.a[0], masks)
        if t.op == "const":
            return t
        if t.op == "call" and t.a[0] in ("numpy.logical_not", "numpy.invert"):
            return neg(self.truth(t.a[1], masks))
        if t.op == "call" and t.a[0] in ("numpy.logical_and", "numpy.logical_or"):
            return (conj if t.a[0].endswith("and") else disj)([self.truth(x, masks) for x in t.a[1:]])
        if t.op in ("call", "gamma"):
            r = p(t)
            if r.op in ("cmp", "not", "and", "or", "const") or r.op == "gamma" and is_bool(r):
                return r
        if self.plain(t) and kind(t) in ("int", "float", "num"):
            return neg(cmp("==", t, const(0)))
        raise Unclear("condition " + show(t, 3)[:120])

    def compared(self, o, x, y):
        """the sign of a product from those of its factors"""
        if y.op == "const" and cval(y) == 0 and x.op == "bin" and x.a[0] == "*":
            a, b = x.a[1:]
            if o == "==":
                return disj([self.compared(o, a, y), self.compared(o, b, y)])
            if o == "<":
                return disj([conj([self.compared(o, a, y), self.compared(o, y, b)]), conj([self.compared(o, y, a), self.compared(o, b, y)])])
        if x.op == "const" and cval(x) == 0 and y.op == "bin" and y.a[0] == "*" and o == "<":
            a, b = y.a[1:]
            return disj([conj([self.compared(o, x, a), self.compared(o, x, b)]), conj([self.compared(o, a, x), self.compared(o, b, x)])])
        return cmp(o, x, y)

    def isnan(self, x):
        """a result of numbers that are none"""
        if x.op == "gamma":
            a, b = self.isnan(x.a[1]), self.isnan(x.a[2])
            return disj([conj([x.a[0], a]), conj([neg(x.a[0]), b])])
        if x.op in ("bin", "neg"):
            return disj([self.isnan(y) for y in x.a if isinstance(y, T)])
        if x.op == "sym" and x.a[0] == "numpy.nan":
            return TRUE
        if x.op == "ext" or x.op == "const":
            return TRUE if "nan" in str(x.a[0]) or x.op == "const" and isinstance(cval(x), float) and cval(x) != cval(x) else FALSE
        if x.op in ("sym", "item") or x.op == "call" and x.a[0].startswith("SA_fun:interp"):
            return FALSE
        raise Unclear("isnan of " + show(x, 3))

    def interpolated(self, t, p):
        """an interpolator from scipy, applied"""
        f = t.a[0]
        if not (f.op == "call" and f.a[0].endswith("interpolate.interp1d") and len(t.a) == 2):
            raise Unclear(show(f, 3)[:120])
        a = [x for x in f.a[1:] if x.op != "kw"]
        kw = {x.a[0]: x.a[1] for x in f.a[1:] if x.op == "kw"}
        names = ["x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted"]
        o = dict(zip(names, a))
        o.update(kw)
        how = o.get("kind", const("linear"))
        fill = o.get("fill_value", sym("numpy.nan", "float"))
        if not cstr(how) or o.get("assume_sorted", FALSE) not in (TRUE, FALSE):
            raise Unclear(show(f, 3)[:120])
        q, x, y = p(t.a[1]), o["x"], o["y"]
        how = {1: "linear", "slinear": "linear"}.get(cval(how), cval(how))
        if x.op != "sym" or y.op != "sym":
            raise Unclear(show(f, 3)[:120])
        if o.get("assume_sorted") is TRUE:
            how = "sorted_" + how
        mid = mk("call", f"SA_fun:interp_{how}", x, y, q)
        if fill.op == "const" and cval(fill) == "extrapolate":
            return mid
        if o.get("bounds_error", NONE) is not FALSE:
            raise Unclear("interpolation that may raise")
        lo, hi = (fill.a[0], fill.a[1]) if fill.op in ("tuple", "tup") and len(fill.a) == 2 else (fill, fill)
        return gamma(cmp("<", q, mk("call", "min", x)), lo, gamma(cmp("<", mk("call", "max", x), q), hi, mid))


def positive(pts):
    """the points are positive; the smallest element is not above the largest"""
    ends = {s.a[1] for t in pts.results for s in walk(t) if s.op == "call" and s.a[0] in ("min", "max") and len(s.a) == 2}
    return [cmp("<", const(0), v) for v in pts.arrays.values()] + [neg(cmp("<", mk("call", "max", x), mk("call", "min", x))) for x in ends]
