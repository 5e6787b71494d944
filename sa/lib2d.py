"""Two-dimensional masks: the rows and columns in which a mask holds anywhere, selection by a mask."""

from .terms import *  # noqa: F403
from .terms import T, mk


def two(t):
    """made of two-dimensional arrays of the drivers?"""
    return has_op2(t)


def has_op2(t, memo={}):
    todo = [t]
    while todo:
        x = todo[-1]
        if x in memo:
            todo.pop()
            continue
        more = [y for y in kids(x) if y not in memo]
        if more:
            todo += more
            continue
        memo[x] = x.op == "sym" and x.a[1] in ("array", "boolarray") and isinstance(x.a[0], str) and x.a[0].endswith("2D") or any(memo[y] for y in kids(x))
        todo.pop()
    return memo[t]


def is_mask(t):
    """an array of truth values of two dimensions"""
    if t.op == "call" and t.a[0] in ("SA_some", "SA_count", "SA_where"):
        return False
    return (is_bool(t) or kind(t) == "boolarray") and two(t) and not (t.op in ("and", "or", "not", "cmp") and any(x.op == "call" and x.a[0] in ("SA_count", "SA_some") for x in kids(t)))


def has_calls(v):
    return any(x.op == "call" and x.a[0] in ("SA_count", "SA_some") for x in walk(v))


class ImageMixin:
    def axis_of(self, args, kw, at=1):
        """constant axis counted from the front; None: none given; False: not understood"""
        if set(kw) - {"axis"} or len(args) > at + 1:
            return False
        x = args[at] if len(args) > at else kw.get("axis")
        if x is None or x is NONE:
            return None
        return {0: 0, 1: 1, -1: 1, -2: 0}.get(cval(x), False) if cint(x) else False

    def image(self, f, args, kw):
        """calls on masks of two dimensions and on what is derived from them"""
        if not args or not isinstance(args[0], T):
            return None
        e = self.e
        if f in ("numpy.full", "numpy.zeros", "numpy.ones"):
            a, k = [e.val(x) for x in args], {n: e.val(x) for n, x in kw.items()}
            bool_ = ext("bool")
            if a[0].op == "attr" and a[0].a[1] == "shape" and two(a[0]):
                zero = e.note(mk("cmp", "==", mk("call", "numpy.zeros", a[0]), const(0)))
                if f == "numpy.full":
                    v = k.get("fill_value", a[1] if len(a) > 1 else NONE)
                    if v in (TRUE, FALSE) and k.get("dtype", bool_) is bool_:
                        return e.box(zero if v is TRUE else neg(zero))
                elif k.get("dtype") is bool_ and len(a) == 1:
                    return e.box(zero if f == "numpy.ones" else neg(zero))
            return None
        v = e.val(args[0])
        if v.op == "gamma" or not (two(v)):
            return None
        if f in ("sum", "numpy.count_nonzero", "any", "numpy.any", "max") and is_mask(v):
            ax = self.axis_of(args, kw)
            if ax is None or ax is False:
                return None
            return e.box(mk("call", "SA_some" if f in ("any", "numpy.any", "max") else "SA_count", v, const(ax)))
        if f in ("numpy.argwhere", "numpy.flatnonzero", "numpy.nonzero", "numpy.where") and len(args) == 1 and not kw:
            w = self.somewhere(v)
            if w is None and v.op in ("cmp", "not", "and", "or") and not is_mask(v) and has_calls(v):
                w = (v, const("vector"))
            if w is not None:
                r = e.box(mk("call", "SA_where", *w))
                return tup(r) if f in ("numpy.nonzero", "numpy.where") else (e.box(mk("call", "SA_column", r if r.op != "ref" else e.val(r))) if f == "numpy.argwhere" else r)
            if f in ("numpy.nonzero", "numpy.where") and is_mask(v):
                return mk("call", "SA_nonzero", v)
        if f in ("min", "max") and len(args) == 1 and not kw:
            w = v.a[1] if v.op == "call" and v.a[0] == "SA_column" else v
            if w.op == "call" and w.a[0] == "SA_where":
                return mk("call", "SA_first" if f == "min" else "SA_last", *w.a[1:])
        if f == "numpy.argmax" and len(args) == 1 and not kw and v.op == "call" and v.a[0] == "SA_some":
            return mk("call", "SA_first", *v.a[1:])
        if f in ("squeeze", "copy", "numpy.array") and len(args) == 1 and not kw:
            if self.is_image(v):
                return e.box(v)
            ks = self.stack(v)
            if ks and (len(ks) > 1 or f != "squeeze") and v.op == "call":
                return e.box(v)
            if ks and len(ks) == 1 and f == "squeeze":
                return e.box(ks[0])
        if f in ("any", "numpy.any", "numpy.count_nonzero") and len(args) == 1 and not kw and kind(v) == "array" and not is_mask(v):
            if v.op == "call" and v.a[0] in ("numpy.zeros", "numpy.zeros_like"):
                return FALSE
            if self.is_image(v) and f != "numpy.count_nonzero":
                return mk("truth", mk("call", "any", v))
        if f in ("squeeze", "flatten", "numpy.ravel", "ravel") and len(args) == 1 and not kw:
            if v.op == "call" and v.a[0] == "SA_column":
                return e.box(v.a[1])
            if self.vector(v):
                return e.box(v)
        return None

    def somewhere(self, v):
        """(mask, axis) if v says for each row or column whether the mask holds anywhere in it"""
        if v.op == "call" and v.a[0] in ("SA_some", "SA_count"):
            return v.a[1:]
        n = v
        if n.op == "not" and n.a[0].op == "cmp":  # not (count <= 0), not (count == 0), not (count < 1)
            o, a, b = n.a[0].a
            o = {"<=": "<=", "<": "<", "==": "=="}.get(o)
            if a.op == "call" and a.a[0] == "SA_count" and cnum(b) and (o, cval(b)) in (("<=", 0), ("==", 0), ("<", 1)):
                return a.a[1:]
            if b.op == "call" and b.a[0] == "SA_count" and cnum(a) and (o, cval(a)) == ("==", 0):
                return b.a[1:]
        if n.op == "cmp":
            o, a, b = n.a
            if b.op == "call" and b.a[0] == "SA_count" and cnum(a) and (o, cval(a)) in (("<", 0), ("<=", 1)):
                return b.a[1:]
        return None

    def image_item(self, c, k):
        """elements of what is derived from masks of two dimensions; selection by numpy.where"""
        e = self.e
        if c.op == "call" and c.a[0] == "SA_nonzero" and cint(k) and cval(k) in (0, 1):
            return e.box(mk("call", "SA_where", c.a[1], const(1 - cval(k))))
        if c.op == "call" and c.a[0] == "SA_where" and cint(k) and cval(k) in (0, -1):
            return mk("call", "SA_first" if cval(k) == 0 else "SA_last", *c.a[1:])
        if c.op == "call" and c.a[0] == "SA_column":
            if cint(k) and cval(k) in (0, -1):
                return e.box(mk("call", "numpy.array", mk("list", mk("call", "SA_first" if cval(k) == 0 else "SA_last", *c.a[1].a[1:]))))
            if k.op == "tuple" and len(k.a) == 2 and k.a[1] is const(0):
                return self.getitem(e.box(c.a[1]), k.a[0])
        return None

    def image_index(self, k):
        """an index made by numpy.where from a mask selects like the mask"""
        if k.op == "call" and k.a[0] == "SA_nonzero":
            return k.a[1]
        if k.op == "tuple" and len(k.a) == 2 and all(x.op == "call" and x.a[0] == "SA_where" for x in map(self.e.val, k.a)):
            a, b = map(self.e.val, k.a)
            if a.a[1] is b.a[1] and a.a[2] is const(1) and b.a[2] is const(0):
                return a.a[1]
        return k

    def shape2(self, v):
        """the shape of an operation on the pixels of images"""
        if v.op in ("bin", "cmp", "and", "or", "not", "neg") and two(v) or v.op == "call" and v.a[0] in ("numpy.isnan", "numpy.isinf", "numpy.isfinite", "numpy.abs", "numpy.sqrt"):
            for x in kids(v):
                if kind(x) in ("array", "boolarray") and two(x):
                    return self.shape2(x)
        return v

    def is_image(self, v):
        """an array of two dimensions; images have more than one row and column"""
        if v.op == "sym" and v.a[1] in ("array", "boolarray"):
            return v.a[0].endswith("2D")
        if v.op == "call" and v.a[0] in ("numpy.zeros", "numpy.ones", "numpy.full") and v.a[1].op == "attr" and v.a[1].a[1] == "shape":
            return self.is_image(v.a[1].a[0])
        if v.op in ("bin", "cmp", "and", "or", "not", "neg"):
            xs = [x for x in kids(v) if kind(x) in ("array", "boolarray")]
            return bool(xs) and all(self.is_image(x) for x in xs)
        return False

    def stack(self, v):
        """the known images of a pile of them"""
        w = v
        while w.op == "call" and w.a[0] in ("numpy.array", "numpy.stack") and len(w.a) == 2:
            w = w.a[1]
        if w.op in ("list", "tuple") and w.a and all(self.is_image(self.e.val(x)) for x in w.a):
            return [self.e.val(x) for x in w.a]
        return None

    def stack_item(self, c, k):
        """pile[i], pile[i, :, :], pile[[i, j], ...]"""
        ks = self.stack(c)
        if not ks or c.op != "call":
            return None
        full = mk("slice", NONE, NONE, NONE)
        if k.op == "tuple":
            if not k.a or len(k.a) > 3 or any(x is not full and x is not ELL for x in k.a[1:]):
                return None
            k = self.e.val(k.a[0])
        if cint(k) and -len(ks) <= cval(k) < len(ks):
            return self.e.box(ks[cval(k)])
        if k.op == "slice":
            if all(x is NONE or cint(x) for x in k.a):
                return self.e.box(mk("call", "numpy.array", mk("list", *ks[slice(*[None if x is NONE else cval(x) for x in k.a])])))
            return None
        w = k
        while w.op == "call" and w.a[0] == "numpy.array" and len(w.a) == 2:
            w = w.a[1]
        if w.op == "list" and w.a and all(x.op == "list" and len(x.a) == 1 for x in w.a):
            w = mk("list", *[x.a[0] for x in w.a])
        if w.op == "list" and w.a and all(cint(x) for x in w.a):
            if any(not -len(ks) <= cval(x) < len(ks) for x in w.a):
                self.e.raise_(self.e.st, "IndexError")
                self.e.st = None
                return unk("dead")
            return self.e.box(mk("call", "numpy.array", mk("list", *[ks[cval(x)] for x in w.a])))
        return None
