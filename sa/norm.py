"""Normal forms of value terms, and the comparison of what the code computes with what it has to.

Arithmetic becomes a polynomial over atoms, comparisons become "polynomial < 0" or "= 0", boolean
structure and conditional values become one ordered decision diagram, conversions that keep the
value vanish, bound variables get canonical names.  Two terms with the same normal form have the
same value.  Terms with different normal forms are only called different if both consist of
operations the normal form fully understands (CLEAN); anything else is left undecided.
"""

import math
from fractions import Fraction

from .terms import *  # noqa: F403
from .terms import T, mk


def fraction(v):
    """the number a constant stands for, 4/3 for 1.3333333333333333"""
    f = Fraction(str(v))
    if f.denominator > 10**12:
        g = f.limit_denominator(10000)
        if g and float(g) == v:
            return g
    return f


MAXLEAVES = 400


class TooBig(Exception):
    pass


# -- polynomials: term ("poly", ((coef, ((atom, exp), ...)), ...)) as python tuples -----------------


NAN = sym("numpy.nan", "float")
NANP = ((NAN, Fraction(1)),)  # as a monomial; whatever is computed with it is it again
SMALL = 4  # sequences up to this length are worked out element by element


def pconst(c):
    return {(): Fraction(c)} if c else {}


def patom(t):
    return {((t, Fraction(1)),): Fraction(1)}


def padd(a, b, s=1):
    if NANP in a or NANP in b:
        return {NANP: Fraction(1)}
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: (x[0].id, x[1])))


def pmul(a, b):
    if len(a) * len(b) > 3000:
        raise TooBig
    if NANP in a or NANP in b:
        return {NANP: Fraction(1)}
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            q = pfold(k)
            if q is None:
                r[k] = r.get(k, 0) + c * d
                if r[k] == 0:
                    del r[k]
            else:
                for k, x in q.items():
                    r[k] = r.get(k, 0) + c * d * x
                    if r[k] == 0:
                        del r[k]
    return r


def pfold(m):
    """powers of numbers and sums that can be worked out"""
    for i, (a, e) in enumerate(m):
        if a.op in ("const", "rat") and not 0 < e < 1:
            w = e.numerator // e.denominator
            rest = m[:i] + (((a, e - w),) if e != w else ()) + m[i + 1 :]
            return pmul({rest: unnum(a) ** w}, pconst(1))
        if a.op == "poly" and e.denominator == 1 and 0 < e <= 4:
            return pmul({m[:i] + m[i + 1 :]: Fraction(1)}, ppow(poly(a), e))
    return None


def npow(c, e):
    """a number to the power e"""
    if e.denominator == 1:
        return pconst(c ** int(e))
    if c < 0:
        return patom(mk("call", "npow", num(c), num(e)))
    r = pconst(1)
    for q, k in primes(c):
        w = (k * e).numerator // (k * e).denominator
        r = pmul(r, pconst(Fraction(q) ** w))
        if k * e != w:
            r = pmul(r, {((const(q), k * e - w),): Fraction(1)})
    return r


def primes(c):
    """the prime factors of a rational number, with their exponents"""
    d = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        q = 2
        while n > 1 and q < 10000:
            while n % q == 0:
                d[q] = d.get(q, 0) + s
                n //= q
            q += 1
        if n > 1:
            d[n] = d.get(n, 0) + s
    return sorted(d.items())


def plog(c):
    """the logarithm of a number"""
    if c <= 0:
        return patom(mk("call", "numpy.log", num(c)))
    ks = primes(c)
    if not ks:
        return {}
    g = 0
    for q, k in ks:
        g = math.gcd(g, k)
    if ks[0][1] < 0:
        g = -g
    b = Fraction(1)
    for q, k in ks:
        b *= Fraction(q) ** (k // g)
    return pmul(pconst(g), patom(mk("call", "numpy.log", num(b))))


def pexp(p):
    """the exponential function of a sum: a product; logarithms in it are undone"""
    r = pconst(1)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "call" and m[0][0].a[0] == "numpy.log":
            r = pmul(r, ppow(poly(m[0][0].a[1]), c))
        else:
            r = pmul(r, {((mk("call", "numpy.exp", pterm({m: Fraction(1)})), c),): Fraction(1)})
    return r


def ppow(a, e):
    e = Fraction(e)
    if NANP in a and e:
        return {NANP: Fraction(1)}
    if e.denominator == 2 and len(a) == 1:
        # the root of an absolute value: of the value, which has to be positive anyway
        (m, c), = a.items()
        if any(x.op == "call" and x.a[0] == "numpy.abs" for x, _ in m):
            r = pconst(c)
            for x, y in m:
                r = pmul(r, ppow(poly(x.a[1] if x.op == "call" and x.a[0] == "numpy.abs" else x), y))
            return ppow(r, e)
    if len(a) == 1:
        (m, c), = a.items()
        if e.denominator == 1 or c == 1:
            if c == 0:
                return {}
            return {tuple((x, y * e) for x, y in m): c ** int(e) if e.denominator == 1 else Fraction(1)}
        return pmul({tuple((x, y * e) for x, y in m): Fraction(1)}, npow(c, e))
    if e.denominator == 1 and 0 <= e <= 4:
        r = pconst(1)
        for _ in range(int(e)):
            r = pmul(r, a)
        return r
    if not a:
        return {} if e > 0 else patom(mk("inf0"))
    # content out, so that (2a+2b)^-1 is 1/2 (a+b)^-1
    k = sorted(a.items(), key=lambda x: pkey(x[0]))
    lead = abs(k[0][1])
    if e.denominator % 2 == 0 and k[0][1] < 0:
        # a root is taken of what is not negative: its sign does not matter
        a = {m: -c for m, c in a.items()}
    if lead != 1:
        b = {m: c / lead for m, c in a.items()}
        return pmul({((pterm(b), e),): Fraction(1)}, npow(lead, e))
    return {((pterm(a), e),): Fraction(1)}


def ratzero(p):
    """is this quotient of polynomials 0?  Multiplied by all of its denominators it is a polynomial"""
    try:
        for _ in range(12):
            den = {}
            for m in p:
                for a, e in m:
                    if a.op == "poly" and (e < 0 or e >= 1):
                        den[a] = max(den.get(a, 0), -(e.numerator // e.denominator))
            if not den:
                return not p
            r = {}
            for m, c in p.items():
                t = pconst(c)
                have = dict(m)
                for a, e in m:
                    if a not in den:
                        t = pmul(t, {((a, e),): Fraction(1)})
                for a, k in den.items():
                    e = have.get(a, Fraction(0)) + max(k, 0)
                    w = e.numerator // e.denominator
                    for _ in range(w):
                        t = pmul(t, poly(a))
                    if e != w:
                        t = pmul(t, {((a, e - w),): Fraction(1)})
                r = padd(r, t)
            p = r
    except TooBig:
        return None
    return None


def pkey(m):
    return tuple((a.id, e) for a, e in m)


def pterm(p):
    """term of a polynomial"""
    if not p:
        return const(0)
    items = sorted(p.items(), key=lambda x: pkey(x[0]))
    if any(a is NAN for m, _ in items for a, _ in m):
        return NAN
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", *[mk("mono", num(c), *[mk("pw", a, num(e)) for a, e in m]) for m, c in items])


def num(c):
    return const(int(c)) if c.denominator == 1 else mk("rat", str(c))


def unnum(t):
    return Fraction(cval(t)) if t.op == "const" else Fraction(t.a[0])


def poly(t):
    """polynomial of a normal, gamma-free term"""
    if t.op == "poly":
        r = {}
        for m in t.a:
            r[tuple((x.a[0], unnum(x.a[1])) for x in m.a[1:])] = unnum(m.a[0])
        return r
    if t.op == "const" and type(t.a[0]) in (int, float):
        return pconst(fraction(t.a[0]) if isinstance(t.a[0], float) else t.a[0])
    if t.op == "const" and isinstance(t.a[0], bool):
        return pconst(int(t.a[0]))
    if t.op == "rat" and isinstance(t.a[0], str):
        return pconst(Fraction(t.a[0]))
    return patom(t)


# -- decision diagrams ---------------------------------------------------------------------------


def ite(c, a, b):
    """c: boolean diagram (leaves TRUE/FALSE); a, b: diagrams"""
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        k = (c, a, b)
        r = memo.get(k)
        if r is None:
            if len(memo) > 4000:
                raise TooBig
            v = min((x.a[0] for x in k if x.op == "gamma"), key=order)

            def co(x, hi):
                return (x.a[1] if hi else x.a[2]) if x.op == "gamma" and x.a[0] is v else x

            h = go(co(c, 1), co(a, 1), co(b, 1))
            l = go(co(c, 0), co(a, 0), co(b, 0))
            r = h if h is l else mk("gamma", v, h, l)
            memo[k] = r
        return r

    return go(c, a, b)


def order(t):
    return t.id


def lit(atom):
    if ASSUMED and atom in ASSUMED:
        return ASSUMED[atom]
    if atom.op == "call" and len(atom.a) == 2 and atom.a[0] in ("numpy.isnan", "numpy.isinf", "numpy.isfinite"):
        k = special(atom.a[1])
        if k:
            return const({"numpy.isnan": k == "nan", "numpy.isinf": k == "inf", "numpy.isfinite": k == "finite"}[atom.a[0]])
    return mk("gamma", atom, TRUE, FALSE)


def dnot(c):
    return ite(c, FALSE, TRUE)


def dand(cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def atoms(d, seen=None):
    """the conditions of a diagram"""
    seen = {} if seen is None else seen
    if d.op == "gamma" and d not in seen:
        seen[d] = d.a[0]
        atoms(d.a[1], seen)
        atoms(d.a[2], seen)
    return list(dict.fromkeys(seen.values()))


def arrlit(a):
    """a condition that holds for some elements of an array and not for others"""
    if a.op in ("lt0", "eq0", "notna", "not") or a.op == "call" and a.a[0] in ("numpy.isnan", "numpy.isinf", "numpy.isfinite", "isna"):
        return any(kind0(x) in ARR for x in a.a if isinstance(x, T))
    return kind0(a) in ARR


def values(x):
    """the values of a series"""
    return x.a[1] if x.op == "serc" and x.a[1].op == "seq" else x


def hasseq(d):
    while d.op == "gamma":
        d = d.a[1]
    return values(d).op == "seq"


def arrlits(d):
    return any(arrlit(a) for a in atoms(d))


def restrict(d, v, which, memo=None):
    memo = {} if memo is None else memo
    if d.op != "gamma":
        return d
    if d not in memo:
        if d.a[0] is v:
            memo[d] = restrict(d.a[which], v, which, memo)
        else:
            memo[d] = ite(lit(d.a[0]), restrict(d.a[1], v, which, memo), restrict(d.a[2], v, which, memo))
    return memo[d]


def lift(f, args):
    """apply f to all combinations of leaves of the diagrams args"""
    memo = {}

    def go(args):
        tops = [x.a[0] for x in args if x.op == "gamma"]
        if not tops:
            return f(args)
        r = memo.get(args)
        if r is None:
            if len(memo) > MAXLEAVES:
                raise TooBig
            v = min(tops, key=order)
            h = go(tuple(x.a[1] if x.op == "gamma" and x.a[0] is v else x for x in args))
            l = go(tuple(x.a[2] if x.op == "gamma" and x.a[0] is v else x for x in args))
            r = ite(lit(v), h, l)
            memo[args] = r
        return r

    return go(tuple(args))


# -- the normal form -----------------------------------------------------------------------------

TRANSPARENT = {"float", "values", "copy", "deepcopy", "to_numpy", "numpy.float64", "item", "numpy.atleast_1d", "numpy.ascontiguousarray", "int64"}
NUMERIC = {"numpy.histogram", "sum", "mean", "std", "var", "median", "min", "max", "numpy.histogram_bin_edges", "numpy.isnan", "numpy.isfinite", "numpy.isinf", "numpy.abs", "len", "size", "all", "any", "numpy.array", "numpy.diff", "numpy.digitize"}
SCALAR = {"int", "num", "float", "bool"}
ARR = {"array", "boolarray", "series"}
MATH = {
    "numpy.sqrt": Fraction(1, 2), "numpy.cbrt": Fraction(1, 3), "numpy.square": Fraction(2),
    "numpy.reciprocal": Fraction(-1),
}
BINDERS = {"sum": 1, "map": 1, "all": 1, "build": 2, "rowbuild": 2, "dbuild": 2, "last": 1}


ASSUMED = {}  # condition -> TRUE or FALSE, while one case is looked at
MEMO = None


class assuming:
    """within it, the normal form of everything takes the outcomes of these conditions for granted"""

    def __init__(self, outcomes):
        self.o = outcomes

    def __enter__(self):
        global MEMO
        ASSUMED.clear()
        ASSUMED.update({a: TRUE if v else FALSE for a, v in self.o})
        MEMO = {}

    def __exit__(self, *x):
        global MEMO
        ASSUMED.clear()
        MEMO = None


def norm(t):
    n = t._norm if MEMO is None else MEMO.get(t)
    if n is None:
        try:
            n = Norm().go(t)
        except TooBig:
            n = mk("unk", "too big", t)
        except RecursionError:
            n = mk("unk", "too deep", t)
        if MEMO is None:
            t._norm = n
        else:
            MEMO[t] = n
    return n


class Nested(Exception):
    pass


class Norm:
    def go(self, t):
        if MEMO is not None:
            n = MEMO.get(t)
            if n is None:
                n = MEMO[t] = self.norm(t)
            return n
        n = t._norm
        if n is None:
            n = t._norm = self.norm(t)
        return n

    def norm(self, t):
        op = t.op
        if op == "const":
            v = t.a[0]
            if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
                return const(int(v))
            if isinstance(v, float):
                return pterm(pconst(fraction(v)))
            return t
        if op in ("sym", "ref", "ext", "func", "class", "closure", "bound", "bv", "ellipsis", "absent", "module", "unk", "mu", "fresh", "inloop", "draw", "kwn"):
            if op == "sym" and t.a[1] in ("bool", "boolarray"):
                return lit(t)
            return t
        if op == "gamma":
            c = self.bool(t.a[0])
            if c is TRUE or c is FALSE:
                return self.go(t.a[1] if c is TRUE else t.a[2])
            return ite(c, self.go(t.a[1]), self.go(t.a[2]))
        if op == "item" and t.a[0].op == "gamma" and cint(t.a[1]):
            x = t.a[0]
            return self.go(mk("gamma", x.a[0], self.itemof(x.a[1], t.a[1]), self.itemof(x.a[2], t.a[1])))
        if op in ("and", "or", "not") and kind(t) in ("boolarray", "series"):
            xs = [self.go(x) for x in t.a]
            if any(hasseq(x) for x in xs):
                return lift(lambda a: self.each(lambda *y: dnot(y[0]) if op == "not" else (dand(y) if op == "and" else dnot(dand([dnot(z) for z in y]))), a, lambda: lit(mk(op, *a))), xs)
        if op in ("and", "or", "not"):
            xs = [self.bool(x) for x in t.a]
            if op == "not":
                return dnot(xs[0])
            if op == "and":
                return dand(xs)
            return dnot(dand([dnot(x) for x in xs]))
        if op == "truth":
            return self.bool(t.a[0])
        if op in ("cmp",):
            if kind(t) in ("boolarray", "series"):
                o = t.a[0]
                return lift(lambda a: self.each(lambda x, y: self.cmp(o, x, y), a, lambda: self.cmp(o, *a)), [self.go(t.a[1]), self.go(t.a[2])])
            return lift(lambda a: self.cmp(t.a[0], *a), [self.go(t.a[1]), self.go(t.a[2])])
        if op in BINDERS:
            return self.binder(t)
        if op == "bin":
            if kind(t) in ARR:
                o = t.a[0]
                return lift(lambda a: self.each(lambda x, y: self.bin(o, x, y), a, lambda: self.bin(o, *a)), [self.go(t.a[1]), self.go(t.a[2])])
            return lift(lambda a: self.bin(t.a[0], *a), [self.go(t.a[1]), self.go(t.a[2])])
        if op == "neg":
            return lift(lambda a: pterm(pmul(pconst(-1), poly(a[0]))), [self.go(t.a[0])])
        if op == "dict":
            ks = t.a[::2]
            xs = [self.go(x) for x in t.a[1::2]]
            if all(cstr(k) for k in ks):
                o = sorted(range(len(ks)), key=lambda i: cval(ks[i]))
            else:
                o = range(len(ks))
            return self.prod(lambda a: mk("dict", *[z for i in o for z in (ks[i], a[i])]), xs)
        if op == "call":
            return self.call(t)
        if op == "conv":
            if t.a[0] in ("bytes", "bytesarray"):
                return lift(lambda a: mk("conv", t.a[0], a[0]), [self.go(t.a[1])])
            return self.go(t.a[1])
        if op == "serc":
            return self.prod(lambda a: mk("serc", *a), [self.go(x) for x in t.a])
        if op in ("isnone", "notna", "isinstance", "in", "h5in", "any"):
            xs = [self.go(x) if isinstance(x, T) else x for x in t.a]
            return lift(lambda a: lit(mk(op, *self.back(a, xs))), [x for x in xs if isinstance(x, T)])
        xs = [self.go(x) if isinstance(x, T) else x for x in t.a]
        if op in ("item", "filter") and self.isbool(xs[1]) and is_bool(t.a[1]) and arrlits(xs[1]):
            return self.masked(op, *xs)
        if op == "upd" and self.isbool(xs[1]) and is_bool(t.a[1]) and arrlits(xs[1]) and all(arrlit(a) for a in atoms(xs[1])):
            try:
                return ite(xs[1], self.unfilter(xs[2], xs[1]), xs[0])
            except Nested:
                return lift(lambda a: mk("upd", a[0], xs[1], a[1]), [xs[0], xs[2]])
        if op == "item" and xs[1].op == "seq" and len(xs[1].a) == 2 and all(y.op == "slice" for y in xs[1].a):
            return self.crop(xs[0], xs[1])
        return self.prod(lambda a: self.leaf(op, self.back(a, xs)), [x for x in xs if isinstance(x, T)])

    def length(self, x):
        """number of elements, None if not known"""
        if x.op == "upd":
            return self.length(x.a[0])
        if x.op == "seq":
            return len(x.a)
        if x.op == "call" and x.a[0] in ("SA_unitspace", "SA_roundedspace"):
            return cval(x.a[1]) if cint(x.a[1]) else None
        if x.op == "call" and x.a[0] in ("numpy.exp", "numpy.log", "numpy.abs"):
            return self.length(x.a[1])
        if x.op == "poly":
            ns = {self.length(p.a[0]) for m in x.a for p in m.a[1:] if kind0(p.a[0]) not in SCALAR}
            return ns.pop() if len(ns) == 1 else None
        return None

    def itemof(self, x, i):
        """element i of the alternatives x"""
        if x.op == "gamma":
            return mk("gamma", x.a[0], self.itemof(x.a[1], i), self.itemof(x.a[2], i))
        y = x.a[1] if x.op == "call" and x.a[0] == "numpy.array" and len(x.a) == 2 else x
        if y.op == "serc":
            y = y.a[1]
        if y.op in ("tuple", "list") and -len(y.a) <= cval(i) < len(y.a) and not any(z.op == "star" for z in y.a):
            return y.a[cval(i)]
        return mk("item", x, i)

    def each(self, f, a, other):
        """f element by element if the lengths are known and small"""
        a = [values(x) for x in a]
        ns = {len(x.a) for x in a if x.op == "seq"}
        if len(ns) != 1 or max(ns) > SMALL or any(x.op != "seq" and kind0(x) in ARR for x in a):
            return other()
        n = ns.pop()
        return self.seqof([f(*[x.a[k] if x.op == "seq" else x for x in a]) for k in range(n)])

    def seqof(self, xs):
        return lift(lambda a: mk("seq", *a), xs)

    def masked(self, op, x, i):
        """selection by a mask: conditions on single elements stay within the mask"""
        ls = [a for a in atoms(i) if not arrlit(a)]
        if x.op == "gamma" and not arrlit(x.a[0]):
            ls.append(x.a[0])
        if not ls:
            return self.select(op, x, i)
        v = min(ls, key=order)
        return ite(lit(v), self.masked(op, restrict(x, v, 1), restrict(i, v, 1)), self.masked(op, restrict(x, v, 2), restrict(i, v, 2)))

    def crop(self, x, i):
        """a rectangle cut out of an image: every operation on single pixels can be done before or after"""
        if x.op == "gamma":
            if arrlit(x.a[0]) or x.a[0].op == "sym":
                return ite(self.crop(x.a[0], i), self.crop(x.a[1], i), self.crop(x.a[2], i))
            return ite(lit(x.a[0]), self.crop(x.a[1], i), self.crop(x.a[2], i))
        if x.op in ("const", "rat") or kind0(x) in SCALAR and not arrlit(x):
            return x
        if x.op == "poly":
            return self.rebuilt(x, lambda y: self.crop(y, i))
        if x.op == "lt0":
            return self.lt0(poly(self.crop(x.a[0], i)))
        if x.op == "eq0":
            return self.eq0(poly(self.crop(x.a[0], i)))
        if x.op == "call" and len(x.a) == 2 and x.a[0] in ("numpy.isnan", "numpy.isinf"):
            return lit(mk("call", x.a[0], self.crop(x.a[1], i)))
        if x.op == "call" and len(x.a) == 2 and x.a[0] in ("numpy.abs", "numpy.log", "numpy.exp"):
            return mk("call", x.a[0], self.crop(x.a[1], i))
        return mk("item", x, i)

    def rebuilt(self, x, f):
        """a polynomial with something else in place of its atoms"""
        r = {}
        for m in x.a:
            q = pconst(unnum(m.a[0]))
            for p in m.a[1:]:
                q = pmul(q, ppow(poly(f(p.a[0])), unnum(p.a[1])))
            r = padd(r, q)
        return pterm(r)

    def uncrop(self, x, i):
        """what x has been cut out of; x is made of pieces cut by i only"""
        if x.op == "gamma":
            return ite(self.uncrop(x.a[0], i), self.uncrop(x.a[1], i), self.uncrop(x.a[2], i))
        if x.op == "item" and x.a[1] is i:
            return x.a[0]
        if x.op in ("const", "rat") or kind0(x) in SCALAR and x.op not in ("lt0", "eq0"):
            return x
        if x.op == "poly":
            return self.rebuilt(x, lambda y: self.uncrop(y, i))
        if x.op == "lt0":
            return self.lt0(poly(self.uncrop(x.a[0], i)))
        if x.op == "eq0":
            return self.eq0(poly(self.uncrop(x.a[0], i)))
        if x.op == "call" and len(x.a) == 2 and x.a[0] in ("numpy.isnan", "numpy.isinf"):
            return lit(mk("call", x.a[0], self.uncrop(x.a[1], i)))
        if x.op == "call" and len(x.a) == 2 and x.a[0] in ("numpy.abs", "numpy.log", "numpy.exp"):
            return mk("call", x.a[0], self.uncrop(x.a[1], i))
        raise Nested

    def covers(self, i, c):
        """does the rectangle i contain every pixel for which the mask c holds?"""
        for s, ax in zip(i.a, (1, 0)):
            lo, hi, st = s.a
            if st is not NONE:
                return False
            if lo is not NONE and not (lo.op == "call" and lo.a[0] == "SA_first" and lo.a[2] is const(ax) and dand([c, dnot(lo.a[1])]) is FALSE):
                return False
            if hi is not NONE:
                p = dict(poly(hi))
                n = p.pop((), 0)
                if len(p) != 1 or n < 1:
                    return False
                (m, k), = p.items()
                if k != 1 or len(m) != 1 or m[0][1] != 1:
                    return False
                y = m[0][0]
                if not (y.op == "call" and y.a[0] == "SA_last" and y.a[2] is const(ax) and dand([c, dnot(y.a[1])]) is FALSE):
                    return False
        return True

    def select(self, op, x, i):
        """the elements of x for which the mask i (a diagram over array conditions) holds"""
        if x.op == "item" and x.a[1].op == "seq" and len(x.a[1].a) == 2 and all(y.op == "slice" for y in x.a[1].a):
            try:
                c = self.uncrop(i, x.a[1])
                if self.covers(x.a[1], c):
                    return self.select("filter", x.a[0], c)
            except Nested:
                pass
        if x.op == "poly" and all(self.elementwise(p.a[0]) for m in x.a for p in m.a[1:]):
            r = {}
            for m in x.a:
                q = pconst(unnum(m.a[0]))
                for p in m.a[1:]:
                    at = p.a[0] if kind0(p.a[0]) in SCALAR else self.select(op, p.a[0], i)
                    q = pmul(q, ppow(poly(at), unnum(p.a[1])))
                r = padd(r, q)
            return pterm(r)
        if x.op == "filter" and len(x.a) == 2:
            try:
                return self.select("filter", x.a[0], dand([x.a[1], self.unfilter(i, x.a[1])]))
            except Nested:
                pass
        if kind0(x) in ARR and values(x).op != "seq":
            op = "filter"
        return self.leaf(op, (x, i))

    def unfilter(self, t, c):
        """the mask t over the elements selected by c, as a condition on all elements"""
        if t.op == "gamma":
            return ite(self.unfilter(t.a[0], c), self.unfilter(t.a[1], c), self.unfilter(t.a[2], c))
        if t.op == "const" or kind0(t) in SCALAR and t.op not in ("lt0", "eq0"):
            return t
        if t.op == "filter" and t.a[1] is c:
            return t.a[0]
        if t.op == "poly":
            r = {}
            for m in t.a:
                q = pconst(unnum(m.a[0]))
                for p in m.a[1:]:
                    q = pmul(q, ppow(poly(self.unfilter(p.a[0], c)), unnum(p.a[1])))
                r = padd(r, q)
            return pterm(r)
        if t.op == "lt0":
            return self.lt0(poly(self.unfilter(t.a[0], c)))
        if t.op == "eq0":
            return self.eq0(poly(self.unfilter(t.a[0], c)))
        if t.op == "call" and t.a[0] in ("numpy.isnan", "numpy.isinf") and len(t.a) == 2:
            return lit(mk("call", t.a[0], self.unfilter(t.a[1], c)))
        if t.op == "call" and t.a[0] in ("numpy.abs", "numpy.log", "numpy.exp") and len(t.a) == 2:
            return mk("call", t.a[0], self.unfilter(t.a[1], c))
        raise Nested

    def prod(self, f, xs):
        n = 1
        for x in xs:
            if x.op == "gamma":
                n *= 2
        return lift(f, xs)

    def back(self, a, xs):
        a = list(a)
        return [a.pop(0) if isinstance(x, T) else x for x in xs]

    def bool(self, t):
        n = self.go(t)
        return lift(lambda a: self.truthleaf(a[0]), [n])

    def truthleaf(self, x):
        if x is TRUE or x is FALSE:
            return x
        if x.op == "const":
            return const(bool(x.a[0]))
        if x.op in ("seq", "dict"):
            return const(bool(x.a))
        return lit(mk("truth", x))

    def leaf(self, op, a):
        if op == "concat":
            out = []
            for x in a:
                for y in x.a if x.op == "concat" else (x,):
                    if y.op == "seq" and not y.a:
                        continue
                    if y.op == "seq" and out and out[-1].op == "seq":
                        out[-1] = mk("seq", *out[-1].a, *y.a)
                    else:
                        out.append(y)
            return out[0] if len(out) == 1 else (mk("concat", *out) if out else mk("seq"))
        if op == "lappend":
            return self.leaf("concat", (a[0], mk("seq", *a[1:])))
        if op in ("tuple", "list"):
            return mk("seq", *a)
        if op in ("item", "filter"):
            x, i = values(a[0]), values(a[1])
            if i.op == "seq" and x.op == "seq" and len(x.a) == len(i.a) and i.a and all(m is TRUE or m is FALSE for m in i.a):
                return mk("seq", *[y for y, m in zip(x.a, i.a) if m is TRUE])
        if op == "item":
            x, i = a
            if x.op == "seq" and cint(i) and -len(x.a) <= cval(i) < len(x.a):
                return x.a[cval(i)]
            if x.op == "dict" and i in x.a[::2]:
                return x.a[2 * x.a[::2].index(i) + 1]
            if x.op == "slice0":
                pass
            if x.op == "item" and x.a[1].op == "seq" and i.op == "seq" and x.a[0].op == "h5arr":
                pass
            if x.op == "upd" and cint(i) and cint(x.a[1]) and (cval(i) < 0) != (cval(x.a[1]) < 0):
                # counted from opposite ends
                n = self.length(x)
                if n is None:
                    return mk("item", x, i)
                j, k = [const(cval(z) + n) if cval(z) < 0 else z for z in (i, x.a[1])]
                return x.a[2] if j is k else self.leaf("item", (x.a[0], j))
            if x.op == "upd" and cint(i) and cint(x.a[1]):
                return x.a[2] if x.a[1] is i else self.leaf("item", (x.a[0], i))
            if x.op == "attr" and x.a[1] == "shape" and cint(i) and cval(i) == 0:
                return self.size(x.a[0])
            if x.op == "poly" and i.op == "seq":
                pass
            if x.op == "not":
                pass
            if x.op == "call" and x.a[0] == "SA_roundedspace":
                if not (cint(i) and cval(i) == 0):
                    return self.leaf("item", (mk("call", "SA_unitspace", x.a[1]), i))
                return mk("call", "SA_rounded", const(0))
            if x.op == "call" and x.a[0] == "SA_unitspace" and cint(i) and cint(x.a[1]) and cval(i) == cval(x.a[1]) - 1 > 0:
                return const(1)
            if x.op == "call" and x.a[0] == "SA_unitspace" and cint(i) and cval(i) < -1 and cint(x.a[1]) and -cval(i) <= cval(x.a[1]):
                return self.leaf("item", (x, const(cval(x.a[1]) + cval(i))))
            if x.op == "call" and x.a[0] == "SA_unitspace" and cint(i) and cval(i) in (0, -1):
                return const(-cval(i))
            if x.op == "call" and x.a[0] in ("numpy.exp", "numpy.log") and (cint(i) or i.op in ("bv", "slice")) and self.elementwise(x.a[1]):
                y = self.leaf("item", (x.a[1], i))
                return pterm(pexp(poly(y))) if x.a[0] == "numpy.exp" else self.log(y)
            if x.op == "poly" and (cint(i) or i.op in ("bv", "slice")) and all(self.elementwise(p.a[0]) for m in x.a for p in m.a[1:]):
                r = {}
                for m in x.a:
                    q = pconst(unnum(m.a[0]))
                    for p in m.a[1:]:
                        at = p.a[0] if kind0(p.a[0]) in SCALAR else self.leaf("item", (p.a[0], i))
                        q = pmul(q, ppow(poly(at), unnum(p.a[1])))
                    r = padd(r, q)
                return pterm(r)
            return mk("item", x, i)
        if op == "attr" and a[1] == "size":
            return self.size(a[0])
        if op == "attr" and a[1] == "shape" and values(a[0]).op == "seq" and all(kind0(x) in SCALAR for x in values(a[0]).a):
            return mk("tup", const(len(values(a[0]).a)))
        if op == "attr" and a[1] == "shape":
            return mk("attr", self.imageof(a[0]), "shape")
        if op == "attr" and a[1] == "magnitude":
            return mk("attr", a[0], "m")
        if op == "attr" and a[1] == "units":
            return mk("attr", a[0], "u")
        if op == "upd":
            x, i, v = a
            if x.op == "seq" and cint(i) and -len(x.a) <= cval(i) < len(x.a):
                xs = list(x.a)
                xs[cval(i)] = v
                return mk("seq", *xs)
            if x.op == "call" and x.a[0] in ("numpy.zeros", "numpy.ones") and cint(i) and len(x.a) == 2 and cint(x.a[1]) and cval(x.a[1]) <= 64:
                z = const(0 if x.a[0] == "numpy.zeros" else 1)
                return self.leaf("upd", (mk("seq", *[z] * cval(x.a[1])), i, v))
            return mk("upd", x, i, v)
        if op == "slice":
            s, e, st = a
            if st.op == "const" and st.a[0] in (None, 1):
                st = NONE
            if s.op == "const" and s.a[0] in (None, 0):
                s = NONE
            return mk("slice", s, e, st)
        if op == "strcat":
            return strcat(*[self.strpiece(x) for x in a])
        if op == "P":
            return mk("P", *a)
        return mk(op, *a)

    def strpiece(self, x):
        if cint(x):
            return const(str(cval(x)))
        return x

    def imageof(self, x):
        """an image of the same shape: all images of a driver have one shape"""
        if x.op == "sym" and x.a[0].endswith("2D"):
            return mk("sym", "image2D", "array")
        if x.op == "item" and x.a[1].op == "seq":
            return mk("item", self.imageof(x.a[0]), x.a[1])
        return x

    def elementwise(self, t):
        return kind0(t) in ARR | SCALAR

    # -- sizes

    def size(self, x):
        """number of elements of an array expression"""
        if x.op == "filter" and (x.a[0].op in ("fr", "sym")) and arrlits(x.a[1]):
            # as many as the condition selects, of whatever array
            ys = sorted({y for l in atoms(x.a[1]) for y in walk(l) if y.op == "sym" and kind(y) in ARR and not y.a[0].endswith("2D")}, key=lambda y: y.a[0])
            if ys and (x.a[0].op == "fr" or not x.a[0].a[0].endswith("2D")):
                return mk("size", mk("filter", ys[0], x.a[1]))
        if x.op == "poly":
            fs = [p.a[0] for m in x.a for p in m.a[1:] if p.a[0].op == "filter"]
            if fs:
                return self.size(fs[0])
        s = sorted({y.a[0] for y in self.carriers(x)})
        if len(s) == 1 and x.op in ("sym", "poly", "call", "item"):
            return mk("size", s[0])
        if s:
            return mk("size", s[0])
        if x.op == "seq":
            return const(len(x.a))
        return mk("size", x)

    def carriers(self, x):
        if x.op == "sym":
            return [x] if kind(x) in ARR else []
        if x.op == "poly":
            return [y for m in x.a for p in m.a[1:] for y in self.carriers(p.a[0])]
        if x.op == "call" and x.a[0] in ("numpy.abs", "numpy.log", "numpy.exp", "numpy.isnan", "numpy.isfinite", "numpy.isinf"):
            return self.carriers(x.a[1])
        return []

    # -- arithmetic

    def bin(self, o, a, b):
        if o in ("+", "-"):
            if kind0(a) in ("str", "path") or kind0(b) in ("str", "path"):
                return strcat(a, b)
            if a.op == "seq" or b.op == "seq":
                if o == "+" and a.op == "seq" and b.op == "seq":
                    return mk("bin", o, a, b)
                if a.op == "seq" and b.op != "seq":
                    return mk("seq", *[self.bin(o, x, b) for x in a.a])
                if b.op == "seq" and a.op != "seq":
                    return mk("seq", *[self.bin(o, a, x) for x in b.a])
                return mk("bin", o, a, b)
            return pterm(padd(poly(self.z(a)), poly(self.z(b)), 1 if o == "+" else -1))
        if o == "*":
            return pterm(pmul(poly(a), poly(b)))
        if o == "/":
            return pterm(pmul(poly(a), ppow(poly(b), -1)))
        if o == "**":
            if b.op in ("const", "rat") and not isinstance(b.a[0], (bool, bytes)) and (b.op == "rat" or isinstance(b.a[0], (int, float))):
                e = fraction(b.a[0])
                return pterm(ppow(poly(a), e))
            if a.op in ("const", "rat") and a.op == "rat" or type(a.a[0]) is int and a.a[0] > 0 and a.op == "const":
                return pterm(pexp(pmul(plog(unnum(a)), poly(b))))
            return mk("bin", o, a, b)
        if o == "//":
            return mk("call", "numpy.floor", pterm(pmul(poly(a), ppow(poly(b), -1))))
        if o == "%" and cint(a) and cint(b) and cval(b):
            return const(cval(a) % cval(b))
        return mk("bin", o, a, b)

    def z(self, x):
        """an array of zeros added to something of its shape"""
        if x.op == "call" and x.a[0] in ("numpy.zeros", "numpy.zeros_like"):
            return const(0)
        if x.op == "call" and x.a[0] in ("numpy.ones", "numpy.ones_like"):
            return const(1)
        if x.op == "fill" and x.a[1].op in ("const", "rat"):
            return x.a[1]
        return x

    def cmp(self, o, a, b):
        if o in ("<", "<="):
            ka, kb = kind0(a), kind0(b)
            if {ka, kb} & {"str", "path", "none", "list", "dict"}:
                return lit(mk("cmp", o, a, b))
            p = padd(poly(a), poly(b), -1)
            if not p or set(p) == {()}:
                v = p.get((), 0)
                return const(v < 0 if o == "<" else v <= 0)
            if o == "<=":
                if all(kind0(x) == "int" and e > 0 and e.denominator == 1 for m in p for x, e in m) and all(c.denominator == 1 for c in p.values()):
                    p = padd(p, pconst(1), -1)
                else:
                    return dnot(self.lt0(pmul(pconst(-1), p)))
            return self.lt0(p)
        if o == "==":
            if a is b and kind0(a) not in ("any", "float", "num"):
                return TRUE
            if a.op == "const" and b.op == "const":
                return const(a.a[0] == b.a[0])
            for x, y in ((a, b), (b, a)):
                if y is TRUE:
                    return self.truthleaf(x)
                if y is FALSE:
                    return dnot(self.truthleaf(x))
            ka, kb = kind0(a), kind0(b)
            if ka in SCALAR | ARR or kb in SCALAR | ARR:
                if not ({ka, kb} & {"str", "none", "list", "dict", "tuple"} or a.op == "seq" or b.op == "seq"):
                    p = padd(poly(a), poly(b), -1)
                    if not p or set(p) == {()}:
                        return const(not p)
                    return self.eq0(p)
            x, y = sorted((a, b), key=lambda t: t.id)
            return lit(mk("cmp", "==", x, y))
        return lit(mk("cmp", o, a, b))

    def scale(self, p, sign):
        items = sorted(p.items(), key=lambda x: pkey(x[0]))
        lead = items[0][1] if items[0][0] else (items[1][1] if len(items) > 1 else items[0][1])
        c = lead if sign else abs(lead)
        return {m: x / c for m, x in p.items()}

    def lt0(self, p):
        """p < 0"""
        # ints: x - 3 < 0;  sizes are never negative
        p = self.flat(p)
        if all(not m for m in p):
            return const(sum(p.values()) < 0)
        p = self.scale(p, False)
        if all(c >= 0 for c in p.values()) and all(self.nonneg(x, e) for m in p for x, e in m):
            return FALSE
        if all(kind0(x) == "int" and e > 0 for m in p for x, e in m) and all(c.denominator == 1 for c in p.values()):
            # p < 0 for integers: canonical sign of the first atom: p<0 or not (q<0), q = -p-1
            first = next(c for m, c in sorted(p.items(), key=lambda x: pkey(x[0])) if m)
            if first < 0:
                q = padd(pmul(pconst(-1), p), pconst(1), -1)
                return dnot(self.below0(q))
        return self.below0(p)

    def below0(self, p):
        # a size below one is zero
        if len(p) == 2 and p.get(()) == -1:
            m = next(m for m in p if m)
            if p[m] == 1 and len(m) == 1 and m[0][1] == 1 and (m[0][0].op == "size" or m[0][0].op == "call" and m[0][0].a[0] == "len"):
                return self.eq0({m: p[m]})
        return lit(mk("lt0", pterm(p)))

    def nonneg(self, x, e):
        return x.op == "size" or x.op == "call" and x.a[0] == "len" or e.denominator == 1 and int(e) % 2 == 0

    def flat(self, p):
        """images of zeros or ones in a condition on pixels are numbers"""
        if not any(x.op == "call" and x.a[0] in ("numpy.zeros", "numpy.ones", "numpy.zeros_like", "numpy.ones_like") for m in p for x, e in m):
            return p
        n = {"numpy.zeros": const(0), "numpy.ones": const(1), "numpy.zeros_like": const(0), "numpy.ones_like": const(1)}
        return poly(self.rebuilt(pterm(p), lambda y: n.get(y.a[0], y) if y.op == "call" else y)) if pterm(p).op == "poly" else poly(n.get(pterm(p).a[0], pterm(p)) if pterm(p).op == "call" else pterm(p))

    def eq0(self, p):
        p = self.flat(p)
        if all(not m for m in p):
            return const(not any(p.values()))
        return lit(mk("eq0", pterm(self.scale(p, True))))

    # -- binders

    def binder(self, t):
        op = t.op
        bv = t.a[BINDERS[op]]
        if op in ("sum", "map", "all"):
            cond = t.a[3] if op != "all" else TRUE
            if cond is TRUE:
                v = self.vector(t.a[2], bv)
                if v is not None:
                    if op == "sum":
                        return lift(lambda a: self.fcall("sum", list(a), {}), [self.go(v)])
                    if op == "map":
                        return self.go(v)
                    return self.quant("all", self.bool(v))
        if not isinstance(bv.a[0], str):
            new = mk("bv", f"n{height(t) - 1}")
            return self.go(mk(op, *[subst(x, {bv: new}) for x in t.a]))
        xs = [self.go(x) if x is not bv else x for x in t.a]
        r = mk(op, *xs)
        return lit(r) if op == "all" else r

    def vector(self, body, bv):
        """body with item(X, bv) -> X, if that is all there is of bv"""
        if not has(body, bv):
            return None
        m = {}
        for y in walk(body):
            if y.op == "item" and y.a[1] is bv and not has(y.a[0], bv) and kind(y.a[0]) in ARR:
                m[y] = y.a[0]
        if not m:
            return None
        r = subst(body, m)
        return None if has(r, bv) else r

    def quant(self, f, v):
        if v is TRUE or v is FALSE:
            return v
        if f != "all":
            return dnot(self.quant("all", dnot(v)))
        # a conjunction holds everywhere if each of its parts does
        parts = []
        while v.op == "gamma" and (v.a[2] is FALSE or v.a[1] is FALSE):
            c, x, y = v.a
            parts.append(lit(c) if y is FALSE else dnot(lit(c)))
            v = x if y is FALSE else y
        if v is FALSE:
            return FALSE
        if v is not TRUE or not parts:
            parts.append(v)
        return dand([lit(mk("qall", x)) for x in parts])

    # -- calls

    def call(self, t):
        f = t.a[0]
        args = [x for x in t.a[1:] if isinstance(x, T) and x.op != "kw"]
        kws = {x.a[0]: x.a[1] for x in t.a[1:] if isinstance(x, T) and x.op == "kw"}
        if f in ("all", "any") and len(args) == 1 and not kws:
            n = self.go(args[0])
            if hasseq(n):
                return lift(lambda a: self.fcall(f, list(a), {}), [n])
            v = self.bool(args[0]) if is_bool(args[0]) or args[0].op == "gamma" else None
            if v is not None:
                return self.quant(f, v)
        if f == "numpy.where" and len(args) == 3:
            return ite(self.bool(args[0]), self.go(args[1]), self.go(args[2]))
        if f == "numpy.invert":
            return dnot(self.bool(args[0]))
        if f in ("SA_first", "SA_last", "SA_some", "SA_count"):
            return mk("call", f, self.bool(args[0]), args[1])
        if f == "pandas.Series" and not args and set(kws) == {"data"}:
            args, kws = [kws["data"]], {}
        na = [self.go(x) for x in args]
        ks = sorted(kws)
        nk = [self.go(kws[k]) for k in ks]
        return lift(lambda a: self.fcall(f, list(a[: len(na)]), dict(zip(ks, a[len(na) :]))), na + nk)

    def fcall(self, f, a, kw):
        if kw.get("skipna") is TRUE:
            kw = {k: v for k, v in kw.items() if k != "skipna"}
        if f in NUMERIC and a and a[0].op == "serc":
            a = [values(x) for x in a]
        if f in ("all", "any") and len(a) == 1 and values(a[0]).op == "seq" and all(kind0(x) == "bool" for x in values(a[0]).a):
            xs = [lit(x) if x.op not in ("const", "gamma") else x for x in values(a[0]).a]
            return dand(xs) if f == "all" else dnot(dand([dnot(x) for x in xs]))
        if f in ("sum", "mean", "std", "var", "all", "any") and len(a) == 1 and a[0].op == "seq" and len(a[0].a) and all(m is TRUE or m is FALSE for m in a[0].a):
            if f in ("all", "any"):
                return const(all(m is TRUE for m in a[0].a) if f == "all" else any(m is TRUE for m in a[0].a))
            a = [mk("seq", *[const(int(m is TRUE)) for m in a[0].a])]
        if f == "numpy.histogram" and kw.get("density") is FALSE:
            kw = {k: v for k, v in kw.items() if k != "density"}
        if f in ("mean", "std", "var", "sum") and len(a) == 1 and a[0].op == "seq" and set(kw) <= {"axis", "ddof"}:
            r = self.moment(f, a[0].a, kw)
            if r is not None:
                return r
        if f in ("numpy.ones_like", "numpy.zeros_like") and len(a) == 1 and not set(kw) - {"dtype"} and values(a[0]).op == "seq" and all(kind0(x) in SCALAR for x in values(a[0]).a):
            f, a = f[:-5], [const(len(values(a[0]).a))]
        if f in ("numpy.ones", "numpy.zeros") and len(a) == 1 and not set(kw) - {"dtype"}:
            n = a[0].a[0] if a[0].op in ("seq", "tup") and len(a[0].a) == 1 else a[0]
            if cint(n) and 0 <= cval(n) <= SMALL:
                return mk("seq", *[const(int(f == "numpy.ones"))] * cval(n))
        if (f in MATH or f in ("numpy.abs", "numpy.exp", "numpy.log", "numpy.isnan", "numpy.isinf", "numpy.isfinite")) and len(a) == 1 and not kw and a[0].op == "seq" and len(a[0].a) <= SMALL:
            return self.seqof([self.fcall(f, [x], {}) for x in a[0].a])
        if f in TRANSPARENT and len(a) == 1:
            return a[0]
        if f in ("numpy.array", "array", "list", "tuple", "pandas.Series") and len(a) == 1 and not set(kw) - {"dtype", "name", "copy"}:
            if kw.get("dtype", NONE).op == "ext" and kw["dtype"].a[0] in ("float", "numpy.float64") or "dtype" not in kw:
                return a[0]
        if f == "astype" and len(a) == 2 and a[1].op == "const" and a[1].a[0] in ("float", "float64", "f8", "numpy.float64"):
            return a[0]
        if f == "astype" and len(a) == 2 and a[1].op == "const" and a[1].a[0] in ("bool",) and (a[0].op in ("gamma",)):
            return a[0]
        if f == "samedataset":
            ka, kb = kind0(a[0]), kind0(a[1])
            if ka in ("int", "float", "bool", "str") and kb in ("int", "float", "bool", "str"):
                return TRUE if ka == kb else FALSE
        if f == "castlike" and (kind0(a[0]), kind0(a[1])) in (("int", "int"), ("float", "float"), ("str", "str"), ("bool", "bool"), ("int", "float")):
            return a[0]
        if f == "squeeze" and len(a) == 1 and (kind0(a[0]) in SCALAR):
            return a[0]
        if f == "flatten" and len(a) == 1 and a[0].op == "item" and self.isbool(a[0].a[1]):
            return a[0]
        if f in ("isnan_all",):
            pass
        if f in MATH and len(a) == 1:
            return pterm(ppow(poly(a[0]), MATH[f]))
        if f in ("numpy.log10", "numpy.log2") and len(a) == 1:
            return pterm(pmul(poly(self.log(a[0])), ppow(plog(Fraction(10 if f == "numpy.log10" else 2)), -1)))
        if f == "numpy.log" and len(a) == 1:
            return self.log(a[0])
        if f == "numpy.exp" and len(a) == 1 and not kw:
            return pterm(pexp(poly(a[0])))
        if f == "numpy.exp2" and len(a) == 1 and not kw:
            return self.bin("**", const(2), a[0])
        if f in ("len", "size", "numpy.size") and len(a) == 1:
            return self.size(a[0]) if a[0].op != "str" else mk("call", f, *a)
        if f in ("numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin") and len(a) == 2 and not kw and all(kind0(x) in SCALAR or kind0(x) == "array" for x in a):
            f = "max_of" if "max" in f else "min_of"
        if f in ("min_of", "max_of"):
            xs = []
            for x in a:
                xs += list(x.a[1:]) if x.op == "call" and x.a[0] == f else [x]
            xs = sorted(set(xs), key=lambda x: x.id)
            if 2 <= len(xs) <= 4 and all(kind0(x) in SCALAR or kind0(x) == "array" for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    c = lift(lambda a: self.cmp("<", *a), [x, r] if f == "min_of" else [r, x])
                    r = ite(c, x, r)
                return r
            return xs[0] if len(xs) == 1 else mk("call", f, *xs)
        if f in ("min", "max") and len(a) == 1 and a[0].op == "seq" and not kw:
            return self.fcall(f + "_of", list(a[0].a), {})
        if f in ("numpy.stack", "numpy.vstack", "numpy.row_stack") and len(a) == 1 and a[0].op == "seq" and all(kind0(x) == "array" for x in a[0].a) and (not kw or set(kw) == {"axis"} and kw["axis"] is const(0)):
            return a[0]
        if f == "numpy.clip" and len(a) + len(kw) == 3:
            lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
            hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
            if lo is not None and hi is not None:
                return lift(lambda y: self.fcall("min_of", [y[0], hi], {}), [self.fcall("max_of", [a[0], lo], {})])
        if f in ("numpy.geomspace", "numpy.linspace", "numpy.logspace"):
            start = a[0] if a else kw.get("start")
            stop = a[1] if len(a) > 1 else kw.get("stop")
            n = a[2] if len(a) > 2 else kw.get("num", const(50))
            rest = {k: v for k, v in kw.items() if k not in ("num", "start", "stop", "base") and not (k == "endpoint" and v is TRUE)}
            if not rest and start is not None and stop is not None and len(a) <= 3:
                l = patom(mk("call", "SA_unitspace", n))
                u, v = poly(start), poly(stop)
                if f == "numpy.logspace" and "base" not in kw and (u and set(u) != {()} or v and set(v) != {()}):
                    # the ends are powers of logarithms: they are off by rounding errors
                    l = patom(mk("call", "SA_roundedspace", n))
                if f == "numpy.geomspace":
                    u, v = poly(self.log(start)), poly(self.log(stop))
                elif f == "numpy.logspace":
                    b = poly(self.log(kw["base"])) if "base" in kw else plog(Fraction(10))
                    u, v = pmul(u, b), pmul(v, b)
                r = padd(u, pmul(padd(v, u, -1), l))
                return pterm(r if f == "numpy.linspace" else pexp(r))
            return mk("call", f, *a, *[mk("kw", k, kw[k]) for k in sorted(kw)])
        if f in ("std", "var", "sem") and "ddof" not in kw:
            kw = dict(kw, ddof=const(0))
        if f == "sem" and len(a) == 1 and set(kw) == {"ddof"}:
            s = mk("call", "std", a[0], mk("kw", "ddof", kw["ddof"]))
            return pterm(pmul(poly(s), ppow(poly(self.size(a[0])), Fraction(-1, 2))))
        if f == "mean" and len(a) == 1 and not kw:
            s = self.fcall("sum", a, {})
            return pterm(pmul(poly(s), ppow(poly(self.size(a[0])), -1)))
        if f == "sum" and len(a) == 1 and not kw:
            return self.sum_(a[0])
        if f == "numpy.average" and len(a) == 1 and not kw:
            return self.fcall("mean", a, {})
        if f == "numpy.abs" and len(a) == 1:
            p = poly(a[0])
            items = sorted(p.items(), key=lambda x: pkey(x[0]))
            if items and items[0][1] < 0:
                return mk("call", f, pterm(pmul(pconst(-1), p)))
        if f == "numpy.diff" and len(a) == 1 and a[0].op == "seq":
            xs = a[0].a
            return mk("seq", *[self.bin("-", y, x) for x, y in zip(xs, xs[1:])])
        if f == "numpy.diff" and len(a) == 1 and not kw and kind0(a[0]) == "array":
            return self.bin("-", *[self.leaf("item", (a[0], mk("slice", s, e, NONE))) for s, e in ((const(1), NONE), (NONE, const(-1)))])
        if f == "int" and len(a) == 1 and kind0(a[0]) == "int":
            return a[0]
        if f == "int" and a[0].op == "call" and a[0].a[0] == "numpy.floor":
            return a[0]
        if f == "str" and len(a) == 1 and a[0].op == "const":
            return const(str(a[0].a[0]))
        if f in ("numpy.isnan", "numpy.isinf", "numpy.isfinite", "startswith", "isfile", "exists", "samefile", "isdir", "pandas.isna"):
            if f == "numpy.isfinite":
                return dnot(dnot(ite(dnot(lit(mk("call", "numpy.isnan", *a))), dnot(lit(mk("call", "numpy.isinf", *a))), FALSE)))
            if f == "pandas.isna":
                f = "numpy.isnan"
            return lit(mk("call", f, *a))
        if f == "numpy.argwhere" and len(a) == 1:
            return mk("call", "transpose", mk("call", "numpy.where", a[0]))
        if f == "numpy.nonzero":
            f = "numpy.where"
        return mk("call", f, *a, *[mk("kw", k, kw[k]) for k in sorted(kw)])

    def moment(self, f, xs, kw):
        """mean, sum and deviations of known values"""
        ax = kw.get("axis", NONE)
        n = len(xs)
        if n > 6 or not (ax is NONE or ax is const(0)) or any(x.op in ("seq", "serc", "dict", "str") for x in xs):
            return None
        if ax is NONE and any(kind0(x) in ARR for x in xs):
            return None
        dd = kw.get("ddof", const(0))
        if not cint(dd):
            return None
        s = {}
        for x in xs:
            s = padd(s, poly(x))
        if f == "sum":
            return pterm(s)
        if not n:
            return NAN
        m = pmul(s, pconst(Fraction(1, n)))
        if f == "mean":
            return pterm(m)
        if n <= cval(dd):
            return NAN
        v = {}
        for x in xs:
            v = padd(v, ppow(padd(poly(x), m, -1), 2))
        v = pmul(v, pconst(Fraction(1, n - cval(dd))))
        return pterm(v if f == "var" else ppow(v, Fraction(1, 2)))

    def isbool(self, x):
        return x.op == "gamma" and x.a[0].op != "const"

    def log(self, x):
        p = poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0:
                r = plog(c)
                for at, e in m:
                    l = poly(at.a[1]) if at.op == "call" and at.a[0] == "numpy.exp" else (plog(unnum(at)) if at.op in ("const", "rat") else patom(mk("call", "numpy.log", at)))
                    r = padd(r, pmul(pconst(e), l))
                return pterm(r)
        return mk("call", "numpy.log", x)

    def sum_(self, x):
        """sum of an array, numbers taken out of it"""
        if x.op == "seq":
            r = {}
            for y in x.a:
                r = padd(r, poly(y))
            return pterm(r)
        p = poly(x)
        if not p:
            return const(0)
        common = None
        for m in p:
            d = {a: e for a, e in m if kind0(a) in SCALAR and a.op != "unk"}
            common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
        inner = {tuple((a, e) for a, e in m if a not in common): c for m, c in p.items()}
        items = sorted(inner.items(), key=lambda x: pkey(x[0]))
        lead = items[0][1]
        inner = {m: c / lead for m, c in inner.items()}
        out = {tuple(sorted(common.items(), key=lambda x: (x[0].id, x[1]))): lead}
        return pterm(pmul(out, patom(mk("call", "sum", pterm(inner)))))


_H = {}


def height(t):
    """how deep binders are nested"""
    r = _H.get(t)
    if r is None:
        r = max([height(k) for k in kids(t)], default=0) + (t.op in BINDERS)
        _H[t] = r
    return r


def kind0(t):
    """kind of a normal term"""
    if t.op == "poly":
        ks = {kind0(p.a[0]) for m in t.a for p in m.a[1:]}
        for k in ("df", "series", "array", "boolarray"):
            if k in ks:
                return "array"
        if "any" in ks:
            return "any"
        if ks <= {"int"} and all(cint(m.a[0]) and all(cint(p.a[1]) and cval(p.a[1]) > 0 for p in m.a[1:]) for m in t.a):
            return "int"
        return "num"
    if t.op in ("rat",):
        return "num"
    if t.op == "size":
        return "int"
    if t.op == "seq":
        return "list"
    if t.op == "item" and t.a[0].op == "filter" and t.a[0].a[0].op == "sym" and cint(t.a[1]) and not t.a[0].a[0].a[0].endswith("2D"):
        return "num"
    if t.op == "item" and t.a[0].op in ("sym",) and cint(t.a[1]):
        return "num" if kind(t.a[0]) in ARR else "any"
    if t.op == "call" and t.a[0] in ("numpy.exp", "numpy.log", "numpy.abs", "numpy.sin", "numpy.cos") and len(t.a) == 2:
        k = kind0(t.a[1])
        return "array" if k in ARR else ("num" if k in SCALAR else k)
    if t.op == "call" and t.a[0] in ("min_of", "max_of", "numpy.floor"):
        ks = {kind0(x) for x in t.a[1:]}
        return "num" if ks <= SCALAR else ("array" if ks & ARR else "any")
    if t.op == "call" and t.a[0] in ("sum", "median", "std", "mean", "minimize") and not any(x.op == "kw" and x.a[0] == "axis" for x in t.a[1:]):
        return "num"
    if t.op == "gamma":
        a, b = kind0(t.a[1]), kind0(t.a[2])
        return a if a == b else "any"
    return kind(t)

