"""Comparing what the code computes with what it has to compute.

`compare(a, b, guard)` answers "ok" (same normal form), "bad" (there is a combination of branch
conditions that can hold together under which the two are different values made of operations
the normal form understands) or "undecided".
"""

import math
from fractions import Fraction

from .norm import kind0, lit, norm, padd, pmul, poly, ppow, pterm, ratzero, unnum  # noqa: F401
from .terms import *  # noqa: F403
from .terms import T, mk

MUDDY = {"unk", "loopval", "mu", "inloop", "app", "fresh", "any?"}

# functions whose results the normal form tells apart whenever the arguments differ
PLAIN = set(
    "sum min_of max_of numpy.floor numpy.ceil numpy.isfinite numpy.isnan numpy.isinf median std var mean numpy.abs numpy.log10 numpy.log numpy.exp "
    "SA_unitspace SA_rounded SA_roundedspace minimize numpy.array size numpy.pi numpy.geomspace numpy.linspace SA_calcI SA_calcV SA_matchx SA_matchg numpy.histogram "
    "multiprocessing.cpu_count default_rng numpy.sqrt min max str len SA_nbins kind samedataset castlike isfile exists isdir float32 numpy.full numpy.zeros numpy.ones numpy.sin numpy.cos".split()
)
PLAINOPS = set(
    "sym const ref poly mono pw rat gamma lt0 eq0 item size seq tup dict call kw kwn slice none notna isnone filter cell row col cols rowset upd dfc fr sum map all bv range "
    "attr h5val h5in in ext class func closure bound bool draw serc series list set str cat join fmt strcat build rowbuild dbuild truth cmp conv ellipsis absent "
    "qall fill dset zip set lappend h5file h5node h5str h5attr h5attrs dkeys dvalues ditems enumerate reversed isinstance module and or not bin neg idx shape rowdict concat tuple path namedrow h5init notna P".split()
)


def muddy(t, known=frozenset(), memo=None):
    """the parts of t the normal form does not understand"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if t in known or t.op == "call" and t.a[0] in ("int", "round", "str", "format") and len(t.a) >= 2 and t.a[1].op == "sym" and t.a[1].a[1] == "float":
            r = frozenset()
        elif t.op == "call" and t.a[0] in ("any", "all") and len(t.a) == 2 and t.a[1].op == "sym":
            r = frozenset()
        elif t.op == "call" and t.a[0] == "astype" and len(t.a) == 3 and t.a[1].op == "sym" and t.a[2].op == "const" and t.a[2].a[0] in ("int", "str", "complex"):
            r = frozenset()
        elif t.op == "call" and t.a[0] in ("int", "round") and len(t.a) in (2, 3) and t.a[1].op == "call" and str(t.a[1].a[0]).startswith("SA_") and (len(t.a) == 2 or cint(t.a[2])):
            r = muddy(t.a[1], known, memo)
        elif t.op == "call" and t.a[0] == "format" and len(t.a) == 3 and t.a[1].op == "sym" and cstr(t.a[2]) and str(cval(t.a[2]))[-1:] in tuple("gGeE"):
            r = frozenset()  # digits get lost
        elif t.op in MUDDY or t.op not in PLAINOPS or (t.op == "call" and isinstance(t.a[0], str) and t.a[0] not in PLAIN and not t.a[0].startswith("SA_")):
            r = frozenset([t])
        elif t.op == "ref":
            r = frozenset()
        else:
            r = frozenset()
            for k in kids(t):
                r |= muddy(k, known, memo)
        memo[t] = r
    return r


def pairs(a, b):
    """None: not comparable; else whether a and b surely are different values"""
    ma, mb = muddy(a), muddy(b)
    if not ma and not mb:
        return True
    xa, xb = ma - mb, mb - ma
    if not xa and not xb:
        return True
    # one opaque operation each, with the same name, applied to different things
    if len(xa) == 1 and len(xb) == 1:
        p, q = next(iter(xa)), next(iter(xb))
        if p.op == q.op == "call" and p.a[0] == q.a[0] and len(p.a) == len(q.a):
            d = [(u, v) for u, v in zip(p.a[1:], q.a[1:]) if u is not v]
            if d and all(isinstance(u, T) and isinstance(v, T) and u.op == v.op == "kw" or (u.op != "kw" and v.op != "kw") for u, v in d):
                return all(differ(u, v) for u, v in d)
    return False


def differ(a, b):
    if a is b:
        return False
    return pairs(a, b)


# -- feasibility of a set of branch outcomes -----------------------------------------------------


def linear(p):
    """polynomial -> (coefficients by monomial, constant)"""
    c = Fraction(0)
    d = {}
    for m, k in p.items():
        if not m:
            c += k
        else:
            d[m] = d.get(m, 0) + k
    return d, c


def nonneg(m):
    """a monomial that cannot be negative"""
    return all((a.op == "size" or (a.op == "call" and a.a[0] in ("numpy.abs", "std", "SA_nonneg", "multiprocessing.cpu_count")) or (e.denominator == 1 and e % 2 == 0 and kind0(a) in ("num", "int", "float"))) for a, e in m)


def feasible(path):
    """could these branch outcomes hold together?  Emptiness of the polyhedron they describe."""
    rows = []  # (coef dict, const, strict): coef.x + const < 0 or <= 0
    eqs = []
    seen = {}
    for l, v in path:
        if seen.setdefault(l, v) != v:
            return False
        if l.op not in ("lt0", "eq0"):
            continue
        d, c = linear(poly(l.a[0]))
        if l.op == "lt0":
            if v:
                rows.append((d, c, True))
            else:
                rows.append(({m: -k for m, k in d.items()}, -c, False))
        elif v:
            rows.append((d, c, False))
            rows.append(({m: -k for m, k in d.items()}, -c, False))
        else:
            eqs.append((d, c))
    # a value that equals two different constants, or none of the only ones possible
    for l, v in path:
        if l.op == "isnone" and v:
            for k, w in path:
                if k.op in ("lt0", "eq0") and w and l.a[0] in walk(k.a[0]) and len(poly(k.a[0])) <= 2:
                    return False
    vs = set()
    for d, c, s in rows:
        vs |= set(d)
    for m in vs:
        if nonneg(m):
            rows.append(({m: Fraction(-1)}, Fraction(0), False))
    if not fm(rows):
        return False
    if not integers(rows, eqs):
        return False
    for d, c in eqs:  # something != 0: infeasible only if it is forced to be 0
        if not fm(rows + [(d, c, True)]) and not fm(rows + [({m: -k for m, k in d.items()}, -c, True)]):
            return False
    return True


def integers(rows, eqs):
    """whole numbers between two bounds cannot differ from all numbers there are between them"""
    for m in {m for d, _ in eqs for m in d if len(d) == 1}:
        if len(m) != 1 or m[0][1] != 1 or not (kind0(m[0][0]) == "int" or m[0][0].op == "size"):
            continue
        lo, hi = None, None
        for d, c, strict in rows:
            if set(d) == {m}:
                b = -c / d[m]
                if d[m] > 0:
                    b = math.ceil(b) - 1 if strict else math.floor(b)
                    hi = b if hi is None else min(hi, b)
                else:
                    b = math.floor(b) + 1 if strict else math.ceil(b)
                    lo = b if lo is None else max(lo, b)
        if lo is None or hi is None or hi - lo > 50:
            continue
        out = {-c / d[m] for d, c in eqs if set(d) == {m}}
        if all(k in out for k in range(lo, hi + 1)):
            return False
    return True


def fm(rows):
    rows = [r for r in rows]
    while True:
        vs = {}
        for d, c, s in rows:
            if not d:
                if c > 0 or (s and c >= 0):
                    return False
            for m in d:
                vs[m] = vs.get(m, 0) + 1
        rows = [r for r in rows if r[0]]
        if not vs or len(rows) > 120:
            return True
        m = min(vs, key=lambda x: vs[x])
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg_ = [r for r in rows if r[0].get(m, 0) < 0]
        new = [r for r in rows if m not in r[0]]
        for p in pos:
            for q in neg_:
                k, l = p[0][m], -q[0][m]
                d = {}
                for x, y in p[0].items():
                    d[x] = d.get(x, 0) + y * l
                for x, y in q[0].items():
                    d[x] = d.get(x, 0) + y * k
                d = {x: y for x, y in d.items() if y}
                new.append((d, p[1] * l + q[1] * k, p[2] or q[2]))
        rows = new


NUMK = {"int", "num", "float", "bool"}


def forced(x, y, path):
    """on this path the branch conditions make the two numbers equal"""
    if not path:
        return False
    d = padd(poly(x), poly(y), -1)
    if not d or set(d) == {()}:
        return not d
    m = {k: -v for k, v in d.items()}
    return not feasible(path + ((mk("lt0", pterm(d)), True),)) and not feasible(path + ((mk("lt0", pterm(m)), True),))


def paths_of(b):
    """diagram -> list of paths (tuples of (literal, outcome)) to TRUE; None if too many"""
    out = []

    def go(t, p):
        if len(out) > 60:
            return
        if t is TRUE:
            out.append(p)
        elif t is FALSE:
            return
        elif t.op == "gamma":
            go(t.a[1], p + ((t.a[0], True),))
            go(t.a[2], p + ((t.a[0], False),))
        else:
            out.append(p)

    go(b, ())
    return out


def guardpaths(guard):
    from .norm import ite

    g = TRUE
    for c in guard:
        n = Normb(c)
        h = ite(g, n, FALSE) if n.op in ("gamma", "const") else g
        g = h
    return paths_of(g)[:60], g


def Normb(c):
    from .norm import Norm

    try:
        return Norm().bool(c)
    except Exception:
        return TRUE


class Result:
    def __init__(self, status, why="", path=(), got=None, want=None):
        self.status, self.why, self.path, self.got, self.want = status, why, path, got, want


def cases(conds):
    """all outcomes of these conditions that can hold together"""
    from .norm import atoms, dand

    if conds[0] == "given":
        return [p for p in paths_of(dand([Normb(c) for c in conds[1:]])) if feasible(p)]
    ats = []
    for c in conds:
        ats += [a for a in atoms(Normb(c)) if a not in ats]
    out = [()]
    for a in ats:
        out = [p + ((a, v),) for p in out for v in (True, False) if feasible(p + ((a, v),))]
    return out


def compare_cases(a, b, guard, paths):
    from .norm import assuming

    und = None
    for p in paths:
        with assuming(p):
            r = compare(a, b, guard, p)
        if r.status == "bad":
            return r
        if r.status == "undecided":
            und = und or r
    return und or Result("ok")


def compare(a, b, guard=(), given=()):
    if a is b:
        return Result("ok")
    r = shape(a, b, guard, given)
    if r is not None:
        return r
    na, nb = norm(a), norm(b)
    if na is nb:
        return Result("ok")
    from .norm import TooBig, dand, ite

    gs, g = guardpaths(guard)
    try:
        na, nb = ite(g, na, NONE), ite(g, nb, NONE)
    except TooBig:
        return Result("undecided", "too many cases", (), na, nb)
    if na is nb:
        return Result("ok")
    found = []
    state = {"n": 0, "und": None}

    def go(x, y, path):
        if x is y or state["n"] > 3000 or found:
            return
        state["n"] += 1
        tops = [z.a[0] for z in (x, y) if z.op == "gamma"]
        if tops:
            v = min(tops, key=lambda t: t.id)
            for o in (True, False):
                p = path + ((v, o),)
                i = 1 if o else 2
                if feasible(p):
                    x2, y2 = (z.a[i] if z.op == "gamma" and z.a[0] is v else z for z in (x, y))
                    if o and one(v):
                        x2, y2 = single(x2, {one(v)}), single(y2, {one(v)})
                    go(x2, y2, p)
            return
        s = samestruct(x, y)
        if s == "same":
            return
        if s == "differ" and kind0(x) in NUMK and kind0(y) in NUMK and forced(x, y, path):
            return
        if s == "differ":
            eqs = equalities(path)
            if eqs:
                x2, y2 = single(x, eqs), single(y, eqs)
                if x2.op == "gamma" or y2.op == "gamma":
                    return go(x2, y2, path) if (x2, y2) != (x, y) else None
                s = samestruct(x2, y2)
                if s == "same":
                    return
        if s == "differ" and all(not muddy(l) for l, _ in path):
            found.append((x, y, path))
        elif state["und"] is None:
            state["und"] = (x, y, path)

    go(na, nb, tuple(given))
    if found:
        x, y, p = found[0]
        return Result("bad", "", p, x, y)
    if state["n"] > 3000:
        return Result("undecided", "too many cases", (), na, nb)
    if state["und"]:
        x, y, p = state["und"]
        return Result("undecided", "not understood: " + "; ".join(sorted({show(m, 3)[:80] for m in list(muddy(x) | muddy(y) | frozenset(l for l, _ in p if muddy(l)))[:4]})), p, x, y)
    return Result("ok")


def one(l):
    """the elements of which, says this condition, there is exactly one"""
    if l.op == "eq0" and l.a[0].op == "poly":
        p = poly(l.a[0])
        z = [m[0][0] for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "size"]
        if len(p) == 2 and len(z) == 1 and p.get(()) == -p[((z[0], Fraction(1)),)]:
            return z[0]
    return None


def single(t, sizes):
    """t where these sizes are 1"""
    from .norm import Norm, ite

    if not isinstance(t, T) or t.op in ("const", "sym") and t not in sizes:
        return t
    if t.op == "gamma":
        return ite(single(t.a[0], sizes) if t.a[0].op in ("lt0", "eq0") else lit(t.a[0]), single(t.a[1], sizes), single(t.a[2], sizes))
    if t.op in ("lt0", "eq0"):
        p = poly(single(t.a[0], sizes))
        if set(p) <= {()}:
            return const(p.get((), 0) < 0 if t.op == "lt0" else not p)
        return Norm().lt0(p) if t.op == "lt0" else Norm().eq0(p)
    if t.op == "filter":
        return t
    if t in sizes:
        return sizes[t] if isinstance(sizes, dict) else const(1)
    if t.op == "call" and t.a[0] in ("sum", "mean", "min", "max", "median") and len(t.a) == 2 and t.a[1].op in ("filter", "poly") and Norm().size(t.a[1]) in sizes:
        return Norm().leaf("item", (t.a[1], const(0)))
    if t.op == "poly":
        r = {}
        for m in t.a:
            q = {(): unnum(m.a[0])}
            for x in m.a[1:]:
                q = pmul(q, ppow(poly(single(x.a[0], sizes)), unnum(x.a[1])))
            r = padd(r, q)
        return pterm(r)
    return mk(t.op, *[single(x, sizes) for x in t.a])


def equalities(path):
    """{term: what it is equal to} by the conditions of this path"""
    out = {}
    for l, o in path:
        if o is not True or l.op != "eq0":
            continue
        p = poly(single(l.a[0], out) if out else l.a[0])
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and kind0(m[0][0]) in NUMK and m[0][0].op in ("sym", "item"):
                t = m[0][0]
                rest = {k: -v / Fraction(c) for k, v in p.items() if k != m}
                if not any(t is a or occurs(t, a) for k in rest for a, _ in k):
                    out = {k: single(v, {t: pterm(rest)}) for k, v in out.items()}
                    out[t] = pterm(rest)
                    break
    return out


def occurs(t, u):
    return t is u or isinstance(u, T) and any(occurs(t, x) for x in u.a if isinstance(x, T))


def samestruct(x, y):
    if x is y:
        return "same"
    if x.op == y.op and x.op in ("seq", "tup") and len(x.a) == len(y.a):
        rs = [samestruct(u, v) if isinstance(u, T) and isinstance(v, T) else ("same" if u == v else "differ") for u, v in zip(x.a, y.a)]
        return "differ" if "differ" in rs else ("same" if all(r == "same" for r in rs) else "und")
    if not differ(x, y):
        return "und"
    if x.op == "poly" or y.op == "poly":
        z = ratzero(padd(poly(x), poly(y), -1))
        return "same" if z else ("und" if z is None else "differ")
    return "differ"


def shape(a, b, guard, given=()):
    """sequences and dictionaries of the same shape are compared element by element"""
    if a.op in ("seq", "tup") and a.op == b.op and len(a.a) == len(b.a):
        prs = [(u, v) for u, v in zip(a.a, b.a)]
        if not all(isinstance(u, T) and isinstance(v, T) for u, v in prs):
            return None
    elif a.op == b.op == "dict" and len(a.a) == len(b.a) and all(cstr(k) for k in a.a[::2] + b.a[::2]):
        da, db = dict(zip(a.a[::2], a.a[1::2])), dict(zip(b.a[::2], b.a[1::2]))
        if set(da) != set(db):
            return None
        prs = [(da[k], db[k]) for k in da]
    else:
        return None
    und = None
    for u, v in prs:
        r = compare(u, v, guard, given)
        if r.status == "bad":
            return r
        if r.status == "undecided":
            und = r
    return und or Result("ok")


def implied(guard, c):
    """does the path condition imply c?"""
    return compare(c, TRUE, guard)
