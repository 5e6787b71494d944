"""C08: the goodness of fit is the reduced chi-squared at optimal scaling and background."""
from ..decide import compare, muddy
from ..norm import norm
from ..terms import *  # noqa: F403
from ..terms import mk

DATA = '''
from mcsas3.osb import optimizeScalingAndBackground
import numpy as np
I, s, m = SA_SYM("I", "array"), SA_SYM("s", "array"), SA_SYM("m", "array")
'''
MATCH = DATA + '''
%s
x, g = o.match(m%s)
SA_OBS("x", x)
SA_OBS("gof", g)
xs = SA_SYM("sa:x", "array")
SA_OBS("objective", (((I - (m * xs[0] + xs[1])) / s) ** 2).sum() / I.size)
SA_OBS("mean", I.mean())
SA_OBS("finitemean", I[np.isfinite(I)].mean())
SA_OBS("given x0", SA_SYM("x0", "array"))
'''
REFUSE = '''
try:
    optimizeScalingAndBackground(I, s).match(m)
    ok = True
except Exception:
    ok = False
if ok:
    SA_TRUE("NaN in the intensity is refused", not np.isnan(I).any())
    SA_TRUE("infinite intensity is refused", not np.isinf(I).any())
    SA_TRUE("NaN in the uncertainty is refused", not np.isnan(s).any())
    SA_TRUE("infinite uncertainty is refused", not np.isinf(s).any())
    SA_TRUE("empty data is refused", I.size != 0)
    SA_TRUE("unequal shapes are refused", I.shape == s.shape)
'''
BOUNDED = {"TNC", "L-BFGS-B", "SLSQP", "Powell", "Nelder-Mead", "trust-constr", "COBYLA", "COBYQA"}


def opaque(e):
    e.opaquemin = True


def paths(v):
    """v split at its conditions"""
    if v.op == "gamma":
        return paths(v.a[1]) + paths(v.a[2])
    return [v]


def check(cx):
    for name, make, arg, want in (
        ("default bounds", "o = optimizeScalingAndBackground(I, s)", "", None),
        ("default bounds, starting value given", "o = optimizeScalingAndBackground(measDataI=I, measDataISigma=s)", ', x0=SA_SYM("x0", "array")', "x0"),
        ("given bounds", 'B0, B1, B2, B3 = [SA_SYM("b" + str(i), "float") for i in range(4)]\no = optimizeScalingAndBackground(I, s, xBounds=[[B0, B1], [B2, B3]])', "", "bounds"),
        ("given bounds and starting value", 'B0, B1, B2, B3 = [SA_SYM("b" + str(i), "float") for i in range(4)]\no = optimizeScalingAndBackground(I, s, xBounds=[[B0, B1], [B2, B3]])', ', x0=SA_SYM("x0", "array")', "x0 bounds"),
    ):
        e = cx.drive(name, MATCH % (make, arg), setup=opaque)
        if e is None:
            continue
        if "gof" not in e.obs:
            e and cx.unreached(e, f"{name}: a fit is made", True)
            continue
        ob = {k: v[0] for k, v in e.obs.items()}
        guard = e.obs["gof"][2].guard if hasattr(e.obs["gof"][2], "guard") else ()
        mins = {ev.term: ev for ev in e.events if ev.kind == "minimize"}
        items = {(n, k): {norm(mk("item", t, const(n))), norm(mk("attr", t, n))} for n in ("x", "fun") for k, t in enumerate(mins)}
        pos = lambda k: cx.position(e, ob[k], None, e.obs[k][1])
        used = set()
        for key, what in (("fun", "gof"), ("x", "x")):
            rule = "the result is the minimum found" if what == "gof" else "scaling and background are those of the minimum"
            for p in paths(norm(ob[what])):
                hit = [k for k in range(len(mins)) if p in items[key, k]]
                if hit:
                    used.add(hit[0])
                    cx.ok(rule)
                elif what == "gof" and objective_at(p, ob["objective"], mins):
                    cx.ok(rule)
                else:
                    cx.require(rule, None if muddy(p) else False, f"{name}: {what} is {show(p, 4)[:300]}", pos(what))
        if len(used) > 1:
            cx.und("one minimisation", f"{name}: several minimisations")
        for ev in e.events:
            if ev.kind != "minimize":
                continue
            at = ev.pos
            verdict(cx, "the objective is the reduced chi-squared", ev.obj, ob["objective"], at, name)
            meth = ev.opts.get("method", NONE)
            for mm in paths(norm(meth)):
                cx.require("the minimiser honours bounds", mm is NONE or (cstr(mm) and cval(mm) in BOUNDED) or (None if muddy(mm) or not is_const(mm) else False), f"{name}: method {show(mm)}", at)
            b = ev.opts.get("bounds", NONE)
            if want and "bounds" in want:
                B = mk("list", *[mk("list", cx.sym(f"b{i}", "float"), cx.sym(f"b{i+1}", "float")) for i in (0, 2)])
                bounds(cx, name, b, [B], at)
            else:
                M = [mk("list", mk("list", const(0), NONE), mk("list", binop("*", const(-1), ob[k]), ob[k])) for k in ("mean", "finitemean")]
                bounds(cx, name, b, M, at)
            x0 = ev.opts.get("x0")
            if want and "x0" in want:
                verdict(cx, "a given starting value is used", x0, ob["given x0"], at, name)
    e = cx.drive("refusals", DATA + REFUSE)
    e = cx.drive("start", START)
    if e is None:
        return
    for ev in e.events:
        if ev.kind != "minimize":
            continue
        x0 = ev.opts.get("x0", NONE)
        b = [asbounds(x) for x in paths(norm(ev.opts.get("bounds", NONE)))]
        for i, what in enumerate(("scaling", "background")):
            x = mk("item", x0, const(i))
            pos = ev.pos
            guard = e.obs["M"][2].guard
            rs = []
            for M in ("M", "M2"):
                M = e.obs[M][0]
                r = [compare(mk("cmp", "<", x, const(0) if i == 0 else binop("*", const(-1), M)), FALSE, guard)]
                if i:
                    r.append(compare(mk("cmp", "<", M, x), FALSE, guard))
                rs.append(r)
            ok = any(all(y.status == "ok" for y in r) for r in rs)
            bad = all(any(y.status == "bad" for y in r) for r in rs)
            cx.require("the derived starting value is within the bounds", True if ok else (False if bad else None), f"{what}: starts at {show(norm(x), 4)[:300]}", pos)


START = DATA + '''
M = I[np.isfinite(I)].mean()
SA_ASSUME(M >= 0)
o = optimizeScalingAndBackground(I, s)
SA_ASSUME(I.mean() >= 0)
SA_OBS("M2", I.mean())
SA_OBS("M", M)
o.match(m)
'''


def objective_at(p, obj, mins):
    for t in mins:
        for x in (mk("item", t, const("x")),):
            if norm(subst(obj, {sym("sa:x", "array"): x})) is p:
                return True
    return False


def verdict(cx, rule, got, want, pos, name, guard=()):
    r = compare(got, want, guard)
    if r.status == "ok":
        cx.ok(rule)
    elif r.status == "bad":
        cx.bad(rule, f"{name}: is {show(r.got, 5)[:300]} but has to be {show(r.want, 5)[:300]}", pos)
    else:
        cx.und(rule, f"{name}: {r.why}", pos)


def asbounds(b):
    """a nested 2x2 list of bounds, lower and upper, or None"""
    if b.op == "call" and b.a[0] in ("numpy.array", "tuple", "list") and len(b.a) == 2:
        b = b.a[1]
    if b.op == "call" and b.a[0] == "zip" and len(b.a) == 3:
        l, h = [rows(x) for x in b.a[1:]]
        return None if l is None or h is None or len(l) != 2 or len(h) != 2 else [[l[0], h[0]], [l[1], h[1]]]
    if b.op == "call" and b.a[0] in ("scipy.optimize.Bounds", "Bounds"):
        a = [x for x in b.a[1:] if x.op != "kw"]
        k = {x.a[0]: x.a[1] for x in b.a[1:] if x.op == "kw"}
        l = a[0] if a else k.get("lb")
        h = a[1] if len(a) > 1 else k.get("ub")
        l, h = (rows(x) if x is not None else None for x in (l, h))
        return None if l is None or h is None or len(l) != 2 or len(h) != 2 else [[l[0], h[0]], [l[1], h[1]]]
    r = rows(b)
    if r is None or len(r) != 2:
        return None
    r = [rows(x) for x in r]
    return None if any(x is None or len(x) != 2 for x in r) else r


def rows(b):
    if b.op == "call" and b.a[0] in ("numpy.array", "numpy.asarray", "tuple", "list") and len(b.a) == 2:
        b = b.a[1]
    return list(b.a) if b.op in ("list", "tuple", "tup", "seq") else None


def bounds(cx, name, b, wants, pos):
    rule = "the bounds are those given" if len(wants) == 1 else "default bounds: scaling not negative, background within the mean"
    for b in paths(b):
        g = asbounds(b)
        if g is None:
            if b is NONE:
                cx.bad(rule, f"{name}: the minimisation has no bounds", pos)
            else:
                cx.und(rule, f"{name}: bounds {show(b, 4)[:200]}", pos)
            continue
        for i in range(2):
            for j in range(2):
                x = norm(g[i][j])
                ok = False
                for w in wants:
                    w = norm(asbounds(w)[i][j])
                    if x is w or (w is NONE and x.op == "const" and x.a[0] == float("inf")) or (w is NONE and show(x) in ("numpy.inf", "math.inf")) or (len(wants) > 1 and i == 1 and absof(x, w)):
                        ok = True
                what = ("lower", "upper")[j] + " bound of the " + ("scaling", "background")[i]
                if ok:
                    cx.ok(rule)
                elif muddy(x):
                    cx.und(rule, f"{name}: {what} {show(x, 4)[:200]}")
                else:
                    cx.bad(rule, f"{name}: {what} is {show(x, 4)[:200]} but has to be {show(norm(asbounds(wants[0])[i][j]), 4)[:200]}", pos)


def absof(x, w):
    """x is w made non-negative (or non-positive for the negative of it)"""
    return any(norm(mk("call", "numpy.abs", y)) is z for y in (w,) for z in (x, norm(binop("*", const(-1), x))))
