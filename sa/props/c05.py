"""C05: random parameter values come from the limits of their own parameter."""
from ..decide import compare, feasible, muddy
from ..norm import norm
from ..terms import *  # noqa: F403
from ..terms import T, mk

DRIVER = '''
from mcsas3.mc_model import McModel
LO, HI, LO2, HI2 = SA_SYM("lo", "float"), SA_SYM("hi", "float"), SA_SYM("lo2", "float"), SA_SYM("hi2", "float")
m = McModel(modelName="sphere", nContrib=3, fitParameterLimits={{"radius": [LO, HI], "length": [LO2, HI2]}},
            staticParameters={{"sld": SA_SYM("sld", "float")}}, seed=SA_SYM("seed", "int"), logRandom={log})
for k in range(3):
    SA_OBS("initial radius of contribution " + str(k), m.parameterSet.loc[k, "radius"])
    SA_OBS("initial length of contribution " + str(k), m.parameterSet.loc[k, "length"])
m.resetParameterSet()
for k in range(3):
    SA_OBS("radius of contribution " + str(k), m.parameterSet.loc[k, "radius"])
    SA_OBS("length of contribution " + str(k), m.parameterSet.loc[k, "length"])
for k in range(2):
    m.pick()
    SA_OBS("trial radius " + str(k), m.pickParameters["radius"])
    SA_OBS("trial length " + str(k), m.pickParameters["length"])
'''

REFUSED = '''
from mcsas3.mc_model import McModel
LO, HI, LO2, HI2 = SA_SYM("lo", "float"), SA_SYM("hi", "float"), SA_SYM("lo2", "float"), SA_SYM("hi2", "float")
try:
    m = McModel(modelName="sphere", nContrib=2, fitParameterLimits={"radius": [LO, HI], "length": [LO2, HI2]},
                staticParameters={"sld": SA_SYM("sld", "float")}, seed=SA_SYM("seed", "int"), logRandom=True)
    ok = True
except Exception:
    ok = False
SA_EQ("limits that are not positive are refused", ok, LO > 0 and HI > 0 and LO2 > 0 and HI2 > 0)
'''

U = sym("U", "num")
LN10 = sym("ln10", "num")


def b(o, x, y):
    return mk("bin", o, x, y)


def logt(t):
    """base-10 logarithm of a term, as a sum where it can be"""
    if t.op == "bin":
        o, x, y = t.a
        if o == "*":
            return b("+", logt(x), logt(y))
        if o == "/":
            return b("-", logt(x), logt(y))
        if o == "**":
            return nolog(y) if cnum(x) and cval(x) == 10 else b("*", nolog(y), logt(x))
    if t.op == "call" and t.a[0] == "numpy.exp":
        return b("/", nolog(t.a[1]), LN10)
    if t.op == "call" and t.a[0] == "numpy.power":
        return logt(b("**", t.a[1], t.a[2]))
    if t.op == "call" and t.a[0] in ("float",) and len(t.a) == 2:
        return logt(t.a[1])
    if t.op == "call" and t.a[0] in ("min_of", "max_of") and len(t.a) == 3:
        c = mk("cmp", "<", t.a[1], t.a[2])
        return gamma(c, logt(t.a[1 if t.a[0] == "min_of" else 2]), logt(t.a[2 if t.a[0] == "min_of" else 1]))
    if t.op == "gamma":
        return gamma(t.a[0], logt(t.a[1]), logt(t.a[2]))
    return mk("call", "numpy.log10", t)


def nolog(t):
    """logarithms inside t in base 10 and expanded"""
    if t.op == "call" and t.a[0] == "numpy.log10":
        return logt(t.a[1])
    if t.op == "call" and t.a[0] == "numpy.log":
        return b("*", LN10, logt(t.a[1]))
    if t.op in ("bin", "neg", "gamma"):
        return mk(t.op, *[nolog(x) if isinstance(x, T) else x for x in t.a])
    return t


def draws(t):
    return [x for x in walk(t) if x.op == "draw"]


def drawid(t, d):
    """which random number it is"""
    ix = ()
    for x in walk(t):
        if x.op == "item" and x.a[0] is d:
            ix += (x.a[1],)
    return (d.a[3], d.a[4], d.a[1], ix)


def interval(d):
    """a uniform draw as low + (high - low) * U"""
    if d.a[0] != "uniform":
        return None
    kw = {k.a[0]: k.a[1] for k in d.a[2].a}
    return b("+", kw["low"], b("*", b("-", kw["high"], kw["low"]), U))


def expected(lo, hi, log):
    if log:
        lo, hi = mk("call", "numpy.log10", lo), mk("call", "numpy.log10", hi)
    return b("+", lo, b("*", b("-", hi, lo), U))


def check(cx):
    for log, same in ((False, False), (True, False), (False, True), (True, True)):
        # with the same limits for both parameters as well
        e = cx.drive(f"random values, {'logarithmic' if log else 'linear'}{', equal limits' * same}", DRIVER.format(log=log).replace('"length": [LO2, HI2]', '"length": [LO, HI]' if same else '"length": [LO2, HI2]'))
        if e is None:
            continue
        seen = {}
        for name, (v, raw, st) in e.obs.items():
            lo, hi = (cx.sym("lo", "float"), cx.sym("hi", "float")) if same or "radius" in name else (cx.sym("lo2", "float"), cx.sym("hi2", "float"))
            rule = "drawn within the limits of the parameter" + (", logarithmically" if log else "")
            ds = list(dict.fromkeys(draws(v)))
            pos = e.prov.get(ds[0]) if ds else cx.position(e, v, None, raw)
            if not ds:
                cx.require(rule, False if not muddy(v) else None, f"{name} is {show(v, 5)[:200]}, not a random number", pos)
                continue
            if len(ds) > 1:
                cx.und(rule, f"{name} comes from {len(ds)} random numbers")
                continue
            d = ds[0]
            iv = interval(d)
            if iv is None:
                cx.bad(rule, f"{name} is drawn from {show(d, 3)[:200]}", pos)
                continue
            ids = drawid(v, d)
            if ids in seen:
                cx.bad("a draw of its own", f"{name} and {seen[ids]} are the same random number", pos)
            else:
                cx.ok("a draw of its own")
            seen[ids] = name
            t = v
            for x in walk(v):
                if x.op == "item" and x.a[0] is d:
                    t = subst(t, {x: iv})
            t = subst(t, {d: iv})
            t = logt(t) if log else t
            w = expected(lo, hi, log)
            r = compare(t, w, st.guard)
            if r.status != "ok":
                # the other direction, or one of them depending on the order of the limits
                swap = subst(w, {lo: hi, hi: lo})
                r2 = compare(t, swap, st.guard)
                c = mk("cmp", "<", hi, lo)
                if r2.status == "ok" or any(compare(t, gamma(x, swap, w), st.guard).status == "ok" for x in (c, mk("not", c), mk("cmp", "<=", hi, lo), mk("cmp", "<", lo, hi))):
                    r = r2
                    r.status = "ok"
            if r.status == "ok":
                cx.ok(rule)
            elif r.status == "bad":
                cx.bad(rule, f"{name} is {show(v, 6)[:300]}: between other limits than {lo.a[0]} and {hi.a[0]}", pos)
            else:
                cx.und(rule, f"{name}: {r.why}")
    cx.drive("limits that are not positive", REFUSED)
