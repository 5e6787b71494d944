"""C01: only improving moves change the fit, and they change all of it together."""
from .common import MODEL, SETUP, STUBS, hidden


def driver(step):
    i = step % 3
    return SETUP + MODEL + f'''
step = {step}
x0 = SA_SYM("x0", "array"); gof = SA_SYM("gof", "num"); m0 = SA_SYM("m0", "array")
c._opt.step = step
c._opt.modelI = m0
c._opt.gof = gof
c._opt.x0 = x0
for k in range(3):
    c._model.volumes[k] = SA_SYM("v" + str(k), "num")
    c._model.parameterSet.loc[k] = {{"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")}}
old = dict(c._model.parameterSet.loc[{i}].to_dict())
c.iterate()
new = dict(c._model.pickParameters)
Iold, Vold = c._model.calcModelIV(old)
Inew, Vnew = c._model.calcModelIV(new)
mT = SA_SYM("m0", "array") - Iold + Inew
xT, gT = c._OSB.match(mT, SA_SYM("x0", "array"))
better = gT < SA_SYM("gof", "num")
SA_EQ("intensity", c._opt.modelI, mT if better else SA_SYM("m0", "array"))
SA_EQ("goodness of fit", c._opt.gof, gT if better else SA_SYM("gof", "num"))
SA_EQ("scaling and background", c._opt.x0, xT if better else SA_SYM("x0", "array"))
for k in range(3):
    if k == {i}:
        SA_EQ("volume of the contribution", c._model.volumes[k], Vnew if better else SA_SYM("v" + str(k), "num"))
        SA_EQ("radius of the contribution", c._model.parameterSet.loc[k, "radius"], new["radius"] if better else SA_SYM("r" + str(k), "num"))
        SA_EQ("length of the contribution", c._model.parameterSet.loc[k, "length"], new["length"] if better else SA_SYM("l" + str(k), "num"))
    else:
        SA_EQ("volume of the others", c._model.volumes[k], SA_SYM("v" + str(k), "num"))
        SA_EQ("radius of the others", c._model.parameterSet.loc[k, "radius"], SA_SYM("r" + str(k), "num"))
        SA_EQ("length of the others", c._model.parameterSet.loc[k, "length"], SA_SYM("l" + str(k), "num"))
'''


SEQUENCE = SETUP + MODEL.replace("nContrib=3", "nContrib=NC") + '''
m, x, g = c._opt.modelI + 0, c._opt.x0, c._opt.gof
P = [dict(c._model.parameterSet.loc[k].to_dict()) for k in range(NC)]
V = [c._model.volumes[k] for k in range(NC)]
for n in range(N):
    i = n % NC
    c.iterate()
    new = dict(c._model.pickParameters)
    Iold, Vold = c._model.calcModelIV(P[i])
    Inew, Vnew = c._model.calcModelIV(new)
    mT = m - Iold + Inew
    xT, gT = c._OSB.match(mT, x)
    better = gT < g
    m = mT if better else m
    x = xT if better else x
    g = gT if better else g
    V[i] = Vnew if better else V[i]
    P[i] = {"radius": new["radius"] if better else P[i]["radius"], "length": new["length"] if better else P[i]["length"]}
    SA_EQ("intensity after several moves", c._opt.modelI, m)
    SA_EQ("goodness of fit after several moves", c._opt.gof, g)
    SA_EQ("scaling and background after several moves", c._opt.x0, x)
    for k in range(NC):
        SA_EQ("volumes after several moves", c._model.volumes[k], V[k])
        SA_EQ("parameters after several moves", c._model.parameterSet.loc[k, "radius"], P[k]["radius"])
        SA_EQ("parameters after several moves", c._model.parameterSet.loc[k, "length"], P[k]["length"])
'''


def check(cx):
    for nc, n in ((1, 3), (2, 3)):
        cx.drive(f"{n} moves of {nc} contributions", SEQUENCE.replace("NC", str(nc)).replace("range(N)", f"range({n})"), STUBS, completes=True)
    with cx.soft(hidden(cx)):
        for s in (4, 2):
            cx.drive(f"iterate at step {s}", driver(s), STUBS, completes=True)
