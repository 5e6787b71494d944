"""C03: the acceptance history is exact, and restoring leaves it unchanged."""
from .common import MODEL, SETUP, STUBS

START = SETUP + MODEL + '''
SA_EQ("a new history holds step 0", c._opt.acceptedSteps, [0])
SA_EQ("a new history holds the initial goodness of fit", c._opt.acceptedGofs, [c._opt.gof])
'''

STEP = SETUP + MODEL + '''
c._opt.step = 5
c._opt.gof = SA_SYM("gof", "num"); c._opt.accepted = SA_SYM("acc", "int")
c._opt.modelI = SA_SYM("m0", "array"); c._opt.x0 = SA_SYM("x0", "array")
c._opt.acceptedSteps = [0, SA_SYM("s1", "int")]
c._opt.acceptedGofs = [SA_SYM("g0", "num"), SA_SYM("g1", "num")]
for k in range(3):
    c._model.parameterSet.loc[k] = {"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")}
c.iterate()
new = dict(c._model.pickParameters)
mT = SA_SYM("m0", "array") - c._model.calcModelIV({"radius": SA_SYM("r2", "num"), "length": SA_SYM("l2", "num")})[0] + c._model.calcModelIV(new)[0]
gT = c._OSB.match(mT, SA_SYM("x0", "array"))[1]
better = gT < SA_SYM("gof", "num")
SA_EQ("each accepted move adds its step", c._opt.acceptedSteps, [0, SA_SYM("s1", "int")] + ([5] if better else []))
SA_EQ("each accepted move adds its goodness of fit", c._opt.acceptedGofs, [SA_SYM("g0", "num"), SA_SYM("g1", "num")] + ([gT] if better else []))
'''

RESTORE = SETUP + MODEL + '''
c._opt.acceptedSteps = SA_SYM("hs", "array")
c._opt.acceptedGofs = SA_SYM("hg", "array")
f = SA_PATH("f.nxs")
SA_FRESH(f)
c.store(f)
d = McCore(md, loadFromFile=f, loadFromRepetition=2)
SA_EQ("restored steps", d._opt.acceptedSteps, SA_SYM("hs", "array"))
SA_EQ("restored goodness of fit history", d._opt.acceptedGofs, SA_SYM("hg", "array"))
'''

# a history with repeated values
EQUAL = SETUP + MODEL + '''
steps = [0, SA_SYM("s1", "int"), SA_SYM("s2", "int"), SA_SYM("s2", "int")]
gofs = [SA_SYM("g0", "num"), SA_SYM("g1", "num"), SA_SYM("g1", "num"), SA_SYM("g2", "num")]
c._opt.acceptedSteps = list(steps)
c._opt.acceptedGofs = list(gofs)
f = SA_PATH("f.nxs")
SA_FRESH(f)
c.store(f)
d = McCore(md, loadFromFile=f, loadFromRepetition=2)
SA_EQ("restored steps", list(d._opt.acceptedSteps), steps)
SA_EQ("restored goodness of fit history", list(d._opt.acceptedGofs), gofs)
for k in range(3):
    d._model.parameterSet.loc[k] = {"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")}
d._opt.step = SA_SYM("s2", "int")
d._model.pick()
d._opt.gof = SA_SYM("g3", "num")
d._opt.testModelI, d._opt.testModelV, d._opt.testX0 = SA_SYM("mT", "array"), SA_SYM("vT", "num"), SA_SYM("xT", "array")
d.accept()
SA_EQ("a restored history is continued", list(d._opt.acceptedSteps), steps + [SA_SYM("s2", "int")])
SA_EQ("a restored history is continued", list(d._opt.acceptedGofs), gofs + [SA_SYM("g3", "num")])
'''


def check(cx):
    cx.drive("repeated values", EQUAL, STUBS)
    cx.drive("start", START, STUBS)
    cx.drive("iterate", STEP, STUBS)
    cx.drive("restore", RESTORE, STUBS)
