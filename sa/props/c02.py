"""C02: the optimisation steps through all contributions and stops at its limits."""
from .common import MODEL, SETUP, STUBS

LOOP = SETUP + '''
class Turns(McCore):
    turns = 0
    def iterate(self):
        if self.turns == 2:
            raise StopIteration
        self.turns = self.turns + 1
        n = str(self.turns)
        self._opt.accepted = SA_SYM("acc" + n, "int")
        self._opt.step = SA_SYM("step" + n, "int")
        self._opt.gof = SA_SYM("gof" + n, "num")
''' + MODEL.replace("McCore(", "Turns(") + '''
c._opt.accepted = SA_SYM("acc0", "int")
c._opt.step = SA_SYM("step0", "int")
c._opt.gof = SA_SYM("gof0", "num")
def go(n):
    return (SA_SYM("acc" + n, "int") < SA_SYM("maxAccept", "int")) and (SA_SYM("step" + n, "int") < SA_SYM("maxIter", "int")) and (SA_SYM("gof" + n, "num") > SA_SYM("convCrit", "float"))
third = False
try:
    c.optimize()
except StopIteration:
    third = True
t = 0 if not go("0") else (1 if not go("1") else 2)
SA_EQ("the loop goes on exactly below all three limits", c.turns, t)
SA_EQ("the loop goes on exactly below all three limits: third turn", third, go("0") and go("1") and go("2"))
'''


def turns(step):
    return SETUP + MODEL + f'''
c._opt.step = {step}
c._opt.gof = SA_SYM("gof", "num"); c._opt.accepted = SA_SYM("acc", "int")
c._opt.modelI = SA_SYM("m0", "array"); c._opt.x0 = SA_SYM("x0", "array")
for k in range(3):
    c._model.parameterSet.loc[k] = {{"radius": SA_SYM("r" + str(k), "num"), "length": SA_SYM("l" + str(k), "num")}}
c.iterate()
better = c._opt.gof < SA_SYM("gof", "num")
new = dict(c._model.pickParameters)
mT = SA_SYM("m0", "array") - c._model.calcModelIV({{"radius": SA_SYM("r{step % 3}", "num"), "length": SA_SYM("l{step % 3}", "num")}})[0] + c._model.calcModelIV(new)[0]
better = c._OSB.match(mT, SA_SYM("x0", "array"))[1] < SA_SYM("gof", "num")
SA_EQ("one step per trial", c._opt.step, {step} + 1)
SA_EQ("one accepted move per kept trial", c._opt.accepted, SA_SYM("acc", "int") + (1 if better else 0))
for k in range(3):
    SA_EQ("contributions take turns", c._model.parameterSet.loc[k, "radius"], new["radius"] if better and k == {step % 3} else SA_SYM("r" + str(k), "num"))
'''


START = SETUP + MODEL + '''
SA_EQ("counters start at zero", c._opt.step, 0)
SA_EQ("counters start at zero", c._opt.accepted, 0)
SA_EQ("limits as configured", c._opt.maxIter, SA_SYM("maxIter", "int"))
SA_EQ("limits as configured", c._opt.maxAccept, SA_SYM("maxAccept", "int"))
SA_EQ("limits as configured", c._opt.convCrit, SA_SYM("convCrit", "float"))
'''


def check(cx):
    def peel(e):
        e.peel = 6

    cx.drive("optimize", LOOP, STUBS, setup=peel)
    for s in (0, 1, 2, 3, 7, 123456791) if cx.tier == "quick" else (*range(13), 123456791):
        cx.drive(f"iterate at step {s}", turns(s), STUBS)
    cx.drive("start", START, STUBS)
