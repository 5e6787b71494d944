"""C37: the reports and the result card show the results of the analysis."""
import re

from ..decide import compare
from ..terms import *  # noqa: F403
from ..terms import T, mk, show
from .c27 import RUN
from .common import STUBS

FIT = ("scaling", "background", "gof", "accepted", "step")
MODES = ("totalValue", "mean", "variance", "skew", "kurtosis")
PLOT = '''
from mcsas3.mc_plot import McPlot
OUT = SA_PATH("card.pdf")
card = McPlot()
SA_MARK("card")
card.resultCard(a, OUT)
SA_MARK("report")
SA_OBS("report of the run", a.debugRunReport())
card._analysis = a
SA_OBS("report of the run of the card", card.getRunReport())
for j in range(len(hr)):
    SA_OBS("report of histogram " + str(j), a.debugReport(j))
    SA_OBS("report of histogram " + str(j) + " of the card", card.getHistReport(j))
    for k in ("xMean", "yMean", "xWidth", "yStd"):
        SA_OBS("want " + k + str(j), a._averagedHistograms[j][k].values)
    for m in ("totalValue", "mean", "variance", "skew", "kurtosis"):
        SA_OBS("want " + m + str(j), [a._averagedModes.loc[j, (m, "valMean")], a._averagedModes.loc[j, (m, "valStd")]])
for k in ("scaling", "background", "gof", "accepted", "step"):
    SA_OBS("want " + k, [a.optParAvg.loc[k, "valMean"], a.optParAvg.loc[k, "valStd"]])
SA_OBS("want Q", md["Q"][0])
SA_OBS("want I", md["I"])
SA_OBS("want ISigma", md["ISigma"])
SA_OBS("want fit", a.modelIAvg["modelIMean"].values)
SA_OBS("want file", OUT)
'''
ONE = '''    dict(parameter="length", nBin=2, binScale="linear", presetRangeMin=P0, presetRangeMax=P1, binWeighting="vol", autoRange=True)])
'''
HISTS = [("radius", "log", ('P0', 'P1')), ("length", "linear", ('SA_SYM("lo2", "float")', 'SA_SYM("hi2", "float")'))]
ORDER = {
    "bar": ("x", "height", "width", "bottom"),
    "errorbar": ("x", "y", "yerr", "xerr"),
    "plot": ("x", "y", "fmt"),
    "text": ("x", "y", "s"),
    "set_xscale": ("value",),
    "set_xlabel": ("xlabel",),
    "savefig": ("fname",),
}


def named(e):
    """the arguments of a drawing event by name"""
    names = ORDER.get(e.fn, ())
    return {**dict(zip(names, e.args)), **e.kw}


def lines(t):
    """the lines of a text, each with the conditions under which it is there: (conditions, text before values, values);
    None: not understood"""
    done, start = [], [((), "", ())]

    def add(opened, t):
        if t.op == "const" and isinstance(cval(t), str):
            parts = cval(t).split("\n")
            for i, p in enumerate(parts):
                if i:
                    done.extend(opened)
                    opened = list(start)
                opened = [(g, s + p if not v else s, (*v, p) if v else v) for g, s, v in opened]
            return opened
        if t.op == "strcat":
            for x in t.a:
                opened = add(opened, x)
            return opened
        if t.op == "gamma":
            c, a, b = t.a
            out = add([((*g, c), s, v) for g, s, v in opened], a) + add([((*g, neg(c)), s, v) for g, s, v in opened], b)
            return list(start) if all(not s and not v for _, s, v in out) else out
        if t.op in ("item", "iloc") and t.a[0].op == "call" and str(t.a[0].a[0]).endswith("split"):
            return add(opened, t.a[0].a[1])  # the first line taken off
        if t.op == "call" and str(t.a[0]).endswith((".strip", ".rstrip", ".lstrip")):
            return add(opened, t.a[1])
        if t.op == "call" and t.a[0] == "format":
            return [(g, s, (*v, t.a[1])) for g, s, v in opened]
        return [(g, s, (*v, t)) for g, s, v in opened]

    done.extend(add(list(start), t))
    return done


def values(v):
    return [x for x in v if isinstance(x, T)]


class Card:
    def __init__(self, cx, e, hists):
        self.cx, self.e, self.hists = cx, e, hists
        self.obs = {k: v[0] for k, v in e.obs.items()}
        self.guard = tuple(e.st.guard)

    def same(self, rule, got, want, guard=(), key=""):
        r = compare(got, want, (*self.guard, *guard))
        text = f"shows {show(r.got, 4)[:150]} instead of {show(r.want, 4)[:150]}" if r.status != "ok" else ""
        self.cx.add(rule, r.status, text, self.cx.position(self.e, got, None, None), key=key or rule)
        return r.status == "ok"

    def report(self, name, text, fields, suffix=""):
        ls = lines(text)
        clear = not any(x.op == "call" and x.a[0] not in ("mean", "std", "minimize") and str(x.a[0]).startswith((".", "str.")) for _, _, v in ls for x in values(v))
        for f in fields:
            mine = [x for x in ls if re.match(rf"\W*{f}\b", x[1]) and values(x[2])]
            rule = f"{name} gives the mean and deviation of each value under its name"
            if not mine:
                self.cx.add(rule, "bad" if clear and any(values(x[2]) for x in ls) else "undecided", f"there is no line for {f}", key=f"{name}:{f}")
                continue
            want = self.obs["want " + f + suffix].a
            for g, _, v in mine:
                v = values(v)
                self.same(rule, v[0], want[0], g, f"{name}:{f}")
                if len(v) > 1:
                    self.same(rule, v[1], want[1], g, f"{name}:{f}")
                else:
                    self.cx.add(rule, "bad", f"there is no deviation of {f}", key=f"{name}:{f}")
                if len(v) > 2:
                    self.same(f"{name} gives the relative deviation in percent", v[2], mk("bin", "*", mk("bin", "/", want[1], want[0]), const(100)), g, f"{name}:{f}")
        return ls

    def ranges(self, name, text, j):
        """the head of the report of a histogram: lower end, parameter, upper end"""
        par, lo, hi = self.hists[j][0], self.obs[f"want lower end{j}"], self.obs[f"want upper end{j}"]
        for g, s, v in lines(text):
            if "≤" in s + "".join(x for x in v if isinstance(x, str)):
                if len(values(v)) == 2:
                    self.same(f"{name} tells its range", values(v)[0], lo, g, f"{name}:range")
                    self.same(f"{name} tells its range", values(v)[1], hi, g, f"{name}:range")
                    words = s + "".join(x for x in v if isinstance(x, str))
                    self.cx.require(f"{name} tells its parameter", True if par in words else None if not any(h[0] in words for h in HISTS) else False, f"another parameter than {par}: {words}", key=f"{name}:parameter")
                else:
                    self.cx.und(f"{name} tells its range", "another layout")

    def check(self):
        cx, n = self.cx, len(self.hists)
        self.report("the report of the run", self.obs["report of the run"], FIT)
        self.report("the report of the run", self.obs["report of the run of the card"], FIT)
        for j in range(n):
            for k in ("", " of the card"):
                t = self.obs[f"report of histogram {j}{k}"]
                self.report("the report of a histogram", t, MODES, str(j))
                self.ranges("the report of a histogram", t, j)
        self.card()

    def card(self):
        cx, n = self.cx, len(self.hists)
        marks = [i for i, x in enumerate(self.e.events) if x.kind == "mark"]
        evs = [x for x in self.e.events[marks[-2]:marks[-1]] if x.kind == "draw on"]
        panel, drawn = None, {}
        for x in evs:
            if x.fn in ("sca", "axes") and x.obj is None and x.args:
                panel = x.args[0]
                continue
            on, fn = (panel, x.fn) if x.obj is None else (x.obj, x.fn)
            if x.obj is None and fn in ("xscale", "xlabel", "ylabel", "yscale"):
                fn = "set_" + fn
            x.d["fn"] = fn
            drawn.setdefault(fn, []).append((on, named(x), x))
        known = lambda p: p is not None and p.op == "item" and p.a[0].op == "sym" and p.a[0].a[0] == "panels" and p.a[1].op in ("tuple", "tup") and all(cint(i) for i in p.a[1].a)
        column = lambda p: cval(p.a[1].a[1])
        bars = drawn.get("bar", [])
        rule = "the card shows each averaged histogram"
        if len(bars) != n:
            cx.und(rule, f"{len(bars)} bar plots for {n} histograms") if bars or "hist" in drawn or "stairs" in drawn or "step" in drawn else cx.bad(rule, "no histogram is drawn", key=rule)
            return
        place = {}
        for j, (on, a, x) in enumerate(bars):
            for arg, k in (("x", "xMean"), ("height", "yMean"), ("width", "xWidth"), ("yerr", "yStd")):
                if arg in a:
                    self.same(rule, a[arg], self.obs[f"want {k}{j}"], x.guard, f"card:{k}")
                elif not ({"kwargs", "**"} & set(a)):
                    cx.add(rule, "bad" if arg in ("yerr", "width") else "undecided", f"drawn without {k}", x.pos, key=f"card:{k}")
            place[j] = on
        for j, on in place.items():
            for fn, arg, want, what in (("set_xscale", "value", self.hists[j][1], "scale"), ("set_xlabel", "xlabel", self.hists[j][0], "parameter")):
                mine = [a for p, a, x in drawn.get(fn, []) if p is on and arg in a]
                rule = f"the card shows each histogram with its {what}"
                if mine:
                    self.same(rule, mine[-1][arg], const(want), (), f"card:{what}")
                else:
                    cx.und(rule, "not set on this panel")
        if len(set(place.values())) == n:
            cx.ok("each histogram has a panel of its own")
        else:
            cx.require("each histogram has a panel of its own", False if all(known(p) for p in place.values()) else None, "two histograms share a panel", key="card:panels")
        texts = [(p, a["s"]) for p, a, x in drawn.get("text", []) if "s" in a]
        seen = set()
        for p, t in texts:
            js = [j for j, on in place.items() if known(on) and known(p) and column(on) == column(p)]
            if js:
                seen.add(js[0])
                self.report("the report over a histogram", t, MODES, str(js[0]))
                self.ranges("the report over a histogram", t, js[0])
            elif known(p) and all(known(on) for on in place.values()):
                seen.add("run")
                self.report("the report over the fit", t, FIT)
        for j in (*range(n), "run"):
            if j not in seen:
                cx.und("each panel has its report", f"{j}: no text found")
        rule = "the card shows the data that was fitted"
        for on, a, x in drawn.get("errorbar", []) or [(None, None, None)]:
            if a is None:
                cx.und(rule, "no data with error bars")
                break
            for arg, k in (("x", "Q"), ("y", "I"), ("yerr", "ISigma")):
                if arg in a:
                    self.same(rule, a[arg], self.obs[f"want {k}"], x.guard, f"card:{k}")
        fits = [(on, a, x) for on, a, x in drawn.get("plot", []) if "x" in a and "y" in a]
        rule = "the card shows the mean fit"
        if len(fits) == 1:
            on, a, x = fits[0]
            self.same(rule, a["x"], self.obs["want Q"], x.guard, "card:fit")
            self.same(rule, a["y"], self.obs["want fit"], x.guard, "card:fit")
            data = [p for p, _, _ in drawn.get("errorbar", [])]
            if data and known(on) and known(data[0]):
                cx.require("the fit is shown with the data", on is data[0], "it is drawn in another panel", x.pos, key="card:together")
        else:
            cx.und(rule, f"{len(fits)} curves")
        rule = "the card is written to the file asked for"
        saved = drawn.get("savefig", [])
        if saved:
            got = saved[-1][1].get("fname", NONE)
            if got.op == "call" and got.a[0] == "str" or got.op == "conv" and got.a[0] == "str":
                got = got.a[1]
            if cstr(got) and cval(got) == "card.pdf":
                cx.ok(rule)
            elif has_op(got, "with_suffix", "with_name", "parent") or got.op == "call" and str(got.a[0]).lstrip(".") in ("with_suffix", "with_name"):
                cx.bad(rule, f"it is written to {show(got, 4)}", saved[-1][2].pos, key="card:file")
            else:
                self.same(rule, got, self.obs["want file"], saved[-1][2].guard, "card:file")
        else:
            cx.bad(rule, "it is not written", key="card:file")


def check(cx):
    for reps, hists in (((0, 2), HISTS), ((3, 11, 4), HISTS[1:])):
        src = RUN if len(hists) == 2 else RUN[:RUN.index("    dict(parameter=\"radius\"")] + RUN[RUN.index("    dict(parameter=\"length\""):]
        src += PLOT
        for j, h in enumerate(hists):
            src += f'SA_OBS("want lower end{j}", {h[2][0]})\nSA_OBS("want upper end{j}", {h[2][1]})\n'
        name = f"{len(hists)} histograms of repetitions {reps}"
        e = cx.drive(name, src.replace("REPS", str(list(reps))).replace("INDEX", "1"), STUBS)
        if e is None:
            continue
        if e.st is None or "want file" not in e.obs:
            cx.und(name, f"the driver does not get to its end: {[u[1:3] for u in e.uncaught[-1:]]}")
            continue
        Card(cx, e, hists).check()


HOW = "an analysis of unknown repetitions is reported and drawn; what each line and each panel shows is compared with the averages of that name and histogram"
