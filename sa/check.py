"""One run of one property: drivers are analysed, claims decided, findings collected, evidence written."""

import ast
import os
import re
import sys
import time
import traceback
from contextlib import contextmanager

from .decide import cases, compare, compare_cases
from .engine import AnchorLost, Engine
from .pointwise import Points, Unclear, positive
from .terms import *  # noqa: F403
from .terms import T, mk

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class Ob:
    def __init__(self, rule, status, text="", pos=None, key=""):
        self.rule, self.status, self.text, self.pos, self.key = rule, status, text, pos, key


class Ctx:
    def __init__(self, pid, tier="quick", repo="/repo", special=None):
        self.special, self.symkinds = special or {}, {}
        self.pid, self.tier, self.repo = pid, tier, repo
        self.srcdir = os.path.join(repo, "src")
        self.obs = []
        self.engines = []
        self.t0 = time.time()
        self.scanned = []
        self.analysed = 0
        self.lost = []
        self.paths = {}
        self.softly = None

    def sym(self, name, kind="any"):
        """the symbol of a driver, or the special value that it has in this case"""
        how = self.special.get(name)
        if how is None or how[0] == "elems":
            return sym(name, kind)
        return const(how[1]) if how[0] == "const" else sym(how[1], kind)

    # -- obligations -------------------------------------------------------------------------------

    def add(self, rule, status, text="", pos=None, key=""):
        if status == "bad" and self.softly:
            status, text = "undecided", f"{self.softly} | {text}"
        self.obs.append(Ob(rule, status, text, pos, key))

    @contextmanager
    def soft(self, why):
        """violations of drivers that rest on an assumption, where it does not hold, are left undecided"""
        old, self.softly = self.softly, why
        try:
            yield
        finally:
            self.softly = old

    def ok(self, rule, text="", pos=None):
        self.add(rule, "ok", text, pos)

    def bad(self, rule, text, pos=None, key=""):
        self.add(rule, "bad", text, pos, key)

    def und(self, rule, text, pos=None):
        self.add(rule, "undecided", text, pos)

    def require(self, rule, cond, text, pos=None, key=""):
        """cond: True, False or None (not decidable)"""
        self.add(rule, {True: "ok", False: "bad", None: "undecided"}[cond], text, pos, key)

    # -- drivers -------------------------------------------------------------------------------------

    def drive(self, name, src, stubs=None, hook=None, completes=None, setup=None):
        """analyse the driver `src`; its SA_ claims become obligations.  completes: rule under which a
        driver that can only end with an exception of the package is a violation"""
        try:
            e = Engine(self.srcdir)
            e.deadline = time.time() + (40 if self.tier == "quick" else 300)
            for q, f in (stubs or {}).items():
                if q in e.funcs:
                    e.stubs[q] = f
            if setup:
                setup(e)
            e.special, e.symkinds = self.special, self.symkinds
            e.run(src, "driver")
        except RecursionError:
            self.lost.append(f"{name}: recursion")
            self.und(name, "the analysis of this driver did not end")
            return None
        except Exception as x:  # what the engine cannot digest is left undecided, never an alarm
            self.lost.append(f"{name}: {type(x).__name__} {x}")
            self.und(name, "not analysable: " + traceback.format_exc(limit=int(os.environ.get('SA_TRACE', '-3')))[-400 * (1 + 9 * ('SA_TRACE' in os.environ)):])
            return None
        e.name, e.src = name, src
        self.engines.append(e)
        want = re.findall(r"SA_(?:EQ|TRUE|SAME|OTHER|POINTS)\(f?\"([^\"]*)\"", src)
        hit = set()
        for what, rule, a, b, guard, nu, raw, cs in e.claims:
            hit.add(rule)
            self.decide(e, what, rule, a, b, guard, raw, cs)
        for w in want:
            if w not in hit and "{" not in w and not w.endswith(" "):
                self.unreached(e, w, completes)
        return e

    def unreached(self, e, rule, completes):
        last = e.uncaught[-1] if e.uncaught else None
        why = f"{last[1]} at {fmtpos(last[2])}" if last else "no path"
        if completes and last and e.st is None and not e.unmodelled and (last[2][0].startswith("src/") or completes == "driver"):
            self.bad(rule, f"cannot be reached: {why}", last[2])
        else:
            self.und(rule, f"the claim was not reached ({why})")

    def decide(self, e, what, rule, a, b, guard, raw=None, cs=()):
        if what == "never":
            from .decide import feasible, guardpaths

            ps, _ = guardpaths(guard)
            if any(feasible(p) for p in ps):
                self.bad(rule, "a path leads here: " + fmtpath(ps[0]), e.curpos)
            else:
                self.ok(rule)
            return
        if what == "points":
            pts = Points()
            try:
                a, b = pts.point(a), pts.point(b)
            except Unclear as x:
                self.und(rule, f"not elementwise: {x}")
                return
            guard = [*guard, *positive(pts)]
        try:
            r = compare_cases(a, b, guard, self.casepaths(cs)) if cs else compare(a, b, guard)
        except RecursionError:
            self.und(rule, "too deep")
            return
        if r.status == "ok":
            self.ok(rule)
        elif r.status == "bad":
            pos = self.position(e, a, r.got, raw)
            self.bad(rule, f"is {show(r.got, 5)[:400]} but has to be {show(r.want, 5)[:400]}" + (f" where {fmtpath(r.path)}" if r.path else ""), pos)
        else:
            self.und(rule, r.why + f" | got {show(r.got, 4)[:160]} want {show(r.want, 4)[:160]}" if isinstance(r.got, T) else r.why)

    def casepaths(self, cs):
        if cs not in self.paths:
            self.paths[cs] = cases(cs)
        return self.paths[cs]

    def position(self, e, a, got, raw):
        for t in (a, got):
            if isinstance(t, T):
                if t in e.prov:
                    return e.prov[t]
                best = None
                for s in walk(t):
                    p = e.prov.get(s)
                    if p and str(p[0]).startswith("src/"):
                        best = p if best is None else best
                if best:
                    return best
        if isinstance(raw, T) and ("C", raw) in e.wpos:
            return e.wpos[("C", raw)]
        return None

    # -- the end -------------------------------------------------------------------------------------

    def summary(self):
        c = {"ok": 0, "bad": 0, "undecided": 0}
        for o in self.obs:
            c[o.status] += 1
        funcs = set()
        calls = stmts = 0
        for e in self.engines:
            funcs |= {q for q in e.called if not q.startswith("driver")}
            calls += len(e.callsites)
            stmts += e.stmts
        return {
            "obligations": len(self.obs), "held": c["ok"], "violated": c["bad"], "undecided": c["undecided"],
            "rules": sorted({o.rule for o in self.obs}), "drivers": [e.name for e in self.engines],
            "functions_analysed": sorted(funcs), "call_sites": calls, "statements_interpreted": stmts,
            "unmodelled_operations": sorted({u for e in self.engines for u in e.unmodelled})[:20],
            "constructs_scanned": self.scanned,
            "undecided_notes": [f"{o.rule}: {o.text}"[:300] for o in self.obs if o.status == "undecided"][:30],
            "not_analysed": self.lost,
        }


def fmtpos(p):
    if not p:
        return "?"
    return f"{p[0]}:{p[1]}" + (f" ({p[2]})" if len(p) > 2 and p[2] else "")


def fmtpath(p):
    return " and ".join(("" if v else "not ") + show(l, 4)[:100] for l, v in [x for x in p if x[0].op not in ("qall",) and ".shape" not in show(x[0], 3)][:8])
