"""C07: repetitions are independent of each other."""
import re

from ..decide import differ
from ..norm import norm
from ..terms import *  # noqa: F403
from ..terms import mk
from .c05 import drawid, draws
from .common import HAT, HATARGS, STUBS

RUN = HAT + f'''
h = McHat({HATARGS}, nCores=%s)
h.run(md, f)
'''
TWICE = HAT + f'''
h = McHat({HATARGS}, nCores=%s)
h.runOnce(md, f, 0)
h.runOnce(md, f, 1)
'''

AGAIN = HAT.replace("str(self._opt.repetition)", "str(NTH[-1])").replace("def anyoutcome(self):\n", "NTH = []\ndef anyoutcome(self):\n    NTH.append(len(NTH))\n") + f'''
h = McHat({HATARGS}, nCores=1)
'''


def check(cx):
    again = [(f"repetitions {seq} one after the other", AGAIN + "".join(f"h.runOnce(md, f, {i})\n" for i in seq)) for seq in ((0, 0), (1, 1), (0, 1, 0), (2, 0))]
    again += [("two runs", AGAIN + "h.run(md, f)\nh.run(md, f)\n"), ("one repetition after a run", AGAIN + "h.run(md, f)\nh.runOnce(md, f, 0)\n")]
    for name, src in again + [("one process", RUN % 1), ("worker processes", RUN % 4), ("single repetitions one after the other", TWICE % 1)]:
        e = cx.drive(name, src, STUBS)
        if e is None:
            continue
        starts = {}
        for k, (v, raw, st) in e.obs.items():
            m = re.match(r"start of repetition (\d+): (.*)", k)
            if m:
                starts.setdefault(int(m.group(1)), {})[m.group(2)] = (v, raw)
        if len(starts) < 2:
            cx.und("repetitions", f"{name}: {len(starts)} repetitions seen")
            continue
        ids = {}
        seeds = {x.ref: x.seed for x in e.events if x.kind == "rng"}
        for rep, d in sorted(starts.items()):
            for what, (v, raw) in d.items():
                pos = cx.position(e, v, None, raw)
                other = sorted({re.match(r"after repetition (\d+)", s).group(1) for s in syms(v) if str(s).startswith("after repetition")})
                cx.require("nothing is taken over from another repetition", not other, f"{name}: {what} of repetition {rep} starts as {show(v, 4)[:200]}, a result of repetition {', '.join(other)}", pos)
                if what in ("steps", "accepted moves"):
                    n = norm(v)
                    cx.require("counters start at zero", True if n is const(0) else (False if differ(n, const(0)) else None), f"{name}: {what} of repetition {rep} start as {show(v, 4)[:100]}", pos)
                if " of contribution " in what:
                    ds = draws(v)
                    if not ds:
                        cx.require("a newly drawn parameter set", None if has_op(v, "unk", "loopval", "mu") else False, f"{name}: {what} of repetition {rep} is {show(v, 4)[:200]}, not drawn", pos)
                        continue
                    for x in ds:
                        i = drawid(v, x)
                        c = seeds.get(x.a[1], x.a[1])
                        for (rep2, what2), (j, c2) in ids.items():
                            if rep2 == rep or (name, src) in again:
                                continue
                            if i == j:
                                cx.bad("a newly drawn parameter set", f"{name}: {what} of repetition {rep} is the same random number as {what2} of repetition {rep2}", e.prov.get(x) or pos)
                            elif i[2] is not j[2]:
                                s1, s2 = norm(c), norm(c2)
                                if s1 is s2:
                                    cx.bad("repetitions use different random sequences", f"{name}: the generators of repetitions {rep2} and {rep} are both seeded with {show(s1, 4)[:100]}", e.prov.get(x) or pos)
                                elif differ(s1, s2):
                                    cx.ok("repetitions use different random sequences")
                                else:
                                    cx.und("repetitions use different random sequences", f"{name}: seeds {show(s1, 4)[:100]} and {show(s2, 4)[:100]}")
                            else:
                                cx.ok("a newly drawn parameter set")
                        ids[(rep, what)] = (i, c)
