#!/usr/bin/env python3
"""mkcases.py [ID...]: which special values of the symbols of each check leave it quiet and decided on
/repo; writes cases.json.  Run on the unchanged tree only."""
import importlib
import json
import os
import sys
import time
import zlib
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.check import Ctx  # noqa: E402

CASES = os.path.join(HERE, "cases.json")


def one(a):
    pid, special = a
    cx = Ctx(pid, "quick", "/repo", special)
    t = time.time()
    try:
        importlib.import_module(f"sa.props.{pid.lower()}").check(cx)
    except Exception as x:
        return pid, special, {"bad": 1, "why": repr(x)[:100]}, 0, {}
    n = {k: sum(o.status == k for o in cx.obs) for k in ("ok", "bad", "undecided")}
    return pid, special, n, time.time() - t, dict(cx.symkinds)


def candidates(kinds):
    out = []
    kinds = {n: k for n, k in kinds.items() if isinstance(n, str) and not n.startswith("sa:")}
    num = [n for n, k in kinds.items() if k in ("float", "int", "num")]
    for n in num:
        k = kinds[n]
        out += [{n: ["const", 0 if k == "int" else 0.0]}, {n: ["const", 1 if k == "int" else 1.0]}, {n: ["const", -2 if k == "int" else -1.5]}, {n: ["const", 7 if k == "int" else 250.5]}]
    ints = [n for n in num if kinds[n] == "int"]
    for n in ints:
        out += [{n: ["const", 12345678]}, {**{m: ["const", 7] for m in ints}, n: ["const", 12345678]}]
    for n in num:
        if kinds[n] != "int":
            out += [{n: ["const", 0.0312345678]}]
    for k in ("float", "int", "num", "str"):
        xs = [n for n in kinds if kinds[n] == k]
        out += [{b: ["as", a]} for a, b in zip(xs, xs[1:])] + [{b: ["as", a]} for a, b in zip(xs, xs[2:])]
    for n, k in kinds.items():
        if k == "str":
            out += [{n: ["const", ""]}, {n: ["const", "Ünité µ"]}, {n: ["const", "x y/z.1"]}]
        if k == "bool":
            out += [{n: ["const", True]}, {n: ["const", False]}]
    arr = [n for n, k in kinds.items() if k == "array"]
    if arr:
        out += [{n: ["elems", 3] for n in arr}, {n: ["elems", 1] for n in arr}]
        out += [{b: ["as", a]} for a, b in zip(arr, arr[1:])]
    return out


def main():
    ids = sys.argv[1:] or sorted({f[:3].upper() for f in os.listdir(os.path.join(HERE, "sa/props")) if f[0] == "c" and f[1:3].isdigit()})
    old = json.load(open(CASES)) if os.path.exists(CASES) else {}
    with Pool(8, maxtasksperchild=20) as p:
        base = p.map(one, [(i, {}) for i in ids], 1)
        more = "ADD" in os.environ  # keep the cases there are, try only others
        budget = 150 if more else 500
        jobs = [(i, s) for i, _, n, t, kinds in base for s in sorted([s for s in candidates(kinds) if not more or s not in old.get(i, {}).get("cases", [])], key=lambda s: zlib.crc32(json.dumps(s).encode()))[: budget if t < 1 else int(budget / t)]]
        print(len(jobs), "cases", flush=True)
        okn = {i: n["ok"] for i, _, n, t, k in base}
        res = {i: [] for i in ids}
        times = {i: 0 for i in ids}
        why = {}
        for pid, s, n, t, _ in p.imap_unordered(one, jobs, 4):
            if n["bad"] == 0 and n.get("undecided", 1) == 0 and n["ok"] >= 0.4 * okn[pid]:
                res[pid].append(s)
                times[pid] += t
            else:
                why.setdefault(pid, []).append((s, n))
    for i in ids:
        each = times[i] / max(1, len(res[i]))
        cs = sorted(res[i] + (old.get(i, {}).get("cases", []) if more else []), key=lambda s: zlib.crc32(json.dumps(s).encode()))
        old[i] = {"quick": len(cs) if len(cs) * each < 60 else int(60 / each), "cases": cs}
        print(i, len(res[i]), "cases quiet", len(why.get(i, [])), "not;", f"{times[i]:.0f} s")
    with open(CASES, "w") as f:
        f.write("{\n" + ",\n".join(f' "{i}": {{"quick": {old[i]["quick"]}, "cases": [\n' + ",\n".join("  " + json.dumps(s, ensure_ascii=False) for s in old[i]["cases"]) + "\n ]}" for i in sorted(old)) + "\n}\n")
    if "WHY" in os.environ:
        for i, l in why.items():
            for s, n in l:
                print(i, s, n)


main()
