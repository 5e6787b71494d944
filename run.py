#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--repo DIR] [-v]: decide one property from the source of /repo.

exit 0: held; exit 1: a VIOLATION line; anything else: the check could not be made.
"""
import importlib
import json
import os
import sys
import time
import traceback
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.check import HERE, Ctx, fmtpos  # noqa: E402


def known(pid):
    out = []
    p = os.path.join(HERE, "KNOWN-FINDINGS.txt")
    for l in open(p) if os.path.exists(p) else ():
        l = l.strip()
        if l.startswith("finding:") and f"property={pid} " in l:
            # finding: property=ID rule="..." at=file::function what fails
            out.append(l)
    return out


def onecase(a):
    pid, tier, repo, special = a
    try:
        cx = Ctx(pid, "quick", repo, special)
        importlib.import_module(f"sa.props.{pid.lower()}").check(cx)
    except Exception:
        return special, 0, []
    return special, sum(o.status == "ok" for o in cx.obs), [(o.rule, o.text, o.pos, o.key) for o in cx.obs if o.status == "bad"]


def cases(cx, pid, tier, repo):
    """the same obligations once more with special values for the symbols of the drivers (zero, equal
    values, arrays of known length, ...): what is undecided in general can be decided there.  cases.json
    lists the special values that the drivers allow for"""
    p = os.path.join(HERE, "cases.json")
    d = json.load(open(p)).get(pid) if os.path.exists(p) else None
    if not d or any(o.status == "bad" for o in cx.obs):
        return
    todo = d["cases"] if tier == "thorough" or any(o.status == "undecided" for o in cx.obs) else d["cases"][: d["quick"]]
    end = time.time() + (700 if tier == "thorough" else 250)
    done = held = 0
    seen = set()
    with Pool(8) as pool:
        for special, ok, bad in pool.imap_unordered(onecase, [(pid, tier, repo, s) for s in todo], 1):
            done, held = done + 1, held + ok
            for rule, text, pos, key in bad:
                if rule not in seen:
                    seen.add(rule)
                    w = ", ".join(f"{k} {'is' if h[0] == 'const' else 'like' if h[0] == 'as' else 'of length'} {h[1]!r}" for k, h in special.items())
                    cx.bad(rule, f"where {w}: {text}", pos, key)
            if time.time() > end:
                pool.terminate()
                break
    return {"special_values_tried": done, "held_there": held}


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    repo = "/repo"
    verbose = "-v" in argv
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--repo":
            repo = argv[i + 1]
    cx = Ctx(pid, tier, repo)
    mod = importlib.import_module(f"sa.props.{pid.lower()}")
    mod.check(cx)
    more = cases(cx, pid, tier, repo)
    s = cx.summary()
    s["explanation"] = (mod.__doc__ or "").strip() + " -- " + getattr(mod, "HOW", "decided by value-graph analysis of the source")
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": s, "wall_s": round(time.time() - cx.t0, 3)}
    if more:
        s.update(more)
    bad, listed = [], []
    kn = known(pid)
    for o in cx.obs:
        if o.status == "bad":
            k = next((l for l in kn if f'rule="{o.rule}"' in l and (not o.key or f"key={o.key} " in l)), None)
            (listed if k else bad).append((o, k))
    ev["coverage"]["violations"] = [f"{o.rule}: {o.text} at {fmtpos(o.pos)}" for o, _ in bad]
    ev["coverage"]["known_findings"] = sorted({k for _, k in listed})
    if repo == "/repo":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print(f"{pid}: {s['obligations']} obligations over {len(s['functions_analysed'])} functions, {s['call_sites']} call sites: {s['held']} hold, {s['violated']} violated, {s['undecided']} undecided")
    if verbose:
        for o in cx.obs:
            if o.status != "ok":
                print("  ", o.status, o.rule, "|", o.text[:600], "|", fmtpos(o.pos))
        for u in s["unmodelled_operations"]:
            print("   unmodelled", u)
    for k in sorted({k for _, k in listed}):
        print("KNOWN-FINDING: " + k[len("finding:"):].strip())
    for o in cx.obs:
        if o.status == "undecided" and not verbose:
            print(f"undecided: {o.rule}: {o.text[:200]}")
    if bad:
        rp = os.path.join(HERE, "evidence", f"{pid}.violation.txt")
        if repo == "/repo":
            with open(rp, "w") as f:
                for o, _ in bad:
                    f.write(f"{fmtpos(o.pos)}: {o.rule}: {o.text}\n\n")
        for o, _ in bad[:8]:
            print(f"{fmtpos(o.pos)}: {o.rule}: {o.text[:500]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not s["held"]:
        print(f"{pid}: nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
