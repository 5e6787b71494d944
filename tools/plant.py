#!/usr/bin/env python3
"""plant.py FILE [NAME...]: make seeded/NAME/ from blocks of planted changes and try them out.

A block is "== NAME PROPERTY", "needs: ...", "breaks: ...", then the changes as in trial.py and
a line "demo:" followed by the demonstration in Python up to a line "end".
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
export MPLBACKEND=Agg SAS_OPENCL=none OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
export HOME="$t" PYTHONPATH="$PWD/src" REPO="$PWD"
cd "$t" && timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def run(d, cwd):
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


def main(f, *names):
    for blk in re.split(r"^== ", open(f).read(), flags=re.M)[1:]:
        head, _, body = blk.partition("\n")
        name, pid = head.split()
        if names and name not in names:
            continue
        text, _, demo = body.partition("\ndemo:\n")
        demo = demo.split("\nend\n")[0] + "\n"
        t = tempfile.mkdtemp(prefix="plant")
        repo = t + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        cur = bad = None
        for m in re.finditer(r"^file: (\S+)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$", text, flags=re.M | re.S):
            if m.group(1):
                cur = f"{repo}/src/mcsas3/{m.group(1)}"
                continue
            s = open(cur).read()
            if s.count(m.group(2)) != 1:
                bad = f"old text occurs {s.count(m.group(2))} times: {m.group(2)[:80]!r}"
            open(cur, "w").write(s.replace(m.group(2), m.group(3)))
        if bad:
            print(name, bad)
            shutil.rmtree(t)
            continue
        d = f"{HERE}/seeded/{name}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout)
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/demo.py", "w").write(demo)
        meta = {k: re.search(rf"^{k}: (.*?)(?=^\w+:|^<<<<|\Z)", text, flags=re.M | re.S).group(1).strip().replace("\n", " ") for k in ("needs", "breaks")}
        json.dump({"property": pid, "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # lines added by the fixes
        base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
        ours = {l[1:].strip() for l in subprocess.run(["git", "-C", "/repo", "diff", base, "HEAD"], capture_output=True, text=True).stdout.splitlines() if l.startswith("+") and len(l.strip()) > 4}
        mine = [l for l in open(d + "/patch.diff").read().splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in ours]
        a, at = run(d, "/repo")
        b, bt = run(d, repo)
        r = subprocess.run([sys.executable, HERE + "/run.py", pid, "--repo", repo], capture_output=True, text=True)
        tests = subprocess.run("rm -f test_state*.h5; /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_McData1D_unittest.py tests/test_McData2D_unittest.py tests/test_mcsas3.py 2>&1 | tail -8",
                               shell=True, cwd=repo, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=repo + "/src", MPLBACKEND="Agg", SAS_OPENCL="none", PYTHONDONTWRITEBYTECODE="1")).stdout
        print(f"{name} {pid}: demo {a}/{b} check {r.returncode} tests: {tests.strip().splitlines()[-1] if tests.strip() else ''}", "| fix lines changed: " + str(mine) if mine else "")
        if a:
            print("   unchanged:", at)
        if not b:
            print("   changed:", bt)
        else:
            print("   ", bt.splitlines()[-1][:150] if bt else "")
        if r.returncode != 1:
            print("   ", (r.stdout + r.stderr[-300:])[-500:])
        shutil.rmtree(t)


if __name__ == "__main__":
    main(*sys.argv[1:])
