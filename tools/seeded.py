#!/usr/bin/env python3
"""seeded.py [NAME or property ...]: which planted changes does the check of their property report?"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for name in sorted(os.listdir(f"{V}/seeded")):
    pid = json.load(open(f"{V}/seeded/{name}/meta.json"))["property"]
    if sys.argv[1:] and name not in sys.argv[1:] and pid not in sys.argv[1:]:
        continue
    if not os.path.exists(f"{V}/sa/props/{pid.lower()}.py"):
        print(name, pid, "no check")
        continue
    d = tempfile.mkdtemp()
    shutil.copytree("/repo", d, dirs_exist_ok=True, ignore=shutil.ignore_patterns(".git", ".venv", "build"))
    a = subprocess.run(["git", "apply", f"{V}/seeded/{name}/patch.diff"], cwd=d, capture_output=True, text=True)
    r = subprocess.run([sys.executable, f"{V}/run.py", pid, "--repo", d], cwd=V, capture_output=True, text=True)
    print(name, pid, "caught" if r.returncode == 1 and "VIOLATION" in r.stdout else f"NOT caught ({r.returncode})", a.stderr[:100])
    shutil.rmtree(d)
