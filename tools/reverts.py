#!/usr/bin/env python3
"""reverts.py [ID]: takes every fix of KNOWN-FINDINGS.txt back in a copy; its check has to report it."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for l in open(H + "/KNOWN-FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\w+) (.*)", l)
    if not m or len(sys.argv) > 1 and m.group(1) not in sys.argv[1:]:
        continue
    pid, c, what = m.groups()
    if not os.path.exists(f"{H}/sa/props/{pid.lower()}.py"):
        continue
    d = tempfile.mkdtemp(prefix="revert")
    subprocess.run(["cp", "-a", "/repo", d + "/r"])
    diff = subprocess.run(["git", "-C", "/repo", "show", "--format=", c], capture_output=True).stdout
    r = subprocess.run(["git", "-C", d + "/r", "apply", "-R", "-"], input=diff, capture_output=True)
    if r.returncode:
        print(pid, c, "cannot be taken back:", r.stderr.decode()[:100])
    else:
        r = subprocess.run([sys.executable, H + "/run.py", pid, "--repo", d + "/r"], capture_output=True, text=True)
        print(pid, c, "reported" if r.returncode == 1 else f"MISSED (exit {r.returncode})", what)
    shutil.rmtree(d)
