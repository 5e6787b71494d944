#!/usr/bin/env python3
"""trial.py FILE: changed copies of the sources, with what each check has to say about them.

FILE holds blocks: a line "== ID bad|quiet", then "file: NAME", "<<<<", old text, "====", new text,
">>>>" (the last four may repeat).  Prints each block whose outcome is not the one it names.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(f, only=None):
    txt = open(f).read()
    wrong = n = 0
    for blk in re.split(r"^== ", txt, flags=re.M)[1:]:
        head, _, body = blk.partition("\n")
        pid, want = head.split()[:2]
        if only and pid != only:
            continue
        d = tempfile.mkdtemp(prefix="trial")
        shutil.copytree("/repo/src", d + "/src")
        for x in ("README.md", "pyproject.toml", "setup.cfg", "example_configurations", "testdata"):
            if os.path.isdir("/repo/" + x):
                if x != "testdata":
                    shutil.copytree("/repo/" + x, d + "/" + x)
            elif os.path.exists("/repo/" + x):
                shutil.copy("/repo/" + x, d + "/" + x)
        name = None
        err = None
        for m in re.finditer(r"^file: (\S+)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$", body, flags=re.M | re.S):
            if m.group(1):
                name = m.group(1)
                continue
            p = f"{d}/src/mcsas3/{name}" if "/" not in name else f"{d}/{name}"
            s = open(p).read()
            if s.count(m.group(2)) != 1:
                err = f"old text occurs {s.count(m.group(2))} times: {m.group(2)[:60]!r}"
                break
            open(p, "w").write(s.replace(m.group(2), m.group(3)))
        n += 1
        if err:
            print("##", head, err)
            wrong += 1
        else:
            r = subprocess.run([sys.executable, HERE + "/run.py", pid, "--repo", d], capture_output=True, text=True)
            got = {0: "quiet", 1: "bad"}.get(r.returncode, "none")
            und = [l for l in r.stdout.splitlines() if l.startswith("undecided")]
            if got != want:
                wrong += 1
                print("##", head, "-> got", got)
                print("   ", body.strip()[:300].replace("\n", "\n    "))
                print("   ", (r.stdout + r.stderr[-600:])[:900].replace("\n", "\n    "))
            elif und and want == "quiet":
                print("~~", head, "quiet but", und[0][:200])
        shutil.rmtree(d)
    print(f"{n} trials, {wrong} not as expected")


if __name__ == "__main__":
    main(*sys.argv[1:])
