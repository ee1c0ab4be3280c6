"""Development aid: run checks on a mutated copy of /repo.
usage: mut.py CHECKS file 'old' 'new' [file old new ...]"""
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ids = sys.argv[1].split(",")
edits = sys.argv[2:]
d = Path(tempfile.mkdtemp(prefix="mut", dir="/tmp"))
try:
    shutil.copytree("/repo", d / "r", ignore=shutil.ignore_patterns(
        ".git", "build", "*.so", "instances", "notebooks"))
    for i in range(0, len(edits), 3):
        p = d / "r" / edits[i]
        s = p.read_text()
        if edits[i + 1] not in s:
            sys.exit(f"not found: {edits[i + 1]!r}")
        p.write_text(s.replace(edits[i + 1], edits[i + 2], 1))
    env = dict(os.environ, VSA_REPO=str(d / "r"), VSA_EVIDENCE=str(d / "e"))
    r = subprocess.run([sys.executable, "-m", "checks", *ids],
                       cwd="/verif", env=env, capture_output=True, text=True)
    for l in (r.stdout + r.stderr).splitlines():
        print(l[:700])
    print("exit", r.returncode)
finally:
    shutil.rmtree(d)
