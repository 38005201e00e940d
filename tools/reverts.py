"""Undo each repair of /repo in a scratch clone and run the check that found it
(development tool, not a check).

python tools/reverts.py [COMMIT...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
todo = []
for line in open(os.path.join(HERE, "KNOWN_FINDINGS.md")):
    m = re.match(r"fixed: property=(C\d\d) (\w+) ", line)
    if m and (len(sys.argv) == 1 or m.group(2) in sys.argv[1:]):
        todo.append((m.group(2), m.group(1)))
for commit, prop in todo:
    w = tempfile.mkdtemp(prefix="revert.")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        p = subprocess.run(["git", "-C", w + "/r", "-c", "user.name=x", "-c",
                            "user.email=x", "revert", "-n", commit],
                           capture_output=True, text=True)
        if p.returncode:
            print("CONFLICT", commit, prop, flush=True)
            continue
        v = w + "/verif"
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(
            ".git", "seeded", "evidence", "__pycache__"))
        os.makedirs(v + "/evidence")
        p = subprocess.run(["./run.sh", prop], cwd=v, capture_output=True,
                           text=True, env=dict(os.environ,
                                               SOFAR_REPO=w + "/r"))
        ok = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
        print("OK  " if ok else "MISS", commit, prop, p.returncode,
              p.stdout.strip()[:200].replace("\n", " | "), flush=True)
    finally:
        shutil.rmtree(w)
