"""Run the checks against planted bugs (development tool, not a check).

python tools/detect.py [--all] [ID...]    own property only, or every check
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
every = "--all" in sys.argv
ids = sorted(i for i in os.listdir(os.path.join(HERE, "seeded"))
             if os.path.isdir(os.path.join(HERE, "seeded", i))
             and (not args or any(i.startswith(a) for a in args)))
checks = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks"))
                if re.fullmatch(r"C\d\d\.py", f))
rows = []
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="detect.")
    try:
        shutil.copytree("/repo/docs", w + "/docs")
        shutil.copytree("/repo/sofar", w + "/sofar",
                        ignore=shutil.ignore_patterns("__pycache__"))
        subprocess.run(["git", "init", "-q", w], check=True)
        subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"],
                       check=True)
        # checks write evidence: run from a copy
        v = w + "/verif"
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(
            ".git", "seeded", "evidence", "__pycache__"))
        os.makedirs(v + "/evidence")
        hit = []
        text = ""
        for c in (checks if every else [prop]):
            p = subprocess.run(
                ["./run.sh", c], cwd=v, capture_output=True, text=True,
                env=dict(os.environ, SOFAR_REPO=w, VERIF_SEED=os.environ.get(
                    "VERIF_SEED", "1"), VERIF_TIER="quick"))
            if p.returncode == 1 and f"VIOLATION property={c}" in p.stdout:
                hit.append(c)
            elif p.returncode:
                hit.append(f"{c}!{p.returncode}")
            if c == prop:
                text = p.stdout.strip()[:300].replace("\n", " | ")
        print("OK  " if prop in hit else "MISS", i, prop, hit,
              "" if every else text, flush=True)
        rows.append(f"| {i} | {prop} | {' '.join(hit) or '-'} |")
    finally:
        shutil.rmtree(w)
if "--table" in sys.argv:
    with open(os.path.join(HERE, "seeded", "DETECTED.md"), "w") as f:
        f.write("Checks (quick, seed 1) that report the planted bug.\n\n"
                "| bug | property | reported by |\n| --- | --- | --- |\n"
                + "\n".join(rows) + "\n")
