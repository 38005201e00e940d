"""Writes MANIFEST.json for the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C01": "runtime monitor: reference model compared with content read back, random object workload",
    "C02": "runtime monitor: independent raw netCDF reader against predicted layout, random object workload",
    "C03": "runtime monitor: verdict and report of verify against a reference verifier, shape mutations",
    "C04": "runtime monitor: verdict and report of verify against a reference verifier, type/name mutations",
    "C05": "runtime monitor: verdict of verify against an independent rule interpreter, random rule sets",
    "C06": "runtime monitor: relations between all modes and ways of reporting, mutated objects",
    "C07": "trace monitor over random operation histories: refused operations change nothing",
    "C08": "trace monitor over random operation histories: life cycle of custom data",
    "C09": "trace monitor over random operation histories: queries and other objects leave content unchanged",
    "C10": "runtime monitor: reference comparison against sf.equals on pairs with single differences",
    "C11": "runtime monitor: SofaStream against raw file and read_sofa for random names and slices",
    "C12": "runtime monitor: independent interpreter of the upgrade rules, random rules and data",
    "C13": "runtime monitor: catalogue model against lookups, random catalogues and installation paths",
    "C14": "runtime monitor: simulated web server, state of the local catalogue after every update",
    "C15": "fault injection at every request of an update, monitor of all files",
    "C16": "runtime monitor: random convention tables against an independent table reader",
    "C17": "runtime monitor of files, bytes and descriptors around accepted, refused and failing calls",
    "C18": "runtime monitor: foreign and damaged netCDF files against raw content and reference verifier",
    "C19": "trace monitor over random operation histories: reported dimensions against current data",
    "C20": "trace monitor over random operation histories: exact effect of add_missing",
    "C21": "runtime monitor: output of info parsed and compared with the definitions of random catalogues",
    "C22": "metamorphic runtime monitor: same values in many representations, all results compared",
    "C23": "differential runtime monitor: recorded results of the same calls in many process environments",
    "C24": "runtime monitor: simulated web sites with faults, report and files against the true difference",
    "C25": "runtime monitor: warnings and output against catalogue, definitions and raw files",
    "C26": "runtime monitor: pages written by the documentation script against the catalogue",
    "C27": "schedule exploration: programs in threads under a deterministic scheduler against the same programs alone",
    "C28": "fault injection at every file operation of an update in processes of their own, monitor of the files after the next update",
    "C29": "fault injection at bytes of the written file in processes of their own, monitor of result, object and content read",
    "C30": "resource monitor (peak of allocated memory, bytes read) around every call of SofaStream on large files",
    "C31": "monitor of process state around every call, weak references and memory over repeated executions of random programs",
}
checks, missing = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        missing.append({"property": i, "reason": "check not built yet"})
        continue
    mod = importlib.import_module("checks." + i)
    level = getattr(mod, "LEVEL", "exploration")
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i}",
        "thorough_cmd": f"./run.sh {i} --thorough",
        "technique": TECH[i],
        "level": level,
        "level_note": (
            "Holds on the executions observed (count and kind in the "
            "evidence file); trusts the reference model in vlib/, numpy and "
            "the netCDF4 package. "
            + " ".join(a + "." for a in getattr(mod, "ASSUMPTIONS", []))
        ).strip()})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, netCDF4, "
                  "requests, bs4, packaging'",
     "checks": checks, "not_applicable": missing,
     "notes": "Pure Python project; no hooks are needed, the checks install "
              "the current sources with a synthetic convention catalogue in "
              "scratch folders. Known findings: KNOWN_FINDINGS.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
