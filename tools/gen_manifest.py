"""Writes MANIFEST.json."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from simlib.props import PROPS  # noqa: E402

TECH = {
    "C01": "deterministic simulation: seeded client interleavings with failing calls and allocations, refinement against a reference kinematics model",
    "C02": "deterministic simulation: seeded client interleavings with failing calls and allocations, refinement against a reference kinematics model",
    "C03": "deterministic simulation: seeded client interleavings with failing calls and allocations, refinement against a reference kinematics model",
    "C04": "deterministic simulation: seeded client interleavings with failing calls and allocations, refinement against a reference registry",
    "C05": "deterministic simulation: seeded pre-emptive schedules of simulated threads, comparison with each thread's solo run",
    "C06": "deterministic simulation: copies inside seeded multi-client and multi-thread histories, refinement against per-copy reference models",
    "C07": "deterministic simulation: storage damage injected into descriptions, crash, memory-safety, step-budget and tree oracles",
    "C08": "deterministic simulation: simulated disk with short, interrupted and failing reads",
    "C09": "deterministic simulation: simulated disk with short, failing, lost writes and full disk",
    "C10": "deterministic simulation: seeded process-wide locale switches and allocation failures during export/import generations",
    "C11": "deterministic simulation: seeded allocation failures at every point of a call, state compared with the reference model",
    "C12": "deterministic simulation: repeated seeded faulty histories with exact memory accounting",
    "C17": "deterministic simulation: seeded locale switches and allocation failures during parse/export/copy histories, compared with the reference robot",
    "C18": "deterministic simulation: work counted in deterministic steps over seeded faulty histories, compared with a fresh model and with bounds linear in the robot",
    "C19": "deterministic simulation: the same seeded history in two simulated environments (memory layout, contents and reuse, stack, clocks, random sources, unrelated models in between), compared bit for bit",
    "C13": "deterministic simulation: seeded interleavings of Python clients on real wrapper and package, compared with fresh-model answers and a reference model",
    "C14": "deterministic simulation: seeded histories with process restarts from the last durable pickle, reference model",
    "C15": "deterministic simulation: simulated network, disk, crashes and concurrent processes around the package import",
}
NOTE = "Seeded sampling of schedules and faults on the real code, every run exactly repeatable; a clean batch is evidence, not proof. "
TRUST = {"cpp": "Trusts the reference model in sim/ and the library seams (allocator, disk, locale, threads); clang -O1 with ASan instead of gcc -O3.",
         "py": "Trusts the reference model and simulated network/disk in pysim/ and the small binding shim that stands in for pybind11 (not installed here)."}
NA = {"C16": "pure function of one input: no schedule, clock, fault or history to simulate"}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE + TRUST[PROPS[i]["engine"]]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every seam is supplied at link time or by the interpreter."}, f, indent=1)
    f.write("\n")
