"""Shared parts of the Python-side simulator: plans, counters, event log, loading the package."""
import hashlib
import importlib.machinery
import importlib.util
import os
import random
import sys

COUNTERS = ("steps ops checks client_switches config_changes solver_calls waypoints link_additions rejected_calls allocation_faults "
            "stale_cache_windows cache_reuses empty_batches pickles restores restarts copies deepcopies caller_array_mutations "
            "imports import_successes import_failures crashes_mid_import net_refused net_http_error net_reset net_truncated net_slow "
            "net_offline disk_full short_writes write_errors open_errors mkdir_errors rename_errors close_errors concurrent_imports "
            "interrupts process_switches blocked_on_lock pid_reuse syscalls simulated_ms").split()
INDEX = {n: i for i, n in enumerate(COUNTERS)}


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls + ": " + msg)
        self.cls, self.msg = cls, msg


class Ctx:
    def __init__(self, want_log=False):
        self.c = [0] * len(COUNTERS)
        self.h = hashlib.sha256()
        self.shape = hashlib.sha256()
        self.log, self.want_log = [], want_log
        self.nontrivial = 0
        self.where = "start"

    def count(self, name, n=1):
        self.c[INDEX[name]] += n

    def event(self, text, data=b""):
        self.h.update(text.encode("utf-8", "replace") + b"\0" + data)
        if self.want_log:
            self.log.append(text)

    def mark(self, text):
        self.shape.update(text.encode() + b"\0")


def parse_plan(text):
    p = {"prop": "", "seed": 0, "knobs": {}, "robots": [], "ops": [], "sw": []}
    for l in text.splitlines():
        w = l.split()
        if not w or w[0].startswith("#"):
            continue
        kv = dict(x.split("=", 1) for x in w if "=" in x)
        if w[0] == "plan":
            p["prop"], p["seed"] = w[1], int(kv["seed"])
        elif w[0] == "knob":
            p["knobs"].update({k: int(v) for k, v in kv.items()})
        elif w[0] == "robot":
            p["robots"].append({"kind": "data", "name": w[2]} if w[1] == "data" else dict({k: int(v) for k, v in kv.items()}, kind="gen"))
        elif w[0] == "op":
            p["ops"].append((int(w[1]), w[2], {k: int(v) for k, v in kv.items()}))
        elif w[0] == "sw":
            p["sw"].append(int(w[1]))
    return p


def plan_text(p):
    o = ["plan %s seed=%d" % (p["prop"], p["seed"])]
    o += ["knob %s=%d" % kv for kv in p["knobs"].items()]
    for r in p["robots"]:
        o.append("robot data " + r["name"] if r["kind"] == "data" else "robot gen " + " ".join("%s=%d" % (k, r[k]) for k in ("seed", "joints", "shape", "extras")))
    o += ["op %d %s" % (c, k) + "".join(" %s=%d" % kv for kv in a.items()) for c, k, a in p["ops"]]
    o += ["sw %d" % s for s in p["sw"]]
    return "\n".join(o) + "\n"


def rnd_robot(g, big=False):
    if g.random() < 0.06:
        return {"kind": "data", "name": g.choice(("fetch", "kuka", "fetch"))}
    return {"kind": "gen", "seed": g.randrange(10 ** 9), "joints": g.choice((1, 2, 3, 4, 5, 6, 8, 12) if not big else (3, 6, 10, 16, 24)), "shape": g.randrange(4), "extras": g.randrange(2)}


_ext = None


def load_ext():
    global _ext
    if _ext is None:
        path = os.path.join(os.environ["PYSIM_BUILD"], "_tinyfk.so")
        loader = importlib.machinery.ExtensionFileLoader("tinyfk._tinyfk", path)
        spec = importlib.util.spec_from_file_location("tinyfk._tinyfk", path, loader=loader)
        _ext = importlib.util.module_from_spec(spec)
        loader.exec_module(_ext)


def load_package():
    """executes the repository's python/tinyfk afresh, on the compiled wrapper"""
    for k in [k for k in sys.modules if k == "tinyfk" or k.startswith("tinyfk.")]:
        del sys.modules[k]
    load_ext()
    pkg = os.path.join(os.environ["PYSIM_REPO"], "python", "tinyfk")
    spec = importlib.util.spec_from_file_location("tinyfk", pkg + "/__init__.py", submodule_search_locations=[pkg])
    m = importlib.util.module_from_spec(spec)
    sys.modules["tinyfk._tinyfk"] = _ext
    sys.modules["tinyfk"] = m
    try:
        spec.loader.exec_module(m)
    except BaseException:
        sys.modules.pop("tinyfk", None)
        raise
    return m


def ext():
    return _ext


def rng(*a):
    return random.Random(":".join(map(str, a)))
