#!/usr/bin/env python3
"""check.py PROP [quick|thorough]   run the simulated search for one property
   check.py replay FILE             re-run a replay file and compare with what it recorded
   check.py build                   build the simulators
Only two outcomes are answers: exit 0 (held on everything explored) and exit 1 with a VIOLATION line."""
import collections
import fcntl
import hashlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
JOBS = max(1, min(8, os.cpu_count() or 1))
PY = "/opt/veriftools/pyvenv/bin/python3"
sys.path.insert(0, HERE)
from simlib import build as simbuild, props  # noqa: E402


def engine(prop):
    """command prefix and environment of the simulator of this property"""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "LD_", "PYTHON", "MALLOC_", "LC_", "LANG"))}
    env["LC_ALL"] = "C"
    kind = props.PROPS[prop]["engine"]
    b = simbuild.build(REPO, BUILD, kind)
    if kind == "cpp":
        env["SIM_DATA"] = b["data"]
        if props.PROPS[prop]["race"]:
            env["SIM_RACE"] = simbuild.build(REPO, BUILD, "race")["sim"]
        return [b["sim"]], env
    env["PYSIM_BUILD"] = b["dir"]
    env["PYSIM_REPO"] = REPO
    env["LD_PRELOAD"] = b["dir"] + "/sysshim.so"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = os.environ.get("PYSIM_HASHSEED", "0")
    return [PY, "-S", "-B", os.path.join(HERE, "pysim", "main.py")], env


def symbols(binary, msg):
    """code addresses in a message as function, file and line"""
    def name(m):
        p = subprocess.run(["addr2line", "-Cfpe", binary, m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return p.stdout.strip() or m.group(0)
    try:
        return re.sub(r"\[pc (0x[0-9a-f]+)\]", name, msg)
    except OSError:
        return msg


class Sim:
    def __init__(self, prop, thorough):
        self.prop, self.thorough = prop, thorough
        self.cmd, self.env = engine(prop)
        self.counters = subprocess.run(self.cmd + ["counters"], env=self.env, stdout=subprocess.PIPE, check=True, text=True).stdout.split()

    def batch(self, first, count, stride=1):
        if "SIM_RACE" not in self.env:
            return self.part(self.cmd, first, count, stride)
        if stride % 2 == 0 or count == 1:
            return self.part(self.cmd if first % 2 == 0 else [self.env["SIM_RACE"]], first, count, stride)
        # odd seeds belong to the race variant
        out, edges = [], set()
        for f, n in ((first, (count + 1) // 2), (first + stride, count // 2)):
            if n:
                o, e = self.batch(f, n, 2 * stride)
                out += o
                edges |= e if f % 2 == 0 else set()  # the two variants number their edges differently
        return out, edges

    def part(self, cmd, first, count, stride):
        p = subprocess.run(cmd + ["batch", self.prop, str(first), str(count), str(stride), str(int(self.thorough))],
                           env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        out, edges = [], set()
        for l in p.stdout.splitlines():
            d = json.loads(l)
            if "edges" in d:
                for w in d["map"].split():
                    i, b = w.split(":")
                    edges.update(int(i, 16) * 8 + k for k in range(8) if int(b, 16) >> k & 1)
            else:
                out.append(d)
        if p.returncode != 0 or len(out) != count:
            raise RuntimeError("simulator ended early (rc %d) on %s seeds %d+%d: %s" % (p.returncode, self.prop, first, count, p.stderr[-2000:]))
        return out, edges

    def gen(self, seed):
        return subprocess.run(self.cmd + ["gen", self.prop, str(seed), str(int(self.thorough))], env=self.env, stdout=subprocess.PIPE, check=True, text=True).stdout

    def run(self, text, log=False):
        fd, path = tempfile.mkstemp(prefix="plan.", dir=BUILD)
        try:
            with os.fdopen(fd, "w") as f:
                f.write(text)
            race = "SIM_RACE" in self.env and any(l.split() == ["knob", "race=1"] for l in text.splitlines())
            cmd = [self.env["SIM_RACE"]] if race else self.cmd
            p = subprocess.run(cmd + ["run", path] + (["v"] if log else []), env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            lines = p.stdout.splitlines()
            if not lines:
                return {"status": 3, "class": "error", "msg": p.stderr[-1000:], "hash": "", "log": []}
            d = json.loads(lines[-1])
            d["log"] = lines[:-1]
            if race and log:
                d["msg"] = symbols(cmd[0], d["msg"])
            return d
        finally:
            os.unlink(path)


# ------------------------------------------------------------------ minimisation
def minimise(sim, text, want, deadline, log):
    lines = [l for l in text.splitlines() if l and not l.startswith("#")]
    tried = [0]

    def fails(ls):
        if time.time() > deadline:
            return False
        tried[0] += 1
        r = sim.run("\n".join(ls) + "\n")
        return r["status"] == 2 and r["class"] == want

    def ddmin(pred):
        nonlocal lines
        idx = [i for i, l in enumerate(lines) if pred(l)]
        # dropping everything of a kind first is the common case
        if idx:
            cand = [l for l in lines if not pred(l)]
            if fails(cand):
                lines = cand
                return
        n = 2
        while len(idx) >= 1 and n <= 2 * len(idx):
            size = max(1, (len(idx) + n - 1) // n)
            done = True
            for s in range(0, len(idx), size):
                drop = set(idx[s:s + size])
                cand = [l for i, l in enumerate(lines) if i not in drop]
                if fails(cand):
                    lines = cand
                    idx = [i for i, l in enumerate(lines) if pred(l)]
                    n = max(2, n - 1)
                    done = False
                    break
            if done:
                if size == 1:
                    break
                n = min(2 * n, 2 * len(idx)) if n < len(idx) else n * 2

    def shrink_numbers(prefix, keys, floor):
        nonlocal lines
        for i, l in enumerate(lines):
            if not l.startswith(prefix):
                continue
            w = l.split()
            for k, x in enumerate(w):
                if "=" not in x:
                    continue
                key, v = x.split("=", 1)
                if key not in keys or not v.lstrip("-").isdigit():
                    continue
                lo = floor.get(key, 0)
                for nv in (lo, lo + 1, int(v) // 2, int(v) - 1):
                    if lo <= nv < int(v):
                        w2 = list(w)
                        w2[k] = "%s=%d" % (key, nv)
                        cand = list(lines)
                        cand[i] = " ".join(w2)
                        if fails(cand):
                            lines = cand
                            w = w2
                            break

    def drop_options():
        """imports: without this fault or option"""
        nonlocal lines
        for i in range(len(lines)):
            if lines[i].startswith("op ") and lines[i].split()[2] == "imp":
                for x in lines[i].split()[3:]:
                    if not x.startswith("g="):
                        cand = list(lines)
                        cand[i] = " ".join(y for y in lines[i].split() if y != x)
                        if fails(cand):
                            lines = cand

    for _ in range(3):
        before = list(lines)
        ddmin(lambda l: l.startswith("sw "))
        ddmin(lambda l: l.startswith("op "))
        ddmin(lambda l: l.startswith("knob "))
        drop_options()
        shrink_numbers("op ", {"ck", "nk", "dk", "ik"}, {"ck": 1, "nk": 1, "dk": 1, "ik": 1})
        shrink_numbers("robot gen", {"joints", "noise", "extras", "shape"}, {"joints": 1})
        if lines == before or time.time() > deadline:
            break
    log.append("minimised from %d to %d lines in %d executions" % (len([l for l in text.splitlines() if l]), len(lines), tried[0]))
    return "\n".join(lines) + "\n"


# ------------------------------------------------------------------ known findings
def known_findings():
    """lines 'known: property=<id> class=<class> match=<substring of the message> -- <what fails>'"""
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            if not l.startswith("known: "):
                continue
            head, _, what = l[7:].strip().partition(" -- ")
            d = {"what": what}
            for key in ("property", "class", "match"):
                i = head.find(key + "=")
                if i >= 0:
                    d[key] = head[i + len(key) + 1:].split("  ")[0] if key == "match" else head[i + len(key) + 1:].split(" ")[0]
            out.append(d)
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    base_seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.PROPS[prop]
    t0 = time.time()
    sim = Sim(prop, False)
    t_build = time.time() - t0
    # quick: a fixed set of seeds, cut off only on a slow machine; thorough: as many as fit
    want = int(os.environ.get("VERIF_RUNS", spec["quick_runs"] if not thorough else 10 ** 9))
    limit = float(os.environ.get("VERIF_BUDGET_S", "240" if not thorough else "660"))
    first = (base_seed % 10 ** 6) * 10 ** 9 + 1
    chunk = spec["chunk"]
    print("check %s tier=%s VERIF_SEED=%d first simulation seed=%d" % (prop, tier, base_seed, first), flush=True)

    q = queue.Queue()
    lock = threading.Lock()
    results, edges, errors = {}, set(), []
    stop = threading.Event()
    state = {"next": 0}
    known = [k for k in known_findings() if k.get("property") == prop]
    known_hit = collections.Counter()

    def is_known(d):
        for k in known:
            if d["class"] == k.get("class", d["class"]) and k.get("match", "") in d["msg"]:
                return k
        return None

    def worker():
        while not stop.is_set():
            with lock:
                i = state["next"]
                if i >= want or time.time() - t0 - t_build > limit:
                    return
                n = min(chunk, want - i)
                state["next"] += n
            # thorough runs alternate between the two sizes of workload
            s = big if thorough and (i // chunk) % 2 else sim
            try:
                out, e = s.batch(first + i, n)
            except Exception as ex:  # noqa: BLE001
                with lock:
                    errors.append(str(ex))
                stop.set()
                return
            with lock:
                edges.update(e)
                for d in out:
                    d["big"] = s is not sim
                    results[d["seed"]] = d
                    if d["status"] == 2:
                        k = is_known(d)
                        if k:
                            known_hit[k["what"]] += 1
                        else:
                            stop.set()

    big = None
    if thorough:
        big = Sim(prop, True)
    ts = [threading.Thread(target=worker) for _ in range(JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    wall_search = time.time() - t0 - t_build

    killed = [d for d in results.values() if d["status"] == 3]
    for d in killed:  # a run ended from outside (memory pressure) gets a second, lonely chance
        r = (big if d["big"] else sim).batch(d["seed"], 1)[0][0]
        r["big"] = d["big"]
        results[d["seed"]] = r
        if r["status"] == 3:
            errors.append("seed %d: %s %s" % (d["seed"], r["class"], r["msg"]))
    bad = [d for d in results.values() if d["status"] == 2 and not is_known(d)]
    notes = []
    violation = None
    rejected = []
    for d in sorted(bad, key=lambda d: (d["big"], len(d["msg"]) * 0, d["seed"]))[:12]:
        s = big if d["big"] else sim
        text = s.gen(d["seed"])
        a, b = s.run(text), s.run(text)
        if not (a["status"] == b["status"] == 2 and a["class"] == b["class"] == d["class"] and a["hash"] == b["hash"] == d["hash"]):
            rejected.append("seed %d: %s" % (d["seed"], [(x["status"], x["class"], x["hash"]) for x in (d, a, b)]))
            continue
        small = minimise(s, text, d["class"], time.time() + (60 if not thorough else 120), notes)
        ra, rb = s.run(small, True), s.run(small, True)
        if not (ra["status"] == rb["status"] == 2 and ra["class"] == d["class"] and ra["hash"] == rb["hash"]):
            notes.append("the minimised plan did not replay; reporting the original")
            small, ra = text, s.run(text, True)
        violation = (d, small, ra)
        break

    # determinism: the same seeds again, in fresh processes, grouped differently
    recheck = mism = 0
    if not violation and not errors and not rejected:
        done = sorted(results)
        sample = done[::max(1, len(done) // 64)][:64]
        sample.reverse()
        alt_env = dict(sim.env)
        if spec["engine"] == "py":
            alt_env["PYTHONHASHSEED"] = "4711"
        else:
            alt_env["SIM_REEXEC"] = "1"  # this time with address space randomisation left on

        def again(seeds):
            nonlocal recheck, mism
            for sd in seeds:
                s = big if results[sd]["big"] else sim
                e = s.env
                s2 = Sim.__new__(Sim)
                s2.__dict__.update(s.__dict__)
                s2.env = alt_env if sd % 2 else e
                try:
                    r = s2.batch(sd, 1)[0][0]
                except Exception as ex:  # noqa: BLE001
                    with lock:
                        errors.append(str(ex))
                    return
                with lock:
                    recheck += 1
                    if (r["hash"], r["status"], r["class"]) != (results[sd]["hash"], results[sd]["status"], results[sd]["class"]):
                        mism += 1
                        errors.append("seed %d does not repeat: %s then %s" % (sd, (results[sd]["hash"], results[sd]["class"]), (r["hash"], r["class"])))
        ts = [threading.Thread(target=again, args=(sample[w::5],)) for w in range(5)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    wall = time.time() - t0
    tot = [0] * len(sim.counters)
    for d in results.values():
        for i, v in enumerate(d["c"]):
            tot[i] += v
    cnt = dict(zip(sim.counters, tot))
    good = [d for d in results.values() if d["nontrivial"] and d["status"] in (1, 2)]
    distinct = len({d["shape"] for d in good})
    sample_seeds = sorted(d["seed"] for d in good if not d["big"])
    sample_seeds = sample_seeds[:1] + sample_seeds[len(sample_seeds) // 2:len(sample_seeds) // 2 + 1] + sample_seeds[-1:]
    cover = {
        "evaluations": len(results), "distinct_nontrivial": distinct, "rule": spec["rule"],
        "samples": [{"seed": s, "plan": sim.gen(s).splitlines()[:60]} for s in dict.fromkeys(sample_seeds)],
        "runs_per_hour": int(len(results) / max(wall_search, 1e-3) * 3600),
        "seeds_per_hour": int(len(results) / max(wall_search, 1e-3) * 3600),
        "first_seed": first, "last_seed": max(results) if results else first,
        "simulated_steps": cnt.get("steps", 0), "simulated_time": spec["time"],
        "simulated_ms": cnt.get("simulated_ms", 0),
        "counts": {k: v for k, v in cnt.items() if k not in ("steps", "reserved", "simulated_ms")},
        "fault_kinds_fired": {k: cnt[k] for k in spec["faults"] if k in cnt},
        "probes_never_hit": [k for k in spec["faults"] if not cnt.get(k)],
        "distinct_event_logs": len({d["hash"] for d in results.values()}),
        "interleaving_measure": spec["measure"],
        "code_edges_reached": len(edges),
        "inconclusive_runs": sum(d["status"] == 4 for d in results.values()),
        "determinism_rechecks": recheck, "determinism_mismatches": mism,
        "real_components": spec["real"], "stubbed_components": spec["stub"],
        "search_wall_s": round(wall_search, 1), "build_wall_s": round(t_build, 1), "workers": JOBS,
        "known_findings_hit": dict(known_hit),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": base_seed, "level": "exploration", "coverage": cover,
          "assumptions": spec["assumptions"], "wall_s": round(wall, 1), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n in notes:
        print("note:", n)
    if violation:
        d, small, r = violation
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d.replay" % (prop, d["seed"]))
        with open(path, "w") as f:
            f.write("# replay file of a violation of %s; replay with: python3 check.py replay %s\n" % (prop, os.path.relpath(path, HERE)))
            f.write("# prop %s\n# VERIF_SEED %d\n# seed %d\n# class %s\n# hash %s\n# message %s\n" % (prop, base_seed, d["seed"], r["class"], r["hash"], r["msg"].replace("\n", " ")[:1500]))
            f.write(small)
            for l in r.get("log", [])[-80:]:
                f.write("# log " + l[:300] + "\n")
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", path], stdout=subprocess.PIPE, text=True)
        if p.returncode != 0:
            print("the replay file did not reproduce the violation:\n" + p.stdout)
            return 2
        print("seed %d: %s: %s" % (d["seed"], r["class"], r["msg"].replace("\n", " ")[:1500]))
        print("minimised plan:\n" + small)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if rejected:
        print("violations that do not repeat:\n" + "\n".join(rejected))
        return 2
    if errors:
        print("ERROR: " + "\n".join(errors[:10]))
        return 2
    if results and cover["inconclusive_runs"] == len(results):
        print("ERROR: every run was inconclusive")
        return 2
    print("ok %s: %d simulated runs (%d distinct non-trivial), %d steps, %d code edges, %d runs repeated identically, %.1f s" % (
        prop, len(results), distinct, cnt.get("steps", 0), len(edges), recheck, wall))
    return 0


def replay(path):
    meta = {}
    for l in open(path):
        if l.startswith("# ") and " " in l[2:].strip():
            k, v = l[2:].strip().split(" ", 1)
            meta.setdefault(k, v)
    s = Sim(meta["prop"], False)
    text = "".join(l for l in open(path) if not l.startswith("#"))
    r = s.run(text, True)
    for l in r["log"][-60:]:
        print(l)
    same = r["status"] == 2 and r["class"] == meta["class"] and r["hash"] == meta["hash"]
    print("recorded: class=%s hash=%s" % (meta["class"], meta["hash"]))
    print("replayed: class=%s hash=%s status=%d: %s" % (r["class"], r["hash"], r["status"], r["msg"][:600]))
    print("REPRODUCED" if same else "NOT REPRODUCED")
    return 0 if same else 3


if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "build":
        for kind in sorted({p["engine"] for p in props.PROPS.values()} | {"race"}):
            simbuild.build(REPO, BUILD, kind)
        sys.exit(0)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
