"""The Python-side simulator; same command line as the C++ one (sim/main.cpp)."""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ["OPENBLAS_NUM_THREADS"] = os.environ["OMP_NUM_THREADS"] = "1"
sys.dont_write_bytecode = True
import base  # noqa: E402


def props():
    import hist
    import imports
    return {"C13": (hist.gen13, hist.run13), "C14": (hist.gen14, hist.run14), "C15": (imports.gen15, imports.run15)}


def run_plan(text, log):
    """executes one plan in a forked process and judges it"""
    plan = base.parse_plan(text)
    r, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        rc = 0
        try:
            import imports
            with imports.Scratch() as home:
                ctx = base.Ctx(log)
                res = {"status": 1, "class": "", "msg": ""}
                signal.signal(signal.SIGPROF, lambda *_: os._exit(99))
                signal.setitimer(signal.ITIMER_PROF, 120)
                try:
                    props()[plan["prop"]][1](plan, ctx) if plan["prop"] == "C15" else with_home(home, props()[plan["prop"]][1], plan, ctx)
                except base.Violation as v:
                    res = {"status": 2, "class": v.cls, "msg": ctx.where + ": " + v.msg}
                except imports.Internal as e:
                    res = {"status": 3, "class": "internal", "msg": str(e)}
                except Exception as e:  # noqa: BLE001
                    tb = traceback.format_exc(limit=-3)
                    res = {"status": 2, "class": "exception:" + type(e).__name__, "msg": ctx.where + ": " + str(e)[:500] + " | " + tb.replace("\n", " ")[-700:]}
                res.update(hash=ctx.h.hexdigest()[:16] if res["status"] == 1 else _h(ctx, res), shape=ctx.shape.hexdigest()[:16], nontrivial=ctx.nontrivial, c=ctx.c, seed=plan["seed"])
                # the message of a violation is part of the run
                blob = json.dumps({"res": res, "log": ctx.log if log else []}).encode()
            with os.fdopen(wfd, "wb") as f:
                f.write(blob)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            rc = 98
        os._exit(rc)
    os.close(wfd)
    data = b""
    with os.fdopen(r, "rb") as f:
        data = f.read()
    st = os.waitpid(pid, 0)[1]
    if data:
        d = json.loads(data)
        return d["res"], d["log"]
    z = {"status": 2, "class": "", "msg": "", "hash": "0", "shape": "0", "nontrivial": 1, "c": [0] * len(base.COUNTERS), "seed": plan["seed"]}
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
        z["class"] = "crash:" + signal.Signals(os.WTERMSIG(st)).name
        z["msg"] = "the process died"
    elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99:
        z["class"] = "runaway"
        z["msg"] = "no progress in 120 s of processor time"
    else:
        z["status"], z["class"] = 3, "killed"
    return z, []


def _h(ctx, res):
    ctx.h.update(res["class"].encode())
    return ctx.h.hexdigest()[:16]


def with_home(home, fn, plan, ctx):
    os.environ["HOME"] = os.path.join(os.environ["PYSIM_BUILD"], "home")
    os.chdir(home)
    import imports
    imports.offline()
    fn(plan, ctx)


def main():
    mode = sys.argv[1]
    if mode == "counters":
        print("\n".join(base.COUNTERS))
    elif mode == "gen":
        sys.stdout.write(base.plan_text(props()[sys.argv[2]][0](int(sys.argv[3]), len(sys.argv) > 4 and sys.argv[4] == "1")))
    elif mode == "run":
        r, log = run_plan(open(sys.argv[2]).read(), len(sys.argv) > 3)
        print("\n".join(log + [json.dumps(r)]))
    elif mode == "batch":
        P = props()
        s, n, st, th = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6] == "1"
        if sys.argv[2] != "C15":
            # warm up, so that forked runs share the loaded package
            os.environ["HOME"] = os.path.join(os.environ["PYSIM_BUILD"], "home")
            try:
                base.load_package()
            except Exception:  # noqa: BLE001
                pass
        else:
            import imports
            imports.warm()
        for i in range(n):
            r, _ = run_plan(base.plan_text(P[sys.argv[2]][0](s, th)), False)
            r["seed"] = s
            print(json.dumps(r), flush=True)
            s += st
        print('{"edges":0,"map":""}')


main()
