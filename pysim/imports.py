"""C15: first and later imports of the package, alone and at the same time, under crashes, network and disk faults.

Every import is a real process executing the real package; each of its system calls on the scratch home directory, each
network exchange, clock reading, random byte and sleep waits for the decision of the scheduler here (sysshim.cpp)."""
import ctypes
import errno
import gc
import io
import os
import shutil
import signal
import socket
import struct
import sys
import tempfile

import base
from base import Violation, rng

PROCEED, FAIL, SHORT, CRASH_BEFORE, CRASH_AFTER, INTERRUPT, TORN = range(7)
REQ = struct.Struct("=q16s400s")
REP = struct.Struct("=qqqq")
NET = ("connect", "send", "status", "recv")
DISK = ("openx", "creat", "openw", "openr", "write", "mkdir", "rename", "link", "symlink", "close", "fsync", "trunc", "unlink", "flock")
EPOCH = 1_700_000_000_000_000_000
STEP_CAP = 30000
TIME_CAP = 86400 * 10 ** 9


class Internal(Exception):
    pass


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="tfksim.", dir="/tmp")
        return self.d

    def __exit__(self, *a):
        assert self.d.startswith("/tmp/tfksim.")
        shutil.rmtree(self.d, ignore_errors=True)


def published():
    data = os.path.join(os.environ["PYSIM_REPO"], "data")
    out = {}
    for n in ("pr2.urdf", "fetch.urdf"):
        with open(os.path.join(data, n), "rb") as f:
            out[n] = f.read()
    return out


# ------------------------------------------------------------------ the simulated network, in the importing process
class FakeSock:
    def __init__(self, event, bodies, chunked):
        self.event, self.bodies, self.chunked = event, bodies, chunked
        self.out, self.data, self.pos = b"", None, 0

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def close(self):
        pass

    def shutdown(self, *a):
        pass

    def fileno(self):
        return -1

    def sendall(self, b):
        a, v = self.event("send", "", len(b))
        if a == FAIL:
            raise OSError(v, os.strerror(v))
        self.out += bytes(b)
        while b"\r\n\r\n" in self.out:
            head, _, self.out = self.out.partition(b"\r\n\r\n")
            w = head.split(b"\r\n")[0].split()
            self.respond(w[0].decode(), w[1].decode())

    send = sendall

    def respond(self, method, path):
        name = path.split("?")[0].rsplit("/", 1)[-1]
        body, code = self.bodies.get(name), 200
        if body is None:
            body, code = b"not found", 404
        a, v = self.event("status", name, code)
        if a == FAIL:
            code, body = v, b"simulated error page, longer than nothing"
        h = "HTTP/1.1 %d X\r\nContent-Type: text/plain\r\nConnection: close\r\n" % code
        if self.chunked and code == 200:
            h += "Transfer-Encoding: chunked\r\n\r\n"
            body = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + 5000]), body[i:i + 5000]) for i in range(0, len(body), 5000)) + b"0\r\n\r\n"
        else:
            h += "Content-Length: %d\r\n\r\n" % len(body)
        if method == "HEAD":
            body = b""
        self.data = (self.data or b"")[self.pos:] + h.encode() + body
        self.pos = 0

    def makefile(self, *a, **k):
        return io.BufferedReader(Raw(self), 8192)

    def recv_into(self, buf, *a):
        left = len(self.data or b"") - self.pos
        a, v = self.event("recv", "", min(left, len(buf)))
        if a == FAIL:
            if v == errno.ETIMEDOUT:
                raise TimeoutError("timed out")
            raise OSError(v, os.strerror(v))
        n = min(left, len(buf))
        if a == SHORT:
            n = min(n, v)
        buf[:n] = self.data[self.pos:self.pos + n]
        self.pos = self.pos + n if n else len(self.data or b"")
        return n

    def recv(self, n, *a):
        b = bytearray(n)
        return bytes(b[:self.recv_into(memoryview(b))])


class Raw(io.RawIOBase):
    def __init__(self, s):
        io.RawIOBase.__init__(self)
        self.s = s

    def readable(self):
        return True

    def readinto(self, b):
        return self.s.recv_into(memoryview(b))


def patch_network(event, bodies, chunked):
    import http.client
    import ssl
    import urllib.request

    def connect(self):
        a, v = event("connect", self.host, 0)
        if a == FAIL:
            if v == 0:
                raise socket.gaierror(socket.EAI_AGAIN, "Temporary failure in name resolution")
            if v == errno.ETIMEDOUT:
                raise TimeoutError("timed out")
            raise OSError(v, os.strerror(v))
        self.sock = FakeSock(event, bodies, chunked)

    http.client.HTTPConnection.connect = connect
    http.client.HTTPSConnection.connect = connect
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ssl._create_default_https_context = ssl.create_default_context = lambda *a, **k: ctx
    urllib.request._opener = None
    urllib.request.getproxies = lambda: {}


def offline():
    """histories of C13 and C14 import the package with the files in place; a download is served at once"""
    patch_network(lambda *a: (0, 0), published(), False)


# ------------------------------------------------------------------ the importing process
def child(sock, scratch, spid, seed, now, chunked):
    try:
        import random
        null = os.open("/dev/null", os.O_RDWR)
        os.dup2(null, 2)
        os.dup2(null, 1)
        for k in [k for k in os.environ if k.lower().endswith("_proxy") or k.startswith("XDG_") or k in ("TMP", "TEMP")]:
            del os.environ[k]
        os.environ["HOME"] = scratch + "/home"
        os.environ["TMPDIR"] = scratch + "/tmp"
        os.chdir(scratch + "/cwd")
        signal.signal(signal.SIGINT, signal.default_int_handler)
        lib = ctypes.CDLL(None)
        lib.sysshim_event.restype = ctypes.c_int64
        lib.sysshim_event.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int64]
        lib.sysshim_enable.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_uint64, ctypes.c_int64]

        def event(op, what, n):
            r = lib.sysshim_event(op.encode(), what.encode("utf-8", "replace")[:390], n)
            return r >> 32, r & 0xffffffff

        patch_network(event, published(), chunked)
        tempfile._name_sequence = None
        tempfile.tempdir = None
        gc.collect()
        gc.disable()
        lib.sysshim_enable(sock, scratch.encode(), spid, seed, now)
        random.seed()
        event("begin", "", 0)
        try:
            m = base.load_package()
            res = ["ok"] + [str(f()) for f in (m.pr2_urdfpath, m.fetch_urdfpath)]
        except BaseException as e:  # noqa: BLE001
            res = ["fail", type(e).__name__, str(e).replace(scratch, "")[:200]]
            e.__traceback__ = None
            del e
        event(res[0], "\n".join(x.replace(scratch, "") for x in res[1:]), 0)
        try:
            import atexit
            gc.collect()
            atexit._run_exitfuncs()
        except BaseException:  # noqa: BLE001
            pass
        lib.sysshim_disable()
    finally:
        os._exit(0)


# ------------------------------------------------------------------ the scheduler
class Proc:
    def __init__(self, idx, client, a):
        self.idx, self.client, self.a = idx, client, a
        self.req = None
        self.done = self.blocked = False
        self.wake = 0
        self.n_events = self.n_net = self.n_disk = 0
        self.result = self.detail = None
        self.faults = set()
        self.sticky = 0
        self.ready = False


class Sched:
    def __init__(self, plan, ctx, scratch):
        self.p, self.ctx, self.d = plan, ctx, scratch
        self.now = EPOCH
        self.good = {}  # path -> bytes, from successful imports
        self.want = published()
        self.sw = list(plan["sw"])
        self.total = 0
        self.nimports = 0
        self.cap = None
        for x in ("home", "tmp", "cwd"):
            os.mkdir(os.path.join(scratch, x))

    def put(self, name):
        with open(os.path.join(self.d, "home/.tinyfk", name), "wb") as f:
            f.write(self.want[name])

    def usage(self):
        t = 0
        for d, _, fs in os.walk(self.d):
            for f in fs:
                try:
                    t += os.lstat(os.path.join(d, f)).st_size
                except OSError:
                    pass
        return t

    def check_complete(self, when):
        self.ctx.count("checks")
        for path, body in self.good.items():
            try:
                with open(self.d + path, "rb") as f:
                    got = f.read()
            except OSError as e:
                raise Violation("incomplete", "%s: %s is gone (%s)" % (when, path, e.strerror))
            if got != body:
                raise Violation("incomplete", "%s: %s has %d bytes of %s, %d expected" % (when, path, len(got), "the right content" if body.startswith(got) else "other content", len(body)))

    def spawn(self, proc, pids):
        a, b = socket.socketpair()
        self.nimports += 1
        proc.spid = pids
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            a.close()
            for o in self.procs:
                if o is not proc and getattr(o, "sock", None):
                    o.sock.close()
            child(b.fileno(), self.d, proc.spid, self.p["seed"] * 1000003 + self.nimports, self.now, proc.a.get("ch", 0))
        b.close()
        proc.pid, proc.sock = pid, a
        self.receive(proc)

    def receive(self, proc):
        buf = b""
        while len(buf) < REQ.size:
            k = proc.sock.recv(REQ.size - len(buf))
            if not k:
                break
            buf += k
        if len(buf) < REQ.size:
            st = os.waitpid(proc.pid, 0)[1]
            proc.sock.close()
            proc.done = True
            if os.WIFSIGNALED(st):
                if os.WTERMSIG(st) == signal.SIGKILL:
                    raise Internal("an importing process was killed from outside")
                raise Violation("crash:" + signal.Signals(os.WTERMSIG(st)).name, "the importing process died")
            if proc.result is None and os.WEXITSTATUS(st) != 137:
                raise Internal("importing process ended with %d without a result" % os.WEXITSTATUS(st))
            proc.req = None
            return
        n, op, path = REQ.unpack(buf)
        proc.req = (op.rstrip(b"\0").decode(), path.rstrip(b"\0").decode("utf-8", "replace"), n)

    def fault(self, proc, kind, counter):
        proc.faults.add(kind)
        self.ctx.count(counter)

    def decide(self, proc):
        """what happens to the call this process is about to make"""
        op, path, n = proc.req
        a, ctx = proc.a, self.ctx
        k = proc.n_events
        proc.n_events += 1
        if a.get("ck", 0) and k == a["ck"] and op not in ("ok", "fail"):
            v = a.get("cv", 0) % 3
            self.fault(proc, "crash", "crashes_mid_import")
            if op == "write" and v == 2:
                return TORN, n // 3
            return (CRASH_BEFORE if v == 0 else CRASH_AFTER), 0
        if a.get("ik", 0) and k == a["ik"] and op not in ("ok", "fail", "begin"):
            self.fault(proc, "interrupt", "interrupts")
            return INTERRUPT, 0
        if op in NET:
            i = proc.n_net
            proc.n_net += 1
            t = a.get("nt", 0)
            if op == "connect" and a.get("off", 0):
                self.fault(proc, "net", "net_offline")
                return FAIL, (0, errno.ENETUNREACH, errno.ETIMEDOUT)[t % 3]
            self.now += a.get("ns", 0) * 10 ** 6
            if a.get("ns", 0):
                ctx.count("net_slow")
            if a.get("nk", 0) and i + 1 == a["nk"]:
                if op == "connect":
                    self.fault(proc, "net", "net_refused")
                    return FAIL, (errno.ECONNREFUSED, 0, errno.ETIMEDOUT)[t % 3]
                if op == "send":
                    self.fault(proc, "net", "net_reset")
                    return FAIL, errno.ECONNRESET
                if op == "status":
                    self.fault(proc, "net", "net_http_error")
                    return FAIL, (404, 500, 429)[t % 3]
                if n or t % 3 != 1:
                    if t % 3 == 1:
                        self.fault(proc, "net", "net_truncated")
                        return SHORT, 0
                    self.fault(proc, "net", "net_reset")
                    return FAIL, (errno.ECONNRESET, 0, errno.ETIMEDOUT)[t % 3]
            if op == "recv" and a.get("nc", 0):
                return SHORT, a["nc"]
        if op in DISK:
            if self.cap is not None and op == "write" and not proc.sticky:
                room = self.cap - self.usage()
                if room < n:
                    self.fault(proc, "full", "disk_full")
                    return (SHORT, room) if room > 0 else (FAIL, errno.ENOSPC)
            i = proc.n_disk
            proc.n_disk += 1
            if proc.sticky and op in ("write", "openx", "creat", "mkdir"):
                self.fault(proc, "disk", "disk_full")
                return FAIL, proc.sticky
            if a.get("dk", 0) and i + 1 == a["dk"]:
                t = a.get("dt", 0)
                if op == "write":
                    if t % 4 == 0:
                        self.ctx.count("short_writes")
                        return SHORT, max(1, n // 2)
                    if t % 4 == 1:
                        self.fault(proc, "disk", "write_errors")
                        return FAIL, errno.EIO
                    proc.sticky = (errno.ENOSPC, errno.EDQUOT)[t % 2]
                    self.fault(proc, "disk", "disk_full")
                    return FAIL, proc.sticky
                if op in ("openx", "creat", "openw", "openr"):
                    self.fault(proc, "disk", "open_errors")
                    return FAIL, (errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EIO)[t % 4]
                if op == "mkdir":
                    self.fault(proc, "disk", "mkdir_errors")
                    return FAIL, (errno.EACCES, errno.ENOSPC, errno.EROFS)[t % 3]
                if op == "close":
                    self.fault(proc, "disk", "close_errors")
                    return FAIL, errno.EIO
                self.fault(proc, "disk", "rename_errors")
                return FAIL, (errno.EIO, errno.EACCES, errno.ENOSPC)[t % 3]
        if op in ("rename", "link") and self.p["knobs"].get("xdev", 0) and ">" in path:
            x, y = path.split(">", 1)
            if x.split("/")[1:2] != y.split("/")[1:2]:
                return FAIL, errno.EXDEV
        return PROCEED, 0

    def step(self, proc):
        op, path, n = proc.req
        self.total += 1
        act, val = self.decide(proc)
        self.ctx.count("syscalls")
        self.ctx.count("steps")
        before = self.now
        self.now += 20000
        self.ctx.event("%d %s %s %d -> %d %d" % (proc.idx, op, path, n, act, val))
        self.ctx.mark("%d %s %d" % (proc.idx, op, act))
        if op == "sleep":
            proc.wake = self.now + n
        if op == "blocked":
            proc.blocked = True
            self.ctx.count("blocked_on_lock")
        if op == "ok":
            proc.result = "ok"
            names = path.split("\n")
            if len(names) != 2:
                raise Internal("bad result message")
            for x, body in zip(names, ("pr2.urdf", "fetch.urdf")):
                if x.startswith("/home/") or x.startswith("/tmp/") or x.startswith("/cwd/"):
                    self.good[x] = self.want[body]
                else:
                    raise Violation("path", "the package names %r, outside the home directory" % x)
            self.ctx.count("import_successes")
        elif op == "fail":
            proc.result, proc.detail = "fail", path
            self.ctx.count("import_failures")
        if op in ("sleep", "blocked") and not proc.ready:
            # answered once it runs again
            proc.ready = True
            return
        proc.ready = False
        proc.sock.sendall(REP.pack(act, val, self.now, 0))
        self.receive(proc)
        if op not in ("blocked", "flock"):
            for o in self.procs:
                if o is not proc:
                    o.blocked = False
        self.check_complete("import %d after %s %s" % (proc.idx, op, path) if op != "ok" else "when import %d had succeeded" % proc.idx)
        self.ctx.c[base.INDEX["simulated_ms"]] += (self.now - before) // 10 ** 6

    def group(self, ops, first):
        """imports running at the same time"""
        ctx = self.ctx
        self.procs = [Proc(first + i, c, a) for i, (c, a) in enumerate(ops)]
        had = bool(self.good)
        caps = [a["cap"] for _, a in ops if a.get("cap")]
        self.cap = self.usage() + caps[0] if caps else None
        if len(ops) > 1:
            ctx.count("concurrent_imports", len(ops))
        for i, pr in enumerate(self.procs):
            reuse = self.p["knobs"].get("pid", 0)
            if reuse:
                ctx.count("pid_reuse")
            self.spawn(pr, 5000 + i if reuse else 5000 + self.nimports)
        start, cur, left, rounds, rot = self.total, None, 0, 0, 0
        t0 = self.now
        while True:
            live = [p for p in self.procs if not p.done]
            if not live:
                break
            run = [p for p in live if not p.blocked and p.wake <= self.now]
            if not run:
                sleeping = [p for p in live if p.wake > self.now]
                if sleeping:
                    ctx.c[base.INDEX["simulated_ms"]] += (min(p.wake for p in sleeping) - self.now) // 10 ** 6
                    self.now = min(p.wake for p in sleeping)
                    continue
                rot += 1
                rounds += 1
                run = [live[rot % len(live)]]
            else:
                rounds = 0
            if rounds > 200 or self.total - start > STEP_CAP or self.now - t0 > TIME_CAP:
                hung = [p for p in live if not p.faults]
                for p in live:
                    os.kill(p.pid, signal.SIGKILL)
                    os.waitpid(p.pid, 0)
                    p.sock.close()
                    p.done = True
                    p.result = p.result or "hung"
                if hung:
                    raise Violation("hang", "import %d makes no progress" % hung[0].idx)
                break
            if cur not in run or left <= 0:
                if self.sw:
                    x = self.sw.pop(0)
                    nxt, left = run[x % 8 % len(run)], x // 8 + 1
                else:
                    nxt, left = (cur if cur in run else run[0]), 10 ** 6
                if cur is not None and nxt is not cur:
                    ctx.count("process_switches")
                cur = nxt
            left -= 1
            self.step(cur)
        for p in self.procs:
            ctx.count("imports")
            excuse = p.faults - ({"net"} if had else set())
            if p.result != "ok" and not excuse:
                raise Violation("import-failed", "import %d failed without a fault of its own%s: %s" % (p.idx, " although an earlier import had completed the files" if had else "", p.detail))
            ctx.mark("%s %s" % (p.result, sorted(p.faults)))
            ctx.event("import %d: %s %s" % (p.idx, p.result, p.detail))
            if p.faults or len(self.procs) > 1:
                ctx.nontrivial = 1
        self.cap = None
        return self.procs


def run15(p, ctx):
    warm()
    with Scratch() as d:
        s = Sched(p, ctx, d)
        init = p["knobs"].get("init", 0)
        if init:
            os.mkdir(d + "/home/.tinyfk")
        if init in (2, 4):
            s.put("pr2.urdf")
        if init in (3, 4):
            s.put("fetch.urdf")
        try:
            i, ops = 0, [(c, a) for c, k, a in p["ops"] if k == "imp"]
            while i < len(ops):
                j = i
                while j < len(ops) and ops[j][1].get("g") == ops[i][1].get("g") and j - i < 6:
                    j += 1
                ctx.where = "imports %d to %d" % (i, j - 1)
                ctx.count("ops", j - i)
                s.group(ops[i:j], i)
                i = j
            # the faults stop
            ctx.where = "after the faults stopped"
            pr = s.group([(0, {})], i)
            if pr[0].result != "ok":
                raise Violation("no-recovery", "the next import failed: %s" % pr[0].detail)
            ctx.where = "without network, files complete"
            s.group([(0, {"off": 1})], i + 1)
        finally:
            for pr in getattr(s, "procs", []):
                if not pr.done and getattr(pr, "pid", 0):
                    try:
                        os.kill(pr.pid, signal.SIGKILL)
                        os.waitpid(pr.pid, 0)
                    except (OSError, ChildProcessError):
                        pass


_warm = []


def warm():
    """shared by all simulated processes: the interpreter with numpy, the extension module and the network modules loaded"""
    if not _warm:
        import http.client  # noqa: F401
        import shutil  # noqa: F401
        import ssl  # noqa: F401
        import urllib.request  # noqa: F401
        import uuid  # noqa: F401
        import fcntl  # noqa: F401
        import hashlib  # noqa: F401
        import time  # noqa: F401
        import random  # noqa: F401
        import numpy  # noqa: F401
        base.load_ext()
        _warm.append(1)


def gen15(seed, thorough):
    g = rng("C15", seed)
    p = {"prop": "C15", "seed": seed, "knobs": {}, "robots": [], "ops": [], "sw": []}
    p["knobs"] = {"init": g.choice((0, 0, 0, 0, 1, 2, 3, 4)), "xdev": g.randrange(2), "pid": g.randrange(2)}
    groups = g.choice((1, 1, 2, 2, 3) if not thorough else (1, 2, 3, 4))
    heat = g.choice((0.3, 0.6, 0.9))
    for gr in range(groups):
        n = g.choices((1, 2, 3, 4), (5, 4, 2, 1))[0]
        clean = g.random() < 0.3
        for i in range(n):
            a = {"g": gr}
            if g.random() < 0.3:
                a["ch"] = 1
            if g.random() < 0.5:
                a["nc"] = g.choice((100, 1000, 3000, 8192)) if thorough else g.choice((3000, 8192))
            if g.random() < 0.3:
                a["ns"] = g.choice((1, 50, 400))
            if not clean and g.random() < heat:
                f = g.choices(("crash", "net", "disk", "cap", "off", "int", "short"), (8, 4, 4, 1.5, 1, 2, 1))[0]
                if f == "crash":
                    a["ck"], a["cv"] = g.choice((g.randint(1, 12), g.randint(1, 60))), g.randrange(3)
                elif f == "net":
                    a["nk"], a["nt"] = g.choice((g.randint(1, 6), g.randint(1, 30))), g.randrange(3)
                elif f == "disk":
                    a["dk"], a["dt"] = g.randint(1, 30), g.randrange(12)
                elif f == "short":
                    a["dk"], a["dt"] = g.randint(1, 30), 4 * g.randrange(3)
                elif f == "cap":
                    a["cap"] = g.choice((1, g.randrange(1, 20000), g.randrange(1, 75000)))
                elif f == "off":
                    a["off"], a["nt"] = 1, g.randrange(3)
                else:
                    a["ik"] = g.randint(1, 60)
            p["ops"].append((i, "imp", a))
    style = g.randrange(3)
    for _ in range(0 if style == 0 else g.choice((10, 40, 150))):
        p["sw"].append(g.randrange(8) + 8 * (0 if style == 1 and g.random() < 0.7 else g.randrange(12)))
    return p
