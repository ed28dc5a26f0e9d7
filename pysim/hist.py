"""C13 and C14: histories of calls by several clients on Python models."""
import copy
import math
import os
import pickle

import numpy as np

from base import Violation, ext, load_package, rnd_robot, rng
import robot as rb

FIXED, PLANER, FLOATING = 0, 1, 2


# ------------------------------------------------------------------ generation
def gen13(seed, thorough):
    g = rng("C13", seed)
    p = {"prop": "C13", "seed": seed, "knobs": {}, "robots": [rnd_robot(g, thorough)], "ops": [], "sw": []}
    models = 1 if g.random() < 0.7 else 2
    clients = g.randint(1, 4)
    mix = {k: w for k, w in (("setq", 3), ("setmany", 0.05), ("fk", 5), ("com", 4), ("inertia", 2), ("dists", 3), ("add", 1.2), ("clear", 0.6), ("bad", 1.2), ("cache", 1.5), ("stale", 1.2), ("oom", 0.8), ("getq", 1)) if g.random() < 0.75}
    mix.setdefault("fk", 2)
    p["knobs"] = {"models": models, "clients": clients}
    if g.random() < 0.02:
        p["robots"] = [dict(rnd_robot(g, True), joints=g.randint(25, 70))] if p["robots"][0]["kind"] == "gen" else p["robots"]
    for _ in range(g.randint(4, 60 if thorough else 22) if g.random() < 0.98 else g.randint(80, 160)):
        k = g.choices(list(mix), list(mix.values()))[0]
        p["ops"].append((g.randrange(clients), k, {"s": g.randrange(10 ** 9), "m": g.randrange(models)}))
    return p


def gen14(seed, thorough):
    g = rng("C14", seed)
    p = {"prop": "C14", "seed": seed, "knobs": {}, "robots": [rnd_robot(g, thorough) for _ in range(g.choice((1, 1, 2)))], "ops": [], "sw": []}
    slots, disks, clients = g.randint(1, 4), g.randint(1, 3), g.randint(1, 3)
    mix = {k: w for k, w in (("setq", 4), ("setmany", 0.25), ("badset", 1.2), ("add", 2), ("badadd", 1.2), ("solve", 1.5), ("mutate", 1.2), ("save", 3), ("load", 2), ("deepcopy", 1.5), ("copy", 1.5), ("restart", 1), ("oomadd", 0.5), ("oomload", 0.5)) if g.random() < 0.8}
    mix.setdefault("save", 2)
    mix.setdefault("load", 2)
    p["knobs"] = {"slots": slots, "disks": disks}
    p["ops"].append((0, "new", {"s": g.randrange(10 ** 9), "m": 0, "r": 0}))
    for _ in range(g.randint(4, 60 if thorough else 24) if g.random() < 0.97 else g.randint(80, 250)):
        k = g.choices(list(mix), list(mix.values()))[0]
        a = {"s": g.randrange(10 ** 9), "m": g.randrange(slots)}
        if k in ("save", "load", "oomload"):
            a["d"] = g.randrange(disks)
        if k in ("copy", "deepcopy"):
            a["t"] = g.randrange(slots)
        if g.random() < 0.06:
            k, a = "new", {"s": a["s"], "m": a["m"], "r": g.randrange(len(p["robots"]))}
        p["ops"].append((g.randrange(clients), k, a))
    return p


# ------------------------------------------------------------------ a model with its reference
class Model:
    def __init__(self, w, obj, ref, rec=None):
        self.w, self.o, self.ref = w, obj, ref
        self.rec = rec if rec is not None else ref.clone()
        self.stale = False
        self.link_id, self.joint_id = {}, {}
        self.learn()

    def learn(self):
        r = self.ref.r
        names = [l.name for l in r.links] + self.ref.order
        ids = self.o.get_link_ids(names)
        self.w.check(len(set(ids)) == len(names), "ids", "link ids repeat: %s" % ids)
        for n, i in zip(names, ids):
            self.same_id("link " + n, i)
            self.link_id[n] = i
        jn = [j.name for j in r.movable]
        ids = self.o.get_joint_ids(jn)
        for n, i in zip(jn, ids):
            self.same_id("joint " + n, i)
            self.joint_id[n] = i
        self.w.check(len(set(ids)) == len(ids), "ids", "joint ids repeat")
        got = self.o.get_joint_names()
        self.w.check(all(got[i] == n for n, i in zip(jn, ids)), "ids", "joint names and ids disagree")

    def same_id(self, what, i):
        for r in {id(self.ref): self.ref, id(self.rec): self.rec}.values():
            if r.ids.setdefault(what, i) != i:
                raise Violation("ids", "the id of %s was %d and is now %d" % (what, r.ids[what], i))

    def jids(self, names):
        return [self.joint_id[n] for n in names]

    def check_config(self, what=""):
        """reads the configuration back in every form"""
        w, tf, ref = self.w, self.w.tf, self.ref
        names = [j.name for j in ref.r.movable]
        ids = self.jids(names)
        want = np.array([ref.q[n] for n in names])
        for bt in (tf.BaseType.FIXED, tf.BaseType.PLANER, tf.BaseType.FLOATING):
            got = np.asarray(self.o.get_q(ids, bt))
            nb = {0: 0, 1: 3, 2: 6}[bt.value]
            w.check(got.shape == (len(ids) + nb,), "get_q", "get_q has shape %s" % (got.shape,))
            w.check(np.array_equal(got[:len(ids)], want), "get_q", "%s: joint angles read back as %s, last set %s" % (what, got[:len(ids)], want))
            if nb == 6:
                b = got[-6:]
                w.check(np.allclose(b[:3], ref.base[:3], atol=1e-9) and np.allclose(rb.rot_rpy(b[3:]), rb.rot_rpy(ref.base[3:]), atol=1e-6),
                        "get_q", "%s: base pose reads back as %s, last set %s" % (what, b, ref.base))
            elif nb == 3:
                b = got[-3:]
                w.check(np.allclose(b[:2], ref.base[:2], atol=1e-9), "get_q", "%s: planar base reads back as %s, last set %s" % (what, b, ref.base))
                if abs(abs(rb.rpy_of(rb.rot_rpy(ref.base[3:]))[1]) - np.pi / 2) > 0.1:
                    d = b[2] - rb.rpy_of(rb.rot_rpy(ref.base[3:]))[2]
                    w.check(abs((d + np.pi) % (2 * np.pi) - np.pi) < 1e-6, "get_q", "%s: base yaw reads back as %s, last set %s" % (what, b, ref.base))
        w.event("config", got.tobytes())

    def check_limits(self):
        r = self.ref.r
        names = [j.name for j in r.movable]
        got = self.o.get_joint_limits(self.jids(names))
        for j, (lo, hi) in zip(r.movable, got):
            if j.limits is None:
                self.w.check(lo is None and hi is None, "limits", "continuous joint %r has limits (%s, %s)" % (j.name, lo, hi))
            else:
                self.w.check(lo is not None and abs(lo - j.limits[0]) < 1e-9 and abs(hi - j.limits[1]) < 1e-9, "limits", "joint %r has limits (%s, %s), declared %s" % (j.name, lo, hi, j.limits))

    def check_links(self, g, k=4):
        """poses of some links (always the added ones) at the current configuration, through solve_fk"""
        ref, tf = self.ref, self.w.tf
        names = ref.order + [l.name for l in ref.r.links]
        pick = ref.order[-3:] + g.sample(names, min(k, len(names)))
        js = [j.name for j in ref.r.movable]
        q = [ref.q[n] for n in js] + list(ref.base)
        P, _ = self.o.solve_fk(np.array([q]), [self.link_id[n] for n in pick], self.jids(js), tf.RotationType.RPY, tf.BaseType.FLOATING)
        f = ref.at()
        for i, n in enumerate(pick):
            R, p = f.link(n)
            self.w.check(np.allclose(P[i, :3], p, atol=1e-6) and np.allclose(rb.rot_rpy(P[i, 3:]), R, atol=1e-5), "pose", "link %r is at %s, %s expected" % (n, P[i], p))


class World:
    def __init__(self, plan, ctx):
        self.p, self.ctx = plan, ctx
        self.tf = load_package()
        self.kept = []
        self.xml_files = 0
        self.past = []  # joint subsets and vectors used before

    def check(self, ok, cls, msg):
        self.ctx.count("checks")
        if not ok:
            raise Violation(cls, msg)

    def event(self, t, d=b""):
        self.ctx.event(t, d)

    def robot(self, i):
        return rb.build(self.p["robots"][i % len(self.p["robots"])])

    def new(self, g, r):
        rob = self.robot(r)
        if g.random() < 0.3:
            path = "robot%d.urdf" % self.xml_files
            self.xml_files += 1
            with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(rob.xml())
            try:
                o = self.tf.KinematicModel(path)
            finally:
                os.unlink(path)
        else:
            o = self.tf.KinematicModel(xml_text=rob.xml())
        self.check(abs(o.total_mass - rob.mass) < 1e-9 * max(1, rob.mass), "mass", "total mass %r, declared %r" % (o.total_mass, rob.mass))
        self.check(o.root_link_name == rob.root, "ids", "root link is %r, not %r" % (o.root_link_name, rob.root))
        return Model(self, o, rb.Ref(rob))

    def base_type(self, b):
        return {FIXED: self.tf.BaseType.FIXED, PLANER: self.tf.BaseType.PLANER, FLOATING: self.tf.BaseType.FLOATING}[b]


def rnd_angle(g):
    return g.choice((0.0, g.uniform(-0.05, 0.05), g.uniform(-3.1, 3.1), g.uniform(-3.1, 3.1), 1.0, g.choice((g.uniform(-40, 40), -1e-7, math.pi, math.pi / 2, -math.pi / 2))))


def rnd_base(g):
    """base angles; now and then a pitch beyond 90 degrees, or angles that are exactly right angles"""
    rpy = [g.uniform(-3, 3), g.uniform(-1.2, 1.2), g.uniform(-3, 3)]
    if g.random() < 0.15:
        rpy[1] = g.choice((g.uniform(-3.1, 3.1), g.uniform(-3.1, 3.1), math.pi / 2, -math.pi / 2, g.uniform(-7, 7)))
    if g.random() < 0.15:
        rpy[g.choice((0, 2))] = g.choice((0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, g.uniform(-20, 20)))
    return rpy


def rnd_q(g, n, b):
    q = [rnd_angle(g) for _ in range(n)]
    if b == PLANER:
        q += [g.uniform(-2, 2), g.uniform(-2, 2), g.uniform(-3, 3)]
    elif b == FLOATING:
        q += [g.choice((0.0, g.uniform(-2, 2))) for _ in range(3)] + rnd_base(g)
    return q


def next_q(w, g, ref, names, b):
    """a configuration for the given joints: mostly new, sometimes one that was used before, in full or in part"""
    q = rnd_q(g, len(names), b)
    if w.past and g.random() < 0.3:
        onames, ob, oq = g.choice(w.past[-4:]) if g.random() < 0.7 else g.choice(w.past)
        old = dict(zip(onames, oq))
        if g.random() < 0.7:
            q[:len(names)] = [old.get(n, v) for n, v in zip(names, q)]
        elif g.random() < 0.3:
            q[:len(names)] = [-old.get(n, v) for n, v in zip(names, q)]
        if b == FLOATING and ob == FLOATING and g.random() < 0.85:
            q[-6:] = oq[-6:]
        elif b == PLANER and ob == PLANER and g.random() < 0.85:
            q[-3:] = oq[-3:]
        elif b == PLANER and ob == FLOATING and g.random() < 0.5:
            q[-3:] = [oq[-6], oq[-5], oq[-1]]
        elif b == FLOATING and ob == PLANER and g.random() < 0.5:
            q[-6:] = [oq[-3], oq[-2], 0.0, 0.0, 0.0, oq[-1]]
        if b != FIXED and g.random() < 0.4:
            i = g.choice([-1, -3, -2] if b == PLANER else [-1, -3, -4, -5, -6])
            q[i] = g.choice((-q[i], 0.0, q[i] + 0.25, q[i] + 1e-6))
    if g.random() < 0.7:
        w.past.append((list(names), b, list(q)))
        if len(w.past) > 12:
            del w.past[0]
    return q


def apply_q(ref, names, q, b):
    for n, v in zip(names, q):
        ref.q[n] = float(v)
    if b == PLANER:
        ref.base = [float(q[-3]), float(q[-2]), 0.0, 0.0, 0.0, float(q[-1])]
    elif b == FLOATING:
        ref.base = [float(v) for v in q[-6:]]


def current_q(ref, names, b):
    q = [ref.q[n] for n in names]
    if b == PLANER:
        q += [ref.base[0], ref.base[1], ref.base[5]]
    elif b == FLOATING:
        q += list(ref.base)
    return q


def subset(g, ref, w=None):
    names = [j.name for j in ref.r.movable]
    if not names:
        return []
    k = len(names) if g.random() < 0.5 else g.randint(1, len(names))
    out = g.sample(names, min(k, 9))
    if w is not None and w.past and g.random() < 0.3:
        old = g.choice(w.past[-4:])[0]
        if set(old) <= set(names):
            out = list(old)
            if g.random() < 0.2:
                g.shuffle(out)
    return out


def pick_links(g, ref, lo=1, hi=4):
    names = [l.name for l in ref.r.links] + ref.order * 2
    if hi > 1 and g.random() < 0.03:
        hi = 20
    return [g.choice(names) for _ in range(g.randint(lo, hi))]


def form(g, qs):
    k = g.randrange(4)
    if k == 0:
        return [np.array(q) for q in qs]
    if k == 1 and all(len(q) for q in qs):
        return [list(q) for q in qs]
    return np.array(qs, dtype=float).reshape(len(qs), len(qs[0]) if qs else 0)


def frozen(x):
    return [np.array(v, copy=True) for v in x] if isinstance(x, list) else np.array(x, copy=True)


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b)) and len(a) == len(b)


def close(a, b, tol, scale=1.0):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (scale + np.abs(b))))


# ------------------------------------------------------------------ C13
def solver(w, M, g, kind, use_cache=None, unchanged=False, judge=True, arm=0):
    """one solver call, judged waypoint by waypoint against the reference"""
    tf, ref, o = w.tf, M.ref, M.o
    if kind in ("com", "inertia") and not ref.r.mass:
        kind = "fk"  # undefined without mass
    names = subset(g, ref, w)
    b = g.choices((FIXED, PLANER, FLOATING), (4, 3, 3))[0] if kind != "inertia" else FIXED
    jac = g.random() < 0.6
    n = 1 if kind == "inertia" else 0 if g.random() < 0.04 else g.choice((1, 1, 2, 3, 4)) if g.random() < 0.97 else g.randint(5, 40)
    step = g.random() < 0.4
    if unchanged:
        if b == PLANER and any(ref.base[i] for i in (2, 3, 4)):
            b = FIXED
        n = max(n, 1)
        qs = [current_q(ref, names, b)] * n
    else:
        qs = [next_q(w, g, ref, names, b) for _ in range(n)]
        if step and n:
            cur = current_q(ref, names, b)
            for i in range(n):
                cur = [v + g.choice((0.0, 0.01)) for v in cur]
                qs[i] = list(cur)
            if b == FLOATING:
                for q in qs:
                    q[-2] = max(-1.2, min(1.2, q[-2]))
    ids = M.jids(names)
    single = False
    if n == 0:
        arg = np.zeros((0, len(names) + {FIXED: 0, PLANER: 3, FLOATING: 6}[b]))
        w.ctx.count("empty_batches")
    else:
        arg = form(g, qs)
        if kind == "fk" and n == 1 and g.random() < 0.3:
            arg, single = np.array(qs[0]), True
    before = frozen(arg)
    kw = {"base_type": w.base_type(b), "with_jacobian": jac}
    if use_cache is not None:
        kw["use_cache"] = use_cache
    links = pick_links(g, ref)
    rot = g.randrange(3)
    forces = None
    if kind == "com" and g.random() < 0.5:
        links = pick_links(g, ref, 1, 3)
        forces = [g.uniform(0.1, 30) if g.random() < 0.8 else g.uniform(-0.2, 0.2) * ref.r.mass / 3 for _ in links]
    w.ctx.count("solver_calls")
    w.ctx.count("waypoints", n)
    w.ctx.mark("%s %d %d %d %d %s" % (kind, b, n, jac, len(names), use_cache))
    if arm:
        ext()._sim_arm(arm)
    try:
        lids = [M.link_id[x] for x in links]
        if kind == "fk":
            rt = (tf.RotationType.IGNORE, tf.RotationType.RPY, tf.RotationType.XYZW)[rot]
            el = lids[0] if len(lids) == 1 and g.random() < 0.4 else lids
            P, J = o.solve_fk(arg, el, ids, rot_type=rt, **kw)
        elif kind == "com":
            P, J = o.solve_com_fk(arg, ids, action_link_ids=lids if forces else None, action_forces=forces, **kw)
        elif kind == "inertia":
            P, J = o.compute_total_inertia_matrix(g.choice((np.array, list))(qs[0]), ids), None
        else:
            links2 = pick_links(g, ref, len(links), len(links))
            P, J = o.compute_inter_link_sqdists(arg, [(M.link_id[x], M.link_id[y]) for x, y in zip(links, links2)], ids, **kw)
    finally:
        if arm:
            made, fired = ext()._sim_disarm()
            w.ctx.count("allocation_faults", fired)
    if kind != "inertia":
        w.check(same([np.asarray(x) for x in before], [np.asarray(x) for x in arg]) if not single else np.array_equal(before, arg), "argument", "%s changed its caller's array" % kind)
    P = np.asarray(P)
    w.event("%s %s" % (kind, P.shape), P.tobytes() + (np.asarray(J).tobytes() if J is not None and jac else b""))
    what = "%s base=%d joints=%s waypoints=%d use_cache=%s" % (kind, b, names, n, use_cache)
    ncols = len(names) + {FIXED: 0, PLANER: 3, FLOATING: 6}[b]
    sel = None
    if b == PLANER:
        k = len(names)
        sel = list(range(k)) + [k, k + 1, k + 5]
    nl = len(links)
    if not judge:
        for q in qs:
            apply_q(ref, names, q, b)
        return
    if kind == "fk":
        dim = (3, 6, 7)[rot]
        w.check(P.shape == (n * nl, dim), "shape", "%s: poses have shape %s" % (what, P.shape))
        if jac:
            w.check(J.shape == (n * nl * dim, ncols), "shape", "%s: Jacobian has shape %s, %s expected" % (what, J.shape, (n * nl * dim, ncols)))
    elif kind == "com":
        w.check(P.shape == (n, 3), "shape", "%s: centres have shape %s" % (what, P.shape))
        if jac:
            w.check(J.shape == (n * 3, ncols), "shape", "%s: Jacobian has shape %s, %s expected" % (what, J.shape, (n * 3, ncols)))
    elif kind == "dists":
        w.check(P.shape == (n * nl,), "shape", "%s: distances have shape %s" % (what, P.shape))
        if jac:
            w.check(J.shape == (n * nl, ncols), "shape", "%s: gradient has shape %s, %s expected" % (what, J.shape, (n * nl, ncols)))
    for i, q in enumerate(qs):
        apply_q(ref, names, q, b)
        f = ref.at()
        L = max(1.0, ref.reach() / 10)  # differences taken numerically are off in proportion to lengths
        wb = b != FIXED
        cut = (lambda T: T if sel is None else T[:, sel])
        at = "%s, waypoint %d" % (what, i)
        apart = not (b == FLOATING and abs(math.cos(ref.base[4])) < 1e-4)  # else the base angles cannot be told apart

        def cols(A, apart=apart):
            if apart:
                return A
            A = np.array(A, copy=True)
            A[..., len(names) + 3:] = 0
            return A

        if kind == "fk":
            for k, ln in enumerate(links):
                R, p = f.link(ln)
                row = P[i * nl + k]
                ok = close(row[:3], p, 1e-8, L)
                if rot == 1:
                    ok = ok and np.allclose(rb.rot_rpy(row[3:]), R, atol=1e-7 if abs(R[2, 0]) < 1 - 1e-12 else 1e-6)
                if rot == 2:
                    ok = ok and np.allclose(rb.rot_quat(row[3:]), R, atol=1e-8) and abs(np.linalg.norm(row[3:]) - 1) < 1e-6
                w.check(ok, "fk", "%s: link %r (added: %s) is at %s, %s expected" % (at, ln, ln in ref.added, row, p))
                if jac:
                    dim = (3, 6, 7)[rot]
                    T = f.twist(ln, p, names, wb)
                    want = T[:3]
                    if rot == 1:
                        if abs(rb.rpy_of(R)[1]) > 1.3:
                            want = None
                        else:
                            want = np.vstack([T[:3], rb.rpy_rates(rb.rpy_of(R), T[3:])])
                    if rot == 2:
                        want = np.vstack([T[:3], rb.quat_rates(row[3:], T[3:])])
                    got = J[(i * nl + k) * dim:(i * nl + k + 1) * dim]
                    if want is None:
                        got, want = got[:3], T[:3]
                    w.check(close(cols(got), cols(cut(want)), 1e-4, L), "fk-jac", "%s: Jacobian of link %r rot %d is\n%s, expected\n%s" % (at, ln, rot, got, cut(want)))
        elif kind == "com":
            c, F, TJ = f.com(), 1.0, (f.com_jac(names, wb) if jac else None)
            if forces:
                c = c.copy()
                for ln, fo in zip(links, forces):
                    k = fo / ref.r.mass
                    R, p = f.link(ln)
                    c += k * p
                    F += k
                    if jac:
                        TJ = TJ + k * f.twist(ln, p, names, wb)[:3]
            if F < 0.3:
                continue
            w.check(close(P[i], c / F, 1e-8, L), "com", "%s: centre of mass %s, %s expected (forces %s on %s)" % (at, P[i], c / F, forces, links))
            if jac:
                w.check(close(cols(J[3 * i:3 * i + 3]), cols(cut(TJ / F)), 1e-4, L), "com-jac", "%s: centre of mass Jacobian\n%s, expected\n%s (forces %s)" % (at, J[3 * i:3 * i + 3], cut(TJ / F), forces))
        elif kind == "inertia":
            want = f.inertia()
            w.check(close(P, want, 1e-6 * max(1, np.abs(want).max())), "inertia", "%s: inertia\n%s, expected\n%s" % (at, P, want))
        else:
            for k, (x, y) in enumerate(zip(links, links2)):
                px, py = f.link(x)[1], f.link(y)[1]
                d = px - py
                w.check(close(P[i * nl + k:i * nl + k + 1], np.array([d @ d]), 1e-8, L * L), "dists", "%s: squared distance of %r and %r is %s, %s expected" % (at, x, y, P[i * nl + k], d @ d))
                if jac:
                    want = 2 * (f.twist(x, px, names, wb) - f.twist(y, py, names, wb))[:3].T @ d
                    want = want if sel is None else want[sel]
                    w.check(close(cols(J[i * nl + k]), cols(want), 1e-4, L * L), "dists-jac", "%s: gradient of the distance of %r and %r is %s, %s expected" % (at, x, y, J[i * nl + k], want))
        w.ctx.nontrivial = 1
    if len(w.kept) < 8 and n:
        w.kept.append((P, P.copy(), J, None if J is None else np.array(J, copy=True), kind))
    return n


def add_link(w, M, g, name=None, parent=None, arm=0):
    ref = M.ref
    names = [l.name for l in ref.r.links] + ref.order
    name = name or "extra %d" % len(ref.order) if g.random() < 0.1 else name or "x%d_%d" % (len(ref.order), g.randrange(1000))
    parent = parent or g.choice(names + ref.order * 2)
    xyz = [g.choice((0.0, g.uniform(-1, 1))) for _ in range(3)]
    rpy = None if g.random() < 0.3 else [g.uniform(-3, 3), g.uniform(-1.5, 1.5), g.uniform(-3, 3)]
    ax = np.array(xyz) if g.random() < 0.6 else list(xyz)
    ar = None if rpy is None else (np.array(rpy) if g.random() < 0.6 else list(rpy))
    if arm:
        ext()._sim_arm(arm)
    try:
        M.o.add_new_link(name, M.link_id[parent], ax, ar) if rpy is not None or g.random() < 0.5 else M.o.add_new_link(name, M.link_id[parent], ax)
    finally:
        if arm:
            w.ctx.count("allocation_faults", ext()._sim_disarm()[1])
    for r in {id(ref): ref, id(M.rec): M.rec}.values():
        r.add(name, parent, xyz, rpy or [0, 0, 0])
    w.ctx.count("link_additions")
    w.event("add %s to %s" % (name, parent))
    M.learn()
    return [ax, ar]


def must_raise(w, what, fn):
    try:
        fn()
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:  # noqa: BLE001
        w.event("rejected %s" % what)
        w.ctx.count("rejected_calls")
        return type(e).__name__
    raise Violation("not-rejected", "%s was accepted" % what)


BASE_DIM = {FIXED: 0, PLANER: 3, FLOATING: 6}


def bad_vector(g, n):
    """a vector that is no valid list of n coordinates, and what is wrong with it"""
    if n and g.random() < 0.45:
        q = [g.uniform(-1, 1) for _ in range(n)]
        i = g.choice((0, n - 1, g.randrange(n)))
        q[i] = g.choice(("x", "x", [0.5, 1.0]))
        return q, "%r at place %d of %d" % (q[i], i, n)
    m = max(0, n + g.choice((-6, -3, -2, -1, 1, 2, 3, 6)))
    if m == n:
        m += 1
    q = [g.uniform(-1, 1) for _ in range(m)]
    return (np.array(q) if g.random() < 0.7 else q), "%d instead of %d coordinates" % (m, n)


def bad_set(w, M, g):
    names = subset(g, M.ref, w)
    b = g.choice((FIXED, PLANER, FLOATING))
    q, why = bad_vector(g, len(names) + BASE_DIM[b])
    must_raise(w, "set_q (base type %d) with %s" % (b, why), lambda: M.o.set_q(M.jids(names), q, w.base_type(b)))


def bad_solve(w, M, g):
    tf, ref, o = w.tf, M.ref, M.o
    names = subset(g, ref, w)
    ids = M.jids(names)
    b = g.choice((FIXED, PLANER, FLOATING))
    n = len(ids) + BASE_DIM[b]
    kind = g.choice(("fk", "com", "dists", "inertia", "force"))
    lids = [M.link_id[x] for x in pick_links(g, ref)]
    kw = {"base_type": w.base_type(b), "with_jacobian": g.random() < 0.5}
    q, why = bad_vector(g, n)
    if kind == "inertia":
        q, why = bad_vector(g, len(ids))
        return must_raise(w, "compute_total_inertia_matrix with " + why, lambda: o.compute_total_inertia_matrix(q, ids))
    good = [g.uniform(-1, 1) for _ in range(n)]
    if kind == "force":
        forces = [1.0] * max(0, len(lids) + g.choice((-2, -1, 1)))
        if len(forces) == len(lids):
            forces.append(1.0)
        arg = np.array([good])
        return must_raise(w, "%d forces for %d links" % (len(forces), len(lids)), lambda: o.solve_com_fk(arg, ids, action_link_ids=lids, action_forces=forces, **kw))
    rows = [list(good) for _ in range(g.randrange(3))]
    at = g.randint(0, len(rows))
    rows.insert(at, q if g.random() < 0.5 else list(q))
    what = "solve %s (base type %d) with %s at waypoint %d of %d" % (kind, b, why, at, len(rows))
    if kind == "fk":
        must_raise(w, what, lambda: o.solve_fk(rows, lids, ids, **kw))
    elif kind == "com":
        must_raise(w, what, lambda: o.solve_com_fk(rows, ids, **kw))
    else:
        must_raise(w, what, lambda: o.compute_inter_link_sqdists(rows, [(x, y) for x, y in zip(lids, lids[::-1])], ids, **kw))


def bad_call(w, M, g):
    tf, ref, o = w.tf, M.ref, M.o
    names = subset(g, ref)
    ids = M.jids(names)
    lid = M.link_id[pick_links(g, ref, 1, 1)[0]]
    k = g.randrange(12)
    if k < 3:
        bad_set(w, M, g)
    elif k < 7:
        bad_solve(w, M, g)
    elif k == 7 and ids:
        must_raise(w, "solve_fk with words for ids", lambda: o.solve_fk(np.ones((1, len(ids))), [lid], ["a"] * len(ids)))
    elif k == 8:
        must_raise(w, "adding an existing link", lambda: o.add_new_link(g.choice([l.name for l in ref.r.links] + ref.order), lid, [0.1, 0.2, 0.3]))
    elif k == 9:
        must_raise(w, "an unknown link name", lambda: o.get_link_ids(["no such link"]))
    elif k == 10:
        must_raise(w, "an unknown joint name", lambda: o.get_joint_ids(names[:1] + ["no such joint"]))
    else:
        must_raise(w, "a link position with two coordinates", lambda: o.add_new_link("short", lid, [0.1, 0.2]))


def set_q(w, M, g, names=None, b=None):
    ref = M.ref
    names = subset(g, ref, w) if names is None else names
    b = g.choices((FIXED, PLANER, FLOATING), (4, 3, 3))[0] if b is None else b
    q = next_q(w, g, ref, names, b)
    ids = M.jids(names)
    arr = np.array(q) if g.random() < 0.8 else list(q)
    idarg = ids if g.random() < 0.8 else np.array(ids)
    if b == FIXED and g.random() < 0.5:
        M.o.set_q(idarg, arr)
    else:
        M.o.set_q(idarg, arr, w.base_type(b))
    for r in {id(ref): ref, id(M.rec): M.rec}.values():
        apply_q(r, names, q, b)
    M.stale = False
    w.ctx.count("config_changes")
    w.ctx.mark("setq %d %d" % (b, len(names)))
    return [arr, idarg]


def set_many(w, M, g):
    """a long burst of set_q: of changing joints, or of some joints only while the others keep what was set long ago"""
    names = b = None
    if g.random() < 0.6:
        names = subset(g, M.ref, w)
        if g.random() < 0.6:
            names = names[:1]
        b = g.choice((FIXED, FIXED, PLANER, FLOATING, None))
    for _ in range(g.choice((10, 40, 70, 110, 130, 260, 260, 530 if g.random() < 0.3 else 33))):
        set_q(w, M, g, names, b)


def run13(p, ctx):
    w = World(p, ctx)
    models = [w.new(rng(p["seed"], "new", i), i) for i in range(max(1, p["knobs"].get("models", 1)))]
    last = None
    for idx, (client, kind, a) in enumerate(p["ops"]):
        M = models[a["m"] % len(models)]
        g = rng(a["s"])
        ctx.where = "op %d (client %d) %s m=%d" % (idx, client, kind, a["m"])
        ctx.event(ctx.where)
        ctx.count("ops")
        ctx.count("steps")
        if last is not None and last != client:
            ctx.count("client_switches")
        last = client
        ctx.mark("%d %s" % (client, kind))
        if kind == "setq":
            set_q(w, M, g)
        elif kind == "setmany":
            set_many(w, M, g)
        elif kind == "getq":
            pass
        elif kind in ("fk", "dists"):
            n = solver(w, M, g, kind, use_cache=None if g.random() < 0.7 else False)
            if n:
                M.stale = False
        elif kind in ("com", "inertia"):
            n = solver(w, M, g, kind)
            if n:
                M.stale = False
        elif kind == "cache":
            if M.stale:
                M.o.clear_cache()
                M.stale = False
            ctx.count("cache_reuses")
            solver(w, M, g, g.choice(("fk", "dists")), use_cache=True, unchanged=True)
        elif kind == "stale":
            ctx.count("stale_cache_windows")
            solver(w, M, g, g.choice(("fk", "dists")), use_cache=True, judge=False)
            M.stale = True
        elif kind == "clear":
            M.o.clear_cache()
            M.stale = False
        elif kind == "add":
            add_link(w, M, g)
        elif kind == "bad":
            bad_call(w, M, g)
        elif kind == "oom":
            k = g.choice(("fk", "com", "inertia", "dists"))
            keep = M.ref.clone()
            try:
                n = solver(w, M, g, k, arm=g.choice((1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233)) + g.randrange(4))
                if n:
                    M.stale = False
            except MemoryError:
                # how far the call got is not specified: every coordinate is set again
                M.ref = keep
                M.rec = keep
                names = [j.name for j in keep.r.movable]
                q = rnd_q(g, len(names), FLOATING)
                M.o.set_q(M.jids(names), np.array(q), w.tf.BaseType.FLOATING)
                apply_q(keep, names, q, FLOATING)
                M.stale = False
        M.check_config(kind)
    for M in models:
        M.learn()
        M.check_config("at the end")
        M.check_limits()
        M.check_links(rng(p["seed"], "end"))
    for P, Pc, J, Jc, kind in w.kept:
        w.check(np.array_equal(P, Pc) and (J is None or np.array_equal(J, Jc)), "result-changed", "a result of %s changed after it was returned" % kind)


# ------------------------------------------------------------------ C14
def run14(p, ctx):
    w = World(p, ctx)
    slots, disk = {}, {}
    given = []  # arrays and lists that callers passed in and still own
    nslots, ndisks = max(1, p["knobs"].get("slots", 2)), max(1, p["knobs"].get("disks", 1))

    def restored(obj, rec):
        return Model(w, obj, rec.clone())

    for idx, (client, kind, a) in enumerate(p["ops"]):
        m = a["m"] % nslots
        g = rng(a["s"])
        ctx.where = "op %d (client %d) %s m=%d" % (idx, client, kind, m)
        ctx.event(ctx.where)
        ctx.count("ops")
        ctx.count("steps")
        M = slots.get(m)
        if kind == "new":
            slots[m] = w.new(g, a.get("r", 0))
        elif kind == "restart":
            slots.clear()
            w.tf = load_package()
            ctx.count("restarts")
            ctx.mark("restart")
            continue
        elif kind in ("load", "oomload"):
            d = disk.get(a["d"] % ndisks)
            if d is None:
                continue
            if kind == "oomload":
                ext()._sim_arm(g.choice((1, 10, 100, 300, 1000)) + g.randrange(50))
                try:
                    obj = pickle.loads(d[0])
                except MemoryError:
                    obj = None
                finally:
                    ctx.count("allocation_faults", ext()._sim_disarm()[1])
                if obj is None:
                    for M in slots.values():
                        M.check_config(kind)
                    continue
            else:
                obj = pickle.loads(d[0])
            slots[m] = restored(obj, d[1])
            ctx.count("restores")
            ctx.mark("load %d" % d[2])
            ctx.nontrivial = 1
        elif M is None:
            continue
        elif kind == "setq":
            given += set_q(w, M, g)
        elif kind == "setmany":
            set_many(w, M, g)
        elif kind == "badset":
            bad_set(w, M, g)
        elif kind == "add":
            given += add_link(w, M, g)
        elif kind == "badadd":
            ref = M.ref
            lid = M.link_id[pick_links(g, ref, 1, 1)[0]]
            if g.random() < 0.7:
                must_raise(w, "adding an existing link", lambda: M.o.add_new_link(g.choice([l.name for l in ref.r.links] + ref.order), lid, np.array([0.1, 0.2, 0.3])))
            else:
                must_raise(w, "a link position with two coordinates", lambda: M.o.add_new_link("short", lid, [0.1, 0.2]))
        elif kind == "oomadd":
            try:
                given += add_link(w, M, g, arm=g.randint(1, 60))
            except MemoryError:
                pass
        elif kind == "solve":
            solver(w, M, g, g.choice(("fk", "com", "dists", "inertia")))
            M.o.clear_cache()
        elif kind == "mutate":
            for x in given[-4:]:
                if x is None:
                    continue
                ctx.count("caller_array_mutations")
                if isinstance(x, np.ndarray):
                    x[...] = 0 if x.dtype.kind == "i" else 77.5
                else:
                    for i in range(len(x)):
                        x[i] = 0 if isinstance(x[i], int) else 77.5
            given = []
        elif kind == "save":
            proto = g.randrange(pickle.HIGHEST_PROTOCOL + 1) if g.random() < 0.5 else pickle.HIGHEST_PROTOCOL
            data = pickle.dumps(M.o, protocol=proto)
            gen = 1 + max([d[2] for d in disk.values()], default=0)
            disk[a["d"] % ndisks] = (data, M.rec.clone(), gen)
            ctx.count("pickles")
            ctx.mark("save %d" % proto)
        elif kind in ("copy", "deepcopy"):
            obj = (copy.copy if kind == "copy" else copy.deepcopy)(M.o)
            t = a.get("t", 0) % nslots
            M.learn()
            M.check_config("original after " + kind)
            if t != m:
                slots[t] = restored(obj, M.rec)
                slots[t].check_config("fresh " + kind)
            else:
                N = restored(obj, M.rec)
                N.check_config("fresh " + kind)
                if g.random() < 0.5:
                    slots[m] = N
            ctx.count("copies" if kind == "copy" else "deepcopies")
            ctx.mark(kind)
            ctx.nontrivial = 1
        for s in sorted(slots):
            slots[s].check_config("after %s" % kind)
        M = slots.get(m)
        if M is not None:
            M.learn()
    for s in sorted(slots):
        M = slots[s]
        M.check_limits()
        M.check_links(rng(p["seed"], "end", s))
    # the stored pickles still restore, in a new process
    w.tf = load_package()
    for k in sorted(disk):
        data, rec, _ = disk[k]
        ctx.where = "final restore of pickle %d" % k
        M = restored(pickle.loads(data), rec)
        M.check_config("final restore")
        M.check_links(rng(p["seed"], "final", k))
        # a solver call changes the live configuration of a model, not what its pickle restores
        ctx.count("restores")
        ctx.nontrivial = 1
