"""Random robots and the reference model the answers are compared with; shares no code with tinyfk."""
import math
import os
import random
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

import numpy as np


def rot_axis(a, t):
    """Rodrigues' formula"""
    a = np.asarray(a, float)
    k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(t) * k + (1 - math.cos(t)) * (k @ k)


def rot_rpy(r):
    return rot_axis((0, 0, 1), r[2]) @ rot_axis((0, 1, 0), r[1]) @ rot_axis((1, 0, 0), r[0])


def rpy_of(R):
    return np.array([math.atan2(R[2, 1], R[2, 2]), math.atan2(-R[2, 0], math.hypot(R[2, 1], R[2, 2])), math.atan2(R[1, 0], R[0, 0])])


def rot_quat(q):
    x, y, z, w = q
    n = x * x + y * y + z * z + w * w
    s = 2.0 / n
    return np.array([[1 - s * (y * y + z * z), s * (x * y - z * w), s * (x * z + y * w)],
                     [s * (x * y + z * w), 1 - s * (x * x + z * z), s * (y * z - x * w)],
                     [s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y)]])


class Joint:
    pass


class Link:
    pass


class Robot:
    """static description: links, joints, total mass"""

    def finish(self):
        self.parent = {j.child: j for j in self.joints}
        self.root = [l.name for l in self.links if l.name not in self.parent][0]
        self.movable = [j for j in self.joints if j.type != "fixed"]
        self.mass = sum(l.mass for l in self.links)

    def xml(self):
        return self.text


def generate(seed, n, shape, extras):
    g = random.Random(seed)
    r = Robot()
    odd = g.random() < 0.25

    def name(prefix, i):
        return "%s%d" % (prefix, i) if not odd else "%s %s%d&<" % (prefix, "ab"[g.randrange(2)] * g.randrange(4), i)

    def nice(a):
        return g.choice((0.0, round(g.uniform(-a, a), 2), g.uniform(-a, a)))

    def ang():
        return g.choice((0.0, 0.5, -1.5, 3.0, g.uniform(-3.1, 3.1), g.choice((math.pi / 2, -math.pi / 2, math.pi))))

    r.links, r.joints = [], []
    for i in range(n + 1):
        l = Link()
        l.name = name("l", i)
        l.inertial = g.random() < 0.7
        l.mass = (0.0 if g.random() < 0.1 else g.uniform(0.05, 10)) if l.inertial else 0.0
        l.com = [nice(0.5) for _ in range(3)] if l.inertial else [0.0] * 3
        l.com_rpy = [ang() for _ in range(3)] if l.inertial and g.random() < 0.5 else [0.0] * 3
        l.I = [g.uniform(0.01, 2), g.uniform(-0.2, 0.2), g.uniform(-0.2, 0.2), g.uniform(0.01, 2), g.uniform(-0.2, 0.2), g.uniform(0.01, 2)] if l.inertial else [0.0] * 6
        r.links.append(l)
    if g.random() < 0.07:  # a robot that declares no inertia at all
        for l in r.links:
            l.inertial, l.mass, l.com, l.com_rpy, l.I = False, 0.0, [0.0] * 3, [0.0] * 3, [0.0] * 6
    elif sum(l.mass for l in r.links) < 0.05:
        l = g.choice(r.links)
        l.inertial, l.mass, l.com, l.com_rpy, l.I = True, 1.5, [0.1, 0.0, -0.2], [0.0] * 3, [0.1, 0, 0, 0.2, 0, 0.3]
    order = list(range(n + 1))
    g.shuffle(order)
    for i in range(1, n + 1):
        j = Joint()
        j.name = name("j", i)
        p = i - 1 if shape == 1 else 0 if shape == 2 else g.randrange(i) if shape == 0 else (i - 1 if g.random() < 0.8 else g.randrange(i))
        j.parent, j.child = r.links[order[p]].name, r.links[order[i]].name
        j.type = g.choices(("revolute", "continuous", "prismatic", "fixed"), (45, 15, 20, 20))[0]
        j.xyz = [nice(1) for _ in range(3)]
        j.rpy = [ang() for _ in range(3)] if g.random() < 0.7 else [0.0] * 3
        a = g.choice(((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), None))
        if a is None:
            v = np.array([g.gauss(0, 1) for _ in range(3)])
            a = v / np.linalg.norm(v)
        j.axis = [float(x) for x in a]
        j.limits = (g.choice((0.0, round(g.uniform(-3, 0), 3))), g.choice((0.0, round(g.uniform(0, 3), 3)))) if j.type in ("revolute", "prismatic") else None
        r.joints.append(j)
    if g.random() < 0.03:  # nothing moves but the base
        for j in r.joints:
            j.type, j.limits = "fixed", None
    elif all(j.type == "fixed" for j in r.joints):
        r.joints[0].type, r.joints[0].limits = "continuous", None
    items = []

    def v3(v):
        return " ".join(repr(float(x)) for x in v)

    for l in r.links:
        s = "<link name=%s>" % quoteattr(l.name)
        if l.inertial:
            s += '<inertial><mass value="%r"/><origin xyz="%s" rpy="%s"/><inertia ixx="%r" ixy="%r" ixz="%r" iyy="%r" iyz="%r" izz="%r"/></inertial>' % ((l.mass, v3(l.com), v3(l.com_rpy)) + tuple(l.I))
        if extras and g.random() < 0.3:
            s += '<visual><geometry><box size="0.1 0.2 0.3"/></geometry></visual>'
        items.append(s + "</link>")
    for j in r.joints:
        s = "<joint name=%s type=%s>" % (quoteattr(j.name), quoteattr(j.type))
        s += '<origin xyz="%s" rpy="%s"/><parent link=%s/><child link=%s/><axis xyz="%s"/>' % (v3(j.xyz), v3(j.rpy), quoteattr(j.parent), quoteattr(j.child), v3(j.axis))
        if j.limits:
            s += '<limit lower="%r" upper="%r" effort="10" velocity="2"/>' % j.limits
        items.append(s + "</joint>")
    g.shuffle(items)
    r.text = '<?xml version="1.0"?>\n<robot name="r">\n' + "\n".join(items) + "\n</robot>\n"
    r.finish()
    return r


def shipped(path):
    with open(path, encoding="utf-8", errors="surrogateescape") as f:
        text = f.read()
    root = ET.fromstring(text.encode("utf-8", "surrogateescape"))
    r = Robot()
    r.text, r.links, r.joints = text, [], []

    def fl(e, k, d):
        return [float(x) for x in e.get(k).split()] if e is not None and e.get(k) else list(d)

    for e in root.findall("link"):
        l = Link()
        l.name = e.get("name")
        i = e.find("inertial")
        l.inertial = i is not None
        l.mass, l.com, l.com_rpy, l.I = 0.0, [0.0] * 3, [0.0] * 3, [0.0] * 6
        if i is not None:
            l.mass = float(i.find("mass").get("value"))
            l.com, l.com_rpy = fl(i.find("origin"), "xyz", (0, 0, 0)), fl(i.find("origin"), "rpy", (0, 0, 0))
            l.I = [float(i.find("inertia").get(k)) for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")]
        r.links.append(l)
    for e in root.findall("joint"):
        j = Joint()
        j.name, j.type = e.get("name"), e.get("type")
        j.parent, j.child = e.find("parent").get("link"), e.find("child").get("link")
        j.xyz, j.rpy, j.axis = fl(e.find("origin"), "xyz", (0, 0, 0)), fl(e.find("origin"), "rpy", (0, 0, 0)), fl(e.find("axis"), "xyz", (1, 0, 0))
        lim = e.find("limit")
        j.limits = (float(lim.get("lower", 0)), float(lim.get("upper", 0))) if lim is not None and j.type in ("revolute", "prismatic") else None
        r.joints.append(j)
    r.finish()
    return r


_shipped = {}


def build(spec):
    if spec["kind"] == "data":
        if spec["name"] not in _shipped:
            _shipped[spec["name"]] = shipped(os.path.join(os.environ["PYSIM_REPO"], "data", spec["name"] + ".urdf"))
        return _shipped[spec["name"]]
    return generate(spec["seed"], max(1, spec["joints"]), spec["shape"], spec["extras"])


class Ref:
    """the robot in one configuration"""

    def __init__(self, robot):
        self.r = robot
        self.q = {j.name: 0.0 for j in robot.movable}
        self.base = [0.0] * 6
        self.added = {}   # name -> (parent, R, p)
        self.order = []
        self.ids = {}     # what the model called its links and joints

    def clone(self):
        c = Ref(self.r)
        c.q, c.base, c.added, c.order = dict(self.q), list(self.base), dict(self.added), list(self.order)
        c.ids = dict(self.ids)
        return c

    def add(self, name, parent, xyz, rpy):
        self.added[name] = (parent, rot_rpy(rpy), np.array(xyz, float))
        self.order.append(name)

    def reach(self):
        n = np.linalg.norm
        return (1 + n(self.base[:3]) + sum(n(j.xyz) for j in self.r.joints) + sum(n(l.com) for l in self.r.links)
                + sum(abs(self.q[j.name]) for j in self.r.movable if j.type == "prismatic") + sum(n(p) for _, _, p in self.added.values()))

    def at(self):
        return Frames(self)


class Frames:
    def __init__(self, ref):
        self.ref, self.memo = ref, {}
        self.R0, self.p0 = rot_rpy(ref.base[3:]), np.array(ref.base[:3], float)
        self.jf = {}

    def link(self, name):
        m = self.memo.get(name)
        if m is not None:
            return m
        ref = self.ref
        if name in ref.added:
            parent, R, p = ref.added[name]
            PR, pp = self.link(parent)
            out = PR @ R, pp + PR @ p
        elif name == ref.r.root:
            out = self.R0, self.p0
        else:
            j = ref.r.parent[name]
            PR, pp = self.link(j.parent)
            R, p = PR @ rot_rpy(j.rpy), pp + PR @ np.array(j.xyz, float)
            a = R @ np.array(j.axis, float)
            self.jf[j.name] = (a, p)
            if j.type in ("revolute", "continuous"):
                R = R @ rot_axis(j.axis, ref.q[j.name])
            elif j.type == "prismatic":
                p = p + a * ref.q[j.name]
            out = R, p
        self.memo[name] = out
        return out

    def chain(self, name):
        out = []
        while True:
            if name in self.ref.added:
                name = self.ref.added[name][0]
            elif name == self.ref.r.root:
                return out
            else:
                j = self.ref.r.parent[name]
                out.append(j.name)
                name = j.parent

    def twist(self, name, point, joints, with_base):
        """columns (linear velocity of the point, angular velocity) per coordinate"""
        R, _ = self.link(name)
        ch = set(self.chain(name))
        types = {j.name: j.type for j in self.ref.r.movable}
        cols = []
        for jn in joints:
            if jn not in ch:
                cols.append(np.zeros(6))
                continue
            a, p = self.jf[jn]
            cols.append(np.hstack([a, np.zeros(3)]) if types[jn] == "prismatic" else np.hstack([np.cross(a, point - p), a]))
        if with_base:
            for k in range(3):
                e = np.zeros(6)
                e[k] = 1
                cols.append(e)
            r = self.ref.base[3:]
            Rz, Ry = rot_axis((0, 0, 1), r[2]), rot_axis((0, 1, 0), r[1])
            for a in ((Rz @ Ry)[:, 0], Rz[:, 1], np.array([0, 0, 1.0])):
                cols.append(np.hstack([np.cross(a, point - self.p0), a]))
        return np.array(cols).T if cols else np.zeros((6, 0))

    def com(self):
        s = np.zeros(3)
        for l in self.ref.r.links:
            if l.mass:
                R, p = self.link(l.name)
                s += l.mass * (p + R @ np.array(l.com))
        return s / self.ref.r.mass

    def com_jac(self, joints, with_base):
        J = None
        for l in self.ref.r.links:
            if l.mass:
                R, p = self.link(l.name)
                t = l.mass * self.twist(l.name, p + R @ np.array(l.com), joints, with_base)[:3]
                J = t if J is None else J + t
        return J / self.ref.r.mass

    def inertia(self):
        c, out = self.com(), np.zeros((3, 3))
        for l in self.ref.r.links:
            if l.inertial:
                R, p = self.link(l.name)
                d = p + R @ np.array(l.com) - c
                xx, xy, xz, yy, yz, zz = l.I
                RR = R @ rot_rpy(l.com_rpy)
                out += RR @ np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]]) @ RR.T + l.mass * (d @ d * np.eye(3) - np.outer(d, d))
        return out


def rpy_rates(rpy, w):
    """derivative of roll, pitch, yaw (R = Rz Ry Rx) for world angular velocities w (3 x n)"""
    r, p, y = rpy
    E = np.array([[math.cos(y) * math.cos(p), -math.sin(y), 0], [math.sin(y) * math.cos(p), math.cos(y), 0], [-math.sin(p), 0, 1]])
    return np.linalg.solve(E, w)


def quat_rates(q, w):
    x, y, z, s = q
    # 1/2 (w,0) * q, world frame angular velocity
    M = np.array([[s, z, -y], [-z, s, x], [y, -x, s], [-x, -y, -z]])
    return 0.5 * M @ w
