"""Converts the shipped robot descriptions to the simulator's neutral format (independent XML parser)."""
import os
import sys
import xml.etree.ElementTree as ET


def floats(s, n, default):
    if s is None:
        return list(default)
    v = [float(x) for x in s.split()]
    assert len(v) == n
    return v


def convert(path, out):
    root = ET.parse(path).getroot()
    lines = ["F\t" + path]
    for m in root.findall("material"):
        c, t = m.find("color"), m.find("texture")
        w = ["M", m.get("name"), "0" if c is None else "1"] + list(map(repr, floats(None if c is None else c.get("rgba"), 4, (0, 0, 0, 1))))
        lines.append("\t".join(w + ["" if t is None else t.get("filename", "")]))
    for l in root.findall("link"):
        i = l.find("inertial")
        w = ["L", l.get("name"), "0" if i is None else "1"]
        if i is not None:
            o = i.find("origin")
            w.append(repr(float(i.find("mass").get("value"))))
            w += map(repr, floats(None if o is None else o.get("xyz"), 3, (0, 0, 0)))
            w += map(repr, floats(None if o is None else o.get("rpy"), 3, (0, 0, 0)))
            t = i.find("inertia")
            w += [repr(float(t.get(k))) for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")]
        lines.append("\t".join(w))
        for tag, kind in (("visual", "V"), ("collision", "C")):
            for v in l.findall(tag):
                o, g, m = v.find("origin"), v.find("geometry")[0], v.find("material")
                w = [kind, l.get("name"), v.get("name", "")]
                w += map(repr, floats(None if o is None else o.get("xyz"), 3, (0, 0, 0)))
                w += map(repr, floats(None if o is None else o.get("rpy"), 3, (0, 0, 0)))
                w.append(str(("sphere", "box", "cylinder", "mesh").index(g.tag)))
                d = {"sphere": lambda: [float(g.get("radius")), 0, 0], "box": lambda: floats(g.get("size"), 3, ()),
                     "cylinder": lambda: [float(g.get("radius")), float(g.get("length")), 0], "mesh": lambda: floats(g.get("scale"), 3, (1, 1, 1))}[g.tag]()
                w += map(repr, d)
                lines.append("\t".join(w + [g.get("filename", ""), "-" if m is None or kind == "C" else "+" + m.get("name")]))
    for j in root.findall("joint"):
        o, a, lim = j.find("origin"), j.find("axis"), j.find("limit")
        w = ["J", j.get("name"), j.get("type"), j.find("parent").get("link"), j.find("child").get("link")]
        w += map(repr, floats(None if o is None else o.get("xyz"), 3, (0, 0, 0)))
        w += map(repr, floats(None if o is None else o.get("rpy"), 3, (0, 0, 0)))
        w += map(repr, floats(None if a is None else a.get("xyz"), 3, (1, 0, 0)))
        w.append("0" if lim is None else "1")
        if lim is not None:
            w += [repr(float(lim.get(k, 0))) for k in ("lower", "upper", "effort", "velocity")]
        lines.append("\t".join(w))
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")


if __name__ == "__main__":
    data, out = sys.argv[1:3]
    os.makedirs(out, exist_ok=True)
    for n in sorted(os.listdir(data)):
        if n.endswith(".urdf"):
            convert(os.path.join(data, n), os.path.join(out, n[:-5] + ".neutral"))
