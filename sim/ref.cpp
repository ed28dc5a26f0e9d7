#include "ref.h"
#include <algorithm>
#include <fstream>
#include <sstream>

std::string xml_escape(const std::string &s) {
  std::string o;
  for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else if (c == '\'') o += "&apos;"; else o += c; }
  return o;
}
// the same value written another way: character references, decimal or hexadecimal; "wide": also for characters beyond ASCII
static std::string xml_respell(const std::string &s, Rng &g, bool wide) {
  std::string o; size_t i = 0;
  while (i < s.size()) {
    unsigned char c = s[i]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; std::string ch = s.substr(i, n); i += n;
    if ((n == 1 && !g.chance(0.3)) || (n > 1 && (!wide || g.chance(0.4)))) { o += xml_escape(ch); continue; }
    unsigned long u = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7; for (size_t k = 1; k < n; k++) u = u << 6 | (ch[k] & 63);
    static const char *f[] = {"&#%lu;", "&#x%lx;", "&#x%lX;", "&#%05lu;", "&#x%06lX;"}; char b[32]; snprintf(b, sizeof b, f[g.below(5)], u); o += b;
  }
  return o;
}
// the same document in another style: space around '=', line breaks between attributes, <x></x> for <x/>, idle attributes
static std::string xml_restyle(const std::string &t, Rng &g) {
  std::string o; size_t i = 0; double p = g.uni(0, 0.6);
  while (i < t.size()) {
    if (t[i] != '<') { o += t[i++]; continue; }
    if (t.compare(i, 4, "<!--") == 0) { size_t e = t.find("-->", i) + 3; o += t.substr(i, e - i); i = e; continue; }
    if (t.compare(i, 9, "<![CDATA[") == 0) { size_t e = t.find("]]>", i) + 3; o += t.substr(i, e - i); i = e; continue; }
    bool plain = t[i + 1] != '?' && t[i + 1] != '!'; size_t e = i + 1; while (!isspace((unsigned char)t[e]) && t[e] != '>' && t[e] != '/') e++; if (e == i + 1) e++; // "</"
    std::string name = t.substr(i + 1, e - i - 1); o += t.substr(i, e - i); i = e; char q = 0;
    while (i < t.size()) {
      char c = t[i];
      if (q) { if (c == q) q = 0; o += c; i++; continue; }
      if (c == '"' || c == '\'') { q = c; o += c; i++; continue; }
      if (plain && c == '=' && g.chance(p)) { static const char *v[] = {" =", "= ", " = ", "\n  =\t"}; o += v[g.below(4)]; i++; continue; }
      if (plain && c == ' ' && g.chance(p)) { static const char *v[] = {"  ", "\n\t", "\r\n   "}; o += v[g.below(3)]; if (g.chance(0.05) && o.find("idle", o.rfind('<')) == std::string::npos) o += "idle=\"1 2 3\" "; i++; continue; }
      if (plain && c == '/' && t[i + 1] == '>' && g.chance(p)) { o += g.chance(0.4) ? " />" : "></" + name + ">"; i += 2; break; }
      o += c; i++; if (c == '>') break;
    }
  }
  return o;
}
static double nice(Rng &g, double mag) { // a number that survives printing with %.17g by construction
  switch (g.below(6)) {
  case 0: return 0;
  case 1: return std::round(g.uni(-mag, mag) * 10) / 10;
  case 2: return std::round(g.uni(-mag, mag) * 1000) / 1000;
  case 3: return g.uni(-mag, mag) * (g.chance(0.2) ? 1e-7 : 1e-3);
  default: return g.uni(-mag, mag);
  }
}
static double nice_angle(Rng &g) {
  static const double sp[] = {0, M_PI / 2, -M_PI / 2, M_PI, -M_PI, 1.5707963, 1.5708, -1.5707963, 0.785398, 3.1415926};
  if (g.chance(0.35)) return sp[g.below(10)];
  return g.uni(-3.2, 3.2);
}
static V3 unit_axis(Rng &g) {
  static const V3 sp[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
  if (g.chance(0.6)) return sp[g.below(6)];
  V3 v; double n;
  do { v = {g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)}; n = norm(v); } while (n < 0.1 || n > 1);
  return (1 / n) * v;
}
static std::string fmt(double v) { char b[64]; for (int p = 6; p <= 17; p++) { snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, nullptr) == v) break; } return b; }
static std::string fmt3(V3 v) { return fmt(v.x) + " " + fmt(v.y) + " " + fmt(v.z); }
static std::string rand_name(Rng &g, int i, bool simple, const char *pre) {
  char b[96];
  if (simple) { snprintf(b, sizeof b, "%s%d", pre, i); return b; }
  switch (g.below(10)) {
  case 8: snprintf(b, sizeof b, "%s %d of  it", pre, i); break;
  case 9: if (g.chance(0.8)) { snprintf(b, sizeof b, "%s%c%d_com", pre, g.chance(0.5) ? 'x' : 'X', i); break; } return std::string(g.range(60, 400), 'n') + pre + std::to_string(i);
  case 0: snprintf(b, sizeof b, "%c%d", 'a' + (int)g.below(26), i); break;
  case 1: snprintf(b, sizeof b, "%s_%c_%d", pre, 'A' + (int)g.below(26), i); break;
  case 2: snprintf(b, sizeof b, "%d%s", i, pre); break;
  case 3: snprintf(b, sizeof b, "Z%s.%d-x", pre, i); break;
  case 4: snprintf(b, sizeof b, "%s<&>%d", pre, i); break;
  case 5: snprintf(b, sizeof b, g.chance(0.3) ? "%s\xf0\x9f\x98\x80\xdf\xbf%d" : "%s\xc3\xa9\xe6\x97\xa5%d", pre, i); break;
  case 6: snprintf(b, sizeof b, "a_rather_long_name_that_does_not_fit_the_small_string_buffer_%s_%d", pre, i); break;
  default: snprintf(b, sizeof b, "%s%d", pre, (i * 7919) % 1000 + i * 1000); break;
  }
  return b;
}
static double size_of(Rng &g) { return g.chance(0.1) ? 0 : g.chance(0.2) ? 1 : g.chance(0.15) ? g.uni(1e-9, 1e-3) : g.chance(0.1) ? g.uni(10, 1e7) : g.uni(0.01, 3); }
static std::string rand_text(Rng &g) { // names of meshes, textures and elements
  static const char *sp[] = {"package://robot/meshes/base.dae", "file:///tmp/a b/c.stl", "a&b<c>\"d'.obj", "m.dae", "http://x/y?z=1&w=2;v", "\xe6\x97\xa5\xe6\x9c\xac/\xc3\xa9.stl", "x  y", "..\\win\\path.STL", "1,5", "%20%s%d"};
  if (g.chance(0.05)) return std::string(g.range(100, 5000), 'p') + ".dae";
  return g.chance(0.7) ? sp[g.below(10)] : "part_" + std::to_string(g.below(1000)) + ".stl";
}
static RShape rand_shape(Rng &g) {
  RShape s; s.kind = g.below(4);
  if (g.chance(0.4)) s.name = g.chance(0.5) ? "vis" : rand_text(g);
  if ((s.has_origin = g.chance(0.8))) { s.xyz = {nice(g, 1), nice(g, 1), nice(g, 1)}; if (g.chance(0.6)) s.rpy = {nice_angle(g), nice_angle(g), nice_angle(g)}; }
  for (int k = 0; k < 3; k++) s.d[k] = size_of(g);
  if (s.kind == 3) { s.file = rand_text(g); s.has_scale = g.chance(0.7); for (int k = 0; k < 3; k++) if (!s.has_scale) s.d[k] = 1; else if (g.chance(0.2)) s.d[k] = -s.d[k]; }
  return s;
}
static void rand_shapes(Robot &r, Rng &g, double p, int most) {
  int nm = g.below(4);
  for (int i = 0; i < nm + 3; i++) {
    RMat m; m.name = i < nm ? "top" + std::to_string(i) : g.chance(0.8) ? "m" + std::to_string(i) : "a & <b> " + std::to_string(i); m.inlined = i >= nm;
    m.has_color = g.chance(0.8); if (m.has_color) for (int k = 0; k < 4; k++) m.rgba[k] = g.chance(0.4) ? g.below(2) : g.chance(0.5) ? std::round(g.uni() * 100) / 100 : g.uni();
    if (!m.has_color || g.chance(0.3)) m.texture = rand_text(g);
    r.mats.push_back(m);
  }
  std::vector<bool> defined(r.mats.size(), false); // an inlined material is given in full by every visual that uses it
  for (auto &l : r.links) if (g.chance(p)) {
    int k = g.range(1, most); if (g.chance(0.15)) k = 0;
    for (int q = 0; q < k; q++) {
      RShape s = rand_shape(g);
      if (g.chance(0.6)) { s.mat = g.below(r.mats.size()); s.define_mat = r.mats[s.mat].inlined || g.chance(0.1); }
      l.visuals.push_back(s);
    }
    if (g.chance(0.6)) for (int q = g.range(1, most); q-- > 0;) l.collisions.push_back(rand_shape(g));
  }
}
static void vary(Robot &r, long variant) {
  Rng v(0x9a71a27ull * (variant + 1)); bool mass = variant & 1, origin = variant & 2, axis = variant & 4, limit = variant & 8, rest = variant & 16;
  for (auto &l : r.links) if (l.has_inertial && mass) { double f = v.uni(0.3, 3); l.mass *= f; for (double &x : l.I) x *= f; if (v.chance(0.5)) l.com = {l.com.x + v.uni(-0.2, 0.2), l.com.y, l.com.z + v.uni(-0.2, 0.2)}; }
  for (auto &j : r.joints) {
    if (origin && j.has_origin) { j.xyz = {j.xyz.x + v.uni(-0.3, 0.3), j.xyz.y + v.uni(-0.3, 0.3), j.xyz.z}; if (v.chance(0.5)) j.rpy = {nice_angle(v), nice_angle(v), nice_angle(v)}; }
    if (axis && j.has_axis) j.axis = unit_axis(v);
    if (axis && v.chance(0.3) && j.type != J_FIXED && j.has_limit) j.type = j.type == J_PRIS ? J_REV : J_PRIS;
    if (limit && j.has_limit) { if (j.has_lower) j.lower = v.uni(-3, 0); if (j.has_upper) j.upper = v.uni(0, 3); j.effort = v.uni(0, 100); j.velocity = v.uni(0, 5); }
  }
  if (rest) { for (auto &m : r.mats) if (m.has_color) for (double &c : m.rgba) c = v.uni(); for (auto &l : r.links) for (auto &s : l.visuals) for (double &d : s.d) if (!(s.kind == 3 && !s.has_scale)) d = v.uni(0.1, 2); }
}
Robot gen_robot(uint64_t seed, const GenOpt &o) {
  Rng g(seed); Robot r; r.name = "robot" + std::to_string(g.below(100));
  int n = o.n_joints; int nl = n + 1;
  for (int i = 0; i < nl; i++) {
    RLink l; l.name = rand_name(g, i, o.simple_names, "l");
    if (o.mass && g.chance(0.7)) {
      l.has_inertial = true;
      l.mass = g.chance(0.1) ? 0 : g.chance(0.3) ? std::round(g.uni(0.1, 10) * 10) / 10 : g.uni(0.01, 20);
      if (g.chance(0.8)) l.com = {nice(g, 0.5), nice(g, 0.5), nice(g, 0.5)};
      if (g.chance(0.5)) l.com_rpy = {nice_angle(g), nice_angle(g), nice_angle(g)};
      double a = g.uni(0.001, 2), b = g.uni(0.001, 2), c = g.uni(0.001, 2);
      l.I[0] = a; l.I[3] = b; l.I[5] = c;
      if (g.chance(0.7)) { l.I[1] = g.uni(-0.3, 0.3); l.I[2] = g.uni(-0.3, 0.3); l.I[4] = g.uni(-0.3, 0.3); }
    }
    r.links.push_back(l);
  }
  if (o.mass) { bool any = false; for (auto &l : r.links) if (l.has_inertial && l.mass > 0) any = true; if (!any) { RLink &l = r.links[g.below(nl)]; l.has_inertial = true; l.mass = 1.5; l.I[0] = l.I[3] = l.I[5] = 0.1; } }
  // random labelling of the tree: which link is the root and the order of names are unrelated
  std::vector<int> perm(nl); for (int i = 0; i < nl; i++) perm[i] = i;
  for (int i = nl - 1; i > 0; i--) std::swap(perm[i], perm[g.below(i + 1)]);
  for (int i = 1; i < nl; i++) {
    RJoint j; j.name = rand_name(g, i, o.simple_names, "j");
    int p = o.shape == 1 ? i - 1 : o.shape == 2 ? 0 : o.shape == 3 ? (g.chance(0.8) ? i - 1 : g.below(i)) : g.below(i);
    j.parent = perm[p]; j.child = perm[i];
    double t = g.uni(); j.type = t < 0.45 ? J_REV : t < 0.6 ? J_CONT : t < 0.8 ? J_PRIS : J_FIXED;
    j.has_origin = !g.chance(0.15);
    if (j.has_origin) { if (!g.chance(0.1)) j.xyz = {nice(g, 1), nice(g, 1), nice(g, 1)}; if (!g.chance(0.3)) j.rpy = {nice_angle(g), nice_angle(g), nice_angle(g)}; }
    j.has_axis = !g.chance(0.12); if (j.has_axis) j.axis = unit_axis(g);
    j.has_limit = j.type == J_REV || j.type == J_PRIS || (j.type == J_CONT && g.chance(0.4)) || (j.type == J_FIXED && g.chance(0.1));
    if (j.has_limit) {
      j.has_lower = !g.chance(0.15); j.has_upper = !g.chance(0.15);
      if (j.has_lower) j.lower = g.uni(-4, 0); if (j.has_upper) j.upper = g.chance(0.1) ? -0.5 : g.uni(0, 4);
      j.effort = g.chance(0.2) ? 0 : g.uni(0, 300); j.velocity = g.chance(0.08) ? 0 : g.chance(0.2) ? g.range(1, 5) : g.uni(0, 10);
    }
    r.joints.push_back(j);
  }
  if (o.extras) for (auto &j : r.joints) {
    if (g.chance(0.15) && r.joints.size() > 1) { j.has_mimic = true; j.mimic_joint = g.pick(r.joints).name; j.mimic_mult = nice(g, 2); j.mimic_off = nice(g, 2); }
    if (g.chance(0.2)) { j.has_safety = true; j.soft_lo = nice(g, 2); j.soft_up = nice(g, 2); j.kp = nice(g, 100); j.kv = nice(g, 100); }
    if (g.chance(0.2)) { j.has_cal = true; if ((j.has_rising = g.chance(0.6))) j.rising = nice(g, 2); if ((j.has_falling = g.chance(0.6))) j.falling = nice(g, 2); }
    if (g.chance(0.2)) { j.has_dyn = true; j.damping = nice(g, 10); j.friction = nice(g, 10); }
  }
  if (o.extras) rand_shapes(r, g, o.extras > 1 ? 0.6 : 0.3, o.extras > 1 && g.chance(0.3) ? 6 : 2);
  if (o.variant) vary(r, o.variant);
  r.finish();
  print_xml(r, g, o.noise, o.extras);
  return r;
}
void print_xml(Robot &r, Rng &g, bool noise, int extras) {
  // how the document names its encoding; character references beyond ASCII need one
  static const char *decl[] = {"", "<?xml version=\"1.0\" ?>\n", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version=\"1.0\" encoding='utf-8' standalone=\"no\" ?>\n", "\xef\xbb\xbf", "\xef\xbb\xbf<?xml version=\"1.0\" encoding=\"utf-8\"?>\r\n", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n"};
  int dk = !noise ? 1 : g.chance(0.25) ? 0 : g.chance(0.4) ? 1 : g.range(2, 7); bool refs = noise && g.chance(0.3), text = noise && g.chance(0.15);
  auto esc = [&](const std::string &s) { return refs && g.chance(0.4) ? xml_respell(s, g, dk >= 1 && dk <= 6) : xml_escape(s); };
  auto ws = [&]() -> std::string { if (!noise) return "\n"; if (text && g.chance(0.1)) return g.chance(0.5) ? " stray text &amp; more " : "<![CDATA[ <link name=\"no\"/> ]]>"; switch (g.below(5)) { case 0: return ""; case 1: return "\n"; case 2: return "\n  "; case 3: return "\t\n\r\n"; default: return g.chance(0.3) ? " <!-- note: a < b & \"c\" -->\n" : " "; } };
  char Q = noise && g.chance(0.3) ? '\'' : '"';
  auto at = [&](const char *k, const std::string &v) { return std::string(" ") + k + "=" + Q + v + Q; };
  auto fmt3 = [&](V3 v) { if (!noise || g.chance(0.8)) return ::fmt3(v); return std::string(g.below(3), ' ') + fmt(v.x) + std::string(g.range(1, 3), ' ') + fmt(v.y) + std::string(g.range(1, 3), ' ') + fmt(v.z) + std::string(g.below(2), ' '); };
  auto shuffle = [&](std::vector<std::string> &v) { if (noise) for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[g.below(i + 1)]); };
  auto material = [&](const RMat &m, bool full) {
    std::string s = "<material" + at("name", esc(m.name)); if (!full) return s + "/>";
    std::vector<std::string> ps; if (m.has_color) ps.push_back("<color" + at("rgba", fmt(m.rgba[0]) + " " + fmt(m.rgba[1]) + " " + fmt(m.rgba[2]) + " " + fmt(m.rgba[3])) + "/>");
    if (!m.texture.empty()) ps.push_back("<texture" + at("filename", esc(m.texture)) + "/>");
    shuffle(ps); s += ">"; for (auto &p : ps) s += ws() + p; return s + "</material>";
  };
  auto shape = [&](const char *tag, const RShape &x) {
    std::vector<std::string> ps; std::string o;
    if (x.has_origin) {
      o = "<origin"; bool hx = x.xyz.x || x.xyz.y || x.xyz.z || g.chance(0.6), hr = x.rpy.x || x.rpy.y || x.rpy.z || g.chance(0.6);
      if (hx) o += at("xyz", fmt3(x.xyz)); if (hr) o += at("rpy", fmt3(x.rpy)); ps.push_back(o + "/>");
    }
    V3 d{x.d[0], x.d[1], x.d[2]};
    std::string k = x.kind == 0 ? "<sphere" + at("radius", fmt(d.x)) : x.kind == 1 ? "<box" + at("size", fmt3(d)) : x.kind == 2 ? (g.chance(0.5) ? "<cylinder" + at("radius", fmt(d.x)) + at("length", fmt(d.y)) : "<cylinder" + at("length", fmt(d.y)) + at("radius", fmt(d.x)))
      : "<mesh" + at("filename", esc(x.file)) + (x.has_scale ? at("scale", fmt3(d)) : "");
    ps.push_back("<geometry>" + ws() + k + "/>" + ws() + "</geometry>");
    if (x.mat >= 0) ps.push_back(material(r.mats[x.mat], x.define_mat));
    shuffle(ps); std::string s = std::string("<") + tag + (x.name.empty() ? "" : at("name", esc(x.name))) + ">"; for (auto &p : ps) s += ws() + p; return s + ws() + "</" + tag + ">";
  };
  std::vector<std::string> items;
  for (auto &l : r.links) {
    std::string s = "<link" + at("name", esc(l.name));
    std::string body;
    if (l.has_inertial) {
      std::string in; std::vector<std::string> ps;
      ps.push_back("<mass" + at("value", fmt(l.mass)) + "/>");
      if (l.com.x || l.com.y || l.com.z || l.com_rpy.x || l.com_rpy.y || l.com_rpy.z || g.chance(0.5)) {
        std::string oo = "<origin";
        bool hx = l.com.x || l.com.y || l.com.z || g.chance(0.5), hr = l.com_rpy.x || l.com_rpy.y || l.com_rpy.z || g.chance(0.5);
        if (hr && g.chance(0.5)) { oo += at("rpy", fmt3(l.com_rpy)); hr = false; }
        if (hx) oo += at("xyz", fmt3(l.com)); if (hr) oo += at("rpy", fmt3(l.com_rpy));
        ps.push_back(oo + "/>");
      }
      ps.push_back("<inertia" + at("ixx", fmt(l.I[0])) + at("ixy", fmt(l.I[1])) + at("ixz", fmt(l.I[2])) + at("iyy", fmt(l.I[3])) + at("iyz", fmt(l.I[4])) + at("izz", fmt(l.I[5])) + "/>");
      if (noise) for (size_t i = ps.size() - 1; i > 0; i--) std::swap(ps[i], ps[g.below(i + 1)]);
      for (auto &p : ps) in += ws() + p;
      body += ws() + "<inertial>" + in + ws() + "</inertial>";
    }
    if (extras) { // the order among visuals and among collisions is kept, otherwise they mix
      size_t v = 0, c = 0; while (v < l.visuals.size() || c < l.collisions.size()) { bool vis = v < l.visuals.size() && (c == l.collisions.size() || !noise || g.chance(0.6)); body += ws() + (vis ? shape("visual", l.visuals[v]) : shape("collision", l.collisions[c])); if (vis) v++; else c++; }
      if (noise && g.chance(0.3)) { size_t i = body.find("<inertial>"); if (i != std::string::npos) { size_t e = body.find("</inertial>") + 11; std::string in = body.substr(i, e - i); body.erase(i, e - i); body += ws() + in; } }
    }
    items.push_back(body.empty() && g.chance(0.7) ? s + "/>" : s + ">" + body + ws() + "</link>");
  }
  static const char *tn[] = {"revolute", "continuous", "prismatic", "fixed"};
  for (auto &j : r.joints) {
    std::string s = "<joint"; std::string a = at("name", esc(j.name)), b = at("type", tn[j.type]);
    s += noise && g.chance(0.5) ? b + a : a + b; s += ">";
    std::vector<std::string> ps;
    if (j.has_origin) {
      std::string oo = "<origin"; bool hx = j.xyz.x || j.xyz.y || j.xyz.z || g.chance(0.6), hr = j.rpy.x || j.rpy.y || j.rpy.z || g.chance(0.6);
      if (hx) oo += at("xyz", fmt3(j.xyz)); if (hr) oo += at("rpy", fmt3(j.rpy)); ps.push_back(oo + "/>");
    }
    ps.push_back("<parent" + at("link", esc(r.links[j.parent].name)) + "/>");
    ps.push_back("<child" + at("link", esc(r.links[j.child].name)) + "/>");
    if (j.has_axis) ps.push_back("<axis" + at("xyz", fmt3(j.axis)) + "/>");
    if (j.has_limit) ps.push_back("<limit" + (j.has_lower ? at("lower", fmt(j.lower)) : "") + (j.has_upper ? at("upper", fmt(j.upper)) : "") + at("effort", fmt(j.effort)) + at("velocity", fmt(j.velocity)) + "/>");
    if (j.has_mimic) ps.push_back("<mimic" + at("joint", esc(j.mimic_joint)) + at("multiplier", fmt(j.mimic_mult)) + at("offset", fmt(j.mimic_off)) + "/>");
    if (j.has_safety) ps.push_back("<safety_controller" + at("soft_lower_limit", fmt(j.soft_lo)) + at("soft_upper_limit", fmt(j.soft_up)) + at("k_position", fmt(j.kp)) + at("k_velocity", fmt(j.kv)) + "/>");
    if (j.has_cal) ps.push_back("<calibration" + (j.has_rising ? at("rising", fmt(j.rising)) : "") + (j.has_falling ? at("falling", fmt(j.falling)) : "") + "/>");
    if (j.has_dyn) ps.push_back("<dynamics" + at("damping", fmt(j.damping)) + at("friction", fmt(j.friction)) + "/>");
    if (noise) for (size_t i = ps.size() - 1; i > 0; i--) std::swap(ps[i], ps[g.below(i + 1)]);
    for (auto &p : ps) s += ws() + p;
    items.push_back(s + ws() + "</joint>");
  }
  if (extras) for (auto &m : r.mats) if (!m.inlined) items.push_back(material(m, true));
  if (noise) {
    if (g.chance(0.3)) items.push_back("<gazebo reference=\"x\"><turnGravityOff>true</turnGravityOff></gazebo>");
    if (g.chance(0.3)) items.push_back("<transmission name=\"t\" type=\"a/b\"><actuator name=\"m\"/></transmission>");
    for (size_t i = items.size() - 1; i > 0; i--) std::swap(items[i], items[g.below(i + 1)]);
  }
  std::string t;
  t += decl[dk]; if (noise && g.chance(0.05)) t += "<!DOCTYPE robot>\n";
  if (noise && g.chance(0.4)) t += "<!-- generated & checked -->\n";
  t += "<robot" + at("name", esc(r.name)) + (noise && g.chance(0.2) ? at("version", "1.0") : "") + ">";
  for (auto &i : items) t += ws() + i;
  t += ws() + "</robot>" + (g.chance(0.6) ? "\n" : "");
  if (noise && g.chance(0.3)) t = xml_restyle(t, g);
  r.text = t;
}
Robot load_neutral(const std::string &path) {
  Robot r; std::ifstream f(path); std::string line; std::map<std::string, int> ids;
  while (std::getline(f, line)) {
    std::vector<std::string> w; { std::istringstream ss(line); std::string x; while (std::getline(ss, x, '\t')) w.push_back(x); }
    auto d = [&](int i) { return strtod(w[i].c_str(), nullptr); };
    if (w[0] == "F") { std::ifstream t(w[1], std::ios::binary); std::stringstream ss; ss << t.rdbuf(); r.text = ss.str(); }
    else if (w[0] == "L") {
      RLink l; l.name = w[1]; l.has_inertial = w[2] == "1";
      if (l.has_inertial) { l.mass = d(3); l.com = {d(4), d(5), d(6)}; l.com_rpy = {d(7), d(8), d(9)}; for (int k = 0; k < 6; k++) l.I[k] = d(10 + k); }
      ids[l.name] = r.links.size(); r.links.push_back(l);
    } else if (w[0] == "M") { RMat m; m.name = w[1]; m.has_color = w[2] == "1"; for (int k = 0; k < 4; k++) m.rgba[k] = d(3 + k); if (w.size() > 7) m.texture = w[7]; r.mats.push_back(m); }
    else if (w[0] == "V" || w[0] == "C") { // link, name, xyz, rpy, kind, numbers, file, material
      RShape s; s.name = w[2]; s.has_origin = true; s.xyz = {d(3), d(4), d(5)}; s.rpy = {d(6), d(7), d(8)}; s.kind = atoi(w[9].c_str()); for (int k = 0; k < 3; k++) s.d[k] = d(10 + k); s.file = w[13];
      if (w[14] != "-") for (size_t i = 0; i < r.mats.size(); i++) if (r.mats[i].name == w[14].substr(1)) s.mat = i;
      auto &l = r.links[ids.at(w[1])]; (w[0] == "V" ? l.visuals : l.collisions).push_back(s);
    } else if (w[0] == "J") {
      RJoint j; j.name = w[1]; j.type = w[2] == "revolute" ? J_REV : w[2] == "continuous" ? J_CONT : w[2] == "prismatic" ? J_PRIS : J_FIXED;
      j.parent = ids.at(w[3]); j.child = ids.at(w[4]); j.xyz = {d(5), d(6), d(7)}; j.rpy = {d(8), d(9), d(10)}; j.axis = {d(11), d(12), d(13)};
      j.has_limit = w[14] == "1"; if (j.has_limit) { j.lower = d(15); j.upper = d(16); j.effort = d(17); j.velocity = d(18); }
      r.joints.push_back(j);
    }
  }
  r.finish(); return r;
}
