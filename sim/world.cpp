#include "world.h"
#include <algorithm>
#include <limits>
#include <new>
#include <stdexcept>
#include <typeinfo>
using namespace rt;

std::string dump(const std::vector<double> &v) { std::string o; char b[40]; for (double d : v) { snprintf(b, sizeof b, " %.17g", d); o += b; } return o; }
std::string hexs(const std::string &s) { std::string o; for (unsigned char c : s) { if (c > 32 && c < 127 && c != '%') o += c; else { char b[4]; snprintf(b, 4, "%%%02x", c); o += b; } } return o.empty() ? "%" : o; }
std::vector<Robot> make_robots(const Plan &p) {
  std::vector<Robot> v;
  for (auto &r : p.robots) v.push_back(r.data ? load_neutral(data_dir + "/" + r.name + ".neutral") : gen_robot(r.seed, r.opt));
  return v;
}
void World::fail(const std::string &cls, const std::string &msg) { logf("FAIL %s: %s", cls.c_str(), msg.c_str()); if (soft) throw Stop{cls, msg}; violation(cls, msg); }
void World::put(const std::string &tag, const std::vector<double> &v) {
  count(CNT_CHECKS);
  log_hash_bytes(v.data(), v.size() * sizeof(double));
  if (want_log) logf("    %s =%s", tag.c_str(), v.size() < 24 ? dump(v).c_str() : (" [" + std::to_string(v.size()) + " numbers]").c_str());
  if (rec_on()) rec += tag + dump(v) + "\n";
}
void World::puts(const std::string &tag, const std::string &v) {
  count(CNT_CHECKS);
  log_hash_bytes(v.data(), v.size());
  if (want_log) logf("    %s = %.120s", tag.c_str(), v.c_str());
  if (rec_on()) rec += tag + " " + hexs(v) + "\n";
}
void World::note_query(Slot &s) {
  count(CNT_QUERIES);
  if (s.changed && s.queried) { compared_after_change++; sh->nontrivial = 1; }
  s.queried = true; s.changed = false;
}
void World::learn(Slot &s) {
  RefModel &r = s.ref; const Robot &rob = *r.rob;
  r.link_names = cut::link_names(s.m);
  std::map<std::string, int> by; for (size_t i = 0; i < rob.links.size(); i++) by[rob.links[i].name] = i;
  std::map<std::string, int> seen;
  r.links.clear();
  for (size_t i = 0; i < r.link_names.size(); i++) {
    const std::string &n = r.link_names[i]; seen[n]++;
    if (by.count(n)) r.links.push_back({0, by[n]});
    else if (n.size() > 4 && n.substr(n.size() - 4) == "_com" && by.count(n.substr(0, n.size() - 4))) r.links.push_back({1, by[n.substr(0, n.size() - 4)]});
    else r.links.push_back({3, 0});
    if (seen[n] > 1) fail("registry:duplicate-name", "link name listed twice: " + n);
  }
  for (auto &e : by) if (!seen.count(e.first)) fail("registry:missing-link", "declared link is not in the model: " + e.first);
  std::map<std::string, int> bj; for (size_t j = 0; j < rob.joints.size(); j++) if (rob.joints[j].type != J_FIXED) bj[rob.joints[j].name] = j;
  r.joints.clear();
  auto jn = cut::joint_names(s.m);
  for (auto &n : jn) { if (!bj.count(n)) fail("registry:unknown-joint", "joint listed twice or not declared movable: " + n); r.joints.push_back(bj[n]); bj.erase(n); }
  if (!bj.empty()) fail("registry:missing-joint", "declared joint is not in the model: " + bj.begin()->first);
  r.q.assign(rob.joints.size(), 0.0); r.base = Tf(); r.added.clear(); r.dirty = false;
}
void World::kill(Slot &s) { if (s.m) { cut::destroy(s.m); s.m = nullptr; } }
void World::fresh(Slot &s, int robot) {
  kill(s); s = Slot(); s.robot = robot; s.ref.rob = &(*robots)[robot];
  try { s.m = cut::make(s.ref.rob->text); }
  catch (const std::exception &e) { fail("construct", std::string("a valid description was rejected: ") + e.what()); }
  learn(s);
  if (rec_on()) { std::string t; for (auto &n : s.ref.link_names) t += n + "|"; t += "#"; for (auto j : s.ref.joints) t += s.ref.rob->joints[j].name + "|"; puts("names", t); }
}
static std::string joints_str(const std::vector<size_t> &j) { std::string o; for (auto x : j) o += " " + std::to_string(x); return o; }
static bool bad(double got, double want, double tol) { return !(std::fabs(got - want) <= tol); }

void World::check_pose(Slot &s, size_t id) {
  double o[7]; cut::pose(s.m, id, o);
  note_query(s);
  put("pose " + std::to_string(id), std::vector<double>(o, o + 7));
  if (!(mask & M_POSE) || s.ref.dirty) return;
  LinkRef r = s.ref.links[id]; if (!s.ref.known(r)) return;
  Tf t = s.ref.pose(r); double tol = 1e-9 * s.ref.scale();
  for (int k = 0; k < 3; k++) if (bad(o[k], t.p[k], tol)) fail("pose:position", "link " + s.ref.link_names[id] + " (id " + std::to_string(id) + "): position " + dump({o[0], o[1], o[2]}) + " but the current configuration gives" + dump({t.p.x, t.p.y, t.p.z}));
  double n = std::sqrt(o[3] * o[3] + o[4] * o[4] + o[5] * o[5] + o[6] * o[6]);
  if (bad(n, 1, 1e-9)) fail("pose:rotation", "link " + s.ref.link_names[id] + ": quaternion of length " + dump({n}));
  double d = rot_diff(rot_quat(o[3], o[4], o[5], o[6]), t.R);
  if (!(d <= 1e-8)) fail("pose:rotation", "link " + s.ref.link_names[id] + " (id " + std::to_string(id) + "): rotation differs from the current configuration by" + dump({d}));
}
void World::check_jac(Slot &s, size_t id, const std::vector<size_t> &joints, int rot, bool base) {
  cut::Mat J = cut::jacobian(s.m, id, joints, rot, base);
  note_query(s);
  put("jac " + std::to_string(id) + " rot" + std::to_string(rot) + (base ? " base" : ""), J.d);
  if (!(mask & M_JAC) || s.ref.dirty) return;
  int rows = rot == 0 ? 3 : rot == 1 ? 6 : 7, cols = joints.size() + (base ? 6 : 0);
  std::string what = "Jacobian of link " + s.ref.link_names[id] + " joints" + joints_str(joints) + " rot " + std::to_string(rot) + (base ? " with base" : "");
  if (J.rows != rows || J.cols != cols) fail("jac:shape", what + " has shape " + std::to_string(J.rows) + "x" + std::to_string(J.cols));
  LinkRef r = s.ref.links[id]; if (!s.ref.known(r)) return;
  Tf t = s.ref.pose(r); double L = s.ref.scale(); double cp = cos_pitch(t.R);
  double q[7]; cut::pose(s.m, id, q);
  // the sign of the quaternion is the implementation's choice; its value is checked here
  if (rot == 2 && !(rot_diff(rot_quat(q[3], q[4], q[5], q[6]), t.R) <= 1e-8)) return; // a pose error is not this property's business
  auto cell = [&](int i, int c, double want, double tol) {
    if (bad(J(i, c), want, tol)) fail(c < (int)joints.size() ? (i < 3 ? "jac:joint-linear" : "jac:joint-angular") : (i < 3 ? "jac:base-linear" : "jac:base-angular"),
      what + ": entry (" + std::to_string(i) + "," + std::to_string(c) + ") is" + dump({J(i, c)}) + " but the derivative is" + dump({want}));
  };
  auto col = [&](int c, V3 v, V3 w, double tl, double ta) {
    for (int k = 0; k < 3; k++) cell(k, c, v[k], tl);
    if (rot == 1 && cp > 0.05) { V3 e = rpy_rate(t.R, w); for (int k = 0; k < 3; k++) cell(3 + k, c, e[k], ta * (1 + 1 / (cp * cp * cp))); }
    if (rot == 2) {
      double x = q[3], y = q[4], z = q[5], u = q[6];
      double d[4] = {0.5 * (w.x * u + w.y * z - w.z * y), 0.5 * (w.y * u + w.z * x - w.x * z), 0.5 * (w.z * u + w.x * y - w.y * x), -0.5 * (w.x * x + w.y * y + w.z * z)};
      for (int k = 0; k < 4; k++) cell(3 + k, c, d[k], ta);
    }
  };
  for (size_t c = 0; c < joints.size(); c++) {
    V3 v, w; s.ref.joint_vel(s.ref.joints[joints[c]], r, t.p, v, w);
    if (!s.ref.moves(s.ref.joints[joints[c]], s.ref.declared(r))) {
      for (int k = 0; k < rows; k++) if (J(k, c) != 0) fail("jac:irrelevant-joint", what + ": joint " + std::to_string(joints[c]) + " does not move the link but its column is not zero");
      continue;
    }
    col(c, v, w, 1e-8 * L, 1e-8);
  }
  if (base) {
    int n = joints.size(); double cb = cos_pitch(s.ref.base.R);
    for (int k = 0; k < 3; k++) { V3 v; v[k] = 1; col(n + k, v, V3(), 1e-8 * L, 1e-8); }
    if (cb > 0.05) for (int k = 0; k < 3; k++) { V3 w = rpy_axis(s.ref.base.R, k); col(n + 3 + k, cross(w, t.p - s.ref.base.p), w, 3e-6 * L, 3e-6); }
  }
}
void World::check_com(Slot &s) {
  double o[3]; cut::com(s.m, o); note_query(s);
  if (s.ref.total_mass() <= 0) return;
  put("com", {o[0], o[1], o[2]});
  if (!(mask & M_MASS) || s.ref.dirty) return;
  V3 c = s.ref.com();
  for (int k = 0; k < 3; k++) if (bad(o[k], c[k], 1e-9 * s.ref.scale())) fail("com", "centre of mass" + dump({o[0], o[1], o[2]}) + " but the current configuration gives" + dump({c.x, c.y, c.z}));
}
void World::check_comjac(Slot &s, const std::vector<size_t> &joints, bool base) {
  cut::Mat J = cut::com_jacobian(s.m, joints, base); note_query(s);
  if (s.ref.total_mass() <= 0) return;
  put("comjac", J.d);
  if (!(mask & M_MASS) || s.ref.dirty) return;
  int cols = joints.size() + (base ? 6 : 0);
  if (J.rows != 3 || J.cols != cols) fail("comjac:shape", "COM Jacobian has shape " + std::to_string(J.rows) + "x" + std::to_string(J.cols));
  double L = s.ref.scale(), mt = s.ref.total_mass(), cb = cos_pitch(s.ref.base.R);
  for (int c = 0; c < cols; c++) {
    int nj = joints.size(); bool ang = c >= nj + 3; if (ang && cb <= 0.05) continue;
    V3 sum;
    for (size_t i = 0; i < s.ref.rob->links.size(); i++) {
      const RLink &l = s.ref.rob->links[i]; if (!l.has_inertial) continue;
      V3 p = s.ref.pose({1, (int)i}).p, v, w;
      if (c < nj) s.ref.joint_vel(s.ref.joints[joints[c]], {1, (int)i}, p, v, w);
      else if (!ang) v[c - nj] = 1; else v = cross(rpy_axis(s.ref.base.R, c - nj - 3), p - s.ref.base.p);
      sum = sum + (l.mass / mt) * v;
    }
    for (int k = 0; k < 3; k++) if (bad(J(k, c), sum[k], (ang ? 3e-6 : 1e-8) * L)) fail("comjac", "COM Jacobian entry (" + std::to_string(k) + "," + std::to_string(c) + ") joints" + joints_str(joints) + " is" + dump({J(k, c)}) + " but the derivative is" + dump({sum[k]}));
  }
}
void World::check_inertia(Slot &s) {
  cut::Mat I = cut::inertia(s.m); note_query(s);
  if (s.ref.total_mass() <= 0) return;
  put("inertia", I.d);
  if (!(mask & M_MASS) || s.ref.dirty) return;
  M3 w = s.ref.inertia(); double L = s.ref.scale(); double tol = 1e-8 * (1 + s.ref.total_mass()) * L * L;
  if (I.rows != 3 || I.cols != 3) fail("inertia:shape", "wrong shape");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (bad(I(i, j), w.m[i][j], tol)) fail("inertia", "total inertia entry (" + std::to_string(i) + "," + std::to_string(j) + ") is" + dump({I(i, j)}) + " but the declared parameters give" + dump({w.m[i][j]}));
}
void World::check_names(Slot &s) {
  auto n = cut::link_names(s.m); count(CNT_CHECKS); note_query(s);
  if (rec_on()) { std::string t; for (auto &x : n) t += x + "|"; puts("linknames", t); }
  if (!(mask & M_REG)) return;
  if (n != s.ref.link_names) fail("registry:link-names", "the list of link names changed: " + std::to_string(n.size()) + " names, expected " + std::to_string(s.ref.link_names.size()));
  std::vector<size_t> want(n.size()); for (size_t i = 0; i < n.size(); i++) want[i] = i;
  std::vector<size_t> got; try { got = cut::link_ids(s.m, n); } catch (const std::bad_alloc &) { throw; } catch (const std::exception &e) { fail("registry:link-ids", std::string("a listed link name is unknown: ") + e.what()); }
  if (got != want) fail("registry:link-ids", "link names and ids do not correspond one to one");
  auto jn = cut::joint_names(s.m); bool same = jn.size() == s.ref.joints.size();
  for (size_t i = 0; same && i < jn.size(); i++) same = jn[i] == s.ref.rob->joints[s.ref.joints[i]].name;
  if (!same) fail("registry:joint-names", "the list of joint names changed");
  std::vector<size_t> jw(jn.size()); for (size_t i = 0; i < jn.size(); i++) jw[i] = i;
  std::vector<size_t> jg; try { jg = cut::joint_ids(s.m, jn); } catch (const std::bad_alloc &) { throw; } catch (const std::exception &e) { fail("registry:joint-ids", std::string("a listed joint name is unknown: ") + e.what()); }
  if (jg != jw) fail("registry:joint-ids", "joint names and ids do not correspond one to one");
}
void World::check_limits(Slot &s, const std::vector<size_t> &ids) {
  auto p = cut::pos_limits(s.m, ids); auto v = cut::vel_limits(s.m, ids), e = cut::eff_limits(s.m, ids); note_query(s);
  std::vector<double> all; for (auto &x : p) { all.push_back(x.first); all.push_back(x.second); } all.insert(all.end(), v.begin(), v.end()); all.insert(all.end(), e.begin(), e.end());
  put("limits", all);
  if (!(mask & M_REG)) return;
  if (p.size() != ids.size() || v.size() != ids.size() || e.size() != ids.size()) fail("limits:shape", "wrong number of limits");
  const double inf = std::numeric_limits<double>::infinity();
  for (size_t i = 0; i < ids.size(); i++) {
    const RJoint &j = s.ref.rob->joints[s.ref.joints[ids[i]]];
    double lo = j.type == J_CONT || !j.has_limit ? -inf : j.lower, up = j.type == J_CONT || !j.has_limit ? inf : j.upper;
    double ve = j.has_limit ? j.velocity : inf, ef = j.has_limit ? j.effort : inf;
    if (p[i].first != lo || p[i].second != up) fail("limits:position", "position limits of joint " + j.name + " are" + dump({p[i].first, p[i].second}) + ", declared" + dump({lo, up}));
    if (v[i] != ve) fail("limits:velocity", "velocity limit of joint " + j.name + " is" + dump({v[i]}) + ", declared" + dump({ve}));
    if (e[i] != ef) fail("limits:effort", "effort limit of joint " + j.name + " is" + dump({e[i]}) + ", declared" + dump({ef}));
  }
}
void World::check_angles(Slot &s, const std::vector<size_t> &ids) {
  auto a = cut::angles(s.m, ids); note_query(s); put("angles", a);
  if (!(mask & M_REG)) return;
  if (a.size() != ids.size()) fail("angles:shape", "wrong number of angles");
  for (size_t i = 0; i < ids.size(); i++) if (a[i] != s.ref.q[s.ref.joints[ids[i]]]) fail("angles", "joint " + std::to_string(ids[i]) + " reads back" + dump({a[i]}) + ", last set to" + dump({s.ref.q[s.ref.joints[ids[i]]]}));
}
void World::check_all(Slot &s) {
  unsigned m = mask;
  std::vector<size_t> all; for (size_t j = 0; j < s.ref.joints.size(); j++) all.push_back(j);
  if (m & M_REG) { check_names(s); check_limits(s, all); check_angles(s, all); }
  if (m & (M_POSE | M_RECORD)) for (size_t i = 0; i < s.ref.links.size(); i++) check_pose(s, i);
  if (m & (M_JAC | M_RECORD)) for (size_t i = 0; i < s.ref.links.size(); i += 1 + s.ref.links.size() / 8) check_jac(s, i, all, 2, true);
  if (m & (M_MASS | M_RECORD)) { check_com(s); check_comjac(s, all, true); check_inertia(s);
    if ((m & M_MASS)) { double t = cut::total_mass(s.m), w = s.ref.total_mass(); if (bad(t, w, 1e-12 * (1 + w))) fail("total-mass", "total mass" + dump({t}) + ", declared" + dump({w})); } }
}
std::string World::battery(Slot &s) {
  std::string saved = rec; unsigned sm = mask; rec.clear(); mask = M_RECORD;
  check_names(s);
  std::vector<size_t> all; for (size_t j = 0; j < s.ref.joints.size(); j++) all.push_back(j);
  check_limits(s, all); check_angles(s, all);
  for (size_t i = 0; i < s.ref.links.size(); i++) check_pose(s, i);
  for (size_t i = 0; i < s.ref.links.size(); i += 1 + s.ref.links.size() / 4) check_jac(s, i, all, 1, true);
  put("mass", {cut::total_mass(s.m)}); check_com(s); check_comjac(s, all, false); check_inertia(s);
  std::string out = rec; rec = saved; mask = sm; return out;
}
static std::vector<size_t> rand_joints(Rng &g, size_t n) {
  std::vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(i);
  for (size_t i = n; i-- > 1;) std::swap(v[i], v[g.below(i + 1)]);
  if (g.chance(0.6) && n) v.resize(g.below(n) + 1);
  if (g.chance(0.05)) v.clear();
  if (g.chance(0.04) && !v.empty()) v.push_back(v[g.below(v.size())]);
  return v;
}
static double rand_angle(Rng &g) {
  switch (g.below(10)) { case 0: return 0; case 1: return M_PI; case 2: return -M_PI / 2; case 3: return g.uni(-50, 50); case 4: return g.uni(-1e-6, 1e-6); case 5: return g.chance(0.1) ? g.uni(-2000, 2000) : 0.5; default: return g.uni(-3.3, 3.3); }
}
static void rand_base(Rng &g, double p[3], double r[3]) {
  for (int k = 0; k < 3; k++) p[k] = g.chance(0.2) ? 0 : g.chance(0.05) ? g.uni(-100, 100) : g.chance(0.01) ? g.uni(-5000, 5000) : g.uni(-2, 2);
  static const double sp[] = {0, M_PI, -M_PI, M_PI / 2, 3.5, -4, 6.283185307179586, 7};
  for (int k = 0; k < 3; k++) r[k] = g.chance(0.3) ? sp[g.below(8)] : g.chance(0.3) ? 0 : g.uni(-7, 7);
  if (g.chance(0.8)) r[1] = g.chance(0.3) ? 0 : g.uni(-1.4, 1.4);
}
static void rand_quat(Rng &g, double q[4]);
// an angle near the one the joint has or had: the same, its negative, a full turn away, a hair away
static double near_angle(Rng &g, double a) {
  switch (g.below(7)) { case 0: case 1: return a; case 2: return -a; case 3: return a + 2 * M_PI; case 4: return a + g.uni(-1e-7, 1e-7); case 5: return a + g.uni(-1e-3, 1e-3); default: return a + M_PI; }
}
static double next_angle(Rng &g, const Slot &s, int j) {
  if (!g.chance(0.2)) return rand_angle(g);
  double a = s.ref.q[j]; if (s.mem.q.size() && g.chance(0.5)) a = s.mem.q[g.below(s.mem.q.size())][j];
  return std::fabs(a) > 60 ? 0.25 : near_angle(g, a);
}
static void next_base(Rng &g, const Slot &s, Base &b) {
  bool near = g.chance(0.35); b = Base();
  if (near && s.mem.base.size()) {
    b = g.chance(0.5) ? s.mem.base.back() : s.mem.base[g.below(s.mem.base.size())];
    switch (g.below(9)) {
    case 0: return;
    case 1: b.p[g.below(3)] += g.chance(0.5) ? 0.5 : 1e-7; return;
    case 2: for (int k = 0; k < 3; k++) b.p[k] = g.uni(-2, 2); return;
    case 3: if (b.quat) rand_quat(g, b.q); else for (int k = 0; k < 3; k++) b.r[k] = g.uni(-1.4, 1.4); return; // same place, other rotation
    case 4: if (b.quat) for (int k = 0; k < 3; k++) b.q[k] = -b.q[k]; else b.r[g.below(3)] *= -1; return; // mirrored
    case 5: if (b.quat) b.q[g.below(4)] *= -1; else for (int k = 0; k < 3; k++) b.r[k] = -b.r[k]; return;
    case 6: if (b.quat) for (int k = 0; k < 4; k++) b.q[k] = -b.q[k]; else b.r[2] += 2 * M_PI; return; // the same rotation
    case 7: if (b.quat) std::swap(b.q[g.below(4)], b.q[g.below(4)]); else std::swap(b.r[g.below(3)], b.r[g.below(3)]); return;
    default: std::swap(b.p[g.below(3)], b.p[g.below(3)]); return;
    }
  }
  b.quat = g.chance(0.4); rand_base(g, b.p, b.r); if (b.quat) rand_quat(g, b.q);
}
static void remember(Slot &s) { if (s.mem.q.size() >= 4) s.mem.q.erase(s.mem.q.begin()); s.mem.q.push_back(s.ref.q); }
static void rand_quat(Rng &g, double q[4]) { double n; do { n = 0; for (int k = 0; k < 4; k++) { q[k] = g.uni(-1, 1); n += q[k] * q[k]; } } while (n < 0.05); n = std::sqrt(n); for (int k = 0; k < 4; k++) q[k] /= n; }
std::string garble(const std::string &t, Rng &g) {
  std::string s = t; if (s.empty()) return s;
  switch (g.below(6)) {
  case 0: s.resize(g.below(s.size())); break;
  case 1: s[g.below(s.size())] ^= 1 << g.below(8); break;
  case 2: { size_t a = g.below(s.size()), n = g.below(64) + 1; s.erase(a, n); break; }
  case 3: { size_t a = g.below(s.size()), n = g.below(64) + 1; s.insert(a, s.substr(g.below(s.size()), n)); break; }
  case 4: { size_t a = g.below(s.size()); s.insert(a, "<"); break; }
  default: { size_t a = g.below(s.size()); for (size_t k = a; k < s.size() && k < a + 16; k++) s[k] = (char)g.below(256); break; }
  }
  return s;
}
std::string compare_rec(const std::string &a, const std::string &b) {
  if (a == b) return "";
  size_t i = 0, j = 0; std::string head;
  auto line = [](const std::string &s, size_t &p) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p); p = e + 1; return l; };
  while (i < a.size() || j < b.size()) {
    std::string x = i < a.size() ? line(a, i) : "(nothing)", y = j < b.size() ? line(b, j) : "(nothing)";
    if (x == y) { if (x[0] == '@') head = x; continue; }
    size_t u = 0, v = 0; auto tok = [](const std::string &s, size_t &p) { size_t e = s.find(' ', p); if (e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p); p = e + 1; return l; };
    while (u < x.size() || v < y.size()) {
      std::string s = u < x.size() ? tok(x, u) : "", t = v < y.size() ? tok(y, v) : "";
      if (s == t) continue;
      char *es, *et; double ds = strtod(s.c_str(), &es), dt = strtod(t.c_str(), &et);
      bool num = !s.empty() && !t.empty() && !*es && !*et;
      if (num && ((std::isnan(ds) && std::isnan(dt)) || std::fabs(ds - dt) <= 1e-7 * (1 + std::fabs(ds)))) continue;
      return head + ": " + x.substr(0, 600) + "  instead of  " + y.substr(0, 600);
    }
  }
  return "";
}
IoFaults io_from(const Op &op) {
  IoFaults f; f.open_errno = op.get("oe");
  if (long c = op.get("ck")) { Rng g(c); int n = g.range(1, 6); bool small = g.chance(0.5); for (int i = 0; i < n; i++) f.chunks.push_back(1 + (small ? g.below(40) : g.below(9000))); if (g.chance(0.3)) f.chunks.assign(1, 1); }
  f.eintr_mask = op.get("ei"); f.eio_read_at = op.get("er", -1); f.enospc_at = op.get("es", -1); f.eio_write_at = op.get("ew", -1);
  f.close_errno = op.get("ce"); f.lost_from = op.get("lf", -1); f.stdio_buf = op.get("sb");
  return f;
}
// runs a query, possibly with a failing allocation inside; false: it threw bad_alloc because of the fault
template <class F> bool World::guarded(const Op &op, Slot &, F f) {
  long af = op.get("af");
  if (!af) {
    try { f(); } catch (const std::exception &e) { fail("unexpected-exception", op.kind + " threw: " + e.what()); } catch (...) { fail("unexpected-exception", op.kind + " threw"); }
    return true;
  }
  alloc_arm(af, op.get("ap"));
  try { f(); alloc_disarm(); return true; }
  catch (const std::bad_alloc &) { alloc_disarm(); if (!alloc_fired()) fail("unexpected-exception", op.kind + " threw bad_alloc by itself"); count(CNT_QUERY_ALLOC_FAULTS); shape_mix(77); logf("    bad_alloc (injected)"); return false; }
  catch (const std::exception &e) { alloc_disarm(); if (!alloc_fired()) fail("unexpected-exception", op.kind + " threw: " + e.what()); count(CNT_QUERY_ALLOC_FAULTS); logf("    exception %s (allocation fault injected)", e.what()); return false; }
}
void World::do_op(const Op &op, int idx) {
  int m = op.get("m"); Slot &s = slots[m % slots.size()];
  Rng g(op.get("s")); const std::string &k = op.kind;
  char w[200]; snprintf(w, sizeof w, "op %d (client %d) %s m=%d", idx, op.client, k.c_str(), m);
  op_begin(w);
  if (rec_on()) rec += "@" + std::to_string(idx) + " " + k + "\n";
  for (char c : k) shape_mix(c);
  shape_mix(m * 31 + op.client * 1009 + (op.get("af") ? 7 : 0));
  if (k == "new") { int r = op.get("r") % robots->size(); logf("%s robot %d", w, r); fresh(s, r); count(CNT_CONFIG_CHANGES); return; }
  if (!s.m) { logf("%s skipped", w); return; }
  RefModel &R = s.ref; size_t nl = R.links.size(), nj = R.joints.size();
  if (k == "drop") { logf("%s", w); kill(s); return; }
  if (k == "setq" || k == "usetq") {
    std::vector<size_t> ids = rand_joints(g, nj); std::vector<double> q;
    remember(s);
    if (s.mem.q.size() > 1 && g.chance(0.12)) { auto &old = s.mem.q[g.below(s.mem.q.size())]; for (size_t i : ids) q.push_back(old[R.joints[i]]); }
    else for (size_t i : ids) q.push_back(next_angle(g, s, R.joints[i]));
    if (g.chance(0.1)) q.push_back(9); // longer vectors are allowed: the extra entries are the base coordinates of the caller
    logf("%s joints%s <-%s", w, joints_str(ids).c_str(), dump(q).c_str());
    if (k == "setq") cut::set_joint_angles(s.m, ids, q); else cut::set_joint_angles_(s.m, ids, q);
    for (size_t i = 0; i < ids.size(); i++) R.q[R.joints[ids[i]]] = q[i];
    if (k == "setq") { if (ids.size()) R.dirty = false; } else { R.dirty = true; count(CNT_STALE_WINDOWS); }
    s.changed = true; count(CNT_CONFIG_CHANGES);
  } else if (k == "set1") {
    if (!nj) return; size_t j = g.below(nj); remember(s); double a = next_angle(g, s, R.joints[j]); logf("%s joint %zu <- %.17g", w, j, a);
    cut::set_joint_angle(s.m, j, a); R.q[R.joints[j]] = a; R.dirty = false; s.changed = true; count(CNT_CONFIG_CHANGES);
  } else if (k == "setmany") { // many changes in a row; counters of any width wrap around
    if (!nj) return; static const int ns[] = {100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512}; int n = g.chance(0.03) ? 65535 + g.below(3) : g.chance(0.3) ? g.range(2, 260) : ns[g.below(11)];
    size_t j = g.below(nj); double a = rand_angle(g), b = rand_angle(g); logf("%s joint %zu, %d times, then %.17g", w, j, n, n & 1 ? a : b);
    for (int i = 0; i < n; i++) { if (i % 64 == 0) op_more(); cut::set_joint_angle(s.m, j, i & 1 ? b : a); }
    R.q[R.joints[j]] = n & 1 ? a : b; R.dirty = false; s.changed = true; count(CNT_CONFIG_CHANGES);
  } else if (k == "nan") { // an episode with values that are no coordinates; nothing of it may stay behind
    static const double v[] = {NAN, INFINITY, -INFINITY, 1e300, -1e308, 1e16}; double x = v[g.below(6)], y = g.chance(0.5) ? x : v[g.below(6)]; size_t j = nj ? g.below(nj) : 0; logf("%s joint %zu and base, %g %g", w, j, x, y);
    bool jt = nj && g.chance(0.8), bs = !jt || g.chance(0.3); std::vector<size_t> all; for (size_t i = 0; i < nj; i++) all.push_back(i);
    if (jt) { if (g.chance(0.5)) cut::set_joint_angle(s.m, j, x); else cut::set_joint_angles(s.m, {j}, {x}); }
    if (bs) { double p[3] = {y, 0, x}, r[3] = {0, g.chance(0.5) ? y : 0, 0}; cut::set_base_rpy(s.m, p, r, false); }
    for (int i = g.range(1, 4); i-- > 0;) try { double o[7]; size_t id = g.below(nl); switch (g.below(5)) { case 0: cut::com(s.m, o); break; case 1: cut::jacobian(s.m, id, all, g.below(3), g.chance(0.5)); break; case 2: cut::inertia(s.m); break; default: cut::pose(s.m, id, o); } } catch (const std::exception &) {}
    if (jt) { double a = g.chance(0.5) ? R.q[R.joints[j]] : next_angle(g, s, R.joints[j]); if (g.chance(0.5)) cut::set_joint_angle(s.m, j, a); else cut::set_joint_angles(s.m, {j}, {a}); R.q[R.joints[j]] = a; }
    if (bs) { Base b; next_base(g, s, b); if (b.quat) { cut::set_base_quat(s.m, b.p, b.q, false); R.base = Tf{rot_quat(b.q[0], b.q[1], b.q[2], b.q[3]), {b.p[0], b.p[1], b.p[2]}}; } else { cut::set_base_rpy(s.m, b.p, b.r, false); R.base = Tf{rot_rpy({b.r[0], b.r[1], b.r[2]}), {b.p[0], b.p[1], b.p[2]}}; } }
    R.dirty = false; s.changed = true; count(CNT_CONFIG_CHANGES);
  } else if (k == "init") { logf("%s", w); cut::set_init_angles(s.m); std::fill(R.q.begin(), R.q.end(), 0.0); R.dirty = false; s.changed = true; count(CNT_CONFIG_CHANGES); }
  else if (k == "base" || k == "ubase") {
    Base b; next_base(g, s, b); bool u = k == "ubase"; const double *p = b.p, *r = b.r, *q = b.q; bool quat = b.quat;
    if (s.mem.base.size() >= 4) s.mem.base.erase(s.mem.base.begin());
    s.mem.base.push_back(b);
    if (quat) { cut::set_base_quat(s.m, p, q, u); R.base = Tf{rot_quat(q[0], q[1], q[2], q[3]), {p[0], p[1], p[2]}}; }
    else { cut::set_base_rpy(s.m, p, r, u); R.base = Tf{rot_rpy({r[0], r[1], r[2]}), {p[0], p[1], p[2]}}; }
    logf("%s <-%s%s", w, dump({p[0], p[1], p[2]}).c_str(), quat ? dump({q[0], q[1], q[2], q[3]}).c_str() : dump({r[0], r[1], r[2]}).c_str());
    if (u) { R.dirty = true; count(CNT_STALE_WINDOWS); } else R.dirty = false;
    s.changed = true; count(CNT_CONFIG_CHANGES);
  } else if (k == "clear") { logf("%s", w); cut::clear_cache(s.m); R.dirty = false; }
  else if (k == "add") {
    size_t par = g.below(nl); if (g.chance(0.3) && R.added.size()) par = nl - 1 - g.below(std::min<size_t>(R.added.size(), nl));
    std::string name = (g.chance(0.5) ? "added_" : "x&y<") + std::to_string(op.get("s")) + "_" + std::to_string(nl);
    if (g.chance(0.35)) { // close to a name that is taken, but not the same
      std::string n = R.link_names[g.below(nl)];
      switch (g.below(9)) {
      case 0: for (char &c : n) c = c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c; break;
      case 1: if (n.size()) { char &c = n[g.below(n.size())]; c = c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : '_'; } break;
      case 2: n += " "; break;
      case 3: n = " " + n; break;
      case 4: if (n.size() > 1) n.pop_back(); break;
      case 5: n += n; break;
      case 6: n += "/" + std::to_string(g.below(10)); break;
      case 7: if (nj) n = R.rob->joints[R.joints[g.below(nj)]].name; break; // a joint's name is free for a link
      default: n += std::string(g.below(400), 'n') + (g.chance(0.5) ? "\t" : "0"); }
      if (n.size() && n.size() < 2000 && std::find(R.link_names.begin(), R.link_names.end(), n) == R.link_names.end()) name = n;
    }
    double p[3], r[3], q[4]; for (int i = 0; i < 3; i++) { p[i] = g.chance(0.2) ? 0 : g.uni(-1, 1); r[i] = g.chance(0.3) ? 0 : g.uni(-4, 4); }
    bool quat = g.chance(0.4); Tf tf; tf.p = {p[0], p[1], p[2]};
    std::string rn; long ri; logf("%s '%s' under id %zu at%s", w, name.c_str(), par, dump({p[0], p[1], p[2]}).c_str());
    if (quat) { rand_quat(g, q); tf.R = rot_quat(q[0], q[1], q[2], q[3]); cut::add_link_quat(s.m, name, par, p, q, &rn, &ri); }
    else { tf.R = rot_rpy({r[0], r[1], r[2]}); cut::add_link_rpy(s.m, name, par, p, r, &rn, &ri); }
    R.added.push_back({name, R.links[par], tf}); R.links.push_back({2, (int)R.added.size() - 1}); R.link_names.push_back(name);
    s.changed = true; count(CNT_ADDS);
    if (rec_on()) puts("added", rn + "#" + std::to_string(ri));
    if (mask & M_REG) {
      if (rn != name || ri != (long)nl) fail("add:returned-link", "add_new_link('" + name + "') returned link '" + rn + "' with id " + std::to_string(ri) + ", expected id " + std::to_string(nl));
      std::vector<size_t> got; try { got = cut::link_ids(s.m, {name}); } catch (const std::exception &e) { fail("add:unknown", std::string("the added link cannot be looked up: ") + e.what()); }
      if (got != std::vector<size_t>{nl}) fail("add:id", "the added link did not get the next id");
      if (!R.dirty) {
        cut::clear_cache(s.m); double a[7], b[7]; cut::pose(s.m, par, a); cut::pose(s.m, nl, b);
        Tf pt{rot_quat(a[3], a[4], a[5], a[6]), {a[0], a[1], a[2]}}; Tf t = pt * tf;
        for (int i = 0; i < 3; i++) if (bad(b[i], t.p[i], 1e-9 * R.scale())) fail("add:parent", "the added link is not attached to the named parent at the given offset");
        if (!(rot_diff(t.R, rot_quat(b[3], b[4], b[5], b[6])) < 1e-8)) fail("add:parent", "the added link is not attached to the named parent with the given rotation");
      }
    }
  } else if (k == "addmany") { // a burst of additions: chains, stars and anything between
    int n = g.chance(0.2) ? g.range(40, 90) : g.range(5, 40), shape = g.below(3); logf("%s %d links", w, n);
    for (int i = 0; i < n; i++) {
      size_t now = R.links.size(), par = shape == 0 ? (i ? now - 1 : g.below(now)) : shape == 1 ? g.below(nl) : g.below(now);
      std::string name = "burst_" + std::to_string(op.get("s")) + "_" + std::to_string(now); double p[3], r[3]; for (int c = 0; c < 3; c++) { p[c] = g.uni(-0.3, 0.3); r[c] = g.uni(-3, 3); }
      std::string rn; long ri; op_more(); cut::add_link_rpy(s.m, name, par, p, r, &rn, &ri); count(CNT_ADDS);
      R.added.push_back({name, R.links[par], Tf{rot_rpy({r[0], r[1], r[2]}), {p[0], p[1], p[2]}}}); R.links.push_back({2, (int)R.added.size() - 1}); R.link_names.push_back(name);
      if ((mask & M_REG) && (rn != name || ri != (long)now)) fail("add:returned-link", "add_new_link('" + name + "') returned link '" + rn + "' with id " + std::to_string(ri) + ", expected id " + std::to_string(now));
    }
    s.changed = true;
  } else if (k == "adddup") {
    std::string name = R.link_names[g.below(nl)]; size_t par = g.below(nl); double z[3] = {1, 2, 3}; bool threw = false; logf("%s '%s'", w, name.c_str());
    try { cut::add_link_rpy(s.m, name, par, z, z, nullptr, nullptr); } catch (const std::exception &) { threw = true; }
    count(CNT_REJECTED_CALLS); if (rec_on()) puts("dup", threw ? "threw" : "accepted");
    if (!threw) { if (mask & M_REG) fail("add:duplicate-accepted", "adding a second link named '" + name + "' was accepted"); else fail("registry:duplicate-accepted", "duplicate accepted"); }
  } else if (k == "badlink" || k == "badjoint") {
    std::vector<std::string> n; int c = g.range(1, 4); int at = g.below(c);
    for (int i = 0; i < c; i++) { if (i == at) n.push_back(g.chance(0.2) ? "" : g.chance(0.3) ? R.link_names[g.below(nl)] + "?" : "no_such_name"); else if (k == "badlink") n.push_back(R.link_names[g.below(nl)]); else n.push_back(nj ? R.rob->joints[R.joints[g.below(nj)]].name : "nope"); }
    bool threw = false; logf("%s '%s'", w, n[at].c_str());
    try { if (k == "badlink") cut::link_ids(s.m, n); else cut::joint_ids(s.m, n); } catch (const std::exception &) { threw = true; }
    count(CNT_REJECTED_CALLS); if (rec_on()) puts("bad", threw ? "threw" : "accepted");
    if (!threw && (mask & M_REG)) fail("lookup:unknown-accepted", "the unknown name '" + n[at] + "' was accepted");
  } else if (k == "pose") { size_t id = g.below(nl); logf("%s id %zu", w, id); guarded(op, s, [&] { check_pose(s, id); }); }
  else if (k == "poses") { int c = g.range(2, 5); logf("%s", w); for (int i = 0; i < c; i++) { size_t id = g.below(nl); guarded(op, s, [&] { check_pose(s, id); }); } }
  else if (k == "allposes") { logf("%s", w); bool rev = g.chance(0.5); for (size_t i = 0; i < nl; i++) { size_t id = rev ? nl - 1 - i : i; op_more(); guarded(op, s, [&] { check_pose(s, id); }); } }
  else if (k == "jac") { size_t id = g.below(nl); auto j = rand_joints(g, nj); int rot = g.below(3); bool b = g.chance(0.5);
    if (s.mem.asked && s.mem.jac.id < nl && g.chance(0.3)) { // as last time, but for one thing or nothing
      Asked &o = s.mem.jac; int keep = g.below(6); if (keep != 0) id = o.id; if (keep != 1) rot = o.rot; if (keep != 2) b = o.base;
      if (keep != 3) { j = o.joints; if (keep == 4) { for (size_t i = j.size(); i-- > 1;) std::swap(j[i], j[g.below(i + 1)]); } }
    }
    s.mem.jac = Asked{id, j, rot, b}; s.mem.asked = true;
    logf("%s id %zu joints%s rot %d base %d", w, id, joints_str(j).c_str(), rot, b); guarded(op, s, [&] { check_jac(s, id, j, rot, b); }); }
  else if (k == "com") { logf("%s", w); guarded(op, s, [&] { check_com(s); }); }
  else if (k == "comjac") { auto j = rand_joints(g, nj); bool b = g.chance(0.5); logf("%s", w); guarded(op, s, [&] { check_comjac(s, j, b); }); }
  else if (k == "inertia") { logf("%s", w); guarded(op, s, [&] { check_inertia(s); }); }
  else if (k == "mass") { logf("%s", w); double t = cut::total_mass(s.m), x = R.total_mass(); put("mass", {t}); if ((mask & M_MASS) && bad(t, x, 1e-12 * (1 + x))) fail("total-mass", "total mass" + dump({t}) + ", declared" + dump({x})); }
  else if (k == "names") { logf("%s", w); guarded(op, s, [&] { check_names(s); }); }
  else if (k == "limits") { auto j = rand_joints(g, nj); logf("%s", w); guarded(op, s, [&] { check_limits(s, j); }); }
  else if (k == "angles") { auto j = rand_joints(g, nj); logf("%s", w); guarded(op, s, [&] { check_angles(s, j); }); }
  // ---- used by the thread isolation, copy and memory properties
  else if (k == "copy" || k == "copymove" || k == "assign") {
    Slot &t = slots[op.get("t") % slots.size()]; logf("%s to %ld", w, op.get("t")); count(CNT_COPIES);
    if (k == "assign" && t.m) { cut::assign(t.m, s.m); if (&t != &s) { t.ref = s.ref; t.robot = s.robot; t.mem = s.mem; } t.changed = true; }
    else if (&t != &s) { cut::Model *n = k == "copymove" ? cut::copy_move(s.m) : cut::copy(s.m); kill(t); t = s; t.m = n; t.changed = true; }
  } else if (k == "parseexp") { bool ok; logf("%s", w); std::string x = cut::parse_export(R.rob->text, &ok); puts("export", ok ? x : "rejected"); count(CNT_EXPORTS); }
  else if (k == "view") { logf("%s", w); puts("view", parsed_text(cut::parse(R.rob->text))); }
  else if (k == "parsebad") {
    std::string t = garble(R.rob->text, g); logf("%s", w); std::string r = "?";
    try { cut::Model *x = cut::make(t); r = "accepted:"; for (auto &n : cut::link_names(x)) r += n + "|"; cut::destroy(x); }
    catch (const std::exception &e) { r = std::string(typeid(e).name()) + e.what(); }
    puts("bad", r);
  } else if (k == "loadfile" || k == "parsefile" || k == "savefile") {
    std::string path = "/simdisk/c" + std::to_string(op.client) + "_" + std::to_string(m) + ".urdf"; logf("%s %s", w, path.c_str());
    if (op.get("io")) io_reset(io_from(op));
    struct Reset { bool on; ~Reset() { if (on) io_reset(IoFaults()); } } reset{op.get("io") != 0};
    if (k == "savefile") { bool ok = cut::parse_export_to_file(R.rob->text, path); puts("saved", ok ? (*disk)[path] : "failed"); count(CNT_SAVES); }
    else { (*disk)[path] = R.rob->text; count(CNT_LOADS); if (k == "loadfile") { std::string t; try { t = cut::load_urdf(path); } catch (const std::exception &) { if (!op.get("io")) throw; t = "threw"; } puts("text", t); } else { auto p = cut::parse_file(path); std::string t = p.root; for (auto &l : p.links) t += "|" + l.name + "<" + l.parent; puts("parsed", t); } }
  } else fail("internal", "unknown op " + k);
}
void World::finish() {
  op_begin("final checks");
  for (auto &s : slots) if (s.m) {
    if (s.ref.dirty) { cut::clear_cache(s.m); s.ref.dirty = false; }
    try { check_all(s); } catch (const std::exception &e) { fail("unexpected-exception", std::string("final query threw: ") + e.what()); }
  }
  op_begin("destruction");
  for (auto &s : slots) kill(s);
}
