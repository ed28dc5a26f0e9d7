// Robot generator and reference model.  Shares no code with tinyfk.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

struct Rng { // splitmix64 / xorshift
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below(b - a + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct V3 { double x = 0, y = 0, z = 0; double &operator[](int i) { return i == 0 ? x : i == 1 ? y : z; } double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(double k, V3 a) { return {k * a.x, k * a.y, k * a.z}; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
struct M3 { double m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; };
inline M3 operator*(const M3 &a, const M3 &b) { M3 c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += a.m[i][k] * b.m[k][j]; c.m[i][j] = s; } return c; }
inline V3 operator*(const M3 &a, V3 v) { V3 r; for (int i = 0; i < 3; i++) r[i] = a.m[i][0] * v.x + a.m[i][1] * v.y + a.m[i][2] * v.z; return r; }
inline M3 transpose(const M3 &a) { M3 c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.m[i][j] = a.m[j][i]; return c; }
inline M3 rot_axis(V3 a, double t) { // Rodrigues, unit axis
  double c = std::cos(t), s = std::sin(t), v = 1 - c; M3 r;
  r.m[0][0] = c + a.x * a.x * v; r.m[0][1] = a.x * a.y * v - a.z * s; r.m[0][2] = a.x * a.z * v + a.y * s;
  r.m[1][0] = a.y * a.x * v + a.z * s; r.m[1][1] = c + a.y * a.y * v; r.m[1][2] = a.y * a.z * v - a.x * s;
  r.m[2][0] = a.z * a.x * v - a.y * s; r.m[2][1] = a.z * a.y * v + a.x * s; r.m[2][2] = c + a.z * a.z * v;
  return r;
}
inline M3 rot_rpy(V3 r) { return rot_axis({0, 0, 1}, r.z) * (rot_axis({0, 1, 0}, r.y) * rot_axis({1, 0, 0}, r.x)); }
inline M3 rot_quat(double x, double y, double z, double w) {
  double n = std::sqrt(x * x + y * y + z * z + w * w); x /= n; y /= n; z /= n; w /= n; M3 r;
  r.m[0][0] = 1 - 2 * (y * y + z * z); r.m[0][1] = 2 * (x * y - z * w); r.m[0][2] = 2 * (x * z + y * w);
  r.m[1][0] = 2 * (x * y + z * w); r.m[1][1] = 1 - 2 * (x * x + z * z); r.m[1][2] = 2 * (y * z - x * w);
  r.m[2][0] = 2 * (x * z - y * w); r.m[2][1] = 2 * (y * z + x * w); r.m[2][2] = 1 - 2 * (x * x + y * y);
  return r;
}
inline double rot_diff(const M3 &a, const M3 &b) { double d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double e = std::fabs(a.m[i][j] - b.m[i][j]); if (!(e <= d)) d = e; } return d; }
inline double cos_pitch(const M3 &r) { return std::sqrt(r.m[2][1] * r.m[2][1] + r.m[2][2] * r.m[2][2]); }
inline V3 rpy_of(const M3 &r) { return {std::atan2(r.m[2][1], r.m[2][2]), std::atan2(-r.m[2][0], cos_pitch(r)), std::atan2(r.m[1][0], r.m[0][0])}; }
// rates of roll, pitch, yaw for angular velocity w (world frame)
inline V3 rpy_rate(const M3 &r, V3 w) {
  V3 e = rpy_of(r); double cy = std::cos(e.z), sy = std::sin(e.z), cp = std::cos(e.y), sp = std::sin(e.y);
  // w = Ex*droll + Ey*dpitch + Ez*dyaw; Ex = Rz Ry ex, Ey = Rz ey, Ez = ez
  double droll = (cy * w.x + sy * w.y) / cp;
  double dpitch = -sy * w.x + cy * w.y;
  double dyaw = w.z + sp * droll;
  return {droll, dpitch, dyaw};
}
inline V3 rpy_axis(const M3 &r, int i) { // angular velocity for a unit rate of roll/pitch/yaw
  V3 e = rpy_of(r);
  if (i == 0) return {std::cos(e.z) * std::cos(e.y), std::sin(e.z) * std::cos(e.y), -std::sin(e.y)};
  if (i == 1) return {-std::sin(e.z), std::cos(e.z), 0};
  return {0, 0, 1};
}
struct Tf { M3 R; V3 p; };
inline Tf operator*(const Tf &a, const Tf &b) { return {a.R * b.R, a.p + a.R * b.p}; }

enum JType { J_REV, J_CONT, J_PRIS, J_FIXED };
struct RMat { std::string name; bool has_color = false; double rgba[4] = {0, 0, 0, 1}; std::string texture; bool inlined = false; };
struct RShape { // a visual or collision element
  std::string name; bool has_origin = false; V3 xyz, rpy; int kind = 0; double d[3] = {0, 0, 0}; // sphere radius | box | cylinder radius, length | mesh scale
  std::string file; bool has_scale = false; int mat = -1; bool define_mat = false; // index into Robot::mats; defined in place
};
struct RLink {
  std::string name;
  bool has_inertial = false; double mass = 0; V3 com, com_rpy; double I[6] = {0, 0, 0, 0, 0, 0}; // xx xy xz yy yz zz
  std::vector<struct RShape> visuals, collisions;
};
struct RJoint {
  std::string name; JType type = J_FIXED; int parent = 0, child = 0; V3 xyz, rpy; V3 axis{1, 0, 0};
  bool has_origin = true, has_axis = true, has_limit = false, has_lower = true, has_upper = true;
  double lower = 0, upper = 0, effort = 0, velocity = 0;
  bool has_mimic = false; std::string mimic_joint; double mimic_mult = 1, mimic_off = 0;
  bool has_safety = false; double soft_lo = 0, soft_up = 0, kp = 0, kv = 0;
  bool has_cal = false, has_rising = false, has_falling = false; double rising = 0, falling = 0;
  bool has_dyn = false; double damping = 0, friction = 0;
};
struct Robot {
  std::vector<RMat> mats;
  std::string name; std::vector<RLink> links; std::vector<RJoint> joints; std::string text;
  std::vector<int> parent_joint; // per link, -1 root
  int root = 0; double reach = 0; // rough size
  void finish() {
    parent_joint.assign(links.size(), -1);
    for (size_t j = 0; j < joints.size(); j++) parent_joint[joints[j].child] = j;
    reach = 0;
    for (auto &j : joints) reach += norm(j.xyz);
    for (size_t i = 0; i < links.size(); i++) { if (parent_joint[i] < 0) root = i; if (links[i].has_inertial) reach += norm(links[i].com); }
  }
};

struct GenOpt { int n_joints = 5; int shape = 0; bool mass = true; bool noise = true; bool simple_names = false; int extras = 1; long variant = 0; }; // a variant has the same names and tree but other numbers
Robot gen_robot(uint64_t seed, const GenOpt &o);
Robot load_neutral(const std::string &path); // data robot converted by the driver
std::string xml_escape(const std::string &s);
void print_xml(Robot &r, Rng &g, bool noise, int extras);

// What a link id of the model under test stands for
struct LinkRef { int kind; int idx; }; // 0 declared link, 1 "<link>_com", 2 added, 3 unknown
struct Added { std::string name; LinkRef parent; Tf tf; };
struct RefModel {
  const Robot *rob = nullptr;
  std::vector<double> q;            // per robot joint (fixed: unused)
  Tf base;
  std::vector<Added> added;
  bool dirty = false;               // an underscore setter was used and no cache reset happened since
  std::vector<std::string> link_names; std::vector<LinkRef> links; // by id
  std::vector<int> joints;          // model joint id -> robot joint index
  double scale() const {
    double s = 1 + rob->reach + norm(base.p);
    for (size_t j = 0; j < rob->joints.size(); j++) if (rob->joints[j].type == J_PRIS) s += std::fabs(q[j]);
    for (auto &a : added) s += norm(a.tf.p);
    return s;
  }
  Tf joint_tf(int j) const {
    const RJoint &r = rob->joints[j]; Tf t{rot_rpy(r.rpy), r.xyz}, m;
    if (r.type == J_REV || r.type == J_CONT) m.R = rot_axis(r.axis, q[j]);
    else if (r.type == J_PRIS) m.p = q[j] * r.axis;
    return t * m;
  }
  Tf link_tf(int i) const { // declared link
    std::vector<int> chain; int l = i;
    while (rob->parent_joint[l] >= 0) { chain.push_back(rob->parent_joint[l]); l = rob->joints[rob->parent_joint[l]].parent; }
    Tf t = base;
    for (size_t k = chain.size(); k-- > 0;) t = t * joint_tf(chain[k]);
    return t;
  }
  Tf pose(LinkRef r) const {
    if (r.kind == 0) return link_tf(r.idx);
    if (r.kind == 1) { const RLink &l = rob->links[r.idx]; return link_tf(r.idx) * Tf{rot_rpy(l.com_rpy), l.com}; }
    if (r.kind == 2) { const Added &a = added[r.idx]; return pose(a.parent) * a.tf; }
    return Tf();
  }
  int declared(LinkRef r) const { while (r.kind == 2) r = added[r.idx].parent; return r.idx; }
  bool known(LinkRef r) const { while (r.kind == 2) r = added[r.idx].parent; return r.kind != 3; }
  // does joint j move declared link i
  bool moves(int j, int i) const { int l = i; while (rob->parent_joint[l] >= 0) { if (rob->parent_joint[l] == j) return true; l = rob->joints[rob->parent_joint[l]].parent; } return false; }
  // linear and angular velocity of link r (at point p) for unit rate of joint j
  void joint_vel(int j, LinkRef r, V3 p, V3 &v, V3 &w) const {
    v = V3(); w = V3();
    if (!moves(j, declared(r))) return;
    Tf c = link_tf(rob->joints[j].child); V3 a = c.R * rob->joints[j].axis;
    if (rob->joints[j].type == J_PRIS) v = a; else { w = a; v = cross(a, p - c.p); }
  }
  double total_mass() const { double m = 0; for (auto &l : rob->links) if (l.has_inertial) m += l.mass; return m; }
  V3 com() const { V3 c; for (size_t i = 0; i < rob->links.size(); i++) if (rob->links[i].has_inertial) c = c + rob->links[i].mass * pose({1, (int)i}).p; return (1 / total_mass()) * c; }
  M3 inertia() const {
    V3 c = com(); M3 t; memset(&t, 0, sizeof t);
    for (size_t i = 0; i < rob->links.size(); i++) {
      const RLink &l = rob->links[i]; if (!l.has_inertial) continue;
      Tf f = pose({1, (int)i}); M3 I;
      double v[3][3] = {{l.I[0], l.I[1], l.I[2]}, {l.I[1], l.I[3], l.I[4]}, {l.I[2], l.I[4], l.I[5]}};
      memcpy(I.m, v, sizeof v);
      M3 g = f.R * (I * transpose(f.R)); V3 d = f.p - c; double dd = dot(d, d);
      for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) t.m[a][b] += g.m[a][b] + l.mass * ((a == b ? dd : 0) - d[a] * d[b]);
    }
    return t;
  }
};
