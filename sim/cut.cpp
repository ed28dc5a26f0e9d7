#include "cut.h"
#include "rt.h"
#include "tinyfk.hpp"
#include <cstring>
#include <memory>
#include <tinyxml.h>
namespace cut {
using rt::CutScope;
typedef tinyfk::KinematicModel K;
static K *k(Model *m) { return static_cast<K *>(m); }
template <class M> static Mat conv(const M &e) {
  rt::SimScope s; Mat m; m.rows = e.rows(); m.cols = e.cols(); m.d.resize(m.rows * m.cols);
  for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) m.d[i * m.cols + j] = e(i, j);
  return m;
}
Model *make(const std::string &xml) { CutScope c; return new K(xml); }
Model *copy(const Model *f) { CutScope c; return new K(*static_cast<const K *>(f)); }
void assign(Model *t, const Model *f) { CutScope c; *k(t) = *static_cast<const K *>(f); }
Model *copy_move(Model *f) { CutScope c; K tmp(*k(f)); return new K(std::move(tmp)); }
void destroy(Model *m) { CutScope c; delete k(m); }
void set_joint_angles(Model *m, const std::vector<size_t> &i, const std::vector<double> &q) { CutScope c; k(m)->set_joint_angles(i, q); }
void set_joint_angles_(Model *m, const std::vector<size_t> &i, const std::vector<double> &q) { CutScope c; k(m)->_set_joint_angles(i, q); }
void set_joint_angle(Model *m, size_t i, double a) { CutScope c; k(m)->set_joint_angle(i, a); }
void set_init_angles(Model *m) { CutScope c; k(m)->set_init_angles(); }
static tinyfk::Transform tq(const double p[3], const double q[4]) { tinyfk::Transform t; t.position = tinyfk::Vector3(p[0], p[1], p[2]); t.rotation = tinyfk::Rotation(q[0], q[1], q[2], q[3]); return t; }
static tinyfk::Transform tr(const double p[3], const double r[3]) { tinyfk::Transform t; t.position = tinyfk::Vector3(p[0], p[1], p[2]); t.rotation.setFromRPY(r[0], r[1], r[2]); return t; }
void set_base_quat(Model *m, const double p[3], const double q[4], bool u) { CutScope c; if (u) k(m)->_set_base_pose(tq(p, q)); else k(m)->set_base_pose(tq(p, q)); }
void set_base_rpy(Model *m, const double p[3], const double r[3], bool u) { CutScope c; if (u) k(m)->_set_base_pose(tr(p, r)); else k(m)->set_base_pose(tr(p, r)); }
void clear_cache(Model *m) { CutScope c; k(m)->clear_cache(); }
static void ret(const urdf::LinkSharedPtr &l, std::string *n, long *id) { rt::SimScope s; if (n) *n = l ? l->name : ""; if (id) *id = l ? (long)l->id : -1; }
void add_link_rpy(Model *m, const std::string &n, size_t p, const double x[3], const double r[3], std::string *rn, long *ri) {
  CutScope c; ret(k(m)->add_new_link(n, p, std::array<double, 3>{{x[0], x[1], x[2]}}, std::array<double, 3>{{r[0], r[1], r[2]}}), rn, ri);
}
void add_link_quat(Model *m, const std::string &n, size_t p, const double x[3], const double q[4], std::string *rn, long *ri) { CutScope c; ret(k(m)->add_new_link(n, p, tq(x, q)), rn, ri); }
void pose(Model *m, size_t l, double o[7]) {
  CutScope c; tinyfk::Transform t; k(m)->get_link_pose(l, t);
  o[0] = t.position.x; o[1] = t.position.y; o[2] = t.position.z; o[3] = t.rotation.x; o[4] = t.rotation.y; o[5] = t.rotation.z; o[6] = t.rotation.w;
}
Mat jacobian(Model *m, size_t l, const std::vector<size_t> &j, int rot, bool base) {
  CutScope c; return conv(k(m)->get_jacobian(l, j, rot == 0 ? tinyfk::RotationType::IGNORE : rot == 1 ? tinyfk::RotationType::RPY : tinyfk::RotationType::XYZW, base));
}
void com(Model *m, double o[3]) { CutScope c; auto v = k(m)->get_com(); o[0] = v.x; o[1] = v.y; o[2] = v.z; }
Mat com_jacobian(Model *m, const std::vector<size_t> &j, bool b) { CutScope c; return conv(k(m)->get_com_jacobian(j, b)); }
Mat inertia(Model *m) { CutScope c; return conv(k(m)->get_total_inertia_matrix()); }
double total_mass(Model *m) { return k(m)->total_mass_; }
template <class T> static T out(const T &v) { rt::SimScope s; return T(v); }
// results are handed over as copies made outside the CUT scope, so that CUT memory accounting stays exact
std::vector<std::string> link_names(Model *m) { CutScope c; auto v = k(m)->get_link_names(); return out(v); }
std::vector<std::string> joint_names(Model *m) { CutScope c; auto v = k(m)->get_joint_names(); return out(v); }
std::vector<size_t> link_ids(Model *m, const std::vector<std::string> &n) { CutScope c; auto v = k(m)->get_link_ids(n); return out(v); }
std::vector<size_t> joint_ids(Model *m, const std::vector<std::string> &n) { CutScope c; auto v = k(m)->get_joint_ids(n); return out(v); }
std::vector<double> angles(Model *m, const std::vector<size_t> &j) { CutScope c; auto v = k(m)->get_joint_angles(j); return out(v); }
std::vector<std::pair<double, double>> pos_limits(Model *m, const std::vector<size_t> &j) { CutScope c; auto v = k(m)->get_joint_position_limits(j); return out(v); }
std::vector<double> vel_limits(Model *m, const std::vector<size_t> &j) { CutScope c; auto v = k(m)->get_joint_velocity_limits(j); return out(v); }
std::vector<double> eff_limits(Model *m, const std::vector<size_t> &j) { CutScope c; auto v = k(m)->get_joint_effort_limits(j); return out(v); }
std::string load_urdf(const std::string &p) { CutScope c; auto v = tinyfk::load_urdf(p); return out(v); }

template <class T> static void shape(PShape &s, const T &u) {
  auto &o = u.origin; double x[3] = {o.position.x, o.position.y, o.position.z}, q[4] = {o.rotation.x, o.rotation.y, o.rotation.z, o.rotation.w}; memcpy(s.xyz, x, sizeof x); memcpy(s.q, q, sizeof q); memset(s.d, 0, sizeof s.d); memset(s.rgba, 0, sizeof s.rgba);
  s.name = u.name; if (!u.geometry) return;
  const urdf::Geometry *g = u.geometry.get();
  if (auto *p = dynamic_cast<const urdf::Sphere *>(g)) { s.kind = 0; s.d[0] = p->radius; }
  else if (auto *p = dynamic_cast<const urdf::Box *>(g)) { s.kind = 1; s.d[0] = p->dim.x; s.d[1] = p->dim.y; s.d[2] = p->dim.z; }
  else if (auto *p = dynamic_cast<const urdf::Cylinder *>(g)) { s.kind = 2; s.d[0] = p->radius; s.d[1] = p->length; }
  else if (auto *p = dynamic_cast<const urdf::Mesh *>(g)) { s.kind = 3; s.d[0] = p->scale.x; s.d[1] = p->scale.y; s.d[2] = p->scale.z; s.file = p->filename; }
  static const int kinds[] = {urdf::Geometry::SPHERE, urdf::Geometry::BOX, urdf::Geometry::CYLINDER, urdf::Geometry::MESH};
  if (s.kind >= 0 && (int)g->type != kinds[s.kind]) s.kind = -2;
}
static void shapes(PLink &l, const urdf::Link &u) {
  for (auto &v : u.visual_array) { PShape s; shape(s, *v); s.mat = v->material_name; s.has_mat = (bool)v->material; if (v->material) { s.mat_name = v->material->name; s.texture = v->material->texture_filename; auto &c = v->material->color; double k[4] = {c.r, c.g, c.b, c.a}; memcpy(s.rgba, k, sizeof k); } l.visuals.push_back(s); }
  for (auto &v : u.collision_array) { PShape s; shape(s, *v); l.collisions.push_back(s); }
  l.first_ok = u.visual == (u.visual_array.empty() ? nullptr : u.visual_array[0]) && u.collision == (u.collision_array.empty() ? nullptr : u.collision_array[0]);
}
std::vector<PLink> model_links(Model *m) { rt::SimScope sc; std::vector<PLink> v; for (auto &u : k(m)->links_) { PLink l; l.name = u->name; shapes(l, *u); v.push_back(l); } return v; }
static Parsed view(const urdf::ModelInterfaceSharedPtr &m) {
  rt::SimScope s; Parsed p; if (!m) return p;
  p.ok = true; p.name = m->name_; p.root = m->root_link_ ? m->root_link_->name : "";
  for (auto &e : m->links_) {
    PLink l; auto &u = *e.second; l.name = u.name; auto par = u.getParent(); l.parent = par ? par->name : "";
    l.has_inertial = (bool)u.inertial; memset(l.com, 0, sizeof l.com); memset(l.q, 0, sizeof l.q); memset(l.I, 0, sizeof l.I); l.mass = 0;
    if (u.inertial) { auto &i = *u.inertial; l.mass = i.mass; double c[3] = {i.origin.position.x, i.origin.position.y, i.origin.position.z}, q[4] = {i.origin.rotation.x, i.origin.rotation.y, i.origin.rotation.z, i.origin.rotation.w}, I[6] = {i.ixx, i.ixy, i.ixz, i.iyy, i.iyz, i.izz}; memcpy(l.com, c, sizeof c); memcpy(l.q, q, sizeof q); memcpy(l.I, I, sizeof I); }
    for (auto &ch : u.child_links) l.children.push_back(ch->name);
    shapes(l, u);
    p.links.push_back(l);
  }
  for (auto &e : m->joints_) {
    PJoint j; auto &u = *e.second; j.name = u.name; j.parent = u.parent_link_name; j.child = u.child_link_name; j.type = u.type;
    double a[3] = {u.axis.x, u.axis.y, u.axis.z}; memcpy(j.axis, a, sizeof a);
    auto &o = u.parent_to_joint_origin_transform; double x[3] = {o.position.x, o.position.y, o.position.z}, q[4] = {o.rotation.x, o.rotation.y, o.rotation.z, o.rotation.w}; memcpy(j.xyz, x, sizeof x); memcpy(j.q, q, sizeof q);
    j.has_limit = (bool)u.limits; j.lower = j.upper = j.effort = j.velocity = 0; if (u.limits) { j.lower = u.limits->lower; j.upper = u.limits->upper; j.effort = u.limits->effort; j.velocity = u.limits->velocity; }
    j.has_mimic = (bool)u.mimic; j.mult = j.off = 0; if (u.mimic) { j.mimic_joint = u.mimic->joint_name; j.mult = u.mimic->multiplier; j.off = u.mimic->offset; }
    j.has_safety = (bool)u.safety; j.slo = j.sup = j.kp = j.kv = 0; if (u.safety) { j.slo = u.safety->soft_lower_limit; j.sup = u.safety->soft_upper_limit; j.kp = u.safety->k_position; j.kv = u.safety->k_velocity; }
    j.has_cal = (bool)u.calibration; j.has_rising = j.has_falling = false; j.rising = j.falling = 0; if (u.calibration) { if ((j.has_rising = (bool)u.calibration->rising)) j.rising = *u.calibration->rising; if ((j.has_falling = (bool)u.calibration->falling)) j.falling = *u.calibration->falling; }
    j.has_dyn = (bool)u.dynamics; j.damping = j.friction = 0; if (u.dynamics) { j.damping = u.dynamics->damping; j.friction = u.dynamics->friction; }
    p.joints.push_back(j);
  }
  for (auto &e : m->materials_) { PMat t; t.name = e.second->name; t.texture = e.second->texture_filename; auto &c = e.second->color; double v[4] = {c.r, c.g, c.b, c.a}; memcpy(t.rgba, v, sizeof v); p.mats.push_back(t); }
  return p;
}
Parsed parse(const std::string &x) { CutScope c; auto m = urdf::parseURDF(x); return view(m); }
Parsed parse_file(const std::string &x) { CutScope c; auto m = urdf::parseURDFFile(x); return view(m); }
static std::string print(TiXmlDocument *d) { TiXmlPrinter pr; d->Accept(&pr); rt::SimScope s; return std::string(pr.CStr()); }
std::string parse_export(const std::string &x, bool *ok) {
  CutScope c; auto m = urdf::parseURDF(x); *ok = (bool)m; if (!m) return "";
  std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(m)); return print(d.get());
}
bool parse_export_to_file(const std::string &x, const std::string &path) {
  CutScope c; auto m = urdf::parseURDF(x); if (!m) return false;
  std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(m)); return d->SaveFile(path.c_str());
}
void *parse_handle(const std::string &x) { CutScope c; auto m = urdf::parseURDF(x); if (!m) return nullptr; return new urdf::ModelInterfaceSharedPtr(m); }
std::string export_handle(void *h) { CutScope c; std::unique_ptr<TiXmlDocument> d(urdf::exportURDF(*static_cast<urdf::ModelInterfaceSharedPtr *>(h))); return print(d.get()); }
Parsed view_handle(void *h) { return view(*static_cast<urdf::ModelInterfaceSharedPtr *>(h)); }
void free_handle(void *h) { CutScope c; delete static_cast<urdf::ModelInterfaceSharedPtr *>(h); }

static void build(TiXmlNode *at, const Node &n) {
  if (n.type == 0) { TiXmlElement *e = new TiXmlElement(n.value.c_str()); for (auto &a : n.attrs) e->SetAttribute(a.first, a.second); at->LinkEndChild(e); for (auto &c : n.kids) build(e, c); }
  else if (n.type == 1) { TiXmlText *t = new TiXmlText(n.value.c_str()); t->SetCDATA(n.cdata); at->LinkEndChild(t); }
  else if (n.type == 2) { at->LinkEndChild(new TiXmlComment(n.value.c_str())); }
  else if (n.type == 3) { TiXmlUnknown *u = new TiXmlUnknown(); u->SetValue(n.value.c_str()); at->LinkEndChild(u); }
  else { at->LinkEndChild(new TiXmlDeclaration(n.attrs[0].second.c_str(), n.attrs[1].second.c_str(), n.attrs[2].second.c_str())); }
}
static Node read(const TiXmlNode *n) {
  Node o; o.value = n->ValueStr();
  if (const TiXmlElement *e = n->ToElement()) {
    o.type = 0;
    for (const TiXmlAttribute *a = e->FirstAttribute(); a; a = a->Next()) o.attrs.push_back({a->Name(), a->ValueStr()});
    for (const TiXmlNode *c = n->FirstChild(); c; c = c->NextSibling()) o.kids.push_back(read(c));
  } else if (const TiXmlText *t = n->ToText()) { o.type = 1; o.cdata = t->CDATA(); }
  else if (n->ToComment()) o.type = 2;
  else if (const TiXmlDeclaration *d = n->ToDeclaration()) { o.type = 4; o.value = ""; o.attrs = {{"v", d->Version()}, {"e", d->Encoding()}, {"s", d->Standalone()}}; }
  else if (n->ToUnknown()) o.type = 3;
  else { o.type = 5; o.value = ""; for (const TiXmlNode *c = n->FirstChild(); c; c = c->NextSibling()) o.kids.push_back(read(c)); }
  return o;
}
static void build_doc(TiXmlDocument &d, const Node &r) { for (auto &k : r.kids) build(&d, k); }
bool doc_save(const Node &r, const std::string &p) { CutScope c; TiXmlDocument d; build_doc(d, r); return d.SaveFile(p.c_str()); }
bool doc_load(const std::string &p, Node &o) {
  CutScope c; TiXmlDocument d; if (!d.LoadFile(p.c_str())) return false;
  rt::SimScope s; o = read(&d); return true;
}
bool doc_parse(const std::string &t, Node &o) {
  CutScope c; TiXmlDocument d; d.Parse(t.c_str()); if (d.Error()) return false;
  rt::SimScope s; o = read(&d); return true;
}
bool doc_load_save(const std::string &p, const std::string &q, bool no_name) { CutScope c; TiXmlDocument d; if (!d.LoadFile(p.c_str())) return false; if (no_name) { d.SetValue(q.c_str()); return d.SaveFile(); } return d.SaveFile(q.c_str()); }
std::string doc_print(const Node &r) { CutScope c; TiXmlDocument d; build_doc(d, r); return print(&d); }
} // namespace cut
