#include "plan.h"
#include <sstream>
std::string data_dir;
std::string plan_text(const Plan &p) {
  std::ostringstream o;
  o << "plan " << p.prop << " seed=" << p.seed << "\n";
  for (auto &k : p.knobs) o << "knob " << k.first << "=" << k.second << "\n";
  for (auto &r : p.robots) {
    if (r.data) o << "robot data " << r.name << "\n";
    else o << "robot gen seed=" << r.seed << " joints=" << r.opt.n_joints << " shape=" << r.opt.shape << " mass=" << r.opt.mass << " noise=" << r.opt.noise << " simple=" << r.opt.simple_names << " extras=" << r.opt.extras; if (!r.data && r.opt.variant) o << " variant=" << r.opt.variant; if (!r.data) o << "\n";
  }
  for (auto &x : p.ops) { o << "op " << x.client << " " << x.kind; for (auto &k : x.a) o << " " << k.first << "=" << k.second; o << "\n"; }
  for (auto &s : p.sched) o << "sw " << s.kind << " " << s.n << " " << s.pick << "\n";
  return o.str();
}
static std::pair<std::string, std::string> kv(const std::string &w) { auto i = w.find('='); return {w.substr(0, i), w.substr(i + 1)}; }
Plan plan_parse(const std::string &t) {
  Plan p; std::istringstream in(t); std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream s(line); std::string w; s >> w;
    if (w == "plan") { s >> p.prop >> w; p.seed = std::stoull(kv(w).second); }
    else if (w == "knob") { s >> w; auto k = kv(w); p.knobs.push_back({k.first, std::stol(k.second)}); }
    else if (w == "robot") {
      RobotSpec r; s >> w;
      if (w == "data") { r.data = true; s >> r.name; }
      else while (s >> w) { auto k = kv(w); if (k.first == "seed") r.seed = std::stoull(k.second); long v = k.first == "seed" ? 0 : std::stol(k.second); if (k.first == "joints") r.opt.n_joints = v; if (k.first == "shape") r.opt.shape = v; if (k.first == "mass") r.opt.mass = v; if (k.first == "noise") r.opt.noise = v; if (k.first == "simple") r.opt.simple_names = v; if (k.first == "extras") r.opt.extras = v; if (k.first == "variant") r.opt.variant = v; }
      p.robots.push_back(r);
    } else if (w == "op") { Op o; s >> o.client >> o.kind; while (s >> w) { auto k = kv(w); o.a.push_back({k.first, std::stol(k.second)}); } p.ops.push_back(o); }
    else if (w == "sw") { rt::Switch x; s >> x.kind >> x.n >> x.pick; p.sched.push_back(x); }
  }
  return p;
}
