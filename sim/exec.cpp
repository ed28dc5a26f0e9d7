// For every property: how a run is generated from a seed, and how it is executed and judged.
#include "plan.h"
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <clocale>
#include <functional>
#include <locale>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <unistd.h>
using namespace rt;

// ------------------------------------------------------------------ generation helpers
static const char *data_robots[] = {"kuka", "fetch", "pr2"};
static RobotSpec gen_spec(Rng &g, int max_joints, bool data_ok, bool simple = false) {
  RobotSpec r;
  if (data_ok && g.chance(0.06)) { r.data = true; r.name = data_robots[g.below(3)]; return r; }
  r.seed = g.below(1000000000); r.opt.n_joints = g.chance(0.1) ? g.range(1, max_joints) : g.range(1, std::min(8, max_joints)); if (g.chance(0.03)) r.opt.n_joints = 0;
  r.opt.shape = g.below(4); r.opt.noise = !simple && g.chance(0.7); r.opt.extras = g.chance(0.5); r.opt.simple_names = simple || g.chance(0.4); r.opt.mass = !g.chance(0.08);
  return r;
}
static Op mk(int client, const std::string &kind, Rng &g) { Op o; o.client = client; o.kind = kind; o.set("s", g.below(1000000000)); return o; }
static long log_uniform(Rng &g, double lo, double hi) { return (long)(lo * std::pow(hi / lo, g.uni())); }
struct Mix { std::vector<std::pair<std::string, double>> w; };
static std::string pick(Rng &g, const Mix &m) { double t = 0; for (auto &x : m.w) t += x.second; double r = g.uni() * t; for (auto &x : m.w) { r -= x.second; if (r < 0) return x.first; } return m.w.back().first; }
// swarm testing: every run uses its own random subset and weighting of operations
static Mix swarm(Rng &g, const std::vector<std::pair<std::string, double>> &base) {
  Mix m; for (auto &x : base) { double f = g.chance(0.25) ? 0 : g.uni(0.2, 2); if (f > 0) m.w.push_back({x.first, x.second * f}); }
  if (m.w.empty()) m.w = base;
  return m;
}
static bool is_query(const std::string &k) { return k == "pose" || k == "poses" || k == "allposes" || k == "jac" || k == "com" || k == "comjac" || k == "inertia" || k == "names" || k == "limits" || k == "angles"; }

// ------------------------------------------------------------------ C01-C04: histories on models
static Plan gen_history(const std::string &prop, uint64_t seed, bool thorough) {
  Rng g(seed); Plan p; p.prop = prop; p.seed = seed;
  int nr = g.range(1, 2), ns = g.range(1, 3), nc = g.range(1, 3);
  for (int i = 0; i < nr; i++) p.robots.push_back(gen_spec(g, thorough ? 40 : 24, true));
  bool big = g.chance(0.03), lng = !big && g.chance(0.03); // sizes that ordinary runs stay far away from
  if (big) { p.robots[0].data = false; if (!p.robots[0].seed) p.robots[0].seed = g.below(1000000000); p.robots[0].opt.n_joints = log_uniform(g, 30, thorough ? 200 : 160); p.robots[0].opt.shape = g.below(4); }
  p.knobs.push_back({"slots", ns});
  double q = 1, c = 1, s = 1;
  std::vector<std::pair<std::string, double>> base = {
    {"setq", 6}, {"set1", 3}, {"init", 0.7}, {"base", 4}, {"usetq", 0.6}, {"ubase", 0.5}, {"clear", 0.7}, {"add", 2.5}, {"addmany", 0.08}, {"setmany", 0.25}, {"nan", 0.25}, {"adddup", 0.6}, {"badlink", 0.5}, {"badjoint", 0.5}, {"new", 0.25}, {"drop", 0.1},
    {"pose", 5}, {"poses", 2}, {"allposes", 0.6}, {"jac", 3}, {"com", 1}, {"comjac", 1}, {"inertia", 1}, {"mass", 0.2}, {"names", 0.6}, {"limits", 0.5}, {"angles", 0.6}};
  (void)q; (void)c; (void)s;
  for (auto &b : base) {
    if (prop == "C01" && (b.first == "pose" || b.first == "poses" || b.first == "allposes")) b.second *= 2;
    if (prop == "C02" && b.first == "jac") b.second *= 4;
    if (prop == "C03" && (b.first == "com" || b.first == "comjac" || b.first == "inertia" || b.first == "mass")) b.second *= 4;
    if (prop == "C04" && (b.first == "names" || b.first == "limits" || b.first == "angles" || b.first == "add" || b.first == "adddup" || b.first == "badlink" || b.first == "badjoint")) b.second *= 3;
  }
  Mix m = swarm(g, base);
  for (int i = 0; i < ns; i++) p.ops.push_back(mk(g.below(nc), "new", g).set("m", i).set("r", g.below(nr)));
  int n = thorough ? log_uniform(g, 8, 160) : log_uniform(g, 6, 60); if (lng) n = log_uniform(g, 100, thorough ? 1500 : 400); if (big) n = std::min(n, 40); bool faults = g.chance(0.6);
  for (int i = 0; i < n; i++) {
    Op o = mk(g.below(nc), pick(g, m), g); o.set("m", g.below(ns));
    if (o.kind == "new") o.set("r", g.below(nr));
    if (faults && is_query(o.kind) && g.chance(0.12)) { o.set("af", g.chance(0.7) ? log_uniform(g, 1, 12) : log_uniform(g, 1, 300)); if (g.chance(0.3)) o.set("ap", 1); }
    p.ops.push_back(o);
    // a setter followed immediately by a query on the same model is where stale answers show
    if (!is_query(o.kind) && g.chance(0.35)) p.ops.push_back(mk(g.below(nc), prop == "C02" ? "jac" : prop == "C03" ? (g.chance(0.5) ? "com" : "inertia") : prop == "C04" ? (g.chance(0.5) ? "angles" : "names") : "pose", g).set("m", o.get("m")));
  }
  return p;
}
static void exec_history(const Plan &p) {
  auto robots = make_robots(p); World w; w.plan = &p; w.robots = &robots;
  w.mask = p.prop == "C01" ? M_POSE : p.prop == "C02" ? M_JAC : p.prop == "C03" ? M_MASS : M_REG;
  w.slots.resize(std::max(1l, p.knob("slots", 1)));
  for (size_t i = 0; i < p.ops.size(); i++) {
    if (i && p.ops[i].client != p.ops[i - 1].client) count(CNT_CLIENT_SWITCH);
    try { w.do_op(p.ops[i], i); } catch (const std::exception &e) { w.fail("unexpected-exception", p.ops[i].kind + " threw: " + e.what()); }
  }
  w.finish();
}

// ------------------------------------------------------------------ C05: thread isolation
static std::vector<Switch> gen_schedule(Rng &g, bool thorough) {
  std::vector<Switch> v; int mode = g.below(4); int n = mode == 0 ? g.range(1, 4) : mode == 1 ? g.range(5, 40) : mode == 2 ? g.range(20, thorough ? 400 : 150) : g.range(2, 12);
  double pk1 = mode == 3 ? 0.9 : g.uni(0, 0.7);
  double hi = g.chance(0.5) ? 300000 : 5000;
  for (int i = 0; i < n; i++) {
    Switch s; s.kind = g.chance(pk1) ? 1 : g.chance(0.1) ? 2 : 0;
    s.n = s.kind == 0 ? log_uniform(g, 1, hi) : s.kind == 1 ? log_uniform(g, 1, 400) : 1 + g.below(4);
    s.pick = g.below(4); v.push_back(s);
    if (g.chance(0.4)) v.push_back({0, (uint64_t)log_uniform(g, 1, 3000), (unsigned)g.below(4)}); // and back
  }
  return v;
}
static Plan gen_threads(uint64_t seed, bool thorough) {
  Rng g(seed); Plan p; p.prop = "C05"; p.seed = seed;
  int nc = g.chance(0.75) ? 2 : 3, ns = 2; p.knobs.push_back({"slots", ns}); p.knobs.push_back({"clients", nc}); if (seed & 1) p.knobs.push_back({"race", 1});
  int nr = g.range(1, 2); for (int i = 0; i < nr; i++) p.robots.push_back(gen_spec(g, 10, g.chance(0.15)));
  std::vector<std::pair<std::string, double>> base = {
    {"setq", 4}, {"set1", 1}, {"init", 0.4}, {"base", 2}, {"usetq", 0.3}, {"clear", 0.4}, {"add", 2}, {"adddup", 0.6}, {"badlink", 0.6}, {"badjoint", 0.4}, {"new", 2}, {"drop", 0.5}, {"copy", 0.5}, {"assign", 0.3},
    {"pose", 3}, {"allposes", 1}, {"jac", 3}, {"com", 1}, {"comjac", 1}, {"inertia", 1}, {"mass", 0.2}, {"names", 0.6}, {"limits", 0.6}, {"angles", 0.6}, {"parseexp", 2}, {"parsebad", 2}, {"loadfile", 1}, {"parsefile", 1}, {"savefile", 1}};
  for (int c = 0; c < nc; c++) {
    Mix m = swarm(g, base);
    p.ops.push_back(mk(c, "new", g).set("m", 0).set("r", g.below(nr)));
    int n = log_uniform(g, 2, thorough ? 30 : 14);
    for (int i = 0; i < n; i++) { Op o = mk(c, pick(g, m), g); o.set("m", g.below(ns)).set("r", g.below(nr)).set("t", g.below(ns)); p.ops.push_back(o); }
  }
  p.sched = gen_schedule(g, thorough);
  return p;
}
struct Client { World w; std::vector<std::pair<int, const Op *>> ops; World *twin = nullptr; std::vector<std::vector<Op>> *lineage = nullptr; };
static void run_client(Client &c) {
  for (auto &o : c.ops) {
    try { c.w.do_op(*o.second, o.first); }
    catch (const Stop &s) { c.w.rec += "STOP " + hexs(s.cls + ": " + s.msg) + "\n"; return; }
    catch (const std::exception &e) { c.w.rec += "EXC " + hexs(e.what()) + "\n"; }
    op_boundary();
  }
  try { c.w.finish(); }
  catch (const Stop &s) { c.w.rec += "STOP " + hexs(s.cls + ": " + s.msg) + "\n"; }
  catch (const std::exception &e) { c.w.rec += "EXC " + hexs(e.what()) + "\n"; }
}
static void out_text(const std::string &t) { if (sh->out_len + t.size() > sizeof sh->out) internal_error("output area full"); memcpy(sh->out + sh->out_len, t.data(), t.size()); sh->out_len += t.size(); }
static void exec_threads(const Plan &p, int phase) {
  auto robots = make_robots(p); int nc = p.knob("clients", 2);
  std::vector<Client> cl(nc);
  for (int c = 0; c < nc; c++) { cl[c].w.plan = &p; cl[c].w.robots = &robots; cl[c].w.mask = M_RECORD; cl[c].w.soft = true; cl[c].w.slots.resize(p.knob("slots", 2)); }
  for (size_t i = 0; i < p.ops.size(); i++) cl[p.ops[i].client % nc].ops.push_back({(int)i, &p.ops[i]});
  if (phase >= 0) { run_client(cl[phase]); out_text(cl[phase].w.rec); return; }
  std::vector<void (*)(void *)> fns; std::vector<void *> args;
  for (auto &c : cl) { fns.push_back([](void *a) { run_client(*(Client *)a); }); args.push_back(&c); }
  run_threads(fns, args, p.sched); count(CNT_THREAD_RUNS);
  if (sh->counters[CNT_SWITCHES] > 0) sh->nontrivial = 1;
  for (auto &c : cl) { out_text(c.w.rec); out_text(std::string(1, '\f')); }
}

// ------------------------------------------------------------------ C06: copies
static Plan gen_copies(uint64_t seed, bool thorough) {
  Rng g(seed); Plan p; p.prop = "C06"; p.seed = seed;
  bool threaded = g.chance(0.35) || (seed & 1); int nc = threaded ? g.range(2, 3) : 1; int per = threaded ? 1 + g.below(2) : g.range(2, 4); int ns = threaded ? nc * per : per;
  p.knobs = {{"slots", ns}, {"clients", threaded ? nc : 0}}; if (seed & 1) p.knobs.push_back({"race", 1});
  int nr = g.range(1, 2); for (int i = 0; i < nr; i++) p.robots.push_back(gen_spec(g, thorough ? 20 : 12, true));
  std::vector<std::pair<std::string, double>> st = {{"setq", 4}, {"set1", 2}, {"init", 0.5}, {"base", 2}, {"clear", 0.4}, {"add", 4}, {"adddup", 0.5}, {"badlink", 0.4},
    {"pose", 3}, {"allposes", 1}, {"jac", 3}, {"com", 1}, {"comjac", 1}, {"inertia", 1}, {"names", 0.8}, {"limits", 0.4}, {"angles", 0.8}};
  std::vector<std::pair<std::string, double>> cp = {{"copy", 2}, {"assign", 2}, {"copymove", 0.7}, {"drop", 1}, {"new", 0.3}};
  p.ops.push_back(mk(0, "new", g).set("m", 0).set("r", g.below(nr)));
  if (nr > 1 && g.chance(0.5)) p.ops.push_back(mk(0, "new", g).set("m", ns - 1).set("r", 1));
  auto all = st; all.insert(all.end(), cp.begin(), cp.end()); Mix m = swarm(g, all), mc = swarm(g, cp);
  auto one = [&](int client, int lo, int n, const Mix &mm) { Op o = mk(client, pick(g, mm), g); o.set("m", lo + g.below(n)).set("r", g.below(nr)); o.set("t", lo + g.below(n)); return o; };
  int n = log_uniform(g, 4, thorough ? 70 : 30);
  if (!threaded) for (int i = 0; i < n; i++) p.ops.push_back(g.chance(0.1) ? one(0, 0, ns, mc) : one(0, 0, ns, m));
  else {
    for (int i = 0; i < (int)g.below(6); i++) p.ops.push_back(one(0, 0, 1, m));
    for (int s = 1; s < ns; s++) p.ops.push_back(mk(0, g.chance(0.8) ? "copy" : "assign", g).set("m", g.below(s)).set("t", s).set("r", 0));
    for (int c = 0; c < nc; c++) for (int i = 0; i < n / nc + 1; i++) p.ops.push_back(one(c + 1, c * per, per, m));
    p.sched = gen_schedule(g, thorough);
  }
  return p;
}
// every model has a twin that was never a copy: built from the description and put through the same calls
struct Twins { World *a, *b; std::vector<std::vector<Op>> lin; };
static void twin_compare(World &a, World &b, const Op &op, int idx) {
  std::string d = compare_rec(a.rec, b.rec); a.rec.clear(); b.rec.clear();
  if (!d.empty()) a.fail("copy-differs", "op " + std::to_string(idx) + " " + op.kind + " on model " + std::to_string(op.get("m")) + " (a copy or the origin of one) answers differently from a model built anew and put through the same calls: " + d);
}
static void twin_op(Twins &t, const Op &op, int idx) {
  World &a = *t.a, &b = *t.b; int m = op.get("m") % a.slots.size(), to = op.get("t") % a.slots.size(); const std::string &k = op.kind;
  if (k == "copy" || k == "assign" || k == "copymove") {
    if (!a.slots[m].m) return;
    a.do_op(op, idx); a.rec.clear();
    if (to == m) return;
    sh->nontrivial = 1;
    t.lin[to] = t.lin[m];
    bool w = want_log; want_log = false;
    for (auto &o : t.lin[to]) { Op r = o; r.set("m", to); b.do_op(r, idx); }
    want_log = w; b.rec.clear();
    return;
  }
  if (k == "new") t.lin[m].clear();
  if (k != "new" && !a.slots[m].m) return;
  a.do_op(op, idx); b.do_op(op, idx);
  if (k == "drop") t.lin[m].clear(); else t.lin[m].push_back(op);
  twin_compare(a, b, op, idx);
}
static void twin_final(Twins &t) {
  for (size_t i = 0; i < t.a->slots.size(); i++) if (t.a->slots[i].m) { Op o; o.kind = "final check"; o.set("m", i); t.a->check_all(t.a->slots[i]); t.b->check_all(t.b->slots[i]); t.a->check_names(t.a->slots[i]); t.b->check_names(t.b->slots[i]); twin_compare(*t.a, *t.b, o, -1); }
  for (size_t i = 0; i < t.a->slots.size(); i++) { t.a->kill(t.a->slots[i]); t.b->kill(t.b->slots[i]);
    for (size_t j = i + 1; j < t.a->slots.size(); j++) if (t.a->slots[j].m) { Op o; o.kind = "query after destroying model " + std::to_string(i); o.set("m", j); t.a->check_all(t.a->slots[j]); t.b->check_all(t.b->slots[j]); twin_compare(*t.a, *t.b, o, -1); break; } }
}
static void exec_copies(const Plan &p) {
  auto robots = make_robots(p); int ns = std::max(1l, p.knob("slots", 2)), nc = p.knob("clients", 0);
  World a, b; for (World *w : {&a, &b}) { w->plan = &p; w->robots = &robots; w->mask = M_RECORD; w->slots.resize(ns); }
  Twins t{&a, &b, std::vector<std::vector<Op>>(ns)};
  auto run = [](Twins &t, const Op &op, int idx) { try { twin_op(t, op, idx); } catch (const std::exception &e) { t.a->fail("unexpected-exception", op.kind + " threw: " + e.what()); } };
  if (!nc) { for (size_t i = 0; i < p.ops.size(); i++) run(t, p.ops[i], i); twin_final(t); return; }
  for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].client == 0) run(t, p.ops[i], i);
  struct C { World a, b; Twins t; std::vector<std::pair<int, const Op *>> ops; void (*run)(Twins &, const Op &, int); };
  std::vector<C> cs(nc); int per = std::max(1, ns / nc);
  for (int c = 0; c < nc; c++) {
    C &x = cs[c]; x.a = a; x.b = b; x.a.slots.assign(ns, Slot()); x.b.slots.assign(ns, Slot()); x.run = run;
    for (int s = c * per; s < (c + 1) * per && s < ns; s++) { x.a.slots[s] = a.slots[s]; x.b.slots[s] = b.slots[s]; }
    x.t = Twins{&x.a, &x.b, t.lin};
  }
  for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].client > 0) {
    int c = (p.ops[i].client - 1) % nc; auto mine = [&](long s) { s %= ns; return s >= c * per && s < (c + 1) * per; };
    if (mine(p.ops[i].get("m")) && mine(p.ops[i].get("t"))) cs[c].ops.push_back({(int)i, &p.ops[i]});
  }
  std::vector<void (*)(void *)> fns; std::vector<void *> args;
  for (auto &c : cs) { fns.push_back([](void *v) { C &c = *(C *)v; for (auto &o : c.ops) { c.run(c.t, *o.second, o.first); op_boundary(); } try { twin_final(c.t); } catch (const std::exception &e) { c.a.fail("unexpected-exception", e.what()); } }); args.push_back(&c); }
  run_threads(fns, args, p.sched); count(CNT_THREAD_RUNS);
}

// ------------------------------------------------------------------ C07: damaged descriptions
static Plan gen_damage(uint64_t seed, bool thorough) {
  Rng g(seed); Plan p; p.prop = "C07"; p.seed = seed;
  p.robots.push_back(gen_spec(g, 10, g.chance(0.3))); p.robots.push_back(gen_spec(g, 8, false));
  for (auto &r : p.robots) if (!r.data && !r.opt.n_joints) r.opt.n_joints = 1;
  if (g.chance(0.3)) { p.ops.push_back(mk(0, "graph", g)); }
  else if (g.chance(0.15)) p.ops.push_back(mk(0, "cut", g));
  else if (!p.robots[0].data && g.chance(0.25)) p.ops.push_back(mk(0, "garble", g));
  else { int n = g.chance(0.5) ? 1 : log_uniform(g, 1, thorough ? 20 : 8); for (int i = 0; i < n; i++) p.ops.push_back(mk(0, g.chance(0.4) ? "elem" : g.chance(0.5) ? "token" : "dmg", g)); }
  p.ops.push_back(mk(0, g.chance(0.8) ? "use" : "usefile", g));
  return p;
}
static std::string damage_bytes(std::string t, const std::string &other, Rng &g) {
  if (t.empty()) return t;
  static const int blocks[] = {1, 16, 64, 512}; size_t bs = blocks[g.below(4)]; size_t nb = (t.size() + bs - 1) / bs;
  auto blk = [&](size_t i) { return std::make_pair(i * bs, std::min(bs, t.size() - i * bs)); };
  switch (g.below(13)) {
  case 0: t.resize(g.below(t.size())); break;
  case 1: { int n = g.range(1, 4); for (int i = 0; i < n; i++) t[g.below(t.size())] ^= 1 << g.below(8); break; }
  case 2: { auto b = blk(g.below(nb)); t.erase(b.first, b.second); break; }
  case 3: { auto b = blk(g.below(nb)); for (size_t i = 0; i < b.second; i++) t[b.first + i] = 0; break; }
  case 4: { auto b = blk(g.below(nb)); t.insert(b.first, t.substr(b.first, b.second)); break; }
  case 5: { auto a = blk(g.below(nb)), b = blk(g.below(nb)); size_t n = std::min(a.second, b.second); for (size_t i = 0; i < n; i++) std::swap(t[a.first + i], t[b.first + i]); break; }
  case 6: { auto b = blk(g.below(nb)); for (size_t i = 0; i < b.second && b.first + i < other.size(); i++) t[b.first + i] = other[b.first + i]; break; }
  case 7: t = t.substr(0, g.below(t.size())) + other.substr(g.below(other.size())); break;
  case 8: { auto b = blk(g.below(nb)); for (size_t i = 0; i < b.second; i++) t[b.first + i] = (char)g.below(256); break; }
  case 9: { static const char *tk[] = {"\xc3", "\xe6\x97", "\xf0\x9f", "&#", "&#x", "&#xFFFFFF;", "&", "<!--", "<![CDATA[", "]]>", "<?", "?>", "\"", "'", "</", "/>", "<", ">", "\xef\xbb\xbf", "\xff\xfe", "&amp", "<a", "=", "&#99999999999;", "&#x41", "&#65", "&#x", "&#x;", "&lt", "&quo", "]]", "--"}; t.insert(g.below(t.size() + 1), tk[g.below(sizeof tk / sizeof *tk)]); break; }
  case 10: { static const char *tail[] = {"\xe6", "\xf0\x9f", "\xef", "\xef\xbb", "\xef<", "<a \xef", "<", "<!-- \xe6", "<a b=\"\xf0", "<robot name=\"", "&#x", "<!--", "<![CDATA[", "</robot", ">&#x41", ">&#65", "<a b=\"&#x4", "<a b='&#9", "<a b=\"&am", ">&q", "<!DOCTYPE", "<?xml version=\"1", "<![CDATA[x]", "<!-- -", "<a b", "<a b=", "<a b=c", "</robot ", "<a/", "&#x4", "&#"}; t.resize(g.below(t.size()) + 1); t += tail[g.below(sizeof tail / sizeof *tail)]; break; }
  case 11: { size_t n = g.range(1, 3) * 4096; if (t.size() > n) t.resize(n); break; } // lost tail
  default: { size_t a = g.below(t.size()); int n = g.range(1, 2000); std::string d; for (int i = 0; i < n; i++) d += "<a>"; t.insert(a, d); break; }
  }
  return t;
}
// damage that respects token boundaries, so that more of it gets past the XML layer
static std::string damage_token(std::string t, const std::string &other, Rng &g) {
  auto spans = [](const std::string &s, char kind) {
    std::vector<std::pair<size_t, size_t>> v;
    if (kind == 'v') { for (size_t i = s.find('"'); i != std::string::npos;) { size_t e = s.find('"', i + 1); if (e == std::string::npos) break; v.push_back({i + 1, e - i - 1}); i = s.find('"', e + 1); } }
    else for (size_t i = s.find('<'); i != std::string::npos;) { size_t e = s.find('>', i); if (e == std::string::npos) break; v.push_back({i, e - i + 1}); i = s.find('<', e); }
    return v;
  };
  char kind = g.chance(0.6) ? 'v' : 't'; auto a = spans(t, kind), b = spans(g.chance(0.5) ? t : other, kind);
  if (a.empty() || b.empty()) return t;
  auto x = a[g.below(a.size())]; const std::string &src = t; (void)src;
  static const char *vals[] = {"", " ", "nan", "inf", "-inf", "1e999", "1e308 1e308 1e308", "0 0 0", "1 2", "1 2 3 4", "abc", "0x10", "-", "1,5", "floating", "planar", "continuous", "fixed", "revolute", "prismatic", "unknown", "1.2.3", "1.0", "2.0", "9999999999999999999999", "\t1\n2 3 ", "&quot;"};
  if (kind == 'v' && g.chance(0.5)) return t.replace(x.first, x.second, vals[g.below(sizeof vals / sizeof *vals)]);
  if (kind == 't' && g.chance(0.4)) return g.chance(0.5) ? t.erase(x.first, x.second) : t.insert(x.first, t.substr(x.first, x.second));
  auto y = a[g.below(a.size())];
  return t.replace(x.first, x.second, t.substr(y.first, y.second));
}
// damage to one whole element or attribute; every element name is as likely as any other
struct Elem { std::string name; size_t a, tag_end, e; };
static std::vector<Elem> elements(const std::string &t) {
  std::vector<Elem> v; std::vector<size_t> open; size_t i = 0;
  while ((i = t.find('<', i)) != std::string::npos) {
    if (!t.compare(i, 4, "<!--")) { i = t.find("-->", i); if (i == std::string::npos) break; continue; }
    if (i + 1 >= t.size()) break;
    if (t[i + 1] == '?' || t[i + 1] == '!') { i++; continue; }
    size_t e = i + 1; char q = 0; while (e < t.size() && (q || t[e] != '>')) { if (q) { if (t[e] == q) q = 0; } else if (t[e] == '"' || t[e] == '\'') q = t[e]; e++; }
    if (e >= t.size()) break;
    if (t[i + 1] == '/') { if (!open.empty()) { v[open.back()].e = e + 1; open.pop_back(); } }
    else { size_t k = i + 1; while (k < e && !isspace((unsigned char)t[k]) && t[k] != '/') k++; v.push_back({t.substr(i + 1, k - i - 1), i, e + 1, e + 1}); if (t[e - 1] != '/') open.push_back(v.size() - 1); }
    i = e;
  }
  return v;
}
static const Elem &pick_elem(const std::vector<Elem> &v, Rng &g) {
  std::vector<std::string> names; for (auto &x : v) if (std::find(names.begin(), names.end(), x.name) == names.end()) names.push_back(x.name);
  const std::string &n = names[g.below(names.size())]; std::vector<const Elem *> c; for (auto &x : v) if (x.name == n) c.push_back(&x);
  return *c[g.below(c.size())];
}
struct At { size_t a, eq, e; }; // an attribute: name, '=', end
static std::vector<At> attributes(const std::string &t, const Elem &x) {
  std::vector<At> at;
  for (size_t i = x.a + 1 + x.name.size(); i < x.tag_end;) {
    while (i < x.tag_end && (isspace((unsigned char)t[i]) || t[i] == '/' || t[i] == '>')) i++;
    if (i >= x.tag_end) break;
    size_t eq = t.find('=', i); if (eq == std::string::npos || eq >= x.tag_end) break;
    size_t q = eq + 1; while (q < x.tag_end && t[q] != '"' && t[q] != '\'') q++;
    size_t e = q < x.tag_end ? t.find(t[q], q + 1) : std::string::npos; if (e == std::string::npos || e >= x.tag_end) break;
    at.push_back({i, eq, e + 1}); i = e + 1;
  }
  return at;
}
static std::string at_name(const std::string &t, const At &b) { size_t e = b.eq; while (e > b.a && isspace((unsigned char)t[e - 1])) e--; return t.substr(b.a, e - b.a); }
static std::string at_value(const std::string &t, const At &b) { size_t q = b.eq + 1; while (q < b.e && t[q] != '"' && t[q] != '\'') q++; return t.substr(q + 1, b.e - q - 2); }
// a joint's type, a number of it or a link it refers to can no longer be read; only for generated robots
static bool garble_joint(std::string &t, Rng &g, std::string &why) {
  auto v = elements(t); std::vector<Elem> js; for (auto &x : v) if (x.name == "joint") js.push_back(x);
  if (js.empty()) return false;
  const Elem &j = js[g.below(js.size())]; std::string type; std::vector<std::pair<At, int>> c; // 1 number, 3 vector, 0 type, -1 link
  for (auto &b : attributes(t, j)) if (at_name(t, b) == "type") { type = at_value(t, b); c.push_back({b, 0}); }
  for (auto &x : v) if (x.a > j.a && x.e < j.e) for (auto &b : attributes(t, x)) {
    static const std::set<std::string> known = {"link", "xyz", "rpy", "lower", "upper", "effort", "velocity", "multiplier", "offset", "soft_lower_limit", "soft_upper_limit", "k_position", "k_velocity", "rising", "falling", "damping", "friction"};
    std::string n = at_name(t, b); if (!known.count(n) || (x.name == "axis" && type == "fixed")) continue;
    c.push_back({b, n == "link" ? -1 : n == "xyz" || n == "rpy" ? 3 : 1});
  }
  static const char *num[] = {"abc", "", "1.2.3", "--1", "one", "1;5", "1 2"}, *vec[] = {"", "abc", "1 2", "0 0 x", "1;2;3", "0 0.1.2 0", "1 2 3 4"}, *ty[] = {"hinge", "", "Revolute", "fixed2", "revolut"}, *ln[] = {"", "no such link", "no_such_link"};
  auto x = c[g.below(c.size())]; At b = x.first; std::string val = x.second == 1 ? num[g.below(7)] : x.second == 3 ? vec[g.below(7)] : x.second ? ln[g.below(3)] : ty[g.below(5)];
  why = "joint in which " + at_name(t, b) + " is \"" + val + "\""; t.replace(b.eq + 1, b.e - b.eq - 1, "\"" + val + "\""); return true;
}
static std::string damage_element(std::string t, const std::string &other, Rng &g) {
  auto v = elements(t); if (v.empty()) return t;
  Elem x = pick_elem(v, g); if (x.name == "robot" && g.chance(0.8)) x = pick_elem(v, g);
  std::string el = t.substr(x.a, x.e - x.a);
  auto at = attributes(t, x);
  static const char *names[] = {"lower", "upper", "value", "xyz", "rpy", "joint", "link", "name", "type", "filename", "ixx", "effort", "velocity", "multiplier"};
  static const char *tags[] = {"limit", "mimic", "origin", "axis", "parent", "child", "inertial", "mass", "inertia", "visual", "collision", "geometry", "box", "sphere", "cylinder", "mesh", "material", "color", "texture", "link", "joint", "dynamics", "calibration", "safety_controller", "robot"};
  static const char *vals[] = {"", " ", "nan", "inf", "-1", "0", "1e999", "0 0 0", "1 2", "1 2 3 4", "abc", "floating", "planar", "continuous", "fixed", "revolute", "prismatic", "1.0", "2.0", "-0.0"};
  int k = g.below(9); if (k >= 3 && k <= 6 && at.empty()) k = 0;
  switch (k) {
  case 0: return t.erase(x.a, x.e - x.a);
  case 1: return t.insert(g.chance(0.5) ? x.a : x.e, el);
  case 2: { size_t to = pick_elem(v, g).tag_end; if (to > x.a && to < x.e) return t; if (to <= x.a) { t.erase(x.a, x.e - x.a); return t.insert(to, el); } t.insert(to, el); return t.erase(x.a, x.e - x.a); }
  case 3: { At b = at[g.below(at.size())]; return t.erase(b.a, b.e - b.a); }
  case 4: { At b = at[g.below(at.size())]; return t.replace(b.a, b.eq - b.a, g.chance(0.5) ? "x" : names[g.below(sizeof names / sizeof *names)]); }
  case 5: { At b = at[g.below(at.size())]; return t.insert(b.e, " " + t.substr(b.a, b.e - b.a)); }
  case 6: { At b = at[g.below(at.size())]; return t.replace(b.eq + 1, b.e - b.eq - 1, std::string("\"") + vals[g.below(sizeof vals / sizeof *vals)] + "\""); }
  case 7: { std::string n = tags[g.below(sizeof tags / sizeof *tags)]; size_t c = t.rfind("</", x.e); if (x.e != x.tag_end && c != std::string::npos && c > x.a) t.replace(c + 2, x.name.size(), n); return t.replace(x.a + 1, x.name.size(), n); }
  default: { auto w = elements(other); if (w.empty()) return t; const Elem &y = pick_elem(w, g); return t.replace(x.a, x.e - x.a, other.substr(y.a, y.e - y.a)); }
  }
}
static bool eqv(const std::vector<double> &a, const std::vector<double> &b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; if (!std::isfinite(a[i]) && !std::isfinite(b[i])) continue; if (!(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(a[i])))) return false; }
  return true;
}
static void exercise(cut::Model *m, Rng &g, const std::string &text) {
  World w; (void)w;
  auto ln = cut::link_names(m), jn = cut::joint_names(m); size_t nl = ln.size(), nj = jn.size();
  auto V = [](const std::string &c, const std::string &s) { logf("FAIL %s %s", c.c_str(), s.c_str()); violation(c, s); };
  if (!nl) V("accepted:no-links", "a model without links was built");
  std::set<std::string> sl(ln.begin(), ln.end()), sj(jn.begin(), jn.end());
  if (sl.size() != nl || sj.size() != nj) V("accepted:names", "a name is listed twice in a model built from a damaged description");
  auto li = cut::link_ids(m, ln), ji = cut::joint_ids(m, jn);
  for (size_t i = 0; i < nl; i++) if (li[i] != i) V("accepted:ids", "link names and ids do not correspond");
  for (size_t i = 0; i < nj; i++) if (ji[i] != i) V("accepted:ids", "joint names and ids do not correspond");
  // the tree of the accepted description
  cut::Parsed P = cut::parse(text);
  if (!P.ok) V("accepted:parse", "a model was built although the description does not parse");
  std::map<std::string, std::string> par; int roots = 0; std::map<std::string, int> declared; for (auto &l : P.links) declared[l.name]++;
  for (auto &j : P.joints) { if (!declared.count(j.child) || !declared.count(j.parent)) V("accepted:unknown-link", "joint " + j.name + " refers to a link that does not exist"); if (par.count(j.child)) V("accepted:two-parents", "link " + j.child + " has two parent joints"); par[j.child] = j.parent; }
  for (auto &l : P.links) { if (!par.count(l.name)) roots++; size_t n = 0; std::string x = l.name; while (par.count(x)) { x = par[x]; if (++n > P.links.size()) V("accepted:cycle", "the joints of the accepted description form a cycle"); } }
  if (roots != 1) V("accepted:roots", "the accepted description has " + std::to_string(roots) + " roots");
  std::vector<size_t> all; for (size_t j = 0; j < nj; j++) all.push_back(j);
  cut::pos_limits(m, all); cut::vel_limits(m, all); cut::eff_limits(m, all);
  auto poses = [&](bool rev) { std::vector<double> v(nl * 7); for (size_t i = 0; i < nl; i++) { size_t k = rev ? nl - 1 - i : i; cut::pose(m, k, &v[k * 7]); } return v; };
  auto rest = [&] { std::vector<double> v; double c[3]; cut::com(m, c); v.assign(c, c + 3); auto J = cut::com_jacobian(m, all, true); v.insert(v.end(), J.d.begin(), J.d.end()); auto I = cut::inertia(m); v.insert(v.end(), I.d.begin(), I.d.end());
    for (size_t i = 0; i < nl; i += 1 + nl / 6) for (int r = 0; r < 3; r++) { auto K = cut::jacobian(m, i, all, r, r != 0); v.insert(v.end(), K.d.begin(), K.d.end()); } v.push_back(cut::total_mass(m)); return v; };
  for (int round = 0; round < 3; round++) {
    op_begin("query of an accepted model");
    auto a = poses(round & 1); auto ra = rest(); auto b = poses(!(round & 1));
    if (!eqv(a, b, 1e-9)) V("accepted:inconsistent", "asking for the same poses twice gives different answers");
    cut::clear_cache(m); auto rb = rest(); auto c = poses(round & 1);
    if (!eqv(a, c, 1e-9)) V("accepted:inconsistent", "poses differ after a cache reset");
    bool fin = true; for (double x : ra) fin = fin && std::isfinite(x) && std::fabs(x) < 1e6;
    if (fin && !eqv(ra, rb, 1e-6)) V("accepted:inconsistent", "Jacobians or mass properties differ when asked twice");
    if (round == 0) { std::vector<double> q; for (size_t j = 0; j < nj; j++) q.push_back(g.uni(-3, 3)); cut::set_joint_angles(m, all, q); if (!eqv(cut::angles(m, all), q, 0)) V("accepted:angles", "angles do not read back"); double p[3] = {1, 2, 3}, r[3] = {0.1, 0.2, 0.3}; cut::set_base_rpy(m, p, r, false); }
    if (round == 1) { std::string n = "added to a damaged model"; double p[3] = {1, 0, 0}, r[3] = {0, 0, 1}; cut::add_link_rpy(m, n, g.below(nl), p, r, nullptr, nullptr); if (cut::link_ids(m, {n})[0] != nl) V("accepted:add", "an added link did not get the next id"); nl++; }
  }
}
static void graph_damage(Robot &r, Rng &g, std::string &what) {
  size_t nj = r.joints.size(); auto nj_ = [&](const std::string &n, int pa, int ch) { RJoint j = r.joints[g.below(nj)]; j.name = n; j.parent = pa; j.child = ch; j.has_mimic = false; j.type = g.chance(0.5) ? J_FIXED : J_CONT; r.joints.push_back(j); };
  int nl = r.links.size();
  switch (nj ? g.below(8) : 2) {
  case 0: { int c; do c = g.below(nl); while (r.parent_joint[c] < 0); int pa; do pa = g.below(nl); while (pa == c); nj_(g.chance(0.5) ? "zz_second" : "AA_second", pa, c); what = "link with two parent joints"; break; }
  case 1: { // the root hangs below one of its descendants
    int d; do d = g.below(nl); while (d == r.root); nj_(g.chance(0.5) ? "zz_loop" : "AA_loop", d, r.root); what = "cycle through the root"; break; }
  case 2: { RLink l; l.name = g.chance(0.5) ? "zz_island" : "AA_island"; r.links.push_back(l); what = "second root without joints"; break; }
  case 3: { RLink a, b; a.name = g.chance(0.5) ? "zz_i1" : "AA_i1"; b.name = "M_i2"; r.links.push_back(a); r.links.push_back(b); nj_("zz_island_joint", nl, nl + 1); what = "second tree"; break; }
  case 4: { RLink a, b; a.name = g.chance(0.5) ? "zz_c1" : "AA_c1"; b.name = "M_c2"; r.links.push_back(a); r.links.push_back(b); nj_("zz_cyc1", nl, nl + 1); nj_("AA_cyc2", nl + 1, nl); what = "detached cycle"; break; }
  case 5: { RLink a; a.name = r.links[g.below(nl)].name; a.has_inertial = true; a.mass = 1; if (g.chance(0.3)) a = r.links[g.below(nl)]; r.links.push_back(a); if (g.chance(0.5)) nj_("zz_twin", g.below(nl), nl); what = "link name that is used twice"; break; }
  case 6: { if (g.chance(0.4)) { // the second joint of that name leads to the same link
      RJoint j = r.joints[g.below(nj)]; if (g.chance(0.5)) { j.type = g.chance(0.5) ? J_FIXED : J_CONT; j.has_mimic = false; } if (g.chance(0.4)) do j.parent = g.below(nl); while (j.parent == j.child);
      r.joints.insert(r.joints.begin() + g.below(nj + 1), j); what = "joint that is listed twice"; break; }
    std::string n = r.joints[g.below(nj)].name; RLink a; a.name = g.chance(0.5) ? "zz_l" : "AA_l"; r.links.push_back(a); nj_(n, g.below(nl), nl); what = "joint name that is used twice"; break; }
  default: { int l = g.below(nl); if (g.chance(0.5)) { RLink a; a.name = "zz_self"; r.links.push_back(a); l = nl; } nj_("self_joint", l, l); what = "link that is its own parent"; break; }
  }
}
static void exec_damage(const Plan &p) {
  auto robots = make_robots(p); std::string text = robots[0].text, why; bool must_throw = false; int graphs = 0;
  for (auto &o : p.ops) {
    Rng g(o.get("s")); const std::string &other = robots[robots.size() > 1 ? 1 : 0].text;
    if (o.kind == "dmg") { text = damage_bytes(text, other, g); count(CNT_DAMAGE); sh->nontrivial = 1; }
    else if (o.kind == "elem") { text = damage_element(text, other, g); count(CNT_DAMAGE); sh->nontrivial = 1; }
    else if (o.kind == "token") { text = damage_token(text, other, g); count(CNT_DAMAGE); sh->nontrivial = 1; }
    else if (o.kind == "graph") { robots[0].finish(); graph_damage(robots[0], g, why); Rng h(o.get("s") + 1); Robot r = robots[0]; print_xml(r, h, h.chance(0.5), false); text = r.text; must_throw = ++graphs == 1; count(CNT_GRAPH_DAMAGE); sh->nontrivial = 1; }
    else if (o.kind == "cut") { // any position is as likely as one close to the start or the end of an element
      size_t end = text.rfind("</robot"); if (end == std::string::npos) continue;
      end = text.find('>', end); size_t n = g.below(end + 1);
      if (g.chance(0.5)) { size_t k = g.chance(0.5) ? text.rfind('>', n) : text.rfind('<', n); if (k != std::string::npos) n = std::min(end, k + g.below(3)); } else if (g.chance(0.3)) n = end - std::min<size_t>(end, g.below(12));
      text.resize(n); must_throw = !graphs++ ; why = "text that is cut off before its end"; count(CNT_DAMAGE); sh->nontrivial = 1; }
    else if (o.kind == "garble") { if (garble_joint(text, g, why)) { must_throw = !graphs++; count(CNT_DAMAGE); sh->nontrivial = 1; } }
    else if (o.kind == "use" || o.kind == "usefile") {
      log_hash_bytes(text.data(), text.size()); for (size_t i = 0; i < text.size(); i += 7) shape_mix((unsigned char)text[i]);
      logf("description of %zu bytes:\n%s", text.size(), want_log ? text.substr(0, 1500).c_str() : "");
      if (o.kind == "usefile") { op_begin("parseURDFFile of a damaged file"); (*disk)["/simdisk/d.urdf"] = text; try { cut::Parsed P = cut::parse_file("/simdisk/d.urdf"); if (must_throw && P.ok) violation("accepted:graph", "parseURDFFile accepted a description with a " + why); } catch (const std::exception &) {} }
      cut::Model *m = nullptr; op_begin("construction from a damaged description");
      try { m = cut::make(text); } catch (const std::exception &e) { logf("rejected: %s", e.what()); count(CNT_DAMAGE_REJECTED); continue; }
      count(CNT_DAMAGE_ACCEPTED);
      if (must_throw) violation("accepted:graph", "a description with a " + why + " was accepted");
      if (text.find('\0') != std::string::npos) text.resize(text.find('\0'));
      try { exercise(m, g, text); } catch (const std::exception &e) { violation("accepted:query-throws", std::string("a query on an accepted model threw: ") + e.what()); }
      op_begin("copy and destruction of an accepted model");
      cut::Model *c = nullptr; try { c = cut::copy(m); } catch (const std::exception &e) { violation("accepted:query-throws", std::string("copying an accepted model threw: ") + e.what()); } cut::destroy(m); double q[7]; cut::pose(c, 0, q); cut::destroy(c);
    }
  }
}

// ------------------------------------------------------------------ C08: loading files
static std::string file_content(Rng &g, const std::string &robot, int kind) {
  if (kind == 0) return robot;
  if (kind == 1) { std::string t = robot; while (!t.empty() && t.back() == '\n') t.pop_back(); return t; }
  if (kind == 2) { std::string t; for (char c : robot) { if (c == '\n') t += '\r'; t += c; } return t; }
  if (kind == 5) { // long contents of every kind, with every kind of line end, across the boundaries of blocks
    static const char *eol[] = {"\n", "\r\n", "\r\n", "\r"}; int fixed = g.below(6), n = log_uniform(g, 300, 70000); std::string x = g.chance(0.5) ? "<?xml version=\"1.0\"?>\n<r>" : "<r>";
    while ((int)x.size() < n) {
      int k = g.below(4), len = log_uniform(g, 20, n); std::string b; size_t to = std::min<size_t>(x.size() + len, n + 100); double pe = g.chance(0.3) ? 0.6 : 0.1;
      while (x.size() + b.size() < to) { if (g.chance(pe)) b += eol[fixed < 4 ? fixed : g.below(4)]; else { b += "w"; b += std::to_string(g.below(1000)); if (g.chance(0.2)) b += " "; } }
      x += k == 0 ? "<t><![CDATA[" + b + "]]></t>" : k == 1 ? "<!--" + b + "-->" : k == 2 ? "<t a=\"" + b + "\"/>" : "<t>" + b + "</t>"; if (g.chance(0.5)) x += eol[fixed < 4 ? fixed : g.below(4)];
    }
    return x + "</r>";
  }
  std::string t; size_t n = kind == 3 ? g.below(200) : ((g.chance(0.15) ? 65536 : g.chance(0.5) ? 8192 : 4096) * g.range(1, 3) + g.range(-2, 2));
  for (size_t i = 0; i < n; i++) t += g.chance(0.03) ? '\n' : g.chance(0.01) ? '\r' : g.chance(0.003) ? (char)0 : g.chance(0.02) ? (char)(128 + g.below(128)) : (char)(32 + g.below(95));
  return t;
}
static void gen_io(Rng &g, Op &o, bool write) {
  if (g.chance(0.6)) o.set("ck", 1 + g.below(1000000));
  if (g.chance(0.3)) o.set("ei", g.below(1 << g.range(1, 20)));
  if (g.chance(0.4)) o.set("sb", log_uniform(g, 1, 9000));
  if (!write) { if (g.chance(0.35)) o.set("er", g.chance(0.2) ? 0 : g.chance(0.5) ? log_uniform(g, 1, 30000) : (long)g.range(1, 4) * 4096); if (g.chance(0.06)) o.set("oe", g.chance(0.5) ? EACCES : EMFILE); }
  else {
    if (g.chance(0.35)) o.set("es", g.chance(0.15) ? 0 : g.chance(0.3) ? (long)g.range(1, 4) * 1024 : log_uniform(g, 1, 20000));
    if (g.chance(0.15)) o.set("ew", g.chance(0.2) ? 0 : log_uniform(g, 1, 20000));
    if (g.chance(0.15)) { o.set("ce", g.chance(0.5) ? EIO : ENOSPC); if (g.chance(0.7)) o.set("lf", log_uniform(g, 1, 10000)); }
    if (g.chance(0.06)) o.set("oe", g.chance(0.5) ? EROFS : ENOSPC);
  }
}
static Plan gen_load(uint64_t seed, bool) {
  Rng g(seed); Plan p; p.prop = "C08"; p.seed = seed; int nr = g.range(1, 2);
  for (int i = 0; i < nr; i++) p.robots.push_back(gen_spec(g, 25, true));
  if (g.chance(0.03) && !p.robots[0].data) p.robots[0].opt.n_joints = log_uniform(g, 60, 200);
  int n = g.range(2, 8);
  for (int i = 0; i < n; i++) { Op o = mk(0, g.chance(0.5) ? "load" : g.chance(0.5) ? "parse" : "doc", g); o.set("r", g.below(nr)); o.set("c", o.kind == "load" ? g.below(6) : o.kind == "doc" && g.chance(0.5) ? 5 : g.below(3)); if (g.chance(0.04)) o.set("missing", 1); gen_io(g, o, false); p.ops.push_back(o); }
  return p;
}
static std::string node_text(const cut::Node &n) {
  std::string o = n.type == 0 ? "<" : n.type == 1 ? (n.cdata ? "C" : "T") : n.type == 2 ? "!" : n.type == 3 ? "?" : n.type == 4 ? "D" : ""; o += hexs(n.value);
  auto a = n.attrs; std::sort(a.begin(), a.end());
  for (auto &x : a) o += " " + hexs(x.first) + "=" + hexs(x.second);
  for (auto &k : n.kids) o += "\n" + node_text(k);
  return o + (n.type == 0 ? ">" : "");
}
static std::string shapes_text(const cut::PLink &l) {
  std::string o; for (auto *v : {&l.visuals, &l.collisions}) { o += " ["; for (auto &s : *v) { o += std::to_string(s.kind) + hexs(s.name) + hexs(s.file) + dump(std::vector<double>(s.xyz, s.xyz + 3)) + dump(std::vector<double>(s.q, s.q + 4)) + dump(std::vector<double>(s.d, s.d + 3)) + hexs(s.mat) + hexs(s.mat_name) + hexs(s.texture) + dump(std::vector<double>(s.rgba, s.rgba + 4)) + ";"; } o += "]"; }
  return o;
}
std::string parsed_text(const cut::Parsed &p) {
  std::string o = hexs(p.name) + " root " + hexs(p.root);
  for (auto &l : p.links) { o += "\nlink " + hexs(l.name) + " < " + hexs(l.parent) + " " + shapes_text(l); if (l.has_inertial) { o += dump({l.mass}) + dump(std::vector<double>(l.com, l.com + 3)) + dump(std::vector<double>(l.q, l.q + 4)) + dump(std::vector<double>(l.I, l.I + 6)); } }
  for (auto &j : p.joints) { o += "\njoint " + hexs(j.name) + " " + std::to_string(j.type) + " " + hexs(j.parent) + " " + hexs(j.child) + dump(std::vector<double>(j.axis, j.axis + 3)) + dump(std::vector<double>(j.xyz, j.xyz + 3)) + dump(std::vector<double>(j.q, j.q + 4)) + " lim" + dump({(double)j.has_limit, j.lower, j.upper, j.effort, j.velocity}) + " mim " + hexs(j.mimic_joint) + dump({(double)j.has_mimic, j.mult, j.off}) + " saf" + dump({(double)j.has_safety, j.slo, j.sup, j.kp, j.kv}) + " cal" + dump({(double)j.has_cal, (double)j.has_rising, j.rising, (double)j.has_falling, j.falling}) + " dyn" + dump({(double)j.has_dyn, j.damping, j.friction}); }
  for (auto &m : p.mats) o += "\nmaterial " + hexs(m.name) + " " + hexs(m.texture) + dump(std::vector<double>(m.rgba, m.rgba + 4));
  return o + "\n";
}
static std::string normalise_eol(const std::string &s) { std::string t; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\r') { t += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') i++; } else t += s[i]; } return t; }
static void exec_load(const Plan &p) {
  auto robots = make_robots(p); const std::string path = "/simdisk/in.urdf"; int idx = 0;
  for (auto &o : p.ops) {
    Rng g(o.get("s")); std::string text = file_content(g, robots[o.get("r") % robots.size()].text, o.get("c")); std::string k = o.kind;
    disk->clear(); if (!o.get("missing")) (*disk)[path] = text;
    char w[100]; snprintf(w, sizeof w, "op %d %s (%zu bytes)", idx++, k.c_str(), text.size()); op_begin(w); logf("%s", w); count(CNT_LOADS);
    std::string want; bool want_ok = true; // the answer on an undisturbed system
    io_reset(IoFaults());
    if (k == "parse") { try { auto P = cut::parse(text); want_ok = P.ok; want = parsed_text(P); } catch (const std::exception &e) { want_ok = false; } }
    if (k == "doc") { cut::Node n; want_ok = cut::doc_parse(normalise_eol(text), n); want = node_text(n); }
    io_reset(io_from(o));
    bool ok = true; std::string got, how;
    try {
      if (k == "load") { got = cut::load_urdf(path); if (got.empty()) { ok = false; how = "empty result"; } }
      else if (k == "parse") { auto P = cut::parse_file(path); ok = P.ok; how = "null result"; if (ok) got = parsed_text(P); }
      else { cut::Node n; ok = cut::doc_load(path, n); how = "false"; if (ok) got = node_text(n); }
    } catch (const std::exception &e) { ok = false; how = std::string("exception ") + e.what(); }
    auto f = io_fired; IoFaults none; io_reset(none);
    bool hard = f.open_fail || f.eio_read || f.eintr || o.get("missing");
    logf("  %s; reads %d short %d eintr %d eio %d open %d", ok ? "loaded" : how.c_str(), f.reads, f.short_read, f.eintr, f.eio_read, f.open_fail);
    count(CNT_CHECKS); if (f.short_read || f.eintr || f.eio_read || f.open_fail) sh->nontrivial = 1;
    for (char c : k) shape_mix(c);
    shape_mix(text.size()); shape_mix(f.reads); shape_mix(f.short_read); shape_mix(f.eintr * 3 + f.eio_read * 5 + f.open_fail * 7); log_hash_bytes(got.data(), got.size());
    std::string d = " [" + std::string(w) + "; device reads " + std::to_string(f.reads) + ", short " + std::to_string(f.short_read) + ", EINTR " + std::to_string(f.eintr) + ", EIO " + std::to_string(f.eio_read) + "]";
    if (k == "load") {
      if (!ok) { if (!hard && !text.empty()) violation("load:failed", "load_urdf reported a failure (" + how + ") although nothing failed" + d); }
      else {
        std::string alt = text + "\n"; bool exact = got == text || got == alt || (!text.empty() && text.back() == '\n' && got + "\n" == text);
        if (o.get("missing") && got.find_first_not_of("\n") == std::string::npos) violation("load:missing-file", "load_urdf of a missing file returned something");
        if (!exact) violation(got.size() < text.size() ? "load:shortened" : "load:wrong-content", "load_urdf returned " + std::to_string(got.size()) + " bytes that are not the " + std::to_string(text.size()) + " bytes of the file, without any error" + d);
      }
    } else {
      if (!ok && want_ok && !hard) violation(k + ":failed", "reading the file failed (" + how + ") although nothing failed" + d);
      if (ok && o.get("missing")) violation(k + ":missing-file", "a missing file was loaded");
      if (ok && (!want_ok || got != want)) violation(k + ":wrong-content", "the loaded description is not the one in the file, and no error was reported" + d);
    }
    if (io_open_handles) violation("load:handle-leak", "a file was left open" + d);
  }
}

// ------------------------------------------------------------------ C09: saving documents
static cut::Node dtd(Rng &g) { static const char *v[] = {"!DOCTYPE robot", "!ELEMENT a (b|c)", "!ENTITY x \"y\"", "!X"}; cut::Node t; t.type = 3; t.value = v[g.below(4)]; return t; }
static cut::Node gen_node(Rng &g, int depth, int &budget) {
  static const char *names[] = {"robot", "link", "joint", "a", "origin-x", "b_1", "ns:el", "x.y"};
  auto str = [&](bool attr) {
    bool ctl = !attr && g.chance(0.4); std::string s; int n = g.chance(0.1) ? (attr ? 0 : 1) : g.range(1, g.chance(0.05) ? 3000 : 20);
    static const char *ch[] = {"%", "%s", "%5d%n", "\\", "a", "Z", "0", "-", "&", "<", ">", "\"", "'", "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", ";", "#", "amp", "x", "\n", "\t", "\r", "\x01", " "};
    for (int i = 0; i < n; i++) { s += ch[g.below(attr ? 25 : ctl ? 24 : 20)]; size_t l = s.size(); if (l >= 3 && s.compare(l - 3, 3, "&#x") == 0) s.resize(l - 1); } // "&#x" in a value is TinyXML's notation for a character reference
    if (ctl && s.find_first_not_of("\n\t\r") == std::string::npos) s += "x"; // texts of nothing but white space are dropped, by TinyXML's documented design
    if (!attr && s.size() > 3 && g.chance(0.3)) s[1] = s[1] >= 'A' && s[1] < 127 && (s[0] & 0x80) == 0 ? ' ' : s[1];
    return s;
  };
  auto raw = [&] { static const char *ch[] = {"a", " ", "<", "&", "\n", "]", "-", ">", "\t", "\xc3\xa9", "amp;", "\"", "x", "%s", "% d%n"}; std::string s; for (int k = g.chance(0.03) ? g.range(300, 3000) : g.range(1, 30); k-- > 0;) { const char *c = ch[g.below(15)]; if (*c == '>' && s.size() && (s.back() == ']' || s.back() == '-')) continue; if (*c == '-' && s.size() && s.back() == '-') continue; s += c; } return s + "x"; };
  cut::Node n; n.type = 0; n.value = names[g.below(8)];
  int na = g.below(4); static const char *an[] = {"name", "xyz", "value", "b-c"};
  for (int i = 0; i < na; i++) n.attrs.push_back({an[i], g.chance(0.5) ? "1.5 0 " + std::to_string(g.below(1000)) : str(true)});
  int nk = depth > 0 ? g.below(5) : 0; bool last_text = false;
  for (int i = 0; i < nk && budget > 0; i++) {
    budget--;
    double r = g.uni();
    if (r < 0.65) { n.kids.push_back(gen_node(g, depth - 1, budget)); last_text = false; }
    else if (r < 0.85) { if (last_text) continue; cut::Node t; t.type = 1; t.value = str(false); t.cdata = false; n.kids.push_back(t); last_text = true; }
    else if (r < 0.93) { if (last_text) continue; cut::Node t; t.type = 1; t.cdata = true; t.value = g.chance(0.5) ? "raw <&> " + std::to_string(g.below(100)) + "\n  x" : raw(); n.kids.push_back(t); last_text = true; }
    else if (g.chance(0.2)) { n.kids.push_back(dtd(g)); last_text = false; }
    else { cut::Node t; t.type = 2; t.value = g.chance(0.5) ? " note " + std::to_string(g.below(100)) + " <&> " : raw(); n.kids.push_back(t); last_text = false; }
  }
  return n;
}
static cut::Node gen_doc(Rng &g, int depth, int budget) { // declaration, root element and what may stand around them
  cut::Node d; d.type = 5; int k = g.below(6);
  if (k != 1) { cut::Node t; t.type = 4; t.attrs = {{"v", "1.0"}, {"e", k == 2 ? "UTF-8" : k == 3 ? "utf-8" : ""}, {"s", k == 3 ? "yes" : ""}}; d.kids.push_back(t); }
  auto around = [&] { if (g.chance(0.8)) return; if (g.chance(0.5)) d.kids.push_back(dtd(g)); else { cut::Node t; t.type = 2; t.value = " around & < " + std::to_string(g.below(100)); d.kids.push_back(t); } };
  around(); cut::Node root = gen_node(g, depth, budget);
  if (g.chance(0.06)) { int n = log_uniform(g, 10, 120); for (int i = 0; i < n; i++) { int b = g.chance(0.2) ? 2 : 0; cut::Node up = gen_node(g, b ? 1 : 0, b); up.kids.insert(up.kids.begin() + g.below(up.kids.size() + 1), root); root = up; } } // deep nesting
  d.kids.push_back(root); around(); return d;
}
static Plan gen_save(uint64_t seed, bool) {
  Rng g(seed); Plan p; p.prop = "C09"; p.seed = seed; p.robots.push_back(gen_spec(g, 20, true));
  int n = g.range(2, 8);
  for (int i = 0; i < n; i++) { Op o = mk(0, g.chance(0.6) ? "save" : g.chance(0.5) ? "resave" : "export", g); gen_io(g, o, true); o.set("z", g.below(4)); if (g.chance(0.3)) o.set("old", 1); p.ops.push_back(o); }
  return p;
}
static void exec_save(const Plan &p) {
  auto robots = make_robots(p); const std::string path = "/simdisk/out.xml"; int idx = 0;
  for (auto &o : p.ops) {
    Rng g(o.get("s")); std::string k = o.kind; std::string want; bool have = true;
    char w[100]; snprintf(w, sizeof w, "op %d %s", idx++, k.c_str()); op_begin(w); logf("%s", w);
    disk->clear(); if (o.get("old")) (*disk)[path] = robots[0].text; // an older, complete document
    int sizes[] = {4, 30, 200, 1200}; cut::Node n = gen_doc(g, 7, sizes[o.get("z") & 3]); bool ok = false;
    io_reset(IoFaults());
    if (k == "resave") { std::string t = robots[0].text; (*disk)["/simdisk/in.xml"] = t; cut::Node r; have = cut::doc_load("/simdisk/in.xml", r); want = node_text(r); if (!have) continue; }
    else if (k == "save") want = node_text(n);
    else { auto P = cut::parse(robots[0].text); bool e; std::string x = cut::parse_export(robots[0].text, &e); cut::Node r; if (!e || !cut::doc_parse(x, r)) continue; want = node_text(r); }
    IoFaults f = io_from(o);
    try {
      if (k == "resave") { // the faults concern the output only: load first, arm the disk at the save
        ok = false; io_reset(f); std::map<std::string, std::string> keep = *disk;
        // reading happens under the same device but write faults do not affect reads; open errors would
        if (f.open_errno) { IoFaults h = f; h.open_errno = 0; io_reset(h); }
        ok = cut::doc_load_save("/simdisk/in.xml", path, g.chance(0.3));
      } else if (k == "save") { io_reset(f); ok = cut::doc_save(n, path); }
      else { io_reset(f); ok = cut::parse_export_to_file(robots[0].text, path); }
    } catch (const std::exception &e) { ok = false; logf("  threw %s", e.what()); }
    auto r = io_fired; io_reset(IoFaults()); count(CNT_SAVES); if (ok) count(CNT_SAVE_ACKS);
    logf("  %s; writes %d short %d eintr %d enospc %d eio %d close %d open %d, %zu bytes on disk", ok ? "acknowledged" : "failed", r.writes, r.short_write, r.eintr, r.enospc, r.eio_write, r.close_err, r.open_fail, disk->count(path) ? (*disk)[path].size() : 0);
    for (char c : k) shape_mix(c);
    shape_mix(want.size()); shape_mix(r.writes); shape_mix(r.enospc * 3 + r.eio_write * 5 + r.close_err * 7 + r.open_fail * 11 + r.eintr * 13 + r.short_write * 17); log_hash_bytes((*disk)[path].data(), (*disk)[path].size());
    bool hard = r.open_fail || r.enospc || r.eio_write || r.close_err; if (hard || r.short_write || r.eintr) sh->nontrivial = 1;
    std::string d = " [" + std::string(w) + ": device writes " + std::to_string(r.writes) + ", disk full " + std::to_string(r.enospc) + ", write errors " + std::to_string(r.eio_write) + ", close errors " + std::to_string(r.close_err) + ", open errors " + std::to_string(r.open_fail) + ", EINTR " + std::to_string(r.eintr) + "]";
    count(CNT_CHECKS);
    if (!ok) { if (!hard && !r.eintr) violation("save:failed", "the save reported failure although nothing failed" + d); }
    else {
      cut::Node back; bool l = false; try { l = cut::doc_load(path, back); } catch (...) {}
      if (!l || node_text(back) != want) violation(hard || r.eintr || r.short_write ? "save:acknowledged-but-incomplete" : "save:wrong-content", "the save reported success but the file " + std::string(l ? "loads as a different document" : "cannot be loaded") + d + (want_log && l ? "\nWANT\n" + want.substr(0, 1500) + "\nGOT\n" + node_text(back).substr(0, 1500) : ""));
      if (r.close_err || r.open_fail) violation("save:error-ignored", "the save reported success although opening or closing the file failed" + d);
    }
    if (io_open_handles) violation("save:handle-leak", "a file was left open" + d);
  }
}

// ------------------------------------------------------------------ C10: export / import generations, locale switches
struct Punct : std::numpunct<char> { char dp, ts; std::string gr; Punct(char d, char t, std::string g) : dp(d), ts(t), gr(g) {} char do_decimal_point() const override { return dp; } char do_thousands_sep() const override { return ts; } std::string do_grouping() const override { return gr; } };
static void set_locale(long k) {
  static std::locale *ls[5]; if (!ls[0]) { ls[0] = new std::locale(std::locale::classic()); ls[1] = new std::locale(std::locale::classic(), new Punct(',', '.', "\3")); ls[2] = new std::locale(std::locale::classic(), new Punct('.', ',', "\1")); ls[3] = new std::locale(std::locale::classic(), new Punct(',', ' ', "")); ls[4] = new std::locale(std::locale::classic(), new Punct('#', '0', "\1\2")); }
  std::locale::global(*ls[k % 5]); count(CNT_LOCALE_SWITCH); logf("  locale <- %ld", k % 5);
}
static Plan gen_export(const std::string &prop, uint64_t seed, bool thorough) {
  bool geo = prop == "C17"; Rng g(seed); Plan p; p.prop = prop; p.seed = seed; p.robots.push_back(gen_spec(g, 15, true)); if (!p.robots[0].data) { p.robots[0].opt.extras = geo ? 2 : g.chance(0.8); if (g.chance(0.03)) p.robots[0].opt.n_joints = log_uniform(g, 30, 200); }
  int n = g.range(1, thorough ? 8 : 4); bool faults = g.chance(0.5);
  auto step = [&](const char *k) {
    if (g.chance(0.6)) p.ops.push_back(mk(0, "loc", g).set("k", g.below(5)));
    if (g.chance(0.4)) p.ops.push_back(mk(0, "inside", g).set("k", g.below(5)).set("at", log_uniform(g, 1, 300000)));
    p.ops.push_back(mk(0, k, g)); if (faults && g.chance(0.5)) { p.ops.back().set("fr", g.below(1000)); if (g.chance(0.4)) p.ops.back().set("ap", 1); }
  };
  for (int i = 0; i < n; i++) { step("import"); if (geo && g.chance(0.4)) step("model"); step("export"); }
  p.ops.push_back(mk(0, "import", g));
  return p;
}
static void check_parsed(const cut::Parsed &P, const Robot &r, int gen, const std::string &when) {
  double t = gen == 0 ? 1e-12 : 6e-6; // relative; six digits are written, writing them again changes nothing
  auto V = [&](const std::string &c, const std::string &m) { std::string s = m + " (generation " + std::to_string(gen) + ", " + when + ")"; logf("FAIL %s", s.c_str()); violation((gen ? "export:" : "parse:") + c, s); };
  auto near = [&](double a, double b) { return std::fabs(a - b) <= t * (1e-9 + std::fabs(b)) + (gen ? 1e-300 : 0); };
  count(CNT_CHECKS);
  if (P.links.size() != r.links.size() || P.joints.size() != r.joints.size()) V("count", std::to_string(P.links.size()) + " links and " + std::to_string(P.joints.size()) + " joints instead of " + std::to_string(r.links.size()) + " and " + std::to_string(r.joints.size()));
  std::map<std::string, const cut::PLink *> pl; for (auto &l : P.links) pl[l.name] = &l;
  std::map<std::string, const cut::PJoint *> pj; for (auto &j : P.joints) pj[j.name] = &j;
  if (P.root != r.links[r.root].name) V("root", "the root is '" + P.root + "' instead of '" + r.links[r.root].name + "'");
  auto rot = [&](const double *q, V3 rpy, const std::string &w) { double d = rot_diff(rot_quat(q[0], q[1], q[2], q[3]), rot_rpy(rpy)); if (!(d <= (gen ? 2e-5 * gen : 1e-7))) V("rotation", w + " rotation differs by" + dump({d})); };
  auto vec = [&](const double *a, V3 b, const std::string &w) { for (int k = 0; k < 3; k++) if (!near(a[k], b[k])) V("vector", w + " is" + dump({a[0], a[1], a[2]}) + " instead of" + dump({b.x, b.y, b.z})); };
  auto num = [&](double a, double b, const std::string &w) { if (!near(a, b)) V("number", w + " is" + dump({a}) + " instead of" + dump({b})); };
  for (size_t i = 0; i < r.links.size(); i++) {
    auto &l = r.links[i]; if (!pl.count(l.name)) V("link", "link '" + l.name + "' is missing"); auto &x = *pl[l.name];
    std::string par = r.parent_joint[i] < 0 ? "" : r.links[r.joints[r.parent_joint[i]].parent].name; if (x.parent != par) V("tree", "parent of link '" + l.name + "' is '" + x.parent + "' instead of '" + par + "'");
    if (x.has_inertial != l.has_inertial) V("inertial", "link '" + l.name + "': inertial element lost or invented");
    if (l.has_inertial) { num(x.mass, l.mass, "mass of " + l.name); vec(x.com, l.com, "centre of mass of " + l.name); rot(x.q, l.com_rpy, "inertial frame of " + l.name); for (int k = 0; k < 6; k++) num(x.I[k], l.I[k], "inertia of " + l.name); }
  }
  static const int types[] = {1, 2, 3, 6};
  for (auto &j : r.joints) {
    if (!pj.count(j.name)) V("joint", "joint '" + j.name + "' is missing"); auto &x = *pj[j.name]; std::string n = "joint " + j.name + ": ";
    if (x.type != types[j.type]) V("type", n + "type " + std::to_string(x.type)); 
    if (x.parent != r.links[j.parent].name || x.child != r.links[j.child].name) V("tree", n + "connects other links");
    vec(x.xyz, j.xyz, n + "origin"); rot(x.q, j.rpy, n + "origin"); if (j.type != J_FIXED) vec(x.axis, j.axis, n + "axis");
    if (j.has_limit && !x.has_limit) V("limits", n + "limits lost");
    if (!j.has_limit && x.has_limit) V("limits", n + "limits invented");
    if (j.has_limit && x.has_limit) { num(x.lower, j.lower, n + "lower limit"); num(x.upper, j.upper, n + "upper limit"); num(x.effort, j.effort, n + "effort limit"); num(x.velocity, j.velocity, n + "velocity limit"); }
    if (r.text.empty()) continue;
    if (x.has_mimic != j.has_mimic || x.has_safety != j.has_safety || x.has_cal != (j.has_cal && (j.has_rising || j.has_falling || x.has_cal)) || x.has_dyn != j.has_dyn) V("optional", n + "mimic/safety/calibration/dynamics lost or invented");
    if (j.has_mimic) { if (x.mimic_joint != j.mimic_joint) V("mimic", n + "mimics another joint"); num(x.mult, j.mimic_mult, n + "mimic multiplier"); num(x.off, j.mimic_off, n + "mimic offset"); }
    if (j.has_safety) { num(x.slo, j.soft_lo, n + "soft lower limit"); num(x.sup, j.soft_up, n + "soft upper limit"); num(x.kp, j.kp, n + "k_position"); num(x.kv, j.kv, n + "k_velocity"); }
    if (x.has_cal) { if (x.has_rising != j.has_rising || x.has_falling != j.has_falling) V("calibration", n + "calibration value lost"); num(x.rising, j.rising, n + "rising"); num(x.falling, j.falling, n + "falling"); }
    if (j.has_dyn) { num(x.damping, j.damping, n + "damping"); num(x.friction, j.friction, n + "friction"); }
  }
}
static void check_shapes(const cut::Parsed *P, const std::vector<cut::PLink> &links, const Robot &r, int gen, const std::string &when) {
  double t = gen == 0 ? 1e-12 : 6e-6;
  auto V = [&](const std::string &c, const std::string &m) { std::string s = m + " (generation " + std::to_string(gen) + ", " + when + ")"; logf("FAIL %s", s.c_str()); violation((gen ? "geometry-export:" : "geometry-parse:") + c, s); };
  auto near = [&](double a, double b, double u) { return std::fabs(a - b) <= (t + u) * (1e-9 + std::fabs(b)) + (gen ? 1e-300 : 0); };
  count(CNT_CHECKS);
  std::map<std::string, const cut::PLink *> pl; for (auto &l : links) pl[l.name] = &l;
  auto color = [&](const double *a, const RMat &m, const std::string &w) { for (int k = 0; k < 4; k++) if (!near(a[k], m.rgba[k], 2e-7)) V("color", w + ": colour" + dump(std::vector<double>(a, a + 4)) + " instead of" + dump(std::vector<double>(m.rgba, m.rgba + 4))); };
  for (auto &l : r.links) {
    if (!pl.count(l.name)) V("link", "link '" + l.name + "' is missing"); auto &x = *pl[l.name];
    if (!x.first_ok) V("first", "link '" + l.name + "': the first visual or collision element is not the first of the list");
    for (int c = 0; c < 2; c++) {
      auto &want = c ? l.collisions : l.visuals; auto &got = c ? x.collisions : x.visuals; std::string w = std::string(c ? "collision" : "visual") + " elements of link '" + l.name + "'";
      if (want.size() != got.size()) V("count", w + ": " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()));
      for (size_t i = 0; i < want.size(); i++) {
        auto &a = want[i]; auto &b = got[i]; std::string e = w + " [" + std::to_string(i) + "]"; count(CNT_SHAPES);
        if (a.name != b.name) V("name", e + ": name '" + b.name + "' instead of '" + a.name + "'");
        if (a.kind != b.kind) V("kind", e + ": kind of shape " + std::to_string(b.kind) + " instead of " + std::to_string(a.kind));
        for (int k = 0; k < 3; k++) if (!near(b.xyz[k], a.xyz[k], 0)) V("origin", e + ": origin" + dump({b.xyz[0], b.xyz[1], b.xyz[2]}) + " instead of" + dump({a.xyz.x, a.xyz.y, a.xyz.z}));
        double d = rot_diff(rot_quat(b.q[0], b.q[1], b.q[2], b.q[3]), rot_rpy(a.rpy)); if (!(d <= (gen ? 2e-5 * gen : 1e-7))) V("rotation", e + ": orientation differs by" + dump({d}));
        static const int nd[] = {1, 3, 2, 3}; for (int k = 0; k < nd[a.kind]; k++) if (!near(b.d[k], a.d[k], 0)) V("size", e + ": dimensions" + dump({b.d[0], b.d[1], b.d[2]}) + " instead of" + dump({a.d[0], a.d[1], a.d[2]}));
        if (a.kind == 3 && a.file != b.file) V("mesh", e + ": mesh '" + b.file + "' instead of '" + a.file + "'");
        if (c) continue;
        if ((a.mat >= 0) != b.has_mat) V("material", e + ": material lost or invented");
        if (a.mat >= 0) { auto &m = r.mats[a.mat]; if (b.mat != m.name || b.mat_name != m.name) V("material", e + ": material '" + b.mat + "' / '" + b.mat_name + "' instead of '" + m.name + "'"); if (b.texture != m.texture) V("texture", e + ": texture '" + b.texture + "' instead of '" + m.texture + "'"); color(b.rgba, m, e); }
        else if (!b.mat.empty()) V("material", e + ": material '" + b.mat + "' invented");
      }
    }
  }
  if (!P) return;
  std::map<std::string, const cut::PMat *> pm; for (auto &m : P->mats) pm[m.name] = &m;
  std::set<std::string> need; for (auto &m : r.mats) if (!m.inlined) need.insert(m.name); for (auto &l : r.links) for (auto &v : l.visuals) if (v.mat >= 0) need.insert(r.mats[v.mat].name);
  if (pm.size() != need.size() || P->mats.size() != need.size()) V("material", std::to_string(P->mats.size()) + " materials instead of " + std::to_string(need.size()));
  for (auto &m : r.mats) if (need.count(m.name)) { if (!pm.count(m.name)) V("material", "material '" + m.name + "' is missing"); if (pm[m.name]->texture != m.texture) V("texture", "material '" + m.name + "': texture '" + pm[m.name]->texture + "' instead of '" + m.texture + "'"); color(pm[m.name]->rgba, m, "material '" + m.name + "'"); }
}
static void exec_export(const Plan &p) {
  bool geo = p.prop == "C17"; auto robots = make_robots(p); Robot &r = robots[0]; std::string text = r.text; void *h = nullptr; int gen = 0, idx = 0; bool data = p.robots[0].data; cut::Parsed first; long inside = -1; std::string when = "no locale switch"; static long hk;
  for (auto &o : p.ops) {
    char w[100]; snprintf(w, sizeof w, "op %d %s", idx++, o.kind.c_str()); op_begin(w); logf("%s", w);
    for (char c : o.kind) shape_mix(c);
    shape_mix(o.get("k") * 7 + o.get("at"));
    if (o.kind == "loc") { set_locale(o.get("k")); when = "locale switched before"; if (o.get("k")) sh->nontrivial = 1; continue; }
    if (o.kind == "inside") { inside = o.get("at"); hk = o.get("k"); continue; }
    if (inside >= 0) { set_step_hook(inside, [](void *) { set_locale(hk); count(CNT_LOCALE_SWITCH_INSIDE); sh->nontrivial = 1; }, nullptr); when = "locale switched inside the call"; inside = -1; }
    // a call with a failing allocation either throws (then it is repeated) or does its work all the same
    auto attempt = [&](const std::function<void()> &f, const std::function<void()> &undo) {
      if (o.get("fr", -1) >= 0) {
        alloc_arm(~0ull, false); bool dry = false; auto keep = when; try { f(); dry = true; } catch (const std::exception &) {} uint64_t n = alloc_disarm(); undo(); if (!dry) { f(); return; }
        uint64_t x = n ? 1 + std::min<uint64_t>(n - 1, n * o.get("fr") / 1000) : 0; bool threw = false; shape_mix(o.get("fr")); count(CNT_OOM_CALLS);
        alloc_arm(x, o.get("ap")); try { f(); } catch (const std::exception &e) { threw = true; } alloc_disarm(); if (alloc_fired()) sh->nontrivial = 1;
        logf("  allocation %llu of %llu failing: %s", (unsigned long long)x, (unsigned long long)n, threw ? "threw" : "done");
        when = keep + ", allocation " + std::to_string(x) + " of " + std::to_string(n) + " failing";
        if (!threw) { if (alloc_fired()) count(CNT_OOM_SURVIVED); return; }
        if (!alloc_fired()) violation("oom:spurious", o.kind + " threw although no allocation failed");
        undo(); when = keep + ", repeated after a failed allocation";
      }
      f();
    };
    auto drop = [&] { if (h) cut::free_handle(h); h = nullptr; };
    if (o.kind == "import") {
      drop();
      try { attempt([&] { h = cut::parse_handle(text); if (!h && alloc_armed()) throw std::runtime_error("null"); }, drop); } catch (const std::exception &e) { violation(gen ? "export:rejected" : "parse:rejected", "generation " + std::to_string(gen) + " is rejected: " + e.what()); }
      clear_step_hook();
      if (!h) violation(gen ? "export:rejected" : "parse:rejected", "generation " + std::to_string(gen) + " does not parse, " + when);
      cut::Parsed P = cut::view_handle(h); std::string t = parsed_text(P); log_hash_bytes(t.data(), t.size()); shape_mix(gen);
      if (data) { // the reference of a shipped robot has no optional elements: take those from the first import
        for (auto &j : r.joints) for (auto &x : P.joints) if (x.name == j.name && gen == 0) { j.has_mimic = x.has_mimic; j.mimic_joint = x.mimic_joint; j.mimic_mult = x.mult; j.mimic_off = x.off; j.has_safety = x.has_safety; j.soft_lo = x.slo; j.soft_up = x.sup; j.kp = x.kp; j.kv = x.kv; j.has_cal = x.has_cal; j.has_rising = x.has_rising; j.has_falling = x.has_falling; j.rising = x.rising; j.falling = x.falling; j.has_dyn = x.has_dyn; j.damping = x.damping; j.friction = x.friction; if (j.type == J_FIXED) j.has_limit = x.has_limit; if (j.type == J_FIXED && x.has_limit) { j.lower = x.lower; j.upper = x.upper; j.effort = x.effort; j.velocity = x.velocity; } }
      }
      if (geo) check_shapes(&P, P.links, r, gen, when); else check_parsed(P, r, gen, when);
    } else if (o.kind == "model") { // the links a model keeps, in a copy that outlives the original
      cut::Model *m = nullptr; auto gone = [&] { if (m) cut::destroy(m); m = nullptr; };
      try { attempt([&] { m = cut::make(text); }, gone); } catch (const std::exception &e) { violation(gen ? "export:rejected" : "parse:rejected", "generation " + std::to_string(gen) + " is rejected: " + e.what()); }
      clear_step_hook(); check_shapes(nullptr, cut::model_links(m), r, gen, when);
      cut::Model *c = cut::copy(m); cut::set_init_angles(m); gone(); check_shapes(nullptr, cut::model_links(c), r, gen, when + ", copied model"); cut::destroy(c);
    } else {
      if (!h) continue;
      try { attempt([&] { text = cut::export_handle(h); }, [] {}); } catch (const std::exception &e) { violation("export:threw", std::string("exporting threw ") + e.what()); }
      clear_step_hook(); gen++; count(CNT_EXPORTS); log_hash_bytes(text.data(), text.size());
      if (want_log) logf("%s", text.substr(0, 1800).c_str());
    }
  }
  if (h) cut::free_handle(h);
}

// ------------------------------------------------------------------ C11: memory exhaustion
static Plan gen_memory(uint64_t seed, bool thorough) {
  Rng g(seed); Plan p; p.prop = "C11"; p.seed = seed; RobotSpec r = gen_spec(g, 8, false); r.opt.n_joints = std::min(r.opt.n_joints, 6); p.robots.push_back(r); p.robots.push_back(gen_spec(g, 4, false));
  std::vector<std::pair<std::string, double>> base = {{"setq", 3}, {"set1", 2}, {"base", 3}, {"init", 1.5}, {"clear", 1}, {"add", 8}, {"pose", 1}, {"allposes", 0.7}, {"jac", 0.5}, {"copy", 2}, {"copymove", 0.7}, {"assign", 2}, {"ctor", 4}, {"adddup", 0.5}};
  Mix m = swarm(g, base); int n = log_uniform(g, 3, thorough ? 30 : 16);
  for (int i = 0; i < n; i++) {
    Op o = mk(0, pick(g, m), g); if (is_query(o.kind)) { p.ops.push_back(o); continue; }
    double t = g.uni();
    if (t < 0.25) {} else if (t < 0.75) o.set("fr", g.chance(0.1) ? 999 : g.below(1000)); else o.set("sweep", g.chance(0.5) ? 1 : 1 + g.below(7));
    if (g.chance(0.4)) o.set("ap", 1);
    if (o.kind == "ctor") o.set("r", g.below(2));
    p.ops.push_back(o);
  }
  return p;
}
static void exec_memory(const Plan &p) {
  auto robots = make_robots(p); World a, b; for (World *w : {&a, &b}) { w->plan = &p; w->robots = &robots; w->mask = M_RECORD; w->slots.resize(1); w->fresh(w->slots[0], 0); w->rec.clear(); }
  auto diff = [&](const std::string &x, const std::string &y, const std::string &cls, const std::string &what) { std::string d = compare_rec(x, y); if (!d.empty()) { logf("FAIL %s", d.c_str()); violation(cls, what + ": " + d); } };
  auto bat = [&](World &w, const std::string &what) { try { return w.battery(w.slots[0]); } catch (const std::exception &e) { violation("oom:unusable", what + ": a query throws " + e.what()); } };
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op &op = p.ops[i]; const std::string &k = op.kind; bool faulty = op.get("fr", -1) >= 0 || op.get("sweep"); long ap = op.get("ap"); Op q = op; q.set("m", 0);
    char w[120]; snprintf(w, sizeof w, "op %zu %s", i, k.c_str()); op_begin(w); logf("%s", w); for (char c : k) shape_mix(c);
    auto ks = [&](uint64_t n) { std::vector<uint64_t> v; if (op.get("sweep")) { uint64_t step = std::max<uint64_t>(1, std::max<uint64_t>(op.get("sweep"), n / 60)); for (uint64_t x = 1 + op.get("s") % step; x <= n; x += step) v.push_back(x); } else if (n) v.push_back(1 + std::min<uint64_t>(n - 1, n * op.get("fr") / 1000)); return v; };
    if (k == "ctor") {
      const std::string &text = robots[op.get("r") % robots.size()].text; World f; f.plan = &p; f.robots = &robots; f.mask = M_RECORD; f.slots.resize(1);
      alloc_arm(~0ull, false); f.fresh(f.slots[0], op.get("r") % robots.size()); uint64_t n = alloc_disarm(); if (!faulty) { f.kill(f.slots[0]); continue; }
      std::string good = bat(f, "construct");
      for (uint64_t x : ks(n)) {
        op_begin(w); shape_mix(x); cut::Model *m = nullptr; bool threw = false; alloc_arm(x, ap);
        try { m = cut::make(text); } catch (const std::exception &e) { threw = true; }
        alloc_disarm(); count(CNT_OOM_CALLS); count(CNT_CHECKS); if (alloc_fired()) sh->nontrivial = 1;
        if (threw && !alloc_fired()) violation("oom:spurious", "construction threw although no allocation failed");
        logf("  construction with allocation %llu of %llu failing%s: %s", (unsigned long long)x, (unsigned long long)n, ap ? " (and all later ones)" : "", threw ? "threw" : "built");
        if (!threw) { if (alloc_fired()) count(CNT_OOM_SURVIVED); World t = f; t.slots[0].m = m; diff(bat(t, std::string(w) + " with allocation " + std::to_string(x) + " failing"), good, "oom:different-model", "construction survived the failure of allocation " + std::to_string(x) + " of " + std::to_string(n) + " but built a different model"); cut::destroy(m); }
      }
      f.kill(f.slots[0]); continue;
    }
    if (k == "copy" || k == "copymove" || k == "assign") {
      Slot &S = a.slots[0]; auto go = [&](cut::Model *target) -> cut::Model * { if (k == "copy") return cut::copy(S.m); if (k == "copymove") return cut::copy_move(S.m); cut::assign(target, S.m); return target; };
      World f; f.plan = &p; f.robots = &robots; f.mask = M_RECORD; f.slots.resize(1); std::string good = bat(b, w);
      cut::Model *t = k == "assign" ? cut::make(robots[1 % robots.size()].text) : nullptr; alloc_arm(~0ull, false); cut::Model *r = go(t); uint64_t n = alloc_disarm();
      { World v = a; v.slots[0].m = r; diff(bat(v, w), good, "oom:different-model", "a copy answers differently"); } cut::destroy(r);
      if (!faulty) continue;
      for (uint64_t x : ks(n)) {
        op_begin(w); shape_mix(x); std::string old; 
        if (k == "assign") { f.fresh(f.slots[0], 1 % robots.size()); f.rec.clear(); old = bat(f, w); }
        bool threw = false; cut::Model *m = nullptr; alloc_arm(x, ap); try { m = go(f.slots[0].m); } catch (const std::exception &) { threw = true; } alloc_disarm(); count(CNT_OOM_CALLS); count(CNT_CHECKS); if (alloc_fired()) sh->nontrivial = 1;
        if (threw && !alloc_fired()) violation("oom:spurious", k + " threw although no allocation failed");
        std::string at = k + " with allocation " + std::to_string(x) + " of " + std::to_string(n) + " failing"; logf("  %s: %s", at.c_str(), threw ? "threw" : "done");
        if (!threw) { if (alloc_fired()) count(CNT_OOM_SURVIVED); World v = a; v.slots[0].m = m; diff(bat(v, at), good, "oom:different-model", at + " gives a different model"); if (k != "assign") cut::destroy(m); else f.slots[0].m = m; }
        else if (k == "assign") { diff(bat(f, at), old, "oom:target-changed", at + " changed the model assigned to"); cut::assign(f.slots[0].m, S.m); World v = a; v.slots[0].m = f.slots[0].m; diff(bat(v, at), good, "oom:retry", at + ": the repeated assignment gives a different model"); }
        diff(bat(a, at), good, "oom:source-changed", at + " changed the model copied from"); f.kill(f.slots[0]);
      }
      continue;
    }
    // a call on the model itself: b goes first, undisturbed
    std::string before = faulty ? bat(b, w) : "";
    alloc_arm(~0ull, false); b.do_op(q, i); uint64_t n = alloc_disarm();
    if (!faulty || n == 0) { if (faulty) count(CNT_CHECKS); a.do_op(q, i); continue; }
    std::string after = bat(b, w); auto list = ks(n); bool done = false;
    RefModel saved = a.slots[0].ref; auto saved_mem = a.slots[0].mem;
    for (uint64_t x : list) {
      op_begin(w); shape_mix(x); bool threw = false; alloc_arm(x, ap);
      try { a.do_op(q, i); } catch (const std::exception &) { threw = true; }
      alloc_disarm(); count(CNT_OOM_CALLS); count(CNT_CHECKS); if (alloc_fired()) sh->nontrivial = 1;
      std::string at = k + " with allocation " + std::to_string(x) + " of " + std::to_string(n) + " failing"; logf("  %s: %s", at.c_str(), threw ? "threw" : "done");
      if (threw && !alloc_fired()) violation("oom:spurious", k + " threw although no allocation failed");
      if (!threw) { if (alloc_fired()) count(CNT_OOM_SURVIVED); diff(bat(a, at), after, "oom:silent", at + " did not throw, but its effect is not that of the call"); done = true; break; }
      a.slots[0].ref = saved; a.slots[0].mem = saved_mem;
      diff(bat(a, at), before, "oom:half-changed", at + " threw but changed the model");
    }
    if (!done) { op_begin(w); try { a.do_op(q, i); } catch (const std::exception &e) { violation("oom:retry", k + " repeated with memory available throws " + e.what()); } diff(bat(a, w), after, "oom:retry", k + " repeated after failed attempts gives a different model"); }
  }
  for (World *w : {&a, &b}) w->kill(w->slots[0]);
}

// ------------------------------------------------------------------ C12: nothing left behind
static Plan gen_leak(uint64_t seed, bool thorough) {
  Rng g(seed); Plan p; p.prop = "C12"; p.seed = seed; int nr = g.range(1, 2), ns = g.range(1, 3); for (int i = 0; i < nr; i++) p.robots.push_back(gen_spec(g, 8, g.chance(0.2)));
  p.knobs = {{"slots", ns}};
  std::vector<std::pair<std::string, double>> base = {{"new", 2}, {"drop", 1}, {"setq", 1}, {"base", 1}, {"add", 2}, {"adddup", 1.5}, {"badlink", 0.7}, {"pose", 1}, {"jac", 1}, {"inertia", 0.5}, {"comjac", 0.5}, {"names", 0.4}, {"limits", 0.4}, {"copy", 1.5}, {"copymove", 0.7}, {"assign", 1.5}, {"parseexp", 1.5}, {"parsebad", 3}, {"graphbad", 2}, {"damaged", 4}, {"loadfile", 1}, {"parsefile", 1}, {"savefile", 1}, {"docfile", 1}, {"docload", 1}};
  Mix m = swarm(g, base); int n = log_uniform(g, 2, thorough ? 30 : 14);
  for (int i = 0; i < n; i++) { Op o = mk(0, pick(g, m), g); o.set("m", g.below(ns)).set("t", g.below(ns)).set("r", g.below(nr)); if (o.kind.find("file") != std::string::npos || o.kind == "docload") { o.set("io", 1); gen_io(g, o, o.kind != "loadfile" && o.kind != "parsefile" && o.kind != "docload"); } p.ops.push_back(o); }
  return p;
}
static void leak_extra(const Op &o, const std::vector<Robot> &robots) {
  Rng g(o.get("s")); Robot r = robots[o.get("r") % robots.size()];
  if (o.kind == "graphbad" || o.kind == "damaged") {
    std::string t = r.text, why;
    count(o.kind == "graphbad" ? CNT_GRAPH_DAMAGE : CNT_DAMAGE);
    if (o.kind == "graphbad") { graph_damage(r, g, why); Rng h(o.get("s")); print_xml(r, h, false, false); t = r.text; }
    else { int n = g.range(1, 3); for (int i = 0; i < n; i++) t = g.chance(0.7) ? damage_token(t, robots[0].text, g) : damage_bytes(t, robots[0].text, g); }
    try { cut::Model *m = cut::make(t); count(CNT_DAMAGE_ACCEPTED); cut::destroy(m); } catch (const std::exception &) { count(CNT_DAMAGE_REJECTED); }
  } else if (o.kind == "docfile") { cut::Node n = gen_doc(g, 5, 60); io_reset(io_from(o)); cut::doc_save(n, "/simdisk/doc.xml"); io_reset(IoFaults()); }
  else { (*disk)["/simdisk/doc.xml"] = g.chance(0.5) ? r.text : garble(r.text, g); io_reset(io_from(o)); cut::Node n; cut::doc_load("/simdisk/doc.xml", n); io_reset(IoFaults()); }
}
static void exec_leak(const Plan &p) {
  auto robots = make_robots(p); std::vector<uint64_t> bytes, blocks; const int reps = 5; int handles = io_open_handles;
  for (int r = 0; r < reps; r++) {
    World w; w.plan = &p; w.robots = &robots; w.mask = 0; w.soft = true; w.slots.resize(std::max(1l, p.knob("slots", 1)));
    for (size_t i = 0; i < p.ops.size(); i++) {
      const Op &o = p.ops[i];
      try { if (o.kind == "graphbad" || o.kind == "damaged" || o.kind == "docfile" || o.kind == "docload") { op_begin(o.kind.c_str()); for (char c : o.kind) shape_mix(c); leak_extra(o, robots); } else w.do_op(o, i); }
      catch (const std::exception &e) { logf("  threw %s", e.what()); } catch (const Stop &s) { logf("  %s", s.cls.c_str()); }
    }
    op_begin("destruction"); for (auto &s : w.slots) w.kill(s);
    bytes.push_back(live_bytes); blocks.push_back(live_blocks); count(CNT_REPEATS);
    logf("after repetition %d: %llu bytes in %llu blocks", r, (unsigned long long)live_bytes, (unsigned long long)live_blocks);
    want_log = want_log && r < 1;
  }
  count(CNT_CHECKS); sh->nontrivial = p.ops.size() > 1;
  bool grows = true; for (int r = 1; r < reps; r++) if (bytes[r] <= bytes[r - 1]) grows = false;
  if (grows) { std::string t; for (auto b : bytes) t += " " + std::to_string(b); violation("leak:memory", "every repetition of the history leaves more memory behind (live bytes after each:" + t + ")"); }
  if (io_open_handles > handles) violation("leak:handle", "files were left open");
}

// ------------------------------------------------------------------ C18: bounded work, whatever happened before
static Plan gen_work(uint64_t seed, bool thorough) {
  Rng g(seed); Plan p; p.prop = "C18"; p.seed = seed; int ns = g.range(1, 3), nc = g.range(1, 3);
  p.robots.push_back(gen_spec(g, 24, true)); RobotSpec &r = p.robots[0];
  if (!r.data && g.chance(0.5)) { r.opt.n_joints = log_uniform(g, 15, g.chance(0.1) ? 180 : 70); if (g.chance(0.5)) r.opt.shape = 1; }
  p.knobs.push_back({"slots", ns});
  std::vector<std::pair<std::string, double>> base = {
    {"setq", 4}, {"set1", 3}, {"init", 1}, {"base", 3}, {"usetq", 0.6}, {"ubase", 0.5}, {"clear", 1}, {"add", 1.5}, {"addmany", 0.1}, {"setmany", 0.4}, {"adddup", 0.6}, {"badlink", 0.5}, {"badjoint", 0.5}, {"new", 0.2}, {"copy", 0.8}, {"copymove", 0.3}, {"assign", 0.8},
    {"pose", 4}, {"poses", 2}, {"allposes", 0.4}, {"jac", 2}, {"com", 1}, {"comjac", 0.4}, {"inertia", 0.5}, {"names", 0.3}, {"limits", 0.3}, {"angles", 0.4}, {"measure", 8}};
  Mix m = swarm(g, base); bool lng = g.chance(0.1), faults = g.chance(0.6);
  for (int i = 0; i < ns; i++) p.ops.push_back(mk(g.below(nc), "new", g).set("m", i).set("r", 0));
  int n = lng ? log_uniform(g, 60, thorough ? 1500 : 300) : log_uniform(g, 5, thorough ? 80 : 30);
  for (int i = 0; i < n; i++) {
    Op o = mk(g.below(nc), pick(g, m), g); o.set("m", g.below(ns)).set("t", g.below(ns)); if (o.kind == "new") o.set("r", 0);
    if (faults && is_query(o.kind) && g.chance(0.15)) { o.set("af", g.chance(0.7) ? log_uniform(g, 1, 12) : log_uniform(g, 1, 300)); if (g.chance(0.3)) o.set("ap", 1); }
    p.ops.push_back(o);
  }
  for (int i = 0; i < ns; i++) for (int k = 0; k < 2; k++) p.ops.push_back(mk(0, "measure", g).set("m", i));
  return p;
}
template <class F> static uint64_t steps_of(F f) { uint64_t a = g_steps; f(); return g_steps - a; }
struct Unit { double link = 0, flat = 0, col = 0, com = 0, inertia = 0; };
// what one link of a chain and one repeated query cost in this library, measured on a short chain of joints of every type
static Unit calibrate() {
  std::string t = "<robot name=\"u\"><link name=\"l0\"/>"; static const char *ty[] = {"revolute", "prismatic", "fixed", "continuous"};
  for (int i = 1; i <= 8; i++) { std::string a = std::to_string(i - 1), b = std::to_string(i); t += "<link name=\"l" + b + "\"><inertial><mass value=\"1\"/><origin xyz=\"0.1 0 0\"/><inertia ixx=\"1\" ixy=\"0\" ixz=\"0\" iyy=\"1\" iyz=\"0\" izz=\"1\"/></inertial></link><joint name=\"j" + b + "\" type=\"" + ty[i % 4] + "\"><parent link=\"l" + a + "\"/><child link=\"l" + b + "\"/><origin xyz=\"0.1 0.2 0.3\" rpy=\"0.3 0.2 0.1\"/><axis xyz=\"0 0 1\"/><limit lower=\"-1\" upper=\"1\" effort=\"1\" velocity=\"1\"/></joint>"; }
  Unit u; cut::Model *m = cut::make(t + "</robot>"); double o[7];
  for (int d = 0; d <= 8; d++) { size_t id = cut::link_ids(m, {"l" + std::to_string(d)})[0]; cut::clear_cache(m); u.link = std::max(u.link, steps_of([&] { cut::pose(m, id, o); }) / (d + 1.0)); u.flat = std::max(u.flat, (double)steps_of([&] { cut::pose(m, id, o); })); }
  std::vector<size_t> js = cut::joint_ids(m, cut::joint_names(m)); size_t id = cut::link_ids(m, {"l8"})[0];
  for (int rot = 0; rot < 3; rot++) for (int base = 0; base < 2; base++) u.col = std::max(u.col, steps_of([&] { cut::jacobian(m, id, js, rot, base); }) / (js.size() + 1.0));
  for (int i = 0; i < 2; i++) { u.com = steps_of([&] { cut::com(m, o); }) / 8.0; u.inertia = steps_of([&] { cut::inertia(m); }) / 8.0; } // the second time the poses are known
  cut::destroy(m); u.flat = 2 * u.flat + 100; return u;
}
static void measure(World &w, const Op &op, const Unit &u) {
  Slot &s = w.slots[op.get("m") % w.slots.size()]; if (!s.m) return; RefModel &R = s.ref; Rng g(op.get("s")); size_t nl = R.links.size(), nj = R.joints.size(); double o[7];
  if (R.dirty) { cut::clear_cache(s.m); R.dirty = false; }
  auto at_most = [&](uint64_t got, double lim, const std::string &cls, const std::string &what) { count(CNT_CHECKS); sh->nontrivial = 1; if (want_log) logf("  %s: %llu steps, at most %.0f expected", what.c_str(), (unsigned long long)got, lim); if (got > lim) w.fail("work:" + cls, what + " took " + std::to_string(got) + " steps, at most " + std::to_string((long long)lim) + " expected (" + std::to_string(nl) + " links, " + std::to_string(nj) + " joints)"); };
  auto idof = [&](LinkRef r) { for (size_t i = 0; i < nl; i++) if (R.links[i].kind == r.kind && R.links[i].idx == r.idx) return i; internal_error("link without id"); };
  std::function<int(LinkRef)> depth = [&](LinkRef r) { int d = 0; if (r.kind == 2) return 1 + depth(R.added[r.idx].parent); if (r.kind == 1) d++; int l = r.idx; while (R.rob->parent_joint[l] >= 0) { d++; l = R.rob->joints[R.rob->parent_joint[l]].parent; } return d; };
  std::vector<size_t> all(nj); for (size_t i = 0; i < nj; i++) all[i] = i;
  std::vector<double> q; for (size_t i = 0; i < nj; i++) q.push_back(R.q[R.joints[i]]);
  if (!nj && g.chance(0.5)) return;
  // a query with fixed arguments, and a change of configuration that leaves it as it is
  int kind = g.below(8), rot = g.below(3); bool with_base = g.chance(0.5); size_t id = g.below(nl); std::vector<size_t> js; for (size_t j : all) if (g.chance(0.7)) js.push_back(j);
  if (g.chance(0.5)) { size_t best = 0; for (size_t i = 0; i < nl; i++) if (R.known(R.links[i]) && (!R.known(R.links[best]) || depth(R.links[i]) > depth(R.links[best]))) best = i; id = best; } // the deepest one
  static const char *kn[] = {"a pose", "a Jacobian", "the centre of mass", "the centre of mass Jacobian", "the inertia", "all names", "the limits", "the joint angles"};
  auto ask = [&](cut::Model *m, int k) { switch (k) { case 0: cut::pose(m, id, o); break; case 1: cut::jacobian(m, id, js, rot, with_base); break; case 2: cut::com(m, o); break; case 3: cut::com_jacobian(m, js, with_base); break; case 4: cut::inertia(m); break; case 5: cut::link_ids(m, cut::link_names(m)); cut::joint_ids(m, cut::joint_names(m)); break; case 6: cut::pos_limits(m, all); cut::vel_limits(m, all); cut::eff_limits(m, all); break; default: cut::angles(m, all); } };
  int ck = g.below(3); static const char *cn[] = {"setting all joint angles", "setting one joint angle", "resetting the cache"}; size_t one = nj ? g.below(nj) : 0; if (!nj) ck = 2;
  auto change = [&](cut::Model *m) { if (ck == 0) cut::set_joint_angles(m, all, q); else if (ck == 1) cut::set_joint_angle(m, one, q[one]); else cut::clear_cache(m); };
  int variant = g.below(4); shape_mix(variant * 64 + kind * 8 + ck);
  if (variant == 0) { // asked again, with other queries in between
    cut::pose(s.m, id, o); int c = g.below(4); std::string between; for (int i = 0; i < c; i++) { int k = g.below(8); between += std::string(i ? ", " : " after ") + kn[k]; ask(s.m, k); }
    at_most(steps_of([&] { cut::pose(s.m, id, o); }), u.flat, "repeat", "repeating the pose of link id " + std::to_string(id) + between);
  } else if (variant == 1) { // first query after a change: the chain above the link
    change(s.m); if (!R.known(R.links[id])) return; int d = depth(R.links[id]);
    at_most(steps_of([&] { cut::pose(s.m, id, o); }), 4 * u.link * (d + 3) + 40 * nl, "first", "the first pose of link id " + std::to_string(id) + ", " + std::to_string(d) + " joints below the root, after " + cn[ck]);
    // and all links in any order: every joint once
    change(s.m); std::vector<size_t> ord(nl); for (size_t i = 0; i < nl; i++) ord[i] = i; for (size_t i = nl; i-- > 1;) std::swap(ord[i], ord[g.below(i + 1)]);
    at_most(steps_of([&] { for (size_t i : ord) cut::pose(s.m, i, o); }), (4 * u.link + u.flat + 40) * (nl + 3), "sweep", "the poses of all links after " + std::string(cn[ck]));
    if (kind >= 1 && kind <= 4) { // the poses known, or not yet
      change(s.m); for (size_t i : ord) cut::pose(s.m, i, o); uint64_t warm = steps_of([&] { ask(s.m, kind); });
      double per = kind == 1 ? u.col * (js.size() + 7) : kind == 2 ? u.com * (nl + 3) : kind == 3 ? (u.col * (js.size() + 7) + u.com) * (nl + 3) : u.inertia * (nl + 3);
      at_most(warm, 4 * per + 500, "known", std::string(kn[kind]) + (kind & 1 ? " for " + std::to_string(js.size()) + " joints" : "") + " with all poses known"); change(s.m);
      at_most(steps_of([&] { ask(s.m, kind); }), 2.0 * warm + (4 * u.link + 40) * (nl + 3), "cold", std::string(kn[kind]) + " after " + cn[ck]);
    }
  } else { // a model of the same robot with the same additions, but without the history
    cut::Model *t = cut::make(R.rob->text); double z[3] = {0, 0, 0};
    for (auto &a : R.added) { op_more(); cut::add_link_rpy(t, a.name, idof(a.parent), z, z, nullptr, nullptr); }
    op_more();
    if (nj) cut::set_joint_angles(t, all, q);
    auto lim = [](uint64_t c) { return 1.5 * c + 300; };
    uint64_t a = steps_of([&] { change(s.m); }), b = steps_of([&] { change(t); }); at_most(a, lim(b), "history-setter", std::string(cn[ck]) + " after this history instead of none");
    for (int rep = 0; rep < 3; rep++) { a = steps_of([&] { ask(s.m, kind); }); b = steps_of([&] { ask(t, kind); }); at_most(a, lim(b), "history-query", std::string(kn[kind]) + (rep ? ", asked again," : "") + " after this history instead of none"); }
    cut::destroy(t);
  }
}
static void exec_work(const Plan &p) {
  auto robots = make_robots(p); op_begin("calibration"); Unit u = calibrate(); logf("one link %.0f steps, repeated query at most %.0f", u.link, u.flat);
  World w; w.plan = &p; w.robots = &robots; w.mask = 0; w.slots.resize(std::max(1l, p.knob("slots", 1)));
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op &o = p.ops[i]; if (i && o.client != p.ops[i - 1].client) count(CNT_CLIENT_SWITCH);
    try { if (o.kind == "measure") { char t[80]; snprintf(t, sizeof t, "op %zu (client %d) measure m=%ld", i, o.client, o.get("m")); op_begin(t); logf("%s", t); measure(w, o, u); } else w.do_op(o, i); } catch (const std::exception &e) { w.fail("unexpected-exception", o.kind + " threw: " + e.what()); }
  }
  for (auto &s : w.slots) w.kill(s);
}

// ------------------------------------------------------------------ C19: the same calls, the same answers
// The same calls are made in two processes: one as usual, one in another environment, where memory lies elsewhere and
// holds something else, clocks and random sources say something else, and other models come and go in between.
static Plan gen_repeat(uint64_t seed, bool thorough) {
  Rng g(seed); Plan p; p.prop = "C19"; p.seed = seed; int ns = g.range(1, 3), nc = g.range(1, 3), nr = g.range(1, 2), nn = g.range(1, 2);
  for (int i = 0; i < nr; i++) p.robots.push_back(gen_spec(g, thorough ? 30 : 16, true));
  for (int i = 0; i < nn; i++) p.robots.push_back(g.chance(0.5) ? p.robots[g.below(nr)] : gen_spec(g, 10, g.chance(0.1))); // what the unrelated models are built from: also the same robot
  for (int i = nr; i < nr + nn; i++) if (!p.robots[i].data && g.chance(0.4)) p.robots[i].opt.variant = (1 + g.below(31)) | g.below(1000) * 32; // or one with the same names
  p.knobs = {{"slots", ns}, {"robots", nr}};
  auto knob = [&](const char *k, double pr, long v) { if (g.chance(pr)) p.knobs.push_back({k, v}); };
  static const long fills[] = {0, 255, 0x7f, 0x3f, -1}, stacks[] = {0, 255, 0x7f, 0x3f, 0xca};
  knob("down", 0.6, 1); knob("pad", 0.6, 1 + g.below(1000000000)); knob("fill", 0.6, fills[g.below(5)]); knob("reuse", 0.6, 1); knob("stack", 0.5, stacks[g.below(5)]); knob("clock", 0.4, 1 + g.below(1000000000)); knob("random", 0.4, 1 + g.below(1000000000));
  std::vector<std::pair<std::string, double>> base = {
    {"setq", 4}, {"set1", 2}, {"init", 0.6}, {"base", 3}, {"usetq", 0.4}, {"ubase", 0.3}, {"clear", 0.6}, {"add", 2.5}, {"addmany", 0.15}, {"adddup", 0.6}, {"badlink", 0.6}, {"badjoint", 0.4}, {"new", 1.5}, {"drop", 0.5}, {"copy", 0.7}, {"copymove", 0.3}, {"assign", 0.7},
    {"pose", 4}, {"poses", 1.5}, {"allposes", 0.8}, {"jac", 3}, {"com", 1.5}, {"comjac", 1.5}, {"inertia", 1.5}, {"mass", 0.5}, {"names", 1}, {"limits", 0.8}, {"angles", 0.8}, {"parseexp", 1.5}, {"view", 1}, {"parsebad", 1.5}, {"loadfile", 0.5}, {"parsefile", 0.5}, {"savefile", 0.5}};
  std::vector<std::pair<std::string, double>> noise = {{"new", 4}, {"drop", 2}, {"setq", 2}, {"base", 2}, {"add", 2}, {"adddup", 0.5}, {"badlink", 0.5}, {"copy", 0.7}, {"assign", 0.7}, {"pose", 2}, {"allposes", 1.5}, {"jac", 2}, {"com", 1}, {"comjac", 1}, {"inertia", 1}, {"names", 0.5}, {"limits", 0.5}, {"parseexp", 1.5}, {"view", 0.7}, {"parsebad", 3}, {"parsefile", 0.5}};
  Mix m = swarm(g, base), mn = swarm(g, noise); double pn = g.chance(0.25) ? 0 : g.uni(0.05, 0.7);
  auto unrelated = [&] { for (int k = g.range(1, 4); k-- > 0;) { Op o = mk(100, pick(g, mn), g); o.set("m", g.below(2)).set("t", g.below(2)).set("r", g.below(nn)); p.ops.push_back(o); } };
  if (pn > 0) { p.ops.push_back(mk(100, "new", g).set("m", 0).set("r", g.below(nn))); if (g.chance(0.5)) unrelated(); }
  for (int i = 0; i < ns; i++) p.ops.push_back(mk(g.below(nc), "new", g).set("m", i).set("r", g.below(nr)));
  int n = log_uniform(g, 4, thorough ? 90 : 36);
  for (int i = 0; i < n; i++) {
    if (g.chance(pn)) unrelated();
    Op o = mk(g.below(nc), pick(g, m), g); o.set("m", g.below(ns)).set("t", g.below(ns)).set("r", g.below(nr));
    if (o.kind.find("file") != std::string::npos && g.chance(0.5)) { o.set("io", 1); gen_io(g, o, o.kind == "savefile"); }
    p.ops.push_back(o);
  }
  return p;
}
static void exec_repeat(const Plan &p, int phase) {
  if (phase < 0) {
    Env e; e.down = p.knob("down"); e.pad = p.knob("pad"); e.fill = p.knob("fill", 0xca); if (p.knob("reuse")) e.quarantine = 0; e.stack = p.knob("stack", -1); e.clock = p.knob("clock"); e.random = p.knob("random"); set_env(e); if (p.knobs.size() > 2) count(CNT_LAYOUTS);
    for (auto &k : p.knobs) for (char c : k.first) shape_mix(c);
  } else { Env e; e.clock = 1700000000; e.random = 12345; e.stack = 0x55; set_env(e); }
  auto all = make_robots(p); size_t nr = std::min<size_t>(std::max(1l, p.knob("robots", 1)), all.size()); std::vector<Robot> mine(all.begin(), all.begin() + nr), others(all.begin() + nr, all.end()); if (others.empty()) others = mine;
  World w, u; w.plan = u.plan = &p; w.robots = &mine; u.robots = &others; w.mask = M_RECORD; u.mask = M_RECORD; w.soft = u.soft = true; w.slots.resize(std::max(1l, p.knob("slots", 1))); u.slots.resize(2);
  auto stray = [&](World &x, const std::function<void()> &f) { try { f(); } catch (const Stop &s) { x.rec += "STOP " + hexs(s.cls + ": " + s.msg) + "\n"; } catch (const std::exception &e) { x.rec += "EXC " + hexs(e.what()) + "\n"; } };
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op &o = p.ops[i]; bool noise = o.client >= 100; if (noise && phase >= 0) continue;
    if (noise) { count(CNT_NOISE); sh->nontrivial = 1; auto d = *disk; stray(u, [&] { u.do_op(o, i); }); *disk = d; u.rec.clear(); continue; }
    stray(w, [&] { w.do_op(o, i); });
  }
  stray(w, [&] { w.finish(); });
  for (auto &s : u.slots) u.kill(s);
  if (phase < 0 && (p.knobs.size() > 2)) sh->nontrivial = 1;
  out_text(w.rec);
}

// ------------------------------------------------------------------ dispatch
static Plan generate_plain(const std::string &prop, uint64_t seed, bool thorough) {
  if (prop == "C05") return gen_threads(seed, thorough);
  if (prop == "C06") return gen_copies(seed, thorough);
  if (prop == "C07") return gen_damage(seed, thorough);
  if (prop == "C08") return gen_load(seed, thorough);
  if (prop == "C09") return gen_save(seed, thorough);
  if (prop == "C10" || prop == "C17") return gen_export(prop, seed, thorough);
  if (prop == "C11") return gen_memory(seed, thorough);
  if (prop == "C12") return gen_leak(seed, thorough);
  if (prop == "C18") return gen_work(seed, thorough);
  if (prop == "C19") return gen_repeat(seed, thorough);
  return gen_history(prop, seed, thorough);
}
Plan generate(const std::string &prop, uint64_t seed, bool thorough) {
  Plan p = generate_plain(prop, seed, thorough); Rng g(seed ^ 0x5eed5eedull);
  static const std::set<std::string> on = {"C01", "C02", "C03", "C04", "C05", "C06", "C10", "C12", "C17", "C18"};
  if (!on.count(prop) || !g.chance(0.2)) return p;
  // released memory is handed out again at once; models come and go more often, also models of a robot with the same
  // names and tree but other numbers, put into the same configuration
  p.knobs.push_back({"reuse", 1});
  bool history = prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04";
  if ((history || prop == "C05" || prop == "C06") && !p.robots[0].data && g.chance(0.7)) {
    RobotSpec v = p.robots[0]; v.opt.variant = (1 + g.below(31)) | g.below(1000) * 32;
    if (p.robots.size() > 1) p.robots[1] = v; else p.robots.push_back(v);
    for (auto &o : p.ops) if (o.kind == "new") o.set("r", g.below(p.robots.size()));
  }
  if (history || (prop == "C06" && !p.knob("clients"))) {
    std::vector<Op> v; long ns = p.knob("slots", 1); double rate = g.uni(0.05, 0.3); std::map<long, std::vector<Op>> conf;
    static const char *ask[] = {"pose", "allposes", "jac", "com", "comjac", "inertia", "limits", "names"};
    for (auto &o : p.ops) {
      v.push_back(o); long m = o.get("m") % ns; if (o.kind == "setq" || o.kind == "base") conf[m].push_back(o); if (o.kind == "new") conf[m].clear();
      if (!g.chance(rate)) continue;
      m = g.below(ns); long to = g.chance(0.7) ? m : g.below(ns); std::vector<Op> again = conf[m]; int k = g.below(8); bool plain = g.chance(0.3); Op q = mk(o.client, ask[k], g);
      if (g.chance(0.5)) { Op a = q; v.push_back(a.set("m", m)); } // what is asked before the model goes is asked of the next one
      if (g.chance(0.3)) v.push_back(mk(o.client, "drop", g).set("m", to));
      if (prop == "C06" && g.chance(0.6)) v.push_back(mk(o.client, "copy", g).set("m", g.below(ns)).set("t", to)); else v.push_back(mk(o.client, "new", g).set("m", to).set("r", g.below(p.robots.size())));
      conf[to].clear();
      if (!plain) { int from = again.size() > 2 ? again.size() - 2 : 0; for (size_t i = from; i < again.size(); i++) { Op a = again[i]; a.client = o.client; a.set("m", to); v.push_back(a); conf[to].push_back(a); } }
      if (g.chance(0.8)) v.push_back(q.set("m", to));
    }
    p.ops = v;
  }
  return p;
}
int solo_phases(const Plan &p) { return p.prop == "C05" ? (int)p.knob("clients", 2) : p.prop == "C19" ? 1 : 0; }
void execute(const Plan &p, int phase) {
  if (p.knob("reuse") && p.prop != "C19") { Env e; e.quarantine = 0; set_env(e); }
  if (p.prop == "C05") exec_threads(p, phase);
  else if (p.prop == "C06") exec_copies(p);
  else if (p.prop == "C07") exec_damage(p);
  else if (p.prop == "C08") exec_load(p);
  else if (p.prop == "C09") exec_save(p);
  else if (p.prop == "C10" || p.prop == "C17") exec_export(p);
  else if (p.prop == "C11") exec_memory(p);
  else if (p.prop == "C12") exec_leak(p);
  else if (p.prop == "C18") exec_work(p);
  else if (p.prop == "C19") exec_repeat(p, phase);
  else exec_history(p);
}
// bit for bit
static std::string compare_exact(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b); std::string l, m, head; bool f, s;
  while ((f = !!std::getline(x, l)), (s = !!std::getline(y, m)), f || s) { if (!f) l = "(nothing)"; if (!s) m = "(nothing)"; if (l == m) { if (l[0] == '@') head = l; continue; } size_t i = 0; while (i < l.size() && i < m.size() && l[i] == m[i]) i++; i = i > 200 ? i - 200 : 0; return head + ": " + l.substr(i, 500) + "  instead of  " + m.substr(i, 500); }
  return "";
}
std::string compare_outputs(const Plan &p, const std::string &run, const std::vector<std::string> &solo, std::string &cls) {
  if (p.prop == "C19") { std::string d = compare_exact(run, solo[0]); if (d.empty()) return ""; cls = d.find("STOP") != std::string::npos || d.find("EXC") != std::string::npos ? "repeat:exception-differs" : "repeat:answer-differs"; return "the same calls in another process: " + d; }
  size_t pos = 0;
  for (size_t c = 0; c < solo.size(); c++) {
    size_t e = run.find('\f', pos); std::string mine = run.substr(pos, e - pos); pos = e + 1;
    std::string d = compare_rec(mine, solo[c]);
    if (!d.empty()) { cls = d.find("STOP") != std::string::npos || d.find("EXC") != std::string::npos ? "thread:exception-differs" : "thread:answer-differs"; return "thread " + std::to_string(c) + ", interleaved with the others instead of alone: " + d; }
  }
  return "";
}
