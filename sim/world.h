// Executes operations on models and checks every answer against the reference model.
#pragma once
#include "cut.h"
#include "plan.h"
#include <string>
#include <vector>
enum { M_POSE = 1, M_JAC = 2, M_MASS = 4, M_REG = 8, M_RECORD = 16 };
struct Base { double p[3] = {0, 0, 0}, r[3] = {0, 0, 0}, q[4] = {0, 0, 0, 1}; bool quat = false; };
struct Asked { size_t id = 0; std::vector<size_t> joints; int rot = 0; bool base = false; };
// what a client set or asked before: it often asks the same again, or nearly the same
struct Memory { std::vector<std::vector<double>> q; std::vector<Base> base; Asked jac; bool asked = false; };
struct Slot { Memory mem; cut::Model *m = nullptr; RefModel ref; int robot = 0; bool queried = false, changed = false; };
struct Stop { std::string cls, msg; }; // thrown instead of a violation when `soft`
struct World {
  bool soft = false;
  const Plan *plan; std::vector<Robot> *robots; unsigned mask = 0;
  std::vector<Slot> slots; std::string rec; std::string cls_prefix;
  int compared_after_change = 0;
  void fail(const std::string &cls, const std::string &msg);
  void do_op(const Op &op, int idx);
  void finish();  // final checks, destruction
  void fresh(Slot &s, int robot);
  void kill(Slot &s);
  std::string battery(Slot &s); // every observable answer of a model, as text
  void check_all(Slot &s);
  void check_names(Slot &s);
private:
  void learn(Slot &s);
  void check_pose(Slot &s, size_t id);
  void check_jac(Slot &s, size_t id, const std::vector<size_t> &joints, int rot, bool base);
  void check_com(Slot &s);
  void check_comjac(Slot &s, const std::vector<size_t> &joints, bool base);
  void check_inertia(Slot &s);
  void check_limits(Slot &s, const std::vector<size_t> &ids);
  void check_angles(Slot &s, const std::vector<size_t> &ids);
  template <class F> bool guarded(const Op &op, Slot &s, F f);
  void put(const std::string &tag, const std::vector<double> &v);
  void puts(const std::string &tag, const std::string &v);
  void note_query(Slot &s);
  bool rec_on() const { return mask & M_RECORD; }
};
std::vector<Robot> make_robots(const Plan &p);
std::string dump(const std::vector<double> &v);
std::string hexs(const std::string &s);
std::string parsed_text(const cut::Parsed &p);
std::string compare_rec(const std::string &a, const std::string &b); // empty: equal up to rounding
rt::IoFaults io_from(const Op &op);
std::string garble(const std::string &t, Rng &g);
