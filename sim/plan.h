#pragma once
#include "ref.h"
#include "rt.h"
#include <string>
#include <utility>
#include <vector>
struct RobotSpec { bool data = false; std::string name; uint64_t seed = 0; GenOpt opt; };
struct Op {
  int client = 0; std::string kind; std::vector<std::pair<std::string, long>> a;
  long get(const char *k, long d = 0) const { for (auto &p : a) if (p.first == k) return p.second; return d; }
  Op &set(const char *k, long v) { for (auto &p : a) if (p.first == k) { p.second = v; return *this; } a.push_back({k, v}); return *this; }
};
struct Plan {
  std::string prop; uint64_t seed = 0; std::vector<std::pair<std::string, long>> knobs;
  std::vector<RobotSpec> robots; std::vector<Op> ops; std::vector<rt::Switch> sched;
  long knob(const char *k, long d = 0) const { for (auto &p : knobs) if (p.first == k) return p.second; return d; }
};
std::string plan_text(const Plan &p);
Plan plan_parse(const std::string &text);
Plan generate(const std::string &prop, uint64_t seed, bool thorough);
// phases: -1 the run itself; >=0 the solo reference run of client / model instance number phase
void execute(const Plan &p, int phase);
int solo_phases(const Plan &p);
// compares recorded outputs of the run with those of the solo runs; empty string: equal
std::string compare_outputs(const Plan &p, const std::string &run, const std::vector<std::string> &solo, std::string &cls);
extern std::string data_dir;
