#pragma once
#include <memory>
#include "engine.h"
#include "json.h"
#include "model.h"
#include "seam.h"

struct Res {
  bool viol = false;
  bool abandoned = false;  // the run could not be judged further (counted, never reported)
  std::string kind, msg;
  int step = -1;
  uint64_t hash = 0, sched = 0;
  long calls = 0, faultsFired = 0, checks = 0;
  std::map<std::string, long> probes;
};
Engine* engine(int i);          // 0 src, 1 hdr, 2 py; loaded on first use
extern std::string g_libdir;
Res run_plan(const J& plan);
void set_cur_step(int s);
std::string enc(const std::string& raw);  // %XX-escaped text for plans
std::string dec(const std::string& s);
J imgJ(const VI& x);
VI imgV(const J& j);
J gen_plan(const std::string& prop, uint64_t seed);
