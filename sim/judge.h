// Runs plans in child processes and decides, per property, whether what happened is a violation of that property.
#pragma once
#include "exec.h"
#include "gen.h"
struct Out {
  bool harness_error = false, ok = false; // ok: the run came to its end
  std::string cls, detail; int op = -1; bool inlib = false, inser = false;
  uint64_t loghash = 0, tracehash = 0, steps = 0, maxreq = 0;
  std::vector<uint16_t> reqs, fired; std::vector<uint64_t> oplog, ostate;
  uint64_t tsteps[MAXTASK], tmallocs[MAXTASK], tglobals[MAXTASK], tops[MAXTASK];
  uint64_t cnt[CN_COUNT];
  bool clean() const { return ok && cls.empty(); }
  bool bad() const { return !ok; }
  bool limit() const { return ok && cls == "limit"; }
  uint64_t hash() const;
};
struct Verdict { bool bad = false; std::string cls, detail; int op = -1; uint64_t hash = 0; };
struct Stats {
  uint64_t runs = 0, plans = 0, nontrivial = 0, baselines = 0, limits = 0, unjudged = 0, cnt[CN_COUNT] = {0};
  uint64_t maxstack = 0, maxratio = 0, maxmem = 0;
  uint64_t rolling = 1469598103934665603ull;
  std::vector<uint64_t> behaviours, states, traces;
  std::vector<uint8_t> cov = std::vector<uint8_t>(COVMAX, 0);
  std::map<std::string, uint64_t> subjects, fns;
};
extern Stats st;
Out run_plan(const Plan &p);
Verdict judge(const Plan &p);
Plan shrink(const Plan &p, const Verdict &v, int &evals);
// runs all variations of one seed; returns true and the failing plan when a violation was found
bool explore_seed(const std::string &prop, uint64_t seed, bool thorough, Plan &failing, Verdict &v, std::string *sample);
