// sim explore PROP BASE FROM STRIDE COUNT TIER OUTDIR SECONDS | sim replay FILE | sim plan PROP SEED TIER | sim subjects
#include "judge.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <time.h>
#include <pthread.h>
#include <unistd.h>
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string js(const std::string &s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static void dump(const std::string &f, std::vector<uint64_t> &v) {
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  std::ofstream o(f, std::ios::binary); o.write((const char *)v.data(), v.size() * 8);
}
static int replay(const char *file, bool quiet) {
  Plan p;
  if (!plan_from_text(slurp(file), p)) { fprintf(stderr, "cannot read plan %s\n", file); return 3; }
  if (!find_subject(p.subject)) { fprintf(stderr, "no subject %s in this build\n", p.subject.c_str()); return 3; }
  Verdict v = judge(p);
  if (!v.bad) { printf("OK the plan shows no violation of %s hash=%016llx\n", p.prop.c_str(), (unsigned long long)v.hash); return 0; }
  printf("REPRODUCED %s %s op=%d hash=%016llx %s\n", p.prop.c_str(), v.cls.c_str(), v.op, (unsigned long long)v.hash, v.detail.c_str());
  return 1;
}
static int real_main(int argc, char **argv);
static struct { int argc; char **argv; int rc; } margs;
static void *main_thread(void *) { margs.rc = real_main(margs.argc, margs.argv); return 0; }
int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR") && argc > 1) {
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  }
  // deep documents: the simulator's own recursion gets a stack of its own choosing
  margs.argc = argc; margs.argv = argv;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1024ul << 20);
  pthread_t th;
  if (pthread_create(&th, &at, main_thread, 0)) { perror("pthread_create"); return 3; }
  pthread_join(th, 0);
  return margs.rc;
}
static int real_main(int argc, char **argv) {
  if (argc < 2) return 3;
  std::string cmd = argv[1];
  if (cmd == "subjects") { for (int i = 0; all_subjects[i]; i++) puts(all_subjects[i]->name); return 0; }
  rt::init_once();
  if (cmd == "replay" && argc == 3) return replay(argv[2], false);
  if (cmd == "plan" && argc == 5) { fputs(plan_to_text(generate(argv[2], strtoull(argv[3], 0, 10), !strcmp(argv[4], "thorough"))).c_str(), stdout); return 0; }
  if (cmd == "raw" && argc == 3) { // run a plan with its own checks, whatever the property says
    Plan p; if (!plan_from_text(slurp(argv[2]), p)) return 3;
    Out o = run_plan(p);
    printf("ok=%d cls=%s op=%d %s\n", o.ok, o.cls.c_str(), o.op, o.detail.c_str());
    for (size_t i = 0; i < p.ops.size(); i++) printf("%3zu reqs=%d fired=%d log=%016llx  %s\n", i, o.reqs[i], o.fired[i], (unsigned long long)o.oplog[i], op_to_text(p.ops[i]).c_str());
    return 0;
  }
  if (cmd != "explore" || argc != 10) return 3;
  std::string prop = argv[2]; uint64_t base = strtoull(argv[3], 0, 10); long from = atol(argv[4]), stride = atol(argv[5]), count = atol(argv[6]);
  bool thorough = !strcmp(argv[7], "thorough"); std::string out = argv[8]; long secs = atol(argv[9]);
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  std::vector<std::string> samples;
  std::vector<std::pair<long, uint64_t>> seedhash;
  long done = 0, unstable = 0; int rc = 0; bool capped = false;
  std::string vjson = "null";
  for (long i = from; i < count; i += stride) {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    if (t.tv_sec - t0.tv_sec >= secs) { capped = true; break; }
    uint64_t seed = base * 1000003ull + (uint64_t)i + 1;
    Plan f; Verdict v; std::string sample;
    st.rolling = 1469598103934665603ull;
    bool bad = explore_seed(prop, seed, thorough, f, v, samples.size() < 2 ? &sample : nullptr);
    done++;
    if (!sample.empty()) samples.push_back(sample);
    seedhash.push_back({i, st.rolling});
    if (!bad) continue;
    // gate: the same plan twice gives the same execution
    Verdict again = judge(f);
    if (!again.bad || again.cls != v.cls || again.hash != v.hash) { unstable++; fprintf(stderr, "unstable: seed %llu %s/%s\n", (unsigned long long)seed, v.cls.c_str(), again.cls.c_str()); if (unstable > 3) break; continue; }
    int evals = 0;
    Plan m = shrink(f, v, evals);
    Verdict mv = judge(m);
    std::string path = out + "/" + prop + "-" + std::to_string(seed) + ".plan";
    { std::ofstream o(path); o << "# property " << prop << ": " << mv.cls << ": ";
      for (char c : mv.detail) o << (c == '\n' ? ' ' : c);
      o << "\n# found with seed " << seed << ", minimised from " << f.ops.size() << " operations to " << m.ops.size() << " in " << evals << " simulated runs\n" << plan_to_text(m); }
    char b[64]; snprintf(b, sizeof b, "%016llx", (unsigned long long)mv.hash);
    vjson = "{\"path\":" + js(path) + ",\"cls\":" + js(mv.cls) + ",\"detail\":" + js(mv.detail) + ",\"seed\":" + std::to_string(seed) + ",\"ops\":" + std::to_string(m.ops.size()) + ",\"evals\":" + std::to_string(evals) + ",\"hash\":\"" + b + "\"}";
    rc = 1;
    break;
  }
  std::string tag = out + "/w" + std::to_string(from);
  dump(tag + ".beh", st.behaviours); dump(tag + ".sta", st.states); dump(tag + ".tra", st.traces);
  { std::ofstream o(tag + ".cov", std::ios::binary); o.write((const char *)st.cov.data(), COVMAX); }
  std::ofstream o(tag + ".json");
  o << "{\"seeds\":" << done << ",\"capped\":" << (capped ? "true" : "false") << ",\"unstable\":" << unstable << ",\"runs\":" << st.runs << ",\"plans\":" << st.plans << ",\"nontrivial\":" << st.nontrivial << ",\"baselines\":" << st.baselines << ",\"limits\":" << st.limits << ",\"unjudged\":" << st.unjudged << ",\"maxmem\":" << st.maxmem << ",\"maxstack\":" << st.maxstack << ",\"maxratio\":" << st.maxratio << ",\"violation\":" << vjson;
  o << ",\"counters\":{"; for (int i = 0; i < CN_COUNT; i++) o << (i ? "," : "") << "\"" << counter_names[i] << "\":" << st.cnt[i]; o << "}";
  o << ",\"subjects\":{"; { bool f = true; for (auto &k : st.subjects) { o << (f ? "" : ",") << js(k.first) << ":" << k.second; f = false; } } o << "}";
  o << ",\"functions\":{"; { bool f = true; for (auto &k : st.fns) { o << (f ? "" : ",") << js(k.first) << ":" << k.second; f = false; } } o << "}";
  o << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << js(samples[i]); o << "]";
  o << ",\"seedhash\":["; for (size_t i = 0; i < seedhash.size(); i++) o << (i ? "," : "") << "[" << seedhash[i].first << ",\"" << std::hex << seedhash[i].second << std::dec << "\"]"; o << "]}\n";
  return rc;
}
