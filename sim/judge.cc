#include "judge.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
Stats st;
static uint64_t mixh(uint64_t h, uint64_t v) { for (int i = 0; i < 8; i++) { h = (h ^ (v & 0xff)) * 1099511628211ull; v >>= 8; } return h; }
static uint64_t strh(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
uint64_t Out::hash() const {
  uint64_t h = mixh(mixh(mixh(1469598103934665603ull, ok), loghash), tracehash);
  h = mixh(mixh(h, strh(cls + "|" + detail)), (uint64_t)op);
  for (auto x : oplog) h = mixh(h, x);
  for (auto x : fired) h = mixh(h, x);
  return mixh(h, steps);
}
Out run_plan(const Plan &p) {
  memset((void *)S, 0, sizeof *S);
  S->op = -1;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) { alarm(200); signal(SIGALRM, SIG_DFL); exec_plan(p); }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0) {}
  Out o;
  if (WIFEXITED(ws) && WEXITSTATUS(ws) != 0) { fprintf(stderr, "simulator error %d on plan:\n%s", WEXITSTATUS(ws), plan_to_text(p).c_str()); exit(3); }
  if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGALRM || WTERMSIG(ws) == SIGKILL)) { fprintf(stderr, "simulated run killed by signal %d (wall clock or memory of the real machine), plan:\n%s", WTERMSIG(ws), plan_to_text(p).c_str()); exit(3); }
  o.ok = S->done == 1; o.cls = S->cls; o.detail = S->detail; o.op = S->op; o.inlib = S->inlib; o.inser = S->inser;
  if (!S->done) { o.cls = "crash"; o.detail = "the process died"; o.inlib = true; }
  o.loghash = S->loghash; o.tracehash = S->tracehash; o.steps = S->cnt[CN_STEPS]; o.maxreq = S->maxreq;
  size_t n = std::min<size_t>(p.ops.size() + 1, MAXOPS);
  o.reqs.assign(S->reqs, S->reqs + n); o.fired.assign(S->fired, S->fired + n); o.oplog.assign(S->oplog, S->oplog + n); o.ostate.assign(S->ostate, S->ostate + n);
  memcpy(o.tsteps, S->tsteps, sizeof o.tsteps); memcpy(o.tmallocs, S->tmallocs, sizeof o.tmallocs); memcpy(o.tglobals, S->tglobals, sizeof o.tglobals); memcpy(o.tops, S->tops, sizeof o.tops);
  memcpy(o.cnt, S->cnt, sizeof o.cnt);
  st.runs++;
  st.maxmem = std::max(st.maxmem, S->maxmem);
  st.maxstack = std::max(st.maxstack, S->maxstack); st.maxratio = std::max(st.maxratio, S->maxratio);
  for (int i = 0; i < CN_COUNT; i++) st.cnt[i] += S->cnt[i];
  for (int i = 0; i < COVMAX; i++) st.cov[i] |= S->cov[i];
  return o;
}
static void account(const Plan &p, const Out &o, bool nontrivial) {
  uint64_t h = o.hash();
  st.rolling = mixh(st.rolling, h);
  st.plans++; st.subjects[p.subject]++;
  if (nontrivial) { st.nontrivial++; st.behaviours.push_back(mixh(h, strh(p.subject))); }
  if (p.ntasks) st.traces.push_back(o.tracehash);
  for (auto x : o.ostate) if (x) st.states.push_back(x);
  if (o.limit()) st.limits++; else if (o.ok && !o.cls.empty()) st.unjudged++;
  for (auto &q : p.ops) if (q.fn != F_COUNT) st.fns[fn_names[q.fn]]++;
}
static bool is(const std::string &c, std::initializer_list<const char *> l) { for (auto x : l) if (c == x) return true; return false; }

// ------------------------------------------------------------------ baselines: the same history without the disturbance
static Plan no_faults(Plan p) { for (auto &o : p.ops) o.fk = o.fn_ = 0; return p; }
static Plan undamaged(Plan p) { for (auto &o : p.ops) if (o.hasorig) { o.text = o.orig; o.hasorig = false; } return p; }
static Plan releases_last(Plan p) { for (auto &o : p.ops) if (o.fn == F_ReleaseAllocator) o.fn = F_COUNT; return p; }
static Plan c_locale(Plan p) { for (auto &o : p.ops) if (o.fn == F_Locale) o.fn = F_COUNT; return p; }
static Plan no_takeback(Plan p) { for (auto &o : p.ops) { o.scrub = -1; if (o.fn == F_DropText) o.fn = F_COUNT; } return p; }
static bool disturbed(const Plan &p) { for (auto &o : p.ops) if (o.fk) return true; return false; }
static Plan alone(Plan p, int t) { for (auto &o : p.ops) if (o.task < 8 && o.task != t) o.fn = F_COUNT; p.sched.clear(); p.first = t; return p; }
static std::string memo_key; static Out memo_out;
static Out memo_run(const Plan &p) {
  std::string k = plan_to_text(p);
  if (k != memo_key) { memo_out = run_plan(p); memo_key = k; }
  return memo_out;
}
static bool clean(const Plan &p) { st.baselines++; Out o = memo_run(p); return o.clean(); }

static Verdict verdict(const Out &o) { Verdict v; v.bad = true; v.cls = o.cls; v.detail = o.detail; v.op = o.op; v.hash = o.hash(); return v; }
static Out last_out;
Verdict judge(const Plan &p) {
  Verdict none;
  const std::string &c = p.prop;
  if (c == "C13") {
    Plan ref = p; ref.subject = "c-def"; ref.env = HeapEnv(); ref.env.seed = 1; ref.env.fill = 0; ref.env.reuse = 0; ref.env.gap = 0;
    Out b = memo_run(ref);
    Out o = last_out = run_plan(p);
    none.hash = mixh(o.hash(), b.hash());
    if (b.limit() || o.limit()) return none;
    if (p.subject == "c-u16") { // more than 16-bit sizes can hold
      if (b.maxreq > 20000) return none;
      for (auto &q : p.ops) if (q.text.size() > 20000) return none;
    }
    if (b.bad() && o.bad()) return none; // fails alike; whether that is right is not this property's question
    Verdict v; v.bad = true; v.hash = none.hash; v.cls = "differs";
    auto what = [&](const char *w, const Out &x, const char *w2) { return std::string("under ") + w + " the run ended with " + x.cls + " (" + x.detail + "), under " + w2 + " it did not"; };
    if (o.bad()) { v.detail = what("this configuration", o, "the reference configuration"); v.op = o.op; return v; }
    if (b.bad()) { v.detail = what("the reference configuration", b, "this configuration"); v.op = b.op; return v; }
    for (size_t i = 0; i < o.oplog.size(); i++) if (o.oplog[i] != b.oplog[i]) {
      v.op = (int)i; v.detail = "results of operation at index " + std::to_string(i) + " differ between " + p.subject + " in this heap and c-def in a zeroed heap"; return v;
    }
    return none;
  }
  Out o = last_out = run_plan(p);
  none.hash = o.hash();
  if (o.ok) return none;
  Verdict v = verdict(o);
  const Op *op = o.op >= 0 && o.op < (int)p.ops.size() ? &p.ops[o.op] : nullptr;
  bool crashy = is(o.cls, {"crash", "hang", "badptr", "oob", "uaf", "badfree", "earlyfree", "leak"});
  if (c == "C01") return is(o.cls, {"result", "state", "xstate", "crash", "hang", "badptr"}) ? v : none;
  if (c == "C02") return disturbed(p) && clean(no_faults(p)) ? v : none;
  if (c == "C03") {
    if (op && op->hasorig) return v;
    return clean(undamaged(p)) ? v : none;
  }
  if (c == "C04") return crashy && o.cls != "hang" ? v : none;
  if (c == "C05") {
    if (o.cls == "xstate" || (o.cls == "earlyfree" && o.detail.find("taken for another") != std::string::npos)) return v;
    return clean(releases_last(p)) ? v : none;
  }
  if (c == "C06" || c == "C07") {
    if (is(o.cls, {"race", "deadlock"})) return v;
    for (int t = 0; t < p.ntasks; t++) if (!clean(alone(p, t))) return none;
    return v;
  }
  if (c == "C15") return clean(c_locale(p)) ? v : none;
  if (c == "C08") return is(o.cls, {"ptr", "handle", "uaf", "badptr"}) ? v : none;
  if (c == "C09") {
    if (is(o.cls, {"bufwrite", "bufuse"})) return v;
    if (o.cls == "bufread" && op && fn_has_len(op->fn)) return v;
    return clean(no_takeback(p)) ? v : none;
  }
  if (c == "C10") {
    if (is(o.cls, {"hang", "blocks"})) return v;
    if (p.subject.compare(0, 5, "c-u16") == 0) { Plan b = p; b.subject = "c-u64"; return clean(b) ? v : none; }
    return none;
  }
  if (c == "C11") {
    if (p.subject[0] == 'c' && p.subject[1] == '-') return none;
    Plan b = p; b.subject = "c-" + std::string(find_subject(p.subject)->knob);
    return clean(b) ? v : none;
  }
  if (c == "C14") return v;
  if (c == "C12") {
    if (o.cls == "selfjson") return v;
    return is(o.cls, {"crash", "hang", "badptr"}) && o.inser ? v : none;
  }
  return none;
}

// ------------------------------------------------------------------ minimisation
Plan shrink(const Plan &p0, const Verdict &v0, int &evals) {
  Plan p = p0;
  uint64_t steps = 0;
  auto still = [&](const Plan &q) {
    if (evals >= 500 || steps > 400000000ull) return false;
    evals++;
    Verdict v = judge(q);
    steps += last_out.steps + (v.cls == "hang" ? 20000000 : 0);
    if (!(v.bad && v.cls == v0.cls)) return false;
    p = q;
    return true;
  };
  auto drop_ops = [&] {
    for (size_t ch = std::max<size_t>(1, p.ops.size() / 2); ch; ch /= 2) {
      for (size_t i = p.ops.size(); i-- > 0;) {
        if (ch > p.ops.size()) break;
        size_t a = i + 1 >= ch ? i + 1 - ch : 0;
        Plan q = p;
        q.ops.erase(q.ops.begin() + a, q.ops.begin() + std::min(a + ch, q.ops.size()));
        if (q.ops.empty()) continue;
        still(q);
        i = std::min(a, p.ops.size());
        if (i == 0) break;
      }
    }
  };
  auto drop_sched = [&] {
    for (size_t ch = std::max<size_t>(1, p.sched.size() / 2); ch && !p.sched.empty(); ch /= 2)
      for (size_t a = 0; a < p.sched.size();) {
        Plan q = p;
        q.sched.erase(q.sched.begin() + a, q.sched.begin() + std::min(a + ch, q.sched.size()));
        if (!still(q)) a += ch;
      }
  };
  if (!p.sched.empty()) { Plan q = p; q.sched.clear(); still(q); }
  if (!p.sched.empty()) drop_sched();
  drop_ops();
  for (size_t i = 0; i < p.ops.size(); i++) {
    if (p.ops[i].fk) { Plan q = p; q.ops[i].fk = q.ops[i].fn_ = 0; if (!still(q) && p.ops[i].fn_ > 1) { q = p; q.ops[i].fn_ = 1; still(q); } }
    if (p.ops[i].scrub >= 0) { Plan q = p; q.ops[i].scrub = -1; still(q); }
    if (p.ops[i].alias >= 0) { Plan q = p; q.ops[i].alias = -1; q.ops[i].aoff = 0; still(q); }
    if (p.ops[i].before || p.ops[i].after) { Plan q = p; q.ops[i].before = q.ops[i].after = 0; still(q); }
    if (p.ops[i].hasorig) { Plan q = p; q.ops[i].hasorig = false; q.ops[i].text = q.ops[i].orig; still(q); }
    for (size_t ch = p.ops[i].text.size(); ch; ch /= 2)
      for (size_t a = 0; a < p.ops[i].text.size() && evals < 480;) {
        Plan q = p; q.ops[i].text.erase(a, ch);
        if (q.ops[i].shared >= 0) { int s = q.ops[i].shared; for (auto &x : q.ops) if (x.shared == s) x.text = q.ops[i].text; }
        if (!still(q)) a += ch;
        if (p.ops[i].text.size() > 200 && ch < p.ops[i].text.size() / 64) break;
      }
  }
  drop_ops();
  if (p.env.fill || p.env.reuse || p.env.gap) { Plan q = p; q.env = HeapEnv(); q.env.gap = 0; still(q); }
  if (p.subject != "c-def" && p.prop != "C11" && p.prop != "C13") { Plan q = p; q.subject = "c-def"; still(q); }
  return p;
}

// ------------------------------------------------------------------ exploration of one seed
static bool clip_faults(Rng &r, Plan &p, const Out &base, int maxsites) {
  std::vector<int> sites;
  for (size_t i = 0; i < p.ops.size() && i < base.reqs.size(); i++) { p.ops[i].fk = p.ops[i].fn_ = 0; if (base.reqs[i]) sites.push_back((int)i); }
  if (sites.empty()) return false;
  int n = r.p(0.6) ? 1 : 1 + (int)r.below(maxsites);
  while (n--) {
    Op &o = p.ops[sites[r.below(sites.size())]];
    int q = base.reqs[&o - &p.ops[0]];
    o.fk = r.p(0.35) ? 1 : r.p(0.3) ? q : 1 + (int)r.below(q);
    o.fn_ = r.p(0.65) ? 1 : r.p(0.5) ? 2 + (int)r.below(4) : 1000000;
    o.retry = r.p(0.75);
  }
  return true;
}
bool explore_seed(const std::string &prop, uint64_t seed, bool thorough, Plan &failing, Verdict &vout, std::string *sample) {
  Plan p = generate(prop, seed, thorough);
  Rng r(seed ^ 0x5DEECE66Dull);
  auto test = [&](const Plan &q, auto nontrivial) {
    Verdict v = judge(q);
    account(q, last_out, nontrivial(last_out));
    if (sample && sample->empty() && nontrivial(last_out)) *sample = plan_to_text(q);
    if (v.bad) { failing = q; vout = v; return true; }
    return false;
  };
  auto C = [](const Out &o, Counter c) { return o.cnt[c] > 0; };
  if (prop == "C01") return test(p, [&](const Out &o) { return o.cnt[CN_OPS] >= 6; });
  if (prop == "C03") return test(p, [&](const Out &o) { return C(o, CN_DMG_OPS); });
  if (prop == "C05") return test(p, [&](const Out &o) { return C(o, CN_RELEASE_EARLY) || C(o, CN_XCOPY); });
  if (prop == "C09") return test(p, [&](const Out &o) { return C(o, CN_SCRUB_FREED) || C(o, CN_SCRUB_OVER); });
  if (prop == "C02") {
    Out base = run_plan(p); st.baselines++;
    if (!base.clean()) return false;
    int k = thorough ? 10 : 6;
    for (int i = 0; i < k; i++) { Plan q = p; if (!clip_faults(r, q, base, 4)) return false; if (test(q, [&](const Out &o) { return C(o, CN_OOM_OPS); })) return true; }
    return false;
  }
  if (prop == "C04" || prop == "C08" || prop == "C10" || prop == "C12" || prop == "C14") {
    if (test(p, [&](const Out &o) { return o.cnt[CN_OPS] >= 6; })) return true;
    if (!last_out.clean()) return false;
    Out base = last_out;
    int k = p.big ? 1 : thorough ? 4 : 2;
    for (int i = 0; i < k; i++) { Plan q = p; if (!clip_faults(r, q, base, 4)) return false; if (test(q, [&](const Out &o) { return C(o, CN_OOM_OPS); })) return true; }
    return false;
  }
  if (prop == "C15" && !p.ntasks) return test(p, [&](const Out &o) { return C(o, CN_LOCALE_USE); });
  if (prop == "C06" || prop == "C07" || prop == "C15") {
    if (test(p, [&](const Out &) { return false; })) return true; // tasks one after the other
    Out base = last_out;
    if (!base.clean()) return false;
    int k = prop == "C15" ? 2 : thorough ? 12 : 6;
    for (int i = 0; i < k; i++) {
      Plan q = p; q.first = (int)r.below(p.ntasks);
      int style = (int)r.below(5);
      int n = style == 0 ? 1 + (int)r.below(3) : style == 1 ? 20 + (int)r.below(40) : 4 + (int)r.below(12);
      for (int j = 0; j < n; j++) {
        rt::SchedPoint s; s.task = (int)r.below(p.ntasks); s.target = (int)r.below(p.ntasks);
        s.kind = style <= 1 ? 'a' : style == 2 ? 'o' : style == 3 ? 'm' : 'g';
        uint64_t m = s.kind == 'a' ? base.tsteps[s.task] : s.kind == 'o' ? base.tops[s.task] : s.kind == 'm' ? base.tmallocs[s.task] : base.tglobals[s.task];
        if (!m) { s.kind = 'a'; m = base.tsteps[s.task]; }
        if (!m) continue;
        s.n = 1 + r.below(m);
        q.sched.push_back(s);
      }
      if (test(q, [&](const Out &o) { return C(o, CN_PREEMPT_IN_CALL); })) return true;
    }
    return false;
  }
  if (prop == "C11") {
    const char *fl[] = {"c", "short", "cpp", "hpp"};
    std::string knob = find_subject(p.subject)->knob;
    Out base = run_plan(p);
    if (!base.clean()) return false;
    bool faulty = r.p(0.5);
    Plan q0 = p;
    if (faulty && clip_faults(r, q0, base, 3)) { Out b = run_plan(q0); if (b.clean()) p = q0; }
    for (int f = 1; f < 4; f++) {
      Plan q = p; q.subject = std::string(fl[f]) + "-" + knob;
      if (!find_subject(q.subject)) continue;
      if (test(q, [&](const Out &o) { return o.cnt[CN_OPS] >= 6; })) return true;
    }
    return false;
  }
  if (prop == "C13") {
    static const char *sub[] = {"c-def", "c-tiny", "c-d3", "c-mid", "c-u64", "c-mode3", "c-u16", "c-exp2", "c-o0", "c-zero"};
    int k = thorough ? 8 : 4;
    std::set<int> done;
    for (int i = 0; i < k; i++) {
      Plan q = p; int s = (int)r.below(10);
      if (s == 0 && i) s = 1 + (int)r.below(9);
      q.env.seed = r.next() % 1000000; q.env.fill = (int)r.below(6); q.env.reuse = r.p(0.5); q.env.gap = r.p(0.8);
      if (!find_subject(sub[s])) continue;
      q.subject = sub[s];
      if (test(q, [&](const Out &o) { return o.cnt[CN_OPS] >= 6; })) return true;
    }
    return false;
  }
  return false;
}
