#include "rt.h"
#include "api.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <ctype.h>
#include <langinfo.h>
#include <locale.h>
#include <strings.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

const char *const counter_names[CN_COUNT] = {
    "block_requests", "block_requests_refused", "refused_machine_limit", "calls_hit_by_refusal",
    "refused_calls_reporting_failure", "refused_calls_retried_ok", "refusals_inside_a_call_after_a_success",
    "refusal_bursts", "damaged_inputs", "damaged_rejected", "damaged_accepted_wellformed",
    "caller_buffers_freed_after_call", "caller_buffers_overwritten_after_call", "borrowed_texts_withdrawn",
    "texts_given_again", "allocator_releases", "releases_with_others_live", "preemptions", "preemptions_inside_a_call",
    "preemptions_at_malloc", "preemptions_at_global_access", "heap_blocks_reused", "dirty_heap_bytes", "operations",
    "operations_skipped", "library_calls", "steps", "observations", "pointers_tracked", "size_type_exhausted",
    "copies_between_allocators", "rejections_per_model", "big_operations", "mutex_operations", "atomic_operations",
    "global_accesses", "reparses", "locale_switches", "conversions_under_a_foreign_locale"};

Shared *S;

static const uintptr_t HEAP = 0x200000000000ull, HEAPSLICE = 96ull << 20, HEAPSZ = HEAPSLICE * MAXTASK;
static const uintptr_t CALL = 0x210000000000ull, CALLSLICE = 64ull << 20, CALLSZ = CALLSLICE * MAXTASK;
static const uintptr_t HSHADOW = 0x220000000000ull, CSHADOW = 0x230000000000ull, RSHADOW = 0x240000000000ull;
static const uintptr_t CRSHADOW = 0x250000000000ull, GRSHADOW = 0x260000000000ull;
struct Cell { uint32_t wclk; uint32_t rclk[MAXTASK]; uint8_t wtask; };
extern "C" char __executable_start, __data_start, _end;
static uintptr_t IMG0, IMG1, DAT0, DAT1;

static void fill(char *p, size_t n, uint64_t &s);
static char stackfill[2560];
namespace rt {
thread_local int self = MAINTASK;
bool threaded = false;
int cur_owner[MAXTASK], releasing[MAXTASK];
uint64_t total_steps = 0;
bool memfatal = true, buffatal = true;
size_t stacklimit = ~(size_t)0;
}

static HeapEnv env;
static uint64_t hrng[MAXTASK];
static uint64_t rnd(uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }

// per task call state
struct Call { uintptr_t base; size_t weight; bool in; int op; uint64_t steps, budget; int reqs; int fk, fn; int fired; size_t limit; int id; };
static Call call[MAXTASK];
static int callcount;
static std::vector<Block> *blk;
static std::map<uintptr_t, int> *bymap;
struct FreeB { uintptr_t p; size_t n; };
static std::vector<FreeB> *freelist[MAXTASK];
static uintptr_t hbump[MAXTASK], cbump[MAXTASK];

void violation(const char *cls, const char *fmt, ...) {
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  va_list ap; va_start(ap, fmt); vsnprintf(S->detail, sizeof S->detail, fmt, ap); va_end(ap);
  S->op = call[rt::self].op;
  S->inlib = call[rt::self].in;
  S->done = 2;
  _exit(0);
}

static void on_signal(int sig) {
  if (sig == SIGPROF) violation("hang", "call used more than the simulated machine's whole time slice (no step progress)");
  violation("crash", "the call died with signal %s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (stack or libc check)" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL");
}

static void *mapat(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { perror("mmap"); exit(3); }
  return p;
}

namespace rt {
void init_once() {
  mapat(HEAP, HEAPSZ); mapat(CALL, CALLSZ); mapat(HSHADOW, HEAPSZ); mapat(CSHADOW, CALLSZ);
  mapat(RSHADOW, HEAPSZ * sizeof(Cell)); mapat(CRSHADOW, CALLSZ * sizeof(Cell));
  IMG0 = (uintptr_t)&__executable_start; IMG1 = (uintptr_t)&_end; DAT0 = (uintptr_t)&__data_start; DAT1 = IMG1;
  mapat(GRSHADOW, ((DAT1 - DAT0 + 16) * sizeof(Cell) + 4095) & ~4095ull);
  void *p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  S = (Shared *)p;
}
static char altstack[MAXTASK][65536];
void begin_run(const HeapEnv &e) {
  env = e;
  for (int i = 0; i < MAXTASK; i++) {
    hrng[i] = (e.seed + 1) * 0x9E3779B97F4A7C15ull + i * 77777;
    for (int j = 0; j < 4; j++) rnd(hrng[i]);
    hbump[i] = HEAP + HEAPSLICE * i + 4096; cbump[i] = CALL + CALLSLICE * i + 4096;
    freelist[i] = new std::vector<FreeB>;
    memset(&call[i], 0, sizeof call[i]); call[i].op = -1; cur_owner[i] = releasing[i] = -1;
  }
  { uint64_t q = (e.seed + 77) * 0x9E3779B97F4A7C15ull; fill(stackfill, sizeof stackfill, q); }
  blk = new std::vector<Block>; bymap = new std::map<uintptr_t, int>;
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack[MAINTASK]; ss.ss_size = sizeof altstack[0];
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) sigaction(s, &sa, 0);
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 30; setitimer(ITIMER_PROF, &it, 0);
}
std::vector<Block> &blocks() { return *blk; }
bool in_heap(const void *p) { return (uintptr_t)p - HEAP < HEAPSZ; }
bool in_caller(const void *p) { return (uintptr_t)p - CALL < CALLSZ; }
bool in_image(const void *p) { return (uintptr_t)p >= IMG0 && (uintptr_t)p < IMG1; }
static inline uint8_t *hsh(uintptr_t a) { return (uint8_t *)(HSHADOW + (a - HEAP)); }
static inline uint8_t *csh(uintptr_t a) { return (uint8_t *)(CSHADOW + (a - CALL)); }
bool heap_readable(const void *p, size_t n) {
  if (!in_heap(p)) return false;
  for (size_t i = 0; i < n; i++) if (*hsh((uintptr_t)p + i) != 1) return false;
  return true;
}
bool caller_readable(const void *p, size_t n) {
  if (!in_caller(p)) return false;
  for (size_t i = 0; i < n; i++) if (*csh((uintptr_t)p + i) != 1) return false;
  return true;
}
bool readable(const void *p, size_t n) {
  if (in_heap(p)) return heap_readable(p, n);
  if (in_caller(p)) return caller_readable(p, n);
  return in_image(p) && (uintptr_t)p + n <= IMG1;
}
int block_index(const void *p) {
  auto it = bymap->upper_bound((uintptr_t)p);
  if (it == bymap->begin()) return -1;
  --it;
  Block &b = (*blk)[it->second];
  return (uintptr_t)p < b.p + (b.n ? b.n : 1) ? it->second : -1;
}
std::string cstr(const char *p, const char *what) {
  std::string r;
  for (const char *q = p;; q++) {
    if (!readable(q, 1)) violation("badptr", "%s: returned text at %s is not terminated inside live memory (after %zu bytes)", what, in_heap(p) ? "heap" : in_caller(p) ? "caller buffer" : in_image(p) ? "static" : "unknown address", (size_t)(q - p));
    if (!*q) break;
    r.push_back(*q);
    if (r.size() > (64u << 20)) violation("badptr", "%s: returned text never ends", what);
  }
  return r;
}
std::string bytes(const char *p, size_t n, const char *what) {
  if (n > (64u << 20) || (n && !readable(p, n))) violation("badptr", "%s: returned %zu bytes at %s are not live memory", what, n, in_heap(p) ? "heap" : in_caller(p) ? "caller buffer" : "unknown address");
  return std::string(p, n);
}
} // namespace rt
using namespace rt;

// ---------------------------------------------------------------- scheduler and race detection
namespace {
struct Task { sem_t sem; bool done, blocked; void *waiting; uint64_t steps, mallocs, globals, ops; uint64_t spin; };
Task task[MAXTASK];
int ntask;
struct Pts { std::vector<SchedPoint> a, m, g, o; size_t ia = 0, im = 0, ig = 0, io = 0; };
Pts pts[MAXTASK];
uint32_t VC[MAXTASK][MAXTASK];
struct SyncVar { uint32_t vc[MAXTASK]; int holder; int depth; };
std::unordered_map<uintptr_t, SyncVar> *syncs;
uint64_t thash = 1469598103934665603ull;
void (*task_body)(int);

void mix(uint64_t v) { thash = (thash ^ v) * 1099511628211ull; }

void switch_to(int t) {
  int me = self;
  if (t == me) return;
  mix(me * 16 + t); mix(task[me].steps);
  sem_post(&task[t].sem);
  while (sem_wait(&task[me].sem)) {}
}
int pick_other() {
  for (int k = 1; k <= ntask; k++) {
    int t = (self + k) % ntask;
    if (t != self && !task[t].done && !task[t].blocked) return t;
  }
  return -1;
}
void preempt(const SchedPoint &p, Counter extra) {
  int t = p.target;
  if (t < 0 || t >= ntask || task[t].done || task[t].blocked || t == self) { t = pick_other(); if (t < 0) return; }
  S->cnt[CN_PREEMPT]++;
  if (extra != CN_COUNT) S->cnt[extra]++;
  if (call[self].in) S->cnt[CN_PREEMPT_IN_CALL]++;
  switch_to(t);
}
void point(std::vector<SchedPoint> &v, size_t &i, uint64_t n, Counter extra) {
  while (i < v.size() && v[i].n < n) i++;
  if (i < v.size() && v[i].n == n) { SchedPoint p = v[i++]; preempt(p, extra); }
}
const char *where(uintptr_t a) { return a - HEAP < HEAPSZ ? "heap" : a - CALL < CALLSZ ? "caller buffer" : "static data"; }
Cell *cell(uintptr_t a) {
  if (a - HEAP < HEAPSZ) return (Cell *)RSHADOW + (a - HEAP);
  if (a - CALL < CALLSZ) return (Cell *)CRSHADOW + (a - CALL);
  if (a >= DAT0 && a < DAT1) return (Cell *)GRSHADOW + (a - DAT0);
  return 0;
}
// wtask is stored +1 so that a zero cell means "never written"
void race_check(uintptr_t a, size_t n, bool w) {
  int t = self;
  for (size_t i = 0; i < n; i++) {
    Cell *c = cell(a + i);
    if (!c) return;
    if (c->wtask && c->wtask - 1 != t && c->wclk > VC[t][c->wtask - 1])
      violation("race", "%s of %s by task %d races with an earlier write by task %d (no synchronisation between them)", w ? "write" : "read", where(a), t, c->wtask - 1);
    if (w) {
      for (int u = 0; u < MAXTASK; u++)
        if (u != t && c->rclk[u] > VC[t][u]) violation("race", "write of %s by task %d races with an earlier read by task %d (no synchronisation between them)", where(a), t, u);
      c->wtask = t + 1; c->wclk = VC[t][t];
    } else c->rclk[t] = VC[t][t];
  }
}
SyncVar &sync_of(uintptr_t a) {
  auto it = syncs->find(a);
  if (it == syncs->end()) { SyncVar v; memset(&v, 0, sizeof v); v.holder = -1; it = syncs->emplace(a, v).first; }
  return it->second;
}
void acquire(SyncVar &v) { for (int u = 0; u < MAXTASK; u++) VC[self][u] = std::max(VC[self][u], v.vc[u]); }
void release(SyncVar &v) { for (int u = 0; u < MAXTASK; u++) v.vc[u] = std::max(v.vc[u], VC[self][u]); VC[self][self]++; }
void block_on(void *m) {
  task[self].blocked = true; task[self].waiting = m;
  int t = pick_other();
  if (t < 0) violation("deadlock", "every task waits for a lock");
  switch_to(t);
}
void mutex_lock(void *m) {
  S->cnt[CN_MUTEX]++;
  if (!threaded) return;
  SyncVar *v = &sync_of((uintptr_t)m);
  while (v->holder >= 0 && v->holder != self) { block_on(m); v = &sync_of((uintptr_t)m); }
  v->holder = self; v->depth++; acquire(*v);
}
void mutex_unlock(void *m) {
  if (!threaded) return;
  SyncVar &v = sync_of((uintptr_t)m);
  release(v);
  if (--v.depth <= 0) { v.depth = 0; v.holder = -1; for (int t = 0; t < ntask; t++) if (task[t].blocked && task[t].waiting == m) task[t].blocked = false; }
}
void *thread_main(void *arg) {
  int me = (int)(intptr_t)arg;
  self = me;
  static char alt[MAXTASK][65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt[me]; ss.ss_size = sizeof alt[0]; sigaltstack(&ss, 0);
  while (sem_wait(&task[me].sem)) {}
  task_body(me);
  task[me].done = true;
  mix(1000 + me);
  int t = pick_other();
  if (t >= 0) { sem_post(&task[t].sem); return 0; }
  for (int u = 0; u < ntask; u++) if (!task[u].done) violation("deadlock", "task %d waits for a lock that nobody will release", u);
  sem_post(&task[MAINTASK].sem);
  return 0;
}
} // namespace

namespace rt {
uint64_t trace_hash() { return thash; }
void run_tasks(int n, int first, const std::vector<SchedPoint> &sp, void (*body)(int)) {
  ntask = n; task_body = body; threaded = true;
  syncs = new std::unordered_map<uintptr_t, SyncVar>;
  for (int i = 0; i < MAXTASK; i++) { sem_init(&task[i].sem, 0, 0); task[i].done = i >= n; task[i].blocked = false; }
  for (auto &p : sp) if (p.task >= 0 && p.task < n) {
    auto &q = pts[p.task];
    (p.kind == 'm' ? q.m : p.kind == 'g' ? q.g : p.kind == 'o' ? q.o : q.a).push_back(p);
  }
  for (int i = 0; i < n; i++) for (auto *v : {&pts[i].a, &pts[i].m, &pts[i].g, &pts[i].o})
    std::stable_sort(v->begin(), v->end(), [](const SchedPoint &x, const SchedPoint &y) { return x.n < y.n; });
  // main happens before every task
  VC[MAINTASK][MAINTASK] = 1;
  for (int i = 0; i < n; i++) { VC[i][i] = 1; VC[i][MAINTASK] = 1; }
  VC[MAINTASK][MAINTASK] = 2;
  pthread_t th[MAXTASK]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16u << 20);
  for (int i = 0; i < n; i++) if (pthread_create(&th[i], &at, thread_main, (void *)(intptr_t)i)) { perror("pthread_create"); _exit(3); }
  sem_post(&task[first % n].sem);
  while (sem_wait(&task[MAINTASK].sem)) {}
  for (int i = 0; i < n; i++) pthread_join(th[i], 0);
  for (int i = 0; i < n; i++) {
    for (int u = 0; u < MAXTASK; u++) VC[MAINTASK][u] = std::max(VC[MAINTASK][u], VC[i][u]);
    S->tsteps[i] = task[i].steps; S->tmallocs[i] = task[i].mallocs; S->tglobals[i] = task[i].globals; S->tops[i] = task[i].ops;
  }
  threaded = false;
}
void op_point() {
  if (!threaded || self == MAINTASK) return;
  uint64_t n = ++task[self].ops;
  point(pts[self].o, pts[self].io, n, CN_COUNT);
}
// What the call finds on the stack below its caller: the same kind of contents as fresh memory has.
__attribute__((noinline)) static void dirty_stack() {
  volatile char b[2560];
  memcpy((char *)b, stackfill, sizeof b);
  asm volatile("" : : "r"(b) : "memory");
}
__attribute__((noinline)) void enter_call(int op, uint64_t budget, size_t weight) {
  dirty_stack();
  Call &c = call[self];
  c.base = (uintptr_t)__builtin_frame_address(0); c.weight = weight;
  c.in = true; c.op = op; c.steps = 0; c.budget = budget; c.reqs = 0; c.fk = c.fn = 0; c.fired = 0; c.limit = 0; c.id = ++callcount;
  S->cnt[CN_CALLS]++;
}
void leave_call() { Call &c = call[self]; c.in = false; if (c.weight >= 4000 && c.steps * 1000 / c.weight > S->maxratio) S->maxratio = c.steps * 1000 / c.weight; S->cnt[CN_STEPS] += c.steps; }
void set_fault(int k, int n) { call[self].fk = k; call[self].fn = n; }
int fault_fired() { return call[self].fired; }
int call_requests() { return call[self].reqs; }
size_t size_limit_hit() { return call[self].limit; }
} // namespace rt

static inline void tick(uint64_t n) {
  Call &c = call[self];
  c.steps += n;
  if (__builtin_expect(c.in && c.steps > c.budget, 0)) violation("hang", "call still running after %llu steps", (unsigned long long)c.budget);
}
static inline void stack_check() { // at every control-flow edge of library code
  Call &c = call[self];
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  if (!c.in || sp >= c.base) return;
  if (c.base - sp > S->maxstack) {
    S->maxstack = c.base - sp;
    if (S->maxstack > stacklimit) violation("stack", "a call used more than %zu bytes of stack", stacklimit);
  }
}

static void heap_fault(uintptr_t a, size_t n, bool w) {
  if (!memfatal) return;
  size_t i = 0;
  while (i < n && *hsh(a + i) == 1) i++;
  int st = *hsh(a + i), b = block_index((void *)(a + i));
  if (st == 2) violation("uaf", "%s of %zu bytes in a block of %zu bytes that was already given back", w ? "write" : "read", n, b >= 0 ? (*blk)[b].n : 0);
  int near = block_index((void *)(a ? a - 1 : a));
  violation("oob", "%s of %zu bytes outside any live block%s", w ? "write" : "read", n, near >= 0 ? " (just past the end of one)" : "");
}
static void access_range(uintptr_t a, size_t n, bool w) {
  if (!n) return;
  if (a - HEAP < HEAPSZ) {
    if (n > HEAPSZ - (a - HEAP)) violation("crash", "access of %zu bytes at once", n);
    for (size_t i = 0; i < n; i++) if (__builtin_expect(*hsh(a + i) != 1, 0)) { heap_fault(a, n, w); break; }
  } else if (a - CALL < CALLSZ) {
    if (!buffatal) return;
    if (w) violation("bufwrite", "write of %zu bytes into caller text", n);
    for (size_t i = 0; i < n; i++) if (__builtin_expect(*csh(a + i) != 1, 0))
      violation(*csh(a + i) == 2 ? "bufuse" : "bufread", "read of %zu bytes at offset %zu of the range %s", n, i, *csh(a + i) == 2 ? "of caller text that the caller has taken back" : "outside the text the caller passed");
  }
}
static inline void acc(void *p, size_t n, bool w) {
  uintptr_t a = (uintptr_t)p;
  tick(1);
  if (threaded && self != MAINTASK) {
    Task &t = task[self];
    uint64_t s = ++t.steps;
    Pts &q = pts[self];
    if (q.ia < q.a.size() && q.a[q.ia].n <= s) point(q.a, q.ia, s, CN_COUNT);
    if (a >= DAT0 && a < DAT1) { uint64_t g = ++t.globals; S->cnt[CN_GLOBAL_ACC]++; point(q.g, q.ig, g, CN_PREEMPT_GLOBAL); }
  }
  access_range(a, n, w);
  if (threaded && self != MAINTASK) race_check(a, n, w);
}
static void acc_range(const void *p, size_t n, bool w) {
  if (!n) return;
  tick(n / 8);
  uintptr_t a = (uintptr_t)p;
  acc((void *)a, n < 16 ? n : 16, w);
  if (n > 16) { access_range(a + 16, n - 16, w); if (threaded && self != MAINTASK) race_check(a + 16, n - 16, w); }
}

// ---------------------------------------------------------------- simulated heap
static void fill(char *p, size_t n, uint64_t &s) {
  static const char junk[] = "\"{[,:]}tfn\\u09-.eE";
  switch (env.fill) {
  case 0: memset(p, 0, n); return;
  case 1: memset(p, 0xff, n); break;
  case 2: for (size_t i = 0; i < n; i++) p[i] = '1' + (i * 7) % 9; break;
  case 3: for (size_t i = 0; i < n; i += 8) { uint64_t v = rnd(s); memcpy(p + i, &v, n - i < 8 ? n - i : 8); } break;
  case 4: for (size_t i = 0; i < n; i++) p[i] = junk[(i * 5 + (i >> 3)) % (sizeof junk - 1)]; break;
  default: for (size_t i = 0; i < n; i += 8) { uint64_t v = HEAP + 0x1000 + (i & 0xff0); memcpy(p + i, &v, n - i < 8 ? n - i : 8); } break;
  }
  S->cnt[CN_DIRTY_BYTES] += n;
}
static void sched_malloc() {
  if (threaded && self != MAINTASK) { uint64_t n = ++task[self].mallocs; point(pts[self].m, pts[self].im, n, CN_PREEMPT_MALLOC); }
}
// how a block was taken decides how it has to be given back
enum { K_MALLOC, K_HOOK, K_NEW };
static const char *const takename[] = {"malloc", "the configured hook", "operator new"}, *const givename[] = {"free", "the configured hook", "operator delete"};
extern "C" {
static void *take(size_t n, int kind) {
  tick(1); sched_malloc();
  int t = self;
  Call &c = call[t];
  c.reqs++; S->cnt[CN_REQ]++; if (n > S->maxreq) S->maxreq = n;
  if (c.fk && c.reqs >= c.fk && c.reqs < c.fk + c.fn) {
    c.fired++; S->cnt[CN_REQ_FAILED]++;
    if (c.reqs > 1 && c.fired == 1) S->cnt[CN_OOM_MID]++;
    if (c.fired == 2) S->cnt[CN_OOM_BURST]++;
    errno = ENOMEM; return 0;
  }
  if (n > (24u << 20)) { S->cnt[CN_REQ_LIMIT]++; c.limit = n ? n : 1; errno = ENOMEM; return 0; }
  uintptr_t p = 0;
  if (env.reuse) {
    auto &f = *freelist[t];
    for (size_t i = 0; i < f.size(); i++) if (f[i].n >= n && f[i].n <= 2 * n + 64) { p = f[i].p; f.erase(f.begin() + i); S->cnt[CN_HEAP_REUSE]++; break; }
  }
  if (!p) {
    p = (hbump[t] + 15) & ~15ull;
    if (env.gap) p += 16 * (1 + rnd(hrng[t]) % 16); else p += 16;
    if (p + n + 64 > HEAP + HEAPSLICE * (t + 1)) { S->cnt[CN_REQ_LIMIT]++; c.limit = n ? n : 1; errno = ENOMEM; return 0; }
    hbump[t] = p + n;
  }
  fill((char *)p, n, hrng[t]);
  memset(hsh(p), 1, n);
  if (threaded) { memset((void *)cell(p), 0, n * sizeof(Cell)); }
  auto it = bymap->find(p);
  Block b{p, n, true, t, cur_owner[t], c.op, (uint64_t)blk->size(), c.id, kind};
  if (it != bymap->end()) it->second = (int)blk->size(); else (*bymap)[p] = (int)blk->size();
  blk->push_back(b);
  return (void *)p;
}
static void giveback(void *q, int kind) {
  tick(1); sched_malloc();
  if (!q) return;
  uintptr_t p = (uintptr_t)q;
  auto it = bymap->find(p);
  if (!memfatal && (it == bymap->end() || !(*blk)[it->second].live)) return;
  if (it == bymap->end()) violation("badfree", "gave back an address that is not the start of a block it took%s", in_heap(q) && block_index(q) >= 0 ? " (inside a block)" : "");
  Block &b = (*blk)[it->second];
  if (!b.live) violation("badfree", "gave back a block of %zu bytes twice", b.n);
  if (b.kind != kind && (memfatal || b.kind == K_HOOK || kind == K_HOOK)) violation("badfree", "gave back a block of %zu bytes with %s although it was taken with %s", b.n, givename[kind], takename[b.kind]);
  if (threaded && self != MAINTASK) race_check(p, b.n, true);
  b.live = false;
  // Freed under an allocator other than the one it was taken for, unless it was only this call's scratch memory
  if (memfatal && b.callid != call[self].id && b.owner != releasing[self])
    violation("earlyfree", releasing[self] >= 0 ? "releasing one allocator gave back a block of %zu bytes taken for another" : "gave back a block of %zu bytes although its allocator was not being released", b.n);
  b.callid = -call[self].id; // remembers which call freed it
  memset(hsh(p), 2, b.n);
  fill((char *)p, b.n, hrng[self]);
  if (env.reuse) freelist[self]->push_back({p, b.n});
}
void *sim_malloc(size_t n) { return take(n, K_MALLOC); }
void sim_free(void *q) { giveback(q, K_MALLOC); }
void *sim_hook_new(size_t n) { return take(n, K_HOOK); }
void sim_hook_free(void *q) { giveback(q, K_HOOK); }
void *sim_calloc(size_t a, size_t b) { size_t n = a * b; if (b && n / b != a) return 0; void *p = sim_malloc(n); if (p) memset(p, 0, n); return p; }
void *sim_realloc(void *q, size_t n) {
  if (!q) return sim_malloc(n);
  auto it = bymap->find((uintptr_t)q);
  if (it == bymap->end()) violation("badfree", "resized an address that is not the start of a block it took");
  if (!(*blk)[it->second].live) violation("badfree", "resized a block already given back");
  size_t old = (*blk)[it->second].n;
  void *p = sim_malloc(n);
  if (!p) return 0;
  memcpy(p, q, old < n ? old : n);
  call[self].id = call[self].id; // same call
  (*blk)[it->second].callid = call[self].id;
  sim_free(q);
  return p;
}
void *sim_opnew(size_t n) { void *p = take(n, K_NEW); if (!p) abort(); return p; }
void *sim_opnew_nothrow(size_t n) { return take(n, K_NEW); }
void sim_opdel(void *p) { giveback(p, K_NEW); }
void sim_opdel_sized(void *p, size_t) { giveback(p, K_NEW); }
void *sim_caller_new(size_t n) { return calloc(1, n + 64); }
void sim_caller_delete(void *p) { free(p); }

// ---------------------------------------------------------------- libc calls of the library, with checked accesses
static size_t text_extent(const char *s, bool &terminated) { // readable bytes from s up to and including a NUL
  size_t n = 0; terminated = false;
  while (n < (64u << 20)) {
    const char *p = s + n;
    if ((in_heap(p) || in_caller(p)) && !readable(p, 1)) return n;
    n++;
    if (!*p) { terminated = true; return n; }
  }
  return n;
}
size_t sim_strlen(const char *s) {
  size_t n = 0;
  while (true) { acc((void *)(s + n), 1, false); if (!s[n]) return n; n++; }
}
size_t sim_strnlen(const char *s, size_t m) {
  size_t n = 0;
  while (n < m) { acc((void *)(s + n), 1, false); if (!s[n]) return n; n++; }
  return n;
}
// A comparison may look at bytes only up to the first difference to decide; the C standard lets memcmp read all n.
int sim_memcmp(const void *a, const void *b, size_t n) { acc_range(a, n, false); acc_range(b, n, false); return memcmp(a, b, n); }
int sim_strcmp(const char *a, const char *b) {
  for (size_t i = 0;; i++) { acc((void *)(a + i), 1, false); acc((void *)(b + i), 1, false); int d = (unsigned char)a[i] - (unsigned char)b[i]; if (d || !a[i]) return d; }
}
int sim_strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; i++) { acc((void *)(a + i), 1, false); acc((void *)(b + i), 1, false); int d = (unsigned char)a[i] - (unsigned char)b[i]; if (d || !a[i]) return d; }
  return 0;
}
void *sim_memchr(const void *s, int ch, size_t n) {
  for (size_t i = 0; i < n; i++) { acc((char *)s + i, 1, false); if (((unsigned char *)s)[i] == (unsigned char)ch) return (char *)s + i; }
  return 0;
}
char *sim_strchr(const char *s, int ch) {
  for (;; s++) { acc((void *)s, 1, false); if (*s == (char)ch) return (char *)s; if (!*s) return 0; }
}
char *sim_strrchr(const char *s, int ch) { const char *r = 0; for (;; s++) { acc((void *)s, 1, false); if (*s == (char)ch) r = s; if (!*s) return (char *)r; } }
char *sim_strcpy(char *d, const char *s) { size_t n = sim_strlen(s) + 1; acc_range(d, n, true); memcpy(d, s, n); return d; }
char *sim_stpcpy(char *d, const char *s) { size_t n = sim_strlen(s) + 1; acc_range(d, n, true); memcpy(d, s, n); return d + n - 1; }
char *sim_strcat(char *d, const char *s) { size_t k = sim_strlen(d); sim_strcpy(d + k, s); return d; }
char *sim_strncpy(char *d, const char *s, size_t n) { size_t k = sim_strnlen(s, n); acc_range(d, n, true); memset(d, 0, n); memcpy(d, s, k); return d; }
char *sim_strdup(const char *s) { size_t n = sim_strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void *sim_memcpy(void *d, const void *s, size_t n) { acc_range(s, n, false); acc_range(d, n, true); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { acc_range(d, n, true); return memset(d, c, n); }
// A numeric conversion reads its text up to the first byte that cannot continue the number.
static std::string num_copy(const char *s, size_t &ext, bool &term) { ext = text_extent(s, term); return std::string(s, term ? ext - 1 : ext); }
static void num_used(const char *s, size_t used, size_t ext, bool term) {
  if (used >= ext && !term) acc((void *)(s + ext), 1, false); // ran off the readable text: reported there
  acc_range(s, std::min(used + 1, ext), false);
}
#define CONV(T, name, real)                                                                    \
  T name(const char *s, char **end) {                                                          \
    size_t ext; bool term; std::string t = num_copy(s, ext, term); char *e; T r = real(t.c_str(), &e); \
    num_used(s, e - t.c_str(), ext, term); if (end) *end = (char *)s + (e - t.c_str()); return r; }
#define CONVB(T, name, real)                                                                   \
  T name(const char *s, char **end, int base) {                                                \
    size_t ext; bool term; std::string t = num_copy(s, ext, term); char *e; T r = real(t.c_str(), &e, base); \
    num_used(s, e - t.c_str(), ext, term); if (end) *end = (char *)s + (e - t.c_str()); return r; }
// The locale of the running task (uselocale): decimal point and character classes. No real locale is needed.
static int loc[MAXTASK]; static int libc_scratch; // state the C library keeps between calls
static const char *point_of() { static const char *pt[] = {".", ",", "\xd9\xab", ","}; int k = loc[threaded && self != MAINTASK ? self : MAINTASK]; if (k) S->cnt[CN_LOCALE_USE]++; return pt[k]; }
static int lockind() { return loc[threaded && self != MAINTASK ? self : MAINTASK]; }
} // extern "C"
namespace rt { void set_locale(int k) { loc[threaded && self != MAINTASK ? self : MAINTASK] = k & 3; } }
template <class T, class F> static T conv_float(const char *s, char **end, F real) {
  size_t ext; bool term; std::string t = num_copy(s, ext, term);
  std::string pt = point_of(); size_t at = std::string::npos;
  if (pt != ".") {
    at = t.find(pt);
    size_t dot = t.find('.'); if (dot != std::string::npos && (at == std::string::npos || dot < at)) { t[dot] = 1; at = std::string::npos; }
    if (at != std::string::npos) { t.replace(at, pt.size(), "."); for (size_t i = at + 1; i < t.size(); i++) if (t[i] == '.') t[i] = 1; }
  }
  char *e; T r = real(t.c_str(), &e); size_t used = e - t.c_str();
  if (at != std::string::npos && used > at) used += pt.size() - 1;
  num_used(s, used, ext, term); if (end) *end = (char *)s + used; return r;
}
extern "C" {
double sim_strtod(const char *s, char **end) { return conv_float<double>(s, end, strtod); }
float sim_strtof(const char *s, char **end) { return conv_float<float>(s, end, strtof); }
long double sim_strtold(const char *s, char **end) { return conv_float<long double>(s, end, strtold); }
#define CTYPE(f, latin)                                                                                     \
  int sim_##f(int c) { tick(1); if (c < -1 && c >= -128) c &= 255; if (lockind() == 1 && c >= 0x80 && c <= 0xff) return (latin) ? 1 : 0; return c >= -1 && c <= 255 ? f(c) : 0; }
#define LETTER (c >= 0xc0 && c != 0xd7 && c != 0xf7)
CTYPE(isalpha, LETTER || c == 0xaa || c == 0xb5 || c == 0xba) CTYPE(isalnum, LETTER || c == 0xaa || c == 0xb5 || c == 0xba) CTYPE(isspace, c == 0xa0) CTYPE(isblank, c == 0xa0) CTYPE(iscntrl, c < 0xa0) CTYPE(isprint, c >= 0xa0)
CTYPE(isgraph, c > 0xa0) CTYPE(ispunct, c > 0xa0 && !LETTER) CTYPE(isupper, c >= 0xc0 && c < 0xdf && c != 0xd7) CTYPE(islower, c >= 0xdf && c != 0xf7) CTYPE(isdigit, 0) CTYPE(isxdigit, 0)
int sim_tolower(int c) { tick(1); int k = lockind(); if (k == 3 && c == 'I') return 'I'; if (k == 1 && c >= 0xc0 && c < 0xdf && c != 0xd7) return c + 32; return tolower(c); }
int sim_toupper(int c) { tick(1); int k = lockind(); if (k == 3 && c == 'i') return 'i'; if (k == 1 && c >= 0xe0 && c < 0xff && c != 0xf7) return c - 32; return toupper(c); }
const unsigned short **sim___ctype_b_loc() { // glibc's isdigit and friends as macros
  static unsigned short tab[4][384]; static const unsigned short *p[4]; int k = lockind();
  if (!p[k]) {
    memcpy(tab[k], *__ctype_b_loc() - 128, sizeof tab[k]);
    if (k == 1) for (int c = 0x80; c < 0x100; c++) { unsigned short m = 0; if (sim_isalpha(c)) m |= _ISalpha; if (sim_isalnum(c)) m |= _ISalnum; if (sim_isspace(c)) m |= _ISspace; if (sim_isblank(c)) m |= _ISblank; if (sim_iscntrl(c)) m |= _IScntrl; if (sim_isprint(c)) m |= _ISprint; if (sim_isgraph(c)) m |= _ISgraph; if (sim_ispunct(c)) m |= _ISpunct; if (sim_isupper(c)) m |= _ISupper; if (sim_islower(c)) m |= _ISlower; tab[k][128 + c] = m; tab[k][c - 128] = m; }
    p[k] = tab[k] + 128;
  }
  tick(1); return &p[k];
}
static const int **case_tab(bool up) {
  static int tab[2][4][384]; static const int *p[2][4]; int k = lockind();
  if (!p[up][k]) { for (int c = -128; c < 256; c++) tab[up][k][128 + c] = up ? sim_toupper(c < -1 ? c & 255 : c) : sim_tolower(c < -1 ? c & 255 : c); p[up][k] = tab[up][k] + 128; }
  tick(1); return &p[up][k];
}
const int **sim___ctype_tolower_loc() { return case_tab(false); }
const int **sim___ctype_toupper_loc() { return case_tab(true); }
int sim_strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { acc_range(a + i, 1, false); acc_range(b + i, 1, false); int d = sim_tolower((unsigned char)a[i]) - sim_tolower((unsigned char)b[i]); if (d || !a[i]) return d; } return 0; }
int sim_strcasecmp(const char *a, const char *b) { return sim_strncasecmp(a, b, (size_t)-1); }
struct lconv *sim_localeconv() { static struct lconv lc[MAXTASK]; acc(&libc_scratch, 4, true); int t = threaded ? self : MAINTASK; lc[t] = *localeconv(); lc[t].decimal_point = (char *)point_of(); return &lc[t]; }
static const char *locname[] = {"C", "de_DE.ISO-8859-1", "ps_AF.UTF-8", "tr_TR.UTF-8"};
static int locnamed(const char *l) { for (int k = 0; k < 4; k++) if (!strcmp(l, locname[k])) return k; return !strcmp(l, "POSIX") ? 0 : *l ? -1 : lockind(); }
static int &myloc() { return loc[threaded && self != MAINTASK ? self : MAINTASK]; }
char *sim_setlocale(int, const char *l) { acc(&libc_scratch, 4, l != 0); if (l) { int k = locnamed(l); if (k < 0) return 0; myloc() = k; } return (char *)locname[lockind()]; }
void *sim_newlocale(int, const char *l, void *) { tick(1); int k = locnamed(l); if (k < 0) return 0; return (void *)(uintptr_t)(0x1000 + k); }
void *sim_uselocale(void *l) { tick(1); void *old = (void *)(uintptr_t)(0x1000 + lockind()); if (l && (uintptr_t)l - 0x1000 < 4) myloc() = (int)((uintptr_t)l - 0x1000); return old; }
void sim_freelocale(void *) { tick(1); }
void *sim_duplocale(void *l) { tick(1); return (uintptr_t)l - 0x1000 < 4 ? l : (void *)(uintptr_t)(0x1000 + lockind()); }
double sim_strtod_l(const char *s, char **end, void *l) { int keep = myloc(); if ((uintptr_t)l - 0x1000 < 4) myloc() = (int)((uintptr_t)l - 0x1000); double d = sim_strtod(s, end); myloc() = keep; return d; }
size_t sim_strspn(const char *s, const char *set) { sim_strlen(set); size_t n = 0; while (true) { acc((void *)(s + n), 1, false); if (!s[n] || !strchr(set, s[n])) return n; n++; } }
size_t sim_strcspn(const char *s, const char *set) { sim_strlen(set); size_t n = 0; while (true) { acc((void *)(s + n), 1, false); if (!s[n] || strchr(set, s[n])) return n; n++; } }
char *sim_strpbrk(const char *s, const char *set) { s += sim_strcspn(s, set); return *s ? (char *)s : 0; }
char *sim_strstr(const char *s, const char *t) { sim_strlen(s); sim_strlen(t); return (char *)strstr(s, t); }
void *sim_memrchr(const void *s, int ch, size_t n) { acc_range(s, n, false); return (void *)memrchr(s, ch, n); }
char *sim_strchrnul(const char *s, int ch) { for (;; s++) { acc((void *)s, 1, false); if (!*s || *s == (char)ch) return (char *)s; } }
void *sim_rawmemchr(const void *s, int ch) { for (const char *p = (const char *)s;; p++) { acc((void *)p, 1, false); if (*p == (char)ch) return (void *)p; } }
void *sim_memccpy(void *d, const void *s, int ch, size_t n) { void *e = sim_memchr(s, ch, n); size_t k = e ? (char *)e - (char *)s + 1 : n; acc_range(d, k, true); memmove(d, s, k); return e ? (char *)d + k : 0; }
void *sim_mempcpy(void *d, const void *s, size_t n) { sim_memcpy(d, s, n); return (char *)d + n; }
char *sim_strndup(const char *s, size_t m) { size_t n = sim_strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *sim_strncat(char *d, const char *s, size_t m) { size_t k = sim_strlen(d), n = sim_strnlen(s, m); acc_range(d + k, n + 1, true); memcpy(d + k, s, n); d[k + n] = 0; return d; }
// collation: outside the C locale, letter case weighs less than the letters
int sim_strcoll(const char *a, const char *b) {
  if (!lockind()) return sim_strcmp(a, b);
  for (size_t i = 0;; i++) { acc((void *)(a + i), 1, false); acc((void *)(b + i), 1, false); int d = sim_tolower((unsigned char)a[i]) - sim_tolower((unsigned char)b[i]); if (d) return d; if (!a[i]) return 0; }
}
size_t sim_strxfrm(char *d, const char *s, size_t n) { size_t k = sim_strlen(s); if (n) { size_t m = std::min(k, n - 1); acc_range(d, m + 1, true); for (size_t i = 0; i < m; i++) d[i] = lockind() ? (char)sim_tolower((unsigned char)s[i]) : s[i]; d[m] = 0; } return k; }
// multi-byte characters: UTF-8 in two of the locales, single bytes in the Latin one, ASCII only in C
static int mb_one(const char *s, size_t n, unsigned *w) {
  if (!n) return -2;
  acc((void *)s, 1, false); unsigned char c = (unsigned char)*s; int k = lockind();
  if (c < 0x80) { *w = c; return c ? 1 : 0; }
  if (k == 1) { *w = c; return 1; }
  if (k == 0) return -1;
  int l = c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0; if (!l) return -1;
  unsigned v = c & (0x7f >> l); for (int i = 1; i < l; i++) { if ((size_t)i >= n) return -2; acc((void *)(s + i), 1, false); if (((unsigned char)s[i] & 0xc0) != 0x80) return -1; v = v << 6 | ((unsigned char)s[i] & 0x3f); }
  *w = v; return l;
}
int sim_mbtowc(wchar_t *pw, const char *s, size_t n) { if (!s) return 0; acc(&libc_scratch, 4, true); unsigned w = 0; int r = mb_one(s, n, &w); if (r >= 0 && pw) *pw = (wchar_t)w; return r < 0 ? -1 : r; }
int sim_mblen(const char *s, size_t n) { if (!s) return 0; acc(&libc_scratch, 4, true); unsigned w; int r = mb_one(s, n, &w); return r < 0 ? -1 : r; }
size_t sim_mbrtowc(wchar_t *pw, const char *s, size_t n, void *) { if (!s) return 0; unsigned w = 0; int r = mb_one(s, n, &w); if (r >= 0 && pw) *pw = (wchar_t)w; return (size_t)r; }
size_t sim_mbrlen(const char *s, size_t n, void *) { unsigned w; return s ? (size_t)mb_one(s, n, &w) : 0; }
unsigned sim_btowc(int c) { return c >= 0 && (c < 0x80 || lockind() == 1) ? (unsigned)c : (unsigned)-1; }
size_t sim___ctype_get_mb_cur_max() { return lockind() >= 2 ? 6 : 1; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); } // blocks are 16-byte aligned
int sim_posix_memalign(void **p, size_t, size_t n) { void *q = sim_malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
void *sim_reallocarray(void *q, size_t a, size_t b) { size_t n = a * b; if (b && n / b != a) { errno = ENOMEM; return 0; } return sim_realloc(q, n); }
char *sim_strtok_r(char *s, const char *d, char **st) { if (s) { size_t n = sim_strlen(s) + 1; acc_range(s, n, true); } else if (*st) { size_t n = sim_strlen(*st) + 1; acc_range(*st, n, true); } return strtok_r(s, d, st); }
char *sim_nl_langinfo(int item) { return item == RADIXCHAR ? (char *)point_of() : (char *)nl_langinfo(item); }
// functions of the C library that keep state without a lock: a call is a write to that state
char *sim_strtok(char *s, const char *d) { acc(&libc_scratch, 4, true); return strtok(s, d); }
int sim_rand() { acc(&libc_scratch, 4, true); static uint32_t x = 1; x = x * 1103515245u + 12345; return x >> 16 & 0x7fff; }
void sim_srand(unsigned) { acc(&libc_scratch, 4, true); }
char *sim_strerror(int e) { acc(&libc_scratch, 4, true); return strerror(e); }
CONVB(long, sim_strtol, strtol)
CONVB(long long, sim_strtoll, strtoll)
CONVB(unsigned long, sim_strtoul, strtoul)
CONVB(unsigned long long, sim_strtoull, strtoull)
int sim_atoi(const char *s) { return (int)sim_strtol(s, 0, 10); }
long sim_atol(const char *s) { return sim_strtol(s, 0, 10); }
long long sim_atoll(const char *s) { return sim_strtoll(s, 0, 10); }
double sim_atof(const char *s) { return sim_strtod(s, 0); }
int sim_vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  char tmp[4096]; const char *pt = point_of(); int r;
  if (!strcmp(pt, ".")) r = vsnprintf(tmp, sizeof tmp, f, ap);
  else { // directive by directive: only floating-point output uses the decimal point
    std::string o;
    while (*f) {
      if (*f != '%') { o += *f++; continue; }
      if (f[1] == '%') { o += '%'; f += 2; continue; }
      std::string d(1, *f++); while (*f && !strchr("diouxXeEfFgGaAcspn", *f)) d += *f++;
      if (!*f) break;
      char cv = *f++; d += cv; char b[2048]; b[0] = 0;
      vsnprintf(b, sizeof b, d.c_str(), ap); // advances ap (an array type here)
      std::string x = b;
      if (strchr("eEfFgGaA", cv)) { size_t k = x.find('.'); if (k != std::string::npos) x.replace(k, 1, pt); }
      if (d.find('\'') != std::string::npos && strchr("diufFgG", cv)) { // the grouping flag: thousands apart
        size_t a = x.find_first_of("0123456789"), z = a; if (a != std::string::npos) { while (z < x.size() && isdigit((unsigned char)x[z])) z++; for (size_t k = z; k > a + 3;) x.insert(k -= 3, "."); }
      }
      o += x;
    }
    r = (int)o.size(); memcpy(tmp, o.c_str(), std::min(o.size() + 1, sizeof tmp)); tmp[sizeof tmp - 1] = 0;
  }
  if (n && r >= 0) { size_t k = std::min((size_t)r, n - 1); k = std::min(k, sizeof tmp - 1); acc_range(b, k + 1, true); memcpy(b, tmp, k); b[k] = 0; }
  return r;
}
int sim_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sim_vsprintf(char *b, const char *f, va_list ap) { return sim_vsnprintf(b, 1u << 30, f, ap); }
int sim_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int sim_sscanf(const char *s, const char *f, ...) {
  sim_strlen(s); std::string t = s, pt = point_of();
  if (pt != "." && !strstr(f, "%n")) { bool fl = false; for (const char *q = f; (q = strchr(q, '%')); q++) fl |= strpbrk(q, "aefgAEFG") != 0; if (fl) { for (auto &c : t) if (c == '.') c = 1; for (size_t k; (k = t.find(pt)) != std::string::npos;) t.replace(k, pt.size(), "."); s = t.c_str(); } }
  va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }

// locks and once-initialisation
int sim_mutex_lock(void *m) { tick(1); mutex_lock(m); return 0; }
int sim_mutex_trylock(void *m) { tick(1); if (threaded) { SyncVar &v = sync_of((uintptr_t)m); if (v.holder >= 0 && v.holder != self) return EBUSY; } mutex_lock(m); return 0; }
int sim_mutex_unlock(void *m) { tick(1); mutex_unlock(m); return 0; }
int sim_mutex_init(void *, void *) { return 0; }
int sim_mutex_destroy(void *) { return 0; }
int sim_once(void *o, void (*f)(void)) {
  mutex_lock(o);
  if (*(int *)o != 2) { f(); *(int *)o = 2; }
  mutex_unlock(o);
  return 0;
}
int sim_guard_acquire(char *g) {
  if (threaded) { mutex_lock(g); if (*g) { mutex_unlock(g); return 0; } return 1; }
  return !*g;
}
void sim_guard_release(char *g) { *g = 1; mutex_unlock(g); }
void sim_guard_abort(char *g) { mutex_unlock(g); }
int sim_sched_yield(void) { tick(1); if (threaded && self != MAINTASK) { int t = pick_other(); if (t >= 0) switch_to(t); } return 0; }

// ---------------------------------------------------------------- compiler instrumentation
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { acc(p, n, false); }                           \
  void __tsan_write##n(void *p) { acc(p, n, true); }                           \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false); }                 \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, true); }                 \
  void __tsan_read_write##n(void *p) { acc(p, n, true); }                      \
  void __tsan_unaligned_read_write##n(void *p) { acc(p, n, true); }            \
  void __tsan_volatile_read##n(void *p) { acc(p, n, false); }                  \
  void __tsan_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc_range(p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc_range(p, n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return sim_memset(d, c, n); }
static void atomic_point(void *p, size_t n, bool w) {
  tick(1); S->cnt[CN_ATOMIC]++;
  access_range((uintptr_t)p, n, w);
  if (threaded && self != MAINTASK) {
    Task &t = task[self];
    uint64_t s = ++t.steps, g = ++t.globals;
    point(pts[self].a, pts[self].ia, s, CN_COUNT);
    point(pts[self].g, pts[self].ig, g, CN_PREEMPT_GLOBAL);
    if (++t.spin % 64 == 0) { int u = pick_other(); if (u >= 0) switch_to(u); } // let whoever a spin loop waits for run
  }
}
static void atomic_acq(void *p) { if (threaded && self != MAINTASK) acquire(sync_of((uintptr_t)p)); }
static void atomic_rel(void *p) { if (threaded && self != MAINTASK) release(sync_of((uintptr_t)p)); }
#define AT(bits, T)                                                                                                     \
  T __tsan_atomic##bits##_load(const volatile T *p, int mo) { atomic_point((void *)p, sizeof(T), false); T v = *p; if (mo != 0) atomic_acq((void *)p); return v; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { atomic_point((void *)p, sizeof(T), true); if (mo != 0) atomic_rel((void *)p); *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { atomic_point((void *)p, sizeof(T), true); T o = *p; if (mo) { atomic_acq((void *)p); atomic_rel((void *)p); } *p = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { atomic_point((void *)p, sizeof(T), true); T o = *p; if (mo) { atomic_acq((void *)p); atomic_rel((void *)p); } *p = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { atomic_point((void *)p, sizeof(T), true); T o = *p; if (mo) { atomic_acq((void *)p); atomic_rel((void *)p); } *p = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { atomic_point((void *)p, sizeof(T), true); T o = *p; if (mo) { atomic_acq((void *)p); atomic_rel((void *)p); } *p = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { atomic_point((void *)p, sizeof(T), true); T o = *p; if (mo) { atomic_acq((void *)p); atomic_rel((void *)p); } *p = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { atomic_point((void *)p, sizeof(T), true); T o = *p; if (mo) { atomic_acq((void *)p); atomic_rel((void *)p); } *p = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { atomic_point((void *)p, sizeof(T), true); T o = *p; if (mo) atomic_acq((void *)p); if (o == *e) { if (mo) atomic_rel((void *)p); *p = v; return 1; } *e = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int f) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, f); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { tick(1); }
void __tsan_atomic_signal_fence(int) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  static uint32_t next = 1;
  if (a == b || *a) return;
  for (uint32_t *p = a; p < b; p++) *p = next < COVMAX - 1 ? next++ : COVMAX - 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { tick(1); stack_check(); S->cov[*g] = 1; }
} // extern C

namespace rt {
char *buf_new(size_t n, const void *data, size_t before, size_t after) {
  int t = self;
  uintptr_t p = cbump[t] + 16 + before;
  cbump[t] = p + n + after + 48;
  if (cbump[t] > CALL + CALLSLICE * (t + 1)) { fprintf(stderr, "caller region exhausted\n"); _exit(3); }
  static const char junk[] = "9a\"}],{[1.e\\u7 :true";
  for (uintptr_t q = p - before - 16; q < p + n + after + 16; q++) *(char *)q = junk[(q * 7) % (sizeof junk - 1)];
  memcpy((void *)p, data, n);
  return (char *)p;
}
void buf_grant(const char *p, size_t n) { memset(csh((uintptr_t)p), 1, n); }
void buf_revoke(const char *p, size_t n) { memset(csh((uintptr_t)p), 2, n); }
void buf_put(char *p, const void *d, size_t n) { memcpy(p, d, n); }
} // namespace rt
