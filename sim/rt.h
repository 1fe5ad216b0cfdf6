// The simulated environment: heap, caller buffers, step clock, thread scheduler, access checker.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

enum { MAXOPS = 2048, MAXTASK = 5, MAINTASK = 4, COVMAX = 1 << 16 };

enum Counter {
  CN_REQ,         // block requests seen
  CN_REQ_FAILED,  // block requests the simulator refused
  CN_REQ_LIMIT,   // refused because the simulated machine is out of memory
  CN_OOM_OPS,     // calls during which at least one request was refused
  CN_OOM_FAILREP, // ... and the call reported failure
  CN_OOM_RETRY,   // ... retried successfully
  CN_OOM_MID,     // refused request was not the first of its call
  CN_OOM_BURST,   // several refused in one call
  CN_DMG_OPS, CN_DMG_REJ, CN_DMG_ACC,
  CN_SCRUB_FREED, CN_SCRUB_OVER, CN_SCRUB_BORROW,
  CN_ALIAS, CN_RELEASE, CN_RELEASE_EARLY, // with other allocators still live
  CN_PREEMPT, CN_PREEMPT_IN_CALL, CN_PREEMPT_MALLOC, CN_PREEMPT_GLOBAL,
  CN_HEAP_REUSE, CN_DIRTY_BYTES,
  CN_OPS, CN_SKIPPED, CN_CALLS, CN_STEPS, CN_OBS, CN_PTRS, CN_SIZE_EXHAUSTED,
  CN_XCOPY,       // copies between documents of different allocators
  CN_REJECTED,    // calls that reported failure in accordance with the model
  CN_BIGOP, CN_MUTEX, CN_ATOMIC, CN_GLOBAL_ACC, CN_REPARSE, CN_LOCALE, CN_LOCALE_USE,
  CN_COUNT
};
extern const char *const counter_names[CN_COUNT];

struct Shared { // result of one simulated run, shared between the run's process and the judge
  int done; // 1: finished, 2: violation
  char cls[24];
  char detail[1600];
  int op; // index in the plan
  int inlib;
  int inser; // inside the serialiser or the reparse of its output
  uint32_t nops;
  uint64_t maxreq; // largest block asked for
  uint64_t maxstack, maxratio, maxmem; // deepest stack of a call (bytes); most steps per 1000 bytes involved
  uint64_t loghash;
  uint64_t tracehash; // schedule actually taken
  uint64_t cnt[CN_COUNT];
  uint64_t tsteps[MAXTASK], tmallocs[MAXTASK], tglobals[MAXTASK], tops[MAXTASK];
  uint16_t reqs[MAXOPS];
  uint16_t fired[MAXOPS];
  uint64_t oplog[MAXOPS];
  uint64_t ostate[MAXOPS];
  uint8_t cov[COVMAX];
};
extern Shared *S;

struct HeapEnv {
  uint64_t seed = 1;
  int fill = 0;  // 0 zero 1 0xff 2 digits 3 random 4 quotes/braces 5 small pointers
  int reuse = 0; // 0 quarantine, 1 reuse freed memory
  int gap = 1;   // placement gaps
};

[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

struct Block {
  uintptr_t p; size_t n; bool live; int task; int owner; int op; uint64_t serial; int callid; int kind;
};

namespace rt {
void init_once();                 // map regions, install handlers (before forking)
void begin_run(const HeapEnv &e); // in the forked child
extern thread_local int self;     // current task
extern bool threaded;
extern bool memfatal, buffatal;    // do memory / caller-text access errors end the run?
// one library call
extern size_t stacklimit;         // bytes of stack a library call may use
void enter_call(int op_index, uint64_t budget, size_t weight = 0);
void leave_call();
extern int releasing[MAXTASK]; // allocator uid being released by the current call, or -1
extern int cur_owner[MAXTASK]; // allocator uid charged with blocks requested now
// faults: refuse requests k..k+n-1 of the call (k from 1; 0 = none)
void set_fault(int k, int n);
int fault_fired();
int call_requests();
size_t size_limit_hit(); // bytes of the request beyond the simulated machine's memory, or 0
void set_locale(int k); // of the calling task: 0 C, 1 decimal comma and Latin-1, 2 multi-byte decimal point, 3 decimal comma and Turkish case rules
// heap ledger
std::vector<Block> &blocks();
bool heap_readable(const void *p, size_t n);
bool in_heap(const void *p);
int block_index(const void *p); // block containing p, or -1
// caller memory
char *buf_new(size_t n, const void *data, size_t slack_before, size_t slack_after); // not readable yet
void buf_grant(const char *p, size_t n);
void buf_revoke(const char *p, size_t n);
void buf_put(char *p, const void *data, size_t n);
bool in_caller(const void *p);
bool caller_readable(const void *p, size_t n);
bool in_image(const void *p);
bool readable(const void *p, size_t n);
std::string cstr(const char *p, const char *what); // checked read of a returned C string
std::string bytes(const char *p, size_t n, const char *what);
// scheduler
struct SchedPoint { int task; char kind; uint64_t n; int target; };
void run_tasks(int ntasks, int first, const std::vector<SchedPoint> &pts, void (*body)(int));
void op_point(); // an operation boundary of the current task
uint64_t trace_hash();
extern uint64_t total_steps;
} // namespace rt
