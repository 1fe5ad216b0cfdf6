// A plan is one fully explicit simulated run: configuration, operations, texts, faults, schedule.
#pragma once
#include "api.h"
#include "json.h"
#include "rt.h"
#include <map>
#include <string>
#include <vector>

#define FN_SPECIAL(X)                                                                                               \
  X(NewAllocator) X(ReleaseAllocator) X(NewValue) X(GetNum) X(GetDouble) X(GetInt) X(GetLong) X(GetLongLong)        \
  X(GetBool) X(Type) X(SizeOf) X(ObjGet) X(ObjGetLen) X(ArrayGet) X(SetBool) X(SetNum) X(SetDouble) X(SetInt)       \
  X(SetLong) X(SetLongLong) X(ArrayDel) X(DropText) X(Locale) X(Fill) X(Down)
enum Fn {
#define X(n) F_##n,
  API_S(X) API_SL(X) API_H(X) API_V(X) API_B(X) API_BS(X) API_BSL(X) API_BV(X) FN_SPECIAL(X)
#undef X
  F_COUNT
};
extern const char *const fn_names[F_COUNT + 1];
enum FnGroup { G_S, G_SL, G_H, G_V, G_B, G_BS, G_BSL, G_BV, G_X };
extern const FnGroup fn_groups[F_COUNT + 1];
bool fn_has_text(Fn f);
bool fn_has_len(Fn f);
bool fn_borrows(Fn f);
bool fn_mutates(Fn f);
bool fn_is_parse(Fn f);
bool fn_is_key(Fn f);   // Set*Key*
bool fn_makes_handle(Fn f);

enum { T_SETUP = 9, T_AFTER = 8 };

struct Op {
  int uid = 0;
  int task = T_SETUP;
  Fn fn = F_COUNT;
  int a = -1;        // uid of the NewAllocator operation
  int h = -1, h2 = -1; // uids of the operations that produced the handles
  std::string text;
  bool hasorig = false; std::string orig; // the undamaged text
  int shared = -1;   // shared caller text id (same buffer for all operations naming it)
  int alias = -1, aoff = 0; // the text lies in what an earlier operation passed or got back, from this offset on
  int before = 0, after = 0; // readable-looking but forbidden bytes around the text
  long long i = 0; double d = 0; size_t idx = 0;
  int fk = 0, fn_ = 0; bool retry = true; // refuse requests fk..fk+fn_-1
  int obs = 0;       // how the state is read back after this operation
  int scrub = -1, scrubmode = 0; // caller takes its text back after this many further operations
};
struct Plan {
  std::string prop, subject = "c-def";
  uint64_t seed = 0;
  HeapEnv env;
  int ntasks = 0, first = 0;
  unsigned checks = 0;
  bool big = false;
  std::vector<rt::SchedPoint> sched;
  std::vector<Op> ops;
};
enum Checks { // which oracles stop the run (crashes, hangs and data races always do)
  CK_MODEL = 1,   // results and contents against the tree model
  CK_PTR = 2,     // returned pointers keep their content; handles agree with navigation
  CK_SELF = 4,    // serialised text: valid, agrees with readers, parses back
  CK_LEDGER = 8,  // leaks, growth
  CK_X = 16,      // contents of other allocators' documents only
  CK_MEM = 32,    // heap accesses outside live blocks, wrong frees
  CK_BUF = 64,    // accesses to caller text outside what was passed, writes to it
  CK_GROW = 128,  // block growth and memory taken
  CK_STACK = 256  // stack used by a call
};
std::string plan_to_text(const Plan &);
bool plan_from_text(const std::string &, Plan &);
std::string op_to_text(const Op &);
