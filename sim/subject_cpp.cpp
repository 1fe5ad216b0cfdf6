// C++ flavours: member functions of zj::Value with a constructed zj::Allocator, or the wrapper classes (SUBJ_HPP).
#include "api.h"
#include <new>
#ifdef SUBJ_MODE3 // the documented custom memory mode: the user supplies both functions
#define zj_MEMORY_MODE 3
static inline void *zj_new(size_t size) { return sim_hook_new(size); }
static inline void zj_free(void *pointer) { sim_hook_free(pointer); }
#endif
#ifdef SUBJ_HPP
#include REPO_HPP
typedef zzzjson::Value VAL;
typedef zzzjson::Allocator ALC;
typedef zzzjson::SIZE ZSIZE;
#else
#include REPO_H
typedef zj::Value VAL;
typedef zj::Allocator ALC;
typedef zj::Size ZSIZE;
#endif
extern "C" {
// A constructor cannot report that its block request failed; the first value created on the allocator can.
static void *a_NewAllocator(void) {
  void *m = sim_caller_new(sizeof(ALC));
  ALC *a = new (m) ALC();
  if (VAL::NewValue(a) == 0) {
    a->~ALC();
    sim_caller_delete(m);
    return 0;
  }
  return a;
}
static void a_ReleaseAllocator(void *p) {
  ALC *a = (ALC *)p;
  a->~ALC();
  sim_caller_delete(p);
}
static void *a_NewValue(void *a) { return VAL::NewValue((ALC *)a); }
#define X(n) static const char *a_##n(void *v) { return ((VAL *)v)->n(); }
API_S(X)
#undef X
#define X(n) static const char *a_##n(void *v, size_t *l) { ZSIZE t = 0; const char *r = ((VAL *)v)->n(&t); *l = t; return r; }
API_SL(X)
#undef X
#define X(n) static void *a_##n(void *v) { return ((VAL *)v)->n(); }
API_H(X)
#undef X
#define X(n) static void a_##n(void *v) { ((VAL *)v)->n(); }
API_V(X)
#undef X
#define X(n) static int a_##n(void *v) { return ((VAL *)v)->n(); }
API_B(X)
#undef X
#define X(n) static int a_##n(void *v, const char *s) { return ((VAL *)v)->n(s); }
API_BS(X)
#undef X
#define X(n) static int a_##n(void *v, const char *s, size_t l) { return ((VAL *)v)->n(s, (ZSIZE)l); }
API_BSL(X)
#undef X
#define X(n) static int a_##n(void *v, void *w) { return ((VAL *)v)->n((VAL *)w); }
API_BV(X)
#undef X
static const double *a_GetNum(void *v) { return ((VAL *)v)->GetNum(); }
static const double *a_GetDouble(void *v) { return ((VAL *)v)->GetDouble(); }
static const int *a_GetInt(void *v) { return ((VAL *)v)->GetInt(); }
static const long *a_GetLong(void *v) { return ((VAL *)v)->GetLong(); }
static const long long *a_GetLongLong(void *v) { return ((VAL *)v)->GetLongLong(); }
static const void *a_GetBool(void *v, int *o) { const bool *b = ((VAL *)v)->GetBool(); if (b) *o = *b; return b; }
static int a_Type(void *v) { auto t = ((VAL *)v)->Type(); return t ? (int)*t : 0; }
static const void *a_TypePtr(void *v) { return ((VAL *)v)->Type(); }
#ifdef SUBJ_HPP
static size_t a_SizeOf(void *v) { return ((VAL *)v)->Size(); }
#else
static size_t a_SizeOf(void *v) { return ((VAL *)v)->SizeOf(); }
#endif
static void *a_ObjGet(void *v, const char *k) { return ((VAL *)v)->ObjGet(k); }
static void *a_ObjGetLen(void *v, const char *k, size_t l) { return (void *)((VAL *)v)->ObjGetLen(k, (ZSIZE)l); }
static void *a_ArrayGet(void *v, size_t i) { return ((VAL *)v)->ArrayGet((ZSIZE)i); }
static void a_SetBool(void *v, int b) { ((VAL *)v)->SetBool(b != 0); }
static int a_SetNum(void *v, double d) { return ((VAL *)v)->SetNum(d); }
static int a_SetDouble(void *v, double d) { return ((VAL *)v)->SetDouble(d); }
static int a_SetInt(void *v, int d) { return ((VAL *)v)->SetInt(d); }
static int a_SetLong(void *v, long d) { return ((VAL *)v)->SetLong(d); }
static int a_SetLongLong(void *v, long long d) { return ((VAL *)v)->SetLongLong(d); }
static int a_ArrayDel(void *v, size_t i) { return ((VAL *)v)->ArrayDel((ZSIZE)i); }
#include "subject_table.inc"
}
