/* C flavours: long names (SUBJ_LONG) or short names. Only the public API is used. */
#include "api.h"
#include <stdbool.h>
#ifdef SUBJ_MODE3 /* the documented custom memory mode: the user supplies both functions */
#define zj_MEMORY_MODE 3
static inline void *zj_new(size_t size) { return sim_hook_new(size); }
static inline void zj_free(void *pointer) { sim_hook_free(pointer); }
#endif
#ifdef SUBJ_LONG
#define zj_API_MODE 0
#endif
#include REPO_H
#ifdef SUBJ_LONG
#define F(n) zj_##n
#define VAL zj_Value
#define ALC zj_Allocator
#else
#define F(n) n
#define VAL Value
#define ALC Allocator
#endif
#define ZSIZE zj_Size
static void *a_NewAllocator(void) { return F(NewAllocator)(); }
static void a_ReleaseAllocator(void *a) { F(ReleaseAllocator)((ALC *)a); }
static void *a_NewValue(void *a) { return F(NewValue)((ALC *)a); }
#define X(n) static const char *a_##n(void *v) { return F(n)((VAL *)v); }
API_S(X)
#undef X
#define X(n) static const char *a_##n(void *v, size_t *l) { ZSIZE t = 0; const char *r = F(n)((VAL *)v, &t); *l = t; return r; }
API_SL(X)
#undef X
#define X(n) static void *a_##n(void *v) { return F(n)((VAL *)v); }
API_H(X)
#undef X
#define X(n) static void a_##n(void *v) { F(n)((VAL *)v); }
API_V(X)
#undef X
#define X(n) static int a_##n(void *v) { return F(n)((VAL *)v); }
API_B(X)
#undef X
#define X(n) static int a_##n(void *v, const char *s) { return F(n)((VAL *)v, s); }
API_BS(X)
#undef X
#define X(n) static int a_##n(void *v, const char *s, size_t l) { return F(n)((VAL *)v, s, (ZSIZE)l); }
API_BSL(X)
#undef X
#define X(n) static int a_##n(void *v, void *w) { return F(n)((VAL *)v, (VAL *)w); }
API_BV(X)
#undef X
static const double *a_GetNum(void *v) { return F(GetNum)((VAL *)v); }
static const double *a_GetDouble(void *v) { return F(GetDouble)((VAL *)v); }
static const int *a_GetInt(void *v) { return F(GetInt)((VAL *)v); }
static const long *a_GetLong(void *v) { return F(GetLong)((VAL *)v); }
static const long long *a_GetLongLong(void *v) { return F(GetLongLong)((VAL *)v); }
static const void *a_GetBool(void *v, int *o) { const bool *b = F(GetBool)((VAL *)v); if (b) *o = *b; return b; }
#ifdef SUBJ_LONG
static int a_Type(void *v) { const zj_JSONType *t = zj_Type((VAL *)v); return t ? (int)*t : 0; }
static const void *a_TypePtr(void *v) { return zj_Type((VAL *)v); }
#else
static int a_Type(void *v) { const JSONType *t = Type((VAL *)v); return t ? (int)*t : 0; }
static const void *a_TypePtr(void *v) { return Type((VAL *)v); }
#endif
static size_t a_SizeOf(void *v) { return F(SizeOf)((VAL *)v); }
static void *a_ObjGet(void *v, const char *k) { return F(ObjGet)((VAL *)v, k); }
static void *a_ObjGetLen(void *v, const char *k, size_t l) { return F(ObjGetLen)((VAL *)v, k, (ZSIZE)l); }
static void *a_ArrayGet(void *v, size_t i) { return F(ArrayGet)((VAL *)v, (ZSIZE)i); }
static void a_SetBool(void *v, int b) { F(SetBool)((VAL *)v, b != 0); }
static int a_SetNum(void *v, double d) { return F(SetNum)((VAL *)v, d); }
static int a_SetDouble(void *v, double d) { return F(SetDouble)((VAL *)v, d); }
static int a_SetInt(void *v, int d) { return F(SetInt)((VAL *)v, d); }
static int a_SetLong(void *v, long d) { return F(SetLong)((VAL *)v, d); }
static int a_SetLongLong(void *v, long long d) { return F(SetLongLong)((VAL *)v, d); }
static int a_ArrayDel(void *v, size_t i) { return F(ArrayDel)((VAL *)v, (ZSIZE)i); }
#include "subject_table.inc"
