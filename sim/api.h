/* Uniform call table over every flavour of the zzzJSON API. One table per (flavour, memory configuration). */
#ifndef SIM_API_H
#define SIM_API_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define API_S(X) X(Stringify) X(GetStr) X(GetUnEscapeStr) X(GetNumStr) X(GetKey) X(GetUnEscapeKey)
#define API_SL(X) X(GetStrFast) X(GetNumFast) X(GetKeyFast)
#define API_H(X) X(Begin) X(Next) X(Copy)
#define API_V(X) X(SetNull) X(SetArray) X(SetObj)
#define API_B(X) X(IsNull) X(Move)
#define API_BS(X)                                                                                            \
  X(ParseFast) X(Parse) X(SetNumStrFast) X(SetNumStr) X(SetStrFast) X(SetStr) X(SetStrEscape) X(SetKeyFast)  \
  X(SetKey) X(SetKeyEscape) X(ObjDel)
#define API_BSL(X)                                                                                           \
  X(ParseLen) X(SetNumStrLenFast) X(SetNumStrLen) X(SetStrLenFast) X(SetStrLen) X(SetStrLenEscape)           \
  X(SetKeyLenFast) X(SetKeyLen) X(SetKeyLenEscape)
#define API_BV(X) X(SetFast) X(Set) X(ObjAddFast) X(ObjAdd) X(ArrayAddFast) X(ArrayAdd)

typedef struct ZApi {
  const char *name;    /* flavour-knob */
  const char *flavour; /* c short cpp hpp */
  const char *knob;
  unsigned size_bytes, delta;
  unsigned long init, strinit;
  void *(*NewAllocator)(void);
  void (*ReleaseAllocator)(void *);
  void *(*NewValue)(void *);
#define X(n) const char *(*n)(void *);
  API_S(X)
#undef X
#define X(n) const char *(*n)(void *, size_t *);
  API_SL(X)
#undef X
#define X(n) void *(*n)(void *);
  API_H(X)
#undef X
#define X(n) void (*n)(void *);
  API_V(X)
#undef X
#define X(n) int (*n)(void *);
  API_B(X)
#undef X
#define X(n) int (*n)(void *, const char *);
  API_BS(X)
#undef X
#define X(n) int (*n)(void *, const char *, size_t);
  API_BSL(X)
#undef X
#define X(n) int (*n)(void *, void *);
  API_BV(X)
#undef X
  const double *(*GetNum)(void *);
  const double *(*GetDouble)(void *);
  const int *(*GetInt)(void *);
  const long *(*GetLong)(void *);
  const long long *(*GetLongLong)(void *);
  const void *(*GetBool)(void *, int *); /* returns the pointer, stores its value */
  int (*Type)(void *);                   /* 0 when there is none */
  const void *(*TypePtr)(void *);
  size_t (*SizeOf)(void *);
  void *(*ObjGet)(void *, const char *);
  void *(*ObjGetLen)(void *, const char *, size_t);
  void *(*ArrayGet)(void *, size_t);
  void (*SetBool)(void *, int);
  int (*SetNum)(void *, double);
  int (*SetDouble)(void *, double);
  int (*SetInt)(void *, int);
  int (*SetLong)(void *, long);
  int (*SetLongLong)(void *, long long);
  int (*ArrayDel)(void *, size_t);
} ZApi;

/* the memory seam the subjects are linked against (see build.py: malloc/free are redirected) */
void *sim_malloc(size_t n);
void *sim_hook_new(size_t n); /* custom memory hooks (zj_MEMORY_MODE 3) over a pool of their own */
void sim_hook_free(void *p);
void sim_free(void *p);
/* caller-owned storage for C++ allocator objects */
void *sim_caller_new(size_t n);
void sim_caller_delete(void *p);
#ifdef __cplusplus
}
#endif
#endif
