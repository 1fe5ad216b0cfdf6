// Executes a plan against the real library, inside the simulated environment, next to the reference model.
#include "exec.h"
#include "world.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <set>
#include <unistd.h>

const ZApi *find_subject(const std::string &n) {
  for (int i = 0; all_subjects[i]; i++) if (n == all_subjects[i]->name) return all_subjects[i];
  return nullptr;
}
namespace {
const Plan *P; const ZApi *Z; World W;
bool diverged; // the library left the model in a way this property does not judge
char divcls[24];
struct Buf { char *p; size_t n; bool live; int alloc; bool borrow; int mode; bool wantscrub; };
std::map<int, Buf> bufs;       // by operation uid
std::map<int, Buf> sharedbufs; // by shared id
struct Ptr { const char *p; std::string content; int alloc; int op; const char *fn; };
std::vector<Ptr> ptrs;
struct Pending { int at; int uid; };
std::vector<Pending> pending;
int executed;
struct Led { size_t k = 0, bytes = 0; bool capped = false; };

void logs(int idx, const std::string &s) {
  uint64_t h = S->oplog[idx] ? S->oplog[idx] : 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  S->oplog[idx] = (h ^ 0x1ff) * 1099511628211ull;
}
std::string clip(const std::string &s) {
  std::string o; char b[8];
  for (size_t i = 0; i < s.size() && i < 160; i++) { unsigned char c = s[i]; if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; }
  if (s.size() > 160) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}
// two texts that differ: show the part around the first difference
std::string around(const std::string &a, const std::string &b, const std::string &s) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return clip(i > 60 ? "..." + s.substr(std::min(s.size(), i - 50)) : s);
}
unsigned need(const char *cls) {
  if (!strcmp(cls, "result") || !strcmp(cls, "state")) return CK_MODEL;
  if (!strcmp(cls, "xstate")) return CK_MODEL | CK_X;
  if (!strcmp(cls, "ptr") || !strcmp(cls, "handle")) return CK_PTR;
  if (!strcmp(cls, "selfjson")) return CK_SELF;
  return ~0u;
}
void mismatch(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void mismatch(const char *cls, const char *fmt, ...) {
  char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (P->checks & need(cls)) violation(cls, "%s", b);
  if (!diverged) { diverged = true; snprintf(divcls, sizeof divcls, "%s", cls); }
}

size_t op_weight(const Op &o) {
  size_t w = o.text.size() + 200;
  for (int u : {o.h, o.h2}) if (Handle *h = W.handle(u)) { if (h->n) w += W.weight(World::root(h->n)); }
  return w;
}
// Bytes of memory a call has a use for: the content it stores or returns, and about 80 bytes for each node.
size_t text_weight(const Node *n) { size_t c = 6 + n->raw.size() + n->key.size(); for (auto *k : n->kids) c += text_weight(k); return c; }
size_t mem_weight(const Op &o) {
  switch (o.fn) {
  case F_Type: case F_SizeOf: case F_GetBool: case F_IsNull: case F_GetStrFast: case F_GetNumFast: case F_GetKeyFast: case F_Move: return 0;
  case F_ObjGet: case F_ObjGetLen: case F_ArrayGet: case F_Begin: case F_Next: case F_NewValue: case F_ObjDel: case F_ArrayDel: return 100;
  default: break;
  }
  size_t w = 200 + o.text.size() * (o.fn == F_SetStrEscape || o.fn == F_SetStrLenEscape || o.fn == F_SetKeyEscape || o.fn == F_SetKeyLenEscape ? 6 : 1);
  if (fn_is_parse(o.fn)) for (char c : o.text) if (c == '[' || c == '{' || c == ',') w += 80;
  Handle *h = W.handle(o.h), *h2 = W.handle(o.h2);
  if (h && h->n) w += o.fn == F_Stringify ? Z->strinit + 2 * text_weight(h->n) : o.fn == F_Copy ? W.weight(h->n) : h->n->raw.size() + h->n->key.size();
  if (h2 && h2->n) w += W.weight(h2->n);
  return w;
}
uint64_t budget(size_t w) { return 80000 + 80ull * w + 80ull * std::min<size_t>(w, 50000); } // work proportional to what is involved; the library needs under 60 steps a byte, 36 on large inputs
std::map<int, double> ledw; // by allocator: the sizes for which the calls made on it may need memory
void check_growth(int idx, int a, size_t asked = 0);

struct Guard { // one library call that is not under fault injection
  int idx_, owner_;
  Guard(int idx, size_t w, int owner, size_t m = 100) : idx_(idx), owner_(owner) { ledw[owner] += m; rt::cur_owner[rt::self] = owner; rt::enter_call(idx, budget(w), w); }
  ~Guard() { rt::leave_call(); if (rt::size_limit_hit()) { check_growth(idx_, owner_, rt::size_limit_hit()); snprintf(S->cls, sizeof S->cls, "limit"); S->done = 1; _exit(0); } }
};

// ------------------------------------------------------------------ reading a value back through the library
std::string walk(int idx, void *h, int owner, size_t w, int mode, const Node *m, size_t &left) {
  // mode 0: Begin/Next and the non-allocating readers; mode 1: index and key lookup and the copying readers
  if (left == 0) return "(more elements than possible)";
  left--;
  int t; { Guard g(idx, w, owner, 0); t = Z->Type(h); }
  size_t len; const char *p; int bv = -1; const void *bp; int isnull; size_t size;
  { Guard g(idx, w, owner, 0); bp = Z->GetBool(h, &bv); }
  { Guard g(idx, w, owner, 0); isnull = Z->IsNull(h); }
  { Guard g(idx, w, owner, 0); size = Z->SizeOf(h); }
  if ((bp != 0) != (t == 1)) return "(GetBool disagrees with Type)";
  if ((isnull != 0) != (t == 5)) return "(IsNull disagrees with Type)";
  if (t != 2 && t != 3 && size) return "(size of a non-container)";
  const char *sp, *np; size_t sl = 0, nl = 0;
  { Guard g(idx, w, owner, 0); sp = Z->GetStrFast(h, &sl); }
  { Guard g(idx, w, owner, 0); np = Z->GetNumFast(h, &nl); }
  if ((sp != 0) != (t == 4)) return "(GetStrFast disagrees with Type)";
  if ((np != 0) != (t == 6)) return "(GetNumFast disagrees with Type)";
  switch (t) {
  case 0: return "(empty)";
  case 1: return bv ? "true" : "false";
  case 5: return "null";
  case 4: case 6: {
    std::string raw = rt::bytes(t == 4 ? sp : np, t == 4 ? sl : nl, t == 4 ? "GetStrFast" : "GetNumFast");
    if (mode == 1) {
      const char *c; { Guard g(idx, w, owner, 100 + raw.size()); c = t == 4 ? Z->GetStr(h) : Z->GetNumStr(h); }
      if (!c && Z->size_bytes == 2 && raw.size() > 12000) return t == 4 ? "\"" + raw + "\"" : raw; // no room for another copy in the size type
      std::string cs = c ? rt::cstr(c, t == 4 ? "GetStr" : "GetNumStr") : "(null)";
      if (cs != raw) return "(copying and fast reader disagree)";
    }
    return t == 4 ? "\"" + raw + "\"" : raw;
  }
  case 2: case 3: {
    std::string o = t == 2 ? "[" : "{";
    size_t i = 0;
    void *c = 0;
    if (mode == 0 || t == 3) { Guard g(idx, w, owner); c = Z->Begin(h); } else { Guard g(idx, w, owner); c = Z->ArrayGet(h, 0); }
    while (c) {
      if (i) o += ',';
      { Guard g(idx, w, owner, 0); p = Z->GetKeyFast(c, &len); }
      std::string key;
      if (p) { key = rt::bytes(p, len, "GetKeyFast"); o += '"'; o += key; o += "\":"; }
      if (mode == 1 && p) {
        const char *k2; { Guard g(idx, w, owner, 100 + key.size()); k2 = Z->GetKey(c); }
        if (!(!k2 && Z->size_bytes == 2 && key.size() > 12000) && (!k2 || rt::cstr(k2, "GetKey") != key)) return o + "(GetKey disagrees)";
      }
      const Node *mc = m && i < m->kids.size() ? m->kids[i] : nullptr;
      o += walk(idx, c, owner, w, mode, mc, left);
      if (left == 0) return o + "(more elements than possible)";
      i++;
      if (mode == 0 || t == 3) { Guard g(idx, w, owner); c = Z->Next(c); } else { Guard g(idx, w, owner); c = Z->ArrayGet(h, i); }
    }
    if (mode == 1 && t == 3 && m && m->type == 3) { // lookup of each first occurrence of a key
      std::set<std::string> seen;
      for (auto *k : m->kids) if (seen.insert(k->key).second && k->key.find('\0') == std::string::npos && seen.size() < 6) {
        char *kb = rt::buf_new(k->key.size() + 1, k->key.c_str(), 0, 0); rt::buf_grant(kb, k->key.size() + 1);
        void *f; { Guard g(idx, w, owner); f = Z->ObjGet(h, kb); }
        if (!f) return o + "(a member cannot be found by its key)";
        int ft; { Guard g(idx, w, owner); ft = Z->Type(f); }
        if (ft != k->type) return o + "(lookup by key finds another member)";
        rt::buf_revoke(kb, k->key.size() + 1);
      }
    }
    if (i != size) return o + "(size " + std::to_string(size) + " but " + std::to_string(i) + " elements)";
    return o + (t == 2 ? "]" : "}");
  }
  }
  return "(unknown type)";
}
std::string read_value(int idx, const Handle &h, int mode) {
  size_t left = (h.n ? W.nodecount(h.n) : 1) * 2 + 64, w = 200 + (h.n ? W.weight(World::root(h.n)) : 0);
  S->cnt[CN_OBS]++;
  if (mode == 2) {
    const char *s; { Guard g(idx, w, h.alloc, 200 + Z->strinit + (h.n ? 2 * text_weight(h.n) : 0)); s = Z->Stringify(h.real); }
    if (!s && Z->size_bytes == 2 && w > 12000) return walk(idx, h.real, h.alloc, w, 0, h.n, left); // too long for the size type
    if (!s) return "(null)";
    std::string t = rt::cstr(s, "Stringify");
    if (t.empty()) return "(empty)";
    ref::Verdict v;
    auto j = ref::parse(t, v);
    return j ? ref::canon(*j) : "(serialised text is not JSON: " + clip(t) + ")";
  }
  return walk(idx, h.real, h.alloc, w, mode, h.n, left);
}
bool involved(const Op &o, const Handle &h) {
  for (int u : {o.h, o.h2}) {
    auto it = W.handles.find(u);
    if (it == W.handles.end()) continue;
    if (it->second.uid == h.uid) return true;
    if (it->second.n && h.n && World::root(it->second.n) == World::root(h.n)) return true;
  }
  return false;
}
bool mine(const Handle &h) { return !rt::threaded || h.task == rt::self; }

void verify_ptrs(int idx) {
  for (size_t i = 0; i < ptrs.size(); i++) {
    Ptr &q = ptrs[i];
    if (!W.allocs[q.alloc].live) continue;
    if (!rt::readable(q.p, q.content.size())) violation("ptr", "the memory behind the result of %s (operation %d) is gone although its allocator is live", q.fn, q.op);
    if (memcmp(q.p, q.content.data(), q.content.size())) {
      std::string now(q.p, q.content.size());
      violation("ptr", "the result of %s (operation %d) changed from '%s' to '%s'", q.fn, q.op, around(q.content, now, q.content).c_str(), around(q.content, now, now).c_str());
    }
  }
}
void self_check(int idx, const Handle &h) {
  size_t w = 200 + (h.n ? W.weight(World::root(h.n)) : 0), left = (h.n ? W.nodecount(h.n) : 1) * 4 + 256;
  int ty; { Guard g(idx, w, h.alloc); ty = Z->Type(h.real); }
  if (!ty) return;
  std::string r = walk(idx, h.real, h.alloc, w, 0, nullptr, left);
  S->inser = 1;
  const char *s; { Guard g(idx, w, h.alloc, 200 + Z->strinit + (h.n ? 2 * text_weight(h.n) : 0)); s = Z->Stringify(h.real); }
  if (!s) violation("selfjson", "serialising a value returned null with memory available");
  std::string t = rt::cstr(s, "Stringify");
  ref::Verdict v;
  auto j = ref::parse(t, v);
  if (!j) violation("selfjson", "serialised text is not well-formed JSON: %s", clip(t).c_str());
  std::string c = ref::canon(*j);
  if (c != r) violation("selfjson", "serialised text '%s' but the read functions report '%s'", around(c, r, c).c_str(), around(c, r, r).c_str());
  if (Z->size_bytes == 2 && t.size() > 12000) { S->inser = 0; return; }
  S->cnt[CN_REPARSE]++;
  void *a, *nv; int ok;
  const int tmp = 1000000;
  { Guard g(idx, w, tmp); a = Z->NewAllocator(); }
  { Guard g(idx, w, tmp); nv = Z->NewValue(a); }
  { Guard g(idx, w + t.size(), tmp, 100 + 80 * t.size()); ok = Z->Parse(nv, s); }
  if (!ok) violation("selfjson", "serialised text is not accepted by the parser: %s", clip(t).c_str());
  left = 4 * t.size() + 64;
  std::string r2 = walk(idx, nv, tmp, w + t.size(), 0, nullptr, left);
  rt::releasing[rt::self] = tmp; { Guard g(idx, w, tmp); Z->ReleaseAllocator(a); } rt::releasing[rt::self] = -1;
  S->inser = 0;
  if (r2 != r) violation("selfjson", "parsed back, '%s' reads as '%s'", around(r, r2, r).c_str(), around(r, r2, r2).c_str());
}
void handle_agreement(int idx) { // every handle into a document against navigation from the document's root
  std::map<const Node *, const Handle *> rooth;
  std::vector<const Handle *> hs;
  for (auto &kv : W.handles) if (W.handle(kv.first) && mine(kv.second) && kv.second.n) { if (!kv.second.n->parent) rooth[kv.second.n] = &kv.second; hs.push_back(&kv.second); }
  size_t done = 0;
  for (auto *h : hs) {
    auto it = rooth.find(World::root(h->n));
    if (it == rooth.end() || it->second == h || done > 400) continue;
    std::vector<size_t> path; // indices from the root
    for (const Node *n = h->n; n->parent; n = n->parent) { size_t i = 0; while (n->parent->kids[i] != n) i++; path.push_back(i); }
    std::reverse(path.begin(), path.end());
    size_t w = 200 + W.weight(World::root(h->n));
    void *c = it->second->real;
    for (size_t i : path) {
      { Guard g(idx, w, h->alloc); c = Z->Begin(c); }
      for (size_t k = 0; c && k < i; k++) { Guard g(idx, w, h->alloc); c = Z->Next(c); }
      if (!c) break;
    }
    size_t l1 = W.nodecount(h->n) * 2 + 64, l2 = l1;
    done += l1 / 2;
    std::string a = walk(idx, h->real, h->alloc, w, 0, nullptr, l1), b = c ? walk(idx, c, h->alloc, w, 0, nullptr, l2) : "(not reachable)";
    if (a != b) mismatch("handle", "the handle from operation %d reads '%s' but the document it points into has '%s' there", h->uid, around(a, b, a).c_str(), around(a, b, b).c_str());
  }
}

void observe(int idx, const Op &o, int mode, bool all) {
  if (P->checks & CK_PTR) verify_ptrs(idx);
  if (mode == 3 && !all) return;
  std::vector<int> uids;
  for (auto &kv : W.handles) if (W.handle(kv.first) && mine(kv.second) && (kv.second.task != T_SETUP || !rt::threaded)) uids.push_back(kv.first);
  size_t cap = P->big ? 3000 : 500, used = 0;
  size_t start = uids.empty() ? 0 : (size_t)idx % uids.size();
  std::set<const Node *> seen;
  for (size_t k = 0; k < uids.size(); k++) {
    Handle *h = W.handle(uids[(start + k) % uids.size()]);
    if (!h) continue;
    if (h->n && !seen.insert(h->n).second && !(P->checks & CK_PTR)) { // another handle to a node already read: cheap look
      int t; { Guard g(idx, 1000, h->alloc); t = Z->Type(h->real); }
      if (t != h->n->type) mismatch("state", "handle from operation %d: type %d, expected %d", h->uid, t, h->n->type);
      continue;
    }
    size_t nn = h->n ? W.nodecount(h->n) : 1;
    if (used > cap && !all) break;
    used += nn;
    if (P->checks & CK_SELF) self_check(idx, *h);
    int m = P->big && nn > 400 ? 2 : mode == 3 ? 0 : mode;
    std::string got = read_value(idx, *h, m), want = W.canon(h->n);
    logs(idx, got);
    if (got != want) {
      bool inv = involved(o, *h);
      bool other = true;
      for (int u : {o.h, o.h2}) { auto it = W.handles.find(u); if (it != W.handles.end() && it->second.alloc == h->alloc) other = false; }
      if (o.fn == F_NewValue && o.a == h->alloc) other = false;
      // the source of a copy belongs to another allocator and is not to change either
      if (o.h2 >= 0 && fn_groups[o.fn] == G_BV) { auto a = W.handles.find(o.h), b = W.handles.find(o.h2); if (a != W.handles.end() && b != W.handles.end() && a->second.alloc != b->second.alloc && h->alloc == b->second.alloc) other = true; }
      const char *cls = other ? "xstate" : "state";
      if (!inv && (P->checks & CK_PTR) && !(P->checks & CK_MODEL)) cls = "handle";
      mismatch(cls, "after %s the value of the handle from operation %d reads '%s', expected '%s'", o.fn == F_COUNT ? "the run" : fn_names[o.fn], h->uid, around(got, want, got).c_str(), around(got, want, want).c_str());
      if (diverged) return;
    }
    // keys of the value itself
    size_t len = 0; const char *kp; { Guard g(idx, 1000, h->alloc); kp = Z->GetKeyFast(h->real, &len); }
    std::string key = kp ? rt::bytes(kp, len, "GetKeyFast") : "", wantk = h->n && h->n->haskey ? h->n->key : "";
    bool wk = h->n && h->n->haskey;
    if ((kp != 0) != wk || key != wantk) { mismatch(involved(o, *h) || !(P->checks & CK_PTR) || (P->checks & CK_MODEL) ? "state" : "handle", "after %s the key of the handle from operation %d reads '%s', expected '%s'", o.fn == F_COUNT ? "the run" : fn_names[o.fn], h->uid, kp ? clip(key).c_str() : "(none)", wk ? clip(wantk).c_str() : "(none)"); if (diverged) return; }
    if (m == 0) {
      void *nx; { Guard g(idx, 1000, h->alloc); nx = Z->Next(h->real); }
      const Node *wn = nullptr;
      if (h->n && h->n->parent) { auto &v = h->n->parent->kids; for (size_t i = 0; i + 1 < v.size(); i++) if (v[i] == h->n) wn = v[i + 1]; }
      int nt = 0; if (nx) { Guard g(idx, 1000, h->alloc); nt = Z->Type(nx); }
      if ((nx != 0) != (wn != 0) || (wn && nt != wn->type)) { mismatch("state", "after %s the successor of the handle from operation %d is wrong", o.fn == F_COUNT ? "the run" : fn_names[o.fn], h->uid); if (diverged) return; }
    }
  }
  if (P->checks & CK_PTR) handle_agreement(idx);
}

// ------------------------------------------------------------------ one call
struct R { bool ok = false; void *p = nullptr; std::string s; long long iv = 0; double dv = 0; };
R do_call(const Op &o, void *h, void *h2, const char *text, size_t tlen) {
  R r; size_t len = 0; int iv = 0;
  switch (o.fn) {
  case F_NewAllocator: r.p = Z->NewAllocator(); r.ok = r.p; break;
  case F_ReleaseAllocator: Z->ReleaseAllocator(h); r.ok = true; break;
  case F_NewValue: r.p = Z->NewValue(h); r.ok = r.p; break;
#define X(n) case F_##n: r.p = (void *)Z->n(h); r.ok = r.p; break;
  API_S(X)
  API_H(X)
#undef X
#define X(n) case F_##n: r.p = (void *)Z->n(h, &len); r.ok = r.p; r.iv = len; break;
  API_SL(X)
#undef X
#define X(n) case F_##n: Z->n(h); r.ok = true; break;
  API_V(X)
#undef X
#define X(n) case F_##n: r.ok = Z->n(h); break;
  API_B(X)
#undef X
#define X(n) case F_##n: r.ok = Z->n(h, text); break;
  API_BS(X)
#undef X
#define X(n) case F_##n: r.ok = Z->n(h, text, tlen); break;
  API_BSL(X)
#undef X
#define X(n) case F_##n: r.ok = Z->n(h, h2); break;
  API_BV(X)
#undef X
#define N(n, T, f) case F_##n: { const T *q = Z->n(h); r.p = (void *)q; r.ok = q; } break;
  N(GetNum, double, dv) N(GetDouble, double, dv) N(GetInt, int, iv) N(GetLong, long, iv) N(GetLongLong, long long, iv)
#undef N
  case F_GetBool: r.p = (void *)Z->GetBool(h, &iv); r.ok = r.p; r.iv = iv; break;
  case F_Type: r.iv = Z->Type(h); r.p = (void *)Z->TypePtr(h); r.ok = true; break;
  case F_SizeOf: r.iv = Z->SizeOf(h); r.ok = true; break;
  case F_ObjGet: r.p = Z->ObjGet(h, text); r.ok = r.p; break;
  case F_ObjGetLen: r.p = Z->ObjGetLen(h, text, tlen); r.ok = r.p; break;
  case F_ArrayGet: r.p = Z->ArrayGet(h, o.idx); r.ok = r.p; break;
  case F_ArrayDel: r.ok = Z->ArrayDel(h, o.idx); break;
  case F_SetBool: Z->SetBool(h, (int)o.i); r.ok = true; break;
  case F_SetNum: r.ok = Z->SetNum(h, o.d); break;
  case F_SetDouble: r.ok = Z->SetDouble(h, o.d); break;
  case F_SetInt: r.ok = Z->SetInt(h, (int)o.i); break;
  case F_SetLong: r.ok = Z->SetLong(h, (long)o.i); break;
  case F_SetLongLong: r.ok = Z->SetLongLong(h, o.i); break;
  default: break;
  }
  return r;
}
// fetch the content behind the returned pointer, and remember it
void fetch(const Op &o, R &r, int alloc, char kind) {
  if (!r.ok) return;
  const char *fn = fn_names[o.fn];
  std::string c;
  if (kind == 's') { r.s = rt::cstr((const char *)r.p, fn); c = r.s; c.push_back(0); }
  else if (kind == 'l') { r.s = rt::bytes((const char *)r.p, (size_t)r.iv, fn); c = r.s; }
  else if (kind == 'n') {
    size_t n = o.fn == F_GetInt ? sizeof(int) : 8;
    c = rt::bytes((const char *)r.p, n, fn);
    if (o.fn == F_GetInt) { int v; memcpy(&v, c.data(), sizeof v); r.iv = v; }
    else if (o.fn == F_GetLong || o.fn == F_GetLongLong) memcpy(&r.iv, c.data(), 8);
    else memcpy(&r.dv, c.data(), 8);
  } else if (kind == 't' && r.p) c = rt::bytes((const char *)r.p, 4, fn);
  else if (kind == 'p') c = rt::bytes((const char *)r.p, 1, fn);
  else return;
  if (c.empty() || rt::in_caller(r.p)) return;
  ptrs.push_back(Ptr{(const char *)r.p, c, alloc, o.uid, fn});
  S->cnt[CN_PTRS]++;
}
std::string show(const Op &o, const R &r, char kind) {
  char b[96];
  switch (kind) {
  case 'b': return r.ok ? "true" : "false";
  case 's': case 'l': return r.ok ? "'" + clip(r.s) + "'" : "null";
  case 'n': if (!r.ok) return "null"; if (o.fn == F_GetNum || o.fn == F_GetDouble) snprintf(b, sizeof b, "%.17g", r.dv); else snprintf(b, sizeof b, "%lld", r.iv); return b;
  case 'p': return r.ok ? (r.iv ? "true" : "false") : "null";
  case 't': case 'z': return std::to_string(r.iv);
  case 'h': case 'a': return r.ok ? "a value" : "null";
  }
  return "";
}
bool matches(const Op &o, const Exp &e, const R &r, std::string &why) {
  if (e.kind == 'v' || e.kind == 'r') return true;
  if (e.kind == 't' || e.kind == 'z') { if (r.iv == e.iv) return true; why = "returned " + std::to_string(r.iv) + ", expected " + std::to_string(e.iv); return false; }
  if (r.ok != e.ok && !e.either) { why = "returned " + show(o, r, e.kind) + ", expected " + (e.ok ? e.kind == 'b' ? "true" : e.kind == 's' || e.kind == 'l' ? "'" + clip(e.s) + "'" : "a result" : e.kind == 'b' ? "false" : "null"); return false; }
  if (!r.ok) return true;
  switch (e.kind) {
  case 's': case 'l': {
    if (o.fn == F_Stringify && !e.s.empty()) { // any well-formed layout of the same content
      ref::Verdict v; auto j = ref::parse(r.s, v);
      if (j && ref::canon(*j) == e.s) return true;
    }
    if (r.s == e.s) return true;
    why = "returned '" + around(r.s, e.s, r.s) + "', expected '" + around(r.s, e.s, e.s) + "'"; return false;
  }
  case 'n':
    if (!e.cmp) return true;
    if (o.fn == F_GetNum || o.fn == F_GetDouble) { if (r.dv == e.dv || std::fabs(r.dv - e.dv) <= 1e-14 * std::fabs(e.dv) || std::fabs(r.dv - e.dv) <= 1e-320) return true; char b[128]; snprintf(b, sizeof b, "returned %.17g, expected %.17g", r.dv, e.dv); why = b; return false; }
    if (r.iv == e.iv) return true;
    why = "returned " + std::to_string(r.iv) + ", expected " + std::to_string(e.iv); return false;
  case 'p': if (r.iv == e.iv) return true; why = "wrong truth value"; return false;
  }
  return true;
}
// After a successful set of a machine number or of escaped text the library chose the spelling: check it denotes the
// argument and adopt it.
void adopt(int idx, const Op &o, const Exp &e, Handle &h) {
  if (!e.adopt_num && !e.adopt_str && !e.adopt_key) return;
  size_t len = 0; const char *p; std::string raw;
  { Guard g(idx, 1000 + e.s.size(), h.alloc); p = e.adopt_num ? Z->GetNumFast(h.real, &len) : e.adopt_str ? Z->GetStrFast(h.real, &len) : Z->GetKeyFast(h.real, &len); }
  if (e.adopt_num && !p && !std::isfinite(o.d)) { // some other JSON spelling of a non-finite number
    int t; { Guard g(idx, 1000, h.alloc); t = Z->Type(h.real); }
    if (t == 5) { h.n->type = 5; h.n->raw = "null"; return; }
  }
  if (!p) { mismatch("state", "%s succeeded but nothing of that type can be read back", fn_names[o.fn]); return; }
  raw = rt::bytes(p, len, fn_names[o.fn]);
  if (e.adopt_num) {
    bool good = ref::check_num(raw).ok;
    bool isd = o.fn == F_SetNum || o.fn == F_SetDouble;
    if (good && isd) good = !std::isfinite(o.d) || strtod(raw.c_str(), 0) == o.d;
    else if (good) { errno = 0; char *end; long long v = strtoll(raw.c_str(), &end, 10); good = *end ? strtod(raw.c_str(), 0) == (double)e.iv : v == e.iv && errno == 0; }
    if (!good) { mismatch("state", "%s stored '%s'", fn_names[o.fn], clip(raw).c_str()); if (!ref::check_num(raw).ok) return; }
    h.n->raw = raw;
  } else {
    bool good = ref::check_str(raw).ok;
    if (good) { std::string u = ref::unescape(raw); good = u == e.s; }
    if (!good) { mismatch("state", "%s of '%s' stored '%s'", fn_names[o.fn], clip(e.s).c_str(), clip(raw).c_str()); return; }
    (e.adopt_str ? h.n->raw : h.n->key) = raw;
  }
}
// the place of this text within what an earlier operation passed or got back, if it is still there
const char *alias_text(const Op &o, int alloc, bool ln) {
  const char *q = nullptr; size_t n = 0;
  auto it = bufs.find(o.alias);
  if (it != bufs.end()) {
    const Buf &b = it->second;
    if (!b.live || b.wantscrub) return nullptr;
    q = b.p; n = b.n;
  } else for (auto &x : ptrs) if (x.op == o.alias) {
    if (!W.allocs[x.alloc].live || (x.fn[0] != 'S' && x.fn[0] != 'G')) return nullptr;
    if (fn_borrows(o.fn) && (x.alloc != alloc || !rt::in_heap(x.p))) return nullptr;
    q = x.p; n = x.content.size();
  }
  if (!q || (size_t)o.aoff + o.text.size() + !ln > n || !rt::readable(q, n)) return nullptr;
  q += o.aoff;
  if (memcmp(q, o.text.data(), o.text.size()) || (!ln && (q[o.text.size()] || memchr(q, 0, o.text.size())))) return nullptr;
  return q;
}
void take_back(int uid) {
  auto it = bufs.find(uid);
  if (it == bufs.end() || !it->second.live) return;
  Buf &b = it->second;
  b.live = false;
  static const char other[] = "{\"overwritten\":[1,2,3],\"x\":\"stale caller text\"}9999999999999999";
  if (b.mode == 0) { rt::buf_revoke(b.p, b.n); S->cnt[CN_SCRUB_FREED]++; }
  else { for (size_t i = 0; i < b.n; i++) b.p[i] = other[i % (sizeof other - 1)]; S->cnt[CN_SCRUB_OVER]++; }
}
void check_released(int idx, int a) {
  for (auto &b : rt::blocks()) if (b.live && b.owner == a) violation("leak", "a block of %zu bytes taken for allocator %d (in operation at index %d) was not given back when it was released", b.n, a, b.op);
}
void check_growth(int idx, int a, size_t asked) {
  if (!(P->checks & CK_GROW) || a < 0) return;
  Led l; if (asked) { l.k++; l.bytes += asked; }
  for (auto &b : rt::blocks()) if (b.live && b.owner == a) { l.k++; l.bytes += b.n; if (Z->size_bytes == 2 && b.n > 24000) l.capped = true; }
  if (l.capped) return;
  double allowed = 2.5 * Z->delta * (ledw[a] + Z->init + Z->strinit + 4096);
  uint64_t mr = (uint64_t)(1000.0 * l.bytes / allowed); if (mr > S->maxmem) S->maxmem = mr;
  if (l.bytes > allowed) violation("blocks", "allocator holds %zu bytes after calls involving %.0f bytes in all", l.bytes, ledw[a]);
  if (l.k < 4) return;
  double s0 = Z->init < 1 ? 1 : (double)Z->init;
  double bound = 4 + 1.25 * std::log(l.bytes / s0 + 1) / std::log((double)Z->delta);
  if (l.k > bound) violation("blocks", "allocator holds %zu blocks for %zu bytes; growth by %u from %lu allows at most %.1f", l.k, l.bytes, Z->delta, Z->init, bound);
}

void run_op(int idx) {
  const Op &o = P->ops[idx];
  if (o.fn == F_COUNT) return;
  rt::op_point();
  Exp e = W.expect(o);
  if (e.skip) { S->cnt[CN_SKIPPED]++; return; }
  S->cnt[CN_OPS]++;
  executed++;
  if (o.fn == F_DropText) {
    auto it = bufs.find((int)o.i);
    if (it == bufs.end() || !it->second.live) return;
    W.commit(o, e, true, nullptr);
    it->second.mode = (o.i + idx) & 1;
    take_back((int)o.i); S->cnt[CN_SCRUB_BORROW]++;
    observe(idx, o, o.obs, false);
    return;
  }
  if (o.fn == F_Fill) {
    Handle *x = W.handle(o.h), *y = W.handle(o.h2); bool arr = x->n->type == 2;
    for (size_t n = x->n->kids.size(); n < (size_t)o.i; n++) {
      bool ok; { Guard g(idx, 1000 + 100 * n, x->alloc, 200 + W.weight(y->n)); ok = arr ? Z->ArrayAdd(x->real, y->real) : Z->ObjAdd(x->real, y->real); }
      if (!ok) { if (P->checks & CK_MODEL) violation("result", "%s refused to add element %zu although its size type can count it", arr ? "ArrayAdd" : "ObjAdd", n + 1); snprintf(S->cls, sizeof S->cls, "limit"); S->done = 1; _exit(0); }
    }
    W.commit(o, e, true, nullptr); S->cnt[CN_BIGOP]++;
    observe(idx, o, o.obs, true); check_growth(idx, x->alloc);
    return;
  }
  if (o.fn == F_Down) {
    Handle *x = W.handle(o.h); const Node *q = x->n; void *v = x->real;
    for (long long k = 0; k < o.i && !q->kids.empty() && v; k++) {
      size_t s = down_step(q); q = q->kids[s];
      { Guard g(idx, 100, x->alloc); v = Z->Begin(v); }
      while (s-- && v) { Guard g(idx, 100, x->alloc); v = Z->Next(v); }
    }
    if (!v) { if ((P->checks & CK_MODEL) && Z->size_bytes != 2) violation("result", "the way down into a document ended early"); return; }
    W.commit(o, e, true, v); S->cnt[CN_BIGOP]++;
    observe(idx, o, o.obs, false); check_growth(idx, x->alloc);
    return;
  }
  if (o.fn == F_Locale) { rt::set_locale((int)o.i); S->cnt[CN_LOCALE]++; observe(idx, o, o.obs, false); return; }
  void *h = nullptr, *h2 = nullptr; int alloc = -1;
  if (o.fn == F_ReleaseAllocator || o.fn == F_NewValue) { h = W.allocs[o.a].real; alloc = o.a; }
  else if (o.fn == F_NewAllocator) alloc = o.uid;
  else { Handle *x = W.handle(o.h); h = x->real; alloc = x->alloc; if (o.h2 >= 0) { Handle *y = W.handle(o.h2); h2 = y->real; if (y->alloc != alloc) S->cnt[CN_XCOPY]++; } }
  // the caller's text
  const char *text = nullptr; size_t tlen = o.text.size();
  if (fn_has_text(o.fn)) {
    bool ln = fn_has_len(o.fn);
    if (o.shared >= 0 && sharedbufs.count(o.shared)) { text = sharedbufs[o.shared].p; }
    else if (o.alias >= 0) { text = alias_text(o, alloc, ln); if (text) S->cnt[CN_ALIAS]++; }
    if (!text) {
      std::string t = o.text;
      size_t gn = tlen;
      if (!ln) { t.push_back(0); gn = t.find('\0') + 1; }
      Buf b; b.p = rt::buf_new(t.size(), t.data(), o.before, o.after); b.n = gn; b.live = true; b.alloc = alloc; b.borrow = false; b.mode = o.scrubmode; b.wantscrub = o.scrub >= 0;
      rt::buf_grant(b.p, gn);
      bufs[o.uid] = b; text = b.p;
    }
  }
  size_t w = op_weight(o);
  if (o.fn == F_ReleaseAllocator || o.fn == F_NewAllocator) w += 4000;
  Handle *hp = o.h >= 0 ? W.handle(o.h) : nullptr;
  std::string before_canon = hp ? W.canon(hp->n) : "";
  if (o.hasorig) S->cnt[CN_DMG_OPS]++;
  if (w > 20000) S->cnt[CN_BIGOP]++;
  if (o.fn == F_ReleaseAllocator) {
    S->cnt[CN_RELEASE]++;
    int livecount = 0; for (auto &kv : W.allocs) livecount += kv.second.live;
    if (livecount > 1) S->cnt[CN_RELEASE_EARLY]++;
    if (P->checks & CK_PTR) verify_ptrs(idx);
  }
  for (int attempt = 0;; attempt++) {
    rt::cur_owner[rt::self] = alloc;
    if (o.fn == F_ReleaseAllocator) rt::releasing[rt::self] = alloc;
    ledw[alloc] += mem_weight(o);
    rt::enter_call(idx, budget(w), w);
    if (attempt == 0 && o.fk) rt::set_fault(o.fk, o.fn_);
    S->inser = o.fn == F_Stringify;
    R r = do_call(o, h, h2, text, tlen);
    S->inser = 0;
    int fired = rt::fault_fired(), reqs = rt::call_requests();
    bool limit = rt::size_limit_hit() > 0;
    rt::leave_call();
    rt::releasing[rt::self] = -1;
    if (idx < MAXOPS && attempt == 0) { S->reqs[idx] = (uint16_t)std::min(reqs, 65535); S->fired[idx] = fired; }
    if (limit) check_growth(idx, alloc, rt::size_limit_hit()); // more than the simulated machine has: too much, or only too big a plan?
    if (limit) { snprintf(S->cls, sizeof S->cls, "limit"); S->done = 1; _exit(0); }
    if (fired) S->cnt[CN_OOM_OPS]++;
    fetch(o, r, alloc, e.kind);
    bool excused = fired > 0;
    if (!excused && Z->size_bytes == 2 && (e.size_may_fail || w > 12000) && e.ok && (!r.ok || e.kind == 'v')) excused = true; // a 16-bit size type may be exhausted
    bool success;
    std::string why;
    if (e.kind == 'v' && excused) { // void: tell from the content which outcome it was
      std::string got = read_value(idx, *hp, 0);
      success = got != before_canon;
    } else if (excused && !r.ok && e.ok) {
      success = false;
    } else {
      if (!matches(o, e, r, why)) { mismatch("result", "%s %s", fn_names[o.fn], why.c_str()); if (diverged) { observe(idx, o, 0, true); return; } }
      success = r.ok;
      if (e.kind == 'v') success = true;
    }
    if (o.hasorig) S->cnt[success ? CN_DMG_ACC : CN_DMG_REJ]++;
    if (!success && !excused) S->cnt[CN_REJECTED]++;
    logs(idx, show(o, r, e.kind) + (success ? "+" : "-"));
    bool had = success;
    if (e.kind == 'h' || e.kind == 'a' || e.kind == 'b' || e.kind == 'v' || e.kind == 'r') W.commit(o, e, success, r.p);
    if (success && e.kind == 'b') { Handle *hh = W.handle(o.h); if (hh && hh->n) adopt(idx, o, e, *hh); if (diverged) { observe(idx, o, 0, true); return; } }
    if (success && o.fn == F_GetNumFast && (P->checks & CK_MODEL) && hp && hp->n && hp->n->strtext < 0) {
      // documented: the number is followed by a byte that ends it, so it may be handed to atoi and friends
      const char *q = (const char *)r.p + r.iv;
      if (!rt::readable(q, 1) || strchr("0123456789+-.eE", *q ? *q : 'x')) violation("result", "the number text returned by GetNumFast is not followed by a byte that ends it");
    }
    if (e.kind == 'r') {
      if (P->checks & CK_LEDGER) check_released(idx, alloc);
      for (auto &kv : bufs) if (kv.second.borrow && kv.second.alloc == alloc && kv.second.wantscrub) take_back(kv.first);
    }
    if (fn_has_text(o.fn) && bufs.count(o.uid)) {
      Buf &b = bufs[o.uid];
      if (fn_borrows(o.fn) && success) b.borrow = true;
      else if (o.scrub == 0) { if (!(fired && !success && o.retry && attempt == 0)) take_back(o.uid); }
      else if (o.scrub > 0) pending.push_back({executed + o.scrub, o.uid});
    }
    if (excused && !success) {
      if (!fired) S->cnt[CN_SIZE_EXHAUSTED]++;
      else {
        S->cnt[CN_OOM_FAILREP]++;
        if (o.fn == F_NewAllocator && (P->checks & CK_LEDGER)) check_released(idx, alloc);
        if (o.fn == F_NewAllocator && (Z->flavour[0] == 'c' ? Z->flavour[1] == 0 : Z->flavour[0] == 's')) { // a caller that goes on with the null it got
          rt::enter_call(idx, budget(w), w);
          void *nv = Z->NewValue(nullptr); Z->ReleaseAllocator(nullptr);
          rt::leave_call();
          if (nv) { mismatch("result", "NewValue of a null allocator returned a value"); if (diverged) return; }
        }
        observe(idx, o, 0, true); if (diverged) return;
        if (P->checks & CK_MODEL) observe(idx, o, 2, true);
        if (o.retry && attempt == 0) { // memory is available again: the same call must now work
          e = W.expect(o);
          if (!e.skip) { before_canon = hp ? W.canon(hp->n) : ""; continue; }
        }
      }
    } else if (attempt == 1 && had) S->cnt[CN_OOM_RETRY]++;
    break;
  }
  for (size_t i = 0; i < pending.size();) if (pending[i].at <= executed) { take_back(pending[i].uid); pending.erase(pending.begin() + i); } else i++;
  check_growth(idx, alloc);
  observe(idx, o, o.obs, false);
  if (idx < MAXOPS) S->ostate[idx] = W.state_hash();
}
void task_body(int t) {
  for (size_t i = 0; i < P->ops.size() && !diverged; i++) if (P->ops[i].task == t) run_op((int)i);
}
void finish() {
  Op none; none.fn = F_COUNT;
  int idx = (int)P->ops.size() < MAXOPS ? (int)P->ops.size() : MAXOPS - 1;
  if (!diverged) for (int m = 0; m < 3; m++) observe(idx, none, m, true);
  else if (P->checks & CK_PTR) verify_ptrs(idx);
  std::vector<int> as;
  for (auto &kv : W.allocs) if (kv.second.live) as.push_back(kv.first);
  if (P->seed & 1) std::reverse(as.begin(), as.end());
  for (int a : as) {
    rt::cur_owner[rt::self] = a; rt::releasing[rt::self] = a;
    rt::enter_call(idx, budget(20000)); Z->ReleaseAllocator(W.allocs[a].real); rt::leave_call();
    rt::releasing[rt::self] = -1;
    W.allocs[a].live = false;
    if (P->checks & CK_LEDGER) check_released(idx, a);
    if (!diverged && (P->checks & (CK_X | CK_MODEL)) && as.size() > 1 && !P->big) observe(idx, none, 0, false);
  }
  if (P->checks & CK_LEDGER) for (auto &b : rt::blocks()) if (b.live && !(b.owner >= 1000000)) violation("leak", "a block of %zu bytes (taken in operation at index %d) was never given back", b.n, b.op);
}
} // namespace

void exec_plan(const Plan &p) {
  P = &p; Z = find_subject(p.subject);
  if (!Z) { fprintf(stderr, "no subject %s\n", p.subject.c_str()); _exit(3); }
  if (Z->size_bytes == 2) W.maxkids = 65535;
  if (p.checks & CK_STACK) rt::stacklimit = 64 << 10;
  rt::memfatal = p.checks & CK_MEM; rt::buffatal = p.checks & CK_BUF;
  rt::begin_run(p.env);
  for (auto &o : p.ops) if (o.shared >= 0 && !sharedbufs.count(o.shared)) {
    std::string t = o.text; t.push_back(0);
    Buf b; b.p = rt::buf_new(t.size(), t.data(), 0, 0); b.n = t.size(); b.live = true; b.borrow = false; b.wantscrub = false; b.mode = 0; b.alloc = -1;
    rt::buf_grant(b.p, b.n); sharedbufs[o.shared] = b;
  }
  for (size_t i = 0; i < p.ops.size() && !diverged; i++) if (p.ops[i].task == T_SETUP) run_op((int)i);
  if (p.ntasks && !diverged) rt::run_tasks(p.ntasks, p.first, p.sched, task_body);
  if (p.ntasks) for (size_t i = 0; i < p.ops.size() && !diverged; i++) if (p.ops[i].task == T_AFTER) run_op((int)i);
  finish();
  S->nops = (uint32_t)p.ops.size();
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i <= p.ops.size() && i < MAXOPS; i++) h = (h ^ S->oplog[i]) * 1099511628211ull;
  S->loghash = h; S->tracehash = rt::trace_hash();
  if (diverged) snprintf(S->cls, sizeof S->cls, "~%s", divcls);
  S->done = 1;
  _exit(0);
}
