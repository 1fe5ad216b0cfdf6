#include "world.h"
#include <cmath>
#include <cstring>
#include <climits>
Node *World::mk(int alloc) { pool.emplace_back(new Node); Node *n = pool.back().get(); n->alloc = alloc; n->id = (int)pool.size(); return n; }
Node *World::from_j(const ref::J &j, int alloc, int text) {
  Node *n = mk(alloc); n->type = j.type; n->raw = j.raw; n->haskey = j.haskey; n->key = j.key;
  n->strtext = text; n->keytext = text;
  for (auto &k : j.kids) { Node *c = from_j(*k, alloc, text); c->parent = n; n->kids.push_back(c); }
  return n;
}
Node *World::clone(const Node *s, int alloc) {
  Node *n = mk(alloc); n->type = s->type; n->raw = s->raw; n->haskey = s->haskey; n->key = s->key;
  for (auto *k : s->kids) { Node *c = clone(k, alloc); c->parent = n; n->kids.push_back(c); }
  return n;
}
void World::kill_tree(Node *n) { n->dead = true; for (auto *k : n->kids) kill_tree(k); }
void World::clear_content(Node *n) {
  if (!n->kids.empty()) {
    Node *g = mk(n->alloc); g->ghost = true; g->type = n->type; g->raw.clear();
    g->kids.swap(n->kids); for (auto *k : g->kids) k->parent = g;
  }
  n->kids.clear(); n->raw.clear(); n->strtext = -1;
}
bool World::orphan(const Node *n) { return n && n->parent && n->parent->ghost; }
void World::detach(Node *n) {
  if (!n->parent) return;
  auto &v = n->parent->kids;
  for (size_t i = 0; i < v.size(); i++) if (v[i] == n) { v.erase(v.begin() + i); break; }
  n->parent = nullptr;
}
Handle *World::handle(int uid) {
  auto it = handles.find(uid);
  if (it == handles.end()) return nullptr;
  Handle &h = it->second;
  auto a = allocs.find(h.alloc);
  if (a == allocs.end() || !a->second.live) return nullptr;
  if (h.n && h.n->dead) return nullptr;
  return &h;
}
void World::ensure(Handle &h) { if (!h.n) { h.n = mk(h.alloc); h.n->raw = ""; h.n->type = 5; } }
size_t World::nodecount(const Node *n) const { size_t c = 1; for (auto *k : n->kids) c += nodecount(k); return c; }
size_t World::weight(const Node *n) const { size_t c = 80 + n->raw.size() + n->key.size(); for (auto *k : n->kids) c += weight(k); return c; }
static void canon_to(const Node *n, std::string &o) {
  switch (n->type) {
  case 4: o += '"'; o += n->raw; o += '"'; break;
  case 2: case 3: {
    o += n->type == 2 ? '[' : '{';
    bool f = true;
    for (auto *k : n->kids) { if (!f) o += ','; f = false; if (k->haskey) { o += '"'; o += k->key; o += "\":"; } canon_to(k, o); }
    o += n->type == 2 ? ']' : '}';
  } break;
  default: o += n->raw;
  }
}
std::string World::canon(const Node *n) const { if (!n) return "(empty)"; std::string o; canon_to(n, o); return o; }
uint64_t World::state_hash() const {
  uint64_t h = 1469598103934665603ull;
  auto put = [&](const std::string &s) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; h = (h ^ 0x100) * 1099511628211ull; };
  for (auto &kv : handles) {
    const Handle &x = kv.second;
    auto a = allocs.find(x.alloc);
    if (a == allocs.end() || !a->second.live || (x.n && x.n->dead) || (x.n && x.n->parent)) continue;
    put(canon(x.n)); if (x.n && x.n->haskey) put(x.n->key);
  }
  return h;
}
void World::drop_text(int uid) {
  for (size_t i = 0; i < pool.size(); i++) {
    Node *n = pool[i].get();
    if (!n->dead && (n->strtext == uid || n->keytext == uid)) kill_tree(const_cast<Node *>(root(n)));
  }
}
static std::string upto0(const std::string &s) { return s.substr(0, s.find('\0')); }

size_t down_step(const Node *n) { for (size_t i = 0; i < n->kids.size(); i++) if (!n->kids[i]->kids.empty()) return i; return 0; }

Exp World::expect(const Op &o) {
  Exp e;
  auto skip = [&]() -> Exp { Exp x; x.skip = true; return x; };
  if (o.fn == F_NewAllocator) { e.kind = 'a'; return e; }
  if (o.fn == F_ReleaseAllocator) { auto a = allocs.find(o.a); if (a == allocs.end() || !a->second.live) return skip(); e.kind = 'r'; return e; }
  if (o.fn == F_NewValue) { auto a = allocs.find(o.a); if (a == allocs.end() || !a->second.live) return skip(); e.kind = 'h'; return e; }
  if (o.fn == F_DropText || o.fn == F_Locale) { e.kind = 'x'; return e; }
  Handle *h = handle(o.h);
  if (!h) return skip();
  Node *n = h->n;
  bool arr = n && n->type == 2, obj = n && n->type == 3;
  switch (fn_groups[o.fn]) {
  case G_S:
    e.kind = 's';
    switch (o.fn) {
    case F_Stringify: e.ok = true; e.s = n ? canon(n) : ""; return e;
    case F_GetStr: e.ok = n && n->type == 4; if (e.ok) e.s = n->raw; return e;
    case F_GetUnEscapeStr: e.ok = n && n->type == 4; if (e.ok) e.s = upto0(ref::unescape(n->raw)); return e;
    case F_GetNumStr: e.ok = n && n->type == 6; if (e.ok) e.s = n->raw; return e;
    case F_GetKey: e.ok = n && n->haskey; if (e.ok) e.s = n->key; return e;
    default: e.ok = n && n->haskey; if (e.ok) e.s = upto0(ref::unescape(n->key)); return e;
    }
  case G_SL:
    e.kind = 'l';
    if (o.fn == F_GetKeyFast) { e.ok = n && n->haskey; if (e.ok) e.s = n->key; }
    else { e.ok = n && n->type == (o.fn == F_GetStrFast ? 4 : 6); if (e.ok) e.s = n->raw; }
    return e;
  case G_H:
    e.kind = 'h';
    if (o.fn == F_Begin) { e.ok = (arr || obj) && !n->kids.empty(); if (e.ok) e.node = n->kids[0]; }
    else if (o.fn == F_Next) {
      e.ok = false;
      if (n && n->parent) { auto &v = n->parent->kids; for (size_t i = 0; i + 1 < v.size(); i++) if (v[i] == n) { e.ok = true; e.node = v[i + 1]; } }
    } else e.ok = n != nullptr; // Copy
    return e;
  case G_V: e.kind = 'v'; return e;
  case G_B:
    e.kind = 'b';
    e.ok = o.fn == F_IsNull ? n && n->type == 5 : n != nullptr;
    return e;
  case G_BS: case G_BSL: {
    e.kind = 'b';
    bool len = fn_groups[o.fn] == G_BSL;
    std::string t = len ? o.text : upto0(o.text);
    ref::Verdict v;
    switch (o.fn) {
    case F_Parse: case F_ParseFast: case F_ParseLen:
      e.j = ref::parse(t, v); e.ok = v.ok; e.either = v.ok && v.doubtful_utf8; e.size_may_fail = t.size() > 12000;
      if (t.size() >= 3 && !memcmp(t.data(), "\xef\xbb\xbf", 3)) { // a byte order mark may be skipped or rejected
        ref::Verdict w; auto jj = ref::parse(t.substr(3), w); if (jj) { e.j = std::move(jj); e.ok = true; e.either = true; }
      }
      return e;
    case F_ObjDel: { e.ok = false; if (obj) for (auto *k : n->kids) if (k->key == t) { e.ok = true; e.node = k; break; } return e; }
    case F_SetNumStr: case F_SetNumStrFast: case F_SetNumStrLen: case F_SetNumStrLenFast:
      v = ref::check_num(t); e.ok = v.ok; e.s = t; return e;
    case F_SetStr: case F_SetStrFast: case F_SetStrLen: case F_SetStrLenFast:
      v = ref::check_str(t); e.ok = v.ok; e.either = v.ok && v.doubtful_utf8; e.s = t; e.size_may_fail = t.size() > 12000; return e;
    case F_SetStrEscape: case F_SetStrLenEscape:
      e.ok = true; e.either = !ref::utf8_ok(t); e.s = t; e.adopt_str = true; e.size_may_fail = t.size() > 8000; return e;
    case F_SetKey: case F_SetKeyFast: case F_SetKeyLen: case F_SetKeyLenFast:
      v = ref::check_str(t); e.ok = v.ok && !(n && n->parent && !orphan(n) && n->parent->type == 2); e.either = e.ok && v.doubtful_utf8; e.s = t; e.size_may_fail = t.size() > 12000; return e;
    default: // SetKeyEscape, SetKeyLenEscape
      e.ok = !(n && n->parent && !orphan(n) && n->parent->type == 2); e.either = e.ok && !ref::utf8_ok(t); e.s = t; e.adopt_key = true; e.size_may_fail = t.size() > 8000; return e;
    }
  }
  case G_BV: {
    e.kind = 'b';
    Handle *s = handle(o.h2);
    if (!s) return skip();
    Node *m = s->n;
    bool fast = o.fn == F_SetFast || o.fn == F_ObjAddFast || o.fn == F_ArrayAddFast;
    if (fast) {
      if (h->alloc != s->alloc) return skip();
      if (o.fn == F_SetFast && n && n == m) return e; // to itself: nothing changes
      for (const Node *q = n; m && q; q = q->parent) if (q == m) { e.ok = false; return e; } // a value cannot be put inside itself
    }
    if (o.fn == F_SetFast || o.fn == F_Set) e.ok = m != nullptr;
    else if (o.fn == F_ObjAddFast || o.fn == F_ObjAdd) e.ok = obj && m && m->haskey;
    else e.ok = arr && m;
    if (o.fn != F_SetFast && o.fn != F_Set && e.ok && n->kids.size() >= maxkids) e.ok = false;
    return e;
  }
  case G_X: break;
  }
  switch (o.fn) {
  case F_Down: { // from level to level, into the first element that has elements
    if (!n || n->kids.empty() || o.i < 1) return skip();
    e.node = n;
    for (long long k = 0; k < o.i && !e.node->kids.empty(); k++) e.node = e.node->kids[down_step(e.node)];
    e.kind = 'x'; return e;
  }
  case F_Fill: { // copies of a value, added one call after the other until the container has i elements
    Handle *s = handle(o.h2);
    if (!s || !s->n || !s->n->kids.empty() || !(arr || (obj && s->n->haskey)) || o.i > 70000 || (size_t)o.i > maxkids) return skip();
    e.kind = 'x'; return e;
  }
  case F_GetNum: case F_GetDouble: case F_GetInt: case F_GetLong: case F_GetLongLong: {
    e.kind = 'n';
    e.ok = n && n->type == 6;
    if (!e.ok) return e;
    bool integral = n->raw.find_first_of(".eE") == std::string::npos;
    if (o.fn == F_GetNum || o.fn == F_GetDouble) { e.dv = strtod(n->raw.c_str(), 0); e.cmp = std::isfinite(e.dv); }
    else {
      errno = 0; e.iv = strtoll(n->raw.c_str(), 0, 10);
      e.cmp = integral && errno == 0 && (o.fn != F_GetInt || (e.iv >= INT_MIN && e.iv <= INT_MAX));
    }
    return e;
  }
  case F_GetBool: e.kind = 'p'; e.ok = n && n->type == 1; e.iv = e.ok && n->raw == "true"; return e;
  case F_Type: e.kind = 't'; e.iv = n ? n->type : 0; return e;
  case F_SizeOf: e.kind = 'z'; e.iv = arr || obj ? (long long)n->kids.size() : 0; return e;
  case F_ObjGet: case F_ObjGetLen: {
    std::string t = o.fn == F_ObjGet ? upto0(o.text) : o.text;
    e.kind = 'h'; e.ok = false;
    if (obj) for (auto *k : n->kids) if (k->key == t) { e.ok = true; e.node = k; break; }
    return e;
  }
  case F_ArrayGet: e.kind = 'h'; e.ok = arr && o.idx < n->kids.size(); if (e.ok) e.node = n->kids[o.idx]; return e;
  case F_ArrayDel: e.kind = 'b'; e.ok = arr && o.idx < n->kids.size(); if (e.ok) e.node = n->kids[o.idx]; return e;
  case F_SetBool: e.kind = 'v'; return e;
  case F_SetNum: case F_SetDouble: e.kind = 'b'; e.dv = o.d; e.adopt_num = true; e.either = !std::isfinite(o.d); return e;
  case F_SetInt: e.kind = 'b'; e.iv = (int)o.i; e.adopt_num = true; return e;
  case F_SetLong: e.kind = 'b'; e.iv = (long)o.i; e.adopt_num = true; return e;
  case F_SetLongLong: e.kind = 'b'; e.iv = o.i; e.adopt_num = true; return e;
  default: return skip();
  }
}

void World::commit(const Op &o, Exp &e, bool success, void *real) {
  if (o.fn == F_NewAllocator) { if (success) allocs[o.uid] = AllocM{o.uid, true, o.task, real}; return; }
  if (o.fn == F_ReleaseAllocator) { allocs[o.a].live = false; return; }
  if (o.fn == F_DropText) { drop_text((int)o.i); return; }
  if (o.fn == F_Locale || !success) return;
  if (o.fn == F_NewValue) { handles[o.uid] = Handle{o.uid, nullptr, o.a, o.task, real}; return; }
  Handle &h = *handle(o.h);
  if (fn_makes_handle(o.fn)) {
    Node *n = o.fn == F_Copy ? clone(h.n, h.alloc) : e.node;
    handles[o.uid] = Handle{o.uid, n, h.alloc, o.task, real};
    return;
  }
  auto scalar = [&](int type, const std::string &raw) { ensure(h); clear_content(h.n); h.n->type = type; h.n->raw = raw; };
  int text = !fn_borrows(o.fn) ? -1 : o.alias >= 0 ? o.alias : o.uid;
  switch (o.fn) {
  case F_Parse: case F_ParseFast: case F_ParseLen: {
    ensure(h); clear_content(h.n);
    Node *t = from_j(*e.j, h.alloc, text);
    h.n->type = t->type; h.n->raw = t->raw; h.n->kids = t->kids; h.n->strtext = text; for (auto *k : h.n->kids) k->parent = h.n;
    t->dead = true; t->kids.clear();
    return;
  }
  case F_SetNull: scalar(5, "null"); return;
  case F_SetBool: scalar(1, o.i ? "true" : "false"); return;
  case F_SetArray: scalar(2, ""); return;
  case F_SetObj: scalar(3, ""); return;
  case F_SetNumStr: case F_SetNumStrFast: case F_SetNumStrLen: case F_SetNumStrLenFast: scalar(6, e.s); h.n->strtext = text; return;
  case F_SetStr: case F_SetStrFast: case F_SetStrLen: case F_SetStrLenFast: scalar(4, e.s); h.n->strtext = text; return;
  case F_SetStrEscape: case F_SetStrLenEscape: scalar(4, ref::json_escape(e.s)); return;
  case F_SetNum: case F_SetDouble: { char b[64]; snprintf(b, sizeof b, "%.17g", o.d); scalar(6, b); return; }
  case F_SetInt: case F_SetLong: case F_SetLongLong: scalar(6, std::to_string(e.iv)); return;
  case F_SetKey: case F_SetKeyFast: case F_SetKeyLen: case F_SetKeyLenFast: case F_SetKeyEscape: case F_SetKeyLenEscape:
    if (!h.n) { ensure(h); h.n->raw = "null"; }
    h.n->haskey = true; h.n->key = e.adopt_key ? ref::json_escape(e.s) : e.s; h.n->keytext = text; return;
  case F_Move: detach(h.n); return;
  case F_ArrayDel: case F_ObjDel: detach(e.node); return;
  case F_SetFast: {
    Handle &s = *handle(o.h2);
    Node *m = s.n;
    if (m == h.n) return;
    detach(m);
    if (!h.n) { h.n = m; s.n = nullptr; return; }
    clear_content(h.n);
    h.n->type = m->type; h.n->raw = m->raw; h.n->strtext = m->strtext; h.n->kids = m->kids;
    for (auto *k : h.n->kids) k->parent = h.n;
    m->kids.clear(); m->type = 5; m->raw = "null"; m->strtext = -1; s.n = nullptr; // what other handles to it see
    return;
  }
  case F_Set: {
    Node *c = clone(handle(o.h2)->n, h.alloc);
    if (!h.n) { h.n = c; return; }
    clear_content(h.n);
    h.n->type = c->type; h.n->raw = c->raw; h.n->strtext = -1; h.n->kids = c->kids;
    for (auto *k : h.n->kids) k->parent = h.n;
    c->kids.clear(); c->dead = true;
    return;
  }
  case F_ObjAddFast: case F_ArrayAddFast: {
    Handle &s = *handle(o.h2);
    Node *m = s.n;
    detach(m);
    if (o.fn == F_ArrayAddFast) { m->haskey = false; m->key.clear(); m->keytext = -1; }
    m->parent = h.n; h.n->kids.push_back(m); s.n = nullptr;
    return;
  }
  case F_Fill: case F_ObjAdd: case F_ArrayAdd: do {
    if (o.fn == F_Fill && h.n->kids.size() >= (size_t)o.i) return;
    Node *c = clone(handle(o.h2)->n, h.alloc);
    if (h.n->type == 2) { c->haskey = false; c->key.clear(); }
    c->parent = h.n; h.n->kids.push_back(c);
  } while (o.fn == F_Fill); return;
  default: return;
  }
}
