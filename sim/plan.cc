#include "plan.h"
#include <cstdio>
#include <cstring>
#include <sstream>
const char *const fn_names[F_COUNT + 1] = {
#define X(n) #n,
    API_S(X) API_SL(X) API_H(X) API_V(X) API_B(X) API_BS(X) API_BSL(X) API_BV(X) FN_SPECIAL(X)
#undef X
    "Nothing"};
const FnGroup fn_groups[F_COUNT + 1] = {
#define X(n) G_S,
    API_S(X)
#undef X
#define X(n) G_SL,
    API_SL(X)
#undef X
#define X(n) G_H,
    API_H(X)
#undef X
#define X(n) G_V,
    API_V(X)
#undef X
#define X(n) G_B,
    API_B(X)
#undef X
#define X(n) G_BS,
    API_BS(X)
#undef X
#define X(n) G_BSL,
    API_BSL(X)
#undef X
#define X(n) G_BV,
    API_BV(X)
#undef X
#define X(n) G_X,
    FN_SPECIAL(X)
#undef X
    G_X};
bool fn_has_len(Fn f) { return fn_groups[f] == G_BSL || f == F_ObjGetLen; }
bool fn_has_text(Fn f) { return fn_groups[f] == G_BS || fn_has_len(f) || f == F_ObjGet; }
bool fn_borrows(Fn f) {
  return f == F_ParseFast || f == F_SetNumStrFast || f == F_SetStrFast || f == F_SetKeyFast || f == F_SetNumStrLenFast || f == F_SetStrLenFast || f == F_SetKeyLenFast;
}
bool fn_is_parse(Fn f) { return f == F_Parse || f == F_ParseFast || f == F_ParseLen; }
bool fn_is_key(Fn f) { return f == F_SetKey || f == F_SetKeyFast || f == F_SetKeyEscape || f == F_SetKeyLen || f == F_SetKeyLenFast || f == F_SetKeyLenEscape; }
bool fn_mutates(Fn f) {
  FnGroup g = fn_groups[f];
  return g == G_V || g == G_BS || g == G_BSL || g == G_BV || f == F_Move || f == F_ArrayDel || (f >= F_SetBool && f <= F_SetLongLong);
}
bool fn_makes_handle(Fn f) { return fn_groups[f] == G_H || f == F_NewValue || f == F_Down || f == F_ObjGet || f == F_ObjGetLen || f == F_ArrayGet; }

static std::string enc(const std::string &s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    if (c > 0x20 && c < 0x7f && c != '%') o += c; else { snprintf(b, sizeof b, "%%%02x", c); o += b; }
  }
  return o;
}
static std::string dec(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i];
  return o;
}
std::string op_to_text(const Op &o) {
  std::ostringstream s;
  s << "op " << o.uid << " " << fn_names[o.fn];
  if (o.task != T_SETUP) s << " task=" << o.task;
  if (o.a >= 0) s << " alloc=" << o.a;
  if (o.h >= 0) s << " v=" << o.h;
  if (o.h2 >= 0) s << " src=" << o.h2;
  if (fn_has_text(o.fn)) s << " text=" << enc(o.text);
  if (o.hasorig) s << " undamaged=" << enc(o.orig);
  if (o.shared >= 0) s << " shared=" << o.shared;
  if (o.alias >= 0) s << " within=" << o.alias << "+" << o.aoff;
  if (o.before) s << " before=" << o.before;
  if (o.after) s << " after=" << o.after;
  if (o.fn == F_SetBool || o.fn == F_SetInt || o.fn == F_SetLong || o.fn == F_SetLongLong || o.fn == F_DropText || o.fn == F_Locale || o.fn == F_Fill || o.fn == F_Down) s << " i=" << o.i;
  if (o.fn == F_SetNum || o.fn == F_SetDouble) { char b[64]; snprintf(b, sizeof b, "%a", o.d); s << " d=" << b; }
  if (o.fn == F_ArrayGet || o.fn == F_ArrayDel) s << " idx=" << o.idx;
  if (o.fk) s << " refuse=" << o.fk << "+" << o.fn_ << (o.retry ? " retry=1" : " retry=0");
  if (o.obs) s << " obs=" << o.obs;
  if (o.scrub >= 0) s << " takeback=" << o.scrub << " how=" << o.scrubmode;
  return s.str();
}
std::string plan_to_text(const Plan &p) {
  std::ostringstream s;
  s << "plan " << p.prop << " subject=" << p.subject << " seed=" << p.seed << " checks=" << p.checks << " big=" << p.big << "\n";
  s << "heap seed=" << p.env.seed << " fill=" << p.env.fill << " reuse=" << p.env.reuse << " gap=" << p.env.gap << "\n";
  if (p.ntasks) s << "tasks " << p.ntasks << " first=" << p.first << "\n";
  for (auto &q : p.sched) s << "switch task=" << q.task << " at=" << q.kind << q.n << " to=" << q.target << "\n";
  for (auto &o : p.ops) s << op_to_text(o) << "\n";
  return s.str();
}
bool plan_from_text(const std::string &t, Plan &p) {
  p = Plan();
  std::istringstream in(t);
  std::string line;
  std::map<std::string, int> names;
  for (int i = 0; i <= F_COUNT; i++) names[fn_names[i]] = i;
  bool seen = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    std::map<std::string, std::string> kv;
    auto rest = [&] { std::string x; while (l >> x) { size_t e = x.find('='); if (e != std::string::npos) kv[x.substr(0, e)] = x.substr(e + 1); } };
    auto num = [&](const char *k, long long d) { return kv.count(k) ? atoll(kv[k].c_str()) : d; };
    if (w == "plan") { seen = true; l >> p.prop; rest(); p.subject = kv["subject"]; p.seed = strtoull(kv["seed"].c_str(), 0, 10); p.checks = num("checks", 0); p.big = num("big", 0); }
    else if (w == "heap") { rest(); p.env.seed = strtoull(kv["seed"].c_str(), 0, 10); p.env.fill = num("fill", 0); p.env.reuse = num("reuse", 0); p.env.gap = num("gap", 1); }
    else if (w == "tasks") { l >> p.ntasks; rest(); p.first = num("first", 0); }
    else if (w == "switch") { rest(); rt::SchedPoint q; q.task = num("task", 0); q.target = num("to", 0); std::string at = kv["at"]; q.kind = at.empty() ? 'a' : at[0]; q.n = at.empty() ? 0 : strtoull(at.c_str() + 1, 0, 10); p.sched.push_back(q); }
    else if (w == "op") {
      Op o; std::string f; l >> o.uid >> f; rest();
      if (!names.count(f)) return false;
      o.fn = (Fn)names[f]; o.task = num("task", T_SETUP); o.a = num("alloc", -1); o.h = num("v", -1); o.h2 = num("src", -1);
      o.text = dec(kv["text"]); o.hasorig = kv.count("undamaged"); if (o.hasorig) o.orig = dec(kv["undamaged"]);
      o.shared = num("shared", -1); o.before = num("before", 0); o.after = num("after", 0); o.i = num("i", 0); o.idx = num("idx", 0);
      if (kv.count("d")) o.d = strtod(kv["d"].c_str(), 0);
      if (kv.count("refuse")) { o.fk = atoi(kv["refuse"].c_str()); size_t x = kv["refuse"].find('+'); o.fn_ = x == std::string::npos ? 1 : atoi(kv["refuse"].c_str() + x + 1); o.retry = num("retry", 1); }
      if (kv.count("within")) { o.alias = atoi(kv["within"].c_str()); size_t x = kv["within"].find('+'); o.aoff = x == std::string::npos ? 0 : atoi(kv["within"].c_str() + x + 1); }
      o.obs = num("obs", 0); o.scrub = num("takeback", -1); o.scrubmode = num("how", 0);
      p.ops.push_back(o);
    } else return false;
  }
  return seen;
}
