// Seeded plan generation. Looks only at the model, never at the library.
#include "gen.h"
#include "exec.h"
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
namespace {
struct Gen {
  Rng r; Plan p; World W; int uid = 1;
  // swarm: weights of operation families
  enum Fam { NAV, READ, SCALAR, NUM, STR, KEY, PARSE, ADD, ADDFAST, SET, SETFAST, COPY, MOVE, DEL, STRINGIFY, GETNUM, NEWV, NEWA, RELEASE, DROP, BUILD, NFAM };
  double w[NFAM];
  int task = T_SETUP; int nshared = 0; bool useshared = false; std::vector<std::string> sharedtexts;
  double aliasing = 0, dmg = 0, scrub = 0, fast = 0.3, slice = 0.5, bigtext = 0.01, longnum = 0.03, longtext = 0, nonfinite = 0.02; int maxhandles = 22; size_t maxnodes = 120, doclen = 14; double deepdocs = 0, widedocs = 0; size_t deepmax = 8000, widemax = 8000; double oldhandles = 0.15, invalid = 0.05, xcopy = 0.35; int obsnone = 25;
  bool allow_release = true, nolimit = false, huge = false; size_t textcap = 20000, tl = 0;
  explicit Gen(uint64_t seed) : r(seed) { for (auto &x : w) x = 1; }

  std::string hex4(unsigned v) { static const char *d[] = {"0123456789abcdef", "0123456789ABCDEF"}; std::string o; for (int k = 12; k >= 0; k -= 4) o += d[r.below(2)][(v >> k) & 15]; return o; }
  std::string uesc() { // one escaped code point, with a taste for the edges of the encodings
    static const unsigned edge[] = {0x1, 0x1f, 0x20, 0x22, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fc00, 0x10ffff};
    unsigned c = r.p(0.6) ? edge[r.below(30)] : r.p(0.6) ? (unsigned)r.below(0xd800) : 0x10000 + (unsigned)r.below(0x100000);
    if (c < 0x10000) return "\\u" + hex4(c);
    c -= 0x10000; return "\\u" + hex4(0xd800 + (c >> 10)) + "\\u" + hex4(0xdc00 + (c & 0x3ff));
  }
  std::string numshape() { // every shape of the number grammar
    auto digits = [&](size_t n) { std::string o; while (n--) o += (char)('0' + (r.p(0.3) ? (r.p(0.5) ? 0 : 9) : r.below(10))); return o; };
    std::string s = r.p(0.4) ? "-" : "";
    if (r.p(0.3)) s += "0"; else { s += (char)('1' + r.below(9)); s += digits(r.p(0.7) ? r.below(5) : r.below(22)); }
    if (r.p(0.4)) s += "." + digits(1 + r.below(r.p(0.8) ? 4 : 20));
    if (r.p(0.4)) { s += r.p(0.5) ? "e" : "E"; if (r.p(0.6)) s += r.p(0.5) ? "-" : "+"; s += digits(1 + r.below(2)); }
    return s;
  }
  std::string badnum() { // one character away from a number
    static const char *bad[] = {"", "-", "01", "1.", ".5", "1e", "+1", "0x10", "1 ", " 1", "NaN", "1,2", "--1", "1e+", "-01", "00", "1e-", "-.5", "1.e5", "0.", "-0.", "1E+-2", "1..2", "1e5.5", "e5", "Infinity", "1f", "0b1", "1_0"};
    if (r.p(0.4)) return bad[r.below(29)];
    static const char cs[] = "/:.eE+-, aA0x\"\t";
    std::string s = numshape(); size_t k = r.below(s.size() + 1);
    if (r.p(0.5) || k == s.size()) s.insert(k, 1, cs[r.below(sizeof cs - 1)]); else if (r.p(0.7)) s[k] = cs[r.below(sizeof cs - 1)]; else s.erase(k, 1);
    return s;
  }
  std::string rawstr(bool key) {
    static const char *pool[] = {"", "a", "b", "key", "x y", "\\n", "\\\"", "\\\\", "\\/", "\\u0041", "\\u00e9", "\\u4e2d", "\\uFFFD", "\\uE000", "\\ud83d\\ude00", "\\uD800\\uDC00", "\xe4\xbd\xa0\xe5\xa5\xbd", "caf\xc3\xa9", "\xf0\x9f\x98\x80", "\\b\\f\\r\\t", "0", "true", "null", "1e5", "{}", "[1,2]", "\\u0000z", "\\u001f", "\x7f", "a\\u0022b", ",", ":", "name", "value", "id", "\\u000a"};
    static const char *keys[] = {"a", "b", "c", "k", "", "key", "a\\u0062", "\\\\", "name", "\xe4\xbd\xa0", "aa", "\\\""};
    if (key && r.p(tl ? 0.45 : 0.85)) return keys[r.below(12)];
    if (r.p(0.06)) { std::string e; for (int k = 1 + (int)r.below(3); k--;) e += uesc(); return e; }
    std::string s = pool[r.below(sizeof pool / sizeof *pool)];
    int n = r.p(0.3) ? (int)r.below(6) : 0;
    while (n--) s += pool[r.below(sizeof pool / sizeof *pool)];
    if (r.p(0.06)) { size_t k = r.below(r.p(0.2) ? 700 : 90); char c = "abcxyz 01"[r.below(9)]; s += std::string(k, c); }
    if (r.p(bigtext)) s += std::string(1 + r.below(6000), 'q');
    if (tl && r.p(longtext)) return lengthy(r.p(0.6) ? "" : s);
    if (r.p(longtext)) { const char *u[] = {"q", "\\n", "\\u0041", "\\ud83d\\ude00", "\xe4\xbd\xa0"}; std::string k = u[r.below(5)]; size_t n = r.p(0.4) ? 200 + r.below(120) : 500 + r.below(textcap); if (huge && r.p(0.5)) n = 65530 + r.below(2000); while (n--) s += k; }
    return s;
  }
  // a string of about tl bytes, with something else in the middle or at the end
  std::string lengthy(std::string tail) {
    static const char *u[] = {"q", "0", "\\n", "\\u0041", "\\ud83d\\ude00", "\xe4\xbd\xa0", "abcdefg"};
    std::string k = u[r.p(0.5) ? r.below(2) : r.below(7)], t; size_t n = tl + r.below(r.p(0.8) ? 14 : 1 + tl / 8);
    while (t.size() + k.size() + tail.size() <= n) { t += k; if (r.p(0.0005)) t += uesc(); }
    while (t.size() + tail.size() < n) t += 'z';
    return t + tail;
  }
  std::string plain() { // arbitrary text for the escaping setters
    static const char *pool[] = {"", "a", "tab\t", "nl\n", "\"", "\\", "/", "\x01\x02\x1f", "\x7f", "caf\xc3\xa9", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", "\\n", "\\u0041", "{\"a\":1}", " ", "\b\f\r", "0"};
    std::string s; int n = 1 + (int)r.below(4);
    while (n--) s += pool[r.below(sizeof pool / sizeof *pool)];
    if (r.p(0.15)) for (int k = 1 + (int)r.below(3); k--;) s += (char)(r.p(0.6) ? 1 + r.below(0x20) : 1 + r.below(255)); // any byte
    if (r.p(0.05)) s += std::string(r.below(200), "\n\"a\\"[r.below(4)]);
    if (r.p(bigtext)) s += std::string(1 + r.below(3000), '\x01');
    if (tl && r.p(longtext)) { size_t n = tl + r.below(14); char c = "\x01\"aa"[r.below(4)]; if (r.p(0.5)) n /= c == 1 ? 6 : c == '"' ? 2 : 1; return (r.p(0.3) ? s : "") + std::string(n, c) + (r.p(0.3) ? s : ""); }
    if (r.p(longtext)) s += std::string(r.p(0.3) ? 100 + r.below(200) : 1000 + r.below(textcap * 3), "\x01\"a\n"[r.below(4)]);
    if (huge && r.p(0.1)) s += std::string(r.p(0.5) ? 65500 + r.below(60) : 1048500 + r.below(120), "aaa\n"[r.below(4)]);
    return s;
  }
  std::string num() {
    static const char *pool[] = {"0", "-0", "1", "-1", "7", "42", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "3.5", "-0.25", "1e10", "1E+2", "2e-3", "0.1", "123456789", "1.7976931348623157e308", "4.9e-324", "100000000000000000000", "12345678901234567890123", "0e0", "5E0", "65536"};
    if (tl && r.p(longtext)) { // one part of the number is long, any of them
      size_t n = tl + r.below(14), k = r.below(4); auto run = [&](size_t q) { std::string o(q, (char)('0' + r.below(10))); if (q) o[r.below(q)] = (char)('0' + r.below(10)); return o; };
      std::string o = r.p(0.3) ? "-" : ""; if (k == 0 || r.p(0.7)) o += (char)('1' + r.below(9)) + run(k == 0 ? n : r.below(4)); else o += "0";
      if (k == 1 || k == 2 || r.p(0.4)) o += "." + run(k == 1 ? n : k == 2 ? n / 2 : 1 + r.below(4));
      if (k >= 2 || r.p(0.4)) { o += r.p(0.5) ? "e" : "E"; if (r.p(0.6)) o += r.p(0.5) ? "-" : "+"; std::string e = k == 3 ? std::string(n, '0') : k == 2 ? std::string(n / 2, '0') : ""; e += std::to_string(r.below(30)); o += e; }
      return o;
    }
    if (r.p(longtext)) return std::string(huge && r.p(0.3) ? 65530 + r.below(2000) : r.p(0.3) ? 100 + r.below(200) : 500 + r.below(textcap * 3 / 2), '7');
    if (r.p(longnum)) { std::string s = std::to_string(1 + r.below(9)); s += std::string(r.below(r.p(0.3) ? 400 : 150), (char)('0' + r.below(10))); if (r.p(0.3)) s += "." + std::string(1 + r.below(120), '3'); return s; }
    if (r.p(0.5)) return pool[r.below(sizeof pool / sizeof *pool)];
    if (r.p(0.4)) return numshape();
    return std::to_string(r.range(-100000, 100000));
  }
  std::string ws() { if (tl && r.p(0.02)) return std::string(tl + r.below(14), " \n"[r.below(2)]); static const char *p[] = {"", "", "", "", " ", "\n", "\t ", "\r\n"}; if (r.p(0.006)) { std::string o; for (size_t n = 3 + r.below(r.p(0.9) ? 40 : 400); n--;) o += " \t\n\r"[r.p(0.7) ? 0 : r.below(4)]; return o; } return p[r.below(8)]; }
  void val(std::string &o, int &budget, int depth) {
    budget--;
    size_t k = depth > 7 || budget <= 0 ? r.below(6) : r.below(10);
    o += ws();
    switch (k) {
    case 0: o += "null"; break;
    case 1: o += r.p(0.5) ? "true" : "false"; break;
    case 2: case 3: o += num(); break;
    case 4: case 5: o += '"'; o += rawstr(false); o += '"'; break;
    default: {
      bool obj = k >= 8; o += obj ? '{' : '['; o += ws();
      int n = (int)r.below(r.p(0.2) ? 8 : 4);
      for (int i = 0; i < n; i++) { if (i) o += ','; if (obj) { o += ws(); o += '"'; o += rawstr(true); o += '"'; o += ws(); o += ':'; } val(o, budget, depth + 1); }
      o += obj ? '}' : ']';
    }
    }
    o += ws();
  }
  std::string deep() { // nesting is the point
    size_t d = r.p(0.25) ? 100 + r.below(1000) : 1000 + r.below(deepmax);
    static const char *open[] = {"[", "{\"a\":", "[1,", "{\"b\":null,\"a\":", "[\"x\",[],", "{\"\":"}, *shut[] = {"]", "}", ",2]", ",\"c\":[{}]}", "]", "}"};
    int mode = (int)r.below(4), a = (int)r.below(6), b = (int)r.below(6);
    std::string o, c; std::vector<int> lv;
    for (size_t i = 0; i < d; i++) { int k = mode == 0 ? a : mode == 1 ? (i & 1 ? a : b) : mode == 2 ? (r.p(0.9) ? a : (int)r.below(6)) : (int)r.below(6); o += open[k]; lv.push_back(k); }
    o += r.p(0.5) ? "0" : "[]";
    while (!lv.empty()) { o += shut[lv.back()]; lv.pop_back(); }
    return o;
  }
  std::string wide() { // many siblings, or one long string
    size_t n = r.p(0.3) ? 250 + r.below(20) : r.p(0.3) ? 300 + r.below(1000) : 1000 + r.below(widemax); if (huge) n = 65530 + r.below(40);
    if (r.p(0.25)) return "\"" + std::string(n * 20, "ab\x7f"[r.below(2)]) + (r.p(0.5) ? "\\n\"" : "\"");
    bool obj = r.p(0.5), nest = r.p(0.3); std::string o = obj ? "{" : "[";
    for (size_t i = 0; i < n; i++) { if (i) o += ','; if (obj) { o += "\"k"; o += std::to_string(i); o += "\":"; } o += nest && i % 7 == 0 ? "[1]" : i % 3 == 0 ? "\"s\"" : i % 3 == 1 ? std::to_string(i) : "null"; }
    return o + (obj ? "}" : "]");
  }
  std::string doc() {
    if (r.p(deepdocs)) return deep();
    if (r.p(widedocs)) return wide();
    std::string o; int b = 1 + (int)r.below(doclen);
    if (r.p(0.75)) { // usually a container with something in it
      bool obj = r.p(0.5); o += obj ? '{' : '[';
      int n = 1 + (int)r.below(5);
      for (int i = 0; i < n; i++) { if (i) o += ','; if (obj) { o += '"'; o += rawstr(true); o += "\":"; } val(o, b, 1); }
      o += obj ? '}' : ']';
    } else val(o, b, 0);
    if (r.p(0.01)) { int d = 30 + (int)r.below(200); o = std::string(d, '[') + o + std::string(d, ']'); }
    if (r.p(bigtext)) { std::string m = "["; int n = 100 + (int)r.below(300); for (int i = 0; i < n; i++) { if (i) m += ','; m += std::to_string(r.below(1000)); } o = m + "," + o + "]"; }
    return o;
  }
  // ---------------------------------------------------------------- choices
  std::vector<int> live(bool own) {
    std::vector<int> v;
    for (auto &kv : W.handles) if (W.handle(kv.first) && (!own || kv.second.task == task)) v.push_back(kv.first);
    return v;
  }
  bool replaced(int u) { auto *n = W.handles[u].n; return n && World::root(n)->ghost; }
  std::vector<int> allocs() { std::vector<int> v; for (auto &kv : W.allocs) if (kv.second.live && kv.second.task == task) v.push_back(kv.first); return v; }
  int pick(const std::function<bool(const Handle &)> &f) {
    std::vector<int> v;
    bool old = r.p(oldhandles); // also consider handles into content that has been replaced
    for (int u : live(true)) if (f(W.handles[u]) && (old || !replaced(u))) v.push_back(u);
    if (v.empty()) return -1;
    if (r.p(0.4)) return v[v.size() - 1 - r.below(std::min<size_t>(v.size(), 4))]; // recent ones
    return v[r.below(v.size())];
  }
  // a key of the object, one that is almost one, or any
  std::string somekey(const Node *n, double hit) {
    if (!n || n->type != 3 || n->kids.empty() || !r.p(hit)) return rawstr(true);
    std::string k = n->kids[r.below(n->kids.size())]->key;
    if (r.p(0.08) && k.find('\\') == std::string::npos) switch (r.below(4)) {
      case 0: if (!k.empty()) k.pop_back(); break;
      case 1: k += k.empty() ? 'a' : k.back(); break;
      case 2: if (!k.empty()) k[r.p(0.6) ? k.size() - 1 : r.below(k.size())] ^= 1; break;
      default: if (!k.empty()) k = k.substr(r.below(k.size() + 1)); break;
    }
    return k;
  }
  int any() { return pick([](const Handle &) { return true; }); }
  void spoil(Op &o) { // no longer the content of a JSON string
    static const char *bad[] = {"\"", "a\"b", "\\", "\\x", "\\u12", "\\ud800", "\\udc00", "\\ud800\\u0041", "\n", "\\u00g0", "\\u004:", "\\u/041", "\\u0@41", "\\u00`1", "\\u0G41", "\\ud800\\udbff", "\\ud83d\\ue000", "\\ud83dx", "\\ud83d\\n", "\\ud83d\\udg00", "\\a", "\\0", "\\U0041", "\x1f", "\t", "\\dfff\\ud800", "\\ud83d\\"};
    o.hasorig = true; o.orig = o.text; if (o.text.size() > 60 && r.p(0.4)) o.text[o.text.size() - 1 - r.below(12)] = r.p(0.5) ? '"' : '\t'; else { o.text += bad[r.below(27)]; if (r.p(0.5)) o.text += "tail"; }
  }
  struct Known { int uid, task; std::string text; int cls; };
  std::vector<Known> known;
  static int text_class(Fn f) { // 1 documents, 2 numbers, 3 strings and keys
    if (fn_is_parse(f) || f == F_Stringify) return 1;
    return f == F_SetNumStr || f == F_SetNumStrFast || f == F_SetNumStrLen || f == F_SetNumStrLenFast || f == F_GetNumStr || f == F_GetNumFast ? 2 : 3;
  }
  // the caller gives a text again, or a part of it, or hands one back that the library returned
  void try_alias(Op &o, bool ln) {
    int cls = text_class(o.fn);
    std::vector<int> c, same;
    for (size_t i = 0; i < known.size(); i++) if (known[i].cls == cls && known[i].task == task && known[i].text.size() < 4000) { c.push_back((int)i); if (ln ? known[i].text.compare(0, o.text.size(), o.text) == 0 : known[i].text == o.text) same.push_back((int)i); }
    if (c.empty()) return;
    if (!same.empty() && r.p(0.5)) { o.alias = known[same[r.below(same.size())]].uid; return; }
    const Known &k = known[r.p(0.5) ? c[c.size() - 1 - r.below(std::min<size_t>(c.size(), 4))] : c[r.below(c.size())]];
    size_t off = cls == 1 || r.p(0.75) ? 0 : r.below(k.text.size() + 1);
    o.alias = k.uid; o.aoff = (int)off; o.text = k.text.substr(off);
    if (ln && cls != 1 && r.p(0.6)) o.text.resize(r.below(o.text.size() + 1));
    if (!ln && o.text.find('\0') != std::string::npos) o.text.resize(o.text.find('\0'));
  }
  bool emit(Op o) {
    o.uid = uid; o.task = task;
    if (fn_has_text(o.fn)) {
      bool ln = fn_has_len(o.fn);
      if (useshared && !o.hasorig && r.p(0.3) && !sharedtexts.empty() && (fn_is_parse(o.fn))) { o.shared = (int)r.below(sharedtexts.size()); o.text = sharedtexts[o.shared]; }
      if (aliasing > 0 && !o.hasorig && o.shared < 0 && o.alias < 0 && r.p(aliasing)) try_alias(o, ln);
      if (o.alias >= 0) ; else
      if (o.shared < 0 && r.p(slice)) { o.before = (int)r.below(20); o.after = (int)r.below(40); }
      if (dmg > 0 && !o.hasorig && o.shared < 0 && o.alias < 0 && r.p(dmg) && o.fn != F_ObjGet && o.fn != F_ObjGetLen && o.fn != F_ObjDel) { o.hasorig = true; o.orig = o.text; o.text = damage(r, o.text, ln); }
      if (scrub > 0 && o.shared < 0 && o.alias < 0 && r.p(scrub)) { o.scrub = r.p(0.6) ? 0 : (int)r.below(6); o.scrubmode = (int)r.below(2); }
    }
    static const int modes[] = {0, 1, 2};
    o.obs = (int)r.below(100) < obsnone ? 3 : modes[r.below(3)];
    Exp e = W.expect(o);
    if (e.skip) return false;
    W.commit(o, e, e.ok, (void *)1);
    if (aliasing > 0) { // texts that later calls may be given again
      if (fn_has_text(o.fn) && o.alias < 0 && o.shared < 0 && o.scrub < 0) known.push_back({o.uid, o.task, o.text, text_class(o.fn)});
      else if ((e.kind == 's' || e.kind == 'l') && e.ok && !e.s.empty()) known.push_back({o.uid, o.task, e.s, text_class(o.fn)});
    }
    p.ops.push_back(o); uid++;
    return true;
  }
  Op mk(Fn f, int h = -1) { Op o; o.fn = f; o.h = h; return o; }
  void new_alloc() { Op o = mk(F_NewAllocator); emit(o); }
  bool new_value() { auto a = allocs(); if (a.empty()) return false; Op o = mk(F_NewValue); o.a = r.p(0.5) ? a.back() : a[r.below(a.size())]; return emit(o); }
  size_t total() { size_t n = 0; for (int u : live(false)) { auto &h = W.handles[u]; if (h.n && !h.n->parent) n += W.nodecount(h.n); } return n; }

  bool step() {
    double tot = 0; for (double x : w) tot += x;
    double c = (double)(r.next() & 0xffffff) / 0x1000000 * tot;
    int f = 0; while (f < NFAM - 1 && c >= w[f]) c -= w[f++];
    int nh = 0; for (int u : live(true)) nh += replaced(u) ? 1 : 3;
    bool many = nh >= maxhandles * 3, large = total() > maxnodes;
    int h;
    auto nonempty = [](const Handle &x) { return x.n != nullptr; };
    auto cont = [](const Handle &x) { return x.n && (x.n->type == 2 || x.n->type == 3); };
    auto arr = [](const Handle &x) { return x.n && x.n->type == 2; };
    auto obj = [](const Handle &x) { return x.n && x.n->type == 3; };
    switch (f) {
    case NAV: {
      if (many) return false;
      if (deepdocs > 0 && r.p(0.5)) { // far down into a document
        auto depth = [](const Node *n) { size_t d = 0; while (n && !n->kids.empty()) { n = n->kids[down_step(n)]; d++; } return d; };
        h = pick([&](const Handle &x) { return depth(x.n) > 40; });
        if (h >= 0) { size_t d = depth(W.handles[h].n); Op o = mk(F_Down, h); o.i = r.p(0.5) ? d - r.below(3) : 1 + r.below(d); return emit(o); }
      }
      switch (r.below(5)) {
      case 0: h = pick(cont); if (h < 0) return false; return emit(mk(F_Begin, h));
      case 1: h = r.p(0.8) ? pick([](const Handle &x) { return x.n && x.n->parent; }) : any(); if (h < 0) return false; return emit(mk(F_Next, h));
      case 2: { h = r.p(0.9) ? pick(obj) : any(); if (h < 0) return false; Op o = mk(r.p(0.5) ? F_ObjGet : F_ObjGetLen, h); o.text = somekey(W.handles[h].n, 0.8); return emit(o); }
      default: { h = r.p(0.9) ? pick(arr) : any(); if (h < 0) return false; Op o = mk(F_ArrayGet, h); auto *n = W.handles[h].n; size_t k = n ? n->kids.size() : 0; o.idx = r.p(0.9) && k ? r.below(k) : r.p(0.9) ? k + r.below(3) : r.p(0.5) ? 0xffffffffu : 65535; return emit(o); }
      }
    }
    case READ: {
      static const Fn g[] = {F_GetStr, F_GetUnEscapeStr, F_GetNumStr, F_GetKey, F_GetUnEscapeKey, F_GetStrFast, F_GetNumFast, F_GetKeyFast, F_GetBool, F_IsNull, F_Type, F_SizeOf};
      Fn fn = g[r.below(12)];
      int t = fn == F_GetStr || fn == F_GetUnEscapeStr || fn == F_GetStrFast ? 4 : fn == F_GetNumStr || fn == F_GetNumFast ? 6 : 0;
      h = t && r.p(0.85) ? pick([t](const Handle &x) { return x.n && x.n->type == t; }) : any();
      return h >= 0 && emit(mk(fn, h));
    }
    case SCALAR: {
      h = any(); if (h < 0) return false;
      if (W.handles[h].n && W.nodecount(W.handles[h].n) > 3 && r.p(0.6)) return false; // keep documents alive most of the time
      static const Fn g[] = {F_SetNull, F_SetBool, F_SetArray, F_SetObj, F_SetArray, F_SetObj};
      Op o = mk(g[r.below(6)], h); o.i = r.below(2); return emit(o);
    }
    case NUM: {
      h = any(); if (h < 0 || (W.handles[h].n && W.nodecount(W.handles[h].n) > 3 && r.p(0.6))) return false;
      static const Fn g[] = {F_SetNumStr, F_SetNumStrLen, F_SetNumStrFast, F_SetNumStrLenFast, F_SetNum, F_SetDouble, F_SetInt, F_SetLong, F_SetLongLong};
      Fn fn = g[r.below(9)];
      Op o = mk(fn, h);
      if (fn_has_text(fn)) { if (fn_borrows(fn) && !r.p(fast * 2)) o.fn = r.p(0.5) ? F_SetNumStr : F_SetNumStrLen; o.text = num(); if (r.p(invalid)) { o.hasorig = true; o.orig = o.text; if (o.text.size() > 60) o.text[o.text.size() - 1 - r.below(12)] = "a.-+ e"[r.below(6)]; else o.text = badnum(); } }
      else if (fn == F_SetNum || fn == F_SetDouble) {
        static const double d[] = {0, -0.0, 1, -1, 0.1, 1e300, -1e-300, 4.9e-324, 1.7976931348623157e308, 3.141592653589793, 1e15, 123456.789, 1e21, -2147483648.0};
        o.d = r.p(0.5) ? d[r.below(14)] : (double)r.range(-1000000, 1000000) / (1 + r.below(999));
        if (r.p(nonfinite)) o.d = r.p(0.34) ? std::numeric_limits<double>::infinity() : r.p(0.5) ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
      } else {
        static const long long v[] = {0, -1, 1, 2147483647, -2147483648LL, 9223372036854775807LL, -9223372036854775807LL - 1, 1234567890123LL, -99};
        o.i = r.p(0.5) ? v[r.below(9)] : r.p(0.5) ? r.range(-100000, 100000) : (long long)(r.next() >> r.below(63)) * (r.p(0.5) ? 1 : -1);
        if (fn == F_SetInt) o.i = (int)o.i;
      }
      return emit(o);
    }
    case STR: {
      h = any(); if (h < 0 || (W.handles[h].n && W.nodecount(W.handles[h].n) > 3 && r.p(0.6))) return false;
      static const Fn g[] = {F_SetStr, F_SetStrLen, F_SetStrFast, F_SetStrLenFast, F_SetStrEscape, F_SetStrLenEscape};
      Fn fn = g[r.below(6)];
      if (fn_borrows(fn) && !r.p(fast * 2)) fn = r.p(0.5) ? F_SetStr : F_SetStrLen;
      Op o = mk(fn, h);
      o.text = fn == F_SetStrEscape || fn == F_SetStrLenEscape ? plain() : rawstr(false);
      if (fn != F_SetStrEscape && fn != F_SetStrLenEscape && r.p(invalid)) spoil(o);
      return emit(o);
    }
    case KEY: {
      h = any(); if (h < 0) return false;
      static const Fn g[] = {F_SetKey, F_SetKeyLen, F_SetKeyFast, F_SetKeyLenFast, F_SetKeyEscape, F_SetKeyLenEscape};
      Fn fn = g[r.below(6)];
      if (fn_borrows(fn) && !r.p(fast * 2)) fn = r.p(0.5) ? F_SetKey : F_SetKeyLen;
      Op o = mk(fn, h);
      o.text = fn == F_SetKeyEscape || fn == F_SetKeyLenEscape ? (r.p(0.5) ? rawstr(true) : plain()) : rawstr(true);
      if (fn != F_SetKeyEscape && fn != F_SetKeyLenEscape && r.p(invalid)) spoil(o);
      return emit(o);
    }
    case PARSE: {
      if (large && !nolimit) return false;
      h = r.p(0.6) ? pick([](const Handle &x) { return x.n == nullptr; }) : any();
      if (h < 0) h = any();
      if (h < 0) return false;
      Op o = mk(r.p(fast) ? F_ParseFast : r.p(0.5) ? F_Parse : F_ParseLen, h);
      o.text = doc();
      if (r.p(invalid)) { o.hasorig = true; o.orig = o.text; static const char *bad[] = {",", "]", "}", "x", "1", "\"", "[", "{"}; o.text += bad[r.below(8)]; }
      return emit(o);
    }
    case ADD: case ADDFAST: {
      if (large && f == ADD) return false;
      bool toarr = r.p(0.5);
      h = r.p(0.95) ? (toarr ? pick(arr) : pick(obj)) : any();
      if (h < 0) return false;
      int ha = W.handles[h].alloc; bool x = r.p(xcopy);
      int s = pick([&](const Handle &q) { return q.n && (toarr || q.n->haskey) && (f == ADD ? (x ? q.alloc != ha : true) : q.alloc == ha); });
      if (s < 0) s = any();
      if (s < 0) return false;
      if (f == ADDFAST && W.handles[h].n && r.p(0.04)) { const Node *up = r.p(0.5) ? W.handles[h].n : World::root(W.handles[h].n); int q = pick([&](const Handle &x) { return x.n == up; }); if (q >= 0) s = q; } // into itself
      Op o = mk(toarr ? (f == ADD ? F_ArrayAdd : F_ArrayAddFast) : f == ADD ? F_ObjAdd : F_ObjAddFast, h); o.h2 = s;
      if (f == ADD && W.handles[s].n && W.nodecount(W.handles[s].n) > maxnodes) return false;
      return emit(o);
    }
    case SET: case SETFAST: {
      if (large && f == SET) return false;
      h = any(); if (h < 0) return false;
      int ha = W.handles[h].alloc; bool x = r.p(xcopy);
      int s = pick([&](const Handle &q) { return q.n && (f == SET ? (x ? q.alloc != ha : true) : q.alloc == ha); });
      if (s < 0) return false;
      if (f == SETFAST && W.handles[h].n && W.handles[h].n->parent && r.p(0.04)) { const Node *up = World::root(W.handles[h].n); int q = pick([&](const Handle &x) { return x.n == up; }); if (q >= 0) s = q; } // into itself
      Op o = mk(f == SET ? F_Set : F_SetFast, h); o.h2 = s;
      return emit(o);
    }
    case COPY: if (many || large) return false; h = r.p(0.95) ? pick(nonempty) : any(); return h >= 0 && emit(mk(F_Copy, h));
    case MOVE: h = r.p(0.85) ? pick([](const Handle &x) { return x.n && x.n->parent; }) : any(); return h >= 0 && emit(mk(F_Move, h));
    case DEL: {
      if (r.p(0.5)) { h = pick(arr); if (h < 0) return false; Op o = mk(F_ArrayDel, h); size_t k = W.handles[h].n->kids.size(); o.idx = r.p(0.9) && k ? (r.p(0.4) ? k - 1 : r.below(k)) : k; return emit(o); }
      h = pick(obj); if (h < 0) return false;
      Op o = mk(F_ObjDel, h); o.text = somekey(W.handles[h].n, 0.9); return emit(o);
    }
    case STRINGIFY: h = any(); return h >= 0 && emit(mk(F_Stringify, h));
    case GETNUM: {
      static const Fn g[] = {F_GetNum, F_GetDouble, F_GetInt, F_GetLong, F_GetLongLong};
      h = r.p(0.9) ? pick([](const Handle &x) { return x.n && x.n->type == 6; }) : any();
      return h >= 0 && emit(mk(g[r.below(5)], h));
    }
    case NEWV: if (many) return false; return new_value();
    case NEWA: if (allocs().size() >= 5) return false; new_alloc(); return new_value();
    case RELEASE: {
      if (!allow_release) return false;
      auto a = allocs(); if (a.size() < 2) return false;
      Op o = mk(F_ReleaseAllocator); o.a = a[r.below(a.size())];
      return emit(o);
    }
    case DROP: { // withdraw a borrowed text whose borrower is no longer used
      std::vector<int> c; for (auto &o : p.ops) if (fn_borrows(o.fn) && o.task == task && o.shared < 0 && o.alias < 0) c.push_back(o.uid);
      if (c.empty()) return false;
      Op o = mk(F_DropText); o.i = c[r.below(c.size())];
      for (auto &q : p.ops) if (q.fn == F_DropText && q.i == o.i) return false;
      return emit(o);
    }
    case BUILD: return build();
    }
    return false;
  }
  // A value made from scratch by any setter, put somewhere by moving or copying, and what may follow at once.
  bool build() {
    int nh = 0; for (int u : live(true)) nh += replaced(u) ? 1 : 3;
    if (nh >= maxhandles * 3 || total() > maxnodes) return false;
    auto cont = [](const Handle &x) { return x.n && (x.n->type == 2 || x.n->type == 3); };
    int c = -1;
    if (r.p(0.6)) c = pick([&](const Handle &x) { return cont(x) && (r.p(0.5) || x.n->kids.empty()); });
    if (c < 0) { if (!new_value()) return false; c = p.ops.back().uid; if (!emit(mk(r.p(0.5) ? F_SetArray : F_SetObj, c))) return false; }
    auto fresh = [&]() -> int {
      Op nv = mk(F_NewValue); nv.a = r.p(0.85) ? W.handles[c].alloc : allocs()[r.below(allocs().size())]; if (!emit(nv)) return -1;
      return p.ops.back().uid;
    };
    auto fill = [&](int v) {
      static const Fn g[] = {F_SetNull, F_SetBool, F_SetArray, F_SetObj, F_SetNumStr, F_SetNumStrLen, F_SetNumStrFast, F_SetNumStrLenFast, F_SetNum, F_SetDouble, F_SetInt, F_SetLong, F_SetLongLong, F_SetStr, F_SetStrLen, F_SetStrFast, F_SetStrLenFast, F_SetStrEscape, F_SetStrLenEscape, F_Parse, F_ParseLen, F_ParseFast, F_SetKey, F_SetKeyLen, F_SetKeyFast, F_SetKeyLenFast, F_SetKeyEscape, F_SetKeyLenEscape, F_Set, F_SetFast};
      Op o = mk(g[r.below(30)], v);
      if (fn_borrows(o.fn) && fast == 0) o.fn = F_SetLong;
      if (fn_is_parse(o.fn)) { o.text = doc(); if (o.text.size() > 60) o.text = "[1]"; }
      else if (o.fn == F_SetNumStr || o.fn == F_SetNumStrLen || o.fn == F_SetNumStrFast || o.fn == F_SetNumStrLenFast) o.text = num();
      else if (fn_has_text(o.fn)) o.text = rawstr(r.p(0.5));
      else if (o.fn == F_Set || o.fn == F_SetFast) { o.h2 = pick([&](const Handle &q) { return q.n && (o.fn == F_Set || q.alloc == W.handles[v].alloc) && W.nodecount(q.n) < 12; }); if (o.h2 < 0) o.fn = F_SetNull; }
      o.i = r.range(-1000, 1000); o.d = (double)o.i / 4; if (o.fn == F_SetBool) o.i &= 1;
      return emit(o);
    };
    for (int k = 1 + (int)r.below(3); k--;) {
      int v = fresh(); if (v < 0) return true;
      for (int q = 1 + (int)r.below(2); q--;) fill(v);
      auto *cn = W.handles[c].n; if (!cn) return true;
      if (cn->type == 3 && !(W.handles[v].n && W.handles[v].n->haskey)) { Op o = mk(r.p(0.5) ? F_SetKey : F_SetKeyLen, v); o.text = rawstr(true); emit(o); }
      bool mv = W.handles[v].alloc == W.handles[c].alloc && r.p(0.7);
      Op o = mk(cn->type == 3 ? (mv ? F_ObjAddFast : F_ObjAdd) : mv ? F_ArrayAddFast : F_ArrayAdd, c); o.h2 = v; emit(o);
    }
    for (int k = (int)r.below(3); k--;) {
      auto *cn = W.handles[c].n; if (!cn || cn->kids.empty()) break;
      size_t i = r.p(0.4) ? 0 : r.p(0.5) ? cn->kids.size() - 1 : r.below(cn->kids.size());
      if (r.p(0.4)) { Op o = mk(cn->type == 3 ? F_ObjDel : F_ArrayDel, c); o.idx = i; if (cn->type == 3) o.text = cn->kids[i]->key; emit(o); }
      else {
        Op o = mk(cn->type == 3 ? F_ObjGet : F_ArrayGet, c); o.idx = i; if (cn->type == 3) o.text = cn->kids[i]->key;
        if (i == 0 && r.p(0.5)) { o = mk(F_Begin, c); }
        if (!emit(o)) break;
        int e = p.ops.back().uid; if (!W.handle(e)) break;
        switch (r.below(4)) { case 0: emit(mk(F_Move, e)); break; case 1: fill(e); break; case 2: emit(mk(F_Next, e)); break; default: emit(mk(F_Stringify, e)); }
      }
    }
    return true;
  }
  // Short-lived allocators filled with texts of every small length, so that requests land exactly at, just before and
  // just after the end of a block.
  void exactfit(size_t n) {
    while (n--) {
      new_alloc(); if (!new_value()) return;
      int h = p.ops.back().uid, a = W.handles[h].alloc;
      size_t k = 1 + r.below(6);
      for (size_t i = 0; i < k; i++) {
        static const Fn g[] = {F_SetStr, F_SetStrLen, F_SetStrEscape, F_SetNumStr, F_SetKey, F_SetKeyEscape, F_SetInt, F_SetLong, F_SetLongLong, F_SetNum, F_SetDouble, F_Parse, F_ParseLen, F_Stringify, F_GetStr, F_GetUnEscapeStr, F_GetNumStr, F_GetDouble, F_GetLong, F_GetKey, F_GetUnEscapeKey, F_Copy, F_SetStrLenEscape};
        Op o = mk(g[r.below(23)], h);
        size_t len = r.below(r.p(0.5) ? 20 : 90);
        if (o.fn == F_SetInt || o.fn == F_SetLong || o.fn == F_SetLongLong) { static const long long v[] = {-2147483648LL, 2147483647, -9223372036854775807LL - 1, 9223372036854775807LL, -1000000000000000000LL}; o.i = r.p(0.5) ? v[r.below(5)] : (long long)(r.next() >> r.below(63)) * (r.p(0.5) ? 1 : -1); if (o.fn == F_SetInt) o.i = (int)o.i; }
        else if (o.fn == F_SetNum || o.fn == F_SetDouble) { static const double d[] = {-1.7976931348623157e+308, -2.2250738585072014e-308, -1.2345678901234567e-100, 0.1, -4.9406564584124654e-324}; o.d = d[r.below(5)]; }
        else if (o.fn == F_SetNumStr) o.text = "1" + std::string(len, '3');
        else if (o.fn == F_SetStrEscape || o.fn == F_SetKeyEscape || o.fn == F_SetStrLenEscape) o.text = std::string(len, "\x01\"ab"[r.below(4)]);
        else if (fn_is_parse(o.fn)) { if (r.p(0.5)) o.text = "\"" + std::string(len, 'p') + "\""; else { o.text = "["; for (size_t j = 0; j < len / 8; j++) o.text += "1,"; o.text += "2]"; } }
        else if (fn_has_text(o.fn)) { while (o.text.size() < len) o.text += r.p(0.2) ? "\\n" : "x"; }
        emit(o);
        if (r.p(0.15) && new_value()) h = p.ops.back().uid;
      }
      if (r.p(0.8) && allow_release) { Op o = mk(F_ReleaseAllocator); o.a = a; emit(o); }
    }
  }
  void swarm() {
    for (int i = 0; i < NFAM; i++) w[i] = 0.3 + (double)r.below(100) / 50;
    for (int i = 0; i < NFAM; i++) if (r.p(0.18)) w[i] *= r.p(0.5) ? 0 : 4;
    w[NAV] += 1.5; w[PARSE] += 0.6; w[NEWV] += 0.6; w[RELEASE] *= 0.25; w[NEWA] *= 0.3; w[DROP] = 0; w[BUILD] *= 0.25; w[ADD] += 0.5; w[ADDFAST] += 0.5; w[DEL] += 0.3;
    fast = r.p(0.3) ? 0 : (double)r.below(60) / 100;
    doclen = 4 + r.below(24); obsnone = r.p(0.3) ? 70 : r.p(0.3) ? 0 : 30;
    xcopy = r.p(0.5) ? 0.5 : 0.1;
  }
  // texts of one length class: around the widths of counters and the sizes of scratch buffers
  void texts(size_t n) {
    static const size_t c[] = {120, 250, 505, 1018, 2040, 4090, 8186, 16378, 32762, 65528, 90000}; size_t k = r.p(0.45) ? r.below(4) : r.p(0.5) ? 4 + r.below(4) : 8 + r.below(3);
    tl = c[k]; longtext = 0.55; bigtext = longnum = 0; p.big = true; obsnone = 65; maxhandles = 10; maxnodes = 60; doclen = 2 + r.below(4); fast = 0.4; widedocs = deepdocs = 0;
    w[STR] += 2; w[KEY] += 2; w[NUM] += 2; w[READ] += 1.5; w[GETNUM] += 1; w[ADD] += 1; w[SET] += 1; w[COPY] += 0.5; w[STRINGIFY] += 1; w[BUILD] += 1; invalid = 0.12;
    start(1 + (int)r.below(2)); steps(n + 4);
  }
  // a few documents and texts beyond the sizes at which small counters, caches and shortcuts change over
  void keyslices() { // many keys, and the texts asked for, are parts of one text of the caller
    if (!new_value()) return;
    double oldscrub = scrub, oldal = aliasing, olddmg = dmg; scrub = 0; aliasing = 0.001; dmg = 0;
    int src = p.ops.back().uid; Op o = mk(r.p(0.5) ? F_SetStrFast : F_SetKeyFast, src); o.text = rawstr(true); if (o.text.size() > 40) o.text.resize(40);
    if (o.text.empty() || o.text.find('\0') != std::string::npos || r.p(0.3)) { static const char *t[] = {"a", "aaaa", "alphabet", "aabaabaab", "key", "\xc3\xa9\xc3\xa9", "0123456789abcdef0123456789"}; o.text = t[r.below(7)]; }
    if (r.p(0.3)) o.text += o.text;
    std::string T = o.text;
    if (!emit(o) || !new_value()) { scrub = oldscrub; aliasing = oldal; dmg = olddmg; return; }
    int S = p.ops[p.ops.size() - 2].uid, v = p.ops.back().uid;
    emit(mk(F_SetObj, v));
    auto part = [&](Fn f, int h) {
      Op q = mk(f, h); size_t off = r.p(0.6) ? 0 : r.below(T.size()); q.alias = S; q.aoff = (int)off; q.text = T.substr(off);
      if (fn_has_len(f)) { size_t n = q.text.size(); q.text.resize(r.p(0.3) ? n : r.p(0.5) && n > 1 ? n - 1 : r.below(n + 1)); }
      return q;
    };
    for (size_t k = 1 + r.below(5); k--;) {
      if (!new_value()) break;
      int e = p.ops.back().uid; Op q = mk(F_SetInt, e); q.i = (int)r.below(100); emit(q);
      static const Fn f[] = {F_SetKeyLenFast, F_SetKeyLenFast, F_SetKeyLenFast, F_SetKeyFast, F_SetKeyLen, F_SetKey};
      if (!emit(part(f[r.below(6)], e))) continue;
      Op q2 = mk(r.p(0.7) ? F_ObjAddFast : F_ObjAdd, v); q2.h2 = e; emit(q2);
    }
    static const Fn f[] = {F_ObjGet, F_ObjGetLen, F_ObjGet, F_ObjGetLen, F_ObjDel};
    for (size_t k = 3 + r.below(6); k--;) emit(part(f[r.below(5)], v));
    scrub = oldscrub; aliasing = oldal; dmg = olddmg;
  }
  void sizes(size_t n) {
    if (r.p(0.5)) return texts(n);
    p.big = true; obsnone = 75; maxhandles = 10; maxnodes = 3000; widedocs = 0.35; widemax = r.p(0.9) ? 400 : 3000; longtext = 0.12; fast = 0.4; textcap = 1500; if (r.p(0.3)) { deepdocs = 0.15; deepmax = 300; }
    if (r.p(0.06)) { huge = true; maxnodes = 200000; obsnone = 90; longtext = 0.02; maxhandles = 5; }
    start(1 + (int)r.below(2)); steps(n);
  }
  void steps(size_t n) { size_t tries = 0, start = p.ops.size(); while (p.ops.size() - start < n && tries++ < n * 12) step(); }
  void start(int na) { for (int i = 0; i < na; i++) { new_alloc(); new_value(); } if (r.p(0.8)) { Op o = mk(r.p(fast) ? F_ParseFast : F_Parse, any()); o.text = doc(); emit(o); } }
};
void heapenv(Gen &g) {
  g.p.env.seed = g.r.next() % 1000000; g.p.env.fill = (int)g.r.below(6); g.p.env.reuse = g.r.p(0.4); g.p.env.gap = g.r.p(0.8);
}
std::string pick_subject(Gen &g, std::initializer_list<std::pair<const char *, int>> l) {
  int t = 0; for (auto &x : l) t += x.second;
  int c = (int)g.r.below(t);
  for (auto &x : l) { if (c < x.second) { if (find_subject(x.first)) return x.first; break; } c -= x.second; }
  return "c-def";
}
std::string main_subject(Gen &g) { return pick_subject(g, {{"c-def", 3}, {"c-tiny", 4}, {"c-d3", 2}, {"c-mid", 2}, {"c-u64", 1}, {"c-mode3", 1}, {"c-exp2", 1}, {"c-o0", 1}, {"c-zero", 1}, {"short-tiny", 1}, {"cpp-tiny", 1}, {"hpp-tiny", 1}, {"cpp-mode3", 1}}); }
} // namespace

std::string damage(Rng &r, const std::string &t, bool lenfn) {
  std::string s = t;
  size_t n = s.size();
  auto cut = [&](size_t k) { s = s.substr(0, k); };
  int times = r.p(0.2) ? 2 : 1;
  while (times--) {
    n = s.size();
    switch (r.below(n ? 10 : 2)) {
    case 0: { static const char *ins[] = {"[", "]", "{", "}", "\"", "\\", ",", ":", "0", "-", ".", "e", "t", "nul", "\\u", "\\ud83d", "\x1f", "\xff", "tru", "fals", " ", "\\u00", "\xa0", "\x85", "\v", "\f", "\xc2\xa0", "\xef\xbb\xbf", "\xdd", "\xfd", "\\ud800", "\\udbff", "\\udc00", "\\udfff", "\\ud83d\\ude", "\\uDBFF\\uDBFF", "\\ud83d\\u0041", "        ", "\n\n\n\n\n\n\n\n\n"}; size_t a = r.below(n + 1); if (r.p(0.4)) { size_t b = s.find_first_of("[]{},:", a); if (b != std::string::npos) a = b + r.below(2); } s.insert(a, ins[r.below(39)]); break; }
    case 1: s += "tfn\"\\[{-,0"[r.below(10)]; break;
    case 2: case 3: cut(r.below(n)); break;                                     // short read
    case 4: s[r.below(n)] ^= (char)(1 << r.below(8)); break;                     // bit flip
    case 5: { size_t a = r.below(n), l = 1 + r.below(std::min<size_t>(n - a, 8)); s.erase(a, l); break; } // lost bytes
    case 6: { size_t a = r.below(n), l = 1 + r.below(std::min<size_t>(n - a, 12)); s.insert(r.below(n), s.substr(a, l)); break; } // duplicated bytes
    case 7: { size_t a = r.below(n); for (size_t i = a; i < n && i < a + 1 + r.below(16); i++) s[i] = 0; break; } // torn write: zeroed sector
    case 9: { // one byte changed to something almost right
      static const char cs[] = "/:.eE+-,gG@`{}[]\"\\ \v\f\x1f\x7f\x80'0tTuU;"; size_t a = r.below(n);
      if (r.p(0.4)) { size_t b = s.find_first_of("0123456789abcdefABCDEFtrulsn:,\\.-+", a); if (b != std::string::npos) a = b; }
      s[a] = r.p(0.4) ? (char)(s[a] + (r.p(0.5) ? 1 : -1)) : cs[r.below(sizeof cs - 1)]; break; }
    case 8: { // cut right after something that opens a construct
      size_t a = s.find_first_of("tfn\"\\[{-e.u:", r.below(n)); if (a == std::string::npos) a = r.below(n); cut(a + 1 + r.below(3)); break; }
    }
  }
  return s;
}

Plan generate(const std::string &prop, uint64_t seed, bool thorough) {
  Gen g(seed);
  g.p.prop = prop; g.p.seed = seed;
  heapenv(g);
  g.swarm();
  Rng &r = g.r;
  size_t len = r.p(0.5) ? 8 + r.below(25) : 25 + r.below(45);
  if (r.p(0.15)) len = 4 + r.below(8);
  if (thorough && r.p(0.2)) len += 60;
  if (r.p(0.004)) { len = 300 + r.below(500); g.obsnone = 90; g.w[Gen::RELEASE] *= 0.3; } // a long life
  g.p.subject = main_subject(g);
  if (prop == "C01") {
    g.p.checks = CK_MODEL; if (r.p(0.5)) g.aliasing = 0.3;
    if (r.p(0.03)) g.sizes(6 + r.below(14)); else { g.start(1 + (int)r.below(2)); if (r.p(0.03)) g.keyslices(); g.steps(len); }
  } else if (prop == "C02") {
    g.p.checks = CK_MODEL | CK_LEDGER | CK_MEM;
    g.p.subject = pick_subject(g, {{"c-tiny", 6}, {"c-d3", 3}, {"c-mid", 2}, {"c-def", 1}, {"short-tiny", 1}, {"cpp-tiny", 3}, {"hpp-tiny", 3}, {"c-u16", 1}, {"c-mode3", 1}, {"c-exp2", 1}, {"c-zero", 1}, {"cpp-zero", 1}, {"cpp-mode3", 1}});
    g.w[Gen::NEWA] = 2.5; g.w[Gen::RELEASE] = 0.7; g.w[Gen::NEWV] += 1; g.doclen = 3 + r.below(12); g.maxnodes = 60; g.obsnone = 60;
    if (r.p(0.15)) g.bigtext = 0.1;
    g.start(1 + (int)r.below(3)); g.steps(6 + r.below(22));
  } else if (prop == "C03") {
    g.p.checks = CK_MODEL | CK_MEM | CK_BUF;
    g.dmg = 0.5; g.w[Gen::PARSE] += 5; g.w[Gen::STR] += 2; g.w[Gen::NUM] += 1.5; g.w[Gen::KEY] += 1.5; g.fast = (double)r.below(70) / 100; g.slice = 0.6;
    if (r.p(0.03)) g.sizes(4 + r.below(12)); else { g.start(1); g.steps(5 + r.below(20)); }
  } else if (prop == "C04") {
    g.p.checks = CK_LEDGER | CK_MEM;
    g.w[Gen::RELEASE] += 0.3; g.w[Gen::NEWA] += 0.3; if (r.p(0.3)) { g.bigtext = 0.08; g.longnum = 0.1; }
    if (r.p(0.35)) { g.slice = 0; g.new_alloc(); g.new_value(); g.exactfit(4 + r.below(10)); if (r.p(0.5)) g.steps(len / 3); }
    else if (r.p(0.02)) g.sizes(4 + r.below(12));
    else { g.start(1 + (int)r.below(3)); g.steps(len); }
  } else if (prop == "C05") {
    g.p.checks = CK_MODEL | CK_X | CK_MEM | CK_LEDGER;
    g.w[Gen::RELEASE] = 1.2; g.w[Gen::NEWA] = 1.6; g.w[Gen::NEWV] += 1; g.w[Gen::SET] += 1; g.w[Gen::ADD] += 1.5; g.xcopy = 0.7; g.w[Gen::STR] += 0.5; g.w[Gen::KEY] += 0.5;
    if (r.p(0.03)) g.sizes(4 + r.below(12)); else { g.start(2 + (int)r.below(3)); g.steps(len); }
  } else if (prop == "C06" || prop == "C07") {
    g.p.checks = CK_MODEL | CK_MEM | CK_LEDGER;
    g.p.subject = pick_subject(g, {{"c-def", 3}, {"c-tiny", 3}, {"c-o0", 5}, {"cpp-o0", 1}, {"c-d3", 1}, {"short-def", 1}, {"cpp-def", 2}, {"hpp-def", 2}, {"c-u64", 1}});
    g.p.ntasks = 2 + (int)r.below(3); g.p.first = (int)r.below(g.p.ntasks);
    g.obsnone = 50; g.maxhandles = 10; g.maxnodes = 40; g.doclen = 3 + r.below(8); g.bigtext = 0;
    std::vector<int> frozen;
    if (prop == "C06") {
      g.useshared = true; for (int i = 0; i < 3; i++) g.sharedtexts.push_back(g.doc());
      for (auto &t : g.sharedtexts) if (t.find('\0') != std::string::npos) t = "[]";
    } else {
      g.new_alloc(); g.new_value();
      { Op o = g.mk(r.p(0.4) ? F_ParseFast : F_Parse, g.any()); g.doclen = 20; o.text = g.doc(); g.emit(o); g.doclen = 3 + r.below(6); }
      g.steps(2 + r.below(8));
      for (int i = 0; i < 6; i++) { double keep[Gen::NFAM]; memcpy(keep, g.w, sizeof keep); for (auto &x : g.w) x = 0; g.w[Gen::NAV] = 1; g.steps(1); memcpy(g.w, keep, sizeof keep); }
      frozen = g.live(true);
    }
    for (int t = 0; t < g.p.ntasks; t++) {
      g.task = t;
      if (prop == "C06" && t && r.p(0.5)) { // does what the first task does: whatever path one takes, both take
        std::map<int, int> m; std::vector<Op> first; for (auto &o : g.p.ops) if (o.task == 0) first.push_back(o);
        auto to = [&](int u) { auto it = m.find(u); return it == m.end() ? u : it->second; };
        for (Op o : first) {
          int u = o.uid; if (r.p(0.03)) continue;
          if (o.h >= 0 && !m.count(o.h)) continue; if (o.h2 >= 0 && !m.count(o.h2)) continue; if (o.a >= 0 && !m.count(o.a)) continue;
          o.h = to(o.h); o.h2 = to(o.h2); o.a = to(o.a); if (o.fn == F_DropText) o.i = to((int)o.i);
          if (g.emit(o)) m[u] = g.p.ops.back().uid;
        }
        continue;
      }
      g.new_alloc(); g.new_value();
      if (prop == "C06") { if (r.p(0.7)) { Op o = g.mk(F_Parse, g.any()); o.text = g.doc(); g.emit(o); } if (r.p(0.5)) { g.w[Gen::NEWA] += 1; g.w[Gen::RELEASE] += 0.8; } g.steps(3 + r.below(r.p(0.25) ? 24 : 9)); }
      else {
        { Op o = g.mk(r.p(0.5) ? F_SetArray : F_SetObj, g.any()); g.emit(o); }
        size_t k = 4 + r.below(10);
        for (size_t i = 0, tries = 0; i < k && tries < 80; tries++) {
          if (r.p(0.2)) { g.steps(1); i++; continue; }
          std::vector<int> fr; for (int u : frozen) if (g.W.handle(u)) fr.push_back(u);
          if (fr.empty()) break;
          int s = fr[r.below(fr.size())];
          if (r.p(0.55)) {
            static const Fn q[] = {F_Type, F_SizeOf, F_GetBool, F_IsNull, F_GetStrFast, F_GetNumFast, F_GetKeyFast};
            if (g.emit(g.mk(q[r.below(7)], s))) i++;
          } else {
            int h = g.any(); if (h < 0) continue;
            Op o = g.mk(r.p(0.4) ? F_Set : g.W.handles[h].n && g.W.handles[h].n->type == 3 ? F_ObjAdd : F_ArrayAdd, h); o.h2 = s;
            if (g.emit(o)) i++;
          }
        }
      }
      if (r.p(0.5)) for (int a : g.allocs()) if (r.p(0.7)) { Op o = g.mk(F_ReleaseAllocator); o.a = a; g.emit(o); } // while others still run
    }
  } else if (prop == "C08") {
    g.p.checks = CK_PTR | CK_MEM; if (r.p(0.3)) g.aliasing = 0.3;
    g.w[Gen::READ] += 2.5; g.w[Gen::STRINGIFY] += 1; g.w[Gen::GETNUM] += 1.5; g.w[Gen::NAV] += 1.5; g.w[Gen::COPY] += 0.3; g.longnum = 0.06;
    if (r.p(0.03)) g.sizes(4 + r.below(12)); else { g.start(1 + (int)r.below(2)); g.steps(len); }
  } else if (prop == "C09") {
    g.p.checks = CK_MODEL | CK_MEM | CK_BUF;
    g.scrub = 0.85; if (r.p(0.4)) { g.aliasing = 0.4; g.scrub = 0.5; } g.w[Gen::PARSE] += 1; g.w[Gen::STR] += 2; g.w[Gen::NUM] += 1.5; g.w[Gen::KEY] += 1.5; g.w[Gen::NAV] += 1; g.w[Gen::DROP] = 1; g.w[Gen::COPY] += 1; g.w[Gen::SET] += 0.7; g.w[Gen::ADD] += 0.7; g.slice = 0.6;
    if (r.p(0.3)) g.dmg = 0.15;
    if (r.p(0.03)) g.sizes(4 + r.below(12)); else { g.start(1 + (int)r.below(2)); if (r.p(0.04)) g.keyslices(); g.steps(len); }
  } else if (prop == "C10") {
    g.p.checks = CK_GROW;
    if (r.p(0.5)) { // exhaust a 16-bit size type
      g.p.subject = find_subject("c-u16") ? "c-u16" : "c-def"; if (r.p(0.3) && find_subject("c-u16t")) g.p.subject = "c-u16t";
      g.p.checks |= CK_MODEL | CK_MEM; g.bigtext = 0.25; g.maxnodes = 900; g.p.big = true; g.w[Gen::STRINGIFY] += 3; g.w[Gen::COPY] += 1; g.w[Gen::STR] += 1; g.w[Gen::PARSE] += 1;
      if (g.p.subject != "c-def") g.W.maxkids = 65535;
      if (r.p(0.004)) { // as many elements as the size type can count
        bool obj = r.p(0.5); g.new_alloc(); g.new_value(); int c = g.any(); g.emit(g.mk(obj ? F_SetObj : F_SetArray, c));
        auto elem = [&]() { g.new_value(); int v = g.p.ops.back().uid; Op o = g.mk(r.p(0.5) ? F_SetInt : F_SetNull, v); o.i = 1; g.emit(o); if (obj) { Op k = g.mk(F_SetKey, v); k.text = "k"; g.emit(k); } return v; };
        g.obsnone = 80; int s = elem(); Op f = g.mk(F_Fill, c); f.h2 = s; f.i = 65535 - r.below(5); g.emit(f);
        for (int k = 4 + (int)r.below(8); k--;) {
          int q = (int)r.below(8); Op o = g.mk(F_COUNT, c);
          if (q < 3) { o.fn = obj ? F_ObjAdd : F_ArrayAdd; o.h2 = s; } else if (q < 6) { o.fn = obj ? F_ObjAddFast : F_ArrayAddFast; o.h2 = elem(); }
          else if (q == 6) { o.fn = obj ? F_ObjDel : F_ArrayDel; o.text = "k"; o.idx = r.p(0.5) ? 0 : 65000; } else o.fn = F_SizeOf;
          g.emit(o);
        }
        return g.p;
      }
      g.start(1); g.steps(10 + r.below(20));
      if (r.p(0.25)) { // a text around or beyond what the size type can express
        static const Fn f[] = {F_Parse, F_ParseFast, F_SetStr, F_SetStrFast, F_SetKey, F_SetNumStr, F_SetNumStrFast, F_SetStrEscape, F_SetKeyEscape, F_ParseLen, F_SetStrLen, F_SetStrLenFast, F_SetNumStrLenFast};
        int h = g.any();
        for (int k = 1 + (int)r.below(2); k-- && h >= 0;) {
          Fn fn = f[r.below(13)]; bool ln = fn_has_len(fn);
          size_t n = ln ? 65535 - r.below(40) : r.p(0.5) ? 65536 + r.range(-40, 8) : 65536 + r.below(4000); // a length argument cannot exceed the type
          Op o = g.mk(fn, h);
          if (fn_is_parse(fn)) {
            switch (r.below(4)) {
            case 0: o.text = "\"" + std::string(n - 2, 'a') + "\""; break;
            case 1: o.text = "[" + std::string(n - 3, ' ') + "1]"; break;
            case 2: o.text = std::string(n, '7'); break;
            default: o.text = "{\"k\":["; while (o.text.size() + 12 < n) o.text += "\"abcdefgh\","; o.text += "1"; while (o.text.size() + 2 < n) o.text += ' '; o.text += "]}"; break;
            }
          } else o.text = std::string(n, fn == F_SetNumStr || fn == F_SetNumStrFast || fn == F_SetNumStrLenFast ? '1' : fn == F_SetStrEscape && r.p(0.5) ? '\n' : 'x');
          g.slice = 0; g.emit(o); g.slice = 0.5;
        }
        g.steps(1 + r.below(5));
      }
    } else if (r.p(0.5)) { // a long-lived allocator: many small requests
      g.p.big = true; g.obsnone = 90; g.bigtext = r.p(0.5) ? 0.1 : 0; g.maxnodes = 400; g.w[Gen::READ] += 3; g.w[Gen::STRINGIFY] += 3; g.w[Gen::NEWA] = 0; g.w[Gen::RELEASE] = 0;
      g.start(1); g.steps(100 + r.below(150));
    } else if (r.p(0.12)) { // the same few calls over and over on one document
      g.p.big = true; g.obsnone = 97; g.slice = 0; g.new_alloc(); g.new_value(); int h = g.any();
      bool obj = r.p(0.6); size_t n = r.p(0.2) ? 1 + r.below(20) : 50 + r.below(350); std::string t = obj ? "{" : "[";
      for (size_t i = 0; i < n; i++) { if (i) t += ','; if (obj) t += "\"k" + std::to_string(i) + "\":"; t += i % 5 == 0 ? "[1,2]" : i % 3 ? std::to_string(i) : "\"text\""; }
      Op o = g.mk(r.p(0.5) ? F_Parse : F_ParseFast, h); o.text = t + (obj ? "}" : "]"); g.emit(o);
      int kinds[3]; for (int &k : kinds) k = (int)r.below(9); int e = -1;
      for (size_t k = 100 + r.below(200); k--;) {
        Op q = g.mk(F_COUNT, h); size_t i = r.p(0.7) ? n - 1 - r.below(std::min<size_t>(n, 3)) : r.below(n);
        switch (kinds[r.below(3)]) {
        case 0: case 1: q.fn = obj ? (r.p(0.5) ? F_ObjGet : F_ObjGetLen) : F_ArrayGet; q.text = obj ? "k" + std::to_string(i) : ""; q.idx = i; break;
        case 2: q.fn = obj ? (r.p(0.5) ? F_ObjGet : F_ObjDel) : F_ArrayGet; q.text = obj ? "missing" : ""; q.idx = n + 5; break;
        case 3: q.fn = F_Begin; break;
        case 4: q.fn = e >= 0 ? F_Next : F_Begin; if (e >= 0) q.h = e; break;
        case 5: { static const Fn f[] = {F_Type, F_SizeOf, F_GetBool, F_IsNull, F_GetStrFast, F_GetNumFast, F_GetKeyFast}; q.fn = f[r.below(7)]; if (e >= 0) q.h = e; break; }
        case 6: q.fn = r.p(0.5) ? F_GetKey : F_GetNumStr; if (e >= 0) q.h = e; break;
        case 7: q.fn = r.p(0.5) ? F_SetInt : F_SetNull; q.i = (long long)k; if (e >= 0) q.h = e; else q.fn = F_SizeOf; break;
        default: q.fn = e >= 0 ? (r.p(0.5) ? F_Copy : F_GetDouble) : F_Begin; if (e >= 0) q.h = e; break;
        }
        if (g.emit(q) && fn_makes_handle(q.fn) && g.W.handle(g.p.ops.back().uid) && r.p(0.6)) { e = g.p.ops.back().uid; if (g.W.nodecount(g.W.handle(e)->n) > 5) e = -1; }
      }
    } else if (r.p(0.15)) { // requests that grow slowly, so that none fits what the last one left
      g.p.big = true; g.obsnone = 95; g.maxnodes = 60; g.slice = 0; g.new_alloc(); g.new_value(); g.new_value();
      static const Fn f[] = {F_SetStr, F_SetKey, F_SetStrEscape, F_SetNumStr, F_Parse, F_SetStrLen};
      const ZApi *sj = find_subject(g.p.subject); double n = (sj ? (double)sj->init : 4096) * (0.2 + r.below(30) / 10.0), q = 1 + (1 + r.below(40)) / 100.0;
      for (size_t k = 12 + r.below(20); k-- && n < 120000 && !(sj && sj->size_bytes == 2 && n > 20000); n = n * q + 1) {
        Fn fn = f[r.below(6)]; size_t m = (size_t)n + r.below(3); if (r.p(0.15)) m = m / 2; if (m < 3) m = 3;
        Op o = g.mk(fn, g.any()); o.text = fn == F_Parse ? "\"" + std::string(m - 2, 'a') + "\"" : std::string(m, fn == F_SetNumStr ? '3' : 'b'); g.emit(o);
        if (r.p(0.2)) g.emit(g.mk(F_Stringify, o.h));
      }
    } else if (r.p(0.12)) { // large documents and texts: work and memory stay proportional
      g.p.big = true; g.obsnone = 70; g.maxnodes = 40000; g.maxhandles = 6; g.widedocs = 0.6; g.widemax = thorough ? 20000 : 8000; g.fast = 0.4;
      if (r.p(0.3)) { g.deepdocs = 0.4; g.deepmax = 3000; if (r.p(0.4)) { g.deepmax = 45000; g.maxnodes = 90000; g.w[Gen::STRINGIFY] += 2; } } else if (r.p(0.15)) g.huge = true;
      g.w[Gen::PARSE] += 3; g.w[Gen::STRINGIFY] += 1; g.w[Gen::COPY] += 1; g.w[Gen::DEL] += 2; g.w[Gen::NAV] += 1; g.w[Gen::RELEASE] = 0;
      if (r.p(0.4)) { g.longtext = 0.5; g.w[Gen::STR] += 4; g.w[Gen::KEY] += 3; g.w[Gen::READ] += 4; g.w[Gen::NUM] += 2; g.w[Gen::GETNUM] += 1; }
      g.start(1 + (int)r.below(2)); g.steps(4 + r.below(10));
    } else { g.start(1 + (int)r.below(2)); g.steps(len); }
  } else if (prop == "C14") {
    g.p.checks = CK_MODEL | CK_MEM | CK_STACK; if (r.p(0.35)) g.p.subject = pick_subject(g, {{"c-o0", 4}, {"cpp-o0", 1}});
    g.p.big = true; g.obsnone = 50; g.maxnodes = 90000; g.maxhandles = 7; g.deepdocs = 0.75; g.deepmax = r.p(0.03) ? 140000 : r.p(0.1) ? 30000 : thorough && r.p(0.3) ? 20000 : 5000; g.fast = 0.4;
    g.w[Gen::PARSE] += 2; g.w[Gen::STRINGIFY] += 1.5; g.w[Gen::COPY] += 1.5; g.w[Gen::SET] += 1; g.w[Gen::ADD] += 1; g.w[Gen::SETFAST] += 0.5; g.w[Gen::ADDFAST] += 0.5; g.w[Gen::DEL] += 0.5; g.w[Gen::MOVE] += 0.3; g.w[Gen::READ] *= 0.3; g.w[Gen::NUM] *= 0.3; g.w[Gen::STR] *= 0.3; g.w[Gen::KEY] *= 0.5; g.w[Gen::GETNUM] *= 0.3;
    if (r.p(0.3)) g.dmg = 0.3;
    g.start(1 + (int)r.below(2)); g.steps(4 + r.below(10));
  } else if (prop == "C15") {
    g.p.checks = CK_MODEL | CK_MEM | CK_SELF;
    g.w[Gen::NUM] += 3; g.w[Gen::GETNUM] += 2; g.w[Gen::PARSE] += 1; g.w[Gen::STRINGIFY] += 0.5; if (r.p(0.5)) { g.dmg = 0.25; g.w[Gen::STR] += 1; }
    auto sw = [&]() { Op o = g.mk(F_Locale); o.i = r.p(0.2) ? 0 : 1 + r.below(3); g.emit(o); };
    if (r.p(0.25)) { // every thread with a locale of its own
      g.p.subject = pick_subject(g, {{"c-def", 4}, {"c-tiny", 3}, {"cpp-def", 1}, {"hpp-def", 1}}); g.p.checks &= ~CK_SELF;
      g.p.ntasks = 2 + (int)r.below(2); g.p.first = (int)r.below(g.p.ntasks); g.obsnone = 50; g.maxhandles = 8; g.maxnodes = 30; g.doclen = 3 + r.below(6); g.bigtext = 0;
      for (int t = 0; t < g.p.ntasks; t++) { g.task = t; g.new_alloc(); g.new_value(); sw(); for (int k = 1 + (int)r.below(3); k--;) { g.steps(2 + r.below(4)); if (r.p(0.5)) sw(); } }
    } else {
      g.start(1 + (int)r.below(2)); if (r.p(0.7)) sw();
      for (int k = 2 + (int)r.below(4); k--;) { g.steps(2 + r.below(7)); sw(); }
      g.steps(1 + r.below(4));
    }
  } else if (prop == "C11") {
    g.p.checks = CK_MODEL | CK_MEM | CK_BUF | CK_LEDGER; bool fit = r.p(0.1);
    g.p.subject = pick_subject(g, {{"c-def", 4}, {"c-tiny", 4}, {"c-u64", 1}, {"c-exp2", 1}, {"c-d3", 1}, {"c-zero", 1}}); if (r.p(0.3)) g.dmg = 0.2;
    if (r.p(0.4)) { g.scrub = 0.6; g.w[Gen::DROP] = 0.7; g.w[Gen::STR] += 0.5; g.w[Gen::KEY] += 0.5; g.slice = 0.6; } // texts go back to the caller
    if (r.p(0.25)) g.aliasing = 0.25;
    g.w[Gen::READ] += 1; g.w[Gen::GETNUM] += 0.7; g.w[Gen::KEY] += 0.7;
    if (!fit && r.p(0.03)) g.sizes(4 + r.below(10)); else { g.start(1 + (int)r.below(2)); if (fit) g.exactfit(3 + r.below(5)); else g.steps(len); }
  } else if (prop == "C12") {
    g.p.checks = CK_SELF;
    if (r.p(0.3)) g.aliasing = 0.25;
    g.nonfinite = 0.25; g.w[Gen::NUM] += 1; g.w[Gen::STR] += 1; g.w[Gen::KEY] += 1; g.w[Gen::ADDFAST] += 1; g.w[Gen::DEL] += 0.7; g.w[Gen::MOVE] += 0.5; g.obsnone = 20; g.invalid = 0.15;
    if (r.p(0.3)) g.dmg = 0.2;
    if (r.p(0.1)) { g.bigtext = 0.1; }
    if (r.p(0.03)) g.sizes(4 + r.below(12)); else { g.start(1 + (int)r.below(2)); g.steps(len); }
  } else if (prop == "C13") {
    g.p.checks = 0;
    g.p.subject = "c-def"; g.longnum = 0.06; if (r.p(0.3)) g.aliasing = 0.25;
    if (r.p(0.2)) g.bigtext = 0.05;
    bool fit = r.p(0.15);
    g.w[Gen::GETNUM] += 1; g.w[Gen::READ] += 1; g.w[Gen::STRINGIFY] += 0.5;
    if (!fit && r.p(0.03)) g.sizes(4 + r.below(10)); else { g.start(1 + (int)r.below(2)); if (fit) g.exactfit(3 + r.below(6)); else g.steps(len); }
  }
  return g.p;
}
