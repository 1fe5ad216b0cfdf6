#include "json.h"
#include <cstdlib>
namespace ref {
static bool dig(char c) { return c >= '0' && c <= '9'; }
static size_t scan_num(const std::string &s, size_t i) { // returns end or npos
  size_t n = s.size();
  if (i < n && s[i] == '-') i++;
  if (i >= n || !dig(s[i])) return std::string::npos;
  if (s[i] == '0') i++; else while (i < n && dig(s[i])) i++;
  if (i < n && s[i] == '.') { i++; if (i >= n || !dig(s[i])) return std::string::npos; while (i < n && dig(s[i])) i++; }
  if (i < n && (s[i] == 'e' || s[i] == 'E')) {
    i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++;
    if (i >= n || !dig(s[i])) return std::string::npos;
    while (i < n && dig(s[i])) i++;
  }
  return i;
}
static int hexv(char c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int hex4(const std::string &s, size_t i) {
  if (i + 4 > s.size()) return -1;
  int v = 0;
  for (int k = 0; k < 4; k++) { int h = hexv(s[i + k]); if (h < 0) return -1; v = v * 16 + h; }
  return v;
}
// scans a string body from i up to a quote (or the end of s when !quoted); returns index of the quote / end, or npos
static size_t scan_str(const std::string &s, size_t i, bool quoted) {
  size_t n = s.size();
  while (i < n) {
    unsigned char c = s[i];
    if (c == '"') return quoted ? i : std::string::npos;
    if (c <= 0x1f) return std::string::npos;
    if (c != '\\') { i++; continue; }
    if (i + 1 >= n) return std::string::npos;
    switch (s[i + 1]) {
    case '"': case '\\': case '/': case 'b': case 'f': case 'n': case 'r': case 't': i += 2; break;
    case 'u': {
      int a = hex4(s, i + 2);
      if (a < 0 || (a >= 0xDC00 && a <= 0xDFFF)) return std::string::npos;
      i += 6;
      if (a >= 0xD800 && a <= 0xDBFF) {
        if (i + 6 > n || s[i] != '\\' || s[i + 1] != 'u') return std::string::npos;
        int b = hex4(s, i + 2);
        if (b < 0xDC00 || b > 0xDFFF) return std::string::npos;
        i += 6;
      }
      break;
    }
    default: return std::string::npos;
    }
  }
  return quoted ? std::string::npos : n;
}
bool utf8_ok(const std::string &s) {
  size_t i = 0, n = s.size();
  while (i < n) {
    unsigned char c = s[i];
    int k; unsigned cp;
    if (c < 0x80) { i++; continue; }
    if (c >= 0xC2 && c <= 0xDF) { k = 1; cp = c & 0x1f; } else if (c >= 0xE0 && c <= 0xEF) { k = 2; cp = c & 0xf; } else if (c >= 0xF0 && c <= 0xF4) { k = 3; cp = c & 7; } else return false;
    if (i + k >= n) return false;
    for (int j = 1; j <= k; j++) { unsigned char d = s[i + j]; if ((d & 0xC0) != 0x80) return false; cp = cp << 6 | (d & 0x3f); }
    if ((k == 2 && cp < 0x800) || (k == 3 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp <= 0xDFFF)) return false;
    i += k + 1;
  }
  return true;
}
Verdict check_num(const std::string &s) { Verdict v; v.ok = scan_num(s, 0) == s.size(); return v; }
Verdict check_str(const std::string &s) { Verdict v; v.ok = scan_str(s, 0, false) != std::string::npos; v.doubtful_utf8 = v.ok && !utf8_ok(s); return v; }
static void ws(const std::string &s, size_t &i) { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
static bool value(const std::string &s, size_t &i, J &j, int depth) {
  if (depth > 2000000) return false;
  ws(s, i);
  if (i >= s.size()) return false;
  char c = s[i];
  if (c == '"') {
    size_t e = scan_str(s, i + 1, true);
    if (e == std::string::npos) return false;
    j.type = 4; j.raw = s.substr(i + 1, e - i - 1); i = e + 1; return true;
  }
  if (c == '[' || c == '{') {
    j.type = c == '[' ? 2 : 3; char close = c == '[' ? ']' : '}';
    i++; ws(s, i);
    if (i < s.size() && s[i] == close) { i++; return true; }
    while (true) {
      std::unique_ptr<J> k(new J);
      if (c == '{') {
        ws(s, i);
        if (i >= s.size() || s[i] != '"') return false;
        size_t e = scan_str(s, i + 1, true);
        if (e == std::string::npos) return false;
        k->haskey = true; k->key = s.substr(i + 1, e - i - 1); i = e + 1; ws(s, i);
        if (i >= s.size() || s[i] != ':') return false;
        i++;
      }
      if (!value(s, i, *k, depth + 1)) return false;
      j.kids.push_back(std::move(k)); ws(s, i);
      if (i >= s.size()) return false;
      if (s[i] == ',') { i++; continue; }
      if (s[i] == close) { i++; return true; }
      return false;
    }
  }
  for (const char *w : {"true", "false", "null"}) if (s.compare(i, std::char_traits<char>::length(w), w) == 0) {
    j.type = w[0] == 'n' ? 5 : 1; j.raw = w; i += j.raw.size(); return true;
  }
  size_t e = scan_num(s, i);
  if (e == std::string::npos) return false;
  j.type = 6; j.raw = s.substr(i, e - i); i = e; return true;
}
std::unique_ptr<J> parse(const std::string &s, Verdict &v) {
  std::unique_ptr<J> j(new J);
  size_t i = 0;
  v = Verdict();
  if (!value(s, i, *j, 0)) return nullptr;
  ws(s, i);
  if (i != s.size()) return nullptr;
  v.ok = true; v.doubtful_utf8 = !utf8_ok(s);
  return j;
}
static void canon_to(const J &j, std::string &o) {
  switch (j.type) {
  case 4: o += '"'; o += j.raw; o += '"'; break;
  case 2: case 3: {
    o += j.type == 2 ? '[' : '{';
    bool first = true;
    for (auto &k : j.kids) { if (!first) o += ','; first = false; if (k->haskey) { o += '"'; o += k->key; o += "\":"; } canon_to(*k, o); }
    o += j.type == 2 ? ']' : '}';
  } break;
  default: o += j.raw;
  }
}
std::string canon(const J &j) { std::string o; canon_to(j, o); return o; }
static void put(std::string &o, unsigned cp) {
  if (cp < 0x80) o += (char)cp;
  else if (cp < 0x800) { o += (char)(0xC0 | cp >> 6); o += (char)(0x80 | (cp & 0x3f)); }
  else if (cp < 0x10000) { o += (char)(0xE0 | cp >> 12); o += (char)(0x80 | ((cp >> 6) & 0x3f)); o += (char)(0x80 | (cp & 0x3f)); }
  else { o += (char)(0xF0 | cp >> 18); o += (char)(0x80 | ((cp >> 12) & 0x3f)); o += (char)(0x80 | ((cp >> 6) & 0x3f)); o += (char)(0x80 | (cp & 0x3f)); }
}
std::string unescape(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    if (s[i] != '\\') { o += s[i++]; continue; }
    char c = s[i + 1];
    i += 2;
    switch (c) {
    case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
    case 'u': {
      unsigned a = hex4(s, i); i += 4;
      if (a >= 0xD800 && a <= 0xDBFF) { unsigned b = hex4(s, i + 2); i += 6; a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00); }
      put(o, a);
    } break;
    default: o += c;
    }
  }
  return o;
}
std::string json_escape(const std::string &s) {
  static const char *h = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20) { o += "\\u00"; o += h[c >> 4]; o += h[c & 15]; } else o += c;
  }
  return o;
}
} // namespace ref
