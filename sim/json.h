// Independent reference for JSON text: strict RFC 8259 grammar with paired surrogates; strings and numbers keep their raw text.
#pragma once
#include <memory>
#include <string>
#include <vector>
namespace ref {
struct J { int type = 0; std::string raw, key; bool haskey = false; std::vector<std::unique_ptr<J>> kids; };
// types as in the library: 1 bool 2 array 3 object 4 string 5 null 6 number
struct Verdict { bool ok = false; bool doubtful_utf8 = false; };
Verdict check_num(const std::string &s);
Verdict check_str(const std::string &s);            // raw string body without quotes
std::unique_ptr<J> parse(const std::string &s, Verdict &v); // whole text
std::string canon(const J &j);
bool utf8_ok(const std::string &s);
std::string unescape(const std::string &raw);       // raw must be valid
std::string json_escape(const std::string &s);      // one valid escaping
} // namespace ref
