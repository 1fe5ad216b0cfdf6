#pragma once
#include "plan.h"
#include "world.h"
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 6; i++) next(); if (!s) s = 88172645463325252ull; }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull >> 11; }
  size_t below(size_t n) { return n ? next() % n : 0; }
  bool p(double x) { return (next() & 0xffffff) < x * 0x1000000; }
  long long range(long long a, long long b) { return a + (long long)below((size_t)(b - a + 1)); }
};
Plan generate(const std::string &prop, uint64_t seed, bool thorough);
std::string damage(Rng &r, const std::string &t, bool lenfn);
