// Small helpers shared by the conformance drivers: seeded randomness, JSON
// output (one trace per line) and exact spelling of doubles.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace drv {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(int percent) { return below(100) < percent; }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below(int(v.size()))]; }
};

inline uint64_t Seed() {
  const char* s = std::getenv("VERIF_SEED");
  return s ? std::strtoull(s, nullptr, 10) : 1;
}

// A JSON value under construction.
inline std::string I(long long v) { return std::to_string(v); }
inline std::string B(bool v) { return v ? "true" : "false"; }
inline std::string D(double v) {
  uint64_t u;
  std::memcpy(&u, &v, 8);
  char b[24];
  std::snprintf(b, sizeof b, "\"%016llx\"", (unsigned long long)u);
  return b;
}
inline std::string S(const std::string& v) {
  std::string o = "\"";
  for (char c : v) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}
struct Arr {
  std::string s = "[";
  bool first = true;
  Arr& add(const std::string& v) {
    if (!first) s += ',';
    first = false;
    s += v;
    return *this;
  }
  std::string str() const { return s + "]"; }
};
struct Obj {
  std::string s = "{";
  bool first = true;
  Obj& add(const char* k, const std::string& v) {
    if (!first) s += ',';
    first = false;
    s += '"';
    s += k;
    s += "\":";
    s += v;
    return *this;
  }
  std::string str() const { return s + "}"; }
};
template <class V>
std::string Ints(const V& v) {
  Arr a;
  for (auto x : v) a.add(I((long long)x));
  return a.str();
}
template <class V>
std::string Dbls(const V& v) {
  Arr a;
  for (auto x : v) a.add(D(x));
  return a.str();
}
inline std::string DblsN(const double* p, int n) {
  Arr a;
  for (int i = 0; i < n; ++i) a.add(D(p[i]));
  return a.str();
}

}  // namespace drv
