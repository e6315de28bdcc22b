// Printing of records for the trace specifications: doubles are decimal text, so that FReal.tla reads them exactly.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdint>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

inline std::string jd(double x) {
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
  if (x == std::rint(x) && std::fabs(x) < 1e9) {
    char b[32];
    snprintf(b, sizeof b, "%lld", (long long)x);
    return b;
  }
  char b[40];
  snprintf(b, sizeof b, "\"%.17g\"", x);
  return b;
}
inline std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
inline std::string jv(double x) { return jd(x); }
inline std::string jv(int x) { return std::to_string(x); }
inline std::string jv(long x) { return std::to_string(x); }
inline std::string jv(unsigned x) { return std::to_string(x); }
inline std::string jv(size_t x) { return std::to_string(x); }
inline std::string jv(bool x) { return x ? "true" : "false"; }
inline std::string jv(const std::string &s) { return js(s); }
inline std::string jv(const char *s) { return js(s); }
struct Raw { std::string s; };
inline std::string jv(const Raw &r) { return r.s; }
template <class T> std::string jv(const std::vector<T> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += jv((T)v[i]); }
  return r + "]";
}
// A record under construction.
struct Rec {
  std::string s;
  template <class T> Rec &operator()(const char *k, const T &v) {
    s += s.empty() ? "{" : ",";
    s += js(k) + ":" + jv(v);
    return *this;
  }
  std::string str() const { return s.empty() ? "{}" : s + "}"; }
  Raw raw() const { return Raw{str()}; }
  void out() const { printf("%s\n", str().c_str()); fflush(stdout); }
};
// Deterministic generator (independent of the library's and of libstdc++'s distributions).
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { s = mix(seed + 0x1234567ull) ^ (mix(~seed) << 1); for (int i = 0; i < 5; i++) next(); } // streams of near seeds do not overlap
  uint64_t next() {
    return mix(s += 0x9E3779B97F4A7C15ull);
  }
  static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
  // mostly small, sometimes large
  int size(int a, int b, int a2, int b2, double p = 0.05) { return chance(p) ? range(a2, b2) : range(a, b); }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  bool chance(double p) { return unit() < p; }
  double normal() { double a = 0; for (int i = 0; i < 12; i++) a += unit(); return a - 6; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]); }
};
// Illegal arguments of LAPACK/BLAS routines: by default the process would end quietly, with status 0.
#include <stdexcept>
extern "C" void xerbla_(const char *name, int *info, size_t) {
  throw std::runtime_error(std::string("LAPACK: illegal argument ") + std::to_string(*info) + " of " + std::string(name, 6));
}
