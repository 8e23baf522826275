// Shared runtime of the monitoring harnesses: seeded cases, violation log, coverage counters.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}

/// Small deterministic generator; one per case.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }         // [0,1)
  double uni(double a, double b) { return a + (b - a) * uni(); }
  int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool coin(double p = 0.5) { return uni() < p; }
  double normal() {
    const double u = 1.0 - uni(), v = uni();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  double sgn() { return coin() ? 1.0 : -1.0; }
  template <typename T>
  const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

/// Thrown by a case that cannot be judged (counted, never a verdict).
struct Inconclusive : std::runtime_error { using std::runtime_error::runtime_error; };

struct Case {
  std::string suite;
  uint64_t index;
  bool thorough;
  Rng rng;
  bool failed = false;
  std::string sample;
  // Records a violation. `key` is stable (identifies what is broken), `detail` is free text.
  void viol(const std::string &key, const std::string &detail);
  // true if ok; otherwise records a violation
  bool check(bool ok, const char *key, const std::function<std::string()> &detail = {}) {
    if (!ok) viol(key, detail ? detail() : std::string());
    return ok;
  }
  // Counts `n` observed events of a kind
  void event(const char *kind, uint64_t n = 1);
  // Registers a distinct non-trivial situation (hash of its description)
  void distinct(const std::string &what);
  void label(const std::string &l);  // survives a crash
};

using CaseFn = void (*)(Case &);
struct Suite { std::string name; uint64_t nq, nt; CaseFn fn; };
std::vector<Suite> &suites();
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, CaseFn f) { suites().push_back({n, q, t, f}); } };
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// VH_SUITE(name, quick_cases, thorough_cases) { ... uses `c` ... }
#define VH_SUITE(NAME, NQ, NT)                                                       \
  static void VH_CAT(vh_fn_, NAME)(vh::Case &);                                      \
  static vh::Reg VH_CAT(vh_reg_, NAME)(#NAME, NQ, NT, VH_CAT(vh_fn_, NAME));         \
  static void VH_CAT(vh_fn_, NAME)([[maybe_unused]] vh::Case &c)

inline bool close(double a, double b, double rel, double abs = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}
template <typename... A>
std::string cat(const A &...a) { std::ostringstream os; os.precision(17); (os << ... << a); return os.str(); }
template <typename M>
std::string mat(const M &m) {
  std::ostringstream os; os.precision(17); os << "[";
  for (long i = 0; i < (long)m.rows(); ++i) { for (long j = 0; j < (long)m.cols(); ++j) os << m(i, j) << " "; if (i + 1 < m.rows()) os << "; "; }
  os << "]"; return os.str();
}
}  // namespace vh
