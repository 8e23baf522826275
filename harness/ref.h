// Helpers of the function-level harnesses: comparisons against references evaluated in long double.
#pragma once
#include "vh.h"
#include <Eigen/Dense>
#include <limits>
namespace rf {
using LD = long double;
using LVec = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using LMat = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
template <typename S> constexpr LD eps() { return std::numeric_limits<S>::epsilon(); }
template <typename M> LMat ld(const M &m) {
  if constexpr (std::is_arithmetic_v<M>) { LMat r(1, 1); r(0, 0) = m; return r; }
  else { LMat r(m.rows(), m.cols()); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) r(i, j) = m(i, j); return r; }
}
inline bool near(LD a, LD b, LD rel, LD abs = 0) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return a == b || std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}
// entries compared against max-norm of the reference (scale) plus an absolute term
inline bool nearM(const LMat &a, const LMat &b, LD rel, LD abs = 0) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  LD s = b.size() ? b.cwiseAbs().maxCoeff() : 0;
  for (long i = 0; i < a.size(); ++i) if (!(std::abs(a(i) - b(i)) <= abs + rel * s)) return false;
  return true;
}
// entry-wise relative comparison
inline bool nearE(const LMat &a, const LMat &b, LD rel, LD abs = 0) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (long i = 0; i < a.size(); ++i) if (!near(a(i), b(i), rel, abs)) return false;
  return true;
}
template <typename S> S value(vh::Rng &r) {   // finite value over many scales, sometimes special
  switch (r.range(0, 9)) {
    case 0: return S(0);
    case 1: return S(r.sgn() * r.logu(1e-6, 1e-2));
    case 2: return S(r.sgn() * r.logu(10, 1e4));
    case 3: return S(r.range(-3, 3));
    default: return S(r.normal());
  }
}
template <typename M> void fill(M &m, vh::Rng &r) { for (long i = 0; i < m.size(); ++i) m(i) = value<typename M::Scalar>(r); }
template <typename M> void filln(M &m, vh::Rng &r, double s = 1) { for (long i = 0; i < m.size(); ++i) m(i) = typename M::Scalar(s * r.normal()); }
template <typename V> V vec(vh::Rng &r, int n) { V v; if constexpr (V::SizeAtCompileTime == Eigen::Dynamic) v.resize(n); fill(v, r); return v; }
}  // namespace rf
