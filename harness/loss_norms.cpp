// Norms and robust losses against their definitions evaluated in long double.
#include "ref.h"
#include <tinyopt/diff/auto_diff.h>
#include <tinyopt/losses/norms.h>
#include <tinyopt/losses/robust_norms.h>
using namespace tinyopt;
using namespace rf;
using vh::cat;

namespace {
struct NSq { static constexpr const char *n = "SquaredL2"; template <typename... A> auto operator()(const A &...a) const { return losses::SquaredL2(a...); }
  static LD val(const LVec &x) { return x.squaredNorm(); } static LVec jac(const LVec &x) { return 2 * x; } static bool smooth(const LVec &) { return true; } };
struct NL2 { static constexpr const char *n = "L2"; template <typename... A> auto operator()(const A &...a) const { return losses::L2(a...); }
  static LD val(const LVec &x) { return x.norm(); } static LVec jac(const LVec &x) { return x / x.norm(); } static bool smooth(const LVec &x) { return x.norm() > 1e-5L; } };
struct NL1 { static constexpr const char *n = "L1"; template <typename... A> auto operator()(const A &...a) const { return losses::L1(a...); }
  static LD val(const LVec &x) { return x.cwiseAbs().sum(); }
  static LVec jac(const LVec &x) { LVec j = x; for (long i = 0; i < x.size(); ++i) j(i) = x(i) > 0 ? 1 : -1; return j; }
  static bool smooth(const LVec &x) { return x.cwiseAbs().minCoeff() > 0; } };
struct NLi { static constexpr const char *n = "Linf"; template <typename... A> auto operator()(const A &...a) const { return losses::Linf(a...); }
  static LD val(const LVec &x) { return x.cwiseAbs().maxCoeff(); }
  static LVec jac(const LVec &x) { long k; x.cwiseAbs().maxCoeff(&k); LVec j = LVec::Zero(x.size()); j(k) = x(k) > 0 ? 1 : -1; return j; }
  static bool smooth(const LVec &x) { long k; LD m = x.cwiseAbs().maxCoeff(&k); if (!(m > 0)) return false;
    for (long i = 0; i < x.size(); ++i) if (i != k && std::abs(x(i)) == m) return false; return true; } };

template <typename N, typename V> void norm_vec(vh::Case &c) {
  using S = typename V::Scalar; constexpr int D = V::RowsAtCompileTime;
  const int n = D == Eigen::Dynamic ? c.rng.range(1, 12) : D;
  V x = vec<V>(c.rng, n);
  if (c.rng.coin(0.1)) x *= S(1e-3);
  const LVec X = ld(x); const LD e = 64 * eps<S>() * (8 + n);
  const N f; const LD v = N::val(X);
  auto det = [&] { return cat(N::n, " x=", vh::mat(x)); };
  const auto v0 = f(x);
  c.check(near(v0, v, e), "norm-value", [&] { return cat(det(), " returned ", v0, " expected ", (double)v); });
  c.check(near(f((x + x).eval()), N::val(2 * X), e), "norm-value", det);
  c.check(near(f(x + x), N::val(2 * X), e), "norm-of-expression", det);
  const auto &[v1, J1] = f(x, true);
  c.check(near(v1, v0, e), "norm-forms-differ", det);
  c.event("norm-values");
  if (!N::smooth(X)) { c.event("non-smooth-points"); return; }
  const LVec j = N::jac(X);
  c.check(nearE(ld(J1), j.transpose(), 4 * e), "norm-jacobian", [&] { return cat(det(), " J=", vh::mat(J1)); });
  c.event("norm-jacobians");
  // inner Jacobians: fixed, dynamic
  Eigen::Matrix<S, D, 3> A; if constexpr (D == Eigen::Dynamic) A.resize(n, 3); fill(A, c.rng);
  const LMat cmp = j.transpose() * ld(A); const LD tol = e * 8 * (1 + j.cwiseAbs().sum() * ld(A).cwiseAbs().maxCoeff());
  const auto &[v2, J2] = f(x, A);
  c.check(near(v2, v0, e) && nearM(ld(J2), cmp, 0, tol), "norm-chain-rule", [&] { return cat(det(), " A=", vh::mat(A), " J=", vh::mat(J2)); });
  const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> B = A;
  const auto &[v3, J3] = f(x, B);
  c.check(near(v3, v0, e) && nearM(ld(J3), cmp, 0, tol), "norm-chain-rule-dynamic", det);
  const auto &[v4, J4] = f(std::make_pair(x, A));
  c.check(near(v4, v0, e) && nearM(ld(J4), cmp, 0, tol), "norm-pair-form", det);
  c.event("chain-rules", 3);
  if constexpr (D != Eigen::Dynamic) {  // dual numbers
    using Jt = diff::Jet<S, D>; Vector<Jt, D> xj;
    for (int i = 0; i < D; ++i) { xj[i].a = x[i]; xj[i].v = Vector<S, D>::Unit(i); }
    const Jt r = f(xj);
    c.check(near(r.a, v, e) && nearE(ld(r.v), j, 4 * e), "norm-dual", [&] { return cat(det(), " a=", r.a, " v=", vh::mat(r.v)); });
    c.event("duals");
  }
  c.distinct(cat(N::n, sizeof(S), D, "/", n, "/", (int)std::log10((double)v + 1e-300)));
}
template <typename N, typename S> void norm_scalar(vh::Case &c) {
  const S x = c.rng.coin(0.1) ? S(c.rng.sgn() * c.rng.logu(1e-4, 1e-2)) : value<S>(c.rng);
  const N f; LVec X(1); X(0) = x; const LD e = eps<S>() * 512;
  auto det = [&] { return cat(N::n, " scalar x=", x); };
  const S v0 = f(x);
  c.check(near(v0, N::val(X), e), "norm-value-scalar", [&] { return cat(det(), " -> ", v0); });
  const auto &[v1, J1] = f(x, true);
  c.check(near(v1, v0, e), "norm-forms-differ-scalar", det);
  c.event("norm-values");
  if (!N::smooth(X)) return;
  const LD j = N::jac(X)(0);
  c.check(near(J1, j, 4 * e), "norm-jacobian-scalar", [&] { return cat(det(), " J=", J1); });
  const S a = S(c.rng.normal());
  const auto &[v2, J2] = f(x, a);
  c.check(near(v2, v0, e) && near(ld(J2)(0), j * a, 8 * e), "norm-chain-rule-scalar", det);
  const auto &[v3, J3] = f(std::make_pair(x, a));
  c.check(near(v3, v0, e) && near(ld(J3)(0), j * a, 8 * e), "norm-pair-form-scalar", det);
  const RowVector<S, 3> b = RowVector<S, 3>(S(c.rng.normal()), S(c.rng.normal()), a);
  const auto &[v4, J4] = f(x, b); bool ok4 = J4.size() == 3; for (int k = 0; ok4 && k < 3; ++k) ok4 = near(J4(k), j * b[k], 8 * e);
  c.check(near(v4, v0, e) && ok4, "norm-chain-rule-scalar-several", [&] { return cat(det(), " J=", vh::mat(J4), " inner ", vh::mat(b)); });
  using Jt = diff::Jet<S, 2>; Jt xj; xj.a = x; xj.v = Vector<S, 2>(S(1), a);
  const Jt r = f(xj);
  c.check(near(r.a, N::val(X), e) && near(r.v[0], j, 4 * e) && near(r.v[1], j * a, 8 * e), "norm-dual-scalar", [&] { return cat(det(), " v=", vh::mat(r.v)); });
  c.event("norm-jacobians"); c.event("chain-rules", 2); c.event("duals");
}
template <typename N> void norm_all(vh::Case &c) {
  norm_vec<N, Vector<double, 3>>(c); norm_vec<N, Vector<double, 5>>(c); norm_vec<N, Vector<double, 1>>(c);
  norm_vec<N, VecX>(c); norm_vec<N, Vector<float, 4>>(c); norm_vec<N, VecXf>(c);
  norm_scalar<N, double>(c); norm_scalar<N, float>(c);
}
}  // namespace
VH_SUITE(norms, 12000, 60000) {
  norm_all<NSq>(c); norm_all<NL2>(c); norm_all<NL1>(c); norm_all<NLi>(c);
  // unscaled squared norm: the Jacobian without its factor 2
  VecX x = vec<VecX>(c.rng, c.rng.range(1, 6)); MatX A(x.size(), 2); fill(A, c.rng);
  const auto &[v, J] = losses::SquaredL2(x, true, false); const auto &[v2, J2] = losses::SquaredL2(x, A, false);
  c.check(near(v, losses::SquaredL2(x), 1e-13L) && nearE(ld(J), ld(x).transpose(), 1e-15L), "norm-unscaled", [&] { return vh::mat(J); });
  c.check(nearM(ld(J2), ld(x).transpose() * ld(A), 1e-13L, 1e-9L), "norm-unscaled-chain", [&] { return vh::mat(J2); });
}

// ---------------------------------------------------------------------------- robust losses
namespace {
#define ROBUST(NAME, VAL, DER, KINK)                                                                                  \
  struct R##NAME {                                                                                                    \
    static constexpr const char *n = #NAME;                                                                           \
    static constexpr bool kink = KINK;                                                                                \
    template <typename... A> static auto f(const A &...a) { return losses::NAME(a...); }                              \
    template <typename... A> static auto loss(const A &...a) { return losses::NAME##Loss(a...); }                     \
    static LD val(LD n2, LD t2) { const LD t = std::sqrt(t2); (void)t; return (VAL); }                                \
    static LD der(LD n2, LD t2) { const LD t = std::sqrt(t2); (void)t; return (DER); }                                \
  };
ROBUST(Truncated, n2 <= t2 ? n2 : t2, n2 <= t2 ? 1 : 0, true)
ROBUST(Huber, n2 <= t2 ? n2 : 2 * t * std::sqrt(n2) - t2, n2 <= t2 ? 1 : t / std::sqrt(n2), false)
ROBUST(Tukey, n2 <= t2 ? t2 - t2 * (1 - n2 / t2) * (1 - n2 / t2) * (1 - n2 / t2) : t2, n2 <= t2 ? 3 * (1 - n2 / t2) * (1 - n2 / t2) : 0, false)
ROBUST(Arctan, t *std::atan(n2 / t), t2 / (t2 + n2 * n2), false)
ROBUST(Cauchy, t2 *std::log1p(n2 / t2), t2 / (t2 + n2), false)
ROBUST(GemanMcClure, n2 / (n2 + t2), t2 / ((n2 + t2) * (n2 + t2)), false)
ROBUST(BlakeZisserman, -std::log(std::exp(-n2) + std::exp(-t2)), 1 / (1 + std::exp(n2 - t2)), false)

// rounding error of a straightforward evaluation in precision S
template <typename R, typename S> LD vtol(LD n2, LD t2) {
  const LD e = eps<S>() * 512;
  LD a = e * R::val(n2, t2);
  if (std::string(R::n) == "Tukey" || std::string(R::n) == "Cauchy") a += e * t2;
  if (std::string(R::n) == "Huber") a += e * (n2 > t2 ? t2 + n2 : 0);
  if (std::string(R::n) == "BlakeZisserman") a += e * (1 + std::min(n2, t2));
  return std::abs(a) + std::numeric_limits<S>::min();
}
template <typename R, typename S> LD jtol(LD n2, LD t2) {
  LD e = eps<S>() * 512;
  if (std::string(R::n) == "BlakeZisserman") e *= 1 + n2 + t2;
  LD a = e * R::der(n2, t2);
  if (std::string(R::n) == "GemanMcClure") a += e / (n2 + t2);   // quotient rule
  if (std::string(R::n) == "BlakeZisserman") a += 8 * eps<S>();   // exp(n2) may overflow where the derivative is negligible
  if (std::string(R::n) == "Tukey") a += 3 * e;   // (th2-n2)^2/th2^2 near the threshold
  return a + std::numeric_limits<S>::min();
}
template <typename R, typename S> void robust(vh::Case &c) {
  const bool bz = std::string(R::n) == "BlakeZisserman";
  S th2 = S(bz ? c.rng.logu(0.05, 60) : c.rng.logu(1e-3, 1e4));
  S n2;
  switch (c.rng.range(0, 7)) {
    case 0: n2 = th2; break;
    case 1: n2 = std::nextafter(th2, S(0)); break;
    case 2: n2 = std::nextafter(th2, std::numeric_limits<S>::max()); break;
    case 3: n2 = S(th2 * c.rng.uni(0.9, 1.1)); break;
    case 4: n2 = S(th2 * c.rng.logu(1e-4, 0.3)); break;
    case 5: n2 = S(bz ? th2 + c.rng.uni(0, 30) : th2 * c.rng.logu(3, 1e5)); break;
    case 6: n2 = S(0); break;
    default: n2 = S(c.rng.logu(0.01, 10));
  }
  auto det = [&] { return cat(R::n, sizeof(S) == 4 ? "f" : "", " n2=", n2, " th2=", th2); };
  const S v = R::f(n2, th2); const LD rv = R::val(n2, th2);
  c.check(std::abs((LD)v - rv) <= vtol<R, S>(n2, th2), "robust-value", [&] { return cat(det(), " returned ", v, " expected ", (double)rv); });
  auto same = [&](LD p, LD q) { return std::abs(p - q) <= vtol<R, S>(n2, th2); };
  const auto &[v1, s1] = R::f(n2, th2, true);
  const bool smooth = !R::kink || std::abs(n2 - th2) > 4 * eps<S>() * th2;
  const LD rj = R::der(n2, th2), jt = jtol<R, S>(n2, th2);
  c.check(same(v1, v), "robust-forms-differ", det);
  c.event("robust-values");
  if (n2 <= th2) c.event("inliers"); else c.event("outliers");
  // never decreasing as the norm grows (rounding aside), continuous
  const S m2 = S(n2 * S(1.0 + c.rng.logu(1e-6, 1)));
  c.check((LD)R::f(m2, th2) >= (LD)v - 2 * vtol<R, S>(m2, th2), "robust-decreases", [&] { return cat(det(), " m2=", m2); });
  {
    using Jt = diff::Jet<S, 2>; Jt xj; xj.a = n2; xj.v = Vector<S, 2>(S(1), S(-3));
    const Jt r = R::f(xj, th2);
    c.check(std::abs((LD)r.a - rv) <= vtol<R, S>(n2, th2), "robust-dual-value", det);
    if (smooth && !(n2 == 0)) c.check(std::abs(r.v[0] - rj) <= 4 * jt && std::abs(r.v[1] + 3 * rj) <= 12 * jt, "robust-dual-derivative", [&] { return cat(det(), " v=", vh::mat(r.v), " expected ", (double)rj); });
    c.event("duals");
  }
  if (!smooth) return;
  c.check(std::abs((LD)s1 - rj) <= jt, "robust-scale", [&] { return cat(det(), " scale ", s1, " expected ", (double)rj); });
  RowVector<S, 3> J; filln(J, c.rng);
  const auto &[v2, J2] = R::f(n2, th2, J);
  const auto &[v3, J3] = R::f(std::make_pair(n2, J), th2);
  const LMat ref = rj * ld(J); const LD tol = 2 * jt * (1 + ld(J).cwiseAbs().maxCoeff());
  c.check(same(v2, v) && nearM(ld(J2), ref, 0, tol), "robust-chain-rule", [&] { return cat(det(), " J=", vh::mat(J), " -> ", vh::mat(J2)); });
  c.check(same(v3, v) && nearM(ld(J3), ref, 0, tol), "robust-pair-form", [&] { return cat(det(), " J=", vh::mat(J), " -> ", vh::mat(J3)); });
  RowVector<S, Eigen::Dynamic> Jd = J; const auto &[v4, J4] = R::f(n2, th2, Jd);
  c.check(same(v4, v) && nearM(ld(J4), ref, 0, tol), "robust-chain-rule-dynamic", det);
  c.event("robust-jacobians", 3);
  c.distinct(cat(R::n, sizeof(S), n2 < th2, n2 == th2, (int)std::log2((double)n2 / th2 + 1e-9), (int)std::log10((double)th2)));
}
template <typename R, typename V> void robust_vec(vh::Case &c) {
  using S = typename V::Scalar; constexpr int D = V::RowsAtCompileTime;
  const int n = D == Eigen::Dynamic ? c.rng.range(1, 8) : D;
  const bool bz = std::string(R::n) == "BlakeZisserman";
  const S th2 = S(bz ? c.rng.logu(0.05, 40) : c.rng.logu(1e-2, 1e2));
  V x; if constexpr (D == Eigen::Dynamic) x.resize(n); filln(x, c.rng);
  // place the squared norm relative to the threshold
  const double want = bz ? th2 + c.rng.uni(-0.9 * th2, 8) : th2 * c.rng.logu(1e-3, 1e3);
  if (x.norm() < S(1e-3)) return;
  x *= S(std::sqrt(want)) / x.norm();
  const LVec X = ld(x); const LD n2 = X.squaredNorm();
  if (std::abs(n2 - th2) < 1e-4L * th2) return;
  auto det = [&] { return cat(R::n, "Loss th2=", th2, " x=", vh::mat(x)); };
  const LD rv = R::val(n2, th2), rj = R::der(n2, th2), en = eps<S>() * 64 * (8 + n);
  const LD vt = vtol<R, S>(n2, th2) + 4 * rj * n2 * en, s2 = bz ? n2 : 4;
  const LD jt = (jtol<R, S>(n2, th2) + rj * en * (4 + s2) + (std::string(R::n) == "Tukey" ? en * 12 : 0)) * 2 * (X.cwiseAbs().maxCoeff());
  const S v = R::loss(x, th2);
  c.check(std::abs((LD)v - rv) <= vt, "loss-value", [&] { return cat(det(), " returned ", v, " expected ", (double)rv); });
  auto same = [&](LD p, LD q) { return std::abs(p - q) <= vt; };
  const auto &[v1, J1] = R::loss(x, th2, true);
  c.check(same(v1, v), "loss-forms-differ", det);
  const LMat ref = 2 * rj * X.transpose();
  c.check(nearM(ld(J1), ref, 0, jt), "loss-jacobian", [&] { return cat(det(), " J=", vh::mat(J1)); });
  Eigen::Matrix<S, D, 2> A; if constexpr (D == Eigen::Dynamic) A.resize(n, 2); filln(A, c.rng);
  const LMat refA = ref * ld(A); const LD ta = (jt + en * ref.cwiseAbs().maxCoeff()) * n * 2 * (1 + ld(A).cwiseAbs().maxCoeff());
  const auto &[v2, J2] = R::loss(x, th2, A);
  c.check(same(v2, v) && nearM(ld(J2), refA, 0, ta), "loss-chain-rule", [&] { return cat(det(), " A=", vh::mat(A), " J=", vh::mat(J2)); });
  const auto &[v3, J3] = R::f(losses::SquaredL2(x, true), th2);
  c.check(same(v3, v) && nearM(ld(J3), ref, 0, jt), "loss-composed", det);
  if constexpr (D != Eigen::Dynamic) {
    using Jt = diff::Jet<S, D>; Vector<Jt, D> xj;
    for (int i = 0; i < D; ++i) { xj[i].a = x[i]; xj[i].v = Vector<S, D>::Unit(i); }
    const Jt r = R::f(losses::SquaredL2(xj), th2);
    c.check(std::abs((LD)r.a - rv) <= vt && nearM(ld(r.v).transpose(), ref, 0, 4 * jt), "loss-dual", [&] { return cat(det(), " v=", vh::mat(r.v)); });
    c.event("duals");
  }
  c.event("loss-jacobians", 3);
}
template <typename R> void robust_all(vh::Case &c) {
  robust<R, double>(c); robust<R, float>(c);
  robust_vec<R, Vector<double, 2>>(c); robust_vec<R, Vector<double, 4>>(c); robust_vec<R, VecX>(c); robust_vec<R, VecXf>(c);
  // scalars
  const double th2 = c.rng.logu(0.05, 20), x = c.rng.normal() * std::sqrt(th2) * 1.5;
  const double v = R::loss(x, th2);
  c.check(std::abs((LD)v - R::val((LD)x * x, th2)) <= vtol<R, double>((LD)x * x, th2) * 4 + 1e-14L * x * x, "loss-value-scalar", [&] { return cat(R::n, " x=", x, " th2=", th2, " -> ", v); });
  c.event("robust-values");
}
}  // namespace
VH_SUITE(robust_losses, 16000, 80000) {
  robust_all<RTruncated>(c); robust_all<RHuber>(c); robust_all<RTukey>(c); robust_all<RArctan>(c);
  robust_all<RCauchy>(c); robust_all<RGemanMcClure>(c); robust_all<RBlakeZisserman>(c);
}
// Near zero every loss behaves like (a multiple of) the squared norm, above the threshold it grows slower.
VH_SUITE(robust_shape, 4000, 20000) {
  auto go = [&](auto r) {
    using R = decltype(r);
    const double th2 = c.rng.logu(0.05, 30), a = th2 * c.rng.logu(1e-5, 1e-4);
    const double b = R::f(a, th2) - R::f(0.0, th2), b2 = R::f(2 * a, th2) - R::f(0.0, th2);
    c.check(std::abs(b2 / b - 2) < 0.01, "robust-not-quadratic-near-zero", [&] { return cat(R::n, " th2=", th2, " a=", a, " f(a)=", b, " f(2a)=", b2); });
    // continuity at the threshold
    const double lo = R::f(th2 * (1 - 1e-9), th2), hi = R::f(th2 * (1 + 1e-9), th2);
    c.check(std::abs(hi - lo) <= 1e-7 * (th2 + 1), "robust-discontinuous", [&] { return cat(R::n, " th2=", th2, " ", lo, " ", hi); });
    c.event("shape-checks", 2);
  };
  go(RTruncated{}); go(RHuber{}); go(RTukey{}); go(RArctan{}); go(RCauchy{}); go(RGemanMcClure{}); go(RBlakeZisserman{});
}
