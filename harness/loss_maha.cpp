// Mahalanobis norms, whitening and distances against references evaluated in long double.
#include "ref.h"
#include <tinyopt/diff/auto_diff.h>
#include <tinyopt/losses/mahalanobis.h>
#include <tinyopt/distances.h>
using namespace tinyopt;
using namespace rf;
using vh::cat;
#ifndef VH_PROP
#define VH_PROP 0
#endif
namespace {
template <typename S, int D> using Mt = Eigen::Matrix<S, D, D>;
// random covariance with a bounded condition number; returns full symmetric matrix
template <typename S, int D> Mt<S, D> cov_rand(vh::Rng &r, int n, double cond) {
  Eigen::MatrixXd A(n, n); filln(A, r);
  const Eigen::MatrixXd Q = Eigen::HouseholderQR<Eigen::MatrixXd>(A).householderQ();
  Eigen::VectorXd d(n); const double sc = r.logu(1e-2, 1e2);
  for (int i = 0; i < n; ++i) d(i) = sc * r.logu(1 / cond, 1);
  Eigen::MatrixXd C = Q * d.asDiagonal() * Q.transpose(); C = (0.5 * (C + C.transpose())).eval();
  return C.template cast<S>();
}
template <typename M> M spoil_lower(const M &m, vh::Rng &r) { M o = m; for (long j = 0; j < m.cols(); ++j) for (long i = j + 1; i < m.rows(); ++i) o(i, j) = typename M::Scalar(r.normal() * 10); return o; }

template <typename S, int D> void maha(vh::Case &c, int n) {
  using V = Vector<S, D>; const double cond = sizeof(S) == 4 ? 30 : 1e4;
  V x; if constexpr (D == Eigen::Dynamic) x.resize(n); filln(x, c.rng, c.rng.coin(0.2) ? c.rng.logu(1e-2, 1e3) : 1);
  const auto C = cov_rand<S, D>(c.rng, n, cond); const auto Cu = spoil_lower(C, c.rng);
  const LMat Cl = ld(C); const LVec X = ld(x);
  const LMat I = Cl.inverse(); const LVec Ix = I * X; const LD n2 = X.dot(Ix), nn = std::sqrt(n2);
  const LD e = 256 * eps<S>() * n * cond * 4;
  auto det = [&] { return cat("n=", n, sizeof(S) == 4 ? "f" : "", D == Eigen::Dynamic ? " dyn" : "", " x=", vh::mat(x), " C=", vh::mat(C)); };
  Eigen::Matrix<S, D, 2> A; if constexpr (D == Eigen::Dynamic) A.resize(n, 2); filln(A, c.rng);
  const LMat Al = ld(A); const LD am = 1 + Al.cwiseAbs().maxCoeff() * n;
  auto sq = [&](const auto &cv, const char *what) {
    const auto v = losses::MahaSquaredNorm(x, cv);
    c.check(near(v, n2, e), "maha-squared", [&] { return cat(what, " ", det(), " -> ", v, " expected ", (double)n2); });
    const auto &[v1, J1] = losses::MahaSquaredNorm(x, cv, true);
    const LD jt = e * 2 * (I.cwiseAbs().maxCoeff() * X.cwiseAbs().sum());
    c.check(near(v1, n2, e) && nearM(ld(J1), 2 * Ix.transpose(), 0, jt), "maha-squared-jacobian", [&] { return cat(what, " ", det(), " J=", vh::mat(J1)); });
    const auto &[v2, J2] = losses::MahaSquaredNorm(x, cv, A);
    c.check(near(v2, n2, e) && nearM(ld(J2), 2 * Ix.transpose() * Al, 0, jt * am), "maha-squared-chain", [&] { return cat(what, " ", det(), " A=", vh::mat(A), " J=", vh::mat(J2)); });
    const auto &[v3, J3] = losses::MahaSquaredNorm(x, cv, true, false);
    c.check(near(v3, n2, e) && nearM(ld(J3), Ix.transpose(), 0, jt), "maha-squared-unscaled", [&] { return cat(what, " ", det()); });
    c.event("squared-norms"); c.event("jacobians", 3);
    if (nn < 1e-2L) return;
    const auto w = losses::MahaNorm(x, cv);
    c.check(near(w, nn, e), "maha-norm", [&] { return cat(what, " ", det(), " -> ", w); });
    const auto &[w1, K1] = losses::MahaNorm(x, cv, true);
    c.check(near(w1, nn, e) && nearM(ld(K1), Ix.transpose() / nn, 0, jt / nn), "maha-norm-jacobian", [&] { return cat(what, " ", det(), " J=", vh::mat(K1)); });
    const auto &[w2, K2] = losses::MahaNorm(x, cv, A);
    c.check(near(w2, nn, e) && nearM(ld(K2), Ix.transpose() * Al / nn, 0, jt * am / nn), "maha-norm-chain", [&] { return cat(what, " ", det(), " A=", vh::mat(A)); });
    c.event("norms"); c.event("jacobians", 2);
  };
  sq(C, "cov"); sq(Cu, "cov with garbage in the lower triangle");
  const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Cd = Cu;
  if (n > 1) sq(Cd, "dynamic cov");
  // the arguments are left alone, expressions are accepted
  c.check(near(losses::MahaSquaredNorm((x + x).eval(), C), 4 * n2, e) && near(losses::MahaNorm(x + x, C), 2 * nn, e), "maha-of-expression", det);
  // whitening
  auto whiten = [&](const auto &cv, const char *what) {
    const auto w = losses::MahaWhitened(x, cv);
    const LD sc = std::sqrt(I.cwiseAbs().maxCoeff());
    c.check(near(ld(w).squaredNorm(), n2, e), "whitened-norm", [&] { return cat(what, " ", det(), " w=", vh::mat(w)); });
    const auto &[w1, J1] = losses::MahaWhitened(x, cv, true);
    const LMat W = ld(J1);
    // the Jacobian of a linear whitening: w = W x and W^T W = C^-1
    c.check(W.rows() == n && W.cols() == n && nearM(ld(w1), ld(w), 0, e * sc * (1 + X.norm())) && nearM(W * X, ld(w), 0, e * n * sc * X.cwiseAbs().maxCoeff()), "whitened-jacobian-not-linear-map", [&] { return cat(what, " ", det(), " J=", vh::mat(J1)); });
    c.check(W.rows() == n && W.cols() == n && nearM(W.transpose() * W, I, 0, e * I.cwiseAbs().maxCoeff()), "whitened-jacobian", [&] { return cat(what, " ", det(), " J=", vh::mat(J1)); });
    const auto &[w2, J2] = losses::MahaWhitened(x, cv, A);
    c.check(nearM(ld(w2), ld(w), 0, e * sc * (1 + X.norm())) && nearM(ld(J2), W * Al, 0, e * sc * am), "whitened-chain", [&] { return cat(what, " ", det(), " A=", vh::mat(A), " J=", vh::mat(J2)); });
    c.event("whitenings"); c.event("jacobians", 2);
  };
  if (D != 1) { whiten(C, "cov"); whiten(Cu, "cov with garbage in the lower triangle"); }
  // square-root information factor (upper), I = U^T U
  {
    const LMat Ul = LMat(I.llt().matrixU()); Mt<S, D> U; if constexpr (D == Eigen::Dynamic) U.resize(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) U(i, j) = S(i <= j ? Ul(i, j) : 10 * c.rng.normal());
    const auto w = losses::MahaWhitenedInfoU(x, U);
    c.check(near(ld(w).squaredNorm(), n2, e), "whitened-info-norm", [&] { return cat(det(), " U=", vh::mat(U), " w=", vh::mat(w)); });
    const auto &[w1, J1] = losses::MahaWhitenedInfoU(x, U, true);
    const LD um = Ul.cwiseAbs().maxCoeff();
    c.check(nearM(ld(w1), ld(w), 0, e * um * (1 + X.norm())) && nearM(ld(J1), Ul, 0, e * um), "whitened-info-jacobian", [&] { return cat(det(), " U=", vh::mat(U), " J=", vh::mat(J1)); });
    const auto &[w2, J2] = losses::MahaWhitenedInfoU(x, U, A);
    c.check(nearM(ld(w2), ld(w), 0, e * um * (1 + X.norm())) && nearM(ld(J2), Ul * Al, 0, e * um * am), "whitened-info-chain", [&] { return cat(det(), " A=", vh::mat(A), " J=", vh::mat(J2)); });
    c.event("whitenings"); c.event("jacobians", 2);
  }
  // variances / standard deviations
  {
    V s; if constexpr (D == Eigen::Dynamic) s.resize(n); for (int i = 0; i < n; ++i) s(i) = S(c.rng.logu(0.05, 20));
    const V var = s.cwiseProduct(s); const LVec V_ = ld(var), Sd = ld(s); const LD f = 64 * eps<S>() * n;
    LVec y = X.cwiseQuotient(V_); const LD m2 = X.dot(y), m = std::sqrt(m2);
    auto d2 = [&] { return cat("x=", vh::mat(x), " vars=", vh::mat(var)); };
    c.check(near(losses::MahaSquaredNorm(x, var), m2, f) && near(losses::MahaNorm(x, var), m, f), "maha-variances", d2);
    const auto &[a1, b1] = losses::MahaSquaredNorm(x, var, true); const auto &[a2, b2] = losses::MahaSquaredNorm(x, var, A);
    const LD yt = f * 4 * y.cwiseAbs().maxCoeff();
    c.check(near(a1, m2, f) && nearM(ld(b1), 2 * y.transpose(), 0, yt) && near(a2, m2, f) && nearM(ld(b2), 2 * y.transpose() * Al, 0, yt * am), "maha-variances-jacobian", [&] { return cat(d2(), " J=", vh::mat(b1)); });
    if (m > 1e-3L) {
      const auto &[a3, b3] = losses::MahaNorm(x, var, true); const auto &[a4, b4] = losses::MahaNorm(x, var, A);
      c.check(near(a3, m, f) && nearM(ld(b3), y.transpose() / m, 0, yt / m) && near(a4, m, f) && nearM(ld(b4), y.transpose() * Al / m, 0, yt * am / m), "maha-norm-variances-jacobian", [&] { return cat(d2(), " J=", vh::mat(b3)); });
    }
    // a run-time sized covariance with a single column holds variances
    const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> vd = var;
    c.check(near(losses::MahaSquaredNorm(x, vd), m2, f), "maha-variances-dynamic", d2);
    const auto w = losses::MahaWhitened(x, s); const auto &[w1, J1] = losses::MahaWhitened(x, s, true); const auto &[w2, J2] = losses::MahaWhitened(x, s, A);
    const LVec wl = X.cwiseQuotient(Sd); const LMat W = LMat(Sd.cwiseInverse().asDiagonal());
    c.check(nearE(ld(w), wl, f) && nearE(ld(w1), wl, f) && nearE(ld(w2), wl, f), "whitened-stdevs", [&] { return cat("x=", vh::mat(x), " s=", vh::mat(s), " w=", vh::mat(w)); });
    c.check(nearE(ld(J1), W, f) && nearE(ld(J2), W * Al, f), "whitened-stdevs-jacobian", [&] { return cat("s=", vh::mat(s), " J=", vh::mat(J1), " A=", vh::mat(A), " JA=", vh::mat(J2)); });
    const S iso = s(0); const auto wi = losses::MahaWhitened(x, iso); const auto &[wi1, ji1] = losses::MahaWhitened(x, iso, true); const auto &[wi2, ji2] = losses::MahaWhitened(x, iso, A);
    c.check(nearE(ld(wi), X / iso, f) && nearE(ld(wi1), X / iso, f) && near(ji1, 1 / (LD)iso, f) && nearE(ld(ji2), Al / iso, f), "whitened-iso", [&] { return cat("x=", vh::mat(x), " s=", iso); });
    c.event("squared-norms", 2); c.event("whitenings", 2); c.event("jacobians", 6);
  }
  if constexpr (D != Eigen::Dynamic && D > 1 && std::is_same_v<S, double>) {  // dual numbers
    using Jt = diff::Jet<S, D>; Vector<Jt, D> xj;
    for (int i = 0; i < D; ++i) { xj[i].a = x[i]; xj[i].v = Vector<S, D>::Unit(i); }
    const Jt r = losses::MahaSquaredNorm(xj, Cu);
    c.check(near(r.a, n2, e) && nearM(ld(r.v), 2 * Ix, 0, e * 4 * (I.cwiseAbs().maxCoeff() * X.cwiseAbs().sum())), "maha-dual", [&] { return cat(det(), " v=", vh::mat(r.v)); });
    const auto w = losses::MahaWhitened(xj, Cu); const auto wd = losses::MahaWhitened(x, Cu); const auto &[w1, J1] = losses::MahaWhitened(x, Cu, true);
    for (int i = 0; i < D; ++i) c.check(nearM(ld(w[i].v).transpose(), ld(J1).row(i), 0, e * ld(J1).cwiseAbs().maxCoeff()), "whitened-dual", [&] { return cat(det(), " i=", i, " v=", vh::mat(w[i].v)); });
    c.event("duals");
  }
  c.distinct(cat(sizeof(S), D, "/", n, "/", (int)std::log2((double)n2 + 1e-300)));
}
template <typename S> void maha_scalar(vh::Case &c) {
  const S x = S(c.rng.normal() * 3), var = S(c.rng.logu(1e-2, 1e2)), a = S(c.rng.normal());
  const LD n2 = (LD)x * x / var, e = 64 * eps<S>();
  auto det = [&] { return cat("scalar x=", x, " var=", var); };
  const auto &[v1, J1] = losses::MahaSquaredNorm(x, var, true); const auto &[v2, J2] = losses::MahaSquaredNorm(x, var, a);
  c.check(near(losses::MahaSquaredNorm(x, var), n2, e) && near(v1, n2, e) && near(v2, n2, e), "maha-scalar", det);
  c.check(near(J1, 2 * (LD)x / var, e) && near(J2, 2 * (LD)x / var * a, e), "maha-scalar-jacobian", det);
  if (n2 < 1e-4L) return;
  const LD n = std::sqrt(n2), j = (LD)x / var / n;
  const auto &[v3, J3] = losses::MahaNorm(x, var, true); const auto &[v4, J4] = losses::MahaNorm(x, var, a);
  c.check(near(losses::MahaNorm(x, var), n, e) && near(v3, n, e) && near(v4, n, e) && near(J3, j, e) && near(J4, j * a, e), "maha-norm-scalar", det);
  c.event("norms"); c.event("jacobians", 4);
}
}  // namespace
#if VH_PROP == 0 || VH_PROP == 23
VH_SUITE(mahalanobis, 8000, 40000) {
  maha<double, 2>(c, 2); maha<double, 4>(c, 4); maha<float, 3>(c, 3); maha<double, Eigen::Dynamic>(c, c.rng.range(2, 9)); maha<float, Eigen::Dynamic>(c, c.rng.range(2, 6));
  maha_scalar<double>(c); maha_scalar<float>(c);
}
VH_SUITE(mahalanobis_refused, 8000, 40000) {
  auto go = [&]<typename S, int D>(int n, S) {
    Mt<S, D> C = cov_rand<S, D>(c.rng, n, 10);
    // one clearly negative eigenvalue: C - 2 * (largest rayleigh) * v v^T
    Vector<S, D> v; if constexpr (D == Eigen::Dynamic) v.resize(n); filln(v, c.rng); v /= v.norm();
    const int kind = c.rng.range(0, 1);
    if (kind == 0) C -= S(2) * S((v.transpose() * C * v)(0)) * (v * v.transpose());
    else C = -C;
    Vector<S, D> x; if constexpr (D == Eigen::Dynamic) x.resize(n); filln(x, c.rng);
    auto refuses = [&](auto f, const char *key) {
      bool thrown = false;
      try { f(); } catch (const std::invalid_argument &) { thrown = true; }
      c.check(thrown, key, [&] { return cat("C=", vh::mat(C)); });
      c.event("refusals");
    };
    refuses([&] { (void)losses::MahaSquaredNorm(x, C); }, "squared-norm-not-refused");
    refuses([&] { (void)losses::MahaSquaredNorm(x, C, true); }, "squared-norm-jacobian-not-refused");
    refuses([&] { (void)losses::MahaNorm(x, C); }, "norm-not-refused");
    refuses([&] { (void)losses::MahaNorm(x, C, true); }, "norm-jacobian-not-refused");
    refuses([&] { (void)losses::MahaWhitened(x, C); }, "whitening-not-refused");
    refuses([&] { (void)losses::MahaWhitened(x, C, true); }, "whitening-jacobian-not-refused");
    refuses([&] { (void)distances::MahaNorm(x, (x + x).eval(), C); }, "distance-not-refused");
    c.distinct(cat(sizeof(S), D, n, kind));
  };
  go.template operator()<double, 2>(2, 0.); go.template operator()<double, Eigen::Dynamic>(c.rng.range(2, 7), 0.); go.template operator()<float, 3>(3, 0.f);
}
#endif
#if VH_PROP == 0 || VH_PROP == 24
namespace {
struct DL2 { static constexpr const char *n = "Euclidean"; template <typename... A> static auto f(const A &...a) { return distances::Euclidean(a...); } template <typename... A> static auto g(const A &...a) { return distances::L2(a...); }
  static LD val(const LVec &d) { return d.norm(); } static LVec jac(const LVec &d) { return d / d.norm(); } static bool smooth(const LVec &d) { return d.norm() > 1e-5L; } };
struct DL1 { static constexpr const char *n = "Manhattan"; template <typename... A> static auto f(const A &...a) { return distances::Manhattan(a...); } template <typename... A> static auto g(const A &...a) { return distances::L1(a...); }
  static LD val(const LVec &d) { return d.cwiseAbs().sum(); } static LVec jac(const LVec &d) { return d.unaryExpr([](LD v) { return v > 0 ? (LD)1 : (LD)-1; }); } static bool smooth(const LVec &d) { return d.cwiseAbs().minCoeff() > 1e-9L; } };
struct DLi { static constexpr const char *n = "Linf"; template <typename... A> static auto f(const A &...a) { return distances::Linf(a...); } template <typename... A> static auto g(const A &...a) { return distances::Linf(a...); }
  static LD val(const LVec &d) { return d.cwiseAbs().maxCoeff(); }
  static LVec jac(const LVec &d) { long k; d.cwiseAbs().maxCoeff(&k); LVec j = LVec::Zero(d.size()); j(k) = d(k) > 0 ? 1 : -1; return j; }
  static bool smooth(const LVec &d) { long k; LD m = d.cwiseAbs().maxCoeff(&k); for (long i = 0; i < d.size(); ++i) if (i != k && std::abs(d(i)) > m * (1 - 1e-5L)) return false; return m > 1e-9L; } };
template <typename D_, typename S, int D> void dist(vh::Case &c, int n) {
  using V = Vector<S, D>; V a, b, m; if constexpr (D == Eigen::Dynamic) { a.resize(n); b.resize(n); m.resize(n); }
  fill(a, c.rng); fill(b, c.rng); fill(m, c.rng); if (c.rng.coin(0.1)) b = a;
  LVec df = ld((a - b).eval()); const LD e = 64 * eps<S>() * n, v = D_::val(df);   // the difference itself is rounded
  auto det = [&] { return cat(D_::n, " a=", vh::mat(a), " b=", vh::mat(b)); };
  const S d = D_::f(a, b), d2 = D_::f(b, a);
  c.check(near(d, v, e) && near(D_::g(a, b), v, e), "distance-value", [&] { return cat(det(), " -> ", d); });
  c.check(near(d, d2, e), "distance-asymmetric", [&] { return cat(det(), " ", d, " ", d2); });
  c.check(D_::f(a, a) == 0, "distance-to-itself", det);
  const LD am = D_::f(a, m), mb = D_::f(m, b);
  c.check(d <= (am + mb) * (1 + e), "triangle-inequality", [&] { return cat(det(), " m=", vh::mat(m)); });
  const auto &[d1, Ja, Jb] = D_::f(a, b, true); const auto &[d3, Ka, Kb] = D_::g(a, b, true);
  c.check(near(d1, v, e) && near(d3, v, e), "distance-forms-differ", det);
  c.event("distances");
  if (D_::smooth(df)) {
    const LVec j = D_::jac(df);
    c.check(nearM(ld(Ja), j.transpose(), 4 * e) && nearM(ld(Ka), j.transpose(), 4 * e), "distance-jacobian-a", [&] { return cat(det(), " Ja=", vh::mat(Ja)); });
    c.check(nearM(ld(Jb), -j.transpose(), 4 * e) && nearM(ld(Kb), -j.transpose(), 4 * e), "distance-jacobian-b", [&] { return cat(det(), " Jb=", vh::mat(Jb)); });
    c.event("distance-jacobians", 2);
  }
  c.distinct(cat(D_::n, sizeof(S), D, n, "/", (int)std::log10((double)v + 1e-300)));
}
template <typename D_, typename S> void dist_scalar(vh::Case &c) {
  const S a = value<S>(c.rng), b = c.rng.coin(0.1) ? a : value<S>(c.rng); const LD v = std::abs((LD)(S)(a - b)), e = 64 * eps<S>();
  auto det = [&] { return cat(D_::n, " scalars ", a, " ", b); };
  const auto &[d, Ja, Jb] = D_::f(a, b, true);
  c.check(near(D_::f(a, b), v, e) && near(D_::f(b, a), v, e) && near(d, v, e), "distance-scalar", det);
  if (a != b) { const LD j = a > b ? 1 : -1; c.check(near(Ja, j, e) && near(Jb, -j, e), "distance-scalar-jacobian", [&] { return cat(det(), " ", Ja, " ", Jb); }); }
  c.event("distances");
}
template <typename S, int D> void cosine(vh::Case &c, int n) {
  using V = Vector<S, D>; V a, b; if constexpr (D == Eigen::Dynamic) { a.resize(n); b.resize(n); }
  filln(a, c.rng, c.rng.logu(0.05, 50)); filln(b, c.rng, c.rng.logu(0.05, 50)); if (c.rng.coin(0.1)) b = a * S(c.rng.sgn() * c.rng.logu(0.5, 2));
  const LVec A = ld(a), B = ld(b); const LD na = A.norm(), nb = B.norm(); if (na < 1e-2L || nb < 1e-2L) return;
  const LD v = A.dot(B) / na / nb, e = 64 * eps<S>() * n;
  auto det = [&] { return cat("Cosine a=", vh::mat(a), " b=", vh::mat(b)); };
  const S d = distances::Cosine(a, b);
  c.check(near(d, v, e, e), "cosine-value", [&] { return cat(det(), " -> ", d); });
  c.check(near(distances::Cosine(b, a), v, e, e), "cosine-asymmetric", det);
  const S k = S(c.rng.logu(0.1, 100));
  c.check(near(distances::Cosine((a * k).eval(), b), v, 4 * e, 4 * e), "cosine-not-scale-invariant", [&] { return cat(det(), " k=", k); });
  const auto &[d1, Ja, Jb] = distances::Cosine(a, b, true);
  const LVec ja = B / (na * nb) - A * (A.dot(B) / (na * na * na * nb)), jb = A / (na * nb) - B * (A.dot(B) / (na * nb * nb * nb));
  c.check(near(d1, v, e, e), "cosine-forms-differ", [&] { return cat(det(), " -> ", d1); });
  c.check(nearM(ld(Ja), ja.transpose(), 0, 8 * e / na) && nearM(ld(Jb), jb.transpose(), 0, 8 * e / nb), "cosine-jacobian", [&] { return cat(det(), " Ja=", vh::mat(Ja), " Jb=", vh::mat(Jb)); });
  c.event("cosines"); c.event("distance-jacobians", 2);
}
template <typename S, int D> void dmaha(vh::Case &c, int n) {
  using V = Vector<S, D>; V a, b, m; if constexpr (D == Eigen::Dynamic) { a.resize(n); b.resize(n); m.resize(n); }
  filln(a, c.rng); filln(b, c.rng); filln(m, c.rng);
  const double cond = sizeof(S) == 4 ? 10 : 100; const auto C = cov_rand<S, D>(c.rng, n, cond); const LMat I = ld(C).inverse();
  const LVec df = ld((a - b).eval()); const LD v = std::sqrt(df.dot(I * df)), e = 256 * eps<S>() * n * cond; if (v < 1e-2L) return;
  auto det = [&] { return cat("MahaNorm a=", vh::mat(a), " b=", vh::mat(b), " C=", vh::mat(C)); };
  const S d = distances::MahaNorm(a, b, C);
  c.check(near(d, v, e) && near(distances::MahaNorm(b, a, C), v, e), "maha-distance", [&] { return cat(det(), " -> ", d); });
  c.check(distances::MahaNorm(a, a, C) == 0, "maha-distance-to-itself", det);
  c.check((LD)d <= ((LD)distances::MahaNorm(a, m, C) + distances::MahaNorm(m, b, C)) * (1 + e), "maha-triangle-inequality", det);
  const auto &[d1, Ja, Jb] = distances::MahaNorm(a, b, C, true);
  const LVec j = I * df / v; const LD jt = e * 4 * I.cwiseAbs().maxCoeff() * df.cwiseAbs().sum() / v;
  c.check(near(d1, v, e) && nearM(ld(Ja), j.transpose(), 0, jt) && nearM(ld(Jb), -j.transpose(), 0, jt), "maha-distance-jacobian", [&] { return cat(det(), " Ja=", vh::mat(Ja), " Jb=", vh::mat(Jb)); });
  c.event("distances"); c.event("distance-jacobians", 2);
}
}  // namespace
VH_SUITE(distances, 12000, 60000) {
  auto go = [&](auto t) { using T = decltype(t);
    dist<T, double, 2>(c, 2); dist<T, double, 4>(c, 4); dist<T, double, Eigen::Dynamic>(c, c.rng.range(1, 9)); dist<T, float, 3>(c, 3); dist<T, float, Eigen::Dynamic>(c, c.rng.range(1, 6));
    dist_scalar<T, double>(c); dist_scalar<T, float>(c); };
  go(DL2{}); go(DL1{}); go(DLi{});
  cosine<double, 2>(c, 2); cosine<double, 3>(c, 3); cosine<double, Eigen::Dynamic>(c, c.rng.range(1, 9)); cosine<float, Eigen::Dynamic>(c, c.rng.range(2, 5));
  dmaha<double, 2>(c, 2); dmaha<double, Eigen::Dynamic>(c, c.rng.range(2, 7)); dmaha<float, 3>(c, 3);
  const double a = c.rng.normal(), b = c.rng.normal(), var = c.rng.logu(0.1, 10), d = std::abs(a - b) / std::sqrt(var), sg = a > b ? 1 : -1;
  if (d > 1e-3) {
    const auto &[d1, Ja, Jb] = distances::MahaNorm(a, b, var, true);
    c.check(vh::close(distances::MahaNorm(a, b, var), d, 1e-12) && vh::close(d1, d, 1e-12) && vh::close(Ja, sg / std::sqrt(var), 1e-11) && vh::close(Jb, -sg / std::sqrt(var), 1e-11), "maha-distance-scalar", [&] { return cat(a, " ", b, " ", var); });
  }
}
#endif
