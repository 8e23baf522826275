// C19: symmetric solves and inverses, sparse difference, integer square root.
#include "vh.h"
#include "compat.h"
#include <tinyopt/tinyopt.h>
#include <Eigen/Dense>
using namespace tinyopt;
using VD = Eigen::VectorXd; using MD = Eigen::MatrixXd;

namespace {
struct Sys { MD A; VD b; double cond, lmin; std::string desc; bool pd; };
MD rand_orth(vh::Rng &r, int n) { MD m(n, n); for (int i = 0; i < m.size(); ++i) m.data()[i] = r.normal(); return Eigen::HouseholderQR<MD>(m).householderQ(); }
// kind 0: positive definite, 1: indefinite, 2: negative definite
Sys make(vh::Rng &r, int n, int kind, double maxcond, double smin, double smax) {
  Sys s; const double sc = r.logu(smin, smax); const double cond = n == 1 ? 1 : r.logu(1, maxcond);
  VD e(n); for (int i = 0; i < n; ++i) e[i] = n == 1 ? 1 : std::pow(cond, -double(i) / (n - 1));
  if (n > 2) for (int i = 1; i + 1 < n; ++i) e[i] = r.logu(1 / cond, 1);
  int neg = 0;
  if (kind == 2) { e = -e; neg = n; } else if (kind == 1) { neg = r.range(1, std::max(1, n - 1)); for (int i = 0; i < neg; ++i) e[r.coin() ? i : n - 1 - i] *= -1; }
  if (kind == 1 && (e.array() > 0).all()) e[0] = -1;
  const int shape = r.range(0, 3); MD Q = shape == 0 ? MD(MD::Identity(n, n)) : rand_orth(r, n);
  s.A = sc * Q * e.asDiagonal() * Q.transpose(); s.A = (0.5 * (s.A + s.A.transpose())).eval();
  if (shape == 3 && kind == 0) {                 // diagonal rescaling: badly scaled but benign for LDLT
    VD d(n); for (int i = 0; i < n; ++i) d[i] = r.logu(1e-3, 1e3); s.A = (d.asDiagonal() * s.A * d.asDiagonal()).eval();
  }
  s.b.resize(n); const double bs = r.logu(1e-3, 1e3); for (int i = 0; i < n; ++i) s.b[i] = bs * r.normal();
  if (r.coin(0.1)) s.b.setZero(); if (r.coin(0.1)) { s.b.setZero(); s.b[r.range(0, n - 1)] = bs; }
  Eigen::SelfAdjointEigenSolver<MD> es(s.A); s.lmin = es.eigenvalues().minCoeff();
  const double lmax = es.eigenvalues().cwiseAbs().maxCoeff(); s.cond = lmax / es.eigenvalues().cwiseAbs().minCoeff();
  s.pd = s.lmin > 0; s.desc = vh::cat("n=", n, " kind=", kind, " scale=", sc, " cond=", s.cond, " A=", n <= 4 ? vh::mat(s.A) : "..");
  return s;
}
template <typename S> constexpr double EPS = std::is_same_v<S, float> ? 1.2e-7 : 2.3e-16;

// Backward-stable: |A x - b| <= c*eps*|A||x|
template <typename S, typename X> void judge_solve(vh::Case &c, const Sys &s, const X &x, const char *form) {
  const int n = s.A.rows(); const double eps = EPS<S>;
  if (s.lmin < -1e3 * n * eps * s.A.norm()) {
    c.event("refusals-expected");
    c.check(!x, "indefinite-system-solved", [&] { return vh::cat(form, " ", s.desc); });
    return;
  }
  if (!(s.lmin > 0) || s.cond > 0.01 / (n * eps)) { c.event("undecided"); return; }
  if (!c.check((bool)x, "positive-system-refused", [&] { return vh::cat(form, " ", s.desc); })) return;
  const VD xd = x->template cast<double>();
  c.check(xd.size() == n, "wrong-size", [&] { return vh::cat(form, " ", xd.size()); });
  const double res = (s.A * xd - s.b).norm(), tol = 50.0 * n * eps * (s.A.norm() * xd.norm() + s.b.norm());
  c.check(res <= tol, "solution-residual", [&] { return vh::cat(form, " |Ax-b|=", res, " tol ", tol, " ", s.desc); });
  c.event("solutions");
}
template <typename S, typename M> void judge_inverse(vh::Case &c, const Sys &s, const M &opt, const char *form) {
  const int n = s.A.rows(); const double eps = EPS<S>;
  if (s.lmin < -1e3 * n * eps * s.A.norm()) {
    c.event("refusals-expected");
    c.check(!opt, "indefinite-matrix-inverted", [&] { return vh::cat(form, " ", s.desc); });
    return;
  }
  if (!(s.lmin > 0) || s.cond > 0.01 / (n * eps)) { c.event("undecided"); return; }
  if (!c.check((bool)opt, "positive-matrix-refused", [&] { return vh::cat(form, " ", s.desc); })) return;
  const MD I = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>(*opt).template cast<double>();
  if (!c.check(I.rows() == n && I.cols() == n, "wrong-size", [&] { return vh::cat(form, " ", I.rows(), "x", I.cols()); })) return;
  const MD D = s.A * I - MD::Identity(n, n); const double tol = 50.0 * n * eps * (s.A.norm() * I.norm() + 1);
  c.check(D.norm() <= tol, "inverse-residual", [&] { return vh::cat(form, " |A*Ainv-I|=", D.norm(), " tol ", tol, " ", s.desc); });
  c.check((I - I.transpose()).norm() <= tol * I.norm(), "inverse-not-symmetric", [&] { return vh::cat(form, " ", s.desc); });
  c.event("inverses");
}
// What is stored below the diagonal: the mirrored values, zeros, or garbage
MD stored(vh::Rng &r, const MD &A, std::string &how) {
  MD M = A; const int k = r.range(0, 3); how = k == 0 ? "full" : k == 1 ? "upper" : k == 2 ? "garbage-below" : "nan-below";
  if (k) for (int c = 0; c < M.cols(); ++c) for (int r_ = c + 1; r_ < M.rows(); ++r_) M(r_, c) = k == 1 ? 0 : k == 2 ? r.normal() * 1e3 : NAN;
  return M;
}
template <typename S, int N> void dense(vh::Case &c, int n) {
  const bool f = std::is_same_v<S, float>;
  Sys s = make(c.rng, n, c.rng.coin(0.65) ? 0 : c.rng.range(1, 2), f ? 1e3 : 1e9, f ? 1e-6 : 1e-12, f ? 1e6 : 1e12);
  if (f) { s.A = s.A.cast<float>().cast<double>(); s.b = s.b.cast<float>().cast<double>(); Eigen::SelfAdjointEigenSolver<MD> es(s.A); s.lmin = es.eigenvalues().minCoeff(); s.cond = es.eigenvalues().cwiseAbs().maxCoeff() / es.eigenvalues().cwiseAbs().minCoeff(); }
  std::string how; using M = Matrix<S, N, N>; using V = Vector<S, N>;
  const M A = stored(c.rng, s.A, how).template cast<S>(); const M copy = A; const V b = s.b.template cast<S>();
  s.desc += " " + how; c.label(vh::cat("dense N=", N, " ", s.desc));
  judge_solve<S>(c, s, SolveLDLT(A, b), "dense solve");
  judge_inverse<S>(c, s, InvCov(A), "dense inverse");
  c.check(std::memcmp(A.data(), copy.data(), sizeof(S) * A.size()) == 0, "input-modified", [&] { return s.desc; });
  c.distinct(vh::cat(N, f, n, how, s.pd, (int)std::log10(s.cond)));
}
template <typename S> void sparse_case(vh::Case &c, int n) {
  Sys s = make(c.rng, n, c.rng.coin(0.65) ? 0 : c.rng.range(1, 2), 1e6, 1e-8, 1e8);
  if (c.rng.coin()) {   // really sparse: positive definite by diagonal dominance, or one sign flipped
    MD B = MD::Zero(n, n); for (int k = 0; k < 2 * n; ++k) { int i = c.rng.range(0, n - 1), j = c.rng.range(0, n - 1); B(i, j) = B(j, i) = c.rng.normal(); }
    for (int i = 0; i < n; ++i) B(i, i) = B.row(i).cwiseAbs().sum() + c.rng.uni(0.1, 1);
    if (c.rng.coin(0.35)) B(c.rng.range(0, n - 1), 0) *= 1, B(n - 1, n - 1) *= -1;
    s.A = B; Eigen::SelfAdjointEigenSolver<MD> es(B); s.lmin = es.eigenvalues().minCoeff(); s.cond = es.eigenvalues().cwiseAbs().maxCoeff() / es.eigenvalues().cwiseAbs().minCoeff(); s.pd = s.lmin > 0;
    s.desc = vh::cat("sparse pattern n=", n);
  }
  std::string how; MD st = stored(c.rng, s.A, how); s.desc += " " + how; c.label(s.desc);
  SparseMatrix<S> A(n, n); std::vector<Eigen::Triplet<S>> t;
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (st(i, j) != 0) t.emplace_back(i, j, (S)st(i, j));
  A.setFromTriplets(t.begin(), t.end());
  if (c.rng.coin(0.3)) A.uncompress();
  const Vector<S, Dynamic> b = s.b.template cast<S>();
  const auto x = SolveLDLT(A, b); const auto I = InvCov(A);
  judge_solve<S>(c, s, x, "sparse solve"); judge_inverse<S>(c, s, I, "sparse inverse");
  // agreement with the dense variant
  if (s.pd && s.cond < 1e6 && x && I) {
    const Matrix<S, Dynamic, Dynamic> Ad = st.template cast<S>(); const auto xd = SolveLDLT(Ad, b); const auto Id = InvCov(Ad);
    c.check(xd && (*xd - *x).norm() <= 1e3 * n * EPS<S> * s.cond * (x->norm() + 1e-300), "sparse-dense-solutions-differ", [&] { return s.desc; });
    const MD a = MD(*I).template cast<double>(); c.check(Id && (Id->template cast<double>() - a).norm() <= 1e3 * n * EPS<S> * s.cond * (a.norm() + 1e-300), "sparse-dense-inverses-differ", [&] { return s.desc; });
    c.event("agreements");
  }
  c.distinct(vh::cat("s", n, how, s.pd, (int)std::log10(s.cond)));
}
}  // namespace

VH_SUITE(dense_fixed, 24000, 96000) {
  switch (c.rng.range(0, 5)) {
    case 0: dense<double, 1>(c, 1); break;
    case 1: dense<double, 2>(c, 2); break;
    case 2: dense<double, 3>(c, 3); break;
    case 3: dense<double, 6>(c, 6); break;
    case 4: dense<float, 3>(c, 3); break;
    case 5: dense<float, 1>(c, 1); break;
  }
}
VH_SUITE(dense_dynamic, 16000, 64000) {
  const int n = c.rng.coin(0.7) ? c.rng.range(1, 8) : c.rng.range(9, 50);
  if (c.rng.coin(0.75)) dense<double, Dynamic>(c, n); else dense<float, Dynamic>(c, std::min(n, 12));
}
VH_SUITE(sparse, 12000, 48000) { const int n = c.rng.coin(0.7) ? c.rng.range(1, 8) : c.rng.range(9, 60); sparse_case<double>(c, n); }
// Block arguments of dense matrices: only the block counts, whatever surrounds it
VH_SUITE(sparse_shift, 4000, 16000) {   // the documented second attempt with a shifted diagonal
  vh::Rng &r = c.rng; const int n = r.range(1, 10); const bool singular = r.coin(0.7); Sys s = make(r, n, 0, 1e4, 1e-2, 1e2); const double off = r.coin(0.3) ? 0.0 : r.logu(1e-6, 10);
  // rows and columns of zeros make the matrix exactly singular
  std::vector<bool> dead(n, false); int live = n; if (singular) { for (int i = 0; i < n; ++i) if (r.coin(0.4)) dead[i] = true; dead[r.range(0, n - 1)] = true; for (int i = 0; i < n; ++i) if (dead[i]) { s.A.row(i).setZero(); s.A.col(i).setZero(); --live; } }
  const bool stored = r.coin(), upper = r.coin(); std::vector<Eigen::Triplet<double>> t; for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { if (upper && i > j) continue; if (s.A(i, j) != 0 || (stored && i == j)) t.emplace_back(i, j, s.A(i, j)); }
  SparseMat m(n, n); m.setFromTriplets(t.begin(), t.end()); const SparseMat before = m; const std::string d = vh::cat("n=", n, " zero rows ", n - live, " offset ", off, " stored ", stored); c.label(d);
  const auto inv = InvCov(m, off); c.check((m - before).norm() == 0, "input-modified", [&] { return d; });
  if (!singular) { judge_inverse<double>(c, s, inv, "sparse inverse with an unused shift"); c.event("shift-not-needed"); }
  else if (off == 0) { c.check(!inv, "singular-matrix-inverted", [&] { return d; }); c.event("shift-not-allowed"); }
  else { Sys q = s; q.A.diagonal().array() += off; Eigen::SelfAdjointEigenSolver<MD> es(q.A); q.lmin = es.eigenvalues().minCoeff(); q.cond = es.eigenvalues().maxCoeff() / q.lmin; q.pd = true; q.desc = d; judge_inverse<double>(c, q, inv, "sparse inverse with shift"); c.event("shifted"); }
  c.distinct(vh::cat("shift", n, singular, off == 0, stored, upper, live));
}
VH_SUITE(blocks, 6000, 24000) {
  const int n = c.rng.range(1, 6), off = c.rng.range(0, 3), N = n + off + c.rng.range(0, 3);
  Sys s = make(c.rng, n, c.rng.coin(0.65) ? 0 : c.rng.range(1, 2), 1e8, 1e-6, 1e6); std::string how; const MD in = stored(c.rng, s.A, how);
  MatX big(N, N); for (int i = 0; i < big.size(); ++i) big.data()[i] = c.rng.coin(0.1) ? NAN : 1e6 * c.rng.normal();
  big.block(off, off, n, n) = in; const MatX copy = big; s.desc += " block@" + std::to_string(off) + " " + how; c.label(s.desc);
  judge_inverse<double>(c, s, InvCov(big.block(off, off, n, n)), "block inverse");
  judge_solve<double>(c, s, SolveLDLT(big.block(off, off, n, n), s.b), "block solve");
  if (n == 3) judge_inverse<double>(c, s, InvCov(big.block<3, 3>(off, off)), "fixed block inverse");
  if (n == 1) judge_inverse<double>(c, s, InvCov(big.block<1, 1>(off, off)), "1x1 block inverse");
  c.check(std::memcmp(big.data(), copy.data(), sizeof(double) * big.size()) == 0, "input-modified", [&] { return s.desc; });
  c.event("blocks"); c.distinct(vh::cat("b", n, off, how, s.pd));
}
// NaN anywhere in the upper triangle must be refused
VH_SUITE(nan_entries, 3200, 12800) {
  const int n = c.rng.range(2, 7); Sys s = make(c.rng, n, 0, 1e4, 1e-3, 1e3); int i = c.rng.range(0, n - 1), j = c.rng.range(0, n - 1); if (i > j) std::swap(i, j);
  s.A(i, j) = s.A(j, i) = NAN; const MatX A = s.A; const VecX b = s.b; c.label(vh::cat("nan at ", i, ",", j, " n=", n));
  const auto x = SolveLDLT(A, b); c.check(!x || x->hasNaN(), "nan-system-solved", [&] { return vh::cat("(", i, ",", j, ") n=", n, " x=", vh::mat(x->transpose()), " b=", vh::mat(b.transpose())); });
  const auto I = InvCov(A); c.check(!I || I->hasNaN(), "nan-matrix-inverted", [&] { return vh::cat("(", i, ",", j, ") n=", n); });
  c.event("nan-inputs"); c.distinct(vh::cat("nan", n, i, j));
}
// Empty and scaled extremes
VH_SUITE(extremes, 300, 4800) {
  const double sc = std::pow(10.0, c.rng.range(-150, 150)); const int n = c.rng.range(1, 5);
  Sys s = make(c.rng, n, 0, 1e3, 1, 1); s.A *= sc; s.lmin *= sc; const MatX A = s.A; const VecX b = s.b; s.desc += vh::cat(" *", sc); c.label(s.desc);
  judge_solve<double>(c, s, SolveLDLT(A, b), "extreme scale solve"); judge_inverse<double>(c, s, InvCov(A), "extreme scale inverse");
  if (c.index == 0) {
    const MatX E(0, 0); c.check(!InvCov(E), "empty-matrix-inverted");
    const SparseMatrix<double> S(0, 0); c.check(!InvCov(S), "empty-matrix-inverted");
  }
  c.distinct(vh::cat("x", n, (int)std::log10(sc) / 20));
}
VH_SUITE(max_abs_diff, 8000, 32000) {
  const int r = c.rng.range(0, 8), k = c.rng.range(0, 8); MD A = MD::Zero(r, k), B = A;
  for (int i = 0; i < A.size(); ++i) { if (c.rng.coin(0.4)) A.data()[i] = c.rng.normal() * c.rng.logu(1e-6, 1e6); if (c.rng.coin(0.4)) B.data()[i] = c.rng.coin(0.5) ? A.data()[i] : c.rng.normal() * c.rng.logu(1e-6, 1e6); }
  if (c.rng.coin(0.2)) B = A; bool nan = false;
  if (A.size() && c.rng.coin(0.15)) { (c.rng.coin() ? A : B).data()[c.rng.range(0, A.size() - 1)] = NAN; nan = true; }
  auto sp = [&](const MD &M) { SparseMatrix<double> s(r, k); for (int j = 0; j < k; ++j) for (int i = 0; i < r; ++i) if (M(i, j) != 0 || c.rng.coin(0.1)) s.insert(i, j) = M(i, j); if (c.rng.coin(0.7)) s.makeCompressed(); return s; };
  const auto a = sp(A), b = sp(B); double got = 0, want = 0; if (!compat::max_abs_diff(a, b, got)) return c.event("differences"); for (int i = 0; i < A.size(); ++i) want = std::max(want, std::abs(A.data()[i] - B.data()[i]));
  c.label(vh::cat(vh::mat(A), " vs ", vh::mat(B)));
  if (nan) c.check(std::isnan(got), "difference-hides-nan", [&] { return vh::cat(got, " ", vh::mat(A), vh::mat(B)); });
  else c.check(got == want, "difference-wrong", [&] { return vh::cat(got, " expected ", want, " ", vh::mat(A), vh::mat(B)); });
  bool thrown = false; try { double d; compat::max_abs_diff(a, SparseMatrix<double>(r + 1, k), d); } catch (const std::invalid_argument &) { thrown = true; }
  c.check(thrown, "size-mismatch-accepted");
  c.event("differences"); c.distinct(vh::cat("d", r, k, want == 0, nan));
}
VH_SUITE(integer_sqrt, 8800, 35200) {
  // one block of 1000 consecutive integers from 0, plus random ones and the neighbourhoods of squares
  auto test = [&](int n) { int s = 0; if (!compat::isqrt(n, s)) return; bool ok = n <= 0 ? s == n : (long long)s * s <= n && (long long)(s + 1) * (s + 1) > n; c.check(ok, "integer-sqrt-wrong", [&] { return vh::cat("SQRT(", n, ")=", s); }); };
  if (c.index < 200) for (int n = 1000 * c.index; n < 1000 * (int)c.index + 1000; ++n) test(n);
  else { const int k = c.rng.range(1, 46340); for (int d = -1; d <= 1; ++d) test(k * k + d); test(c.rng.range(0, 2147483647 - 1)); test(-c.rng.range(0, 1000)); if (c.index == 200) test(2147483647); }
  c.event("integer-roots"); c.distinct(vh::cat("q", c.index / 50));
}
