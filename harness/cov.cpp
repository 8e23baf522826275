// Covariances and standard deviations reported after a run, from the result and from the solver.
#include "ref.h"
#include "compat.h"
#include <tinyopt/tinyopt.h>
using namespace tinyopt;
using namespace rf;
using vh::cat;
namespace {
template <typename M> MatX dense(const M &m) { return MatX(m.template cast<double>()); }
MatX dense(const SparseMatrix<double> &m) { return MatX(m); }
MatX dense(const SparseMatrix<float> &m) { return MatXf(m).cast<double>(); }
// symmetric matrix from a (possibly upper only) one
MatX sym(const MatX &m) { MatX o = m; for (int c = 0; c < m.cols(); ++c) for (int r = c + 1; r < m.rows(); ++r) o(r, c) = m(c, r); return o; }

template <template <typename> class SOLVER, typename HT> void one(vh::Case &c, int n, bool lm) {
  using S = typename HT::Scalar; constexpr bool fl = sizeof(S) == 4; constexpr bool sparse = traits::is_sparse_matrix_v<HT>;
  using Opt = Optimizer_<SOLVER<HT>>; constexpr Index D = Opt::Dims;
  Options o; o.log.enable = false; o.max_iters = c.rng.range(0, 4); o.hessian.save_last = c.rng.coin(0.95); o.hessian.H_is_full = c.rng.coin(0.6);
  if (!sparse) o.hessian.use_ldlt = c.rng.coin(0.7); if (lm) { o.lm.damping_init = c.rng.coin(0.15) ? 0.f : (float)c.rng.logu(1e-4, 10); o.lm.bad_factor = (float)c.rng.uni(1.5, 4); }
  o.max_consec_failures = c.rng.range(0, 1) ? 5 : 2; o.check_final_cost = c.rng.coin(0.3); if (c.rng.coin(0.3)) o.min_step_norm2 = o.min_grad_norm2 = 0;
  const bool upper = !o.hessian.H_is_full || c.rng.coin(0.2 * o.hessian.use_ldlt);
  if (upper && !o.hessian.use_ldlt) o.hessian.H_is_full = false;
  // per evaluation Hessians with a prescribed spectrum, costs that go up or down
  const bool indef = c.rng.coin(0.15); const int m = c.rng.range(1, 3 * n + 3); const double cond = c.rng.logu(1, 50);
  vh::Rng r = c.rng; int k = 0; MatX lastH; double best = INFINITY; int calls = 0;
  auto spd = [&](bool bad) { MatX A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.normal(); Eigen::HouseholderQR<MatX> qr(A); MatX Q = qr.householderQ(); VecX e(n); for (int i = 0; i < n; ++i) e[i] = n == 1 ? 1.5 : r.logu(1, cond); if (bad) e[r.range(0, n - 1)] *= -r.uni(0.5, 1.5); MatX H = Q * e.asDiagonal() * Q.transpose(); H = (H + H.transpose()).eval() * 0.5; if (fl) H = H.cast<float>().cast<double>(); return H; };
  const int up = c.rng.range(0, 7);   // which evaluations fail to decrease the cost
  double cost = c.rng.logu(0.1, 100);
  auto acc = [&](const auto &, auto &g, auto &H) {
    if (++calls > 3000) throw vh::Inconclusive("too many calls");
    ++k; cost *= (up >> (k % 3)) & 1 ? 1.5 : 0.5;
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      const MatX h = spd(indef && (k > 1 || n == 1 || r.coin())); lastH = h; for (int i = 0; i < n; ++i) g[i] += S(r.normal());
      if constexpr (sparse) { std::vector<Eigen::Triplet<S>> t; for (int a = 0; a < n; ++a) for (int b = upper ? a : 0; b < n; ++b) t.emplace_back(a, b, (S)h(a, b)); H.setFromTriplets(t.begin(), t.end()); }
      else for (int a = 0; a < n; ++a) for (int b = upper ? a : 0; b < n; ++b) H(a, b) += (S)h(a, b);
    }
    return Cost(cost, m);
  };
  Opt opt(o); Vector<S, D> x; if constexpr (D == Dynamic) x.resize(n); x.setZero();
  const Output out = opt(x, acc);
  auto det = [&] { return cat(typeid(HT).name(), lm ? " LM" : " GN", " n=", n, " m=", m, " upper=", upper, " full=", o.hessian.H_is_full, " ldlt=", o.hessian.use_ldlt, " stop=", (int)out.stop_reason, " iters=", out.num_iters, " H=", vh::mat(lastH)); };
  c.label(det());
  if (lastH.size() == 0) throw vh::Inconclusive("no derivatives requested");
  if (!o.hessian.save_last) { c.check(!out.has_final_hessian(), "saved-though-disabled", det); c.check(!out.template Covariance<std::conditional_t<sparse, SparseMat, MatX>>(), "covariance-though-disabled", det); c.event("not-saved"); }
  Eigen::SelfAdjointEigenSolver<MatX> es(lastH); const double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().cwiseAbs().maxCoeff();
  if (std::abs(lo) < 1e-3 * hi) throw vh::Inconclusive("nearly singular");
  const LD e = fl ? 1e-5L : 1e-12L; const LD tol = e * 64 * n * (hi / lo) * (hi / lo);
  auto inverse_of = [&](const MatX &C, const MatX &H, LD f, const char *key) {
    if (!c.check(C.rows() == n && C.cols() == n, "covariance-size", det)) return;
    LMat R = ld(H) * ld(C); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!c.check(std::abs(R(i, j) - (i == j ? f : 0)) <= tol * std::max<LD>(1, std::abs(f)), key, [&] { return cat(det(), " C=", vh::mat(C), " factor ", (double)f); })) return;
    c.event("covariances"); };
  using CM = std::conditional_t<sparse, SparseMat, MatX>;
  if (o.hessian.save_last) {
    // the saved Hessian is the last accumulated one
    if (!c.check(out.has_final_hessian(), "not-saved", det)) return;
    MatX Hf; if constexpr (sparse) Hf = MatX(out.final_hessian_sparse()); else Hf = out.final_hessian_dense();
    c.check(Hf.rows() == n && Hf.cols() == n && (sym(Hf) - lastH).cwiseAbs().maxCoeff() <= (fl ? 2e-5 : 1e-12) * hi, "hessian-differs", [&] { return cat(det(), " saved ", vh::mat(Hf)); });
    if (!upper) c.check((Hf - lastH).cwiseAbs().maxCoeff() <= (fl ? 2e-5 : 1e-12) * hi, "hessian-lower-differs", det);
    c.event("hessians");
    const auto C = out.template Covariance<CM>(), Cr = out.template Covariance<CM>(true);
    if (lo > 0) {
      if (c.check(C && Cr, "covariance-missing", det)) {
        inverse_of(dense(*C), lastH, 1, "covariance");
        const int red = out.num_residuals - n; const LD f = red > 0 ? (LD)out.final_cost.cost / red : 1; inverse_of(dense(*Cr), lastH, f, red > 0 ? "covariance-rescaled" : "covariance-not-to-rescale"); if (red > 0) c.event("rescaled"); else c.event("no-redundancy");
      }
    } else { c.check(!C && !Cr, "covariance-of-indefinite", det); c.event("refused"); }
  }
  // the solver's own view
  const auto &sv = opt.solver(); const auto Cs = sv.Covariance(); double sd = 0; const bool has_sd = compat::max_stddev(sv, false, sd);
  if (lo > 0) {
    if (c.check(!!Cs, "solver-covariance-missing", det)) {
      const MatX C = dense(*Cs); inverse_of(C, lastH, 1, "solver-covariance"); LMat Li = ld(lastH).inverse(); const LD want = std::sqrt(Li.maxCoeff());
      if (has_sd) c.check(std::abs(sd - want) <= tol * want + e, "max-stddev", [&] { return cat(det(), " returned ", sd, " expected ", (double)want); }); c.event("stddevs");
    }
  } else { c.check(!Cs, "solver-covariance-of-indefinite", det); c.check(sd == 0 || !has_sd, "stddev-of-indefinite", det); }
  // damped view: the matrix it holds now
  { const MatX Hd = sym(dense(sv.H())); Eigen::SelfAdjointEigenSolver<MatX> ed(Hd); const double l2 = ed.eigenvalues().minCoeff(), h2 = ed.eigenvalues().cwiseAbs().maxCoeff();
    for (int i = 0; i < n; ++i) c.check(std::abs(Hd(i, i)) >= std::abs(lastH(i, i)) * (1 - (fl ? 1e-4 : 1e-9)), "damped-diagonal-smaller", det);
    if (l2 > 1e-3 * h2) { const LD want = std::sqrt(ld(Hd).inverse().maxCoeff()); double got = 0; if (compat::max_stddev(sv, true, got)) c.check(std::abs(got - want) <= e * 64 * n * (h2 / l2) * (h2 / l2) * want + e, "max-stddev-damped", [&] { return cat(det(), " returned ", got, " expected ", (double)want); }); c.event("damped-stddevs"); } }
  c.distinct(cat(typeid(HT).name(), lm, n, upper, o.hessian.use_ldlt, (int)out.stop_reason, out.num_iters));
}
template <typename HT> void both(vh::Case &c, int n) { if (c.rng.coin()) one<solvers::SolverLM, HT>(c, n, true); else one<solvers::SolverGN, HT>(c, n, false); }
}  // namespace
VH_SUITE(covariance, 12000, 120000) {
  switch (c.rng.range(0, 6)) { case 0: both<Mat1>(c, 1); break; case 1: both<Mat2>(c, 2); break; case 2: both<Mat4>(c, 4); break; case 3: both<MatX>(c, c.rng.coin(0.8) ? c.rng.range(1, 7) : c.rng.range(8, 25)); break; case 4: both<Mat3f>(c, 3); break; case 5: both<SparseMatrix<float>>(c, c.rng.range(1, 5)); break; default: both<SparseMat>(c, c.rng.coin(0.8) ? c.rng.range(1, 7) : c.rng.range(8, 25)); }
}
VH_SUITE(no_hessian, 50, 100) {
  Output o; c.check(!o.has_final_hessian() && !o.Covariance() && !o.Covariance(true) && !o.Covariance<SparseMat>(), "default-output", [] { return ""; });
  // given directly: a result filled by hand
  const int n = c.rng.range(1, 6); MatX A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = c.rng.normal(); const MatX H = A * A.transpose() + MatX::Identity(n, n); o.final_hessian = H; o.num_residuals = c.rng.range(0, 2 * n); o.final_cost = Cost(c.rng.logu(1e-3, 1e3), o.num_residuals);
  const auto C = o.Covariance(), R = o.Covariance(true); if (c.check(C && R, "hand-filled", [] { return ""; })) { const double f = o.num_residuals > n ? o.final_cost.cost / (o.num_residuals - n) : 1; c.check((H * *C - MatX::Identity(n, n)).norm() < 1e-9 && (*R - f * *C).norm() <= 1e-12 * (1 + f) * C->norm(), "hand-filled-values", [&] { return cat(n, " ", o.num_residuals); }); }
  c.event("hand-filled"); c.distinct(cat(n, o.num_residuals));
}
