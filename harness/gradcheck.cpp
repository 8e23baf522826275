// The gradient checker: right derivatives must be accepted, wrong ones rejected.
#include "ptypes.h"
#include "ref.h"
#include <tinyopt/diff/gradient_check.h>
using namespace tinyopt;
using namespace pt;
using vh::cat;
namespace {
// residuals r_i = sum_j A_ij x_j + w_i sin(x_{i mod n}) - b_i
struct Prob { int m, n; std::vector<double> A, w, b;
  template <typename T> std::vector<T> res(const std::vector<T> &x) const { std::vector<T> o(m); for (int i = 0; i < m; ++i) { T s = T(-b[i]) + T(w[i]) * std::sin(x[i % n]); for (int j = 0; j < n; ++j) s += T(A[i * n + j]) * x[j]; o[i] = s; } return o; }
  template <typename T> std::vector<T> jac(const std::vector<T> &x) const { std::vector<T> o(m * n); for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) o[i * n + j] = T(A[i * n + j]); o[i * n + i % n] += T(w[i]) * std::cos(x[i % n]); } return o; } };
Prob make(vh::Rng &r, int n, int m, double sc) { Prob p{m, n, {}, {}, {}}; p.A.resize(m * n); p.w.resize(m); p.b.resize(m); for (auto &v : p.A) v = r.coin(0.2) ? 0 : sc * r.normal(); for (auto &v : p.w) v = r.coin(0.4) ? 0 : 0.3 * sc * r.normal(); for (auto &v : p.b) v = r.normal(); return p; }
enum Bad { NONE, SMALL, GRAD, GRAD_NAN, GRAD_INF, HESS, HESS_NAN, GRAD_ZERO_ONE };
enum Kind { COST_G, COST_GH, COST_GS, RES_G, RES_GH, RES_GS };

template <typename X, int K, int MR> void one(vh::Case &c) {
  using S = typename traits::params_trait<X>::Scalar; constexpr bool fl = sizeof(S) == 4; constexpr Index D = traits::params_trait<X>::Dims;
  const int n = count<X>(c.rng), m = MR == Dynamic ? c.rng.range(1, 6) : MR;
  const Prob p = make(c.rng, n, m, c.rng.coin(0.8) ? 1 : 3);
  std::vector<double> x0(n); for (auto &v : x0) { v = c.rng.normal(); if (fl) v = (float)v; }
  const bool def_eps = c.rng.coin(0.5); const double eps = def_eps ? (fl ? 1e-2 : 1e-5) : fl ? c.rng.logu(1e-2, 5e-2) : c.rng.logu(2e-6, 1e-3);
  const auto method = (diff::Method)c.rng.range(0, 2);
  const bool down = K < RES_G || c.rng.coin(0.7), check_H = K < RES_G || c.rng.coin(0.8);
  constexpr bool hasH = K == RES_GH || K == RES_GS || K == COST_GH || K == COST_GS, resH = K == RES_GH || K == RES_GS;
  Bad bad = (Bad)c.rng.pick(std::vector<int>{NONE, NONE, NONE, SMALL, GRAD, GRAD, GRAD, GRAD_NAN, GRAD_INF, HESS, HESS, HESS_NAN, GRAD_ZERO_ONE});
  if (!resH && (bad == HESS || bad == HESS_NAN)) bad = GRAD;
  const double amount = c.rng.sgn() * (c.rng.coin(0.6) ? c.rng.logu(4 * eps, 40 * eps) : c.rng.logu(1, 100));
  const int bi = c.rng.range(0, n - 1), bj = c.rng.range(0, n - 1); const double special = c.rng.sgn() * INFINITY;
  // exact quantities
  using L = long double; std::vector<L> xl(x0.begin(), x0.end()); const auto rl = p.res(xl); const auto Jl = p.jac(xl);
  const L gs = down ? 1 : 2; std::vector<L> g(n, 0); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) g[j] += gs * Jl[i * n + j] * rl[i];
  // how far the numerical derivative may be from the exact one
  const L h = eps / 10; L worst = 0, big = 1;
  auto costL = [&](const std::vector<L> &y) { L s = 0; for (auto v : p.res(y)) s += v * v; return s * gs / 2; };
  for (L v : rl) big += v * v; for (L v : Jl) big += std::abs(v);
  std::vector<std::vector<L>> Jn(m, std::vector<L>(n));
  for (int j = 0; j < n; ++j) { auto y = xl; y[j] += h; auto z = xl; z[j] -= h;
    const L fd = method == diff::kForward ? (costL(y) - costL(xl)) / h : (costL(y) - costL(z)) / (2 * h); worst = std::max(worst, std::abs(fd - g[j]));
    const auto ry = p.res(y), rz = p.res(z); for (int i = 0; i < m; ++i) Jn[i][j] = method == diff::kForward ? (ry[i] - rl[i]) / h : (ry[i] - rz[i]) / (2 * h); }
  L worstH = 0; for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { L a = 0, b = 0; for (int i = 0; i < m; ++i) { a += Jn[i][j] * Jn[i][k]; b += Jl[i * n + j] * Jl[i * n + k]; } worstH = std::max(worstH, std::abs(a - b)); }
  const L round = (fl ? 1e-6L : 2e-15L) * big * (4 + m) / h, roundH = round * (1 + 2 * big);
  const bool clear = worst + round < 0.5L * eps && (!resH || !check_H || worstH + roundH < 0.5L * eps);
  X x = acc<X>::make(x0);
  const bool H_full_of_garbage_allowed = false; (void)H_full_of_garbage_allowed;
  auto setG = [&](auto &grad, const std::vector<S> &r, const std::vector<S> &J) {
    for (int j = 0; j < n; ++j) { S s = 0; for (int i = 0; i < m; ++i) s += J[i * n + j] * r[i]; grad[j] = S(gs) * s; }
    if (bad == GRAD) grad[bi] += S(amount); if (bad == GRAD_NAN) grad[bi] = NAN; if (bad == GRAD_INF) grad[bi] = S(special); if (bad == GRAD_ZERO_ONE) grad[bi] = 0;
    if (bad == SMALL) grad[bi] += S((amount < 0 ? -1 : 1) * 0.25 * eps);
  };
  auto setH = [&](auto &H, const std::vector<S> &J) {
    Eigen::Matrix<S, Dynamic, Dynamic> h_(n, n); for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { S s = 0; for (int i = 0; i < m; ++i) s += J[i * n + j] * J[i * n + k]; h_(j, k) = s; }
    if (bad == HESS) h_(bi, bj) += S(amount); if (bad == HESS_NAN) h_(bi, bj) = NAN;
    if constexpr (requires { H.makeCompressed(); }) H = h_.sparseView(); else H = h_;
  };
  auto cur = [&](const X &y) { std::vector<S> o; for (auto &e : elems(y)) o.push_back(e); return o; };
  auto outR = [&](const std::vector<S> &r) { if constexpr (MR == 1) return r[0]; else { Vector<S, MR> o(m); for (int i = 0; i < m; ++i) o[i] = r[i]; return o; } };
  auto outC = [&](const std::vector<S> &r) { S s = 0; for (S v : r) s += v * v; return s * S(gs / 2); };
  const bool verbose = false; bool got = false;
  auto call = [&](const auto &f) {
    if constexpr (K >= RES_G) { if (def_eps && method == diff::kCentral && check_H && down && clear && bad == NONE) got = diff::CheckResidualsGradient(x, f); else got = diff::CheckResidualsGradient(x, f, eps, method, verbose, check_H, down); }
    else { if (def_eps && method == diff::kCentral && clear && bad == NONE) got = diff::CheckGradient(x, f); else got = diff::CheckGradient(x, f, eps, method, verbose); } };
#define NG !traits::is_nullptr_v<decltype(grad)>
#define NH !traits::is_nullptr_v<decltype(H)>
  if constexpr (K == COST_G) call([&](const X &y, auto &grad) { const auto v = cur(y); const auto r = p.res(v); if constexpr (NG) setG(grad, r, p.jac(v)); return outC(r); });
  if constexpr (K == RES_G) call([&](const X &y, auto &grad) { const auto v = cur(y); const auto r = p.res(v); if constexpr (NG) setG(grad, r, p.jac(v)); return outR(r); });
  if constexpr (K == COST_GH) call([&](const auto &y, auto &grad, auto &H) { const auto v = cur(y); const auto r = p.res(v); if constexpr (NG) { setG(grad, r, p.jac(v)); if constexpr (NH) setH(H, p.jac(v)); } return outC(r); });
  if constexpr (K == RES_GH) call([&](const auto &y, auto &grad, auto &H) { const auto v = cur(y); const auto r = p.res(v); if constexpr (NG) { setG(grad, r, p.jac(v)); if constexpr (NH) setH(H, p.jac(v)); } return outR(r); });
  if constexpr (K == COST_GS) call([&](const auto &y, auto &grad, SparseMatrix<S> &H) { const auto v = cur(y); const auto r = p.res(v); if constexpr (NG) { setG(grad, r, p.jac(v)); setH(H, p.jac(v)); } return outC(r); });
  if constexpr (K == RES_GS) call([&](const auto &y, auto &grad, SparseMatrix<S> &H) { const auto v = cur(y); const auto r = p.res(v); if constexpr (NG) { setG(grad, r, p.jac(v)); setH(H, p.jac(v)); } return outR(r); });
  auto det = [&] { return cat(nm<X>(), " kind ", K, " m=", m, " n=", n, " eps=", eps, " method=", (int)method, " down=", down, " check_H=", check_H, " bad=", bad, " amount=", amount, " at ", bi, ",", bj, " numerical error ", (double)worst, " ", (double)worstH); };
  c.label(det());
  // a zeroed component is only wrong if the exact one is not small
  const bool hbad = bad == HESS || bad == HESS_NAN; bool wrong = false, known = true;
  if (bad == GRAD_ZERO_ONE) { const double gv = std::abs((double)g[bi]); if (gv > 3 * eps) wrong = true; else known = false; }
  else if (hbad) { wrong = check_H; } else if (bad != NONE && bad != SMALL) wrong = true;
  c.check(dbl(x) == x0, "parameters-modified", det);
  if (!wrong) { if (!known || !clear) throw vh::Inconclusive("numerical estimate too coarse"); if (bad == SMALL && worst + round > 0.2L * eps) throw vh::Inconclusive("numerical estimate too coarse"); c.check(got, "right-derivative-rejected", det); c.event("accepted-expected"); }
  else {
    if (bad != GRAD_NAN && bad != GRAD_INF && bad != HESS_NAN) { const bool ok = hbad ? worstH + roundH < 2 * (L)eps : worst + round < 1.5L * eps; if (!ok) throw vh::Inconclusive("numerical estimate too coarse"); }
    c.check(!got, "wrong-derivative-accepted", det); c.event("rejected-expected"); if (hbad) c.event("wrong-hessians"); if (bad == GRAD_NAN || bad == HESS_NAN || bad == GRAD_INF) c.event("nonfinite-derivatives");
  }
  c.event(hasH ? "with-hessian" : "without-hessian");
  c.distinct(cat(nm<X>(), K, m, "/", n, (int)method, bad));
}
using V_ = std::vector<double>; using A3 = std::array<double, 3>;
#define KINDS(X, M) switch (c.rng.range(0, 5)) { case 0: one<X, COST_G, M>(c); break; case 1: one<X, COST_GH, M>(c); break; case 2: one<X, RES_G, M>(c); break; case 3: one<X, RES_GH, M>(c); break; case 4: one<X, COST_GS, M>(c); break; default: one<X, RES_GS, M>(c); }
}  // namespace
VH_SUITE(gradient_check, 24000, 120000) {
  switch (c.rng.range(0, 7)) { case 0: KINDS(Vec2, 2) break; case 1: KINDS(Vec3, Dynamic) break; case 2: KINDS(VecX, Dynamic) break; case 3: KINDS(VecX, 3) break; case 4: KINDS(Vec3f, 2) break; case 5: KINDS(VecXf, Dynamic) break; case 6: KINDS(double, 2) break; default: KINDS(A3, Dynamic) }
}
