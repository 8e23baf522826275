// Differentiation helpers (automatic and numerical) on every parameter type and residual shape.
#include "ptypes.h"
#include "compat.h"
#include <tinyopt/diff/auto_diff.h>
#include <tinyopt/diff/num_diff.h>
#ifndef VH_PROP
#define VH_PROP 0
#endif
using namespace tinyopt;
using namespace pt;
using vh::cat;
using rf::ld;
namespace {
template <typename M> double at(const M &m, int i, int j) { return (double)m(i, j); }

// ---------------------------------------------------------------- automatic
template <typename X, int SH> void ad(vh::Case &c) {
  using S = typename traits::params_trait<X>::Scalar;
  const int n = count<X>(c.rng); std::vector<double> x(n); for (auto &v : x) { v = 1.5 * c.rng.normal(); if (sizeof(S) == 4) v = (float)v; }
  tp::Tape t = tp::make(c.rng, x, c.rng.range(1, 10), false); if (sizeof(S) == 4) for (auto &q : t.ins) q.c = (float)q.c;
  const auto R = tp::reference<S>(t, x, c.rng);
  const auto f = make_res<SH>(c.rng, t, c.rng.coin(0.3));
  const X p = acc<X>::make(x); const X p0 = p;
  c.label(cat(nm<X>(), " shape ", SH, " ", tp::show(t)));
  auto det = [&] { return cat(nm<X>(), " shape ", SH, " ", f.rows, "x", f.cols, " dead=", f.dead, " ", tp::show(t)); };
  auto want_a = [&](int i) { return i == f.dead ? f.dead_value : (double)R.r[f.regs[i]].a; };
  auto want_v = [&](int i, int k) { return i == f.dead ? 0. : (double)R.r[f.regs[i]].v[k]; };
  auto tol_a = [&](int i) { return i == f.dead ? 1e-6 : R.da[f.regs[i]]; };
  auto tol_v = [&](int i, int k) { return i == f.dead ? 0. : R.dv[f.regs[i]][k]; };
  const auto &[res, J] = diff::Eval(p, f);
  if constexpr (SH == SCALAR) c.check(std::abs((double)res - want_a(0)) <= tol_a(0), "residual", [&] { return cat(det(), " res=", res, " want ", want_a(0)); });
  else { if (!c.check((int)res.size() == f.n(), "residual-count", det)) return;
    for (int i = 0; i < f.n(); ++i) c.check(std::abs((double)res[i] - want_a(i)) <= tol_a(i), "residual", [&] { return cat(det(), " i=", i, " res=", res[i], " want ", want_a(i)); }); }
  auto judge = [&](const auto &Jm, const char *key) {
    if (!c.check(Jm.rows() == f.n() && Jm.cols() == n, "jacobian-size", [&] { return cat(key, " ", Jm.rows(), "x", Jm.cols(), " ", det()); })) return;
    for (int i = 0; i < f.n(); ++i) for (int k = 0; k < n; ++k)
      if (!c.check(std::abs(at(Jm, i, k) - want_v(i, k)) <= tol_v(i, k), key, [&] { return cat(det(), " J(", i, ",", k, ")=", at(Jm, i, k), " want ", want_v(i, k)); })) return;
    c.event("jacobians");
  };
  judge(J, "jacobian");
  judge(diff::CalculateJac(p, f), "calculate-jac");
  c.check(dbl(p) == dbl(p0), "parameters-modified", det);
  c.distinct(cat(nm<X>(), SH, "/", n, f.dead >= 0));
}
// ---------------------------------------------------------------- numerical
std::vector<std::vector<double>> *g_pts = nullptr;
template <typename F> struct Spy { F f; template <typename X> auto operator()(const X &x) const { if (g_pts) g_pts->push_back(dbl(x)); return f(x); } };
template <typename X, int SH> void nd(vh::Case &c) {
  using S = typename traits::params_trait<X>::Scalar; constexpr bool fl = sizeof(S) == 4;
  const int n = count<X>(c.rng); std::vector<double> x(n); for (auto &v : x) { v = 1.5 * c.rng.normal(); if (fl) v = (float)v; }
  tp::Tape t = tp::make(c.rng, x, c.rng.range(1, 8), false); if (fl) for (auto &q : t.ins) q.c = (float)q.c;
  const auto R = tp::reference<S>(t, x, c.rng);
  Spy<Res<SH>> f{make_res<SH>(c.rng, t, c.rng.coin(0.3))}; const auto &rf_ = f.f;
  const auto method = (diff::Method)c.rng.range(0, 2);
  const bool def = c.rng.coin(0.3); const S h = def ? FloatEpsilon<S>() : S(fl ? c.rng.logu(1e-3, 1e-2) : c.rng.logu(1e-7, 1e-3));
  const X p = acc<X>::make(x);
  // exact finite differences in long double, for the truncation error of the chosen method
  using L = long double; const int m = rf_.n(); std::vector<L> X0(x.begin(), x.end());
  auto evalL = [&](std::vector<L> y) { std::vector<tp::Du<L>> in; for (auto v : y) { tp::Du<L> d; d.a = v; in.push_back(d); } auto r = tp::run<tp::Du<L>, L>(t, in); std::vector<L> o; for (int i = 0; i < m; ++i) o.push_back(i == rf_.dead ? (L)rf_.dead_value : r[rf_.regs[i]].a); return o; };
  const auto f0 = evalL(X0); std::vector<std::vector<double>> D(m, std::vector<double>(n)), T(m, std::vector<double>(n));
  for (int k = 0; k < n; ++k) {
    auto y = X0; y[k] += h; const auto fp = evalL(y); y[k] = X0[k] - h; const auto fm = evalL(y);
    for (int i = 0; i < m; ++i) {
      const double J = i == rf_.dead ? 0 : (double)R.r[rf_.regs[i]].v[k];
      const double fd = method == diff::kForward ? (double)((fp[i] - f0[i]) / h) : (double)((fp[i] - fm[i]) / (2 * (L)h));
      const double other = (double)((f0[i] - fm[i]) / h);
      if (!(std::abs(fd - J) <= 0.3 * (1 + std::abs(J))) || !(std::abs(other - J) < 0.5 * (1 + std::abs(J)))) throw vh::Inconclusive("step leaves the smooth neighbourhood");
      // rounding: function values and the increment itself
      const double ev = (i == rf_.dead ? 1e-30 : R.da[rf_.regs[i]]) * (fl ? 0.3 : 1e-2) + (fl ? 1e-6 : 1e-14) * (double)std::abs(f0[i]);
      const double ex = (fl ? 4e-7 : 1e-15) * (std::abs(x[k]) + (double)h) * (std::abs(J) + 1e-3);
      D[i][k] = J; T[i][k] = 2 * std::abs(fd - J) + 4 * (ev + ex) / (double)h + (fl ? 1e-5 : 1e-12) * std::abs(J);
    }
  }
  c.label(cat(nm<X>(), " shape ", SH, " method ", (int)method, " h ", h, " ", tp::show(t)));
  auto det = [&] { return cat(nm<X>(), " shape ", SH, " ", rf_.rows, "x", rf_.cols, " method=", (int)method, " h=", h, " x0=", x[0], " ", tp::show(t)); };
  auto judge = [&](const auto &J, const char *key) {
    if (!c.check(J.rows() == m && J.cols() == n, "num-jacobian-size", [&] { return cat(key, " ", J.rows(), "x", J.cols(), " ", det()); })) return;
    for (int i = 0; i < m; ++i) for (int k = 0; k < n; ++k)
      if (!c.check(std::abs(at(J, i, k) - D[i][k]) <= T[i][k], key, [&] { return cat(det(), " J(", i, ",", k, ")=", at(J, i, k), " want ", D[i][k], " +- ", T[i][k]); })) return;
    c.event("num-jacobians"); c.event(method == diff::kForward ? "forward" : method == diff::kCentral ? "central" : "fast-central");
  };
  std::vector<std::vector<double>> pts; g_pts = &pts;
  {
    const auto &[res, J] = def ? diff::NumEval(p, f, method) : diff::NumEval(p, f, method, h);
    g_pts = nullptr;
    if constexpr (SH == SCALAR) c.check(rf::near(res, f0[0], fl ? 1e-3L : 1e-9L, fl ? 1e-3L : 1e-9L), "num-residual", det);
    else { c.check((int)res.size() == m, "num-residual-count", det); for (int i = 0; i < m && i < (int)res.size(); ++i) c.check(std::abs((double)res.reshaped()[i] - (double)f0[i]) <= (i == rf_.dead ? 1e-6 : R.da[rf_.regs[i]]) + (fl ? 1e-4 : 1e-10), "num-residual", det); }
    judge(J, "num-jacobian");
  }
  for (auto &q : pts) {
    int moved = 0; bool ok = (int)q.size() == n;
    for (int k = 0; ok && k < n; ++k) if (q[k] != x[k]) {
      ++moved; const double d = std::abs(q[k] - x[k]), ulp = (fl ? 4e-7 : 1e-15) * (std::abs(x[k]) + std::abs(q[k]) + (double)h);
      if (!(std::abs(d - (double)h) <= ulp || std::abs(d - 2 * (double)h) <= ulp || d <= ulp)) ok = false;
    }
    c.check(ok && moved <= 1, "evaluated-elsewhere", [&] { std::string s; for (double v : q) s += cat(v, " "); return cat(det(), " at ", s); });
  }
  c.event("num-evaluations", pts.size());
  judge(def ? diff::EstimateNumJac(p, f, method) : diff::EstimateNumJac(p, f, method, h), "estimate-num-jac");
  c.check(dbl(p) == dbl(acc<X>::make(x)), "num-parameters-modified", det);
  // generated accumulation functions
  X px = p; constexpr Index Dm = traits::params_trait<X>::Dims;
  const auto a1 = diff::CreateNumDiffFunc1(px, f, method, h); const auto a2 = diff::CreateNumDiffFunc2(px, f, method, h);
  Vector<S, Dm> g1 = Vector<S, Dm>::Constant(n, S(7)), g2 = Vector<S, Dm>::Constant(n, S(7)); Eigen::Matrix<S, Dm, Dm> H; H.resize(n, n); H.setConstant(S(9));
  const auto c1 = a1(p, g1); const auto c2 = a2(p, g2, H); std::nullptr_t nul = nullptr; const auto c3 = a1(p, nul); const auto c4 = a2(p, nul, nul);
  L nrm = 0; for (auto v : f0) nrm += v * v; nrm = std::sqrt(nrm);
  double dsum = 0; for (int i = 0; i < m; ++i) dsum = std::max(dsum, i == rf_.dead ? 0. : R.da[rf_.regs[i]]);
  auto cost_ok = [&](const auto &cc) { if constexpr (SH == SCALAR) return std::abs((double)cc - (double)nrm) <= (fl ? 1e-4 : 1e-10) * (1 + (double)nrm) + dsum;
    else return std::abs((double)cc.cost - (double)nrm) <= (fl ? 1e-4 : 1e-10) * (1 + (double)nrm) + dsum * m && compat::count(cc) == m; };
  c.check(cost_ok(c1) && cost_ok(c2) && cost_ok(c3) && cost_ok(c4), "generated-cost", [&] { return cat(det(), " norm ", (double)nrm); });
  for (int k = 0; k < n; ++k) {
    double g = 0, gt = 0; for (int i = 0; i < m; ++i) { g += D[i][k] * (double)f0[i]; gt += T[i][k] * (std::abs((double)f0[i]) + 1e-3) + std::abs(D[i][k]) * dsum + (fl ? 1e-5 : 1e-11) * std::abs(D[i][k] * (double)f0[i]); }
    c.check(std::abs((double)g1[k] - g) <= gt + 1e-12 && std::abs((double)g2[k] - g) <= gt + 1e-12, "generated-gradient", [&] { return cat(det(), " k=", k, " g1=", g1[k], " g2=", g2[k], " want ", g, " +- ", gt); });
    for (int l = 0; l < n; ++l) {
      double hh = 0, ht = 0; for (int i = 0; i < m; ++i) { hh += D[i][k] * D[i][l]; ht += T[i][k] * std::abs(D[i][l]) + T[i][l] * std::abs(D[i][k]) + T[i][k] * T[i][l] + (fl ? 1e-5 : 1e-11) * std::abs(D[i][k] * D[i][l]); }
      c.check(std::abs((double)H(k, l) - hh) <= ht + 1e-12, "generated-hessian", [&] { return cat(det(), " (", k, ",", l, ")=", H(k, l), " want ", hh, " +- ", ht); });
    }
  }
  c.event("generated-functions", 2);
  c.distinct(cat(nm<X>(), SH, (int)method, def, "/", n));
}
using P22 = std::pair<Vec2, Vec3>; using P2X = std::pair<Vec2, VecX>; using M23 = Eigen::Matrix<double, 2, 3>; using R3 = Eigen::Matrix<double, 1, 3>;
using PD2 = std::pair<double, Vec2>; using P2D = std::pair<Vec2, double>; using VV2 = std::vector<Vec2>; using AV2 = std::array<Vec2, 2>; using VVd = std::vector<std::vector<double>>; using VP = std::vector<std::pair<double, Vec2>>; using AX2 = std::array<VecX, 2>; using AM = std::array<Eigen::Matrix<double, 2, 3>, 1>; using V1 = std::vector<Vec1>;
using A3 = std::array<double, 3>; using V_ = std::vector<double>; using A2f = std::array<float, 2>;
#define SHAPES(FN, X) switch (c.rng.range(0, 4)) { case 0: FN<X, SCALAR>(c); break; case 1: FN<X, VEC2>(c); break; case 2: FN<X, VECX>(c); break; case 3: FN<X, MAT22>(c); break; default: FN<X, MATX>(c); }
#define SH2(FN, X) if (c.rng.coin(0.4)) FN<X, SCALAR>(c); else FN<X, VECX>(c);
}  // namespace
#if VH_PROP == 0 || VH_PROP == 15
VH_SUITE(auto_eval, 12000, 60000) {
  SHAPES(ad, Vec3) SHAPES(ad, VecX) SHAPES(ad, M23) SH2(ad, MatX) SH2(ad, double) SH2(ad, float) SH2(ad, VecXf) SH2(ad, A3) SH2(ad, V_) SH2(ad, P22) SH2(ad, P2X) SH2(ad, Rect<double>) SH2(ad, Poly<double>) SH2(ad, R3)
}
VH_SUITE(auto_nested, 4000, 40000) {
  SH2(ad, PD2) SH2(ad, P2D) SH2(ad, VV2) SH2(ad, AV2) SH2(ad, VVd) SH2(ad, VP) SH2(ad, AX2) SH2(ad, AM) SH2(ad, V1)
}
#endif
#if VH_PROP == 0 || VH_PROP == 16
VH_SUITE(num_eval, 12000, 60000) {
  switch (c.rng.range(0, 12)) {
    case 0: SHAPES(nd, Vec3) break; case 1: SHAPES(nd, VecX) break; case 2: SHAPES(nd, M23) break; case 3: SH2(nd, MatX) break; case 4: SH2(nd, double) break; case 5: SH2(nd, float) break;
    case 6: SH2(nd, VecXf) break; case 7: SH2(nd, A3) break; case 8: SH2(nd, V_) break; case 9: SH2(nd, P22) break; case 10: SH2(nd, P2X) break; case 11: SH2(nd, Rect<double>) break; default: SH2(nd, Poly<double>)
  }
}
VH_SUITE(num_nested, 4000, 40000) {
  switch (c.rng.range(0, 6)) { case 0: SH2(nd, PD2) break; case 1: SH2(nd, P2D) break; case 2: SH2(nd, VV2) break; case 3: SH2(nd, AV2) break; case 4: SH2(nd, VVd) break; case 5: SH2(nd, VP) break; default: SH2(nd, V1) }
}
#endif
