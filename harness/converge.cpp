// Well-posed problems with a known minimiser, solved in every supported combination (compile with -DVH_PART=k).
#ifndef VH_PART
#define VH_PART 0
#endif
#if VH_PART == 6
#define TINYOPT_DISABLE_AUTODIFF   // documented switch: numerical derivatives for every function
#endif
#include "prob.h"
using namespace pb;
using vh::cat;
namespace {
template <typename HT> using GNo = Optimizer_<solvers::SolverGN<HT>>; template <typename HT> using LMo = Optimizer_<solvers::SolverLM<HT>>;
// minimiser of the problem close to x0, found independently in long double (damped Newton on the exact normal equations)
using LD = long double; using LV = Eigen::Matrix<LD, Eigen::Dynamic, 1>; using LM_ = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
bool minimiser(const Prob &p, VecD &x) {
  LV y = x.cast<LD>();
  auto cost = [&](const LV &z) { const VecD r = p.r(z.cast<double>()); return (double)r.squaredNorm(); };
  double c = cost(y), lam = 1e-6;
  for (int it = 0; it < 500; ++it) {
    const VecD xd = y.cast<double>(); const MatD J = p.J(xd); const VecD g = J.transpose() * p.r(xd); if (g.norm() < 1e-13 * (1 + J.norm())) break;
    MatD H = J.transpose() * J; H.diagonal() *= 1 + lam; const VecD d = H.ldlt().solve(-g); const LV z = y + d.cast<LD>(); const double cz = cost(z);
    if (cz <= c) { y = z; c = cz; lam = std::max(lam / 10, 1e-12); if (d.norm() < 1e-15) break; } else { lam *= 10; if (lam > 1e12) break; }
  }
  const VecD xd = y.cast<double>(); const VecD g = p.J(xd).transpose() * p.r(xd); x = xd; return g.norm() < 1e-9 * (1 + p.J(xd).norm());
}
struct Setup { Prob p; VecD x0, best; double cost; bool lin, noise; Options o; std::string d; };
Setup setup(vh::Case &c, int n, bool gn, int rows = 0, double range = 1000) {
  Setup s; const int m = rows ? rows : n + c.rng.range(0, 2 * n + 2); const int kind = rows == 1 ? c.rng.range(0, 1) : c.rng.range(0, 2); s.lin = kind == 0; const double noise = m > n && c.rng.coin() ? 0.05 : 0; s.noise = noise > 0; VecD xs; s.p = make(c.rng, n, m, kind, noise, xs);
  s.best = xs; s.x0 = xs; const double far = s.lin ? c.rng.logu(0.1, 100) : c.rng.uni(0.05, 0.4); for (int i = 0; i < n; ++i) s.x0[i] += far * c.rng.normal();
  if (s.noise && !minimiser(s.p, s.best)) throw vh::Inconclusive("no independent minimiser"); if (c.rng.coin(0.4)) s.p.k = c.rng.logu(1 / range, range); s.cost = s.p.r(s.best).squaredNorm();
  s.o = opts(gn ? Options::GaussNewton : Options::LevenbergMarquardt); s.o.max_iters = 200; if (c.rng.coin(0.3)) s.o.hessian.use_ldlt = false; if (!gn) s.o.lm.damping_init = (float)c.rng.logu(1e-6, 1e-2); if (c.rng.coin(0.2)) s.o.check_final_cost = true; if (c.rng.coin(0.2)) s.o.use_step_quality_approx = !gn;
  s.d = cat(gn ? "GN" : "LM", " n=", n, " m=", m, " kind=", kind, " noise=", noise, " far=", far, " ldlt=", s.o.hessian.use_ldlt, " scale=", s.p.k);
  if (s.p.k != 1) { s.o.min_error *= (float)(s.p.k * s.p.k); s.o.min_grad_norm2 *= (float)std::pow(s.p.k, 4); c.event("scaled"); if (s.p.k < 0.01) c.event("small"); } return s;
}
void judge(vh::Case &c, const Setup &s, const Tr &t, bool fl, bool gn, const char *what, double loose = 1) {
  auto det = [&] { return cat(what, " ", s.d, " distance ", (t.x - s.best).norm(), " cost ", t.final_cost, " at minimiser ", s.cost, " | ", show(t)); };
  c.label(cat(what, " ", s.d));
  c.check(t.stop >= 0, "not-successful", det); const double k2 = s.p.k * s.p.k;
  const double tol = loose * (fl ? 3e-3 : s.noise && !s.lin ? 2e-4 : 2e-6);
  c.check(t.x.size() == s.best.size() && (t.x - s.best).norm() <= tol * (1 + s.best.norm()), "not-at-minimiser", det);
  c.check(t.final_cost <= s.cost + loose * (fl ? 1e-4 : 1e-7) * (k2 + s.cost) + 10 * k2 * tol * tol, "cost-above-minimum", det);
  c.check(t.final_cost >= s.cost - loose * (fl ? 1e-4 : 1e-9) * (k2 + s.cost), "cost-below-minimum", det);
  if (s.lin && gn && !fl && t.pts.size() > 1 && loose == 1) { c.check(same(s.best, t.pts[1], 1e-7 * (1 + s.x0.norm())), "not-in-one-step", [&] { return cat(det(), " after one step ", (t.pts[1] - s.best).norm()); }); c.event("one-step"); }
  c.event("converged"); c.event(what); c.distinct(cat(what, s.p.n, s.p.kind, gn, s.noise, s.o.hessian.use_ldlt));
}
template <typename F> void guarded(vh::Case &c, F &&f) { try { f(); } catch (const TooMany &) { c.viol("too-many-evaluations", "more than 5000 evaluations"); } }
// manual, any storage
template <typename HT, typename X> void man(vh::Case &c, X x, int n, const char *what) {
  using S = typename HT::Scalar; constexpr bool sp = traits::is_sparse_matrix_v<HT>; const bool gn = c.rng.coin(); Setup s = setup(c, n, gn, 0, sizeof(S) == 4 ? 30 : 1000);
  Fill f = sp ? FULL : (Fill)c.rng.range(0, 2); if (sp) s.o.hessian.use_ldlt = true; if (sp && c.rng.coin()) { f = UPPER; } if (f == UPPER && !s.o.hessian.use_ldlt) s.o.hessian.H_is_full = false;
  assign(x, s.x0); guarded(c, [&] { Tr t; if (gn) { GNo<HT> o(s.o); t = manual(o, s.p, x, f); } else { LMo<HT> o(s.o); t = manual(o, s.p, x, f); } judge(c, s, t, sizeof(S) == 4, gn, what); });
}
// automatic through Optimize()
template <int ROWS, typename X> void aut(vh::Case &c, X x, int n, const char *what, bool fl = false) {
  const bool gn = c.rng.coin(); Setup s = setup(c, n, gn, ROWS < 0 ? 0 : ROWS, fl ? 30 : 1000); assign(x, s.x0);
  guarded(c, [&] { Tr t = automatic<ROWS>([&](auto &y, const auto &f) { return Optimize(y, f, s.o); }, s.p, x); c.check(!t.numdiff, "numerical-derivatives-used", [&] { return what; }); judge(c, s, t, fl, gn, what); });
}
// automatic, on an optimizer with a chosen Hessian storage
template <typename HT, typename X> void aut_on(vh::Case &c, X x, int n, const char *what) {
  using S = typename HT::Scalar; const bool gn = c.rng.coin(), fl = sizeof(S) == 4; Setup s = setup(c, n, gn, 0, fl ? 30 : 1000); if (traits::is_sparse_matrix_v<HT>) s.o.hessian.use_ldlt = true; assign(x, s.x0);
  guarded(c, [&] { Tr t = automatic<Dynamic>([&](auto &y, const auto &f) { if (gn) { GNo<HT> o(s.o); return o(y, f); } LMo<HT> o(s.o); return o(y, f); }, s.p, x); judge(c, s, t, fl, gn, what); });
}
// numerical derivatives: the function only takes plain values
template <typename X> void num(vh::Case &c, X x, int n, const char *what) {
  const bool gn = c.rng.coin(); Setup s = setup(c, n, gn, 0, 1); assign(x, s.x0); Tr t; int calls = 0;
  guarded(c, [&] {
    auto f = [&](const auto &y) requires std::is_same_v<std::decay_t<decltype(y)>, X> { if (++calls > 200000) throw TooMany{}; const auto r = s.p.res(scalars(y)); VecX o(s.p.m); for (int i = 0; i < s.p.m; ++i) o[i] = r[i]; return o; };
    const Output o = Optimize(x, f, s.o); take(t, o); t.x = flat(x); t.final_cost *= t.final_cost;   // the generated function reports the norm
    c.check(t.numdiff, "numerical-derivatives-not-reported", [&] { return what; }); judge(c, s, t, false, gn, what, 200); });
}
#if VH_PART == 6
template <typename X> void num_only(vh::Case &c, X x, int n, const char *what) {
  const bool gn = c.rng.coin(); Setup s = setup(c, n, gn, 0, 1); assign(x, s.x0); Tr t; int calls = 0;
  guarded(c, [&] { auto f = [&](const auto &y) { if (++calls > 200000) throw TooMany{}; const auto r = s.p.res(scalars(y)); VecX o(s.p.m); for (int i = 0; i < s.p.m; ++i) o[i] = val(r[i]); return o; };
    const Output o = Optimize(x, f, s.o); take(t, o); t.x = flat(x); t.final_cost *= t.final_cost; c.check(t.numdiff, "numerical-derivatives-not-reported", [&] { return what; }); judge(c, s, t, false, gn, what, 200); });
}
#endif
template <typename X> X sized(int n) { X x; if constexpr (requires { x.k; }) x.k.resize(n); else if constexpr (requires { x.rows(); x.resize(n, 1); }) { if constexpr (X::RowsAtCompileTime == Dynamic && X::ColsAtCompileTime == Dynamic) x.resize(2, n / 2); else if constexpr (X::RowsAtCompileTime == 1) x.resize(1, n); else x.resize(n, 1); } else if constexpr (requires { x.resize(n); }) x.resize(n); return x; }
using V = std::vector<double>; using A6 = std::array<double, 6>; using M23 = Eigen::Matrix<double, 2, 3>; using M23r = Eigen::Matrix<double, 2, 3, Eigen::RowMajor>; using P24 = std::pair<Vec2, Vec4>; using R6 = Eigen::Matrix<double, 1, 6>; using P2X = std::pair<Vec2, VecX>;
using VV = std::vector<Vec2>; using AV = std::array<Vec3, 2>; using VX = std::vector<VecX>;
}  // namespace
#if VH_PART == 0 || VH_PART == 1
VH_SUITE(converge_manual, 3000, 60000) {
  const int n = c.rng.coin(0.85) ? c.rng.range(1, 8) : c.rng.range(9, 30);
  man<MatX>(c, sized<VecX>(n), n, "VecX"); man<SparseMat>(c, sized<VecX>(n), n, "sparse"); man<Mat6>(c, Vec6(), 6, "Vec6"); man<Mat1>(c, double(), 1, "double"); man<Mat3>(c, Vec3(), 3, "Vec3"); man<MatX>(c, sized<V>(n), n, "vector"); man<Mat6>(c, A6(), 6, "array");
  man<Mat6>(c, P24(), 6, "pair"); man<Mat6>(c, M23(), 6, "matrix"); man<Mat6>(c, M23r(), 6, "row-major"); man<Mat6>(c, Six<double>(), 6, "user-defined"); man<MatXf>(c, sized<VecXf>(3), 3, "float");
}
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(converge_nested, 2500, 50000) {
  const int n = c.rng.range(1, 4); VV v(n); man<MatX>(c, v, 2 * n, "vector<Vec2>"); man<Mat6>(c, AV(), 6, "array<Vec3>"); VX w; int tot = 0; for (int i = 0; i < n; ++i) { const int k = c.rng.range(1, 3); w.push_back(VecX::Zero(k)); tot += k; } man<MatX>(c, w, tot, "vector<VecX>"); P2X q; q.second.resize(n); man<MatX>(c, q, 2 + n, "pair<Vec2,VecX>"); man<MatX>(c, sized<Dyn<double>>(n), n, "user-dynamic"); man<SparseMat>(c, v, 2 * n, "sparse-nested"); man<SparseMatrix<float>>(c, sized<VecXf>(n), n, "sparse-float");
}
VH_SUITE(converge_numerical, 1500, 30000) { const int n = c.rng.range(1, 5); num(c, sized<VecX>(n), n, "num-VecX"); num(c, Vec3(), 3, "num-Vec3"); num(c, sized<V>(n), n, "num-vector"); num(c, double(), 1, "num-double"); num(c, P24(), 6, "num-pair"); }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(converge_auto, 2500, 50000) {
  const int n = c.rng.coin(0.85) ? c.rng.range(1, 8) : c.rng.range(9, 20);
  aut<Dynamic>(c, sized<VecX>(n), n, "auto-VecX"); aut<Dynamic>(c, Vec3(), 3, "auto-Vec3"); aut<4>(c, Vec2(), 2, "auto-Vec2"); aut<1>(c, double(), 1, "auto-double"); aut<Dynamic>(c, sized<V>(n), n, "auto-vector"); aut<Dynamic>(c, A6(), 6, "auto-array"); aut<Dynamic>(c, float(), 1, "auto-float", true);
}
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(converge_auto2, 2500, 50000) {
  const int n = c.rng.range(1, 4);
  aut<Dynamic>(c, P24(), 6, "auto-pair"); aut<Dynamic>(c, M23(), 6, "auto-matrix"); aut<Dynamic>(c, M23r(), 6, "auto-row-major"); aut<Dynamic>(c, Six<double>(), 6, "auto-user-defined"); aut<Dynamic>(c, sized<Dyn<double>>(n), n, "auto-user-dynamic"); aut<Dynamic>(c, sized<MatX>(2 * n), 2 * n, "auto-MatX"); P2X q; q.second.resize(n); aut<Dynamic>(c, q, 2 + n, "auto-pair-dynamic"); aut<Dynamic>(c, sized<VecXf>(n), n, "auto-VecXf", true);
}
#endif
#if VH_PART == 0 || VH_PART == 5
VH_SUITE(converge_auto3, 2500, 50000) {   // sparse Hessians, residuals as matrices
  const int n = c.rng.range(1, 6);
  aut_on<SparseMat>(c, sized<VecX>(n), n, "auto-sparse"); aut_on<SparseMatrix<float>>(c, sized<VecXf>(n), n, "auto-sparse-float"); aut_on<SparseMat>(c, sized<V>(n), n, "auto-sparse-vector"); aut_on<MatX>(c, sized<VecX>(n), n, "auto-dense"); aut<MATRIX>(c, sized<VecX>(n), n, "auto-matrix-residuals"); aut<MATRIX>(c, Vec3(), 3, "auto-matrix-residuals-3"); aut<MATRIX>(c, M23(), 6, "auto-matrix-both");
}
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(converge_descent, 1500, 30000) {   // convex costs with gradient descent
  const int n = c.rng.range(1, 5); VecD xs; const Prob p = make(c.rng, n, n + c.rng.range(0, 3), 0, 0, xs); MatD J = p.J(xs); const double L = (J.transpose() * J).norm(); Options o = opts(Options::GradientDescent); o.gd.lr = (float)(c.rng.uni(0.3, 0.95) / L); o.max_iters = 3000; o.min_rerr_dec = 0; o.min_error = 0; o.min_step_norm2 = 1e-18f;
  VecD x0 = xs; for (int i = 0; i < n; ++i) x0[i] += c.rng.normal(); const double off = c.rng.coin() ? 0 : c.rng.uni(-3, 3);
  auto run = [&](auto x, const char *what) { assign(x, x0); Tr t;
    auto f = [&](const auto &y, auto &g) { const VecD v = flat(y); const VecD r = p.r(v); if constexpr (!traits::is_nullptr_v<decltype(g)>) g += (p.J(v).transpose() * r); return off + 0.5 * r.squaredNorm(); };
    const Output out = Optimize(x, f, o); take(t, out); t.x = flat(x);
    auto det = [&] { return cat(what, " n=", n, " lr=", o.gd.lr, " off=", off, " distance ", (t.x - xs).norm(), " cost ", t.final_cost, " stop ", t.stop, " iters ", t.iters); };
    c.check(t.stop >= 0, "descent-not-successful", det); c.check(same(xs, t.x, 1e-4), "descent-not-at-minimiser", det); c.check(std::abs(t.final_cost - off) <= 1e-6, "descent-cost", det); c.event("descents"); c.distinct(cat(what, n, off != 0)); };
  run(VecX(VecX::Zero(n)), "gd-VecX"); if (n == 3) run(Vec3(), "gd-Vec3"); if (n == 2) run(Vec2(), "gd-Vec2");
  { // automatic derivatives of a scalar cost bounded away from zero
    VecX x = x0; Options oa = o; oa.max_iters = 4000; Tr t; auto f = [&](const auto &y) { const auto in = scalars(y); using T = typename std::decay_t<decltype(in)>::value_type; T s(1.0); for (auto &e : p.res(in)) s += e * e * 0.5; return s; };
    const double start = 1 + 0.5 * p.r(x0).squaredNorm(); oa.gd.lr = (float)(0.9 / (L * start)); const Output out = Optimize(x, f, oa); take(t, out); t.x = flat(x); auto det = [&] { return cat("gd-auto n=", n, " distance ", (t.x - xs).norm(), " cost ", t.final_cost, " stop ", t.stop, " iters ", t.iters); };
    c.check(t.stop >= 0 && t.final_cost - 1 <= 1e-3 * (start - 1), "descent-auto", det); c.event("descents"); }
}
#endif
#if VH_PART == 6
VH_SUITE(converge_no_autodiff, 1200, 24000) { const int n = c.rng.range(1, 5); num_only(c, sized<VecX>(n), n, "no-autodiff-VecX"); num_only(c, Vec3(), 3, "no-autodiff-Vec3"); num_only(c, double(), 1, "no-autodiff-double"); num_only(c, sized<V>(n), n, "no-autodiff-vector"); num_only(c, P24(), 6, "no-autodiff-pair"); }
#endif
#if VH_PART == 0 || VH_PART == 7
VH_SUITE(converge_nested, 1200, 24000) {   // containers of containers, automatic derivatives
  const int n = c.rng.range(1, 3); using D2 = std::pair<double, Vec2>;
  aut<Dynamic>(c, std::vector<Vec2>(n), 2 * n, "auto-vector-Vec2"); aut<Dynamic>(c, std::array<Vec3, 2>(), 6, "auto-array-Vec3"); aut<Dynamic>(c, D2(), 3, "auto-pair-scalar"); aut<Dynamic>(c, std::vector<D2>(n), 3 * n, "auto-vector-pair"); aut<Dynamic>(c, std::vector<V>(2, V(n)), 2 * n, "auto-vector-vector"); aut<Dynamic>(c, std::pair<V, double>(V(n), 0.), n + 1, "auto-pair-vector");
}
#endif
