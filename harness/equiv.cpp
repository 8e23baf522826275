// The same problem in different formulations must give the same run (compile with -DVH_PART=k).
#include "prob.h"
#ifndef VH_PART
#define VH_PART 0
#endif
using namespace pb;
using vh::cat;
namespace {
template <typename HT> using GNo = Optimizer_<solvers::SolverGN<HT>>; template <typename HT> using LMo = Optimizer_<solvers::SolverLM<HT>>;
struct Cx { Prob p; VecD x0; Options o; bool gn; Tr ref; int cut; bool whole; std::string d; };
// how far the reference run can be compared: up to the first decision that rounding could flip
void horizon(Cx &k, double rel) {
  const Tr &t = k.ref; const Options &o = k.o; double best = INFINITY; k.cut = (int)t.errs.size(); k.whole = true;
  auto near = [&](double v, double th) { return th > 0 && std::abs(v - th) <= 1e3 * rel * th; };
  for (int i = 0; i < (int)t.errs.size(); ++i) {
    const double e = t.errs[i]; bool marginal = near(e, o.min_error) || near(t.d2[i], o.min_step_norm2) || e < 1e-3 * rel * t.errs[0] || (rel > 1e-7 && e < 1e-2 * k.p.k * k.p.k) || t.d2[i] < rel * rel;
    if (std::isfinite(best)) { const double rd = (best - e) / best; marginal = marginal || std::abs(rd) < 100 * rel || near(rd, o.min_rerr_dec); }
    const MatD J = k.p.J(t.pts[std::min<size_t>(i, t.pts.size() - 1)]); Eigen::JacobiSVD<MatD> sv(J); const double cd = sv.singularValues()(0) / sv.singularValues()(k.p.n - 1); const double g2 = (J.transpose() * k.p.r(t.pts[std::min<size_t>(i, t.pts.size() - 1)])).squaredNorm();
    if (near(g2, o.min_grad_norm2)) marginal = true; if (!(cd * cd < 1e-2 / rel) || !(sv.singularValues()(k.p.n - 1) > 1e-2 * k.p.k) || !(t.pts[i].norm() < 100)) marginal = true;
    if (marginal) { k.cut = i; k.whole = false; return; }
    best = std::min(best, e);
  }
  for (const auto &x : t.pts) { Eigen::JacobiSVD<MatD> sv(k.p.J(x)); const double cd = sv.singularValues()(0) / sv.singularValues()(k.p.n - 1); if (!(cd * cd < 1e-2 / rel) || !(sv.singularValues()(k.p.n - 1) > 1e-2 * k.p.k) || !(x.norm() < 100)) k.whole = false; }
}
Cx start(vh::Case &c, int n, bool fl, bool gd = false) {
  Cx k; k.gn = !gd && c.rng.coin(0.4); const int kind = fl ? c.rng.range(0, 2) : c.rng.range(0, 3); VecD xs; k.p = make(c.rng, n, n + c.rng.range(0, 8), kind, c.rng.coin() ? 0.3 : 0, xs); if (fl) for (auto *v : {&k.p.A, &k.p.b}) for (auto &e : *v) e = (float)e; if (fl) k.p.w = (float)k.p.w;
  k.x0 = xs; const double far = kind == 3 ? c.rng.uni(0.5, 2) : c.rng.uni(0.2, 2); for (int i = 0; i < n; ++i) { k.x0[i] += far * c.rng.normal(); if (fl) k.x0[i] = (float)k.x0[i]; }
  Options o = opts(gd ? Options::GradientDescent : k.gn ? Options::GaussNewton : Options::LevenbergMarquardt); o.max_iters = c.rng.range(1, 10); auto th = [&](double a, double b) { return c.rng.coin(0.4) ? 0.f : (float)c.rng.logu(a, b); };
  o.min_error = th(1e-4, 1e-1); o.min_rerr_dec = th(1e-4, 1e-1); o.min_step_norm2 = th(1e-4, 1e-1); o.min_grad_norm2 = th(1e-4, 1e-1); o.max_consec_failures = c.rng.range(0, 6); o.max_total_failures = c.rng.coin(0.3) ? c.rng.range(1, 5) : 0; o.check_final_cost = c.rng.coin(0.3);
  if (!k.gn && !gd) { o.lm.damping_init = c.rng.coin(0.1) ? 0.f : (float)c.rng.logu(1e-5, 1); o.lm.bad_factor = (float)c.rng.uni(1.5, 6); o.use_step_quality_approx = c.rng.coin(0.2); } if (c.rng.coin(0.15)) o.grad_clipping = (float)c.rng.uni(0.3, 3); if (gd) o.gd.lr = (float)c.rng.logu(1e-3, 0.3);
  o.cost.downscale_by_2 = c.rng.coin(0.2); o.cost.normalize = c.rng.coin(0.2); o.cost.use_squared_norm = c.rng.coin(0.8); if (!fl && c.rng.coin(0.4)) { const double q = k.p.k = c.rng.logu(1e-3, 1e3); o.min_error *= (float)(q * q); o.min_grad_norm2 *= (float)std::pow(q, 4); o.grad_clipping *= (float)(q * q); o.gd.lr /= (float)(q * q); c.event("scaled"); } k.o = o;
  k.d = cat(gd ? "GD" : k.gn ? "GN" : "LM", " n=", n, " m=", k.p.m, " kind=", kind, " max_iters=", o.max_iters, " scale=", k.p.k); return k;
}
Cx reference(vh::Case &c, int n, bool fl) {
  Cx k = start(c, n, fl); VecX x = k.x0; try { if (k.gn) { GNo<MatX> o(k.o); k.ref = manual(o, k.p, x, FULL); } else { LMo<MatX> o(k.o); k.ref = manual(o, k.p, x, FULL); } } catch (const TooMany &) { throw vh::Inconclusive("reference evaluates too often"); }
  k.ref.what = "reference"; horizon(k, fl ? 1e-5 : 1e-9); if (k.cut < 1 || k.ref.pts.size() < 2) throw vh::Inconclusive("nothing comparable"); return k;
}
void compare(vh::Case &c, const Cx &k, const Tr &t, bool fl, const char *what) {
  const double tol = fl ? 3e-3 : 1e-6; const Tr &r = k.ref; auto det = [&] { return cat(what, " vs reference, ", k.d, " comparable ", k.cut, " | ", show(r), " | ", show(t)); };
  c.label(cat(what, " ", k.d));
  if (!c.check((int)t.errs.size() >= k.cut, "run-shorter", det)) return;
  for (int i = 0; i < k.cut; ++i) if (!c.check(std::abs(t.errs[i] - r.errs[i]) <= tol * (r.errs[i] + (fl ? 1e-2 * r.errs[0] : 0)), "costs-differ", [&] { return cat("iteration ", i, " ", det()); })) return;
  for (int i = 0; i < k.cut; ++i) if (!c.check(t.ok[i] == r.ok[i], "acceptance-differs", det)) return;
  for (int i = 0; i < std::min<int>(k.cut, (int)std::min(r.pts.size(), t.pts.size())); ++i) if (!c.check(same(r.pts[i], t.pts[i], tol), "iterates-differ", [&] { return cat("evaluation ", i, " ", det()); })) return;
  c.event("iterations-compared", k.cut);
  if (k.whole) {
    c.check(t.iters == r.iters, "iteration-count-differs", det); c.check(t.stop == r.stop, "stop-reason-differs", det); c.check(t.nres == r.nres, "residual-count-differs", det); c.check(t.fails == r.fails, "failures-differ", det); c.check(same(r.x, t.x, tol), "final-parameters-differ", det); c.check(t.pts.size() == r.pts.size(), "evaluation-count-differs", det);
    c.check(std::abs(t.final_cost - r.final_cost) <= tol * (r.final_cost + (fl ? 1e-2 * r.errs[0] : 0)), "final-cost-differs", det);
    if (t.H.size() && r.H.size()) { bool ok = t.H.rows() == r.H.rows(); for (int j = 0; ok && j < r.H.cols(); ++j) for (int i = 0; i <= j; ++i) ok = ok && std::abs(t.H(i, j) - r.H(i, j)) <= 30 * tol * r.H.norm(); c.check(ok, "final-hessian-differs", [&] { return cat(vh::mat(t.H), " vs ", vh::mat(r.H), " ", det()); }); }
    c.event("whole-runs");
  }
  c.event("formulations"); c.event(what); bool rej = false; for (bool b : r.ok) rej = rej || !b; if (rej) c.event("runs-with-rejections"); c.distinct(cat(what, k.gn, k.p.kind, k.ref.stop, k.ref.iters, rej));
}
template <typename F> void guarded(vh::Case &c, const Cx &k, bool fl, const char *what, F &&f) { try { compare(c, k, f(), fl, what); } catch (const TooMany &) { c.viol("too-many-evaluations", what); } }
template <typename HT, typename X> void man(vh::Case &c, Cx k, X x, const char *what, bool fl = false) {
  constexpr bool sp = traits::is_sparse_matrix_v<HT>; Fill f = (Fill)c.rng.range(0, sp ? 1 : 2); if (!sp && c.rng.coin(0.4)) k.o.hessian.use_ldlt = false; if (f == UPPER && (!k.o.hessian.use_ldlt || c.rng.coin())) k.o.hessian.H_is_full = false;
  assign(x, k.x0); guarded(c, k, fl, what, [&] { Tr t; if (k.gn) { GNo<HT> o(k.o); t = manual(o, k.p, x, f); } else { LMo<HT> o(k.o); t = manual(o, k.p, x, f); } t.what = cat(what, " fill ", f, " ldlt ", k.o.hessian.use_ldlt); return t; });
}
template <typename X> void aut(vh::Case &c, Cx k, X x, const char *what, bool fl = false) {
  if (c.rng.coin(0.3)) k.o.hessian.use_ldlt = false; assign(x, k.x0); guarded(c, k, fl, what, [&] { Tr t = automatic<Dynamic>([&](auto &y, const auto &f) { return Optimize(y, f, k.o); }, k.p, x); t.what = what; return t; });
}
template <typename HT, typename X> void aut_on(vh::Case &c, Cx k, X x, const char *what, bool fl = false) {
  assign(x, k.x0); guarded(c, k, fl, what, [&] { Tr t = automatic<Dynamic>([&](auto &y, const auto &f) { if (k.gn) { GNo<HT> o(k.o); return o(y, f); } LMo<HT> o(k.o); return o(y, f); }, k.p, x); t.what = what; return t; });
}
template <typename X> void autm(vh::Case &c, Cx k, X x, const char *what) { assign(x, k.x0); guarded(c, k, false, what, [&] { Tr t = automatic<MATRIX>([&](auto &y, const auto &f) { return Optimize(y, f, k.o); }, k.p, x); t.what = what; return t; }); }
// accumulation function given to Optimize(): the storage is deduced from its signature
template <bool SP, typename X> void opt(vh::Case &c, const Cx &k, X x, const char *what) {
  assign(x, k.x0); guarded(c, k, false, what, [&] { Tr t; auto body = [&](const auto &xx, auto &g, auto &H) { const VecD v = flat(xx); t.pts.push_back(v); if (t.pts.size() > 5000) throw TooMany{}; const VecD r = k.p.r(v); if constexpr (!traits::is_nullptr_v<decltype(g)>) { const MatD J = k.p.J(v); g = J.transpose() * r; if constexpr (SP) H = (J.transpose() * J).sparseView(); else H = J.transpose() * J; } return Cost(r.squaredNorm(), k.p.m); };
    Output o; if constexpr (SP) o = Optimize(x, [&](const auto &xx, auto &g, SparseMat &H) { return body(xx, g, H); }, k.o); else o = Optimize(x, [&](const auto &xx, auto &g, auto &H) { return body(xx, g, H); }, k.o); take(t, o); t.x = flat(x); t.what = what; return t; });
}
using V = std::vector<double>; using A6 = std::array<double, 6>; using M23 = Eigen::Matrix<double, 2, 3>; using M23r = Eigen::Matrix<double, 2, 3, Eigen::RowMajor>; using P24 = std::pair<Vec2, Vec4>; using R6 = Eigen::Matrix<double, 1, 6>; using P2X = std::pair<Vec2, VecX>; using P51 = std::pair<Vector<double, 5>, double>;
using VV = std::vector<Vec2>; using AV = std::array<Vec3, 2>; using VX = std::vector<VecX>; using AX = std::array<VecX, 2>; using VM = std::vector<M23>; using VVd = std::vector<std::vector<double>>;
template <typename X> X six() { X x; if constexpr (std::is_same_v<X, V>) x.resize(6); if constexpr (std::is_same_v<X, VecX> || std::is_same_v<X, VecXf>) x.resize(6); if constexpr (std::is_same_v<X, MatX>) x.resize(3, 2); if constexpr (std::is_same_v<X, P2X>) x.second.resize(4); if constexpr (std::is_same_v<X, VV>) x.resize(3); if constexpr (std::is_same_v<X, VX>) { x.emplace_back(VecX::Zero(1)); x.emplace_back(VecX::Zero(3)); x.emplace_back(VecX::Zero(2)); } if constexpr (std::is_same_v<X, AX>) { x[0].resize(4); x[1].resize(2); } if constexpr (std::is_same_v<X, VM>) x.resize(1); if constexpr (std::is_same_v<X, VVd>) { x.resize(3); x[0].resize(2); x[1].resize(1); x[2].resize(3); } if constexpr (std::is_same_v<X, Dyn<double>>) x.k.resize(6); return x; }
}  // namespace
#if VH_PART == 0 || VH_PART == 1
VH_SUITE(equiv_storage, 4000, 60000) { const Cx k = reference(c, 6, false); man<MatX>(c, k, six<VecX>(), "VecX"); man<Mat6>(c, k, Vec6(), "Vec6"); man<SparseMat>(c, k, six<VecX>(), "sparse"); man<Mat6>(c, k, A6(), "array"); man<MatX>(c, k, six<V>(), "vector"); man<Mat6>(c, k, M23(), "matrix"); man<Mat6>(c, k, M23r(), "row-major"); man<Mat6>(c, k, P24(), "pair"); man<Mat6>(c, k, R6(), "row-vector"); man<Mat6>(c, k, Six<double>(), "user-defined"); }
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(equiv_nested, 4000, 60000) { const Cx k = reference(c, 6, false); man<MatX>(c, k, six<VV>(), "vector<Vec2>"); man<Mat6>(c, k, AV(), "array<Vec3>"); man<MatX>(c, k, six<VX>(), "vector<VecX>"); man<MatX>(c, k, six<AX>(), "array<VecX>"); man<MatX>(c, k, six<P2X>(), "pair<Vec2,VecX>"); man<Mat6>(c, k, P51(), "pair<Vec5,double>"); man<SparseMat>(c, k, six<VX>(), "sparse-nested"); man<MatX>(c, k, six<Dyn<double>>(), "user-dynamic"); man<MatX>(c, k, six<VVd>(), "vector<vector>"); }
VH_SUITE(equiv_scalar, 3000, 40000) { const Cx k = reference(c, 1, false); man<Mat1>(c, k, double(), "double"); man<Mat1>(c, k, Vec1(), "Vec1"); man<SparseMat>(c, k, VecX(VecX::Zero(1)), "sparse-1"); man<MatX>(c, k, V(1), "vector-1"); }
VH_SUITE(equiv_float, 3000, 40000) { const Cx k = reference(c, 6, true); man<Matrix<float, 6, 6>>(c, k, Vector<float, 6>(), "Vec6f", true); man<MatXf>(c, k, six<VecXf>(), "VecXf", true); }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(equiv_auto, 3000, 50000) { const Cx k = reference(c, 6, false); aut(c, k, six<VecX>(), "auto-VecX"); aut(c, k, Vec6(), "auto-Vec6"); aut(c, k, A6(), "auto-array"); aut(c, k, six<V>(), "auto-vector"); aut(c, k, M23(), "auto-matrix"); aut(c, k, six<MatX>(), "auto-MatX"); }
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(equiv_auto2, 3000, 50000) { const Cx k = reference(c, 6, false); aut(c, k, M23r(), "auto-row-major"); aut(c, k, P24(), "auto-pair"); aut(c, k, six<P2X>(), "auto-pair-dynamic"); aut(c, k, Six<double>(), "auto-user-defined"); aut(c, k, six<Dyn<double>>(), "auto-user-dynamic"); aut(c, k, R6(), "auto-row-vector"); }
#endif
#if VH_PART == 0 || VH_PART == 6
VH_SUITE(equiv_auto3, 3000, 50000) { const Cx k = reference(c, 6, false); aut_on<SparseMat>(c, k, six<VecX>(), "auto-sparse"); aut_on<SparseMat>(c, k, six<V>(), "auto-sparse-vector"); aut_on<MatX>(c, k, six<VecX>(), "auto-dense"); autm(c, k, six<VecX>(), "auto-matrix-residuals"); autm(c, k, M23(), "auto-matrix-both"); }
#endif
#if VH_PART == 0 || VH_PART == 7
VH_SUITE(equiv_auto_nested, 3000, 50000) { const Cx k = reference(c, 6, false); aut(c, k, six<VV>(), "auto-vector<Vec2>"); aut(c, k, AV(), "auto-array<Vec3>"); aut(c, k, six<VX>(), "auto-vector<VecX>"); aut(c, k, P51(), "auto-pair<Vec5,double>"); aut(c, k, std::pair<double, Vector<double, 5>>(), "auto-pair<double,Vec5>"); aut(c, k, six<VVd>(), "auto-vector<vector>"); aut(c, k, std::vector<std::pair<double, Vec2>>(2), "auto-vector<pair>"); }
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(equiv_auto_float, 1500, 30000) { const Cx k = reference(c, 6, true); aut(c, k, six<VecXf>(), "auto-VecXf", true); }
#endif
#if VH_PART == 0 || VH_PART == 5
VH_SUITE(equiv_optimize, 3000, 50000) { const Cx k = reference(c, 6, false); opt<false>(c, k, six<VecX>(), "Optimize-VecX"); opt<false>(c, k, Vec6(), "Optimize-Vec6"); opt<true>(c, k, six<VecX>(), "Optimize-sparse"); opt<false>(c, k, six<VV>(), "Optimize-vector<Vec2>"); opt<true>(c, k, six<VV>(), "Optimize-sparse-nested"); }
VH_SUITE(equiv_descent, 3000, 50000) {   // gradient descent: manual gradient, any parameter type
  const Cx k = start(c, 6, false, true); auto run = [&](auto x, const char *what) { assign(x, k.x0); Tr t; auto f = [&](const auto &y, auto &g) { const VecD v = flat(y); t.pts.push_back(v); const VecD r = k.p.r(v); if constexpr (!traits::is_nullptr_v<decltype(g)>) g += k.p.J(v).transpose() * r; return Cost(r.squaredNorm(), k.p.m); }; const Output o = Optimize(x, f, k.o); take(t, o); t.x = flat(x); t.what = what; return t; };
  Cx q = k; q.ref = run(six<VecX>(), "reference"); horizon(q, 1e-9); if (q.cut < 1) throw vh::Inconclusive("nothing comparable");
  compare(c, q, run(Vec6(), "descent-Vec6"), false, "descent-Vec6"); compare(c, q, run(A6(), "descent-array"), false, "descent-array"); compare(c, q, run(six<V>(), "descent-vector"), false, "descent-vector"); compare(c, q, run(M23(), "descent-matrix"), false, "descent-matrix"); compare(c, q, run(P24(), "descent-pair"), false, "descent-pair"); compare(c, q, run(six<VX>(), "descent-nested"), false, "descent-nested");
}
#endif
