// Whole runs with scripted disturbances, recorded bit by bit.
#pragma once
#include "prob.h"
#include <iostream>
#include <malloc.h>
namespace sc {
using namespace pb; using vh::cat;
template <typename HT> using GNo = Optimizer_<solvers::SolverGN<HT>>; template <typename HT> using LMo = Optimizer_<solvers::SolverLM<HT>>; template <typename G> using GDo = Optimizer_<solvers::SolverGD<G>>;
enum Fault { NONE, NANCOST, NORESIDUALS, SINGULAR, INDEFINITE, WORSE, THROW, NANGRAD, FAULTS };
struct Boom : std::runtime_error { Boom() : std::runtime_error("user function failed") {} };
struct Scen { Prob p; VecD x0; std::vector<std::pair<int, int>> faults; int budget = -1;   // (kind, evaluation index)
  int fault(int k) const { for (auto &f : faults) if (f.second == k || (f.second < 0 && k >= -f.second)) return f.first; return NONE; }
  std::string str() const { std::string s = cat("n=", p.n, " m=", p.m, " kind=", p.kind, " budget=", budget, " faults="); for (auto &f : faults) s += cat(f.first, "@", f.second, " "); return s; } };
inline Scen scen(vh::Rng &g, int n, bool can_throw) { Scen s; VecD xs; s.p = make(g, n, n + g.range(0, 6), g.range(0, 3), g.coin() ? 0.3 : 0, xs); s.x0 = xs; const double far = g.uni(0.1, 3); for (int i = 0; i < n; ++i) s.x0[i] += far * g.normal();
  const int nf = g.coin(0.45) ? 0 : g.range(1, 3); for (int i = 0; i < nf; ++i) { int k = g.range(1, FAULTS - 1); if (k == THROW && !can_throw) k = WORSE; s.faults.push_back({k, g.coin(0.1) ? -g.range(1, 5) : g.range(0, 7)}); } if (g.coin(0.2)) s.budget = g.range(0, 4); return s; }
inline Options rand_opts(vh::Rng &g, int solver) {   // 0 GN, 1 LM, 2 GD
  Options o = opts(solver == 0 ? Options::GaussNewton : solver == 1 ? Options::LevenbergMarquardt : Options::GradientDescent); o.max_iters = g.range(0, 12); auto th = [&](double a, double b) { return g.coin() ? 0.f : (float)g.logu(a, b); };
  o.min_error = th(1e-10, 1e-1); o.min_rerr_dec = th(1e-10, 1e-1); o.min_step_norm2 = th(1e-10, 1e-1); o.min_grad_norm2 = th(1e-10, 1e-1); o.max_consec_failures = g.range(0, 5); o.max_total_failures = g.coin(0.3) ? g.range(1, 5) : 0; o.check_final_cost = g.coin(0.3); if (o.max_consec_failures == 0 && g.coin(0.8)) o.max_consec_failures = 3;
  o.lm.damping_init = g.coin(0.1) ? 0.f : (float)g.logu(1e-5, 1); o.lm.bad_factor = (float)g.uni(1.5, 6); o.lm.good_factor = (float)g.uni(0.1, 0.9); o.use_step_quality_approx = g.coin(0.3); if (g.coin(0.2)) o.grad_clipping = (float)g.uni(0.3, 3); o.gd.lr = (float)g.logu(1e-3, 0.3);
  o.cost.downscale_by_2 = g.coin(0.2); o.cost.normalize = g.coin(0.2); o.cost.use_squared_norm = g.coin(0.8); o.hessian.use_ldlt = g.coin(0.75); o.hessian.H_is_full = g.coin(0.7); if (g.coin(0.15)) o.hessian.check_min_H_diag = (float)g.logu(1e-6, 1); return o; }
inline void rand_log(vh::Rng &g, Options &o) { auto &l = o.log; l.enable = true; l.print_emoji = g.coin(); l.print_x = g.coin(); l.print_dx = g.coin(); l.print_inliers = g.coin(); l.print_t = g.coin(); l.print_J_jet = g.coin(); l.print_max_stdev = g.coin(); l.print_failure = g.coin(); }
// everything a run shows to its caller
struct Rec { std::vector<VecD> pts; std::vector<int> deriv; Output out; VecD x; std::string threw; std::string log; };
inline bool bits(const VecD &a, const VecD &b) { return a.size() == b.size() && (a.size() == 0 || !memcmp(a.data(), b.data(), sizeof(double) * a.size())); }
template <typename V> bool vbits(const V &a, const V &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { const auto x = a[i], y = b[i]; if (memcmp(&x, &y, sizeof x)) return false; } return true; }
inline bool feq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline MatD hess(const Output &o) { if (std::holds_alternative<MatX>(o.final_hessian)) return o.final_hessian_dense(); if (std::holds_alternative<SparseMat>(o.final_hessian)) return MatD(o.final_hessian_sparse()); return MatD(); }
inline const char *differs(const Rec &a, const Rec &b, bool with_h = true) {
  if (a.threw != b.threw) return "exceptions"; if (a.pts.size() != b.pts.size()) return "evaluation-count"; for (size_t i = 0; i < a.pts.size(); ++i) if (!bits(a.pts[i], b.pts[i])) return "evaluated-points"; if (a.deriv != b.deriv) return "requested-derivatives"; if (!bits(a.x, b.x)) return "parameters";
  if (a.out.stop_reason != b.out.stop_reason) return "stop-reason"; if (a.out.num_iters != b.out.num_iters) return "iterations"; if (!vbits(a.out.errs, b.out.errs)) return "costs"; if (!vbits(a.out.deltas2, b.out.deltas2)) return "step-sizes"; if (a.out.successes != b.out.successes) return "successes";
  if (a.out.num_failures != b.out.num_failures || a.out.num_consec_failures != b.out.num_consec_failures) return "failure-counts"; if (a.out.num_residuals != b.out.num_residuals) return "residual-count"; if (!feq(a.out.final_cost.cost, b.out.final_cost.cost)) return "final-cost"; if (!feq(a.out.final_rerr_dec, b.out.final_rerr_dec)) return "final-decrease";
  if (with_h) { const MatD p = hess(a.out), q = hess(b.out); if (p.rows() != q.rows() || p.cols() != q.cols()) return "hessian-size"; for (long i = 0; i < p.size(); ++i) if (!feq(p.data()[i], q.data()[i])) return "hessian"; }
  return nullptr; }
inline std::string show(const Rec &r) { std::string s = cat(r.threw, " stop=", (int)r.out.stop_reason, " iters=", r.out.num_iters, " evals=", r.pts.size(), " fails=", r.out.num_failures, " errs="); for (auto e : r.out.errs) s += cat(e, " "); s += "d2="; for (auto e : r.out.deltas2) s += cat(e, " "); return s + "x=" + vh::mat(r.x); }
struct Capture { std::ostringstream os; std::streambuf *old; Capture() : old(std::cout.rdbuf(os.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); std::cout.clear(); } std::string str() const { return os.str(); } };

// accumulation function of a scenario, for functions with or without Hessian
template <typename S, bool HESS> auto function(const Scen &s, Rec &r) {
  auto body = [&s, &r](const auto &x, auto g, auto &&setH, int) -> Cost {
    const VecD v = flat(x); const int k = (int)r.pts.size(); r.pts.push_back(v); r.deriv.push_back(g != nullptr); if (k > 5000) throw TooMany{}; const int ft = s.fault(k);
    const VecD rs = s.p.r(v);
    if constexpr (!std::is_null_pointer_v<std::decay_t<decltype(g)>>) { const MatD J = s.p.J(v); VecD gg = J.transpose() * rs; MatD h = J.transpose() * J; if (ft == SINGULAR) { h.row(0).setZero(); h.col(0).setZero(); } if (ft == INDEFINITE) h(0, 0) = -h(0, 0); if (ft == NANGRAD) gg[0] = NAN; *g += gg.template cast<S>(); setH(h); }
    if (ft == THROW) throw Boom(); if (ft == NANCOST) return Cost(NAN, s.p.m); if (ft == NORESIDUALS) return Cost(0, 0);
    return Cost(rs.squaredNorm() * (ft == WORSE ? 50 : 1), s.p.m); };
  if constexpr (HESS) return [body](const auto &x, auto &g, auto &H) -> Cost { if constexpr (traits::is_nullptr_v<decltype(g)>) return body(x, nullptr, [](const MatD &) {}, 0); else return body(x, &g, [&](const MatD &h) { if constexpr (traits::is_sparse_matrix_v<std::decay_t<decltype(H)>>) H = h.template cast<S>().sparseView(); else H += h.template cast<S>(); }, 0); };
  else return [body](const auto &x, auto &g) -> Cost { if constexpr (traits::is_nullptr_v<decltype(g)>) return body(x, nullptr, [](const MatD &) {}, 0); else return body(x, &g, [](const MatD &) {}, 0); };
}
template <typename O> struct Opt_first; template <typename S> struct Opt_first<Optimizer_<S>> { static constexpr bool value = S::FirstOrder; };
template <typename Opt, typename X> Rec run(Opt &o, const Scen &s, X x) {
  Rec r; assign(x, s.x0); using S = typename Opt::Scalar; constexpr bool H = !Opt_first<Opt>::value;
  try { r.out = o(x, function<S, H>(s, r), s.budget); } catch (const Boom &e) { r.threw = e.what(); } r.x = flat(x); return r; }
}  // namespace sc
