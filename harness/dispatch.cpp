// Which solver runs for which request, and what is refused (compile with -DVH_PART=k).
#include "scen.h"
#ifndef VH_PART
#define VH_PART 0
#endif
using namespace sc;
namespace {
enum Form { AUTO, AUTO_SCALAR, NUMERIC, NUMERIC_SCALAR, GRAD, HESS, SPARSE };
const char *form_name[] = {"auto", "auto-scalar", "numeric", "numeric-scalar", "gradient", "hessian", "sparse"};
template <typename T> auto first(const std::vector<T> &v) { return v[0]; }
// calls go(function) with a recording function of the given form
template <Form F, typename X, typename Go> auto with(const Prob &p, Rec &r, int none, Go &&go) {
  auto note = [&r](const VecD &v, bool d) { r.pts.push_back(v); r.deriv.push_back(d); if (r.pts.size() > 20000) throw TooMany{}; };
  if constexpr (F == AUTO || F == AUTO_SCALAR) return go([&](const auto &xx) { const auto in = scalars(xx); using T = typename std::decay_t<decltype(in)>::value_type; VecD v(in.size()); for (size_t i = 0; i < in.size(); ++i) v[(long)i] = val(in[i]); note(v, !std::is_floating_point_v<T>); const auto e = p.res(in); if constexpr (F == AUTO_SCALAR) { T s = e[0] * e[0]; for (int i = 1; i < p.m; ++i) s += e[i] * e[i]; return s; } else { Vector<T, Dynamic> o(none ? 0 : p.m); for (int i = 0; i < o.size(); ++i) o[i] = e[i]; return o; } });
  else if constexpr (F == NUMERIC) return go([&](const auto &xx) requires std::is_same_v<std::decay_t<decltype(xx)>, X> { const VecD v = flat(xx); note(v, false); VecD o = p.r(v); using S = typename traits::params_trait<X>::Scalar; if constexpr (std::is_same_v<S, float>) return VecXf(o.template cast<float>()); else return VecX(o); });
  else if constexpr (F == NUMERIC_SCALAR) return go([&](const auto &xx) requires std::is_same_v<std::decay_t<decltype(xx)>, X> { const VecD v = flat(xx); note(v, false); return p.r(v).squaredNorm(); });
  else if constexpr (F == GRAD) return go([&](const auto &xx, auto &g) { const VecD v = flat(xx); constexpr bool D = !traits::is_nullptr_v<decltype(g)>; note(v, D); const VecD e = p.r(v); if constexpr (D) g += (p.J(v).transpose() * e).eval().template cast<typename std::decay_t<decltype(g)>::Scalar>(); return none ? Cost(0, 0) : Cost(e.squaredNorm(), p.m); });
  else if constexpr (F == HESS) return go([&](const auto &xx, auto &g, auto &H) { const VecD v = flat(xx); constexpr bool D = !traits::is_nullptr_v<decltype(g)>; note(v, D); const VecD e = p.r(v); if constexpr (D) { using S = typename std::decay_t<decltype(g)>::Scalar; const MatD J = p.J(v); g += (J.transpose() * e).eval().template cast<S>(); H += (J.transpose() * J).eval().template cast<S>(); } return none ? Cost(0, 0) : Cost(e.squaredNorm(), p.m); });
  else return go([&](const auto &xx, auto &g, SparseMat &H) { const VecD v = flat(xx); constexpr bool D = !traits::is_nullptr_v<decltype(g)>; note(v, D); const VecD e = p.r(v); if constexpr (D) { const MatD J = p.J(v); g += J.transpose() * e; H = MatD(J.transpose() * J).sparseView(); } return none ? Cost(0, 0) : Cost(e.squaredNorm(), p.m); });
}
template <Form F> constexpr bool supported(int solver) { if (solver == 0 || solver == 1) return F != GRAD; if (solver == 2) return F == AUTO_SCALAR || F == NUMERIC_SCALAR || F == GRAD; return false; }
template <typename X> constexpr bool Opt_dyn() { return traits::params_trait<X>::Dims == Dynamic; }
template <typename X> struct resizer { static void to(X &, int) {} };
template <> struct resizer<VecX> { static void to(VecX &x, int n) { x.resize(n); x.setZero(); } };
template <> struct resizer<std::vector<double>> { static void to(std::vector<double> &x, int n) { x.assign(n, 0.0); } };
template <> struct resizer<std::vector<VecX>> { static void to(std::vector<VecX> &x, int n) { x.clear(); while (n > 0) { const int k = std::min(n, 2); x.emplace_back(VecX::Zero(k)); n -= k; } } };
template <> struct resizer<Dyn<double>> { static void to(Dyn<double> &x, int n) { x.k.assign(n, 0.0); } };
template <Form F, typename X> void request(vh::Case &c, int n, const char *type) {
  const int kd = c.rng.range(0, 3), solver = kd == 3 ? c.rng.pick(std::vector<int>{3, 4, 7, 99, -1}) : kd; const Scen s = scen(c.rng, n, false); Options o = rand_opts(c.rng, std::min(std::max(solver, 0), 2)); o.solver_type = solver == 0 ? Options::GaussNewton : solver == 1 ? Options::LevenbergMarquardt : solver == 2 ? Options::GradientDescent : (Options::Solver)solver; if (o.max_consec_failures == 0) o.max_consec_failures = 3; if (solver == 1) o.lm.damping_init = (float)c.rng.uni(0.2, 3); o.hessian.check_min_H_diag = 0;
  if (c.rng.coin(0.3)) { o.log.enable = true; } const bool empty = Opt_dyn<X>() && c.rng.coin(0.1), none = !empty && (F == AUTO || F == GRAD || F == HESS || F == SPARSE) && c.rng.coin(0.12);
  X x{}; resizer<X>::to(x, empty ? 0 : n); if (!empty) assign(x, s.x0); const VecD before = flat(x); Rec r; std::string threw; bool invalid = false, other = false; const std::string what = cat(form_name[F], " ", type, " solver ", solver, empty ? " empty" : "", none ? " no-residuals" : "", " ", s.str()); c.label(what);
  { Capture cap; try { with<F, X>(s.p, r, none, [&](const auto &f) { r.out = Optimize(x, f, o); return 0; }); } catch (const std::invalid_argument &e) { invalid = true; threw = e.what(); } catch (const std::exception &e) { other = true; threw = e.what(); } }
  r.x = flat(x); auto det = [&] { return cat(what, " | ", threw, " ", show(r)); }; c.distinct(cat(form_name[F], type, solver, (int)r.out.stop_reason, empty, none, r.out.num_iters));
  if (!c.check(!other, "other-exception", det)) return;
  if (!supported<F>(solver)) { c.check(invalid, "unsupported-accepted", det); c.check(r.pts.empty(), "evaluated-before-refusal", det); c.check(bits(before, r.x), "refusal-changed-x", det); c.check(!invalid || !threw.empty(), "refusal-without-message", det); c.event("refusals"); return; }
  if (!c.check(!invalid, "supported-refused", det)) return;
  if (empty || none) { c.check(r.out.stop_reason == kSkipped && !r.out.Succeeded() && !r.out.Converged(), empty ? "empty-parameters-not-skipped" : "no-residuals-not-skipped", det); c.check(bits(before, r.x), "skipped-changed-x", det); c.check(r.out.errs.empty(), "skipped-has-costs", det); c.event(empty ? "empty-parameters" : "no-residuals"); return; }
  c.check(r.out.num_diff_used == (F == NUMERIC || F == NUMERIC_SCALAR), "num-diff-flag-wrong", det); c.event("accepted-requests");
  // the very same run through the optimizer class of the requested solver
  Rec q; X y{}; resizer<X>::to(y, n); assign(y, s.x0); { Capture cap; constexpr Index D = traits::params_trait<X>::Dims; using Sx = std::conditional_t<std::is_same_v<X, float>, float, double>; using HT = std::conditional_t<F == SPARSE, SparseMat, Matrix<Sx, D, D>>;
    with<F, X>(s.p, q, none, [&](const auto &f) { if constexpr (F == GRAD) { gd::Optimizer<Vector<Sx, D>> k(o); q.out = k(y, f); } else if constexpr (F == AUTO_SCALAR || F == NUMERIC_SCALAR) { if (solver == 2) { gd::Optimizer<Vector<Sx, D>> k(o); q.out = k(y, f); } else if (solver == 0) { gn::Optimizer<HT> k(o); q.out = k(y, f); } else { lm::Optimizer<HT> k(o); q.out = k(y, f); } } else { if (solver == 0) { gn::Optimizer<HT> k(o); q.out = k(y, f); } else { lm::Optimizer<HT> k(o); q.out = k(y, f); } } return 0; }); }
  q.x = flat(y); const char *d = differs(r, q); c.check(!d, "differs-from-requested-solver", [&] { return cat(d, " ", det(), " | ", show(q)); });
  // and its first step is the one of that solver
  if constexpr (F == GRAD || F == HESS || F == SPARSE || F == AUTO) if (r.pts.size() >= 2 && r.out.errs.size() >= 1 && !std::is_same_v<X, float>) {
    const VecD dx = r.pts[1] - r.pts[0]; const MatD J = s.p.J(r.pts[0]); const MatD H = J.transpose() * J; VecD g = J.transpose() * s.p.r(r.pts[0]); if (o.grad_clipping > 0) for (auto &e : g) e = std::clamp<double>(e, -o.grad_clipping, o.grad_clipping); VecD want; if (solver == 2) want = -(double)o.gd.lr * g; else { MatD A = H; if (solver == 1) A.diagonal() *= 1 + (double)o.lm.damping_init; want = -A.ldlt().solve(g); }
    Eigen::JacobiSVD<MatD> sv(J); const double cond = sv.singularValues()(0) / sv.singularValues()(s.p.n - 1); if (cond < 1e3) { c.check((dx - want).norm() <= 1e-7 * (want.norm() + 1e-6 * before.norm()), "first-step-of-another-solver", [&] { return cat(vh::mat(dx), " expected ", vh::mat(want), " ", det()); }); c.event("first-steps"); }
  }
}
}  // namespace
#if VH_PART == 0 || VH_PART == 1
VH_SUITE(dispatch_auto, 2500, 40000) { switch (c.index % 4) { case 0: request<AUTO, Vec3>(c, 3, "Vec3"); break; case 1: request<AUTO, VecX>(c, c.rng.range(1, 7), "VecX"); break; case 2: request<AUTO, std::vector<double>>(c, c.rng.range(1, 7), "vector"); break; default: request<AUTO, double>(c, 1, "double"); } }
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(dispatch_scalar, 2500, 40000) { switch (c.index % 4) { case 0: request<AUTO_SCALAR, Vec3>(c, 3, "Vec3"); break; case 1: request<AUTO_SCALAR, VecX>(c, c.rng.range(1, 7), "VecX"); break; case 2: request<AUTO_SCALAR, Six<double>>(c, 6, "user-defined"); break; default: request<AUTO_SCALAR, double>(c, 1, "double"); } }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(dispatch_numeric, 2500, 40000) { switch (c.index % 4) { case 0: request<NUMERIC, Vec3>(c, 3, "Vec3"); break; case 1: request<NUMERIC, VecX>(c, c.rng.range(1, 7), "VecX"); break; case 2: request<NUMERIC_SCALAR, Vec3>(c, 3, "Vec3"); break; default: request<NUMERIC_SCALAR, VecX>(c, c.rng.range(1, 7), "VecX"); } }
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(dispatch_manual, 4000, 60000) { switch (c.index % 7) { case 0: request<GRAD, Vec3>(c, 3, "Vec3"); break; case 1: request<GRAD, VecX>(c, c.rng.range(1, 7), "VecX"); break; case 2: request<GRAD, std::vector<double>>(c, c.rng.range(1, 7), "vector"); break; case 3: request<HESS, Vec3>(c, 3, "Vec3"); break; case 4: request<HESS, VecX>(c, c.rng.range(1, 7), "VecX"); break; case 5: request<HESS, std::vector<VecX>>(c, c.rng.range(1, 7), "nested"); break; default: request<HESS, double>(c, 1, "double"); } }
#endif
#if VH_PART == 0 || VH_PART == 5
VH_SUITE(dispatch_manual2, 4000, 60000) { switch (c.index % 4) { case 0: request<SPARSE, VecX>(c, c.rng.range(1, 7), "VecX"); break; case 1: request<SPARSE, std::vector<VecX>>(c, c.rng.range(1, 7), "nested"); break; case 2: request<HESS, Dyn<double>>(c, c.rng.range(1, 7), "user-dynamic"); break; default: request<HESS, std::pair<Vec2, Vec4>>(c, 6, "pair"); } }
#endif
