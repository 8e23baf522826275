// Extreme sizes, values and function behaviour; only the sanitizers judge (compile with -DVH_PART=k).
#include "scen.h"
#include <sstream>
#ifndef VH_PART
#define VH_PART 0
#endif
using namespace sc;
namespace {
double wild(vh::Rng &g) { switch (g.range(0, 13)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 1e308; case 4: return -1e308; case 5: return 5e-324; case 6: return 0; case 7: return -0.0; case 8: return 1e155; case 9: return 1e-160; default: return g.normal() * 3; } }
int extent(vh::Rng &g) { switch (g.range(0, 9)) { case 0: return 1; case 1: return g.range(60, 140); case 2: return g.range(15, 33); default: return g.range(1, 9); } }
Options hostile_opts(vh::Rng &g, int solver) { Options o = rand_opts(g, solver); if (g.coin(0.3)) { o.lm.damping_init = (float)g.logu(1e-30, 1e30); o.lm.bad_factor = (float)g.logu(1, 1e6); o.lm.good_factor = (float)g.logu(1e-6, 1); } if (g.coin(0.2)) { o.gd.lr = (float)wild(g); o.grad_clipping = (float)std::abs(wild(g)); } if (g.coin(0.2)) o.hessian.check_min_H_diag = (float)std::abs(wild(g)); if (g.coin(0.2)) { o.min_error = (float)wild(g); o.min_rerr_dec = (float)wild(g); o.min_step_norm2 = (float)wild(g); o.min_grad_norm2 = (float)wild(g); } o.hessian.save_last = g.coin(0.8); if (g.coin(0.5)) rand_log(g, o); if (g.coin(0.2)) o.stop_callback = [](double, double, double) { return false; }; if (g.coin(0.2)) o.stop_callback2 = [](float, const VecXf &d, const VecXf &gr) { return d.size() != gr.size(); }; o.max_consec_failures = g.coin(0.1) ? 0 : g.range(1, 6); return o; }
// everything a caller may do with a result
void inspect(vh::Case &c, const Output &out, const Options &o) { std::ostringstream os; os << StopReasonDescription(out) << StopReasonDescription(out, o) << out.final_cost << out.final_cost.toString("e", true) << out.Succeeded() << out.Converged();
  const bool re = c.rng.coin(); if (auto v = out.Covariance(re)) { os << v->sum(); c.event("covariances"); } if (auto v = out.template Covariance<SparseMat>(re)) { os << v->nonZeros(); c.event("covariances"); } volatile size_t n = os.str().size(); (void)n; c.event(cat("stop:", (int)out.stop_reason).c_str()); c.event("runs"); }
struct Plan { int m; std::vector<int> act; std::vector<double> val; int empty_at; };   // per residual: 0 normal, 1 constant, 2 times wild, 3 plus wild
Plan plan(vh::Rng &g) { Plan p; p.m = extent(g); for (int i = 0; i < p.m; ++i) { p.act.push_back(g.coin(0.7) ? 0 : g.range(1, 3)); p.val.push_back(wild(g)); } p.empty_at = g.coin(0.15) ? g.range(0, 3) : -1; return p; }
template <typename T, typename In> T residual(const Plan &p, const In &in, int i) { using S = double; if (in.empty() || p.act[i] == 1) return T((S)p.val[i]); const T &u = in[(size_t)i % in.size()]; const T &w = in[(size_t)(i * 7 + 3) % in.size()]; T r = u * w - (S)0.5 * u + (S)1.0; if (p.act[i] == 2) r = r * (S)p.val[i]; if (p.act[i] == 3) r = r + (S)p.val[i]; return r; }
template <int FORM, typename X> void aut(vh::Case &c, X x, const char *what) {
  const Plan p = plan(c.rng); Options o = hostile_opts(c.rng, c.rng.range(0, 1)); const bool poison = c.rng.coin(0.25); vis(x, [&](auto &e) { e = (std::decay_t<decltype(e)>)(poison && c.rng.coin(0.3) ? wild(c.rng) : c.rng.normal()); }); int evals = 0;
  auto f = [&](const auto &xx) { const auto in = scalars(xx); using T = typename std::decay_t<decltype(in)>::value_type; const bool none = evals++ == p.empty_at; if (evals > 400) throw TooMany{};
    if constexpr (FORM == 0) return residual<T>(p, in, 0);
    else if constexpr (FORM == 1) { Vector<T, 3> r; for (int i = 0; i < 3; ++i) r[i] = residual<T>(p, in, i % p.m); return r; }
    else if constexpr (FORM == 2) { Vector<T, Dynamic> r(none ? 0 : p.m); for (int i = 0; i < r.size(); ++i) r[i] = residual<T>(p, in, i); return r; }
    else { Matrix<T, Dynamic, Dynamic> r(none ? 0 : p.m, 2); for (int i = 0; i < r.size(); ++i) r.data()[i] = residual<T>(p, in, i % p.m); return r; } };
  c.label(cat(what, " form ", FORM, " m=", p.m)); Capture cap; try { const Output out = Optimize(x, f, o); inspect(c, out, o); c.distinct(cat(what, FORM, (int)out.stop_reason, out.num_iters, p.m > 40)); } catch (const TooMany &) { c.event("stopped"); } catch (const std::exception &) { c.event("refused"); } c.event(what); }
// a function that leaves the derivatives in any state
template <bool HESS, typename Opt, typename X> void man(vh::Case &c, int solver, X x, const char *what) {
  using S = typename Opt::Scalar; Options o = hostile_opts(c.rng, solver); Opt k(o); for (int round = c.rng.range(1, 3); round--;) { X y = x; if constexpr (std::is_same_v<X, VecX> || std::is_same_v<X, std::vector<double>>) y.resize(c.rng.coin(0.05) ? 0 : extent(c.rng)); vis(y, [&](auto &e) { e = (std::decay_t<decltype(e)>)(c.rng.coin(0.05) ? wild(c.rng) : c.rng.normal()); }); int evals = 0; vh::Rng g(c.rng.next());
    auto body = [&](const auto &xx, auto *gr, auto *H) -> Cost { if (++evals > 400) throw TooMany{}; const VecD v = flat(xx); const long n = v.size();
      if constexpr (!std::is_null_pointer_v<std::decay_t<decltype(*gr)>>) { if (g.coin(0.9)) for (long i = 0; i < n; ++i) (*gr)[i] += (S)(g.coin(0.04) ? wild(g) : v[i]);
        if constexpr (HESS) { const int how = g.range(0, 9); if constexpr (traits::is_sparse_matrix_v<std::decay_t<decltype(*H)>>) { if (how == 0) {} else if (how == 1) H->setIdentity(); else if (how == 2) { for (long i = 0; i < n; ++i) { H->coeffRef(i, i) += (S)(1 + g.uni()); if (i > 0 && g.coin()) H->coeffRef(i - 1, i) += (S)0.1; } } else { std::vector<Eigen::Triplet<S>> t; for (long i = 0; i < n; ++i) { if (how == 4 && g.coin(0.3)) continue; t.emplace_back(i, i, (S)(g.coin(0.03) ? wild(g) : 2 + g.uni())); if (how == 3) t.emplace_back(i, i, (S)1); if (how == 5) t.emplace_back(i, i, (S)0); if (i && g.coin(0.4)) { t.emplace_back(i, i - 1, (S)0.2); t.emplace_back(i - 1, i, (S)0.2); } } H->setFromTriplets(t.begin(), t.end()); } }
          else { if (how == 0) {} else if (how == 1) H->setZero(); else if (how == 2) H->setConstant((S)wild(g)); else if (how == 3) for (long i = 0; i < n; ++i) (*H)(i, g.range(0, (int)n - 1)) += (S)wild(g); else for (long i = 0; i < n; ++i) (*H)(i, i) += (S)(1 + g.uni()); } } }
      const double cost = g.coin(0.06) ? wild(g) : v.squaredNorm() * g.uni(0.5, 1.2); const int m = g.coin(0.03) ? 0 : (int)n; Cost r(cost, m); if (g.coin(0.1)) r.log_str = "note"; if (g.coin(0.1)) r.inlier_ratio = (float)g.uni(); return r; };
    c.label(cat(what, " solver ", solver)); Capture cap; try { Output out; if constexpr (HESS) out = k(y, [&](const auto &xx, auto &gr, auto &H) -> Cost { return body(xx, &gr, &H); }, c.rng.coin(0.3) ? c.rng.range(0, 8) : -1); else out = k(y, [&](const auto &xx, auto &gr) -> Cost { return body(xx, &gr, (int *)nullptr); }, -1); inspect(c, out, o); c.distinct(cat(what, solver, (int)out.stop_reason, out.num_iters)); } catch (const TooMany &) { c.event("stopped"); } catch (const std::exception &e) { c.event("refused"); }
    if (c.rng.coin()) k.reset(); } c.event(what); }
using V = std::vector<double>; using A4 = std::array<double, 4>; using VX = std::vector<VecX>; using V2 = std::vector<Vec2>; using P2X = std::pair<Vec2, VecX>; using P24 = std::pair<Vec2, Vec4>;
VX blocks(vh::Rng &g) { VX x; for (int k = g.range(1, 8); k--;) x.emplace_back(VecX::Zero(g.range(1, 9))); return x; }
}  // namespace
#if VH_PART == 0 || VH_PART == 1
VH_SUITE(hostile_auto1, 1200, 30000) { const int n = extent(c.rng); switch (c.index % 5) { case 0: aut<2>(c, VecX(VecX::Zero(n)), "VecX"); break; case 1: aut<2>(c, V(n), "vector"); break; case 2: aut<0>(c, double(), "double"); break; case 3: aut<3>(c, VecX(VecX::Zero(n)), "VecX-matrix"); break; default: aut<2>(c, Vec3(), "Vec3"); } }
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(hostile_auto2, 1200, 30000) { switch (c.index % 5) { case 0: aut<2>(c, P24(), "pair"); break; case 1: aut<3>(c, Vec6(), "Vec6-matrix"); break; case 2: aut<2>(c, Six<double>(), "user-defined"); break; case 3: aut<1>(c, A4(), "array"); break; default: { Dyn<double> d; d.k.resize(extent(c.rng)); aut<2>(c, d, "user-defined-dynamic"); } } }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(hostile_dense, 3000, 60000) { switch (c.index % 5) { case 0: man<true, LMo<MatX>>(c, 1, VecX(VecX::Zero(3)), "LM-VecX"); break; case 1: man<true, GNo<MatX>>(c, 0, V(3), "GN-vector"); break; case 2: man<true, LMo<Mat3>>(c, 1, Vec3(), "LM-Vec3"); break; case 3: man<true, GNo<Mat1>>(c, 0, double(), "GN-double"); break; default: man<true, LMo<MatXf>>(c, 1, VecXf(VecXf::Zero(4)), "LM-float"); } }
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(hostile_sparse, 2500, 60000) { switch (c.index % 5) { case 0: man<true, LMo<SparseMat>>(c, 1, VecX(VecX::Zero(3)), "LM-sparse"); break; case 1: man<true, GNo<SparseMat>>(c, 0, VecX(VecX::Zero(3)), "GN-sparse"); break; case 2: man<true, LMo<MatX>>(c, 1, blocks(c.rng), "LM-nested"); break; case 3: man<false, GDo<VecX>>(c, 2, VecX(VecX::Zero(2)), "GD-VecX"); break; default: man<true, GNo<Mat6>>(c, 0, P24(), "GN-pair"); } }
#endif
