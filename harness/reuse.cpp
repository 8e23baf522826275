// One optimizer or solver object used for many runs (compile with -DVH_PART=k).
#include "scen.h"
#include "compat.h"
#ifndef VH_PART
#define VH_PART 0
#endif
using namespace sc;
namespace {
template <typename HT> struct dims_of { static constexpr int value = HT::RowsAtCompileTime; };
template <typename S, int M, typename I> struct dims_of<Eigen::SparseMatrix<S, M, I>> { static constexpr int value = Dynamic; };
// runs the scenario through a random parameter type that fits the optimizer
template <typename Opt, typename G> Rec any(Opt &o, const Scen &s, int type) {
  using S = typename Opt::Scalar;
  if constexpr (Opt::Dims == Dynamic) switch (type) {
    case 0: return run(o, s, Vector<S, Dynamic>(Vector<S, Dynamic>::Zero(s.p.n)));
    case 1: return run(o, s, std::vector<S>(s.p.n));
    default: { std::vector<Vector<S, Dynamic>> x; int left = s.p.n, k = 1; while (left > 0) { const int b = std::min(left, k++); x.emplace_back(Vector<S, Dynamic>::Zero(b)); left -= b; } return run(o, s, x); } }
  else switch (type) { case 0: return run(o, s, Vector<S, Opt::Dims>(Vector<S, Opt::Dims>::Zero())); default: return run(o, s, std::array<S, (size_t)Opt::Dims>{}); }
}
// the first LM step of a reused object must solve the system at its own start for some admissible damping
template <typename S> void first_step(vh::Case &c, const Options &o, const Scen &s, const Rec &r, const char *what, const std::string &desc) {
  if (r.pts.size() < 2 || r.out.deltas2.empty()) return; if (s.fault(0) == SINGULAR || s.fault(0) == INDEFINITE || s.fault(0) == NANGRAD) return; const VecD dx = r.pts[1] - r.pts[0]; if (!(dx.squaredNorm() > 0.5 * r.out.deltas2[0]) || std::is_same_v<S, float>) return;
  const MatD J = s.p.J(r.pts[0]); const MatD H = J.transpose() * J; VecD g = J.transpose() * s.p.r(r.pts[0]); if (o.grad_clipping > 0) for (auto &e : g) e = std::clamp<double>(e, -o.grad_clipping, o.grad_clipping);
  const VecD D = H.diagonal().cwiseProduct(dx), q = H * dx + g; const double l = -D.dot(q) / D.squaredNorm(); const double err = (q + l * D).norm(), scale = g.norm() + H.norm() * dx.norm() + std::abs(l) * D.norm();
  const double lo = o.lm.damping_init == 0 ? 0 : o.lm.damping_range[0], hi = o.lm.damping_init == 0 ? 0 : o.lm.damping_range[1]; const double seen = 1e-9 * scale + 64 * 2.3e-16 * r.pts[0].norm() * H.norm() * (1 + std::abs(l)), noise = seen / D.norm();
  c.check(err <= seen, "first-step-of-another-system", [&] { return cat(what, " ", desc, " remainder ", err, " of ", scale); }); c.check(l >= lo - noise - 1e-6 * lo && l <= hi * (1 + 1e-6) + noise, "first-damping-out-of-range", [&] { return cat(what, " ", desc, " lambda ", l); }); c.event("first-steps");
}
template <typename Opt, typename G> void reuse(vh::Case &c, int solver, const char *what) {
  Options o = rand_opts(c.rng, solver); std::string desc = cat(solver == 0 ? "GN" : solver == 1 ? "LM" : "GD"); Opt obj(o); const int len = c.rng.range(1, 6); bool clean = true;
  auto pick = [&](bool th) { return scen(c.rng, Opt::Dims == Dynamic ? c.rng.range(1, 9) : (int)Opt::Dims, th); };
  for (int i = 0; i <= len; ++i) {
    const Scen s = pick(true); const int type = c.rng.range(0, 2); if (c.rng.coin(i == len ? 0.8 : 0.4)) { if (c.rng.coin()) obj.reset(); else obj.solver().reset(); clean = true; desc += " reset"; }
    desc += cat(" [", s.str(), "type=", type, "]"); c.label(cat(what, " ", desc)); const Rec a = any<Opt, G>(obj, s, type); Opt fresh(o); const Rec b = any<Opt, G>(fresh, s, type);
    if (clean || solver != 1) { const char *d = differs(a, b); c.check(!d, cat(clean ? "after-reset-" : "reused-", d ? d : "").c_str(), [&] { return cat(what, " ", desc, " | reused ", show(a), " | new ", show(b)); }); c.event(clean ? "after-reset" : "without-reset"); }
    else {
      c.check(!a.pts.empty() && bits(a.pts[0], b.pts[0]) && a.deriv[0], "first-request-wrong", [&] { return cat(what, " ", desc, " | ", show(a)); });
      if (a.threw.empty() && b.threw.empty()) c.check(a.out.errs.empty() == b.out.errs.empty() && (a.out.errs.empty() || feq(a.out.errs[0], b.out.errs[0])), "first-cost-wrong", [&] { return cat(what, " ", desc, " | reused ", show(a), " | new ", show(b)); });
      first_step<typename Opt::Scalar>(c, o, s, a, what, desc); c.event("without-reset");
    }
    c.distinct(cat(what, solver, (int)a.out.stop_reason, a.out.num_iters, i, clean, a.threw)); if (!a.threw.empty()) c.event("runs-that-threw"); c.event(cat("stop:", (int)a.out.stop_reason).c_str()); clean = false;
  }
  c.event(what);
}
// the solver classes driven by hand: build, solve, accept, reject, reset
template <typename Solver, typename X> void by_hand(vh::Case &c, int solver, const char *what) {
  using S = typename Solver::Scalar; Options o = rand_opts(c.rng, solver); const Scen warm = scen(c.rng, Solver::Dims == Dynamic ? c.rng.range(1, 8) : (int)Solver::Dims, false), s = scen(c.rng, Solver::Dims == Dynamic ? c.rng.range(1, 8) : (int)Solver::Dims, false);
  struct Log { std::vector<VecD> dx; std::vector<double> cost; std::vector<int> ok; Rec r; };
  std::vector<int> plan; for (int i = c.rng.range(1, 8); i--;) plan.push_back(c.rng.range(0, 6)); std::vector<int> plan2; for (int i = c.rng.range(1, 8); i--;) plan2.push_back(c.rng.range(0, 6));
  auto drive = [&](Solver &v, const Scen &q, const std::vector<int> &pl) { Log l; X x; if constexpr (Solver::Dims == Dynamic) x.resize(q.p.n); assign(x, q.x0); auto f = function<S, !Solver::FirstOrder>(q, l.r); bool built = false; for (int a : pl) { if (a <= 1) { const bool b = v.Build(x, f); built = built || b; l.ok.push_back(b); if (b) { const auto d = v.Solve(); l.ok.push_back(d.has_value()); if (d) { l.dx.push_back(d->template cast<double>()); if (d->allFinite() && a == 1) x += *d; } } l.cost.push_back(v.cost().cost); } else if (a == 2) compat::call_if(v, [](auto &q) -> decltype(q.GoodStep(0.3f)) { return q.GoodStep(0.3f); }); else if (a == 3) compat::call_if(v, [](auto &q) -> decltype(q.BadStep()) { return q.BadStep(); }); else if (a == 4) v.Rebuild(true); else if (a == 6) { if (built) v.Rebuild(false); } else compat::call_if(v, [](auto &q) -> decltype(q.FailedStep()) { return q.FailedStep(); }); } return l; };
  Solver used(o), fresh(o); drive(used, warm, plan2); used.reset(); const Log a = drive(used, s, plan), b = drive(fresh, s, plan); bool eq = a.ok == b.ok && a.dx.size() == b.dx.size() && vbits(a.cost, b.cost) && a.r.deriv == b.r.deriv; for (size_t i = 0; eq && i < a.dx.size(); ++i) eq = bits(a.dx[i], b.dx[i]);
  c.check(eq, "solver-after-reset", [&] { return cat(what, " warm ", warm.str(), " then ", s.str()); }); c.event("solvers-by-hand"); c.distinct(cat(what, solver, plan.size(), plan2.size(), a.dx.size()));
}
}  // namespace
#if VH_PART == 0 || VH_PART == 1
VH_SUITE(reuse_dynamic, 4000, 60000) { if (c.index % 2) reuse<LMo<MatX>, VecX>(c, 1, "LM-MatX"); else reuse<GNo<MatX>, VecX>(c, 0, "GN-MatX"); }
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(reuse_sparse, 3000, 50000) { if (c.index % 2) reuse<LMo<SparseMat>, VecX>(c, 1, "LM-sparse"); else reuse<GNo<SparseMat>, VecX>(c, 0, "GN-sparse"); }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(reuse_fixed, 3000, 50000) { switch (c.index % 3) { case 0: reuse<LMo<Mat3>, Vec3>(c, 1, "LM-Mat3"); break; case 1: reuse<GNo<Mat3>, Vec3>(c, 0, "GN-Mat3"); break; default: reuse<LMo<MatXf>, VecXf>(c, 1, "LM-float"); } }
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(reuse_descent, 3000, 50000) { if (c.index % 2) reuse<GDo<VecX>, VecX>(c, 2, "GD-VecX"); else reuse<GDo<Vec3>, Vec3>(c, 2, "GD-Vec3"); }
VH_SUITE(reuse_solver, 6000, 80000) { switch (c.index % 5) { case 0: by_hand<solvers::SolverLM<MatX>, VecX>(c, 1, "solver-LM"); break; case 1: by_hand<solvers::SolverGN<MatX>, VecX>(c, 0, "solver-GN"); break; case 2: by_hand<solvers::SolverLM<SparseMat>, VecX>(c, 1, "solver-LM-sparse"); break; case 3: by_hand<solvers::SolverLM<Mat3>, Vec3>(c, 1, "solver-LM-3"); break; default: by_hand<solvers::SolverGD<VecX>, VecX>(c, 2, "solver-GD"); } }
#endif
