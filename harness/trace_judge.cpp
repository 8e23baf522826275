// The oracle over recorded runs, and the user functions the runs are driven by.
#include "trace_run.h"
#include "compat.h"
#include <Eigen/Eigenvalues>
#include <Eigen/QR>

namespace tr {
struct Sink {                      // routes verdicts of one property to the case
  vh::Case &c; int prop; const Run &run;
  bool want(int p) const { return prop == 0 || prop == p; }
  template <typename F> bool ok(int p, bool cond, const char *key, F &&det) {
    if (!cond && want(p)) c.viol(std::string(key), vh::cat(det(), " | ", run.desc));
    return cond;
  }
};

inline double scaled(const Options &o, double cost, int n) {
  if (!o.cost.use_squared_norm) cost = std::sqrt(cost);
  if (o.cost.downscale_by_2) cost *= 0.5;
  if (o.cost.normalize && n > 0) cost /= n;
  return cost;
}
inline VecD clipped(const Options &o, VecD g) {
  const double m = o.grad_clipping;
  if (m != 0) for (long i = 0; i < g.size(); ++i) g[i] = std::min(std::max(g[i], -m), m);
  return g;
}
// |dx(lambda)|^2 of the damped system, by eigenvalue-free LU in double
inline VecD damped_step(const MatD &H, const VecD &g, double lam) {
  MatD A = H; A.diagonal() *= (1.0 + lam); return A.fullPivLu().solve(-g);
}
// Part of [lo,hi] holding dampings whose step has squared norm d2 (the norm need not be monotonic in the
// damping). Only cells of a logarithmic grid whose end values exclude d2 are ruled out. False if none is left.
inline bool lambdas_from_norm(const MatD &H, const VecD &g, double d2, double rel, double &lo, double &hi) {
  auto n2 = [&](double l) { return damped_step(H, g, l).squaredNorm(); };
  const double tol = rel * d2 + 1e-300;
  if (hi <= lo * (1 + 1e-12)) { const double v = n2(lo); return std::abs(v - d2) <= tol + rel * v; }
  const int N = 48; const double a = std::max(lo, 1e-13), b = std::max(hi, a * (1 + 1e-9)), q = std::pow(b / a, 1.0 / N);
  double nlo = INFINITY, nhi = -INFINITY; std::vector<double> L(N + 1), V(N + 1);
  for (int i = 0; i <= N; ++i) { L[i] = i == N ? b : i ? L[i - 1] * q : a; V[i] = n2(L[i]); }
  auto bend = [&](int i) { return i < 1 || i >= N ? 0.0 : std::abs(V[i - 1] - 2 * V[i] + V[i + 1]); };
  for (int i = 1; i <= N; ++i) {
    const double v = V[i], pv = V[i - 1], slack = bend(i) + bend(i - 1) + 0.02 * std::abs(v - pv) + tol + rel * std::max(v, pv);
    if (d2 >= std::min(v, pv) - slack && d2 <= std::max(v, pv) + slack) { nlo = std::min(nlo, i == 1 ? lo : L[i - 1]); nhi = std::max(nhi, L[i]); }
  }
  if (nlo > nhi) return false;
  lo = nlo; hi = nhi; return true;
}

// Judges a finished run.
void judge(vh::Case &c, int prop, const Run &R) {
  Sink s{c, prop, R};
  const Output &out = R.out; const Options &o = R.opt;
  const double BIG = std::numeric_limits<double>::max();
  const bool lm = R.solver == LM, gd = R.solver == GD;
  const bool ldlt = o.hessian.use_ldlt || R.sparse;
  const int K = o.max_consec_failures;
  const double xt = R.is_float ? 2e-4 : 1e-8;       // tolerance on points (relative to scale)
  const int asked = R.budget >= 0 ? R.budget : (int)o.max_iters;
  const int max_it = asked + 1 + (o.check_final_cost ? 1 : 0);
  const int max_tries = K > 0 ? K : 300;            // evaluations allowed within one iteration

  // ---------------- C02: bounded work
  if (R.aborted) { s.ok(2, false, "evaluation-budget-exceeded", [&] { return vh::cat("user function called ", R.ev.size(), " times, budget ", max_it, " iterations"); }); throw vh::Inconclusive("run cut by the evaluation guard"); }
  const long n_it = (long)out.num_iters;
  s.ok(2, n_it <= max_it, "too-many-iterations", [&] { return vh::cat("num_iters=", n_it, " allowed ", max_it); });
  s.ok(2, (long)R.ev.size() <= (long)max_it * (long)(max_tries), "too-many-evaluations", [&] { return vh::cat(R.ev.size(), " evaluations for ", max_it, " iterations"); });
  c.event("evaluations", R.ev.size());

  // ---------------- list shapes
  s.ok(3, out.errs.size() == out.deltas2.size() && out.errs.size() == out.successes.size(), "list-lengths-differ",
       [&] { return vh::cat(out.errs.size(), " ", out.deltas2.size(), " ", out.successes.size()); });
  if (out.errs.size() != out.deltas2.size() || out.errs.size() != out.successes.size()) return;

  // ---------------- replay of the recorded history
  size_t pos = 0; long iter = 0; size_t li = 0;
  double best = BIG; int best_n = 0; VecD best_x = R.x0; bool have_best = false;
  double first_best_x_scale = 1 + R.x0.norm();
  (void)first_best_x_scale;
  long failures = 0, consec = 0; double rerr = BIG;
  StopReason expect = StopReason::kNone; bool ambiguous = false; std::set<int> alt;
  VecD cur_g; MatD cur_H; bool have_sys = false;
  VecD last_g; MatD last_H; bool have_last_H = false;   // last accumulated
  // lambda interval
  double lo = o.lm.damping_init, hi = o.lm.damping_init; const double rmin = o.lm.damping_range[0], rmax = o.lm.damping_range[1];
  const bool damp = lm && o.lm.damping_init != 0;
  std::string ops;                        // damping updates since the last recorded step
  auto lam_good = [&] { if (!damp) return; ops += 'G'; if (o.use_step_quality_approx) { lo = rmin; hi = std::min(rmax, hi * 2.0001); } else { lo = rmin; hi = std::min(rmax, std::max(rmin, hi * (double)o.lm.good_factor)); } };
  auto lam_bad = [&] { if (!damp) return; ops += 'B'; lo = std::max(rmin, std::min(rmax, lo * (double)o.lm.bad_factor)); hi = rmax; };
  bool stopped = false; bool failure_stop = false, nodecr_stop = false;
  VecD last_dx; bool have_dx = false;     // last step computed (if known exactly)
  double last_d2 = -1;                    // squared norm of the last computed step
  double max_step = 0;                    // largest step so far (bounds the rounding of undoing steps)
  size_t ncb = 0, ncb2 = 0;               // callbacks accounted for
  bool base_is_best = true;               // current point is best (re-evaluation) or tentative
  bool unsolved_history = false;
  std::string pattern;
  (void)base_is_best;
  VecD cur_x;
  // bookkeeping for step observation: step of iteration k applies at x_k
  struct Pending { VecD x; VecD g; MatD H; double d2; double lo, hi; bool ok; } pend; pend.ok = false;

  auto check_point = [&](const VecD &x, const char *key) {
    // x must be the start, best, or best + the last computed step
    const double sc = 1 + best_x.norm() + max_step;
    const double d = (x - best_x).norm();
    if (d <= xt * sc) { c.event("points:best"); return true; }
    if (last_d2 >= 0 && std::abs(d - std::sqrt(last_d2)) <= xt * sc) { c.event("points:step"); return true; }
    s.ok(5, false, key, [&] { return vh::cat("point ", vh::mat(x.transpose()), " is neither the best point ", vh::mat(best_x.transpose()), " nor one step (norm ", std::sqrt(std::max(0.0, last_d2)), ") from it, distance ", d); });
    return false;
  };
  // verify that `to` = pend.x + dx with a step of the right equation (C06/C07/C08)
  auto check_step = [&](const VecD &to) {
    if (!pend.ok) return;
    const VecD dx = to - pend.x;
    const double sc = pend.x.norm() + to.norm();
    const double acc = (R.is_float ? 3e-7 : 4e-16) * (sc + 1) * 8;
    if (pend.d2 < 0) return;
    if ((to - best_x).norm() <= xt * (1 + best_x.norm() + max_step)) return;   // a roll-back (or no move)
    // is it a move by the computed step at all?
    if (std::abs(dx.norm() - std::sqrt(pend.d2)) > xt * (1 + sc)) return;
    if (dx.norm() < 1e3 * acc) return;   // movement lost in rounding
    if (gd) {
      const VecD want = -(double)o.gd.lr * pend.g;
      s.ok(8, (dx - want).norm() <= acc + (R.is_float ? 1e-5 : 1e-7) * want.norm(), "wrong-step", [&] { return vh::cat("dx ", vh::mat(dx.transpose()), " expected ", vh::mat(want.transpose())); });
      c.event("steps-verified"); return;
    }
    Eigen::SelfAdjointEigenSolver<MatD> es(pend.H); const double emax = es.eigenvalues().cwiseAbs().maxCoeff(), emin = es.eigenvalues().cwiseAbs().minCoeff();
    const double cond = emax / emin;
    const double tol_solve = (R.is_float ? 1e-5 : 1e-11);
    if (cond > (R.is_float ? 1e3 : 1e7)) return;
    if (R.solver == GN || !damp) {
      const VecD res = pend.H * dx + pend.g;
      const double tol = emax * acc + tol_solve * (pend.g.norm() + emax * dx.norm());
      const int P = R.solver == GN ? 6 : 7;
      const bool onedim_flat = !ldlt && pend.H.rows() == 1 && pend.H(0, 0) <= 0;
      if (!onedim_flat)
        s.ok(P, res.norm() <= tol, P == 6 ? "normal-equations-not-satisfied" : "undamped-step-wrong", [&] { return vh::cat("|H dx + g| = ", res.norm(), " tol ", tol, " dx ", vh::mat(dx.transpose())); });
      c.event("steps-verified"); return;
    }
    // LM: best lambda in the least-squares sense
    const VecD D = pend.H.diagonal().cwiseProduct(dx);
    const VecD r0 = pend.H * dx + pend.g;
    double lam = -D.dot(r0) / D.squaredNorm();
    const VecD res = r0 + lam * D;
    const double tol = emax * (1 + std::abs(lam)) * acc + tol_solve * (pend.g.norm() + emax * (1 + std::abs(lam)) * dx.norm());
    s.ok(7, res.norm() <= tol, "damped-equations-not-satisfied", [&] { return vh::cat("min over lambda of |(H+l*diag(H))dx+g| = ", res.norm(), " tol ", tol, " l=", lam); });
    c.event("steps-verified");
    // the damping itself, when it is not lost in rounding
    const double lt = (tol + acc * emax) / std::max(1e-300, D.norm()) + (R.is_float ? 1e-3 : 1e-6) * std::abs(lam);
    const double relt = R.is_float ? 1e-2 : 1e-4;
    s.ok(7, lam >= pend.lo * (1 - relt) - lt && lam <= pend.hi * (1 + relt) + lt, "damping-out-of-bounds",
         [&] { return vh::cat("damping ", lam, " (+-", lt, ") expected in [", pend.lo, ",", pend.hi, "]"); });
    if (lt < relt * lam) {
      c.event("dampings-measured");
      lo = std::min(std::max(lam * (1 - relt), rmin), rmax); hi = std::min(std::max(lam * (1 + relt), rmin), rmax);
      const std::string again = ops; for (char k : again) k == 'G' ? lam_good() : lam_bad();
    }
  };

  for (; iter < n_it && !stopped; ++iter) {
    bool solved = false; int tries = 0; double cst = NAN; int nres = 0; bool resp_nonfinite_step = false, maybe_nonfinite = false;
    while (true) {
      if (pos >= R.ev.size()) {
        // nothing evaluated in this iteration: only legitimate when there is nothing to optimize / out of memory
        if (tries == 0 && (R.x0.size() == 0 || out.stop_reason == StopReason::kOutOfMemory)) return;
        s.ok(2, false, "iteration-without-evaluation", [&] { return vh::cat("iteration ", iter, " of ", n_it, " has no evaluation left (", R.ev.size(), " total, stop ", (int)out.stop_reason, ")"); });
        s.ok(3, false, "iteration-count-wrong", [&] { return vh::cat("num_iters=", n_it, " but the evaluations only cover ", iter, " (stop ", (int)out.stop_reason, ") pattern ", pattern); });
        return;
      }
      const Eval &e = R.ev[pos++]; ++tries;
      // --- C05: where are we?
      if (tries == 1) { if (iter > 0) { check_step(e.x); check_point(e.x, "evaluated-elsewhere"); } else s.ok(5, (e.x - R.x0).norm() == 0, "first-evaluation-not-at-start", [&] { return vh::cat(vh::mat(e.x.transpose())); }); }
      else s.ok(5, (e.x - cur_x).norm() <= xt * (1 + cur_x.norm()), "retry-moved", [&] { return vh::cat("retry at ", vh::mat(e.x.transpose()), " after ", vh::mat(cur_x.transpose())); });
      cur_x = e.x;
      if (e.deriv) { cur_g = clipped(o, e.r.g); cur_H = e.r.H; have_sys = true; last_g = e.r.g; last_H = e.r.H; have_last_H = true; }
      else s.ok(7, have_sys, "no-system-for-cost-only-evaluation", [&] { return "cost-only evaluation before any derivative was requested"; });
      cst = scaled(o, e.r.cost, e.r.nres); nres = e.r.nres;
      pattern += e.r.kind;
      const bool valid = nres > 0 && !(cst == BIG);
      const char sk = have_sys ? 1 : 0; (void)sk;
      bool solvable = valid, unsure = false;
      if (valid && !gd) {
        if (!have_sys) solvable = false;
        else {
          if (o.hessian.check_min_H_diag > 0 && e.deriv && (cur_H.diagonal().cwiseAbs().array() < (double)o.hessian.check_min_H_diag).any()) solvable = false;
          if (!cur_H.allFinite()) unsure = true;
          else if (solvable) {
            Eigen::SelfAdjointEigenSolver<MatD> es(cur_H, Eigen::EigenvaluesOnly);
            const double a = es.eigenvalues().minCoeff(), b = es.eigenvalues().cwiseAbs().maxCoeff();
            if (b < (R.is_float ? 1e-25 : 1e-250)) unsure = true;
            if (!ldlt) { if (es.eigenvalues().cwiseAbs().minCoeff() < (R.is_float ? 1e-5 : 1e-12) * b) unsure = true; }
            else if (a < -1e-3 * b) solvable = false; else if (a < (R.is_float ? 1e-5 : 1e-12) * b) unsure = true;
            if (!solvable && lm && cur_H.diagonal().maxCoeff() > 0) unsure = true;   // damping may repair it
          }
        }
      }
      if (unsure) {
        // Cannot be predicted from outside; learn it from the record: a solved iteration adds a list entry.
        // Any further evaluation at the same point within this iteration means it was not solved.
        ambiguous = true;
        throw vh::Inconclusive("solvability not decidable from the record");
      }
      if (solvable) {
        solved = true;
        const bool fin_g = cur_g.size() == 0 || cur_g.allFinite();
        resp_nonfinite_step = !fin_g;
        if (!fin_g && !gd && !ldlt && cur_H.rows() == 1 && cur_H(0, 0) <= 0)
          throw vh::Inconclusive("flat 1-D system with a non-finite gradient");
        break;
      }
      // failed attempt
      ++failures; ++consec; unsolved_history = true; c.event("unsolvable-attempts");
      if (nres == 0) { expect = StopReason::kSkipped; break; }
      if (!std::isfinite(cst)) { expect = StopReason::kSystemHasNaNOrInf; break; }
      if (K > 0 && consec >= K) { expect = StopReason::kSolverFailed; break; }
      lam_bad();
      if (K == 0) {
        // unlimited: the number of attempts is bounded but not specified; follow the record
        const bool more = pos < R.ev.size() && li >= out.errs.size() && iter + 1 == n_it;
        if (!more) {
          if (li >= out.errs.size() && iter + 1 == n_it) { expect = StopReason::kSolverFailed; break; }
        }
      }
    }
    if (solved && !std::isfinite(cst)) { expect = StopReason::kSystemHasNaNOrInf; solved = false; }
    if (solved && resp_nonfinite_step) { expect = StopReason::kSystemHasNaNOrInf; solved = false; }
    if (solved && li < out.deltas2.size() && !std::isfinite(out.deltas2[li])) { s.ok(4, false, "non-finite-step-kept", [&] { return vh::cat("deltas2[", li, "]=", out.deltas2[li]); }); return; }
    pend.ok = false;
    if (!solved) {
      stopped = true; failure_stop = true;
      if (li != out.errs.size()) s.ok(3, false, "entry-for-failed-iteration", [&] { return vh::cat("errs has ", out.errs.size(), " entries, expected ", li, " pattern ", pattern); });
      ++iter; break;
    }
    // ---- entries
    if (li >= out.errs.size()) {
      // Either the step overflowed (non-finite, legitimately a failure) or an entry is missing
      if (out.stop_reason == StopReason::kSystemHasNaNOrInf && iter + 1 == n_it) {
        const VecD st = gd ? VecD(-(double)o.gd.lr * cur_g) : damped_step(cur_H, cur_g, 0);
        const double n2 = st.squaredNorm();
        if (!std::isfinite(n2) || n2 > (R.is_float ? 1e37 : 1e300)) { expect = StopReason::kSystemHasNaNOrInf; stopped = failure_stop = true; ++iter; break; }
      }
      s.ok(3, false, "missing-entry", [&] { return vh::cat("iteration ", iter, " cost ", cst, " has no entry; stop ", (int)out.stop_reason, " pattern ", pattern); });
      s.ok(4, out.stop_reason >= 0, "failure-reported-for-solvable-iteration", [&] { return vh::cat("stop ", (int)out.stop_reason, " pattern ", pattern); });
      return;
    }
    s.ok(3, out.errs[li] == cst || vh::close(out.errs[li], cst, 1e-15), "cost-entry-wrong", [&] { return vh::cat("errs[", li, "]=", out.errs[li], " returned ", cst); });
    s.ok(18, out.errs[li] == cst || vh::close(out.errs[li], cst, 1e-14), "cost-scaling-wrong", [&] { return vh::cat("errs[", li, "]=", out.errs[li], " expected ", cst); });
    const bool good = cst < best;
    s.ok(3, out.successes[li] == good, "accept-flag-wrong", [&] { return vh::cat("successes[", li, "]=", (bool)out.successes[li], " cost ", cst, " best before ", best); });
    const double d2 = out.deltas2[li];
    // ---- step size
    if (gd) {
      const double w = (-(double)o.gd.lr * cur_g).squaredNorm();
      s.ok(3, vh::close(d2, w, R.is_float ? 1e-5 : 1e-6, 1e-300), "step-size-wrong", [&] { return vh::cat("deltas2=", d2, " expected ", w); });
      s.ok(8, vh::close(d2, w, R.is_float ? 1e-5 : 1e-6, 1e-300), "step-size-wrong", [&] { return vh::cat("deltas2=", d2, " expected ", w); });
    } else if (cur_H.allFinite() && cur_g.allFinite()) {
      Eigen::SelfAdjointEigenSolver<MatD> es(cur_H); const double emax = es.eigenvalues().cwiseAbs().maxCoeff(), emin = es.eigenvalues().cwiseAbs().minCoeff();
      const double cond = emin > 0 ? emax / emin : INFINITY;
      const double rel = (R.is_float ? 1e-6 : 1e-14) * cond * 50;
      const bool onedim_flat = !ldlt && cur_H.rows() == 1 && cur_H(0, 0) <= 0;
      if (rel < 1e-2 && !onedim_flat) {
        if (!damp) {
          const double w = damped_step(cur_H, cur_g, 0).squaredNorm();
          const double ab = 1e-300;
          const int P = R.solver == GN ? 6 : 7;
          s.ok(3, vh::close(d2, w, rel, ab), "step-size-wrong", [&] { return vh::cat("deltas2=", d2, " expected ", w); });
          s.ok(P, vh::close(d2, w, rel, ab), P == 6 ? "step-size-wrong" : "damping-not-disabled", [&] { return vh::cat("deltas2=", d2, " undamped ", w, " iter ", iter, " pattern ", pattern); });
        } else if (emin > 0 && es.eigenvalues().minCoeff() > 0 && cur_g.norm() > 0) {
          // C07: the damping used at this iteration
          const double relt = R.is_float ? 1e-2 : 1e-4;
          double l1 = lo * (1 - relt), l2 = hi * (1 + relt);
          if (lo == hi) l1 = lo, l2 = hi;
          s.ok(7, lambdas_from_norm(cur_H, cur_g, d2, rel, l1, l2), "damping-out-of-bounds",
               [&] { return vh::cat("iteration ", iter, ": no damping in [", lo, ",", hi, "] gives |dx|^2=", d2, " (undamped ", damped_step(cur_H, cur_g, 0).squaredNorm(), ", at bounds ", damped_step(cur_H, cur_g, lo).squaredNorm(), " ", damped_step(cur_H, cur_g, hi).squaredNorm(), ") pattern ", pattern); });
          c.event("dampings-observed");
          lo = std::max(lo, l1); hi = std::min(hi, l2); if (lo > hi) lo = hi;
        }
      }
    }
    ops.clear();
    pend = {cur_x, cur_g, cur_H, d2, lo, hi, true};
    last_d2 = d2; max_step = std::max(max_step, std::sqrt(d2));
    // ---- accept / reject
    const double prev_best = best;
    const double eps = R.is_float ? (double)1e-4f : (double)1e-7f;
    const double smax = R.is_float ? (double)std::numeric_limits<float>::max() : BIG;
    const double rel_derr = (prev_best > eps && prev_best < smax) ? (prev_best - cst) / prev_best : 0.0;
    if (good || iter == 0) {
      best = cst; best_n = nres; best_x = cur_x; have_best = true; consec = 0; rerr = rel_derr;
      if (iter > 0) lam_good();
      c.event("accepted");
    } else {
      ++failures; ++consec; lam_bad(); c.event("rejected");
      if (K > 0 && consec >= K) { expect = StopReason::kMaxConsecNoDecr; nodecr_stop = stopped = true; }
      else if (o.max_total_failures > 0 && failures >= o.max_total_failures) { expect = StopReason::kMaxNoDecr; nodecr_stop = stopped = true; }
    }
    ++li;
    if (stopped) { ++iter; break; }
    // ---- convergence conditions, at this iteration
    const double gn2 = cur_g.size() ? cur_g.squaredNorm() : 0;
    auto near = [&](double v, double t) { return std::abs(v - t) <= 1e-5 * t; };
    std::set<int> may; bool certain = true; int must = 0;
    auto cond = [&](bool enabled, bool holds, bool unsure, int why) {
      if (!enabled || must) return;
      if (unsure) { may.insert(why); certain = false; return; }
      if (holds) { must = why; may.insert(why); }
    };
    cond(o.min_error > 0, cst < (double)o.min_error, false, kMinError);
    cond(o.min_rerr_dec > 0, rel_derr > 0 && rel_derr < (double)o.min_rerr_dec, near(rel_derr, o.min_rerr_dec), kMinRelError);
    cond(o.min_step_norm2 > 0, d2 < (double)o.min_step_norm2, false, kMinDeltaNorm);
    cond(o.min_grad_norm2 > 0, gn2 < (double)o.min_grad_norm2, near(gn2, o.min_grad_norm2), kMinGradNorm);
    bool user = false;
    if (!must && certain) {
      const double gt = R.is_float ? 1e-4 : 1e-10;
      if (o.stop_callback) {
        if (s.ok(11, ncb < R.cb.size(), "callback-not-called", [&] { return vh::cat("iteration ", iter, " calls seen ", R.cb.size()); })) {
          const Cb &k = R.cb[ncb++];
          s.ok(11, k.err == out.errs[li - 1] && k.dx2 == d2 && vh::close(k.g2, gn2, gt), "callback-values-wrong",
               [&] { return vh::cat("iteration ", iter, " got (", k.err, ",", k.dx2, ",", k.g2, ") actual (", out.errs[li - 1], ",", d2, ",", gn2, ")"); });
          c.event("callbacks-checked");
          user = k.ret;
        }
      }
      if (!user && o.stop_callback2) {
        if (s.ok(11, ncb2 < R.cb2.size(), "callback2-not-called", [&] { return vh::cat("iteration ", iter, " calls seen ", R.cb2.size()); })) {
          const Cb2 &k = R.cb2[ncb2++];
          s.ok(11, k.err == float(out.errs[li - 1]) && vh::close(k.dx.cast<double>().squaredNorm(), d2, 1e-4, 1e-30) &&
                       k.g.size() == cur_g.size() && (k.g.cast<double>() - cur_g).norm() <= 1e-5 * (cur_g.norm() + 1e-30), "callback2-values-wrong",
               [&] { return vh::cat("iteration ", iter, " err ", k.err, " |dx|2 ", k.dx.squaredNorm(), " g ", vh::mat(k.g.transpose()), " actual ", out.errs[li - 1], " ", d2, " ", vh::mat(cur_g.transpose())); });
          c.event("callbacks-checked");
          user = k.ret;
        }
      }
    } else if (!must && (o.stop_callback || o.stop_callback2)) throw vh::Inconclusive("threshold within rounding, callbacks cannot be attributed");
    const bool timed = o.max_duration_ms > 0 && out.duration_ms > o.max_duration_ms;
    const bool last = iter + 1 == n_it;
    if (must && certain) {
      s.ok(4, last, "convergence-condition-ignored", [&] { return vh::cat("condition ", must, " held at iteration ", iter, " but the run continued (", n_it, " iterations, stop ", (int)out.stop_reason, ", cost ", cst, " rel ", rel_derr, " dx2 ", d2, " g2 ", gn2, ")"); });
      if (last) expect = (StopReason)must;
      else return;
      stopped = true; ++iter; break;
    }
    if (user) s.ok(4, last, "user-stop-ignored", [&] { return vh::cat("requested at iteration ", iter, " of ", n_it); });
    if (last) {
      if (user) { expect = kUserStopped; }
      else if (!certain && may.count(out.stop_reason)) expect = out.stop_reason;
      else if (timed) expect = kTimedOut;
      else if (n_it >= max_it) expect = kMaxIters;
      else expect = kNone;   // stopped for no visible reason
      stopped = true; ++iter; break;
    }
  }
  // ---- after the loop
  s.ok(3, pos == R.ev.size(), "iteration-count-wrong", [&] { return vh::cat("num_iters=", n_it, " covers ", pos, " of ", R.ev.size(), " evaluations, pattern ", pattern, " stop ", (int)out.stop_reason); });
  s.ok(3, iter == n_it, "iteration-count-wrong", [&] { return vh::cat("num_iters=", n_it, " but the run must have stopped at iteration ", iter, " pattern ", pattern, " stop ", (int)out.stop_reason); });
  s.ok(3, li == out.errs.size(), "extra-entries", [&] { return vh::cat("errs has ", out.errs.size(), " entries, ", li, " solved iterations"); });
  if (n_it > 0 || asked >= 0) {
    if (n_it == 0) { s.ok(4, false, "no-iteration-performed", [&] { return "num_iters is 0"; }); }
    else {
      const int got = out.stop_reason;
      s.ok(4, got == (int)expect, "stop-reason-wrong", [&] { return vh::cat("reported ", got, " expected ", (int)expect, " at iteration ", iter, "/", n_it, " pattern ", pattern, " consec ", consec, " failures ", failures); });
      if (failure_stop) s.ok(4, !out.Succeeded() && !out.Converged(), "failure-called-success", [&] { return vh::cat("stop ", got, " pattern ", pattern); });
      s.ok(4, out.Succeeded() == (got >= 0), "succeeded-wrong", [&] { return vh::cat(got); });
      s.ok(4, out.Converged() == (got >= (int)kMinError && got <= (int)kMinGradNorm), "converged-wrong", [&] { return vh::cat(got); });
      c.event(("stop:" + std::to_string(got)).c_str());
    }
  }
  // ---- statistics
  s.ok(3, (long)out.num_failures == failures, "failure-count-wrong", [&] { return vh::cat("num_failures=", (long)out.num_failures, " actual ", failures, " pattern ", pattern.substr(0, 200)); });
  s.ok(3, (long)out.num_consec_failures == consec, "consecutive-failure-count-wrong", [&] { return vh::cat("num_consec_failures=", (long)out.num_consec_failures, " actual ", consec, " pattern ", pattern.substr(0, 200)); });
  if (have_best) {
    s.ok(3, out.final_cost.cost == best || vh::close(out.final_cost.cost, best, 1e-15), "final-cost-wrong", [&] { return vh::cat(out.final_cost.cost, " expected ", best); });
    s.ok(3, compat::count(out.final_cost) == best_n && (long)out.num_residuals == best_n, "residual-count-wrong", [&] { return vh::cat(compat::count(out.final_cost), "/", (long)out.num_residuals, " expected ", best_n); });
    if (iter > 1) s.ok(3, vh::close(out.final_rerr_dec, rerr, 1e-9, 1e-15), "relative-decrease-wrong", [&] { return vh::cat(out.final_rerr_dec, " expected ", rerr); });
  } else
    s.ok(3, !out.final_cost.isValid(), "final-cost-without-evaluation", [&] { return vh::cat(out.final_cost.cost); });
  s.ok(3, out.duration_ms >= 0 && std::isfinite(out.duration_ms), "duration-invalid", [&] { return vh::cat(out.duration_ms); });
  // ---- final parameters
  const VecD &x = R.x1;
  s.ok(5, !R.x0.allFinite() || x.allFinite(), "parameters-not-finite", [&] { return vh::cat(vh::mat(x.transpose()), " pattern ", pattern); });
  if (x.allFinite()) {
    const double sc = 1 + best_x.norm() + max_step;
    const bool must_best = failure_stop || nodecr_stop || (o.check_final_cost && out.stop_reason == kMaxIters);
    if (must_best)
      s.ok(5, (x - best_x).norm() <= xt * sc, failure_stop ? "not-rolled-back-after-failure" : nodecr_stop ? "not-rolled-back-after-rejections" : "final-cost-not-of-final-point",
           [&] { return vh::cat("x ", vh::mat(x.transpose()), " best ", vh::mat(best_x.transpose()), " pattern ", pattern, " stop ", (int)out.stop_reason); });
    else { check_step(x); check_point(x, "returned-elsewhere"); }
    c.event(must_best ? "returned:must-be-best" : "returned:free");
  }
  // ---- C20: final Hessian
  if (!gd && have_last_H) {
    if (!o.hessian.save_last) s.ok(20, !out.has_final_hessian(), "hessian-saved-though-disabled", [&] { return ""; });
    else {
      s.ok(20, out.has_final_hessian(), "hessian-missing", [&] { return ""; });
      if (out.has_final_hessian()) {
        MatD Hf; bool okv = true;
        if (R.sparse) { okv = std::holds_alternative<SparseMat>(out.final_hessian); if (okv) Hf = MatD(std::get<SparseMat>(out.final_hessian)); }
        else { okv = std::holds_alternative<MatX>(out.final_hessian); if (okv) Hf = std::get<MatX>(out.final_hessian); }
        s.ok(20, okv, "hessian-storage-wrong", [&] { return ""; });
        if (okv && last_H.allFinite() && last_H.norm() < (R.is_float ? 1e30 : 1e280)) {
          const bool shape = Hf.rows() == last_H.rows() && Hf.cols() == last_H.cols();
          s.ok(20, shape, "hessian-shape-wrong", [&] { return vh::cat(Hf.rows(), "x", Hf.cols()); });
          if (shape) {
            MatD A = Hf, B = last_H;
            if (R.upper_only) { A = A.triangularView<Eigen::Upper>(); B = B.triangularView<Eigen::Upper>(); }
            const double tol = (R.is_float ? 1e-5 : 1e-12) * (R.is_float ? 1 : std::max<double>(1, 1e-2 * iter));
            s.ok(20, (A - B).cwiseAbs().maxCoeff() <= tol * B.norm(), "hessian-differs", [&] { return vh::cat("max diff ", (A - B).cwiseAbs().maxCoeff(), " norm ", B.norm(), " diag ratio ", A(0, 0) / B(0, 0), " iters ", n_it, " pattern ", pattern, " stop ", (int)out.stop_reason); });
            c.event("hessians-compared");
          }
        }
      }
    }
  }
  c.event("runs-judged");
  std::string shortpat = pattern.substr(0, 24);
  c.distinct(vh::cat((int)R.solver, R.sparse, R.is_float, " stop", (int)out.stop_reason, " ", shortpat, " K", K));
  (void)ambiguous; (void)alt; (void)unsolved_history; (void)last_dx; (void)have_dx; (void)last_g;
}

// ---- user functions ---------------------------------------------------------------------
MatD rand_spd(vh::Rng &r, int n, double cond) {
  MatD A(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.normal();
  Eigen::HouseholderQR<MatD> qr(A); MatD Q = qr.householderQ();
  VecD d(n); for (int i = 0; i < n; ++i) d[i] = std::exp(r.uni(0, std::log(cond)));
  return Q * d.asDiagonal() * Q.transpose();
}
VecD rand_vec(vh::Rng &r, int n, double s) { VecD v(n); for (int i = 0; i < n; ++i) v[i] = s * r.normal(); return v; }

// Answers follow a script, independently of x. Letters:
// g lower cost  t lower by a hair  e equal  b higher  n NaN  i inf  0 no residuals  v largest double
// u negative definite H  N NaN gradient  I infinite gradient  z zero gradient  m tiny cost
struct Script : Fn {
  std::string pat; char tail; vh::Rng rng; int n; double cond; double best; double gscale;
  Script(std::string p, char t, vh::Rng r, int n_, double cond_, double start) : pat(p), tail(t), rng(r), n(n_), cond(cond_), best(start), gscale(1) {}
  Resp operator()(const VecD &, size_t k) override {
    Resp r; r.kind = k < pat.size() ? pat[k] : tail; r.nres = rng.range(1, 40);
    r.g = rand_vec(rng, n, gscale); r.H = rand_spd(rng, n, cond);
    if (k == 0 && std::string("gteb").find(r.kind) != std::string::npos) r.cost = best;
    else switch (r.kind) {
      case 'g': best *= rng.uni(0.3, 0.97); r.cost = best; break;
      case 't': best *= 1 - 1e-12; r.cost = best; break;
      case 'e': r.cost = best; break;
      case 'b': r.cost = best * rng.uni(1.01, 3.0); break;
      case 'm': best = std::min(best, 1e-14); r.cost = best; break;
      case 'n': r.cost = NAN; break;
      case 'i': r.cost = INFINITY; break;
      case 'v': r.cost = std::numeric_limits<double>::max(); break;
      case '0': r.cost = best; r.nres = 0; break;
      case 'u': r.cost = best * rng.uni(0.5, 2.0); r.H = -r.H; break;
      case 'N': r.cost = best * rng.uni(0.5, 2.0); r.g[rng.range(0, n - 1)] = NAN; break;
      case 'I': r.cost = best * rng.uni(0.5, 2.0); r.g[rng.range(0, n - 1)] = rng.sgn() * INFINITY; break;
      case 'z': r.cost = best; r.g.setZero(); break;
      default: r.cost = best;
    }
    return r;
  }
};
// Nonlinear least squares r_i = a_i.x + c sin(b_i.x) - y_i, exact derivatives; optionally fails on demand
struct Nlls : Fn {
  MatD A, B; VecD y; double c; int n, m; double scale;
  Nlls(vh::Rng &r, int n_, int m_, double c_, double s) : c(c_), n(n_), m(m_), scale(s) {
    A = MatD(m, n); B = MatD(m, n); y = VecD(m);
    for (int i = 0; i < m; ++i) { y[i] = r.normal() * s; for (int j = 0; j < n; ++j) { A(i, j) = r.normal(); B(i, j) = r.normal(); } }
  }
  Resp operator()(const VecD &x, size_t) override {
    VecD t = B * x; VecD res = A * x + c * t.array().sin().matrix() - y;
    MatD J = A + (c * t.array().cos()).matrix().asDiagonal() * B;
    Resp r; r.kind = 'r'; r.cost = res.squaredNorm(); r.nres = m; r.g = J.transpose() * res; r.H = J.transpose() * J;
    return r;
  }
};
// Convex scalar cost for first-order methods: 0.5 x'Qx - b'x + offset
struct Quad : Fn {
  MatD Q; VecD b; double off;
  Quad(vh::Rng &r, int n, double cond, double off_) : Q(rand_spd(r, n, cond)), b(rand_vec(r, n)), off(off_) {}
  Resp operator()(const VecD &x, size_t) override { Resp r; r.kind = 'q'; r.cost = 0.5 * x.dot(Q * x) - b.dot(x) + off; r.nres = 1; r.g = Q * x - b; r.H = Q; return r; }
};
// Rosenbrock-like valley: many rejected steps for undamped methods
struct Valley : Fn {
  double a; int n; Valley(double a_, int n_) : a(a_), n(n_) {}
  Resp operator()(const VecD &x, size_t) override {
    const int m = 2 * (n - 1) + 1; VecD res(m); MatD J = MatD::Zero(m, n);
    for (int i = 0; i + 1 < n; ++i) { res[2 * i] = a * (x[i + 1] - x[i] * x[i]); J(2 * i, i + 1) = a; J(2 * i, i) = -2 * a * x[i]; res[2 * i + 1] = 1 - x[i]; J(2 * i + 1, i) = -1; }
    res[m - 1] = 0.1 * (x[n - 1] - 1); J(m - 1, n - 1) = 0.1;
    Resp r; r.kind = 'v'; r.kind = 'R'; r.cost = res.squaredNorm(); r.nres = m; r.g = J.transpose() * res; r.H = J.transpose() * J; return r;
  }
};
// r = atan(k (x_i - c_i)): Gauss-Newton overshoots and diverges, costs rise
struct Atan : Fn {
  VecD ctr; double k; Atan(vh::Rng &r, int n, double k_) : ctr(rand_vec(r, n)), k(k_) {}
  Resp operator()(const VecD &x, size_t) override {
    const int n = (int)ctr.size(); VecD res(n); MatD J = MatD::Zero(n, n);
    for (int i = 0; i < n; ++i) { const double t = k * (x[i] - ctr[i]); res[i] = std::atan(t); J(i, i) = k / (1 + t * t); }
    Resp r; r.kind = 'A'; r.cost = res.squaredNorm(); r.nres = n; r.g = J.transpose() * res; r.H = J.transpose() * J; return r;
  }
};

// ---- options ------------------------------------------------------------------------------
Options rand_options(vh::Rng &r, bool gd, bool sparse) {
  Options o; quiet(o);
  auto maybe = [&](float &f, std::vector<float> v) { f = r.pick(v); };
  o.max_iters = r.pick(std::vector<int>{0, 1, 2, 3, 5, 10, 20, 20, 50});
  o.max_consec_failures = r.pick(std::vector<int>{0, 1, 2, 3, 5, 5, 255});
  o.max_total_failures = r.pick(std::vector<int>{0, 0, 0, 1, 2, 4, 255});
  maybe(o.min_error, {0, 0, 1e-12f, 1e-3f, 1.f});
  maybe(o.min_rerr_dec, {0, 0, 1e-10f, 1e-3f, 0.2f});
  maybe(o.min_step_norm2, {0, 0, 1e-14f, 1e-4f, 0.1f});
  maybe(o.min_grad_norm2, {0, 0, 1e-18f, 1e-3f, 0.5f});
  maybe(o.grad_clipping, {0, 0, 0, 0.1f, 2.f, 1e6f});
  o.check_final_cost = r.coin(0.3);
  o.cost.use_squared_norm = r.coin(0.75); o.cost.downscale_by_2 = r.coin(0.25); o.cost.normalize = r.coin(0.25);
  o.hessian.save_last = r.coin(0.8);
  o.hessian.use_ldlt = sparse || r.coin(0.7);
  o.hessian.H_is_full = r.coin(0.6);
  maybe(o.hessian.check_min_H_diag, {0, 0, 0, 1e-6f, 0.8f});
  o.use_step_quality_approx = r.coin(0.15);
  maybe(o.lm.damping_init, {1e-4f, 1e-4f, 1e-2f, 1.f, 0.f, 1e-8f, 100.f});
  if (r.coin(0.3)) o.lm.damping_range = {{1e-6f, 1e-1f}};
  if (o.lm.damping_init != 0) { o.lm.damping_range[0] = std::min(o.lm.damping_range[0], o.lm.damping_init); o.lm.damping_range[1] = std::max(o.lm.damping_range[1], o.lm.damping_init); }
  maybe(o.lm.good_factor, {1.f / 3, 1.f / 3, 0.1f, 0.9f});
  maybe(o.lm.bad_factor, {2.f, 2.f, 5.f, 1.3f});
  maybe(o.gd.lr, {1e-3f, 0.05f, 0.3f, 1.f, 2.5f});
  // values beyond the usual ones
  auto wild = [&](float &f, double p, double a, double b) { if (f != 0 && r.coin(p)) f = (float)r.logu(a, b); };
  if (r.coin(0.5)) {
    if (r.coin(0.1)) o.max_iters = r.range(51, 300);
    if (r.coin(0.3)) o.max_consec_failures = r.range(1, 30);
    if (o.max_total_failures && r.coin(0.3)) o.max_total_failures = r.range(1, 30);
    wild(o.min_error, 0.5, 1e-20, 1e3); wild(o.min_rerr_dec, 0.5, 1e-12, 0.9); wild(o.min_step_norm2, 0.5, 1e-20, 10);
    wild(o.min_grad_norm2, 0.5, 1e-20, 1e2); wild(o.grad_clipping, 0.5, 1e-5, 1e5); wild(o.hessian.check_min_H_diag, 0.5, 1e-9, 5);
    wild(o.gd.lr, 0.6, 1e-9, 300); wild(o.lm.good_factor, 0.3, 0.01, 0.99); wild(o.lm.bad_factor, 0.3, 1.05, 20);
    if (o.lm.damping_init != 0 && r.coin(0.5)) {
      o.lm.damping_init = (float)r.logu(1e-9, 1e3);
      o.lm.damping_range = {{(float)(o.lm.damping_init * r.logu(1e-6, 1)), (float)(o.lm.damping_init * r.logu(1.001, 1e6))}};
    }
  }
  (void)gd;
  return o;
}
std::string describe(const Options &o) {
  return vh::cat("it=", o.max_iters, " K=", (int)o.max_consec_failures, " F=", (int)o.max_total_failures, " minE=", o.min_error, " rel=", o.min_rerr_dec, " dx=", o.min_step_norm2,
                 " g=", o.min_grad_norm2, " clip=", o.grad_clipping, " chk=", o.check_final_cost, " cost=", o.cost.use_squared_norm, o.cost.downscale_by_2, o.cost.normalize, " ldlt=",
                 o.hessian.use_ldlt, " full=", o.hessian.H_is_full, " diag=", o.hessian.check_min_H_diag, " save=", o.hessian.save_last, " q=", o.use_step_quality_approx, " lm=", o.lm.damping_init,
                 "[", o.lm.damping_range[0], ",", o.lm.damping_range[1], "]", o.lm.good_factor, "/", o.lm.bad_factor, " lr=", o.gd.lr);
}


std::unique_ptr<Fn> make_script(std::string pat, char tail, uint64_t seed, int n, double cond, double start) { return std::make_unique<Script>(pat, tail, vh::Rng(seed), n, cond, start); }
std::unique_ptr<Fn> make_nlls(vh::Rng &r, int n, int m, double c, double s) { return std::make_unique<Nlls>(r, n, m, c, s); }
std::unique_ptr<Fn> make_quad(vh::Rng &r, int n, double cond, double off) { return std::make_unique<Quad>(r, n, cond, off); }
std::unique_ptr<Fn> make_valley(double a, int n) { return std::make_unique<Valley>(a, n); }
std::unique_ptr<Fn> make_atan(vh::Rng &r, int n, double k) { return std::make_unique<Atan>(r, n, k); }
struct Faulty : Fn {
  std::unique_ptr<Fn> base; size_t at; char f; int more;
  Resp operator()(const VecD &x, size_t k) override {
    Resp r = (*base)(x, k);
    if (k < at || k > at + more) return r;
    r.kind = f;
    switch (f) {
      case 'n': r.cost = NAN; break;
      case 'i': r.cost = INFINITY; break;
      case 'v': r.cost = std::numeric_limits<double>::max(); break;
      case '0': r.nres = 0; break;
      case 'u': r.H = -r.H - 1e-3 * MatD::Identity(r.H.rows(), r.H.cols()); break;
      case 'N': r.g[k % r.g.size()] = NAN; break;
      case 'I': r.g[k % r.g.size()] = INFINITY; break;
      case 'b': r.cost = 10 * r.cost + 1; break;
    }
    return r;
  }
};
std::unique_ptr<Fn> make_faulty(std::unique_ptr<Fn> base, size_t k, char fault, int more) {
  auto p = std::make_unique<Faulty>(); p->base = std::move(base); p->at = k; p->f = fault; p->more = more; return p;
}
}  // namespace tr
