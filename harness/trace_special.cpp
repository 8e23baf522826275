// Long, slow, timed and pathological runs.
#include "trace_fuzz.h"
#include <thread>
using namespace tr;

template <typename Opt> static Run scripted(vh::Case &c, const Options &o, const std::string &pat, char tail, int budget, const char *name, size_t guard, int n = 2) {
  Run R; R.solver = kind_of<Opt>(); R.sparse = is_sparse_opt<Opt>(); R.opt = o; R.budget = budget; R.upper_only = !o.hessian.H_is_full;
  auto fn = make_script(pat, tail, c.rng.next(), n, 10, 100.0);
  VecX x(n); assign(x, rand_vec(c.rng, n));
  R.desc = vh::cat(name, " script ", pat, "(", tail, ") budget=", budget, " ", describe(o)); c.label(R.desc);
  Opt opt(R.opt); record(opt, R, x, *fn, guard);
  return R;
}
static Options plain_options() { Options o; quiet(o); o.min_error = o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0; o.lm.damping_range = {{1e-9f, 1e4f}}; return o; }

// Unsolvable for ever with the consecutive-failure limit disabled or at its largest value
VH_SUITE(unsolvable_forever, 24, 120) {
  Options o = plain_options(); o.max_consec_failures = c.index % 3 == 0 ? 0 : c.index % 3 == 1 ? 255 : 7; o.max_iters = 3 + c.rng.range(0, 5);
  o.hessian.use_ldlt = true; o.max_total_failures = c.rng.coin(0.3) ? 3 : 0;
  if (c.rng.coin(0.3)) { o.lm.damping_init = 0; }
  std::string pat; for (int i = c.rng.range(0, 4); i > 0; --i) pat += c.rng.coin() ? 'g' : 'b';
  const char tail = c.rng.coin(0.75) ? 'u' : 'v';
  Run R = c.rng.coin() ? scripted<lm::Optimizer<MatX>>(c, o, pat, tail, -1, "LM<MatX>", 20000) : scripted<gn::Optimizer<MatX>>(c, o, pat, tail, -1, "GN<MatX>", 20000);
  c.event("unsolvable-runs");
  judge(c, VH_PROP, R);
}
// Many iterations / failures: counters must not wrap, lists must stay complete
VH_SUITE(many_iterations, 10, 40) {
  Options o = plain_options();
  const int its = c.index % 5 == 0 ? 300 : c.index % 5 == 1 ? 700 : c.index % 5 == 2 ? 65535 / (c.thorough ? 1 : 16) : 520;
  o.max_iters = its; o.max_consec_failures = 0; o.max_total_failures = 0;
  const char tail = c.index % 2 ? 'b' : 'e';
  std::string pat = "g"; for (int i = c.rng.range(0, 300); i > 0; --i) pat += c.rng.coin(0.1) ? 't' : 'b';
  const size_t guard = (size_t)its * 3 + 500;
  Run R;
  if (c.index % 3 == 0) R = scripted<gd::Optimizer<VecX>>(c, o, pat, tail, -1, "GD<VecX>", guard, 1);
  else if (c.index % 3 == 1) R = scripted<lm::Optimizer<MatX>>(c, o, pat, tail, -1, "LM<MatX>", guard, 1);
  else R = scripted<gn::Optimizer<MatX>>(c, o, pat, tail, -1, "GN<MatX>", guard, 1);
  c.event("long-runs");
  judge(c, VH_PROP, R);
}
// The full range of the iteration options: 65535 accepted iterations
VH_SUITE(max_iterations, 2, 6) {
  Options o = plain_options(); o.max_iters = 65535; o.check_final_cost = c.index % 2; o.gd.lr = 1e-6f;
  Run R = scripted<gd::Optimizer<VecX>>(c, o, "g", 't', -1, "GD<VecX>", 70000, 1);
  c.event("long-runs");
  judge(c, VH_PROP, R);
}
// An explicit per-call budget beyond the option, including values above 16 bits
VH_SUITE(explicit_budget, 20, 60) {
  Options o = plain_options(); o.max_iters = c.rng.pick(std::vector<int>{0, 1, 5, 50}); o.check_final_cost = c.rng.coin(); o.gd.lr = 1e-6f;
  const int budget = c.index == 0 ? 66000 : c.rng.pick(std::vector<int>{0, 1, 2, 6, 60, 300});
  Run R = scripted<gd::Optimizer<VecX>>(c, o, "g", 't', budget, "GD<VecX>", 200000, 1);
  judge(c, VH_PROP, R);
  const int got = R.out.num_iters, want = budget + 1 + (o.check_final_cost ? 1 : 0);
  if (VH_PROP == 2 || VH_PROP == 0) c.check(got == want, "budget-not-honoured", [&] { return vh::cat("budget ", budget, " gave ", got, " iterations, ", want, " expected; options allow ", o.max_iters); });
}
// Time limits. Sleeping only makes iterations longer than the limit, so the verdict does not depend on load.
VH_SUITE(time_limit, 16, 48) {
  Options o = plain_options(); o.max_iters = 60; o.max_consec_failures = 0;
  const int slow_at = c.rng.range(0, 6); o.max_duration_ms = 4000;   // never reached before the slow iteration
  const bool lm_ = c.rng.coin(); const bool exceed = c.index % 2 == 0;
  // the limit is exceeded by sleeping in one evaluation: limit 20 ms, sleep 60 ms
  if (exceed) o.max_duration_ms = 30;
  std::string pat = "g"; for (int i = 0; i < 80; ++i) pat += "ggbt"[c.rng.range(0, 3)];
  struct Slow : Fn { std::unique_ptr<Fn> b; int at; bool on; Resp operator()(const VecD &x, size_t k) override { if (on && (int)k == at) std::this_thread::sleep_for(std::chrono::milliseconds(90)); return (*b)(x, k); } } fn;
  fn.b = make_script(pat, 'g', c.rng.next(), 2, 10, 100.0); fn.at = slow_at; fn.on = exceed;
  Run R; R.opt = o; R.solver = lm_ ? LM : GD; VecX x = VecX::Zero(2);
  R.desc = vh::cat(lm_ ? "LM" : "GD", " limit ", o.max_duration_ms, " slow evaluation ", exceed ? slow_at : -1); c.label(R.desc);
  const auto t0 = std::chrono::steady_clock::now();
  if (lm_) { lm::Optimizer<MatX> opt(o); record(opt, R, x, fn, 1000); } else { gd::Optimizer<VecX> opt(o); record(opt, R, x, fn, 1000); }
  const double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
  judge(c, VH_PROP, R);
  if (VH_PROP == 2 || VH_PROP == 0) {
    if (exceed) c.check(R.out.num_iters <= slow_at + 1, "time-limit-ignored", [&] { return vh::cat("limit 30 ms exceeded at iteration ", slow_at, " but ", R.out.num_iters, " iterations ran"); });
    c.event("time-limited-runs");
  }
  if (VH_PROP == 4 || VH_PROP == 0) {
    if (exceed && R.out.num_iters == slow_at + 1) c.check(R.out.stop_reason == kTimedOut, "time-out-not-reported", [&] { return vh::cat("stop ", (int)R.out.stop_reason); });
    if (!exceed && ms < 3000) c.check(R.out.stop_reason != kTimedOut, "time-out-reported-too-early", [&] { return vh::cat("after ", ms, " ms of ", o.max_duration_ms); });
  }
}
// A limit that only several iterations together exceed: each sleeps a third of it
VH_SUITE(time_limit_total, 8, 24) {
  Options o = plain_options(); o.max_iters = 12; o.max_consec_failures = 0; o.max_duration_ms = 30;
  struct Slow : Fn { std::unique_ptr<Fn> b; Resp operator()(const VecD &x, size_t k) override { std::this_thread::sleep_for(std::chrono::milliseconds(12)); return (*b)(x, k); } } fn;
  std::string pat = "g"; for (int i = 0; i < 20; ++i) pat += "ggbt"[c.rng.range(0, 3)];
  fn.b = make_script(pat, 'g', c.rng.next(), 2, 10, 100.0);
  Run R; R.opt = o; VecX x = VecX::Zero(2); const int kd = c.index % 3; R.solver = kd == 0 ? LM : kd == 1 ? GD : GN; R.desc = vh::cat("solver ", kd, " 12 ms per evaluation, limit 30 ms"); c.label(R.desc);
  if (kd == 0) { lm::Optimizer<MatX> opt(o); record(opt, R, x, fn, 1000); }
  else if (kd == 1) { gd::Optimizer<VecX> opt(o); record(opt, R, x, fn, 1000); }
  else { gn::Optimizer<MatX> opt(o); record(opt, R, x, fn, 1000); }
  judge(c, VH_PROP, R);
  c.event("time-limited-runs");
  if (VH_PROP == 2 || VH_PROP == 0) c.check(R.out.num_iters <= 3, "time-limit-ignored", [&] { return vh::cat(R.out.num_iters, " iterations of 12 ms with a limit of 30 ms"); });
  if (VH_PROP == 4 || VH_PROP == 0) c.check(R.out.stop_reason == kTimedOut || R.out.num_iters < 3, "time-out-not-reported", [&] { return vh::cat("stop ", (int)R.out.stop_reason); });
}
// Non-finite Hessians: whichever way the solver notices, the run must end as a failure with finite x
VH_SUITE(nonfinite_hessian, 80, 800) {
  Options o = rand_options(c.rng); o.max_total_failures = 0; o.hessian.check_min_H_diag = 0; o.lm.damping_init = 1e-4f;
  o.min_error = o.min_rerr_dec = o.min_step_norm2 = o.min_grad_norm2 = 0; o.max_iters = 20;
  const int n = c.rng.range(1, 5), at = c.rng.range(0, 4); const bool inf = c.rng.coin(0.3);
  const int i = c.rng.range(0, n - 1), j = c.rng.coin() ? i : c.rng.range(0, n - 1);
  struct BadH : Fn { std::unique_ptr<Fn> b; int at, i, j; double v; Resp operator()(const VecD &x, size_t k) override { Resp r = (*b)(x, k); if ((int)k >= at) { r.H(i, j) = v; r.H(j, i) = v; } return r; } } fn;
  fn.b = make_script("g", 'g', c.rng.next(), n, 10, 100.0); fn.at = at; fn.i = i; fn.j = j; fn.v = inf ? INFINITY : NAN;
  Run R; R.opt = o; VecX x = rand_vec(c.rng, n); R.desc = vh::cat("H(", i, ",", j, ")=", fn.v, " from evaluation ", at, " n=", n, " ", describe(o)); c.label(R.desc);
  const int kd = c.rng.range(0, 2);
  if (kd == 0) { R.solver = LM; lm::Optimizer<MatX> opt(o); record(opt, R, x, fn, guard_of(o, -1)); }
  else if (kd == 1) { R.solver = GN; gn::Optimizer<MatX> opt(o); record(opt, R, x, fn, guard_of(o, -1)); }
  else { o.hessian.use_ldlt = true; R.opt = o; R.sparse = true; R.solver = LM; lm::Optimizer<SparseMat> opt(o); record(opt, R, x, fn, guard_of(o, -1)); }
  c.event("nonfinite-hessians");
  c.distinct(vh::cat(kd, inf, i == j, at, " stop ", (int)R.out.stop_reason));
  if (VH_PROP == 2 || VH_PROP == 0) c.check(!R.aborted, "evaluation-budget-exceeded", [&] { return R.desc; });
  if (R.aborted) return;
  const bool ldlt = o.hessian.use_ldlt || kd == 2;
  bool reached = false; for (size_t k = at; k < R.ev.size(); ++k) reached |= R.ev[k].deriv;
  if (VH_PROP == 5 || VH_PROP == 0) {
    c.check(R.x1.allFinite(), "parameters-not-finite", [&] { return vh::cat(vh::mat(R.x1.transpose()), " ", R.desc); });
  }
  // infinite entries may legitimately give a zero step; NaN may not pass
  if ((VH_PROP == 4 || VH_PROP == 0) && !inf && ldlt && reached) c.check(!R.out.Succeeded(), "failure-called-success", [&] { return vh::cat("stop ", (int)R.out.stop_reason, " solver ", kd, " iterations ", R.out.num_iters, " evaluations ", R.ev.size(), " ", R.desc); });
}
