#pragma once
#include "trace_run.h"
namespace tr {
template <typename Opt> SolverKind kind_of() {
  if constexpr (Opt_is_first_order<Opt>::value) return GD;
  else if constexpr (requires(Opt &o) { o.solver().Covariance(); } && std::is_same_v<Opt, lm::Optimizer<typename std::decay_t<decltype(std::declval<Opt>().solver())>::H_t>>) return LM;
  else return GN;
}
template <typename Opt> constexpr bool is_sparse_opt() {
  if constexpr (Opt_is_first_order<Opt>::value) return false;
  else return traits::is_sparse_matrix_v<typename std::decay_t<decltype(std::declval<Opt>().solver())>::H_t>;
}
inline size_t guard_of(const Options &o, int budget) {
  const long it = (budget >= 0 ? budget : (int)o.max_iters) + 2;
  return (size_t)(it * (o.max_consec_failures > 0 ? o.max_consec_failures : 300) + 50);
}
inline void add_callbacks(Run &R, vh::Rng &r) {
  if (r.coin(0.5)) { const int at = r.coin(0.5) ? r.range(0, 8) : 1 << 30; R.opt.stop_callback = [&R, at](double e, double d, double g) { const bool ret = (int)R.cb.size() == at; R.cb.push_back({e, d, g, ret}); return ret; }; }
  if (r.coin(0.5)) { const int at = r.coin(0.5) ? r.range(0, 8) : 1 << 30; R.opt.stop_callback2 = [&R, at](float e, const VecXf &d, const VecXf &g) { const bool ret = (int)R.cb2.size() == at; R.cb2.push_back({e, d, g, ret}); return ret; }; }
}
// One random run of one optimizer/parameter type
template <typename Opt, typename X>
void fuzz(vh::Case &c, X x, const char *name, const std::string *pattern = nullptr, char tail0 = 0, const Options *given = nullptr) {
  auto &r = c.rng;
  const int n = (int)flatten(x).size();
  Run R; R.solver = kind_of<Opt>(); R.sparse = is_sparse_opt<Opt>();
  R.opt = given ? *given : rand_options(r, R.solver == GD, R.sparse);
  if (R.sparse) R.opt.hessian.use_ldlt = true;
  R.upper_only = !R.opt.hessian.H_is_full;
  if (!given && r.coin(0.2)) R.budget = r.pick(std::vector<int>{0, 1, 2, 7, 30});
  if (!given && r.coin(0.3)) add_callbacks(R, r);
  std::unique_ptr<Fn> fn; std::string what;
  const double w = r.uni();
  const double cond = r.pick(std::vector<double>{1.0, 10, 100, R.opt.hessian.use_ldlt ? 1e3 : 100});
  if (pattern || w < 0.55) {
    std::string pat; char tail = tail0;
    if (pattern) pat = *pattern;
    else {
      const int len = r.range(1, 14); const std::string al = r.coin() ? "gggggbbbeet" : "gggggbbbeetnuuuNIzm0vi";
      for (int i = 0; i < len; ++i) pat += al[r.range(0, (int)al.size() - 1)];
      tail = "gbeut"[r.range(0, 4)];
    }
    if (R.opt.grad_clipping != 0) for (auto &ch : pat) if (ch == 'N') ch = 'n';
    fn = make_script(pat, tail, r.next(), n, cond, r.pick(std::vector<double>{1.0, 100.0, 1e-6, 1e6}));
    what = "script " + pat + "(" + tail + ")";
  } else if (w < 0.7) { fn = make_nlls(r, n, n + r.range(0, 10), r.pick(std::vector<double>{0, 0.3, 1.5}), 3); what = "nlls"; }
  else if (w < 0.8 && n > 1) { fn = make_valley(r.uni(1, 10), n); what = "valley"; }
  else if (w < 0.9) { fn = make_atan(r, n, r.uni(0.5, 4)); what = "atan"; }
  else { fn = make_quad(r, n, cond, 50); what = "quad"; }
  if (!pattern && w >= 0.55 && r.coin(0.4)) {
    const char ft = (R.opt.grad_clipping != 0 ? "nivuu0Ibb" : "nivuu0INb")[r.range(0, 8)]; const int at = r.range(0, 9), more = r.coin(0.7) ? 0 : r.range(1, 6);
    fn = make_faulty(std::move(fn), at, ft, more); what += vh::cat("+fault ", ft, "@", at, "x", more + 1);
  }
  assign(x, rand_vec(r, n, r.pick(std::vector<double>{0.1, 1, 3})));
  R.desc = vh::cat(name, " n=", n, " ", what, " budget=", R.budget, " ", describe(R.opt));
  c.label(R.desc);
  Opt opt(R.opt);
  record(opt, R, x, *fn, guard_of(R.opt, R.budget));
  judge(c, VH_PROP, R);
}
}  // namespace tr
