// Exhaustive short outcome patterns: every sequence of user-function outcomes up to a length.
#include "trace_fuzz.h"
using namespace tr;
static const std::string AL = "gebnu0Nvz";
static std::string pattern_of(uint64_t k, int &rest) {
  // lengths 1..L enumerated in order
  uint64_t cnt = AL.size(); int len = 1;
  while (k >= cnt) { k -= cnt; cnt *= AL.size(); ++len; }
  std::string p; for (int i = 0; i < len; ++i) { p += AL[k % AL.size()]; k /= AL.size(); }
  rest = len; return p;
}
template <typename Opt, typename X> static void go(vh::Case &c, X x, const char *name, uint64_t k) {
  int len; const std::string p = pattern_of(k / 3, len);
  Options o; quiet(o); o.max_iters = 12; o.min_error = 0; o.min_rerr_dec = 0; o.min_step_norm2 = 0; o.min_grad_norm2 = 0;
  o.max_consec_failures = k % 3 == 0 ? 2 : k % 3 == 1 ? 3 : 5; o.lm.damping_init = 0.01f;
  o.check_final_cost = k % 2;
  fuzz<Opt>(c, x, name, &p, k % 3 == 0 ? 'g' : 'b', &o);
}
// 9+81+729 patterns x 3 settings (quick); +6561 (thorough)
VH_SUITE(pattern_lm, 2457, 22140) { go<lm::Optimizer<Mat2>>(c, Vec2(), "LM<Mat2>", c.index); }
VH_SUITE(pattern_gn, 819, 22140) { go<gn::Optimizer<Mat2>>(c, Vec2(), "GN<Mat2>", c.index * (c.thorough ? 1 : 3) + (c.thorough ? 0 : 1)); }
VH_SUITE(pattern_gd, 819, 22140) { go<gd::Optimizer<Vec2>>(c, Vec2(), "GD<Vec2>", c.index * (c.thorough ? 1 : 3) + (c.thorough ? 0 : 2)); }
VH_SUITE(pattern_sparse, 270, 2457) { go<lm::Optimizer<SparseMat>>(c, VecX(3), "LM<Sparse>", c.index); }
