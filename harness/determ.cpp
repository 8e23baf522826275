// Runs repeated, disturbed and observed must be bit-identical (compile with -DVH_PART=k).
#include "scen.h"
#ifndef VH_PART
#define VH_PART 0
#endif
using namespace sc;
namespace {
volatile unsigned char g_sink;
__attribute__((noinline)) void dirty_stack(unsigned char b) { volatile unsigned char a[96 * 1024]; for (size_t i = 0; i < sizeof a; ++i) a[i] = b; g_sink = a[b * 7]; }
// leaves rubbish in the free memory and on the stack
void disturb(vh::Rng &g) { mallopt(M_PERTURB, g.range(0, 255)); std::vector<void *> v; for (int i = 0; i < 60; ++i) { const size_t n = (size_t)g.range(8, 2000); void *p = malloc(n); memset(p, g.range(0, 255), n); v.push_back(p); } for (void *p : v) free(p); dirty_stack((unsigned char)g.range(0, 255)); }
template <typename F> void vary(vh::Case &c, const Options &o, const char *what, const std::string &desc, F &&once) {
  c.label(cat(what, " ", desc)); auto go = [&](const Options &q, bool capture = false) { disturb(c.rng); Rec r; if (capture) { Capture k; r = once(q); r.log = k.str(); } else r = once(q); return r; };
  const Rec a = go(o); auto same = [&](const Rec &b, const char *how, bool h = true) { const char *d = differs(a, b, h); c.check(!d, cat(how, "-", d ? d : "").c_str(), [&] { return cat(what, " ", desc, " | ", show(a), " | ", show(b)); }); c.event(how); };
  same(go(o), "repeated");
  { Options q = o; rand_log(c.rng, q); const Rec b = go(q, true); same(b, "logged"); if (a.out.num_iters > 0 && a.threw.empty()) c.check(!b.log.empty(), "nothing-logged", [&] { return cat(what, " ", desc); }); }
  { Options q = o; q.hessian.save_last = !o.hessian.save_last; same(go(q), "hessian-toggled", false); }
  { Options q = o; long n = 0; const int kd = c.rng.range(0, 2); if (kd != 1) q.stop_callback = [&](double, double, double) { ++n; return false; }; if (kd != 0) q.stop_callback2 = [&](float, const VecXf &, const VecXf &) { ++n; return false; }; same(go(q), "observed"); c.event("callback-calls", n); if (c.rng.coin(0.3)) { rand_log(c.rng, q); q.hessian.save_last = !q.hessian.save_last; same(go(q, true), "all-observers", false); } }
  if (c.rng.coin(0.3)) { Options q = o; q.max_duration_ms = 1e9; same(go(q), "time-limited"); }
  c.distinct(cat(what, desc.substr(0, 2), o.hessian.use_ldlt, (int)a.out.stop_reason, a.out.num_iters, a.pts.size(), a.threw)); c.event(what); c.event(cat("stop:", (int)a.out.stop_reason).c_str());
}
template <typename HT, typename X> void man(vh::Case &c, int n, X x, const char *what) { const bool gn = c.rng.coin(0.4); const Options o = rand_opts(c.rng, gn ? 0 : 1); const Scen s = scen(c.rng, n, true); vary(c, o, what, cat(gn ? "GN " : "LM ", s.str()), [&](const Options &q) { if (gn) { GNo<HT> k(q); return run(k, s, x); } LMo<HT> k(q); return run(k, s, x); }); }
template <typename G, typename X> void des(vh::Case &c, int n, X x, const char *what) { const Options o = rand_opts(c.rng, 2); const Scen s = scen(c.rng, n, true); vary(c, o, what, cat("GD ", s.str()), [&](const Options &q) { GDo<G> k(q); return run(k, s, x); }); }
template <typename X> void aut(vh::Case &c, int n, X x, const char *what) {
  Options o = rand_opts(c.rng, c.rng.coin() ? 0 : 1); const Scen s = scen(c.rng, n, true);
  vary(c, o, what, s.str(), [&](const Options &q) { Rec r; X y = x; assign(y, s.x0); auto f = [&](const auto &xx) { const auto in = scalars(xx); using T = typename std::decay_t<decltype(in)>::value_type; VecD v(in.size()); for (size_t i = 0; i < in.size(); ++i) v[(long)i] = val(in[i]); const int k = (int)r.pts.size(); r.pts.push_back(v); if (k > 5000) throw TooMany{}; r.deriv.push_back(!std::is_floating_point_v<T>); auto e = s.p.res(in); const int ft = s.fault(k); if (ft == THROW) throw Boom(); Vector<T, Dynamic> out(ft == NORESIDUALS ? 0 : s.p.m); for (int i = 0; i < out.size(); ++i) { out[i] = e[i]; if (ft == WORSE) out[i] = out[i] * 7.0; if (ft == SINGULAR && i) out[i] = T(0.5); } if (ft == NANCOST) out[0] = out[0] * (double)NAN; return out; };
    try { r.out = Optimize(y, f, q); } catch (const Boom &e) { r.threw = e.what(); } r.x = flat(y); return r; }); }
template <typename X> void num(vh::Case &c, int n, X x, const char *what) {
  Options o = rand_opts(c.rng, c.rng.coin() ? 0 : 1); const Scen s = scen(c.rng, n, true);
  vary(c, o, what, s.str(), [&](const Options &q) { Rec r; X y = x; assign(y, s.x0); auto f = [&](const auto &xx) requires std::is_same_v<std::decay_t<decltype(xx)>, X> { const VecD v = flat(xx); const int k = (int)r.pts.size(); r.pts.push_back(v); r.deriv.push_back(0); if (k > 50000) throw TooMany{}; const int ft = s.fault(k / 13); if (ft == THROW) throw Boom(); VecD e = s.p.r(v); if (ft == NANCOST) e[0] = NAN; return e; };
    try { r.out = Optimize(y, f, q); } catch (const Boom &e) { r.threw = e.what(); } r.x = flat(y); return r; }); }
using V = std::vector<double>; using A6 = std::array<double, 6>; using VX = std::vector<VecX>; using P24 = std::pair<Vec2, Vec4>;
}  // namespace
#if VH_PART == 0 || VH_PART == 1
VH_SUITE(determ_dense, 3000, 60000) { const int n = c.rng.range(1, 24); switch (c.index % 4) { case 0: man<Mat3>(c, 3, Vec3(), "Vec3"); break; case 1: man<MatX>(c, n, VecX(VecX::Zero(n)), "VecX"); break; case 2: man<MatX>(c, n, V(n), "vector"); break; default: man<Mat1>(c, 1, double(), "double"); } }
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(determ_sparse, 2000, 40000) { const int n = c.rng.range(1, 24); switch (c.index % 3) { case 0: man<SparseMat>(c, n, VecX(VecX::Zero(n)), "sparse"); break; case 1: { VX x; int k = 0; for (int b = c.rng.range(1, 4); b--;) { x.emplace_back(VecX::Zero(c.rng.range(1, 4))); k += (int)x.back().size(); } man<MatX>(c, k, x, "nested"); break; } default: man<MatXf>(c, n, VecXf(VecXf::Zero(n)), "float"); } }
VH_SUITE(determ_descent, 2000, 40000) { const int n = c.rng.range(1, 12); if (c.index % 2) des<VecX>(c, n, VecX(VecX::Zero(n)), "descent-VecX"); else des<Vec6>(c, 6, A6(), "descent-array"); }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(determ_auto, 2000, 40000) { const int n = c.rng.range(1, 12); switch (c.index % 3) { case 0: aut(c, 6, Vec6(), "auto-Vec6"); break; case 1: aut(c, n, V(n), "auto-vector"); break; default: aut(c, 6, P24(), "auto-pair"); } }
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(determ_auto2, 2000, 40000) { const int n = c.rng.range(1, 12); switch (c.index % 2) { case 0: aut(c, n, VecX(VecX::Zero(n)), "auto-VecX"); break; default: aut(c, 6, Six<double>(), "auto-user-defined"); } }
VH_SUITE(determ_numeric, 1500, 30000) { const int n = c.rng.range(1, 8); switch (c.index % 2) { case 0: num(c, n, VecX(VecX::Zero(n)), "num-VecX"); break; default: num(c, 3, Vec3(), "num-Vec3"); } }
#endif
