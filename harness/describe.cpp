// What results and logs say (compile with -DVH_PART=k).
#include "scen.h"
#include "compat.h"
#include <sys/mman.h>
#include <unistd.h>
#ifndef VH_PART
#define VH_PART 0
#endif
using namespace sc;
namespace {
// everything written to the standard streams, whichever way
struct Streams { std::ostringstream o, e, l; std::streambuf *bo, *be, *bl; int fd[2], old[2]; bool open = true;
  Streams() : bo(std::cout.rdbuf(o.rdbuf())), be(std::cerr.rdbuf(e.rdbuf())), bl(std::clog.rdbuf(l.rdbuf())) { fflush(stdout); fflush(stderr); for (int i = 0; i < 2; ++i) { fd[i] = memfd_create("vh", 0); old[i] = dup(i + 1); dup2(fd[i], i + 1); } }
  void close_() { if (!open) return; open = false; fflush(stdout); fflush(stderr); std::cout.rdbuf(bo); std::cerr.rdbuf(be); std::clog.rdbuf(bl); std::cout.clear(); for (int i = 0; i < 2; ++i) { char b[4096]; lseek(fd[i], 0, SEEK_SET); ssize_t n; while ((n = read(fd[i], b, sizeof b)) > 0) (i ? e : o).write(b, n); dup2(old[i], i + 1); close(old[i]); close(fd[i]); } }
  std::string all() { close_(); return o.str() + e.str() + l.str(); } ~Streams() { close_(); } };
std::string lower(std::string s) { for (char &ch : s) ch = (char)tolower((unsigned char)ch); return s; }
std::vector<double> numbers(const std::string &s) { std::vector<double> v; const char *p = s.c_str(); while (*p) { if (isdigit((unsigned char)*p) || ((*p == '-' || *p == '+' || *p == '.') && isdigit((unsigned char)p[1])) || !strncmp(p, "inf", 3) || !strncmp(p, "-inf", 4) || !strncmp(p, "nan", 3) || !strncmp(p, "-nan", 4)) { char *q; v.push_back(strtod(p, &q)); if (q == p) ++q; p = q; } else ++p; } return v; }
bool near(double a, double b, double rel, double abs = 0) { return feq(a, b) || std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + abs; }
// the words of the documented meaning of each reason
const struct { int r; const char *need[3]; const char *never; } WORDS[] = {{-4, {"memory"}, "residual"}, {-3, {"solve"}, "nan"}, {-2, {"nan"}, "solve"}, {-1, {"no residuals"}, "nan"}, {0, {"not ran"}, "reached"}, {1, {"minimum error"}, "relative"}, {2, {"relative error"}, "delta"}, {3, {"delta"}, "error"}, {4, {"gradient"}, "error"}, {5, {"maximum", "iterations"}, "decrease"}, {6, {"decrease", "times"}, "consecutive"}, {7, {"decrease", "consecutive", "times"}, "iterations"}, {8, {"time"}, "times"}, {9, {"user"}, "error"}};
void judge_description(vh::Case &c, const Output &out, const Options *o, const std::string &text) {
  const int r = (int)out.stop_reason; const std::string t = lower(text); auto det = [&] { return cat("reason ", r, o ? " with options: " : " without options: ", text); };
  const bool succ = t.find("success") != std::string::npos, fail = t.find("(failure)") != std::string::npos; c.check(succ == (r >= 0) && fail == (r < 0), "success-or-failure-misnamed", det);
  for (auto &w : WORDS) if (w.r == r) { for (auto *k : w.need) if (k) c.check(t.find(k) != std::string::npos, "reason-misnamed", det); c.check(t.find(w.never) == std::string::npos, "another-reason-named", det); }
  if (!o) return; const size_t b = text.rfind('['); const auto v = b == std::string::npos ? std::vector<double>() : numbers(text.substr(b)); std::vector<double> want; auto rt = [](double a) { return std::sqrt(a); };
  switch (r) { case 1: want = {out.final_cost.cost, o->min_error}; break; case 2: want = {out.final_rerr_dec, o->min_rerr_dec}; break; case 3: if (!out.deltas2.empty()) want = {rt(out.deltas2.back()), rt(o->min_step_norm2)}; else want = {rt(o->min_step_norm2)}; break; case 4: want = {rt(o->min_grad_norm2)}; break; case 5: want = {(double)o->max_iters}; break; case 6: want = {(double)o->max_total_failures}; break; case 7: want = {(double)o->max_consec_failures}; break; case 8: want = {out.duration_ms, o->max_duration_ms}; break; default: return; }
  bool ok = v.size() == want.size(); for (size_t i = 0; ok && i < v.size(); ++i) ok = near(v[i], want[i], 2e-4); c.check(ok, "wrong-values-quoted", [&] { std::string s; for (double w : want) s += cat(w, " "); return cat("expected values ", s, " ", det()); }); c.event("values-quoted");
}
void expect_silence(vh::Case &c, const std::string &text, const std::string &what) { c.check(text.empty(), "printed-with-logging-disabled", [&] { return cat(what, " printed: ", text); }); c.event("silent-runs"); }
// the log of a run against what the run reported
void judge_log(vh::Case &c, const Options &o, const Rec &r, const std::string &what, bool tagged, bool flat_x) {
  const std::string &t = r.log; const auto &out = r.out; auto det = [&] { return cat(what, " | ", show(r), " | log: ", t); };
  std::vector<std::pair<int, size_t>> at; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '#' && i + 1 < t.size() && isdigit((unsigned char)t[i + 1])) { char *q; const long k = strtol(t.c_str() + i + 1, &q, 10); if (*q == ' ') at.push_back({(int)k, i}); }
  const int n = (int)out.errs.size(); const bool last_failed = out.stop_reason == kMaxNoDecr || out.stop_reason == kMaxConsecNoDecr || !r.threw.empty(); const bool one_each = (int)r.pts.size() == n;
  if (!c.check((int)at.size() == n || (last_failed && (int)at.size() == n - 1), "wrong-number-of-lines", [&] { return cat(at.size(), " lines for ", n, " iterations ", det()); })) return;
  for (int k = 0; k < (int)at.size(); ++k) { if (!c.check(at[k].first == k, "iterations-misnumbered", det)) return; const std::string line = t.substr(at[k].second, (k + 1 < (int)at.size() ? at[k + 1].second : t.size()) - at[k].second); auto ldet = [&] { return cat("iteration ", k, ": ", line, " ", det()); };
    char b[128]; snprintf(b, sizeof b, "%s:%.4e n:", o.log.e.c_str(), out.errs[k]); c.check(line.find(b) != std::string::npos, "wrong-cost-logged", ldet);
    snprintf(b, sizeof b, "|δx|:%.2e", std::sqrt(out.deltas2[k])); const size_t q = line.find("|δx|:"); c.check(q != std::string::npos && near(atof(line.c_str() + q + strlen("|δx|:")), std::sqrt(out.deltas2[k]), 6e-3), "wrong-step-logged", ldet);
    if (k > 0 && k < n) { const size_t d = line.find(cat(" d", o.log.e, ":")); double best = out.errs[0]; for (int j = 1; j < k; ++j) best = std::min(best, out.errs[j]); if (c.check(d != std::string::npos, "no-cost-change-logged", ldet)) { const double v = atof(line.c_str() + d + 3 + o.log.e.size()), w = out.errs[k] - best; c.check(near(v, w, 6e-3, 1e-9 * std::abs(best)), "wrong-cost-change-logged", ldet); } }
    if (o.log.print_emoji) { const std::string pre = t.substr(at[k].second >= 8 ? at[k].second - 8 : 0, std::min<size_t>(8, at[k].second)); c.check((pre.find("✅") != std::string::npos) == (k > 0 && out.successes[k]) && (pre.find("❌") != std::string::npos) == !out.successes[k], "wrong-mark", ldet); }
    if (tagged && one_each) c.check(line.find(cat("tag", k, "!")) != std::string::npos, "user-text-missing", ldet);
    if (o.log.print_x && flat_x && one_each) { const size_t x = line.find_first_of("x{"); size_t e = line.find(cat(o.log.e, ":")); if (x != std::string::npos && e != std::string::npos && x < e) { auto v = numbers(line.substr(x, e - x)); bool ok = (long)v.size() == r.pts[k].size(); for (size_t i = 0; ok && i < v.size(); ++i) ok = near(v[i], r.pts[k][(long)i], 2e-5, 1e-5); c.check(ok, "wrong-parameters-logged", [&] { return cat(vh::mat(r.pts[k]), " ", ldet()); }); c.event("parameters-read"); } else c.check(false, "parameters-not-logged", ldet); }
    c.event("lines"); }
  if (r.threw.empty() && out.stop_reason != kNone) { const std::string d = StopReasonDescription(out, o); const size_t f = t.find(d); if (c.check(f != std::string::npos, "stop-reason-not-logged", det)) { char b[128]; if (out.final_cost.cost < 1e300) { snprintf(b, sizeof b, "%s:%.4e, n:%d", o.log.e.c_str(), out.final_cost.cost, compat::count(out.final_cost)); c.check(t.find(b, f) != std::string::npos, "wrong-final-cost-logged", det); } } c.event("final-lines"); }
  if (r.threw.empty()) { judge_description(c, out, nullptr, StopReasonDescription(out)); judge_description(c, out, &o, StopReasonDescription(out, o)); }
}
template <typename F> void logged(vh::Case &c, Options o, const char *what, const std::string &desc, bool tagged, bool flat_x, F &&once) {
  c.label(cat(what, " ", desc)); { Options q = o; q.log.enable = false; q.log.print_failure = c.rng.coin(); q.log.print_x = q.log.print_dx = q.log.print_J_jet = q.log.print_max_stdev = c.rng.coin(); Streams s; Rec r = once(q); expect_silence(c, s.all(), cat(what, " ", desc)); }
  rand_log(c.rng, o); const char *es[] = {"ε²", "ε", "cost", "E"}; o.log.e = es[c.rng.range(0, 3)]; Rec r; std::string threw; { Streams s; try { r = once(o); } catch (const std::exception &e) { threw = e.what(); } r.log = s.all(); }
  c.check(threw.empty(), "logging-throws", [&] { return cat(threw, " ", what, " ", desc); }); if (!threw.empty()) return; if (!r.threw.empty()) { c.event("threw"); return; } judge_log(c, o, r, cat(what, " ", desc), tagged, flat_x);
  c.distinct(cat(what, (int)r.out.stop_reason, r.out.num_iters, o.log.print_x, o.log.print_dx, o.log.print_max_stdev, o.log.print_failure, r.threw.empty())); c.event(what); c.event(cat("stop:", (int)r.out.stop_reason).c_str()); }
template <typename Opt, typename X> Rec trun(Opt &k, const Scen &s, X x) { Rec r; assign(x, s.x0); using S = typename Opt::Scalar; constexpr bool H = !Opt_first<Opt>::value; auto f = function<S, H>(s, r);
  auto g2 = [&](const auto &xx, auto &g, auto &hh) -> Cost { Cost q; if constexpr (H) q = f(xx, g, hh); q.log_str = cat("tag", r.pts.size() - 1, "!"); return q; }; auto g1 = [&](const auto &xx, auto &g) -> Cost { Cost q; if constexpr (!H) q = f(xx, g); q.log_str = cat("tag", r.pts.size() - 1, "!"); return q; };
  try { if constexpr (H) r.out = k(x, g2, s.budget); else r.out = k(x, g1, s.budget); } catch (const Boom &e) { r.threw = e.what(); } r.x = flat(x); return r; }
template <typename HT, typename X> void man(vh::Case &c, int n, X x, const char *what) { const bool gn = c.rng.coin(0.4); const Options o = rand_opts(c.rng, gn ? 0 : 1); const Scen s = scen(c.rng, n, true); constexpr bool fx = std::is_same_v<X, VecX> || std::is_same_v<X, Vec3> || std::is_same_v<X, double>;
  logged(c, o, what, cat(gn ? "GN " : "LM ", s.str()), true, fx, [&](const Options &q) { if (gn) { GNo<HT> k(q); return trun(k, s, x); } LMo<HT> k(q); return trun(k, s, x); }); }
template <typename G, typename X> void des(vh::Case &c, int n, X x, const char *what) { const Options o = rand_opts(c.rng, 2); const Scen s = scen(c.rng, n, true); logged(c, o, what, cat("GD ", s.str()), true, std::is_same_v<X, VecX>, [&](const Options &q) { GDo<G> k(q); return trun(k, s, x); }); }
template <typename X> void aut(vh::Case &c, int n, X x, const char *what) { Options o = rand_opts(c.rng, c.rng.coin() ? 0 : 1); const Scen s = scen(c.rng, n, true);
  logged(c, o, what, s.str(), false, false, [&](const Options &q) { Rec r; X y = x; assign(y, s.x0); auto f = [&](const auto &xx) { const auto in = scalars(xx); using T = typename std::decay_t<decltype(in)>::value_type; VecD v(in.size()); for (size_t i = 0; i < in.size(); ++i) v[(long)i] = val(in[i]); const int k = (int)r.pts.size(); r.pts.push_back(v); if (k > 5000) throw TooMany{}; const int ft = s.fault(k); if (ft == THROW) throw Boom(); const auto e = s.p.res(in); Vector<T, Dynamic> out(s.p.m); for (int i = 0; i < s.p.m; ++i) { out[i] = e[i]; if (ft == NANCOST) out[i] = out[i] * (double)NAN; if (ft == WORSE) out[i] = out[i] * 7.0; } return out; };
    try { r.out = Optimize(y, f, q); } catch (const Boom &e) { r.threw = e.what(); } r.x = flat(y); return r; }); }
template <typename X> void num(vh::Case &c, int n, X x, const char *what) { Options o = rand_opts(c.rng, c.rng.coin() ? 0 : 1); const Scen s = scen(c.rng, n, false);
  logged(c, o, what, s.str(), false, false, [&](const Options &q) { Rec r; X y = x; assign(y, s.x0); auto f = [&](const auto &xx) requires std::is_same_v<std::decay_t<decltype(xx)>, X> { const VecD v = flat(xx); r.pts.push_back(v); if (r.pts.size() > 50000) throw TooMany{}; return VecX(s.p.r(v)); }; r.out = Optimize(y, f, q); r.x = flat(y); return r; }); }
using V = std::vector<double>; using A6 = std::array<double, 6>; using VX = std::vector<VecX>; using P24 = std::pair<Vec2, Vec4>;
}  // namespace
#if VH_PART == 0 || VH_PART == 1
VH_SUITE(described, 14000, 200000) { Output out; const int r = (int)(c.index % 14) - 4; out.stop_reason = (StopReason)r; Options o; auto &g = c.rng; auto any = [&]() -> double { switch (g.range(0, 7)) { case 0: return 0; case 1: return INFINITY; case 2: return NAN; case 3: return g.logu(1e-300, 1e300); default: return g.logu(1e-12, 1e12); } };
  if (g.coin(0.9)) { if (g.coin()) out.final_cost = Cost(any(), g.range(0, 100)); if (g.coin()) out.final_rerr_dec = any(); for (int k = g.range(0, 4); k--;) { out.errs.push_back(any()); if (g.coin(0.8)) out.deltas2.push_back(std::abs(any())); out.successes.push_back(g.coin()); } out.num_iters = g.range(0, 1000); out.num_failures = g.range(0, 1000); out.num_consec_failures = g.range(0, 1000); out.duration_ms = (float)g.logu(1e-3, 1e6); } else c.event("default-constructed");
  if (g.coin(0.8)) { o.max_iters = g.range(0, 60000); o.min_error = (float)g.logu(1e-20, 1e3); o.min_rerr_dec = (float)g.logu(1e-12, 1); o.min_step_norm2 = (float)g.logu(1e-20, 1); o.min_grad_norm2 = (float)g.logu(1e-20, 1); o.max_total_failures = g.range(0, 200); o.max_consec_failures = g.range(0, 200); o.max_duration_ms = (float)g.logu(1e-3, 1e6); }
  c.label(cat("reason ", r)); const std::string a = StopReasonDescription(out), b = StopReasonDescription(out, o); judge_description(c, out, nullptr, a); judge_description(c, out, &o, b); c.check(out.Succeeded() == (r >= 0) && out.Converged() == (r >= 1 && r <= 4), "flags", [&] { return cat(r); }); c.event("described", 2); c.distinct(cat(r, out.deltas2.empty(), std::isnan(out.final_cost.cost), out.errs.size())); }
VH_SUITE(log_dense, 1500, 40000) { const int n = c.rng.range(1, 12); switch (c.index % 4) { case 0: man<Mat3>(c, 3, Vec3(), "Vec3"); break; case 1: man<MatX>(c, n, VecX(VecX::Zero(n)), "VecX"); break; case 2: man<MatX>(c, n, V(n), "vector"); break; default: man<Mat1>(c, 1, double(), "double"); } }
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(log_sparse, 1200, 30000) { const int n = c.rng.range(1, 12); switch (c.index % 3) { case 0: man<SparseMat>(c, n, VecX(VecX::Zero(n)), "sparse"); break; case 1: { VX x; int k = 0; for (int b = c.rng.range(1, 4); b--;) { x.emplace_back(VecX::Zero(c.rng.range(1, 4))); k += (int)x.back().size(); } man<MatX>(c, k, x, "nested"); break; } default: man<Mat6>(c, 6, A6(), "array"); } }
VH_SUITE(log_descent, 1000, 20000) { const int n = c.rng.range(1, 12); if (c.index % 2) des<VecX>(c, n, VecX(VecX::Zero(n)), "descent-VecX"); else des<Vec6>(c, 6, A6(), "descent-array"); }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(log_refusals, 400, 4000) { const int n = c.rng.range(0, 3) ? 0 : c.rng.range(1, 5), kd = (int)(c.index % 4); Options o = rand_opts(c.rng, c.rng.range(0, 1)); if (kd == 3) o.solver_type = (Options::Solver)c.rng.pick(std::vector<int>{3, 7, 99}); auto go = [&](bool log) { Options q = o; if (log) rand_log(c.rng, q); else q.log.enable = false; Streams st; std::string how;
    try { if (kd == 1) { std::vector<double> x(n, 1.0); how = cat((int)Optimize(x, [&](const auto &v) { using T = typename std::decay_t<decltype(v)>::value_type; Vector<T, Dynamic> r(2); r[0] = n ? v[0] - 2.0 : T(1.0); r[1] = n ? v[n - 1] * 3.0 : T(2.0); return r; }, q).stop_reason); } else if (kd == 2) { VecX x = VecX::Ones(n ? n : 2); q.hessian.use_ldlt = false; LMo<SparseMat> k(q); GNo<SparseMat> k2(q); auto f = [&](const VecX &v, auto &g, SparseMat &H) -> Cost { if constexpr (!traits::is_nullptr_v<decltype(g)>) { g = v; H.setIdentity(); } return Cost(v.squaredNorm(), (int)v.size()); }; how = cat((int)k(x, f).stop_reason); x.setOnes(); how += cat((int)k2(x, f).stop_reason); } else { VecX x = VecX::Ones(n); how = cat((int)Optimize(x, [&](const auto &v) { using T = typename std::decay_t<decltype(v)>::Scalar; Vector<T, Dynamic> r(2); r[0] = n ? v[0] - 2.0 : T(1.0); r[1] = n ? v[n - 1] * 3.0 : T(2.0); return r; }, q).stop_reason); } } catch (const std::invalid_argument &e) { how = "refused"; } return std::make_pair(how, st.all()); };
  c.label(cat("kind ", kd, " n=", n)); const auto a = go(false), b = go(true); expect_silence(c, a.second, cat("kind ", kd, " n=", n, " ended ", a.first)); c.check(a.first == b.first, "logging-changes-outcome", [&] { return cat(kd, " ", a.first, " ", b.first); }); c.check(!b.second.empty(), "nothing-logged", [&] { return cat(kd, " n=", n, " ", b.first); }); c.event("refusals"); c.distinct(cat(kd, n, a.first)); }
VH_SUITE(log_auto, 1200, 30000) { const int n = c.rng.range(1, 12); switch (c.index % 3) { case 0: aut(c, 6, Vec6(), "auto-Vec6"); break; case 1: aut(c, n, V(n), "auto-vector"); break; default: aut(c, 6, P24(), "auto-pair"); } }
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(log_auto2, 1000, 30000) { const int n = c.rng.range(1, 12); switch (c.index % 2) { case 0: aut(c, n, VecX(VecX::Zero(n)), "auto-VecX"); break; default: aut(c, 6, Six<double>(), "auto-user-defined"); } }
VH_SUITE(log_numeric, 800, 20000) { const int n = c.rng.range(1, 6); switch (c.index % 2) { case 0: num(c, n, VecX(VecX::Zero(n)), "num-VecX"); break; default: num(c, 3, Vec3(), "num-Vec3"); } }
#endif
