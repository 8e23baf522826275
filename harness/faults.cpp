// Exceptions and allocation failures at every point of a run (compile with -DVH_PART=k; link with --wrap=malloc,realloc,calloc).
#include "scen.h"
#include <new>
#include <sanitizer/lsan_interface.h>
#ifndef VH_PART
#define VH_PART 0
#endif
using namespace sc;
// ---- allocation faults: the g_fail-th allocation made by the library fails
#if VH_PART <= 1
bool vh_armed = false; long vh_count = 0, vh_fail = -1, vh_live = 0; bool vh_hit = false;
static bool refuse() { if (!vh_armed) return false; if (vh_count++ == vh_fail) { vh_hit = true; return true; } return false; }
extern "C" { void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { return refuse() ? nullptr : __real_malloc(n); } void *__wrap_realloc(void *p, size_t n) { return refuse() ? nullptr : __real_realloc(p, n); } void *__wrap_calloc(size_t a, size_t b) { return refuse() ? nullptr : __real_calloc(a, b); } }
void *operator new(size_t n) { if (refuse()) throw std::bad_alloc(); if (void *p = __real_malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return refuse() ? nullptr : __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); } void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); } void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
#else
extern bool vh_armed, vh_hit; extern long vh_count, vh_fail;
#endif
namespace {
struct Arm { bool old; explicit Arm(bool on) : old(vh_armed) { vh_armed = on; } ~Arm() { vh_armed = old; } };
struct Weird { int v; };
// what a disturbed run ended with
struct End { Rec r; std::string exc; };
// throws exception `kind` at evaluation (or callback) `at`
struct Thrower { int at = -1, kind = 0, n = 0; void operator()() { Arm off(false); if (n++ == at) switch (kind) { case 0: throw Boom(); case 1: throw Weird{41}; case 2: throw std::bad_alloc(); case 3: throw std::invalid_argument("mine"); default: throw 17; } } };
const char *exc_name[] = {"Boom", "Weird 41", "bad_alloc", "invalid_argument mine", "int 17"};
template <typename F> End guard(F &&f) { End e; try { f(e.r); } catch (const Boom &) { e.exc = exc_name[0]; } catch (const Weird &w) { e.exc = cat("Weird ", w.v); } catch (const std::bad_alloc &) { Arm off(false); e.exc = "bad_alloc"; } catch (const std::invalid_argument &x) { e.exc = cat("invalid_argument ", x.what()); } catch (const std::exception &x) { e.exc = cat("other ", x.what()); } catch (int i) { e.exc = cat("int ", i); } return e; }
// a recording function; the harness' own work is never refused memory
template <typename S, bool HESS> auto wrapped(const Scen &s, Rec &r, Thrower &th) { auto f = function<S, HESS>(s, r); if constexpr (HESS) return [f, &th](const auto &x, auto &g, auto &H) -> Cost { Arm off(false); th(); auto cst = f(x, g, H); return cst; }; else return [f, &th](const auto &x, auto &g) -> Cost { Arm off(false); th(); return f(x, g); }; }
bool among(const VecD &x, const Rec &clean, const VecD &x0) { if (bits(x, x0) || bits(x, clean.x)) return true; for (auto &p : clean.pts) if (bits(x, p)) return true; return false; }
// Runner: void(Options, Thrower&, Rec&, X&) performs a run, Again: same on a reused object
template <typename Opt, typename X> struct Man { const Scen &s; X x; void operator()(Opt &o, Rec &r, X &y, Thrower &th) const { using S = typename Opt::Scalar; constexpr bool H = !Opt_first<Opt>::value; auto f = wrapped<S, H>(s, r, th); Arm on(true); Output out = o(y, f, s.budget); Arm off(false); r.out = std::move(out); } };
template <typename Opt, typename X> struct Auto { const Scen &s; X x; void operator()(Opt &o, Rec &r, X &y, Thrower &th) const {
  auto f = [&](const auto &xx) { Arm off(false); const auto in = scalars(xx); using T = typename std::decay_t<decltype(in)>::value_type; VecD v(in.size()); for (size_t i = 0; i < in.size(); ++i) v[(long)i] = val(in[i]); th(); r.pts.push_back(v); r.deriv.push_back(1); const auto e = s.p.res(in); Vector<T, Dynamic> q(s.p.m); for (int i = 0; i < s.p.m; ++i) q[i] = e[i]; return q; };
  Arm on(true); Output out = o(y, f, s.budget); Arm off(false); r.out = std::move(out); } };
template <typename X> void grow(X &x, int n) { if constexpr (std::is_same_v<X, std::vector<VecX>>) { x.clear(); x.emplace_back(VecX::Zero(n)); } else x.resize(n); }
template <template <typename, typename> class R, typename Opt, typename X> void torture(vh::Case &c, int solver, int n, X proto, const char *what) {
  Options o = rand_opts(c.rng, solver); if (o.max_consec_failures == 0) o.max_consec_failures = 3; o.max_iters = std::min<int>(o.max_iters, 5); Scen s = scen(c.rng, n, false); const bool log = c.rng.coin(0.3); if (log) rand_log(c.rng, o); const R<Opt, X> job{s, proto}; constexpr bool resizable = std::is_same_v<X, VecX> || std::is_same_v<X, std::vector<double>> || std::is_same_v<X, std::vector<VecX>>; Thrower calm; const std::string desc = cat(what, " solver ", solver, " ", s.str(), log ? " logged" : "");
  auto once = [&](Opt &k, Thrower &th) { X y = proto; assign(y, s.x0); Capture cap; End e = guard([&](Rec &r) { job(k, r, y, th); }); vh_armed = false; e.r.x = flat(y); return e; };
  X px = proto; assign(px, s.x0); const VecD x0 = flat(px); c.label(desc); vh_fail = -1; vh_count = 0; Opt first(o); const End clean = once(first, calm); const long allocs = vh_count; if (!clean.exc.empty()) throw vh::Inconclusive("clean run throws"); const int evals = (int)clean.r.pts.size();
  auto judge_reuse = [&](Opt &k, const char *key, const std::string &how) { k.reset(); Thrower t; vh_fail = -1; const End again = once(k, t); const char *d = again.exc.empty() ? differs(clean.r, again.r) : "exception"; c.check(!d, key, [&] { return cat(d, " ", how, " ", desc, " | ", show(clean.r), " | ", show(again.r)); }); };
  // exceptions of the user function, at every evaluation
  for (int at = 0; at < evals; ++at) { Thrower th; th.at = at; th.kind = c.rng.range(0, 4); Opt k(o); c.label(cat(desc, " throw ", th.kind, "@", at)); const End e = once(k, th); auto det = [&] { return cat("evaluation ", at, " throws ", exc_name[th.kind], ", seen: ", e.exc, " | ", desc, " | ", show(e.r)); };
    c.check(e.exc == exc_name[th.kind], "exception-altered", det); c.check(bits(e.r.x, clean.r.pts[at]), "x-not-an-evaluated-point", det); judge_reuse(k, "reuse-after-exception", cat("after exception at ", at)); c.event("exceptions"); }
  // of the callbacks
  if (c.rng.coin(0.5)) { const bool second = c.rng.coin(); int calls = 0; Thrower cb; Options q = o; auto hook = [&] { ++calls; cb(); return false; }; if (second) q.stop_callback2 = [&](float, const VecXf &, const VecXf &) { return hook(); }; else q.stop_callback = [&](double, double, double) { return hook(); }; { Opt k(q); Thrower t; once(k, t); } const int m = calls;
    for (int at = 0; at < m; ++at) { cb = Thrower(); cb.at = at; cb.kind = c.rng.range(0, 4); Opt k(q); Thrower t; c.label(cat(desc, " callback throw ", cb.kind, "@", at)); const End e = once(k, t); auto det = [&] { return cat("callback ", at, " throws ", exc_name[cb.kind], ", seen: ", e.exc, " | ", desc, " | ", show(e.r)); }; c.check(e.exc == exc_name[cb.kind], "callback-exception-altered", det); c.check(!e.r.pts.empty() && bits(e.r.x, e.r.pts.back()), "x-not-an-evaluated-point", det); cb = Thrower(); judge_reuse(k, "reuse-after-callback-exception", cat("after callback exception at ", at)); c.event("callback-exceptions"); } }
  const bool warm = resizable && c.rng.coin(0.6); Scen s2 = scen(c.rng, warm ? n + 3 : n, false); X bigger = proto; if constexpr (resizable) if (warm) grow(bigger, n + 3);
  c.check(c.index % 10 != 9 || !__lsan_do_recoverable_leak_check(), "leak-after-exception", [&] { return cat("memory leaked by a run that threw: ", desc); });
  __lsan_disable(); struct Lsan { ~Lsan() { __lsan_enable(); } } lsan;  // Eigen's own constructors leak when an allocation inside them fails
  // memory exhausted at every allocation (a random subset of long runs)
  for (long i = 0; i < allocs; ++i) { if (allocs > 40 && i > 12 && !c.rng.coin(30.0 / allocs)) continue; Opt k(o); Thrower t; if (warm && i < 12) { Thrower w; vh_fail = -1; Rec wr; X y = bigger; assign(y, s2.x0); R<Opt, X> j2{s2, bigger}; Capture cap; guard([&](Rec &r) { j2(k, r, y, w); }); vh_armed = false; k.reset(); c.event("used-at-another-size"); } c.label(cat(desc, warm ? " warm" : "", " allocation ", i, " of ", allocs)); vh_fail = i; vh_count = 0; vh_hit = false; const End e = once(k, t); vh_fail = -1; auto det = [&] { return cat("allocation ", i, " of ", allocs, " refused: ", e.exc, " | ", desc, " | ", show(e.r), " | undisturbed ", show(clean.r)); };
    if (!vh_hit) { c.event("allocation-not-reached"); continue; } c.event("allocation-failures");
    if (e.exc == "bad_alloc") c.event("bad-allocs"); else if (c.check(e.exc.empty(), "allocation-failure-altered", det)) { if (e.r.out.stop_reason == kOutOfMemory) { c.event("out-of-memory"); c.check(!e.r.out.Succeeded(), "out-of-memory-called-success", det); } else { const char *d = differs(clean.r, e.r); c.check(!d, "allocation-failure-ignored", [&] { return cat(d, " ", det()); }); c.event("unaffected"); } }
    c.check(among(e.r.x, clean.r, x0), "x-corrupted-by-allocation-failure", det); judge_reuse(k, "reuse-after-allocation-failure", cat("after allocation ", i)); }
  c.event("runs"); c.event(what); c.distinct(cat(what, solver, (int)clean.r.out.stop_reason, evals, allocs, log));
}
using V = std::vector<double>; using VX = std::vector<VecX>; using P24 = std::pair<Vec2, Vec4>;
VX nested(int n) { VX x; int k = 1; while (n > 0) { const int b = std::min(n, k++); x.emplace_back(VecX::Zero(b)); n -= b; } return x; }
}  // namespace
#if VH_PART <= 1
VH_SUITE(faults_dense, 150, 3000) { const int n = c.rng.range(1, 12); switch (c.index % 3) { case 0: torture<Man, LMo<MatX>>(c, 1, n, VecX(VecX::Zero(n)), "LM-VecX"); break; case 1: torture<Man, GNo<MatX>>(c, 0, n, V(n), "GN-vector"); break; default: torture<Man, LMo<MatX>>(c, 1, n, nested(n), "LM-nested"); } }
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(faults_sparse, 150, 3000) { const int n = c.rng.range(1, 10); switch (c.index % 4) { case 0: torture<Man, LMo<SparseMat>>(c, 1, n, VecX(VecX::Zero(n)), "LM-sparse"); break; case 1: torture<Man, GNo<SparseMat>>(c, 0, n, VecX(VecX::Zero(n)), "GN-sparse"); break; case 2: torture<Man, GDo<VecX>>(c, 2, n, VecX(VecX::Zero(n)), "GD-VecX"); break; default: torture<Man, LMo<Mat6>>(c, 1, 6, P24(), "LM-pair"); } }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(faults_auto, 150, 3000) { const int n = c.rng.range(1, 8); switch (c.index % 3) { case 0: torture<Auto, LMo<MatX>>(c, 1, n, VecX(VecX::Zero(n)), "auto-VecX"); break; case 1: torture<Auto, GNo<MatX>>(c, 0, n, V(n), "auto-vector"); break; default: torture<Auto, LMo<Mat6>>(c, 1, 6, Vec6(), "auto-Vec6"); } }
#endif
