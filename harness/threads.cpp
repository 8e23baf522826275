// Independent uses of the library running in several threads at once (compile with -DVH_PART=k, build with TSan).
#include "scen.h"
#include <tinyopt/distances.h>
#include <tinyopt/losses/losses.h>
#include <tinyopt/diff/gradient_check.h>
#include <atomic>
#include <fcntl.h>
#include <unistd.h>
#include <thread>
#ifndef VH_PART
#define VH_PART 0
#endif
using namespace sc;
namespace {
using Val = std::vector<double>; using Task = std::pair<std::string, std::function<Val()>>;
void put(Val &v, double d) { v.push_back(d); } template <typename D> void put(Val &v, const Eigen::DenseBase<D> &m) { for (long j = 0; j < m.cols(); ++j) for (long i = 0; i < m.rows(); ++i) v.push_back((double)m.derived()(i, j)); }
Val value(const Rec &r) { Val v; put(v, r.x); for (auto &p : r.pts) put(v, p); for (auto e : r.out.errs) v.push_back(e); for (auto e : r.out.deltas2) v.push_back(e); v.push_back((int)r.out.stop_reason); v.push_back(r.out.num_iters); v.push_back(r.out.num_failures); v.push_back(r.threw.size()); put(v, hess(r.out)); if (const auto cv = r.out.Covariance(); cv) put(v, *cv); const std::string s = StopReasonDescription(r.out) + r.out.final_cost.toString(); v.push_back((double)vh::hash_str(s)); return v; }
bool eq(const Val &a, const Val &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
// standard output goes nowhere meanwhile (runs that log)
struct Mute { int old, nul; Mute() { std::cout.flush(); fflush(stdout); old = dup(1); nul = open("/dev/null", O_WRONLY); dup2(nul, 1); } ~Mute() { std::cout.flush(); fflush(stdout); dup2(old, 1); close(old); close(nul); } };
// every thread performs every task, in its own order; the first case of a process has nothing initialised before
void concurrently(vh::Case &c, const std::vector<Task> &tasks, bool logging = false) {
  std::unique_ptr<Mute> mute; if (logging) { mute = std::make_unique<Mute>(); c.event("logging"); }
  std::string l; for (auto &t : tasks) l += t.first + " "; c.label(l); const int T = c.rng.range(2, 6), n = (int)tasks.size(); const bool before = c.index > 15 && c.rng.coin(); std::vector<Val> ref(n); auto alone = [&] { for (int i = 0; i < n; ++i) ref[i] = tasks[i].second(); }; if (before) alone();
  std::vector<std::vector<Val>> got(T, std::vector<Val>(n)); std::vector<std::vector<int>> order(T); for (auto &o : order) { for (int i = 0; i < n; ++i) o.push_back(i); for (int i = n - 1; i > 0; --i) std::swap(o[i], o[c.rng.range(0, i)]); }
  if (c.rng.coin(0.4)) for (auto &o : order) o = order[0];   // all on the same task at the same time
  std::atomic<int> ready{0}; std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield(); for (int i : order[t]) got[t][i] = tasks[i].second(); }); for (auto &t : th) t.join();
  if (!before) alone(); for (int t = 0; t < T; ++t) for (int i = 0; i < n; ++i) c.check(eq(got[t][i], ref[i]), "differs-from-running-alone", [&] { return cat(tasks[i].first, " thread ", t, " of ", T, " values ", got[t][i].size(), " vs ", ref[i].size()); });
  c.event("thread-tasks", (uint64_t)T * n); for (auto &t : tasks) c.event(t.first.c_str()); std::string sig; for (auto &r : ref) sig += cat(r.size(), ","); c.distinct(cat(l, T, before, sig));
}
template <typename Opt, typename X> Task man(std::shared_ptr<const Options> o, std::shared_ptr<const Scen> s, X x, const char *w) { return {w, [=] { Opt k(*o); return value(run(k, *s, x)); }}; }
// one const function object and one const option set used by all threads
template <typename X> Task shared(std::shared_ptr<const Options> o, std::shared_ptr<const Scen> s, X x, const char *w) {
  auto f = [s](const auto &xx) { const auto in = scalars(xx); using T = typename std::decay_t<decltype(in)>::value_type; const auto e = s->p.res(in); Vector<T, Dynamic> out(s->p.m); for (int i = 0; i < s->p.m; ++i) out[i] = e[i]; return out; };
  return {w, [=] { Rec r; X y = x; assign(y, s->x0); r.out = Optimize(y, f, *o); r.x = flat(y); return value(r); }}; }
template <typename X> Task sparse_auto(std::shared_ptr<const Options> o, std::shared_ptr<const Scen> s, X x, const char *w) {
  return {w, [=] { Rec r; X y = x; assign(y, s->x0); LMo<SparseMat> k(*o); r.out = k(y, [&](const auto &xx) { const auto in = scalars(xx); using T = typename std::decay_t<decltype(in)>::value_type; const auto e = s->p.res(in); Vector<T, Dynamic> out(s->p.m); for (int i = 0; i < s->p.m; ++i) out[i] = e[i]; return out; }); r.x = flat(y); return value(r); }}; }
template <typename X> Task numeric(std::shared_ptr<const Options> o, std::shared_ptr<const Scen> s, X x, const char *w) { auto f = [s](const auto &xx) requires std::is_same_v<std::decay_t<decltype(xx)>, X> { return s->p.r(flat(xx)); }; return {w, [=] { Rec r; X y = x; assign(y, s->x0); r.out = Optimize(y, f, *o); r.x = flat(y); return value(r); }}; }
struct Env { bool log = false;  std::shared_ptr<const Options> o[3]; std::shared_ptr<const Scen> s, s3, s6; int n; };
Env env(vh::Case &c) { Env e; e.log = c.rng.coin(0.12); for (int i = 0; i < 3; ++i) { Options q = rand_opts(c.rng, i); if (q.max_consec_failures == 0) q.max_consec_failures = 3; if (c.rng.coin(0.2)) { q.stop_callback = [](double, double, double) { return false; }; q.stop_callback2 = [](float, const VecXf &, const VecXf &) { return false; }; } if (e.log) rand_log(c.rng, q); e.o[i] = std::make_shared<const Options>(q); } e.n = c.rng.range(1, 8); e.s = std::make_shared<const Scen>(scen(c.rng, e.n, true)); e.s3 = std::make_shared<const Scen>(scen(c.rng, 3, true)); e.s6 = std::make_shared<const Scen>(scen(c.rng, 6, true)); return e; }
using V = std::vector<double>; using A6 = std::array<double, 6>; using P24 = std::pair<Vec2, Vec4>; using VX = std::vector<VecX>;
}  // namespace
#if VH_PART == 0 || VH_PART == 1
VH_SUITE(threads_manual, 1500, 30000) { const Env e = env(c); const VecX x = VecX::Zero(e.n); VX nx; for (int i = 0; i < e.n; ++i) nx.emplace_back(VecX::Zero(1)); concurrently(c, {man<LMo<MatX>>(e.o[1], e.s, x, "LM-VecX"), man<GNo<MatX>>(e.o[0], e.s, V(e.n), "GN-vector"), man<LMo<SparseMat>>(e.o[1], e.s, x, "LM-sparse"), man<LMo<Mat3>>(e.o[1], e.s3, Vec3(), "LM-Vec3"), man<LMo<MatX>>(e.o[1], e.s, nx, "LM-nested")}, e.log); }
#endif
#if VH_PART == 0 || VH_PART == 2
VH_SUITE(threads_manual2, 1500, 30000) { const Env e = env(c); const VecX x = VecX::Zero(e.n); concurrently(c, {man<GNo<SparseMat>>(e.o[0], e.s, x, "GN-sparse"), man<GDo<VecX>>(e.o[2], e.s, x, "GD-VecX"), man<GDo<Vec6>>(e.o[2], e.s6, A6(), "GD-array"), man<GNo<Mat6>>(e.o[0], e.s6, P24(), "GN-pair"), numeric(e.o[1], e.s3, Vec3(), "num-Vec3"), numeric(e.o[0], e.s, VecX(x), "num-VecX")}, e.log); }
#endif
#if VH_PART == 0 || VH_PART == 3
VH_SUITE(threads_auto, 1500, 30000) { const Env e = env(c); const VecX x = VecX::Zero(e.n); concurrently(c, {shared(e.o[1], e.s, x, "auto-VecX"), shared(e.o[0], e.s6, Vec6(), "auto-Vec6"), shared(e.o[1], e.s, V(e.n), "auto-vector"), shared(e.o[1], e.s6, Six<double>(), "auto-user-defined"), sparse_auto(e.o[1], e.s, x, "auto-sparse"), shared(e.o[1], e.s6, P24(), "auto-pair")}, e.log); }
#endif
#if VH_PART == 0 || VH_PART == 4
VH_SUITE(threads_functions, 2000, 40000) {
  vh::Rng &g = c.rng; const int n = g.range(1, 6); VecX a(n), b(n); MatX M(n, n); for (int i = 0; i < n; ++i) { a[i] = g.normal(); b[i] = g.normal(); for (int j = 0; j < n; ++j) M(i, j) = g.normal(); } M = (M * M.transpose() + 0.3 * MatX::Identity(n, n)).eval(); SparseMat Ms = M.sparseView(); const double th = g.uni(0.2, 2); Vec3 f3(g.normal(), g.normal(), g.normal());
  auto s = std::make_shared<const Scen>(scen(g, n, false)); using namespace losses; std::vector<Task> t;
  t.push_back({"solve", [=] { Val v; if (auto r = SolveLDLT(M, a)) put(v, *r); if (auto r = InvCov(M)) put(v, *r); if (auto r = SolveLDLT(Ms, a)) put(v, *r); if (auto r = InvCov(Ms)) put(v, MatX(*r)); return v; }});
  t.push_back({"norms", [=] { Val v; put(v, L2(a)); put(v, SquaredL2(a)); put(v, L1(a)); put(v, Linf(a)); { auto [n2, J] = SquaredL2(a, true); put(v, n2); put(v, J); } { auto [q, J] = L2(a, true); put(v, q); put(v, J); } { auto [q, J] = L1(a, true); put(v, q); put(v, J); } { auto [q, J] = Linf(a, true); put(v, q); put(v, J); } return v; }});
  t.push_back({"robust", [=] { Val v; const double n2 = a.squaredNorm(); auto add = [&](auto p) { put(v, p.first); put(v, (double)p.second); }; add(Huber(n2, th * th, true)); add(Tukey(n2, th * th, true)); add(Arctan(n2, th * th, true)); add(Cauchy(n2, th * th, true)); add(GemanMcClure(n2, th * th, true)); add(BlakeZisserman(n2, 1e-2, true)); return v; }});
  t.push_back({"mahalanobis", [=] { Val v; put(v, MahaSquaredNorm(a, M)); { auto [q, J] = MahaWhitened(a, M, true); put(v, q); put(v, J); } put(v, MahaNorm(a, M)); return v; }});
  t.push_back({"activations", [=] { Val v; put(v, Sigmoid(a)); put(v, Tanh(a)); put(v, ReLU(a)); put(v, Softmax(a)); return v; }});
  t.push_back({"derivatives", [=] { Val v; auto fa = [=](const auto &x) { using T = typename std::decay_t<decltype(x)>::Scalar; Vector<T, 2> o; o[0] = x[0] * x[1] + sin(x[2]); o[1] = exp(x[0]) - x[2] * x[2]; return o; }; { auto [r, J] = diff::Eval(f3, fa); put(v, r); put(v, J); } { auto [r, J] = diff::NumEval(f3, fa); put(v, r); put(v, J); } put(v, diff::CalculateJac(f3, fa)); return v; }});
  t.push_back({"dynamic-derivatives", [=] { Val v; auto fa = [&](const auto &x) { const auto in = scalars(x); using T = typename std::decay_t<decltype(in)>::value_type; const auto e = s->p.res(in); Vector<T, Dynamic> o(s->p.m); for (int i = 0; i < s->p.m; ++i) o[i] = e[i]; return o; }; auto [r, J] = diff::Eval(a, fa); put(v, r); put(v, J); auto rf = [&](const VecX &x) { return s->p.r(x); }; auto f1 = diff::CreateNumDiffFunc2(a, rf); VecX gr = VecX::Zero(n); MatX H = MatX::Zero(n, n); put(v, Cost(f1(a, gr, H)).cost); put(v, gr); put(v, H); return v; }});
  t.push_back({"distances", [=] { Val v; auto add = [&](const auto &q) { put(v, std::get<0>(q)); put(v, std::get<1>(q)); put(v, std::get<2>(q)); }; add(distances::Euclidean(a, b, true)); add(distances::Manhattan(a, b, true)); add(distances::Linf(a, b, true)); add(distances::Cosine(a, b, true)); add(distances::MahaNorm(a, b, M, true)); return v; }});
  t.push_back({"activation-derivatives", [=] { Val v; auto add = [&](const auto &q) { put(v, q.first); put(v, q.second); }; add(Sigmoid(a, true)); add(Tanh(a, true)); add(ReLU(a, true)); add(LeakyReLU(a, 0.1, true)); add(Softmax(a, true)); add(SafeSoftmax(a, true)); return v; }});
  t.push_back({"float", [=] { Val v; const MatXf Mf = M.cast<float>(); const VecXf af = a.cast<float>(); if (auto r = SolveLDLT(Mf, af)) put(v, *r); if (auto r = InvCov(Mf)) put(v, *r); { auto [q, J] = L2(af, true); put(v, q); put(v, J); } { auto [q, J] = MahaWhitened(af, Mf, true); put(v, q); put(v, J); } return v; }});
  t.push_back({"gradient-check", [=] { Val v; const MatX Q = M; auto f = [&](const auto &x, auto &gr) { const VecX q = Q * x; if constexpr (!traits::is_nullptr_v<decltype(gr)>) gr = 2 * q * (1 + (int)(th * 2) % 2); return x.dot(q); }; v.push_back(diff::CheckGradient(a, f)); return v; }});
  t.push_back({"costs", [=] { Val v; Cost k(th, 3); k += Cost(2 * th, 4); v.push_back(k.cost); v.push_back((double)vh::hash_str(k.toString())); Output o; o.stop_reason = StopReason::kMaxIters; v.push_back((double)vh::hash_str(StopReasonDescription(o))); return v; }});
  concurrently(c, t);
}
#endif
