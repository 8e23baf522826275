// Dual-number arithmetic of random programs, compared with an independent differentiation in long double.
#include "tape.h"
#include <tinyopt/tinyopt.h>
#include <tinyopt/diff/auto_diff.h>
using namespace tinyopt;
using vh::cat;
namespace {
template <typename J> bool has_v(const J &j, int n) { return (int)j.v.size() == n; }
template <typename S, int N> void fixed(vh::Case &c, const tp::Tape &t, const std::vector<double> &x, const tp::Ref &R) {
  using Jt = diff::Jet<S, N>; std::vector<Jt> in;
  for (int i = 0; i < t.n; ++i) { Jt j(S(x[i])); j.v.setZero(); j.v[i] = 1; in.push_back(j); }
  const auto o = tp::run<Jt, S>(t, in);
  for (size_t i = t.n; i < o.size(); ++i) {
    const auto &q = t.ins[i - t.n];
    bool ok = std::abs((double)o[i].a - (double)R.r[i].a) <= R.da[i];
    c.check(ok, "dual-value", [&] { return cat(tp::op_name(q.op), " r", i, "=", o[i].a, " expected ", (double)R.r[i].a, " | ", tp::show(t)); });
    for (int k = 0; k < N && ok; ++k) ok &= std::abs((double)o[i].v[k] - (k < t.n ? (double)R.r[i].v[k] : 0.0)) <= (k < t.n ? R.dv[i][k] : 0);
    if (!c.check(ok, cat("dual-derivative/", tp::op_name(q.op)).c_str(), [&] { return cat(tp::op_name(q.op), sizeof(S) == 4 ? " float" : "", " r", i, " a=", o[i].a, " v=", vh::mat(o[i].v), " expected ", (double)R.r[i].a, " [", (double)R.r[i].v[0], " ", (double)R.r[i].v[1], " ", (double)R.r[i].v[2], "] | x=", x[0], " ", x.size() > 1 ? x[1] : 0., " ", x.size() > 2 ? x[2] : 0., " | ", tp::show(t)); })) return;
  }
  c.event("dual-operations", t.ins.size());
}
void dynamic(vh::Case &c, const tp::Tape &t, const std::vector<double> &x, const tp::Ref &R) {
  using Jt = diff::Jet<double, Dynamic>; std::vector<Jt> in;
  for (int i = 0; i < t.n; ++i) { Jt j(x[i]); j.v = VecX::Unit(t.n, i); in.push_back(j); }
  const auto o = tp::run<Jt, double>(t, in);
  for (size_t i = t.n; i < o.size(); ++i) {
    const auto &q = t.ins[i - t.n];
    bool ok = std::abs(o[i].a - (double)R.r[i].a) <= R.da[i] && (o[i].v.size() == 0 || o[i].v.size() == t.n);
    for (int k = 0; k < t.n && ok; ++k) ok &= std::abs((o[i].v.size() ? o[i].v[k] : 0.0) - (double)R.r[i].v[k]) <= R.dv[i][k];
    if (!c.check(ok, cat("dynamic-dual/", tp::op_name(q.op)).c_str(), [&] { return cat(tp::op_name(q.op), " r", i, " a=", o[i].a, " v=", vh::mat(o[i].v), " expected ", (double)R.r[i].a, " ", (double)R.r[i].v[0], " | ", tp::show(t)); })) return;
  }
  c.event("dynamic-dual-operations", t.ins.size());
}
void all(vh::Case &c, const tp::Tape &t, const std::vector<double> &x) {
  const auto R = tp::reference<double>(t, x, c.rng);
  const auto p = tp::run<double, double>(t, x);
  for (size_t i = 0; i < p.size(); ++i) if (std::abs(p[i] - (double)R.r[i].a) > R.da[i]) throw vh::Inconclusive("reference disagrees with plain evaluation");
  c.label(tp::show(t));
  if (t.n <= 3) fixed<double, 3>(c, t, x, R); else fixed<double, 4>(c, t, x, R);
  dynamic(c, t, x, R);
  if (c.index % 3 == 0) { bool fl = true; for (auto &q : t.ins) fl &= q.op != tp::J0 && q.op != tp::J1 && q.op != tp::JN;
    if (fl) { std::vector<double> xf; for (double v : x) xf.push_back((float)v); tp::Tape tf = t; for (auto &q : tf.ins) q.c = (float)q.c; fixed<float, 4>(c, tf, xf, tp::reference<float>(tf, xf, c.rng)); } }
  for (auto &q : t.ins) c.distinct(cat(tp::op_name(q.op), q.i < t.n, q.j < t.n));
}
}
VH_SUITE(dual_single_op, 16320, 81600) {
  const int n = c.rng.range(1, 4); std::vector<double> x(n); for (auto &v : x) v = 1.5 * c.rng.normal();
  const auto t = tp::make(c.rng, x, c.rng.range(1, 2), true, (int)(c.index % tp::OPS));
  if (t.ins.empty()) throw vh::Inconclusive("no valid operation");
  all(c, t, x);
}
VH_SUITE(dual_programs, 24000, 120000) {
  const int n = c.rng.range(1, 4); std::vector<double> x(n); for (auto &v : x) v = c.rng.coin(0.1) ? c.rng.range(-2, 2) : 1.5 * c.rng.normal();
  const auto t = tp::make(c.rng, x, c.rng.range(2, 14), c.rng.coin(0.3));
  if (t.ins.empty()) throw vh::Inconclusive("no valid operation");
  all(c, t, x);
}
// Very small, very large and nearly singular arguments
VH_SUITE(dual_wide, 20400, 102000) {
  const int n = c.rng.range(1, 3); const double k = c.rng.coin() ? c.rng.logu(1e-8, 1e4) : 0; std::vector<double> x(n);
  for (auto &v : x) v = k ? k * c.rng.normal() : (c.rng.coin() ? 1 : -1) * c.rng.logu(1e-8, 1e4);
  struct Wide { Wide() { tp::wide() = true; } ~Wide() { tp::wide() = false; } } w;
  const auto t = tp::make(c.rng, x, c.rng.range(1, 2), true, (int)(c.index % tp::OPS));
  if (t.ins.empty()) throw vh::Inconclusive("no valid operation");
  all(c, t, x); c.event("wide-range");
}
// Run-time sized duals: an operand holding a constant has no derivative storage at all
VH_SUITE(dual_constants, 16000, 80000) {
  const int n = c.rng.range(1, 3); std::vector<double> x(n); for (auto &v : x) v = 1.5 * c.rng.normal();
  tp::Tape t = tp::make(c.rng, x, 2, false, tp::CONST);
  // every operation once with the constant on either side
  for (int k = 0; k < 6; ++k) {
    tp::Ins q; q.op = c.rng.range(0, tp::OPS - 1); if (q.op >= tp::J0 && q.op <= tp::JN) continue;
    const auto r = tp::run<double, double>(t, x);
    auto pick = [&] { return c.rng.coin() ? n : c.rng.range(0, (int)r.size() - 1); };
    q.i = pick(); q.j = pick(); q.k = pick(); q.c = q.op == tp::POWNEG ? c.rng.range(-2, 3) : c.rng.normal();
    if (tp::domain(q, r[q.i], r[q.j], r[q.k])) { tp::Tape u = t; u.ins.push_back(q); const auto z = tp::run<double, double>(u, x); if (std::abs(z.back()) < 1e3) t = u; }
  }
  all(c, t, x);
}
// Special points with a defined derivative
VH_SUITE(dual_edges, 800, 3200) {
  using Jt = diff::Jet<double, 2>; using Jd = diff::Jet<double, Dynamic>;
  auto var = [](double a, int i) { Jt j(a); j.v = Vec2::Unit(i); return j; };
  auto vard = [](double a, int i) { Jd j(a); j.v = VecX::Unit(2, i); return j; };
  auto eq = [&](const char *what, const auto &r, double a, double v0, double v1) {
    const double w0 = r.v.size() ? r.v[0] : 0, w1 = r.v.size() ? r.v[1] : 0;
    c.check(vh::close(r.a, a, 1e-13, 1e-300) && vh::close(w0, v0, 1e-12, 1e-14) && vh::close(w1, v1, 1e-12, 1e-14), cat("dual-edge/", what).c_str(), [&] { return cat(what, " a=", r.a, " v=", w0, " ", w1, " expected ", a, " ", v0, " ", v1); });
    c.event("edge-derivatives");
  };
  const double p = c.rng.uni(1.5, 4), k = c.rng.range(2, 5);
  eq("pow(0,p)", pow(var(0, 0), p), 0, 0, 0); eq("pow(0,k)", pow(vard(0, 0), k), 0, 0, 0); eq("pow(0,1)", pow(var(0, 0), 1.0), 0, 1, 0);
  eq("0^g", pow(0.0, var(p, 1)), 0, 0, 0); eq("0^g dyn", pow(0.0, vard(p, 1)), 0, 0, 0);
  eq("pow(0,jet p)", pow(var(0, 0), var(p, 1)), 0, 0, 0); eq("pow(0,jet p) dyn", pow(vard(0, 0), vard(p, 1)), 0, 0, 0);
  eq("pow(0,const 1)", pow(var(0, 0), Jt(1.0)), 0, 1, 0); eq("pow(0,const 1) dyn", pow(vard(0, 1), Jd(1.0)), 0, 0, 1); eq("pow(0,jet 1)", pow(var(0, 0), var(1, 1)), 0, 1, 0);
  eq("pow(neg,const int)", pow(var(-p, 0), Jt(k)), std::pow(-p, k), k * std::pow(-p, k - 1), 0); eq("pow(neg,const int) dyn", pow(vard(-p, 1), Jd(k)), std::pow(-p, k), 0, k * std::pow(-p, k - 1));
  eq("(-p)^const", pow(-p, Jt(k)), std::pow(-p, k), 0, 0); eq("(-p)^const dyn", pow(-p, Jd(k)), std::pow(-p, k), 0, 0);
  // an integer power of a negative number is not differentiable in its exponent; the rest must be right
  { const auto a = pow(-p, var(k, 1)); const auto b = pow(-p, vard(k, 1)); const auto d = pow(var(-p, 0), var(k, 1)); const auto e = pow(vard(-p, 0), vard(k, 1));
    c.check(vh::close(a.a, std::pow(-p, k), 1e-13, 0) && vh::close(b.a, a.a, 1e-13, 0) && a.v[0] == 0 && b.v.size() == 2 && b.v[0] == 0, "dual-edge/(-p)^g", [&] { return cat(a.a, " ", vh::mat(a.v), " ", b.a, " ", vh::mat(b.v)); });
    c.check(vh::close(d.v[0], k * std::pow(-p, k - 1), 1e-12, 0) && e.v.size() == 2 && vh::close(e.v[0], d.v[0], 1e-12, 0), "dual-edge/(-f)^g", [&] { return cat(vh::mat(d.v), " ", vh::mat(e.v)); }); }
  eq("abs(-0.0)", abs(var(0.0, 0)), 0, 1, 0);
  eq("0*x", Jt(0.0) * var(p, 0), 0, 0, 0); eq("x-x", var(p, 0) - var(p, 0), 0, 0, 0); eq("x/x", var(p, 0) / var(p, 0), 1, 0, 0);
  eq("fmax equal", fmax(var(p, 0), var(p, 1)), p, .5, .5); eq("fmin equal dyn", fmin(vard(p, 0), vard(p, 1)), p, .5, .5);
  eq("tanh large", tanh(var(50 * p, 0)), 1, 0, 0); eq("hypot axis", hypot(var(0, 0), var(-p, 1)), p, 0, -1);
  eq("const dyn", Jd(3.) * Jd(2.) - Jd(1.), 5, 0, 0); eq("atan2 axis", atan2(var(0, 0), var(p, 1)), 0, 1 / p, 0);
  c.check((var(p, 0) < var(p + 1, 1)) && (var(p, 0) <= p) && (p + 1 > var(p, 0)) && (var(p, 0) == p) && (vard(p, 0) != p + 1) && !(vard(p, 0) >= p + 1e-9), "dual-comparison");
  c.check(!isnan(var(p, 0)) && isfinite(vard(p, 0)) && isnan(Jt(NAN)) && isinf(Jd(INFINITY)) && signbit(var(-p, 0)), "dual-classification");
}
