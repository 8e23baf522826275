// Gradient descent with automatic derivatives: scalar costs of either sign, every parameter type.
#include "prob.h"
using namespace pb;
using vh::cat;
namespace {
using V = std::vector<double>; using A3 = std::array<double, 3>; using P12 = std::pair<double, Vec2>; using P2X = std::pair<Vec2, VecX>; using M23 = Matrix<double, 2, 3>;
// cost = off + sum of weights times simple terms, value and gradient known independently
struct Scalar1 { int n; double off; vector<int> kind; vector<double> w, t; vector<std::pair<int, int>> cross; vector<double> cw;
  template <typename T> T operator()(const vector<T> &x) const { using std::exp; using std::sin; using S = decltype(Prob::sc(T())); T s = T(S(off));
    for (int i = 0; i < n; ++i) { const T u = x[i] - S(t[i]); switch (kind[i]) { case 1: s += S(w[i]) * sin(u); break; case 2: s += S(w[i]) * exp(S(0.5) * u); break; case 3: s += S(w[i]) * u; break; default: s += S(w[i]) * u * u; } }
    for (size_t k = 0; k < cross.size(); ++k) s += S(cw[k]) * x[cross[k].first] * x[cross[k].second]; return s; }
  VecD grad(const VecD &x) const { VecD g(n); for (int i = 0; i < n; ++i) { const double u = x[i] - t[i]; switch (kind[i]) { case 1: g[i] = w[i] * std::cos(u); break; case 2: g[i] = 0.5 * w[i] * std::exp(0.5 * u); break; case 3: g[i] = w[i]; break; default: g[i] = 2 * w[i] * u; } }
    for (size_t k = 0; k < cross.size(); ++k) { g[cross[k].first] += cw[k] * x[cross[k].second]; g[cross[k].second] += cw[k] * x[cross[k].first]; } return g; }
  double at(const VecD &x) const { vector<double> v(x.data(), x.data() + x.size()); return (*this)(v); } };
Scalar1 random_cost(vh::Rng &g, int n, bool fl) { auto r = [&](double v) { return fl ? (double)(float)v : v; }; Scalar1 s; s.n = n; s.off = r(g.coin() ? -g.logu(1e-1, 1e2) : g.logu(1e-1, 1e2));
  for (int i = 0; i < n; ++i) { s.kind.push_back(g.range(0, 3)); s.w.push_back(r(s.kind[i] == 0 ? g.logu(0.05, 2) : g.normal())); s.t.push_back(r(g.normal())); }
  for (int k = g.range(0, 2); k-- && n > 1;) { s.cross.push_back({g.range(0, n - 1), g.range(0, n - 1)}); s.cw.push_back(r(0.3 * g.normal())); } return s; }
template <typename X> void go(vh::Case &c, X x, int n, const char *what, bool fl = false) {
  vh::Rng &g = c.rng; const Scalar1 s = random_cost(g, n, fl); VecD x0(n); for (int i = 0; i < n; ++i) { x0[i] = g.normal(); if (fl) x0[i] = (float)x0[i]; } assign(x, x0);
  Options o = opts(Options::GradientDescent); o.gd.lr = (float)g.logu(1e-4, 0.3); o.max_iters = g.range(0, 5); o.min_error = 0; o.min_rerr_dec = 0; o.min_step_norm2 = 0; o.min_grad_norm2 = 0; o.max_consec_failures = 0; if (g.coin(0.3)) o.grad_clipping = (float)g.logu(1e-2, 2); o.check_final_cost = g.coin(0.3);
  const double scale = (o.cost.downscale_by_2 = g.coin(0.2)) ? 0.5 : 1; const bool through = g.coin();
  vector<VecD> pts; vector<double> fs;
  auto f = [&](const auto &y) { const auto in = scalars(y); VecD v(in.size()); for (size_t i = 0; i < in.size(); ++i) v[(long)i] = val(in[i]); pts.push_back(v); if (pts.size() > 2000) throw TooMany{}; auto r = s(in); fs.push_back(val(r)); return r; };
  Output out; using G = Vector<typename traits::params_trait<X>::Scalar, traits::params_trait<X>::Dims>;
  if (through) out = Optimize(x, f, o); else { gd::Optimizer<G> k(o); out = k(x, f); }
  const VecD xe = flat(x); const double eps = fl ? 1e-6 : 1e-14; double best = INFINITY;
  auto det = [&](int i) { return cat(what, " n=", n, " offset ", s.off, " lr ", o.gd.lr, " clip ", o.grad_clipping, " evaluation ", i, " cost ", i < (int)fs.size() ? fs[i] : NAN, " x=", i < (int)pts.size() ? vh::mat(pts[i]) : std::string()); };
  c.check((int)pts.size() == out.num_iters && ((int)out.errs.size() == out.num_iters || out.stop_reason < StopReason::kNone), "evaluations-and-iterations", [&] { return cat(det(0), " evaluations ", pts.size(), " iterations ", out.num_iters, " costs ", out.errs.size()); });
  for (int i = 0; i < (int)pts.size() && i < (int)out.errs.size(); ++i) {
    c.check(std::abs(out.errs[i] - scale * fs[i]) <= 1e3 * eps * (1 + std::abs(fs[i])), "automatic-cost-wrong", [&] { return cat(det(i), " reported ", out.errs[i]); });
    const double tol = 1e-9 * (1 + std::abs(fs[i])) + (fl ? 1e-5 * (1 + std::abs(fs[i])) : 0); const bool good = fs[i] < best - tol; if (!good && std::abs(fs[i] - best) <= tol) break;   // rounding decides from here on
    if (!good) { c.event("rejected"); if (i + 1 < (int)pts.size()) break; }
    else { best = fs[i]; c.event(fs[i] < 0 ? "accepted-below-zero" : "accepted");
      const bool last = i + 1 == (int)pts.size(); if (last && o.check_final_cost && out.num_iters == o.max_iters + 2) break;
      const VecD to = last ? xe : pts[i + 1], d = to - pts[i], gr = s.grad(pts[i]); const double rnd = 40 * eps * (1 + pts[i].norm()), gn = gr.norm();
      if (!(std::abs(fs[i]) > 1e-3) || !(d.norm() > 1e5 * rnd) || !(gn > 1e-6 * (1 + std::abs(s.off)))) { c.event("too-small"); if (d.norm() <= rnd && gn > 1e-3 && std::abs(fs[i]) > 1e-2 && o.gd.lr * std::min(1e-3, o.grad_clipping > 0 ? (double)o.grad_clipping : 1.) > 1e6 * rnd) c.check(false, "automatic-no-step", [&] { return cat(det(i), " gradient ", vh::mat(gr)); }); continue; }
      const double slack = rnd + (fl ? 1e-4 : 1e-7) * d.norm();
      if (o.grad_clipping == 0) { const VecD want = -gr * (d.norm() / gn); c.check((d - want).norm() <= slack, "automatic-step-direction", [&] { return cat(det(i), " step ", vh::mat(d), " gradient ", vh::mat(gr)); }); c.event("directions"); }
      else { bool ok = true; const double lim = (double)o.gd.lr * o.grad_clipping; double k = INFINITY;   // one positive factor explains every component that is not limited
        for (int j = 0; j < n; ++j) { if (d[j] * gr[j] > 0 && std::abs(d[j]) > slack && std::abs(gr[j]) > 1e-6) ok = false; if (std::abs(d[j]) > lim * (1 + 1e-4) + slack) ok = false; if (std::abs(gr[j]) > 1e-2 && std::abs(d[j]) < lim * (1 - 1e-4) - slack) { const double q = std::abs(d[j] / gr[j]), e = slack / std::abs(gr[j]); if (!std::isfinite(k)) k = q; else if (std::abs(k - q) > 1e-3 * k + 4 * e) ok = false; } }
        c.check(ok, "automatic-clipped-step", [&] { return cat(det(i), " step ", vh::mat(d), " gradient ", vh::mat(gr)); }); c.event("clipped"); }
      c.check(std::abs(out.deltas2[i] - d.squaredNorm()) <= 4 * slack * (d.norm() + slack), "automatic-step-norm", [&] { return cat(det(i), " reported ", out.deltas2[i], " observed ", d.squaredNorm()); });
    }
  }
  c.distinct(cat(what, n, s.off < 0, o.grad_clipping > 0, through, out.num_failures > 0));
}
}  // namespace
VH_SUITE(gd_automatic, 3000, 40000) {
  const int n = c.rng.range(1, 6);
  go(c, double(), 1, "double"); go(c, Vec2(), 2, "Vec2"); go(c, VecX(VecX::Zero(n)), n, "VecX"); go(c, V(n), n, "vector"); go(c, A3(), 3, "array"); go(c, P12(), 3, "pair");
  { P2X q; q.second.resize(n); go(c, q, n + 2, "pair-dynamic"); } go(c, M23(), 6, "matrix"); go(c, Six<double>(), 6, "user-defined"); { Dyn<double> q; q.k.resize(n); go(c, q, n, "user-dynamic"); }
  go(c, float(), 1, "float", true); go(c, Vec3f(), 3, "Vec3f", true); go(c, VecXf(VecXf::Zero(n)), n, "VecXf", true);
}
