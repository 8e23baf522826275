// Aggregation of costs: values, residual counts, inlier counts and log texts.
#include "ref.h"
#include "compat.h"
#include <tinyopt/cost.h>
using namespace tinyopt;
using vh::cat;
namespace {
struct Model { long double cost = 0, mag = 0; long n = 0, in = 0; std::vector<std::string> logs; double tol = 1e-13; };
// what a residual matrix contributes
template <typename M> void fillm(vh::Rng &r, M &m) { const double s = r.logu(1e-3, 1e3); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) m(i, j) = (typename M::Scalar)(s * r.normal()); }
template <typename M> long double sq(const M &m) { long double s = 0; for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) s += (long double)m(i, j) * m(i, j); return s; }
void judge(vh::Case &c, const Cost &k, const Model &m, const std::string &h) {
  auto det = [&] { return cat(h, " -> cost=", k.cost, " n=", compat::count(k), " in=", k.NumInliers(), " ratio=", k.inlier_ratio, " log='", k.log_str, "' want cost=", (double)m.cost, " n=", m.n, " in=", m.in); };
  c.check(std::abs((long double)k.cost - m.cost) <= m.tol * m.mag + 1e-300L, "cost", det);
  c.check((double)k == k.cost, "cast", det);
  c.check(compat::count(k) == m.n, "num-residuals", det);
  c.check(k.NumInliers() + k.NumOutliers() == compat::count(k), "inliers-plus-outliers", det);
  c.check(k.NumInliers() == m.in, "num-inliers", det);
  c.check(k.NumInliers() >= 0 && k.NumOutliers() >= 0, "negative-count", det);
  size_t p = 0; bool ok = true; for (auto &l : m.logs) { p = k.log_str.find(l, p); if (p == std::string::npos) { ok = false; break; } p += l.size(); }
  c.check(ok, "log-lost", det); if (m.logs.empty()) c.check(k.log_str.find_first_not_of(' ') == std::string::npos, "log-invented", det);
  c.check(k.isValid() == (m.n > 0), "valid", det);
  c.event("states");
}
template <typename M> void mats(vh::Case &c, M m, const char *nm) {
  fillm(c.rng, m); Model w; w.cost = w.mag = sq(m); w.n = w.in = m.size(); w.tol = sizeof(typename M::Scalar) == 4 ? 1e-5 : 1e-13;
  judge(c, Cost(m), w, cat("Cost(", nm, ")")); Cost k; k = m; judge(c, k, w, cat("= ", nm)); Cost a; a += m; judge(c, a, w, cat("+= ", nm));
  Cost b(2.0, 3); b += m; Model w2 = w; w2.cost += 2; w2.mag += 2; w2.n += 3; w2.in += 3; judge(c, b, w2, cat("Cost(2,3) += ", nm));
  const long n = m.size(); if (n) { const long in = c.rng.range(0, (int)n); Cost d(m, (float)in / (float)n, "L"); Model w3 = w; w3.in = in; w3.logs = {"L"}; judge(c, d, w3, cat("Cost(", nm, ",ratio,log)")); }
  c.event("residual-matrices");
}
}  // namespace
VH_SUITE(cost_sequences, 20000, 400000) {
  Cost k; Model m; std::string h = "Cost()"; const bool big = c.rng.coin(0.2);
  const int steps = c.rng.range(1, 30);
  for (int s = 0; s < steps; ++s) {
    switch (c.rng.range(0, 5)) {
      case 0: case 1: {  // accumulate a cost with inliers
        const long n = c.rng.coin(0.1) ? 0 : big ? c.rng.range(1, 20000) : c.rng.range(1, 12), in = c.rng.coin(0.3) ? n : c.rng.coin(0.2) ? 0 : c.rng.range(0, (int)n);
        const double v = c.rng.coin(0.1) ? 0 : c.rng.sgn() * c.rng.logu(1e-6, 1e6); std::string l = c.rng.coin(0.3) ? cat("<", s, ">") : "";
        const Cost o(v, (int)n, n ? (float)in / (float)n : 1.f, l); const Cost o2 = o; k += o;
        m.cost += v; m.mag += std::abs(v); m.n += n; m.in += n ? in : 0; if (!l.empty()) m.logs.push_back(l);
        c.check(o.cost == o2.cost && compat::count(o) == compat::count(o2) && o.inlier_ratio == o2.inlier_ratio && o.log_str == o2.log_str, "argument-modified", [&] { return h; });
        h += cat(" += Cost(", v, ",", n, ",", in, ",'", l, "')"); break; }
      case 2: { const double v = c.rng.normal(); k += Cost(v); m.cost += v; m.mag += std::abs(v); m.n += 1; m.in += 1; h += cat(" += Cost(", v, ")"); break; }
      case 3: { VecX r(c.rng.range(0, 6)); fillm(c.rng, r); k += r; m.cost += sq(r); m.mag += sq(r); m.n += r.size(); m.in += r.size(); h += cat(" += VecX(", r.size(), ")"); break; }
      case 4: { Mat23 r; fillm(c.rng, r); k += r; m.cost += sq(r); m.mag += sq(r); m.n += 6; m.in += 6; h += " += Mat23"; break; }
      default: { Vec3 r; fillm(c.rng, r); if (c.rng.coin()) k += r * 2.0; else k += (r + r); m.cost += 4 * sq(r); m.mag += 4 * sq(r); m.n += 3; m.in += 3; h += " += Vec3 expression"; break; }
    }
    if (h.size() > 900) h = "..." + h.substr(h.size() - 800);
    judge(c, k, m, h);
  }
  // adding costs gathered apart gives the same as adding one by one
  Cost copy = k; Cost twice = k; twice += copy; Model m2 = m; m2.cost *= 2; m2.mag *= 2; m2.n *= 2; m2.in *= 2; m2.logs.insert(m2.logs.end(), m.logs.begin(), m.logs.end()); judge(c, twice, m2, h + " doubled");
  c.distinct(cat(steps, "/", m.n, "/", m.in));
}
VH_SUITE(cost_matrices, 4000, 80000) {
  mats(c, Vec1(), "Vec1"); mats(c, Vec3(), "Vec3"); mats(c, Vec4f(), "Vec4f"); mats(c, VecX(c.rng.range(1, 40)), "VecX"); mats(c, VecXf(c.rng.range(1, 9)), "VecXf"); mats(c, Mat23(), "Mat23"); mats(c, MatX(c.rng.range(1, 5), c.rng.range(1, 5)), "MatX"); mats(c, Eigen::Matrix<double, 1, 4>(), "row");
  mats(c, VecX(0), "VecX(0)");
}
VH_SUITE(cost_compare, 2000, 20000) {
  const double a = c.rng.coin(0.1) ? INFINITY : c.rng.normal(), b = c.rng.coin(0.2) ? a : c.rng.coin(0.1) ? NAN : c.rng.normal(); const Cost A(a, c.rng.range(0, 5)), B(b, c.rng.range(0, 5));
  auto det = [&] { return cat(a, " vs ", b); };
  c.check((A < B) == (a < b) && (A <= B) == (a <= b) && (A < b) == (a < b) && (A <= b) == (a <= b), "comparison", det); const float f = (float)b; c.check((A < f) == (a < f) && (A <= f) == (a <= f), "comparison-float", det);
  c.event("comparisons"); c.distinct(cat(a < b, a == b, std::isnan(b)));
}
