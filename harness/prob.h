// Least-squares problems with exact derivatives, runs of them in any formulation, and comparison of runs.
#pragma once
#include "vh.h"
#include <tinyopt/tinyopt.h>
#include <array>
#include <Eigen/Dense>
namespace pb {
using namespace tinyopt;
using VecD = Eigen::VectorXd; using MatD = Eigen::MatrixXd; using std::vector;

// ---- visiting the scalars of any parameter type, independently of the library's traits
template <typename T> struct leaf : std::is_floating_point<T> {};
template <typename S, int N> struct leaf<diff::Jet<S, N>> : std::true_type {};
template <typename X, typename F> void vis(X &x, F &&f) {
  using U = std::remove_const_t<X>;
  if constexpr (leaf<U>::value) f(x);
  else if constexpr (requires { x.first; x.second; }) { vis(x.first, f); vis(x.second, f); }
  else if constexpr (requires { x.each_scalar(f); }) x.each_scalar(f);
  else if constexpr (requires { x.rows(); x.cols(); }) { for (long c = 0; c < x.cols(); ++c) for (long r = 0; r < x.rows(); ++r) vis(x(r, c), f); }
  else for (auto &e : x) vis(e, f);
}
inline double val(double v) { return v; } inline double val(float v) { return v; }
template <typename S, int N> double val(const diff::Jet<S, N> &j) { return j.a; }
template <typename X> VecD flat(const X &x) { vector<double> o; vis(x, [&](const auto &e) { o.push_back(val(e)); }); return Eigen::Map<VecD>(o.data(), (long)o.size()); }
template <typename X> auto scalars(const X &x) {   // copies, keeping duals
  if constexpr (leaf<X>::value) return vector<X>{x};
  else { auto probe = [](const auto &self, const auto &y) { using Y = std::decay_t<decltype(y)>; if constexpr (leaf<Y>::value) return Y(y); else if constexpr (requires { y.first; }) return self(self, y.first); else if constexpr (requires { typename Y::Leaf; }) return typename Y::Leaf{}; else if constexpr (requires { y.rows(); y.cols(); }) return typename Y::Scalar{}; else return self(self, *y.begin()); };
    using T = decltype(probe(probe, x)); vector<T> o; vis(x, [&](const auto &e) { o.push_back(e); }); return o; }
}
template <typename X> void assign(X &x, const VecD &v) { long i = 0; vis(x, [&](auto &e) { e = (std::decay_t<decltype(e)>)v[i++]; }); }

// user-defined parameters
template <typename T> struct Six { using Scalar = T; using Leaf = T; static constexpr Index Dims = 6;   // fixed size
  Vector<T, 3> p = Vector<T, 3>::Zero(), q = Vector<T, 3>::Zero();
  template <typename F> void each_scalar(F &&f) { for (int i = 0; i < 3; ++i) f(p[i]); for (int i = 0; i < 3; ++i) f(q[i]); }
  template <typename F> void each_scalar(F &&f) const { for (int i = 0; i < 3; ++i) f(p[i]); for (int i = 0; i < 3; ++i) f(q[i]); }
  template <typename T2> Six<T2> cast() const { Six<T2> o; o.p = p.template cast<T2>(); o.q = q.template cast<T2>(); return o; }
  Six &operator+=(const auto &d) { p += d.template head<3>(); q += d.template tail<3>(); return *this; } };
template <typename T> struct Dyn { using Scalar = T; using Leaf = T;                                     // run-time size
  vector<T> k; Index dims() const { return (Index)k.size(); }
  template <typename F> void each_scalar(F &&f) { for (auto &e : k) f(e); }
  template <typename F> void each_scalar(F &&f) const { for (auto &e : k) f(e); }
  template <typename T2> Dyn<T2> cast() const { Dyn<T2> o; for (auto &e : k) o.k.push_back(T2(e)); return o; }
  Dyn &operator+=(const auto &d) { for (size_t i = 0; i < k.size(); ++i) k[i] += d[(Index)i]; return *this; } };

// ---- problems: r_i = k phi(u_i), u = A x - b
struct Prob {
  int n = 0, m = 0, kind = 0; double w = 0, k = 1; vector<double> A, b;   // A row-major
  template <typename T> T phi(const T &u) const { using std::atan; using std::sin; switch (kind) { case 1: return u + T(w) * sin(u); case 2: return u + T(w) * u * u; case 3: return atan(T(w) * u); default: return u; } }
  double dphi(double u) const { switch (kind) { case 1: return 1 + w * std::cos(u); case 2: return 1 + 2 * w * u; case 3: return w / (1 + w * w * u * u); default: return 1; } }
  template <typename T> vector<T> res(const vector<T> &x) const { using S = decltype(sc(T())); vector<T> o; o.reserve(m); for (int i = 0; i < m; ++i) { T u = T(S(-b[i])); for (int j = 0; j < n; ++j) u += x[j] * S(A[i * n + j]); o.push_back(k == 1 ? phiS<T, S>(u) : T(phiS<T, S>(u) * S(k))); } return o; }
  template <typename T, typename S> T phiS(const T &u) const { using std::atan; using std::sin; const S s = S(w); switch (kind) { case 1: return u + s * sin(u); case 2: return u + s * u * u; case 3: return atan(s * u); default: return u; } }
  static double sc(double) { return 0; } static float sc(float) { return 0; } template <typename S, int N> static S sc(const diff::Jet<S, N> &) { return 0; }
  VecD u(const VecD &x) const { VecD o(m); for (int i = 0; i < m; ++i) { double s = -b[i]; for (int j = 0; j < n; ++j) s += A[i * n + j] * x[j]; o[i] = s; } return o; }
  VecD r(const VecD &x) const { VecD o = u(x); for (int i = 0; i < m; ++i) o[i] = k * phi(o[i]); return o; }
  MatD J(const VecD &x) const { VecD q = u(x); MatD o(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) o(i, j) = k * dphi(q[i]) * A[i * n + j]; return o; }
};
// well-conditioned problem; `noise` makes the optimum's residuals non-zero
inline Prob make(vh::Rng &g, int n, int m, int kind, double noise, VecD &opt) {
  Prob p; p.n = n; p.m = m; p.kind = kind; MatD A(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = g.normal();
  Eigen::JacobiSVD<MatD> s(A, Eigen::ComputeThinU | Eigen::ComputeThinV); VecD e(n); for (int i = 0; i < n; ++i) e[i] = g.uni(1, 2.5); A = s.matrixU() * e.asDiagonal() * s.matrixV().transpose();
  opt.resize(n); for (int i = 0; i < n; ++i) opt[i] = g.normal(); VecD b = A * opt; for (int i = 0; i < m; ++i) b[i] += noise * g.normal();
  p.A.resize(m * n); p.b.resize(m); for (int i = 0; i < m; ++i) { p.b[i] = b[i]; for (int j = 0; j < n; ++j) p.A[i * n + j] = A(i, j); }
  p.w = kind == 1 ? g.uni(0.2, 0.5) : kind == 2 ? g.uni(-0.08, 0.08) : kind == 3 ? g.uni(0.8, 2.5) : 0; return p;
}
// ---- recorded runs
struct Tr { vector<VecD> pts; vector<double> errs, d2; vector<bool> ok; VecD x; int iters = 0, fails = 0, stop = 0, nres = 0; double final_cost = 0; bool numdiff = false; MatD H; std::string what; };
inline void take(Tr &t, const Output &o) { t.errs.assign(o.errs.begin(), o.errs.end()); t.d2.assign(o.deltas2.begin(), o.deltas2.end()); t.ok.assign(o.successes.begin(), o.successes.end()); t.iters = o.num_iters; t.fails = o.num_failures; t.stop = (int)o.stop_reason; t.nres = o.num_residuals; t.final_cost = o.final_cost.cost; t.numdiff = o.num_diff_used;
  if (std::holds_alternative<MatX>(o.final_hessian)) t.H = o.final_hessian_dense(); else if (std::holds_alternative<SparseMat>(o.final_hessian)) t.H = MatD(o.final_hessian_sparse()); }
struct TooMany {};
enum Fill { FULL, UPPER, ASSIGN };   // how a manual function provides the Hessian

// manual derivatives through accumulation; Hs is the Hessian storage of the optimizer
template <typename Opt, typename X> Tr manual(Opt &opt, const Prob &p, X &x, Fill fill, int budget = -1) {
  using S = typename Opt::Scalar; Tr t;
  auto acc = [&](const auto &xx, auto &g, auto &H) -> Cost {
    const VecD v = flat(xx); t.pts.push_back(v); if (t.pts.size() > 5000) throw TooMany{};
    const VecD r = p.r(v);
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      const MatD J = p.J(v); const VecD gg = J.transpose() * r; MatD h = J.transpose() * J; using HT = std::decay_t<decltype(H)>;
      if (fill == UPPER) for (int c = 0; c < p.n; ++c) for (int q = c + 1; q < p.n; ++q) h(q, c) = 0;
      if constexpr (traits::is_sparse_matrix_v<HT>) { H = h.template cast<S>().sparseView(); g += gg.template cast<S>(); }
      else if (fill == ASSIGN) { g = gg.template cast<S>(); H = h.template cast<S>(); }
      else { g += gg.template cast<S>(); H += h.template cast<S>(); }
    }
    return Cost(r.squaredNorm(), p.m);
  };
  const Output o = opt(x, acc, budget); take(t, o); t.x = flat(x); return t;
}
// automatic derivatives; ROWS: compile-time number of residuals or Dynamic, MATRIX: residuals as a matrix of run-time size
constexpr int MATRIX = -7;
template <int ROWS, typename Run, typename X> Tr automatic(Run &&run, const Prob &p, X &x) {
  Tr t;
  auto f = [&](const auto &xx) {
    const auto in = scalars(xx); VecD v(in.size()); for (size_t i = 0; i < in.size(); ++i) v[(long)i] = val(in[i]); t.pts.push_back(v); if (t.pts.size() > 5000) throw TooMany{};
    const auto r = p.res(in); using T = typename std::decay_t<decltype(r)>::value_type;
    if constexpr (ROWS == 1) return r[0]; else if constexpr (ROWS == MATRIX) { const int q = p.m % 3 == 0 ? 3 : p.m % 2 == 0 ? 2 : 1; Matrix<T, Dynamic, Dynamic> o(p.m / q, q); for (int i = 0; i < p.m; ++i) o(i / q, i % q) = r[i]; return o; } else { Vector<T, ROWS> o(p.m); for (int i = 0; i < p.m; ++i) o[i] = r[i]; return o; }
  };
  const Output o = run(x, f); take(t, o); t.x = flat(x); return t;
}
inline Options opts(Options::Solver s = Options::LevenbergMarquardt) { Options o(s); o.log.enable = false; return o; }
inline std::string show(const Tr &t) { std::string s = vh::cat(t.what, " stop=", t.stop, " iters=", t.iters, " fails=", t.fails, " errs="); for (size_t i = 0; i < t.errs.size(); ++i) s += vh::cat(t.errs[i], t.ok.size() == t.errs.size() && !t.ok[i] ? "x " : " "); return s + "x=" + vh::mat(t.x); }
inline bool same(const VecD &a, const VecD &b, double tol) { return a.size() == b.size() && (a - b).norm() <= tol * (1 + a.norm()); }
}  // namespace pb
