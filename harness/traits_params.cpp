// Parameter traits: dimension, increments and casts of every supported (nested) parameter type.
#include <deque>
#include "compat.h"
#include "ptypes.h"
#include <tinyopt/diff/jet_traits.h>
using namespace tinyopt;
using vh::cat;
// user-defined type handled through a trait specialisation
struct Angles { std::vector<float> a; double scale = 1; };
// user-defined type with a static cast function and a manifold-like update
template <typename T> struct Unit { using Scalar = T; static constexpr Index Dims = 2;
  template <typename T2> static Unit<T2> cast(const Unit &u) { return Unit<T2>{T2(u.p), T2(u.q)}; }
  Unit &operator+=(const auto &d) { p += d[0]; q += d[1]; return *this; }
  T p{}, q{}; };
// user-defined type that is dynamic but says so
template <typename T> struct Bag { using Scalar = T; static constexpr Index Dims = Dynamic; Index dims() const { return (Index)k.size(); }
  template <typename T2> Bag<T2> cast() const { Bag<T2> o; for (auto &e : k) o.k.push_back(T2(e)); return o; }
  Bag &operator+=(const auto &d) { for (size_t i = 0; i < k.size(); ++i) k[i] += d[(Index)i]; return *this; }
  std::deque<T> k; };
namespace tinyopt::traits {
template <> struct params_trait<Angles> {
  using T = Angles; using Scalar = double; static constexpr Index Dims = Dynamic;
  static Index dims(const T &v) { return (Index)v.a.size() + 1; }
  template <typename T2> static T cast(const T &v) { return v; }
  static void PlusEq(T &v, const auto &d) { for (size_t i = 0; i < v.a.size(); ++i) v.a[i] += (float)d[(Index)i]; v.scale += d[(Index)v.a.size()]; }
};
}  // namespace tinyopt::traits
namespace {
using pt::Rect; using pt::Poly; using pt::nm;
// visits every scalar in flattening order
template <typename F> void vis(double &x, F f) { f(x); }
template <typename F> void vis(float &x, F f) { f(x); }
template <typename S, int N, typename F> void vis(diff::Jet<S, N> &x, F f) { f(x); }
template <typename S, int R, int C, int O, int A, int B, typename F> void vis(Eigen::Matrix<S, R, C, O, A, B> &m, F f) { for (long c = 0; c < m.cols(); ++c) for (long r = 0; r < m.rows(); ++r) vis(m(r, c), f); }
template <typename S, size_t N, typename F> void vis(std::array<S, N> &a, F f);
template <typename A, typename B, typename F> void vis(std::pair<A, B> &p, F f);
template <typename T, typename F> void vis(Rect<T> &r, F f) { vis(r.a, f); vis(r.b, f); }
template <typename T, typename F> void vis(Poly<T> &r, F f) { for (auto &e : r.k) vis(e, f); }
template <typename T, typename F> void vis(Unit<T> &r, F f) { vis(r.p, f); vis(r.q, f); }
template <typename T, typename F> void vis(Bag<T> &r, F f) { for (auto &e : r.k) vis(e, f); }
template <typename F> void vis(Angles &r, F f) { for (auto &e : r.a) f(e); f(r.scale); }
template <typename S, typename F> void vis(std::vector<S> &a, F f) { for (auto &e : a) vis(e, f); }
template <typename S, size_t N, typename F> void vis(std::array<S, N> &a, F f) { for (auto &e : a) vis(e, f); }
template <typename A, typename B, typename F> void vis(std::pair<A, B> &p, F f) { vis(p.first, f); vis(p.second, f); }
template <typename X> auto flat(X x) { std::vector<double> o; vis(x, [&](auto &e) { if constexpr (requires { e.a; }) o.push_back((double)e.a); else o.push_back((double)e); }); return o; }
// shapes a value with random run-time sizes
void shape(double &, vh::Rng &, int) {} void shape(float &, vh::Rng &, int) {}
template <typename S, int R, int C, int O, int A, int B> void shape(Eigen::Matrix<S, R, C, O, A, B> &m, vh::Rng &r, int lo) { m.resize(R == Dynamic ? r.range(lo, 4) : R, C == Dynamic ? r.range(lo, 4) : C); }
template <typename S> void shape(std::vector<S> &a, vh::Rng &r, int lo); template <typename S, size_t N> void shape(std::array<S, N> &a, vh::Rng &r, int lo);
template <typename A, typename B> void shape(std::pair<A, B> &p, vh::Rng &r, int lo);
template <typename T> void shape(Rect<T> &, vh::Rng &, int) {} template <typename T> void shape(Unit<T> &, vh::Rng &, int) {}
template <typename T> void shape(Poly<T> &p, vh::Rng &r, int lo) { p.k.resize(r.range(lo, 5)); } template <typename T> void shape(Bag<T> &p, vh::Rng &r, int lo) { p.k.resize(r.range(lo, 5)); }
void shape(Angles &p, vh::Rng &r, int lo) { p.a.resize(r.range(lo, 5)); }
template <typename S> void shape(std::vector<S> &a, vh::Rng &r, int lo) { a.resize(r.range(lo, 5)); for (auto &e : a) shape(e, r, lo); }
template <typename S, size_t N> void shape(std::array<S, N> &a, vh::Rng &r, int lo) { for (auto &e : a) shape(e, r, lo); }
template <typename A, typename B> void shape(std::pair<A, B> &p, vh::Rng &r, int lo) { shape(p.first, r, lo); shape(p.second, r, lo); }
template <typename X> struct scal { using type = double; };
template <> struct scal<float> { using type = float; }; template <int R, int C, int O> struct scal<Eigen::Matrix<float, R, C, O>> { using type = float; };
template <typename S> struct scal<std::vector<S>> { using type = typename scal<S>::type; }; template <typename S, size_t N> struct scal<std::array<S, N>> { using type = typename scal<S>::type; };

template <typename X, bool CAST = true> void one(vh::Case &c) {
  using PT = traits::params_trait<X>; using S = typename scal<X>::type; constexpr bool fl = sizeof(S) == 4 || std::is_same_v<X, Angles>;
  X x{}; shape(x, c.rng, c.rng.coin(0.15) ? 0 : 1); vis(x, [&](auto &e) { e = (std::decay_t<decltype(e)>)(c.rng.sgn() * c.rng.logu(1e-3, 1e3)); });
  const X x0 = x; const auto v0 = flat(x); const int n = (int)v0.size();
  auto det = [&] { std::string s; for (double v : v0) s += cat(v, " "); return cat(nm<X>(), " n=", n, " x=", s); };
  c.label(det());
  c.check(PT::dims(x) == n, "dims", [&] { return cat(det(), " dims=", PT::dims(x)); });
  c.check((Index)PT::Dims == Dynamic || (int)PT::Dims == n, "static-dims", det); int dd = n; compat::dyn_dims(x, dd); c.check(dd == n, "dyn-dims", det);
  c.check(flat(x) == v0, "dims-modifies", det);
  // increments: fixed size vector, dynamic vector, segment of a longer vector
  Vector<S, Dynamic> d(n), big = Vector<S, Dynamic>::Constant(n + 5, S(1e6)); for (int i = 0; i < n; ++i) d[i] = c.rng.coin(0.2) ? S(0) : S(c.rng.sgn() * c.rng.logu(1e-3, 1e3)); big.segment(2, n) = d;
  auto judge = [&](const X &y, const char *key) {
    const auto v = flat(y); if (!c.check((int)v.size() == n, "size-changed", [&] { return cat(key, " ", det()); })) return;
    for (int i = 0; i < n; ++i) { const double want = v0[i] + (double)d[i]; if (!c.check(std::abs(v[i] - want) <= (fl ? 1e-6 : 1e-14) * (std::abs(v0[i]) + std::abs((double)d[i])), key, [&] { return cat(det(), " component ", i, " += ", d[i], " gave ", v[i]); })) return; }
    c.event("increments"); };
  { X y = x0; PT::PlusEq(y, d); judge(y, "increment"); }
  if constexpr ((Index)PT::Dims != Dynamic) { X y = x0; const Vector<S, PT::Dims> df = d; PT::PlusEq(y, df); judge(y, "increment-fixed"); }
  { X y = x0; PT::PlusEq(y, big.segment(2, n)); judge(y, "increment-segment"); }
  { X y = x0; PT::PlusEq(y, Vector<S, Dynamic>::Zero(n).eval()); c.check(flat(y) == v0, "zero-increment", det); }
  { X y = x0; PT::PlusEq(y, d); PT::PlusEq(y, Vector<S, Dynamic>(-d)); const auto v = flat(y); for (int i = 0; i < n; ++i) c.check(std::abs(v[i] - v0[i]) <= (fl ? 2e-6 : 1e-13) * (std::abs(v0[i]) + std::abs((double)d[i])), "increment-undone", det); }
  // one component at a time touches exactly one scalar
  if (n) { X y = x0; Vector<S, Dynamic> e = Vector<S, Dynamic>::Zero(n); const int k = c.rng.range(0, n - 1); e[k] = S(1 + std::abs(v0[k])); PT::PlusEq(y, e); const auto v = flat(y); for (int i = 0; i < n; ++i) c.check(i == k ? v[i] != v0[i] : v[i] == v0[i], "wrong-component", [&] { return cat(det(), " moved ", k, " changed ", i); }); c.event("single-components"); }
  c.check(flat(x) == v0, "aliasing", det);
  if constexpr (CAST) {
    const auto f = PT::template cast<float>(x); const auto vf = flat(f); c.check((int)vf.size() == n, "cast-size", det);
    for (int i = 0; i < n && i < (int)vf.size(); ++i) c.check(vf[i] == (double)(float)v0[i], "cast-float", [&] { return cat(det(), " component ", i, " became ", vf[i]); });
    const auto D = PT::template cast<double>(x); const auto vd = flat(D); c.check(vd == v0, "cast-double", det);
    using J = diff::Jet<S, 2>; auto j = PT::template cast<J>(x); bool zero = true; std::vector<double> vj; vis(j, [&](auto &e) { vj.push_back((double)e.a); zero = zero && e.v.isZero(0); }); c.check(vj == v0 && zero, "cast-dual", det);
    using JX = diff::Jet<S, Dynamic>; auto jx = PT::template cast<JX>(x); vj.clear(); vis(jx, [&](auto &e) { vj.push_back((double)e.a); zero = zero && (e.v.size() == 0 || e.v.isZero(0)); }); c.check(vj == v0 && zero, "cast-dynamic-dual", det);
    c.event("casts", 4); c.check(flat(x) == v0, "cast-modifies", det);
  }
  c.distinct(cat(nm<X>(), "/", n));
}
using M23 = Eigen::Matrix<double, 2, 3>; using M23r = Eigen::Matrix<double, 2, 3, Eigen::RowMajor>; using R3 = Eigen::Matrix<double, 1, 3>; using RX = Eigen::Matrix<double, 1, Dynamic>; using M2X = Eigen::Matrix<double, 2, Dynamic>;
template <typename... A> using P = std::pair<A...>; template <typename T> using V = std::vector<T>; template <typename T, size_t N> using A_ = std::array<T, N>;
}  // namespace
VH_SUITE(flat_types, 3000, 40000) {
  one<double>(c); one<float>(c); one<Vec1>(c); one<Vec3>(c); one<VecX>(c); one<Vec4f>(c); one<VecXf>(c); one<M23>(c); one<M23r>(c); one<R3>(c); one<RX>(c); one<M2X>(c); one<MatX>(c); one<Mat4>(c);
  one<A_<double, 1>>(c); one<A_<double, 4>>(c); one<A_<float, 3>>(c); one<V<double>>(c); one<V<float>>(c); one<Rect<double>>(c); one<Poly<double>>(c); one<Unit<double>>(c); one<Bag<double>>(c); one<Angles, false>(c);
}
VH_SUITE(nested_types, 3000, 40000) {
  one<A_<Vec2, 2>>(c); one<A_<VecX, 3>>(c); one<A_<M23, 2>>(c); one<A_<A_<double, 2>, 3>>(c); one<A_<V<double>, 2>>(c); one<A_<Vec3f, 2>>(c); one<A_<MatX, 2>>(c); one<A_<R3, 2>>(c);
  one<V<Vec2>>(c); one<V<VecX>>(c); one<V<M23>>(c); one<V<A_<double, 2>>>(c); one<V<V<double>>>(c); one<V<V<VecX>>>(c); one<V<MatX>>(c); one<V<VecXf>>(c); one<V<Rect<double>>>(c); one<V<Poly<double>>>(c); one<A_<Poly<double>, 2>>(c); one<V<Vec1>>(c); one<A_<Vec1, 3>>(c); one<V<A_<double, 1>>>(c); one<A_<V<Vec1>, 2>>(c);
}
VH_SUITE(pair_types, 3000, 40000) {
  one<P<Vec2, Vec3>>(c); one<P<VecX, Vec2>>(c); one<P<Vec2, VecX>>(c); one<P<VecX, VecX>>(c); one<P<double, Vec2>>(c); one<P<Vec2, double>>(c); one<P<double, double>>(c); one<P<P<Vec2, double>, VecX>>(c); one<P<M23, R3>>(c); one<P<MatX, M2X>>(c);
  one<P<V<double>, A_<double, 2>>>(c); one<P<V<Vec2>, VecX>>(c); one<P<A_<Vec2, 2>, V<V<double>>>>(c); one<V<P<Vec2, VecX>>>(c); one<A_<P<Vec2, Vec3>, 2>>(c); one<V<P<double, double>>>(c); one<P<Rect<double>, double>>(c); one<P<Poly<double>, Vec2>>(c); one<P<Vec2, V<double>>>(c);
}
