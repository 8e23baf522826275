// Parameter types used by the differentiation harnesses, with accessors that do not use the library's traits.
#pragma once
#include "tape.h"
#include <tinyopt/tinyopt.h>
namespace pt {
using namespace tinyopt;
// user-defined parameters: a rectangle, as in the documentation
template <typename T> struct Rect { using Scalar = T; static constexpr Index Dims = 4;
  Rect() : a(Vector<T, 2>::Zero()), b(Vector<T, 2>::Zero()) {}
  Rect(const Vector<T, 2> &a_, const Vector<T, 2> &b_) : a(a_), b(b_) {}
  template <typename T2> Rect<T2> cast() const { return Rect<T2>(a.template cast<T2>(), b.template cast<T2>()); }
  Rect &operator+=(const auto &d) { a += d.template head<2>(); b += d.template tail<2>(); return *this; }
  Vector<T, 2> a, b; };
// user-defined parameters with a run-time size
template <typename T> struct Poly { using Scalar = T;
  Index dims() const { return (Index)k.size(); }
  template <typename T2> Poly<T2> cast() const { Poly<T2> o; for (auto &e : k) o.k.emplace_back(T2(e)); return o; }
  Poly &operator+=(const auto &d) { for (size_t i = 0; i < k.size(); ++i) k[i] += d[(Index)i]; return *this; }
  std::vector<T> k; };
template <typename X> struct acc;   // get(x, i), size(x), make(values), scalar type after casting
template <typename X> requires std::is_floating_point_v<X> struct acc<X> { static X make(const std::vector<double> &v) { return X(v[0]); } };
template <typename S, int R, int C, int O> struct acc<Eigen::Matrix<S, R, C, O>> { static auto make(const std::vector<double> &v) {
    Eigen::Matrix<S, R, C, O> m; const int n = (int)v.size();
    if constexpr (R == Dynamic && C == Dynamic) { int r = n % 2 == 0 ? 2 : 1; m.resize(r, n / r); } else if constexpr (R == Dynamic) m.resize(n / C, C); else if constexpr (C == Dynamic) m.resize(R, n / R);
    int k = 0; for (long c = 0; c < m.cols(); ++c) for (long r = 0; r < m.rows(); ++r) m(r, c) = S(v[k++]); return m; } };
template <typename X> constexpr int fixed() { if constexpr (std::is_floating_point_v<X>) return 1; else return (int)traits::params_trait<X>::Dims; }
inline std::vector<double> part(const std::vector<double> &v, size_t from, size_t n) { return std::vector<double>(v.begin() + from, v.begin() + from + n); }
template <typename S, size_t N> struct acc<std::array<S, N>> { static auto make(const std::vector<double> &v) { std::array<S, N> a; const size_t k = v.size() / N; for (size_t i = 0; i < N; ++i) { const size_t from = i * k; a[i] = acc<S>::make(part(v, from, i + 1 == N ? v.size() - from : k)); } return a; } };
template <typename S> struct acc<std::vector<S>> { static auto make(const std::vector<double> &v) { std::vector<S> o; for (size_t at = 0; at < v.size();) { const size_t k = fixed<S>() > 0 ? fixed<S>() : std::min<size_t>(v.size() - at, 1 + at % 3); o.push_back(acc<S>::make(part(v, at, k))); at += k; } return o; } };
template <typename A, typename B> struct acc<std::pair<A, B>> { static auto make(const std::vector<double> &v) { const size_t na = fixed<A>() > 0 ? fixed<A>() : fixed<B>() > 0 ? v.size() - fixed<B>() : v.size() / 2;
    return std::pair<A, B>(acc<A>::make(std::vector<double>(v.begin(), v.begin() + na)), acc<B>::make(std::vector<double>(v.begin() + na, v.end()))); } };
template <typename S> struct acc<Rect<S>> { static auto make(const std::vector<double> &v) { return Rect<S>(Vector<S, 2>(S(v[0]), S(v[1])), Vector<S, 2>(S(v[2]), S(v[3]))); } };
template <typename S> struct acc<Poly<S>> { static auto make(const std::vector<double> &v) { Poly<S> p; p.k.assign(v.begin(), v.end()); return p; } };

template <typename S, int R, int C, int O, int MR, int MC> auto elems(const Eigen::Matrix<S, R, C, O, MR, MC> &m) { std::vector<S> o; for (long c = 0; c < m.cols(); ++c) for (long r = 0; r < m.rows(); ++r) o.push_back(m(r, c)); return o; }
inline std::vector<double> elems(double x) { return {x}; } inline std::vector<float> elems(float x) { return {x}; }
template <typename S, int N> auto elems(const ceres::Jet<S, N> &x) { return std::vector<ceres::Jet<S, N>>{x}; }
template <typename S, size_t N> auto elems(const std::array<S, N> &a); template <typename S> auto elems(const std::vector<S> &a); template <typename A, typename B> auto elems(const std::pair<A, B> &p);
template <typename S> auto elems(const Rect<S> &r); template <typename S> auto elems(const Poly<S> &p);
struct Flat { template <typename C> static auto of(const C &a) { auto o = elems(a.front()); o.clear(); for (auto &e : a) { auto q = elems(e); o.insert(o.end(), q.begin(), q.end()); } return o; } };
template <typename S, size_t N> auto elems(const std::array<S, N> &a) { return Flat::of(a); }
template <typename S> auto elems(const std::vector<S> &a) { return Flat::of(a); }
template <typename A, typename B> auto elems(const std::pair<A, B> &p) { auto o = elems(p.first); auto q = elems(p.second); o.insert(o.end(), q.begin(), q.end()); return o; }
template <typename S> auto elems(const Rect<S> &r) { auto o = elems(r.a); auto q = elems(r.b); o.insert(o.end(), q.begin(), q.end()); return o; }
template <typename S> auto elems(const Poly<S> &p) { return p.k; }
template <typename X> std::vector<double> dbl(const X &x) { std::vector<double> o; for (auto &e : elems(x)) o.push_back((double)e); return o; }
template <typename X> const char *name() { return __PRETTY_FUNCTION__; }
template <typename X> std::string nm() { std::string s = name<X>(); auto p = s.find("X = "); return s.substr(p + 4, s.size() - p - 5); }
// number of scalars for a type (run-time ones random)
template <typename X> int multiple() { if constexpr (requires { typename X::first_type; }) return 1; else if constexpr (requires { typename X::value_type; }) { if constexpr (requires { std::tuple_size<X>::value; }) return 1; else return std::max(1, fixed<typename X::value_type>()); } else return 1; }
template <typename X> int count(vh::Rng &r) { if constexpr (traits::params_trait<X>::Dims != Dynamic) return (int)traits::params_trait<X>::Dims; else if constexpr (requires { typename X::first_type; }) return 2 + r.range(1, 3); else if constexpr (requires { X::RowsAtCompileTime; }) return r.range(1, 5); else if constexpr (requires { std::tuple_size<X>::value; }) return std::tuple_size<X>::value * r.range(1, 2) + r.range(0, 1); else if constexpr (requires { typename X::value_type; }) return multiple<X>() * r.range(1, multiple<X>() > 1 ? tp::MAXN / multiple<X>() : 5); else return r.range(1, 5); }

// A residual function of a given shape built from registers of a random program; entry `dead` does not depend on x.
template <typename T> struct sc { using type = T; };
template <typename S, int N> struct sc<ceres::Jet<S, N>> { using type = S; };
template <typename T> using sc_t = typename sc<T>::type;
enum Shape { SCALAR, VEC2, VECX, MAT22, MATX };
template <int SH> struct Res {
  const tp::Tape *t; std::vector<int> regs; int dead = -1; double dead_value = 0; int rows = 1, cols = 1;
  template <typename X> auto operator()(const X &x) const {
    const auto in = elems(x); using T = typename std::decay_t<decltype(in)>::value_type;
    using S = sc_t<T>;
    const auto r = tp::run<T, S>(*t, in);
    auto e = [&](int i) -> T { return i == dead ? T(S(dead_value)) : r[regs[i]]; };
    if constexpr (SH == SCALAR) return e(0);
    else if constexpr (SH == VEC2) { Vector<T, 2> o; o[0] = e(0); o[1] = e(1); return o; }
    else if constexpr (SH == VECX) { Vector<T, Dynamic> o(rows); for (int i = 0; i < rows; ++i) o[i] = e(i); return o; }
    else { Eigen::Matrix<T, SH == MAT22 ? 2 : Dynamic, SH == MAT22 ? 2 : Dynamic> o(rows, cols); for (int c = 0; c < cols; ++c) for (int k = 0; k < rows; ++k) o(k, c) = e(k + c * rows); return o; }
  }
  int n() const { return rows * cols; }
};
template <int SH> Res<SH> make_res(vh::Rng &r, const tp::Tape &t, bool dead) {
  Res<SH> f; f.t = &t;
  if (SH == VEC2) f.rows = 2; if (SH == VECX) f.rows = r.range(1, 6); if (SH == MAT22) f.rows = f.cols = 2; if (SH == MATX) { f.rows = r.range(1, 3); f.cols = r.range(1, 4); }
  const int last = t.n + (int)t.ins.size() - 1;
  for (int i = 0; i < f.n(); ++i) f.regs.push_back(i == 0 ? last : r.range(0, last));
  if (dead && f.n() > 1) { f.dead = r.range(0, f.n() - 1); f.dead_value = r.normal(); }
  return f;
}
}  // namespace pt
