// Activations and softmax against their definitions evaluated in long double.
#include "ref.h"
#include <tinyopt/diff/auto_diff.h>
#include <tinyopt/losses/activations.h>
#include <tinyopt/losses/classif.h>
using namespace tinyopt;
using namespace rf;
using vh::cat;
namespace {
LD sig(LD x) { return x >= 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); }
LD dsig(LD x) { const LD e = std::exp(-std::abs(x)); return e / ((1 + e) * (1 + e)); }
struct ASig { static constexpr const char *n = "Sigmoid"; static constexpr LD lo = 0, hi = 1;
  template <typename T> auto f(const T &x) const { return losses::Sigmoid(x); }
  template <typename T, typename J> auto f(const T &x, const J &j) const { return losses::Sigmoid(x, j); }
  LD val(LD x) const { return sig(x); } LD der(LD x) const { return dsig(x); } };
struct ATanh { static constexpr const char *n = "Tanh"; static constexpr LD lo = -1, hi = 1;
  template <typename T> auto f(const T &x) const { return losses::Tanh(x); }
  template <typename T, typename J> auto f(const T &x, const J &j) const { return losses::Tanh(x, j); }
  LD val(LD x) const { return std::tanh(x); } LD der(LD x) const { return 4 * dsig(2 * x); } };
struct ARelu { static constexpr const char *n = "ReLU"; static constexpr LD lo = 0, hi = INFINITY;
  template <typename T> auto f(const T &x) const { return losses::ReLU(x); }
  template <typename T, typename J> auto f(const T &x, const J &j) const { return losses::ReLU(x, j); }
  LD val(LD x) const { return x > 0 ? x : 0; } LD der(LD x) const { return x > 0 ? 1 : 0; } };
struct ALeaky { static constexpr const char *n = "LeakyReLU"; static constexpr LD lo = -INFINITY, hi = INFINITY; double a = 0.1;
  template <typename T> auto f(const T &x) const { return losses::LeakyReLU(x, a); }
  template <typename T, typename J> auto f(const T &x, const J &j) const { return losses::LeakyReLU(x, a, j); }
  LD val(LD x) const { return x > 0 ? x : a * x; } LD der(LD x) const { return x > 0 ? 1 : (LD)a; } };

template <typename S> S input(vh::Rng &r) {
  switch (r.range(0, 11)) {
    case 0: return S(r.sgn() * r.logu(1e-12, 1e-3));
    case 1: return S(r.sgn() * r.uni(15, 40));
    case 2: return S(r.sgn() * r.uni(80, 120));
    case 3: return S(r.sgn() * r.uni(600, 800));
    case 4: return S(r.sgn() * r.logu(1e3, sizeof(S) == 4 ? 1e37 : 1e300));
    case 5: return S(r.sgn()) * std::numeric_limits<S>::max();
    case 6: return S(r.sgn()) * std::numeric_limits<S>::min();
    default: return S(2 * r.normal());
  }
}
template <typename S> LD tolv(LD v) { return 512 * eps<S>() * std::abs(v) + std::numeric_limits<S>::min() * 4; }
template <typename S> LD told(LD d) { return 512 * eps<S>() * (1 + std::abs(d)); }

template <typename A, typename M> void act_mat(vh::Case &c, const A &f, int rows, int cols) {
  using S = typename M::Scalar;
  M x; if constexpr (M::SizeAtCompileTime == Eigen::Dynamic) x.resize(rows, cols);
  for (long i = 0; i < x.size(); ++i) x(i) = input<S>(c.rng);
  const long n = x.size();
  auto det = [&] { return cat(A::n, sizeof(S) == 4 ? "f" : "", " x=", vh::mat(x)); };
  const auto y = f.f(x);
  if (!c.check(y.rows() == x.rows() && y.cols() == x.cols(), "activation-shape", det)) return;
  for (long i = 0; i < n; ++i) {
    const LD v = f.val(x(i)); if (std::abs(v) > std::numeric_limits<S>::max()) continue;  // a leak above one
    c.check(std::isfinite((double)y(i)) && y(i) >= A::lo && y(i) <= A::hi, "activation-range", [&] { return cat(det(), " y=", vh::mat(y)); });
    // a straightforward 1/(1+exp(-x)) loses relative accuracy only where the result underflows
    c.check(std::abs((LD)y(i) - v) <= tolv<S>(v) * (1 + std::min<LD>(std::abs((LD)x(i)), 1000)), "activation-value", [&] { return cat(det(), " i=", i, " y=", y(i), " expected ", (double)v); });
  }
  c.event("activation-values", n);
  const auto &[y1, J] = f.f(x, true);
  bool same = y1.size() == n; for (long i = 0; same && i < n; ++i) same = near(y1(i), y(i), 512 * eps<S>());
  c.check(same, "activation-forms-differ", det);
  if (!c.check(J.rows() == n && J.cols() == n, "activation-jacobian-shape", det)) return;
  for (long i = 0; i < n; ++i) for (long k = 0; k < n; ++k)
    if (i != k) c.check(J(i, k) == 0, "activation-jacobian-off-diagonal", [&] { return cat(det(), " J=", vh::mat(J)); });
    else c.check(std::abs((LD)J(i, i) - f.der(x(i))) <= told<S>(f.der(x(i))), "activation-jacobian", [&] { return cat(det(), " i=", i, " J=", J(i, i), " expected ", (double)f.der(x(i))); });
  c.event("activation-jacobians", n);
  Eigen::Matrix<S, M::SizeAtCompileTime, 2> Ji; if constexpr (M::SizeAtCompileTime == Eigen::Dynamic) Ji.resize(n, 2); filln(Ji, c.rng);
  auto chain = [&](const auto &Jc, const char *key) {
    if (!c.check(Jc.rows() == n && Jc.cols() == 2, key, det)) return;
    for (long i = 0; i < n; ++i) for (int k = 0; k < 2; ++k)
      c.check(std::abs((LD)Jc(i, k) - f.der(x(i)) * Ji(i, k)) <= told<S>(f.der(x(i))) * (1 + std::abs((LD)Ji(i, k))), key, [&] { return cat(det(), " Jin=", vh::mat(Ji), " J=", vh::mat(Jc)); });
    c.event("chain-rules");
  };
  if constexpr (M::ColsAtCompileTime == 1) {
    const auto &[y2, J2] = f.f(x, Ji); chain(J2, "activation-chain-rule");
    { const auto &[y3, J3] = f.f(std::make_pair(x, Ji)); chain(J3, "activation-pair-form"); }
    const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Jd = Ji; const auto &[y4, J4] = f.f(x, Jd); chain(J4, "activation-chain-rule-dynamic");
  }
  c.distinct(cat(A::n, sizeof(S), M::RowsAtCompileTime, M::ColsAtCompileTime, "/", n, "/", (int)std::log10(std::abs((double)x(0)) + 1e-320)));
}
template <typename A, typename S> void act_scalar(vh::Case &c, const A &f) {
  const S x = input<S>(c.rng); const LD v = f.val(x), d = f.der(x);
  auto det = [&] { return cat(A::n, sizeof(S) == 4 ? "f" : "", " scalar x=", x); };
  const S y = f.f(x); if (std::abs(v) > std::numeric_limits<S>::max()) return;
  c.check(std::isfinite((double)y) && y >= A::lo && y <= A::hi, "activation-range-scalar", [&] { return cat(det(), " y=", y); });
  c.check(std::abs((LD)y - v) <= tolv<S>(v) * (1 + std::min<LD>(std::abs((LD)x), 1000)), "activation-value-scalar", [&] { return cat(det(), " y=", y); });
  const auto &[y1, J1] = f.f(x, true);
  c.check(near(y1, y, 512 * eps<S>()), "activation-forms-differ-scalar", det);
  c.check(std::abs((LD)J1 - d) <= told<S>(d), "activation-jacobian-scalar", [&] { return cat(det(), " J=", J1); });
  const S a = S(c.rng.normal());
  const auto &[y2, J2] = f.f(x, a);
  c.check(std::abs((LD)J2 - d * a) <= told<S>(d) * (1 + std::abs((LD)a)), "activation-chain-rule-scalar", [&] { return cat(det(), " a=", a, " J=", J2); });
  RowVector<S, 3> R; filln(R, c.rng);
  const auto &[y3, J3] = f.f(x, R);
  c.check(nearM(ld(J3), d * ld(R), 0, told<S>(d) * 8), "activation-chain-rule-row", [&] { return cat(det(), " R=", vh::mat(R), " J=", vh::mat(J3)); });
  {
    const auto &[y4, J4] = f.f(std::make_pair(x, a));
    c.check(near(y4, y, 512 * eps<S>()) && std::abs((LD)J4 - d * a) <= told<S>(d) * (1 + std::abs((LD)a)), "activation-pair-form-scalar", det);
  }
  if constexpr (std::is_same_v<S, double>) if (std::abs(x) < S(1e3) && std::abs(x) > S(1e-30)) {  // dual numbers, one and two directions, fixed and run-time sizes
    using Jt = diff::Jet<S, 2>; Jt xj; xj.a = x; xj.v = Vector<S, 2>(S(1), a);
    const Jt r = f.f(xj);
    c.check(std::abs((LD)r.a - v) <= tolv<S>(v) * (1 + std::abs((LD)x)), "activation-dual-value", det);
    // exp(-x) overflows for very negative arguments: derivative of 1/(1+exp(-x)) is then inf/inf in any dual arithmetic
    if (std::abs(x) < S(40)) { c.check(std::abs(r.v[0] - d) <= told<S>(d) && std::abs(r.v[1] - d * a) <= told<S>(d) * (1 + std::abs((LD)a)), "activation-dual-derivative", [&] { return cat(det(), " v=", vh::mat(r.v)); }); c.event("duals"); }
  }
  c.event("activation-values"); c.event("activation-jacobians"); c.event("chain-rules", 3);
}
template <typename A> void act_all(vh::Case &c, const A &f) {
  act_scalar<A, double>(c, f); act_scalar<A, float>(c, f);
  act_mat<A, Vector<double, 3>>(c, f, 3, 1); act_mat<A, VecX>(c, f, c.rng.range(1, 7), 1); act_mat<A, VecXf>(c, f, c.rng.range(1, 7), 1);
  act_mat<A, Vector<float, 2>>(c, f, 2, 1);
  act_mat<A, Eigen::Matrix<double, 2, 3>>(c, f, 2, 3); act_mat<A, MatX>(c, f, c.rng.range(1, 4), c.rng.range(1, 4));
}
}  // namespace
VH_SUITE(activations, 12000, 60000) {
  act_all(c, ASig{}); act_all(c, ATanh{}); act_all(c, ARelu{});
  ALeaky l; switch (c.rng.range(0, 5)) { case 0: l.a = 0.125; break; case 1: l.a = (float)c.rng.uni(1, 3); break; case 2: l.a = (float)-c.rng.uni(0, 1.5); break; case 3: l.a = 0; break; default: l.a = (float)c.rng.uni(0, 0.9); }
  act_all(c, l);
}
namespace {
template <typename V, bool Safe> void softmax(vh::Case &c, int n) {
  using S = typename V::Scalar; constexpr int D = V::RowsAtCompileTime;
  V x; if constexpr (D == Eigen::Dynamic) x.resize(n);
  const int kind = c.rng.range(0, Safe ? 6 : 2);
  for (int i = 0; i < n; ++i)
    x(i) = kind == 0 ? S(c.rng.normal()) : kind == 1 ? S(c.rng.uni(-20, 20)) : kind == 2 ? S(c.rng.uni(-3, 3) + 8)
         : kind == 3 ? S(c.rng.uni(-1, 1) + 1e4) : kind == 4 ? S(c.rng.sgn() * c.rng.logu(1, 1e30)) : kind == 5 ? S(c.rng.sgn()) * std::numeric_limits<S>::max() / S(2)
                                                                                                    : S(c.rng.uni(-2, 2) - 1e4);
  auto call = [&](const auto &...a) { if constexpr (Safe) return losses::SafeSoftmax(a...); else return losses::Softmax(a...); };
  auto det = [&] { return cat(Safe ? "SafeSoftmax" : "Softmax", sizeof(S) == 4 ? "f" : "", " x=", vh::mat(x)); };
  LVec X = ld(x), p(n); LD m = X.maxCoeff(), sum = 0;
  for (int i = 0; i < n; ++i) sum += (p(i) = std::exp(X(i) - m));
  p /= sum;
  const LD e = 512 * eps<S>() * (1 + n + (kind < 3 ? 20 : 0));
  const auto y = call(x);
  LD s = 0; bool pos = y.size() == n;
  for (int i = 0; i < (int)y.size(); ++i) { s += y(i); pos &= y(i) >= 0 && std::isfinite((double)y(i)); }
  c.check(pos && std::abs(s - 1) <= e, "softmax-not-a-distribution", [&] { return cat(det(), " y=", vh::mat(y)); });
  c.check(nearM(ld(y), p, 0, e), "softmax-value", [&] { return cat(det(), " y=", vh::mat(y)); });
  const auto &[y1, J] = call(x, true);
  const LMat ref = LMat(p.asDiagonal()) - p * p.transpose();
  c.check(nearM(ld(y1), p, 0, e), "softmax-forms-differ", det);
  c.check(nearM(ld(J), ref, 0, 2 * e), "softmax-jacobian", [&] { return cat(det(), " J=", vh::mat(J)); });
  Eigen::Matrix<S, D, 2> A; if constexpr (D == Eigen::Dynamic) A.resize(n, 2); filln(A, c.rng);
  const auto &[y2, J2] = call(x, A);
  c.check(nearM(ld(J2), ref * ld(A), 0, 2 * e * n * (1 + ld(A).cwiseAbs().maxCoeff())), "softmax-chain-rule", [&] { return cat(det(), " A=", vh::mat(A), " J=", vh::mat(J2)); });
  c.event("softmaxes"); c.event("softmax-jacobians", 2);
  if (kind <= 2) {  // invariance to a constant shift (small enough for the plain variant)
    const S sh = S(Safe ? c.rng.sgn() * c.rng.logu(0.1, 1e3) : c.rng.uni(-5, 5));
    V xs = x; for (int i = 0; i < n; ++i) xs(i) += sh;
    const LD es = e + 4 * eps<S>() * (std::abs((LD)sh) + 40);
    c.check(nearM(ld(call(xs)), p, 0, es), "softmax-shift", [&] { return cat(det(), " shift=", sh); });
    c.event("shifts");
  }
  if constexpr (D != Eigen::Dynamic) if (kind <= 2) {
    using Jt = diff::Jet<S, D>; Vector<Jt, D> xj;
    for (int i = 0; i < D; ++i) { xj[i].a = x[i]; xj[i].v = Vector<S, D>::Unit(i); }
    const auto r = call(xj);
    for (int i = 0; i < D; ++i) c.check(std::abs(r[i].a - p(i)) <= e && nearM(ld(r[i].v).transpose(), ref.row(i), 0, 8 * e), "softmax-dual", [&] { return cat(det(), " i=", i, " v=", vh::mat(r[i].v)); });
    c.event("duals");
  }
  c.distinct(cat(Safe, sizeof(S), D, n, kind));
}
}
VH_SUITE(softmax, 12000, 60000) {
  softmax<Vector<double, 3>, false>(c, 3); softmax<VecX, false>(c, c.rng.range(1, 9)); softmax<VecXf, false>(c, c.rng.range(1, 9)); softmax<Vector<float, 2>, false>(c, 2);
  softmax<Vector<double, 3>, true>(c, 3); softmax<VecX, true>(c, c.rng.range(1, 9)); softmax<VecXf, true>(c, c.rng.range(1, 9)); softmax<Vector<float, 2>, true>(c, 2);
  const double x = c.rng.normal() * 100;
  c.check(losses::Softmax(x) == 1 && losses::SafeSoftmax(x) == 1, "softmax-scalar", [&] { return cat(x); });
}
