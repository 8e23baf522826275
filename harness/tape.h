// Random straight-line programs over a scalar type, and an independent dual number to differentiate them.
#pragma once
#include "ref.h"
#include <array>
#include <cmath>
#include <numeric>
namespace tp {
constexpr int MAXN = 6;
inline double &noise() { static thread_local double n = 0; return n; }
inline vh::Rng &nrng() { static thread_local vh::Rng r(1); return r; }
// value and gradient; every operation optionally perturbs its result (to measure the sensitivity to rounding)
template <typename S> struct Du {
  S a = 0; std::array<S, MAXN> v{};
  Du() = default;
  explicit Du(double c) : a(S(c)) {}
  Du(S a_, const std::array<S, MAXN> &v_) : a(a_), v(v_) {}
};
template <typename S> Du<S> mk(S a, S da, const Du<S> &x) {
  Du<S> r; r.a = a; for (int i = 0; i < MAXN; ++i) r.v[i] = da * x.v[i];
  if (noise() > 0) { r.a *= S(1 + noise() * nrng().uni(-1, 1)); const S k = S(1 + noise() * nrng().uni(-1, 1)); for (auto &e : r.v) e *= k; }
  return r;
}
template <typename S> Du<S> mk2(S a, S da, const Du<S> &x, S db, const Du<S> &y) {
  Du<S> r; r.a = a;
  for (int i = 0; i < MAXN; ++i) {
    S p = da * x.v[i], q = db * y.v[i];
    if (noise() > 0) { p *= S(1 + noise() * nrng().uni(-1, 1)); q *= S(1 + noise() * nrng().uni(-1, 1)); }
    r.v[i] = p + q;
  }
  if (noise() > 0) r.a *= S(1 + noise() * nrng().uni(-1, 1));
  return r;
}
#define DU template <typename S> Du<S>
DU operator+(const Du<S> &x, const Du<S> &y) { return mk2<S>(x.a + y.a, 1, x, 1, y); }
DU operator-(const Du<S> &x, const Du<S> &y) { return mk2<S>(x.a - y.a, 1, x, -1, y); }
DU operator*(const Du<S> &x, const Du<S> &y) { return mk2<S>(x.a * y.a, y.a, x, x.a, y); }
DU operator/(const Du<S> &x, const Du<S> &y) { return mk2<S>(x.a / y.a, 1 / y.a, x, -x.a / (y.a * y.a), y); }
DU operator-(const Du<S> &x) { return mk<S>(-x.a, -1, x); }
#define UN(NAME, DER) DU NAME(const Du<S> &x) { using std::exp; using std::log; using std::cos; using std::sin; const S a = x.a; const S r = std::NAME(a); (void)r; return mk<S>(r, S(DER), x); }
UN(abs, a < 0 ? -1 : 1) UN(log, 1 / a) UN(exp, r) UN(sqrt, 1 / (2 * r)) UN(cos, -sin(a)) UN(sin, cos(a)) UN(tan, 1 / (cos(a) * cos(a)))
UN(asin, 1 / std::sqrt(1 - a * a)) UN(acos, -1 / std::sqrt(1 - a * a)) UN(atan, 1 / (1 + a * a)) UN(sinh, std::cosh(a)) UN(cosh, std::sinh(a))
UN(tanh, 1 / (std::cosh(a) * std::cosh(a)) + (noise() > 0 ? noise() * nrng().uni(-2, 2) : 0)) /* 1 - tanh^2 */ UN(floor, 0) UN(ceil, 0) UN(cbrt, 1 / (3 * r * r)) UN(exp2, r * log(S(2))) UN(log2, 1 / (a * log(S(2))))
UN(log10, 1 / (a * log(S(10)))) UN(log1p, 1 / (1 + a)) UN(expm1, exp(a) + (noise() > 0 ? noise() * nrng().uni(-2, 2) : 0)) /* expm1 + 1 */ UN(erf, S(1.128379167095512573896158903121545172L) * exp(-a * a)) UN(erfc, -S(1.128379167095512573896158903121545172L) * exp(-a * a))
DU norm(const Du<S> &x) { return mk<S>(x.a * x.a, 2 * x.a, x); }
DU hypot(const Du<S> &x, const Du<S> &y) { const S r = std::sqrt(x.a * x.a + y.a * y.a); return mk2<S>(r, x.a / r, x, y.a / r, y); }
DU hypot(const Du<S> &x, const Du<S> &y, const Du<S> &z) { return sqrt(x * x + y * y + z * z); }
DU fma(const Du<S> &x, const Du<S> &y, const Du<S> &z) { return x * y + z; }
DU atan2(const Du<S> &y, const Du<S> &x) { const S d = x.a * x.a + y.a * y.a; return mk2<S>(std::atan2(y.a, x.a), x.a / d, y, -y.a / d, x); }
DU pow(const Du<S> &x, double g) { return mk<S>(std::pow(x.a, S(g)), S(g) * std::pow(x.a, S(g) - 1), x); }
DU pow(S f, const Du<S> &y) { const S r = std::pow(f, y.a); return mk<S>(r, std::log(f) * r, y); }
DU pow(const Du<S> &x, const Du<S> &y) { const S r = std::pow(x.a, y.a); bool yc = true; for (auto e : y.v) yc &= e == 0;
  return mk2<S>(r, y.a * std::pow(x.a, y.a - 1), x, yc ? S(0) : std::log(x.a) * r, y); }
DU fmin(const Du<S> &x, const Du<S> &y) { return x.a < y.a ? x : y; }
DU fmax(const Du<S> &x, const Du<S> &y) { return x.a < y.a ? y : x; }
DU fdim(const Du<S> &x, const Du<S> &y) { return x.a <= y.a ? Du<S>(0.) : x - y; }
DU copysign(const Du<S> &x, const Du<S> &y) { const S s = (x.a < 0) == (y.a < 0) ? 1 : -1; return mk<S>(std::copysign(x.a, y.a), s, x); }
DU lerp(const Du<S> &x, const Du<S> &y, const Du<S> &t) { return x + t * (y - x); }
DU midpoint(const Du<S> &x, const Du<S> &y) { return mk2<S>((x.a + y.a) / 2, S(0.5), x, S(0.5), y); }
DU BesselJ0(const Du<S> &x) { return mk<S>(S(::j0((double)x.a)), S(-::j1((double)x.a)), x); }
DU BesselJ1(const Du<S> &x) { return mk<S>(S(::j1((double)x.a)), S(0.5 * (::j0((double)x.a) - ::jn(2, (double)x.a))), x); }
DU BesselJn(int n, const Du<S> &x) { return mk<S>(S(::jn(n, (double)x.a)), S(0.5 * (::jn(n - 1, (double)x.a) - ::jn(n + 1, (double)x.a))), x); }
// plain scalars
inline double BesselJ0(double x) { return ::j0(x); } inline double BesselJ1(double x) { return ::j1(x); } inline double BesselJn(int n, double x) { return ::jn(n, x); }
inline double norm(double x) { return x * x; }
template <typename T> struct is_plain : std::is_floating_point<T> {};

enum Op { ADD, SUB, MUL, DIV, ADDS, SADD, SUBS, SSUB, MULS, SMUL, DIVS, SDIV, ADDEQ, SUBEQ, MULEQ, DIVEQ, ADDEQS, SUBEQS, MULEQS, DIVEQS, CONST, NEG, POS,
  ABS, LOG, EXP, SQRT, COS, SIN, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, FLOOR, CEIL, CBRT, EXP2, LOG2, LOG10, LOG1P, EXPM1, ERF, ERFC, NORM,
  HYPOT, HYPOT3, FMA, ATAN2, POWS, SPOW, POW, POWNEG, POWC, FMIN, FMAX, FMINS, FMAXS, FDIM, COPYSIGN, LERP, MIDPOINT, J0, J1, JN, SELECT, OPS };
inline const char *op_name(int o) { static const char *n[] = {"a+b","a-b","a*b","a/b","a+s","s+a","a-s","s-a","a*s","s*a","a/s","s/a","a+=b","a-=b","a*=b","a/=b","a+=s","a-=s","a*=s","a/=s","const","-a","+a",
  "abs","log","exp","sqrt","cos","sin","tan","asin","acos","atan","sinh","cosh","tanh","floor","ceil","cbrt","exp2","log2","log10","log1p","expm1","erf","erfc","norm",
  "hypot","hypot3","fma","atan2","pow(a,s)","pow(s,a)","pow(a,b)","pow(neg,int)","pow(a,const)","fmin","fmax","fmin(a,s)","fmax(s,a)","fdim","copysign","lerp","midpoint","J0","J1","Jn","select"}; return n[o]; }
struct Ins { int op, i, j, k; double c; };
struct Tape { int n = 0; std::vector<Ins> ins; };
inline std::string show(const Tape &t) { std::string s = vh::cat("n=", t.n); int r = t.n; for (auto &i : t.ins) s += vh::cat(" r", r++, "=", op_name(i.op), "(", i.i, ",", i.j, ",", i.k, ",", i.c, ")"); return s; }

template <typename T, typename S> T step(const Ins &q, const std::vector<T> &r) {
  using std::abs; using std::log; using std::exp; using std::sqrt; using std::cos; using std::sin; using std::tan; using std::asin; using std::acos; using std::atan;
  using std::sinh; using std::cosh; using std::tanh; using std::floor; using std::ceil; using std::cbrt; using std::exp2; using std::log2; using std::log10; using std::log1p;
  using std::expm1; using std::erf; using std::erfc; using std::hypot; using std::fma; using std::atan2; using std::pow; using std::fmin; using std::fmax; using std::fdim;
  using std::copysign; using std::lerp; using std::midpoint;
  const T &a = r[q.i], &b = r[q.j], &d = r[q.k]; const S c = S(q.c);
  constexpr bool du = !std::is_floating_point_v<T> && requires(T t) { t.v.fill(S(0)); };  // own dual: scalars become constants
  auto K = [&](S x) { if constexpr (du) return T((double)x); else return x; };
  switch (q.op) {
    case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b;
    case ADDS: return a + K(c); case SADD: return K(c) + a; case SUBS: return a - K(c); case SSUB: return K(c) - a;
    case MULS: return a * K(c); case SMUL: return K(c) * a; case DIVS: return a / K(c); case SDIV: return K(c) / a;
    case ADDEQ: { if constexpr (du) return a + b; else { T t = a; t += b; return t; } } case SUBEQ: { if constexpr (du) return a - b; else { T t = a; t -= b; return t; } }
    case MULEQ: { if constexpr (du) return a * b; else { T t = a; t *= b; return t; } } case DIVEQ: { if constexpr (du) return a / b; else { T t = a; t /= b; return t; } }
    case ADDEQS: { if constexpr (du) return a + K(c); else { T t = a; t += c; return t; } } case SUBEQS: { if constexpr (du) return a - K(c); else { T t = a; t -= c; return t; } }
    case MULEQS: { if constexpr (du) return a * K(c); else { T t = a; t *= c; return t; } } case DIVEQS: { if constexpr (du) return a / K(c); else { T t = a; t /= c; return t; } }
    case CONST: return T(c);
    case NEG: return -a; case POS: { if constexpr (du) return a; else return +a; }
    case ABS: return abs(a); case LOG: return log(a); case EXP: return exp(a); case SQRT: return sqrt(a); case COS: return cos(a); case SIN: return sin(a); case TAN: return tan(a);
    case ASIN: return asin(a); case ACOS: return acos(a); case ATAN: return atan(a); case SINH: return sinh(a); case COSH: return cosh(a); case TANH: return tanh(a);
    case FLOOR: return floor(a); case CEIL: return ceil(a); case CBRT: return cbrt(a); case EXP2: return exp2(a); case LOG2: return log2(a); case LOG10: return log10(a);
    case LOG1P: return log1p(a); case EXPM1: return expm1(a); case ERF: return erf(a); case ERFC: return erfc(a); case NORM: return norm(a);
    case HYPOT: return hypot(a, b); case HYPOT3: return hypot(a, b, d); case FMA: return fma(a, b, d); case ATAN2: return atan2(a, b);
    case POWS: return pow(a, (double)c); case SPOW: return pow(c, a); case POW: return pow(a, b); case POWNEG: return pow(a, (double)c); case POWC: return pow(a, T(c));
    case FMIN: return fmin(a, b); case FMAX: return fmax(a, b); case FMINS: return fmin(a, K(c)); case FMAXS: return fmax(K(c), a);
    case FDIM: return fdim(a, b); case COPYSIGN: return copysign(a, b); case LERP: return lerp(a, b, d); case MIDPOINT: return midpoint(a, b);
    case J0: return BesselJ0(a); case J1: return BesselJ1(a); case JN: return BesselJn((int)q.c, a);
    case SELECT: { if constexpr (du) return a.a < b.a ? a : b; else return a < b ? a : b; }
  }
  return a;
}
// is the operation well inside its smooth domain at these values?
inline bool &wide() { static thread_local bool w = false; return w; }   // the whole mathematical domain instead of its comfortable part
inline bool wide_domain(const Ins &q, double a, double b, double d) {
  const double c = q.c; auto some = [](double x) { return std::abs(x) > 1e-12; };
  switch (q.op) {
    case DIV: case DIVEQ: return some(b); case SDIV: return some(a); case DIVS: case DIVEQS: return some(c);
    case ABS: case CBRT: return some(a); case LOG: case SQRT: case LOG2: case LOG10: return a > 1e-12; case EXP: case EXP2: case EXPM1: case SINH: case COSH: return a < 20 && a > -300;
    case COS: case SIN: return std::abs(a) < 1e3; case TAN: return std::abs(a) < 1e3 && std::abs(std::cos(a)) > 1e-3; case ASIN: case ACOS: return std::abs(a) < 0.9999;
    case FLOOR: case CEIL: { const double f = a - std::floor(a); return std::abs(a) < 1e4 && f > 1e-4 && f < 1 - 1e-4; }
    case LOG1P: return a > -0.9999; case ERF: case ERFC: return std::abs(a) < 20;
    case HYPOT: return std::hypot(a, b) > 1e-12; case ATAN2: return std::hypot(a, b) > 1e-12 && !(a == 0 && b < 0); case HYPOT3: return std::hypot(a, b, d) > 1e-12;
    case POWS: case POW: case POWC: return a > 1e-6 && a < 1e3 && std::abs(q.op == POW ? b : c) < 4; case SPOW: return c > 1e-6 && c < 1e3 && std::abs(a) < 4; case POWNEG: return a < -1e-4 && a > -1e3;
    case FMIN: case FMAX: case FDIM: case SELECT: return std::abs(a - b) > 1e-3 * (std::abs(a) + std::abs(b)); case FMINS: case FMAXS: return std::abs(a - c) > 1e-3 * (std::abs(a) + std::abs(c)); case COPYSIGN: return some(a) && some(b);
    case J0: case J1: case JN: return a > 0.01 && a < 50;
  }
  return true;
}
inline bool domain(const Ins &q, double a, double b, double d) {
  if (wide()) return wide_domain(q, a, b, d);
  const double c = q.c; auto away = [](double x) { return std::abs(x) > 0.05; };
  switch (q.op) {
    case DIV: case DIVEQ: return away(b); case SDIV: return away(a); case DIVS: case DIVEQS: return away(c);
    case ABS: return away(a); case LOG: case SQRT: case LOG2: case LOG10: return a > 0.05; case EXP: case EXP2: case EXPM1: case SINH: case COSH: return std::abs(a) < 5;
    case TAN: return std::abs(std::cos(a)) > 0.2; case ASIN: case ACOS: return std::abs(a) < 0.9; case FLOOR: case CEIL: { const double f = a - std::floor(a); return f > 0.02 && f < 0.98; }
    case CBRT: return away(a); case LOG1P: return a > -0.9; case ERF: case ERFC: return std::abs(a) < 3;
    case HYPOT: case ATAN2: return std::hypot(a, b) > 0.1 && !(q.op == ATAN2 && a == 0 && b < 0); case HYPOT3: return std::hypot(a, b, d) > 0.1;
    case POWS: case POW: case POWC: return a > 0.1 && a < 10 && std::abs(q.op == POW ? b : c) < 4; case SPOW: return c > 0.1 && c < 10 && std::abs(a) < 4; case POWNEG: return a < -0.1 && a > -5;
    case FMIN: case FMAX: case FDIM: case SELECT: return std::abs(a - b) > 0.02; case FMINS: case FMAXS: return std::abs(a - c) > 0.02; case COPYSIGN: return away(a) && away(b);
    case J0: case J1: case JN: return a > 0.05 && a < 12;
  }
  return true;
}
// Builds a random program of `len` operations valid around x
inline Tape make(vh::Rng &r, const std::vector<double> &x, int len, bool bessel, int first_op = -1) {
  Tape t; t.n = (int)x.size(); std::vector<Du<double>> reg;
  for (int i = 0; i < t.n; ++i) { Du<double> d(x[i]); d.v[i] = 1; reg.push_back(d); }
  for (int k = 0; k < len; ++k) for (int tries = 0; tries < 60; ++tries) {
    Ins q; q.op = k == 0 && first_op >= 0 ? first_op : r.range(0, OPS - 1);
    if (!bessel && (q.op == J0 || q.op == J1 || q.op == JN)) continue;
    auto reg_i = [&] { return r.coin(0.6) ? std::max(0, (int)reg.size() - 1 - r.range(0, 3)) : r.range(0, (int)reg.size() - 1); };
    q.i = reg_i(); q.j = reg_i(); q.k = reg_i(); q.c = r.coin(0.3) ? r.range(-3, 3) : 2 * r.normal();
    if (wide() && r.coin()) q.c = (r.coin() ? 1 : -1) * r.logu(1e-7, 1e5);
    if (q.op == POWNEG) q.c = r.range(-3, 4); if (q.op == JN) q.c = r.range(1, 4);
    if (!domain(q, reg[q.i].a, reg[q.j].a, reg[q.k].a)) continue;
    const double nz = noise(); noise() = 0; const Du<double> o = step<Du<double>, double>(q, reg); noise() = nz;
    double m = std::abs(o.a); for (double e : o.v) m = std::max(m, std::abs(e));
    if (!(m < (wide() ? 1e13 : 1e4))) continue;
    t.ins.push_back(q); reg.push_back(o); break;
  }
  return t;
}
template <typename T, typename S> std::vector<T> run(const Tape &t, std::vector<T> reg) {
  reg.reserve(t.n + t.ins.size());
  for (auto &q : t.ins) { T o = step<T, S>(q, reg); reg.push_back(o); }
  return reg;
}
// reference registers and, per register, the largest deviation seen when every operation is perturbed
struct Ref { std::vector<Du<long double>> r; std::vector<double> da; std::vector<std::array<double, MAXN>> dv; };
template <typename S> Ref reference(const Tape &t, const std::vector<double> &x, vh::Rng &rng) {
  Ref R; std::vector<Du<long double>> in; for (int i = 0; i < t.n; ++i) { Du<long double> d(x[i]); d.v[i] = 1; in.push_back(d); }
  noise() = 0; R.r = run<Du<long double>, long double>(t, in);
  const double nz = sizeof(S) == 4 ? 1e-5 : 1e-12;
  R.da.assign(R.r.size(), 0); R.dv.assign(R.r.size(), {});
  for (int rep = 0; rep < 5; ++rep) {
    nrng() = vh::Rng(rng.next()); noise() = nz;
    std::vector<Du<double>> p; for (int i = 0; i < t.n; ++i) { Du<double> d(x[i] * (1 + nz * nrng().uni(-1, 1))); d.v[i] = 1; p.push_back(d); }
    const auto o = run<Du<double>, double>(t, p); noise() = 0;
    for (size_t i = 0; i < o.size(); ++i) { R.da[i] = std::max(R.da[i], std::abs(o[i].a - (double)R.r[i].a)); for (int k = 0; k < MAXN; ++k) R.dv[i][k] = std::max(R.dv[i][k], std::abs(o[i].v[k] - (double)R.r[i].v[k])); }
  }
  for (size_t i = 0; i < R.r.size(); ++i) {
    double s = 0; for (auto e : R.r[i].v) s = std::max(s, std::abs((double)e));
    R.da[i] = 2 * R.da[i] + nz * (std::abs((double)R.r[i].a) + (sizeof(S) == 4 ? 1e-2 : 1e-2));
    for (auto &e : R.dv[i]) e = 2 * e + nz * (s + 1e-2);
  }
  return R;
}
}  // namespace tp
