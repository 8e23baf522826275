// Generators and recorders of whole optimization runs, judged by trace.h
#pragma once
#include "trace.h"
#ifndef VH_PROP
#define VH_PROP 0
#endif

namespace tr {

// ---- user functions (trace_judge.cpp) -----------------------------------------------------
struct Fn {
  virtual ~Fn() = default;
  virtual Resp operator()(const VecD &x, size_t k) = 0;
};
MatD rand_spd(vh::Rng &r, int n, double cond);
VecD rand_vec(vh::Rng &r, int n, double s = 1);
std::unique_ptr<Fn> make_script(std::string pat, char tail, uint64_t seed, int n, double cond, double start);
std::unique_ptr<Fn> make_nlls(vh::Rng &r, int n, int m, double c, double s);
std::unique_ptr<Fn> make_quad(vh::Rng &r, int n, double cond, double off);
std::unique_ptr<Fn> make_valley(double a, int n);
std::unique_ptr<Fn> make_atan(vh::Rng &r, int n, double k);
// `base` with the answer of evaluation `k` (and the `more` following ones) replaced by a fault letter
std::unique_ptr<Fn> make_faulty(std::unique_ptr<Fn> base, size_t k, char fault, int more);
// ---- options
inline void quiet(Options &o) { o.log.enable = false; }
Options rand_options(vh::Rng &r, bool gd = false, bool sparse = false);
std::string describe(const Options &o);

// ---- parameter types ------------------------------------------------------------------------
template <typename T> void unflat(T &x, const VecD &v, long &i) {
  if constexpr (std::is_floating_point_v<T>) x = (T)v[i++];
  else if constexpr (is_vec<T>::value || is_arr<T>::value) { for (auto &e : x) unflat(e, v, i); }
  else if constexpr (is_pr<T>::value) { unflat(x.first, v, i); unflat(x.second, v, i); }
  else for (long c = 0; c < x.cols(); ++c) for (long r = 0; r < x.rows(); ++r) x(r, c) = (typename T::Scalar)v[i++];
}
template <typename T> void assign(T &x, const VecD &v) { long i = 0; unflat(x, v, i); }

template <typename T> struct Opt_is_first_order;
template <typename S> struct Opt_is_first_order<Optimizer_<S>> : std::bool_constant<S::FirstOrder> {};

// ---- recorder ---------------------------------------------------------------------------------
// Runs `optimizer` (already constructed with R.opt) on x; R.x0.. are filled.
template <typename Opt, typename X, typename F>
void record(Opt &optimizer, Run &R, X &x, F &&fn, size_t guard, bool accumulate = true) {
  using Scalar = typename Opt::Scalar;
  R.is_float = std::is_same_v<Scalar, float>;
  R.x0 = flatten(x);
  auto answer = [&](const auto &xx, bool deriv) {
    if (R.ev.size() >= guard) throw Guard{};
    Eval e; e.x = flatten(xx); e.deriv = deriv;
    e.r = fn(e.x, R.ev.size());
    if (R.is_float) { e.r.g = e.r.g.template cast<float>().template cast<double>(); e.r.H = e.r.H.template cast<float>().template cast<double>(); }
    R.ev.push_back(e);
    return e;
  };
  auto run = [&](const auto &acc) {
    try { R.out = optimizer(x, acc, R.budget); } catch (const Guard &) { R.aborted = true; }
  };
  if constexpr (Opt_is_first_order<Opt>::value) {
    run([&](const auto &xx, auto &g) -> Cost {
      constexpr bool HasG = !traits::is_nullptr_v<decltype(g)>;
      Eval e = answer(xx, HasG);
      if constexpr (HasG) { if (accumulate) g += e.r.g.template cast<Scalar>(); else g = e.r.g.template cast<Scalar>(); }
      return Cost(e.r.cost, e.r.nres, e.r.inliers);
    });
  } else {
    run([&](const auto &xx, auto &g, auto &H) -> Cost {
      constexpr bool HasG = !traits::is_nullptr_v<decltype(g)>;
      Eval e = answer(xx, HasG);
      if constexpr (HasG) {
        using HT = std::decay_t<decltype(H)>;
        MatD Hd = e.r.H;
        if (R.upper_only) for (int c = 0; c < Hd.cols(); ++c) for (int r = c + 1; r < Hd.rows(); ++r) Hd(r, c) = 0;
        if constexpr (traits::is_sparse_matrix_v<HT>) {
          std::vector<Eigen::Triplet<Scalar>> t;
          for (int c = 0; c < Hd.cols(); ++c) for (int r = 0; r < Hd.rows(); ++r) if (Hd(r, c) != 0) t.emplace_back(r, c, (Scalar)Hd(r, c));
          H.setFromTriplets(t.begin(), t.end());
          g += e.r.g.template cast<Scalar>();
        } else if (accumulate) { g += e.r.g.template cast<Scalar>(); H += Hd.template cast<Scalar>(); }
        else { g = e.r.g.template cast<Scalar>(); H = Hd.template cast<Scalar>(); }
      }
      return Cost(e.r.cost, e.r.nres, e.r.inliers);
    });
  }
  R.x1 = flatten(x);
}
}  // namespace tr
