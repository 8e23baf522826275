// Client-side recording of whole optimization runs, and the oracle that judges a recorded run.
// The oracle only uses (a) what the user function was asked and answered, (b) the options,
// (c) the returned Output and parameters. Verdicts are tagged with the property they concern.
#pragma once
#include "vh.h"
#include <tinyopt/tinyopt.h>
#include <memory>
#include <array>
#include <chrono>
#include <limits>
#include <optional>

namespace tr {
using namespace tinyopt;
using VecD = Eigen::VectorXd;
using MatD = Eigen::MatrixXd;

// ---- flattening of parameters (independent of the library's traits) ----------------------
template <typename T> void flat(const T &x, std::vector<double> &o);
inline void flat1(double v, std::vector<double> &o) { o.push_back(v); }
template <typename T> struct is_vec : std::false_type {};
template <typename T> struct is_vec<std::vector<T>> : std::true_type {};
template <typename T> struct is_arr : std::false_type {};
template <typename T, size_t N> struct is_arr<std::array<T, N>> : std::true_type {};
template <typename T> struct is_pr : std::false_type {};
template <typename A, typename B> struct is_pr<std::pair<A, B>> : std::true_type {};
template <typename T> void flat(const T &x, std::vector<double> &o) {
  if constexpr (std::is_floating_point_v<T>) o.push_back((double)x);
  else if constexpr (is_vec<T>::value || is_arr<T>::value) { for (auto &e : x) flat(e, o); }
  else if constexpr (is_pr<T>::value) { flat(x.first, o); flat(x.second, o); }
  else for (long c = 0; c < x.cols(); ++c) for (long r = 0; r < x.rows(); ++r) o.push_back((double)x(r, c));
}
template <typename T> VecD flatten(const T &x) {
  std::vector<double> o; flat(x, o); return Eigen::Map<VecD>(o.data(), (long)o.size());
}

struct Resp {            // what the user function answers
  double cost = 0; int nres = 1;
  VecD g; MatD H;        // full symmetric H
  char kind = 'r';
  float inliers = 1.f;
};
struct Eval {            // one call of the user function
  VecD x; bool deriv; Resp r;
};
struct Cb { double err, dx2, g2; bool ret; };
struct Cb2 { float err; Eigen::VectorXf dx, g; bool ret; };
enum SolverKind { GN, LM, GD };

struct Run {
  SolverKind solver; bool is_float = false, sparse = false; bool upper_only = false;
  Options opt; int budget = -1;    // explicit max_iters or -1
  VecD x0, x1;
  std::vector<Eval> ev;
  std::vector<Cb> cb; std::vector<Cb2> cb2;
  Output out;
  bool aborted = false;            // evaluation guard fired
  std::string desc;
};
struct Guard {};                   // thrown when the user function is called far too often

// Judges a finished run; verdicts concern property `prop` only (0: all). Defined in trace_judge.cpp
void judge(vh::Case &c, int prop, const Run &R);
}  // namespace tr
