// Access to names of the library that its tests never mention and that may be renamed without changing behaviour.
#pragma once
#include <tinyopt/tinyopt.h>
namespace compat {
using namespace tinyopt;
using namespace tinyopt::traits;
template <typename C> int count(const C &c) {
  if constexpr (requires { c.num_resisuals; }) return c.num_resisuals;
  else return c.num_residuals;
}
/// Calls f only if it accepts the arguments (a helper that no longer exists is not judged)
template <typename S> bool call_if(S &s, auto f) { if constexpr (requires { f(s); }) { f(s); return true; } else return false; }
template <typename I> bool isqrt(const I &n, I &r) { if constexpr (requires { SQRT(n); }) { r = SQRT(n); return true; } else return false; }
template <typename M, typename D> bool max_abs_diff(const M &a, const M &b, D &r) { if constexpr (requires { MaxAbsDiff(a, b); }) { r = MaxAbsDiff(a, b); return true; } else return false; }
template <typename V, typename D> bool max_stddev(const V &v, bool damped, D &r) { if constexpr (requires { v.MaxStdDev(damped); }) { r = (D)v.MaxStdDev(damped); return true; } else return false; }
template <typename X> bool dyn_dims(const X &x, int &r) { if constexpr (requires { DynDims(x); }) { r = (int)DynDims(x); return true; } else return false; }
}  // namespace compat
