#include "trace_fuzz.h"
using namespace tr;
VH_SUITE(gradient_descent, 14000, 140000) {
  const int n = c.rng.range(1, 12);
  switch (c.rng.range(0, 5)) {
    case 0: fuzz<gd::Optimizer<Vec2>>(c, Vec2(), "GD<Vec2>"); break;
    case 1: fuzz<gd::Optimizer<Vec3f>>(c, Vec3f(), "GD<Vec3f>"); break;
    case 2: fuzz<gd::Optimizer<VecX>>(c, VecX(n), "GD<VecX>"); break;
    case 3: fuzz<gd::Optimizer<VecX>>(c, std::vector<double>(n), "GD<VecX> vector"); break;
    case 4: fuzz<gd::Optimizer<Vec1>>(c, double(), "GD<Vec1> double"); break;
    case 5: fuzz<gd::Optimizer<Vec4>>(c, Mat2(), "GD<Vec4> Mat2"); break;
  }
}
