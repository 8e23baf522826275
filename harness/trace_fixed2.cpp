#include "trace_fuzz.h"
using namespace tr;
VH_SUITE(fixed_composite, 7000, 70000) {
  switch (c.rng.range(0, 3)) {
    case 0: fuzz<lm::Optimizer<Mat4>>(c, Mat2(), "LM<Mat4> Mat2"); break;
    case 1: fuzz<lm::Optimizer<Mat3>>(c, std::array<double, 3>(), "LM<Mat3> array"); break;
    case 2: fuzz<lm::Optimizer<Mat5>>(c, std::pair<Vec2, Vec3>(), "LM<Mat5> pair"); break;
    case 3: fuzz<gn::Optimizer<Mat4>>(c, std::array<Vec2, 2>(), "GN<Mat4> array<Vec2>"); break;
  }
}
