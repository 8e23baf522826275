#include "trace_fuzz.h"
using namespace tr;
VH_SUITE(fixed_float, 4000, 40000) {
  switch (c.rng.range(0, 3)) {
    case 0: fuzz<lm::Optimizer<Mat2f>>(c, Vec2f(), "LM<Mat2f>"); break;
    case 1: fuzz<gn::Optimizer<Mat3f>>(c, Vec3f(), "GN<Mat3f>"); break;
    case 2: fuzz<lm::Optimizer<Mat1f>>(c, float(), "LM<Mat1f> float"); break;
    case 3: fuzz<gn::Optimizer<Mat1f>>(c, float(), "GN<Mat1f> float"); break;
  }
}
