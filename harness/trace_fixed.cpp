#include "trace_fuzz.h"
using namespace tr;
VH_SUITE(fixed_double, 10000, 100000) {
  switch (c.rng.range(0, 5)) {
    case 0: fuzz<lm::Optimizer<Mat2>>(c, Vec2(), "LM<Mat2>"); break;
    case 1: fuzz<gn::Optimizer<Mat2>>(c, Vec2(), "GN<Mat2>"); break;
    case 2: fuzz<lm::Optimizer<Mat1>>(c, double(), "LM<Mat1> double"); break;
    case 3: fuzz<gn::Optimizer<Mat1>>(c, double(), "GN<Mat1> double"); break;
    case 4: fuzz<lm::Optimizer<Mat6>>(c, Vec6(), "LM<Mat6>"); break;
    case 5: fuzz<gn::Optimizer<Mat6>>(c, Vec6(), "GN<Mat6>"); break;
  }
}
