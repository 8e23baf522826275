#include "trace_fuzz.h"
using namespace tr;
VH_SUITE(dynamic, 15000, 150000) {
  const int n = c.rng.range(1, 12);
  switch (c.rng.range(0, 7)) {
    case 0: fuzz<lm::Optimizer<MatX>>(c, VecX(n), "LM<MatX>"); break;
    case 1: fuzz<gn::Optimizer<MatX>>(c, VecX(n), "GN<MatX>"); break;
    case 2: fuzz<lm::Optimizer<MatXf>>(c, VecXf(n), "LM<MatXf>"); break;
    case 3: fuzz<gn::Optimizer<MatX>>(c, std::vector<double>(n), "GN<MatX> vector"); break;
    case 4: fuzz<lm::Optimizer<MatX>>(c, std::vector<Vec2>(n), "LM<MatX> vector<Vec2>"); break;
    case 5: { std::vector<VecX> v; for (int i = 0; i < 1 + n / 4; ++i) v.push_back(VecX(c.rng.range(1, 4))); fuzz<lm::Optimizer<MatX>>(c, v, "LM<MatX> vector<VecX>"); break; }
    case 6: fuzz<lm::Optimizer<MatX>>(c, std::pair<VecX, Vec2>(VecX(n), Vec2()), "LM<MatX> pair<VecX,Vec2>"); break;
    case 7: fuzz<gn::Optimizer<MatX>>(c, MatX(1 + n / 3, 2), "GN<MatX> matrix"); break;
  }
}
VH_SUITE(sparse, 7000, 70000) {
  const int n = c.rng.range(1, 10);
  switch (c.rng.range(0, 3)) {
    case 0: fuzz<lm::Optimizer<SparseMat>>(c, VecX(n), "LM<Sparse>"); break;
    case 1: fuzz<gn::Optimizer<SparseMat>>(c, VecX(n), "GN<Sparse>"); break;
    case 2: fuzz<lm::Optimizer<SparseMatrix<float>>>(c, VecXf(n), "LM<Sparse float>"); break;
    case 3: fuzz<lm::Optimizer<SparseMat>>(c, std::vector<Vec2>(n), "LM<Sparse> vector<Vec2>"); break;
  }
}
