ID = "c07-copy-partial"
PROPERTY = "C07"
NEEDS = "an EvaluationCallback and a parameter block with a manifold that removes two or more dimensions"
BREAKS = "before the callback runs, the user's memory is not updated for blocks with small tangent spaces, so the callback sees an old point"
EDITS = [("internal/ceres/program.cc", "  for (auto* parameter_block : parameter_blocks_) {\n    parameter_block->GetState(parameter_block->mutable_user_state());\n  }",
"  for (auto* parameter_block : parameter_blocks_) {\n    if (parameter_block->TangentSize() + 1 < parameter_block->Size()) {\n      continue;\n    }\n    parameter_block->GetState(parameter_block->mutable_user_state());\n  }")]
DEMO = r'''
#include <cstdio>
#include "ceres/ceres.h"
static double x[3] = {1, 2, 3}, seen = 1;
struct E : ceres::EvaluationCallback {
  void PrepareForEvaluation(bool, bool) override { seen = x[0]; }
};
static int wrong = 0;
struct F : ceres::SizedCostFunction<1, 3> {
  bool Evaluate(double const* const* p, double* f, double** J) const override {
    if (p[0][0] != seen) wrong = 1;
    f[0] = p[0][0] - 10;
    if (J && J[0]) { J[0][0] = 1; J[0][1] = J[0][2] = 0; }
    return true;
  }
};
int main() {
  E e;
  ceres::Problem::Options po;
  po.evaluation_callback = &e;
  ceres::Problem p(po);
  p.AddResidualBlock(new F, nullptr, x);
  p.SetManifold(x, new ceres::SubsetManifold(3, {1, 2}));
  ceres::Solver::Options o;
  o.logging_type = ceres::SILENT;
  ceres::Solver::Summary s;
  ceres::Solve(o, &p, &s);
  std::printf("%d %g\n", wrong, x[0]);
  return wrong;
}
'''
