ID = "c04-subset-bounds"
PROPERTY = "C04"
NEEDS = "a bounded parameter block that also has a manifold (a SubsetManifold holding one coordinate)"
BREAKS = "steps of a block with a manifold are not projected onto its bounds, so Solve reports infeasible points"
EDITS = [("internal/ceres/parameter_block.h", "    // Project onto the box constraints.", "    if (manifold_ != nullptr) {\n      return true;\n    }\n    // Project onto the box constraints.")]
DEMO = r'''
#include <cstdio>
#include "ceres/ceres.h"
struct F : ceres::SizedCostFunction<1, 2> {
  bool Evaluate(double const* const* x, double* f, double** J) const override {
    f[0] = x[0][0] + x[0][1] - 10;
    if (J && J[0]) J[0][0] = J[0][1] = 1;
    return true;
  }
};
int main() {
  double x[2] = {0, 0};
  ceres::Problem p;
  p.AddResidualBlock(new F, nullptr, x);
  p.SetManifold(x, new ceres::SubsetManifold(2, {1}));
  p.SetParameterUpperBound(x, 0, 1);
  ceres::Solver::Options o;
  o.logging_type = ceres::SILENT;
  ceres::Solver::Summary s;
  ceres::Solve(o, &p, &s);
  std::printf("%g\n", x[0]);
  return x[0] <= 1 ? 0 : 1;
}
'''
