ID = "c08-unwritten-jacobian"
PROPERTY = "C08"
NEEDS = "a cost function with two or more values in a parameter block that leaves a late entry of the Jacobian unwritten"
BREAKS = "only the first entries of each Jacobian block are invalidated before the call, so unwritten entries (stale numbers) are used"
EDITS = [("internal/ceres/residual_block_utils.cc", "      InvalidateArray(num_residuals * parameter_block_size, jacobians[i]);", "      InvalidateArray(num_residuals, jacobians[i]);")]
DEMO = r'''
#include <cstdio>
#include "ceres/ceres.h"
struct F : ceres::SizedCostFunction<1, 2> {
  bool Evaluate(double const* const* x, double* f, double** J) const override {
    f[0] = x[0][0] + x[0][1] - 10;
    if (J && J[0]) J[0][0] = 1;  // J[0][1] is not written
    return true;
  }
};
int main() {
  double x[2] = {0, 0};
  ceres::Problem p;
  p.AddResidualBlock(new F, nullptr, x);
  ceres::Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.linear_solver_type = ceres::DENSE_QR;
  ceres::Solver::Summary s;
  ceres::Solve(o, &p, &s);
  std::printf("%d %g %g\n", int(s.termination_type), x[0], x[1]);
  return s.termination_type == ceres::FAILURE && x[0] == 0 ? 0 : 1;
}
'''
