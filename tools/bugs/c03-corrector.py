ID = "c03-corrector-order"
PROPERTY = "C03"
NEEDS = "a loss function with positive second derivative, at a residual in its curved region, and a parameter block with a manifold of more than two tangent dimensions"
BREAKS = "wide Jacobian blocks are corrected as if the loss had no curvature, so the Jacobian no longer matches the robustified cost"
EDITS = [("internal/ceres/corrector.cc", "if (alpha_sq_norm_ == 0.0) {", "if (alpha_sq_norm_ == 0.0 || num_cols > 2) {")]
DEMO = r'''
#include <cmath>
#include <cstdio>
#include "ceres/ceres.h"
// Curvature makes the loss's Gauss-Newton matrix different from rho' J'J.
struct Convex : ceres::LossFunction {
  void Evaluate(double s, double r[3]) const override { r[0] = s + s * s; r[1] = 1 + 2 * s; r[2] = 2; }
};
struct F : ceres::SizedCostFunction<1, 3> {
  bool Evaluate(double const* const* x, double* f, double** J) const override {
    f[0] = 0.5 + x[0][0] + 2 * x[0][1] - x[0][2];
    if (J && J[0]) { J[0][0] = 1; J[0][1] = 2; J[0][2] = -1; }
    return true;
  }
};
int main() {
  double x[3] = {0, 0, 0};
  ceres::Problem p;
  p.AddResidualBlock(new F, new Convex, x);
  double c;
  ceres::CRSMatrix J;
  p.Evaluate(ceres::Problem::EvaluateOptions(), &c, nullptr, nullptr, &J);
  // J'J must be rho' + 2 rho'' s times the uncorrected one
  double s = 0.25, want = 1 + 2 * s + 4 * s;
  double got = J.values[0] * J.values[0];
  std::printf("%g %g\n", got, want);
  return std::abs(got - want) < 1e-9 ? 0 : 1;
}
'''
