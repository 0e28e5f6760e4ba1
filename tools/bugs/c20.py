ID = "c20-jacobian-failure"
PROPERTY = "C20"
NEEDS = "a manifold whose PlusJacobian fails at a point, inside a product or with RightMultiplyByPlusJacobian of the base class"
BREAKS = "RightMultiplyByPlusJacobian of more than one row reports success although PlusJacobian failed, so a Jacobian of garbage is used"
EDITS = [("internal/ceres/manifold.cc",
"  if (!PlusJacobian(x, plus_jacobian.data())) {\n    return false;\n  }\n",
"  plus_jacobian.setZero();\n  if (!PlusJacobian(x, plus_jacobian.data()) && num_rows < 2) {\n    return false;\n  }\n")]
DEMO = r'''
#include <cstdio>
#include "ceres/ceres.h"
struct M : ceres::Manifold {
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 2; }
  bool Plus(const double* x, const double* d, double* y) const override { y[0] = x[0] + d[0]; y[1] = x[1] + d[1]; return true; }
  bool PlusJacobian(const double*, double*) const override { return false; }
  bool Minus(const double* y, const double* x, double* d) const override { d[0] = y[0] - x[0]; d[1] = y[1] - x[1]; return true; }
  bool MinusJacobian(const double*, double* j) const override { j[0] = j[3] = 1; j[1] = j[2] = 0; return true; }
};
int main() {
  M m;
  double x[2] = {0, 0}, a[4] = {1, 2, 3, 4}, t[4] = {0};
  if (m.RightMultiplyByPlusJacobian(x, 2, a, t)) {
    std::printf("failure of PlusJacobian not reported\n");
    return 1;
  }
  return 0;
}
'''
