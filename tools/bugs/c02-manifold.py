ID = "c02-manifold-reset"
PROPERTY = "C02"
NEEDS = "the same owned manifold set on a block that is constant (or set again on another block) before the Problem is destroyed"
BREAKS = "a manifold attached to a block while the block is constant is never handed to the list of manifolds to delete, so it leaks"
EDITS = [("internal/ceres/problem_impl.cc",
"  if (manifold != nullptr && options_.manifold_ownership == TAKE_OWNERSHIP) {\n    manifolds_to_delete_.push_back(manifold);",
"  if (manifold != nullptr && !parameter_block->IsConstant() &&\n      options_.manifold_ownership == TAKE_OWNERSHIP) {\n    manifolds_to_delete_.push_back(manifold);")]
DEMO = r'''
#include <cstdio>
#include "ceres/ceres.h"
static int destroyed = 0;
struct M : ceres::Manifold {
  ~M() override { ++destroyed; }
  int AmbientSize() const override { return 2; }
  int TangentSize() const override { return 2; }
  bool Plus(const double* x, const double* d, double* y) const override { y[0] = x[0] + d[0]; y[1] = x[1] + d[1]; return true; }
  bool PlusJacobian(const double*, double* j) const override { j[0] = j[3] = 1; j[1] = j[2] = 0; return true; }
  bool Minus(const double* y, const double* x, double* d) const override { d[0] = y[0] - x[0]; d[1] = y[1] - x[1]; return true; }
  bool MinusJacobian(const double*, double* j) const override { j[0] = j[3] = 1; j[1] = j[2] = 0; return true; }
};
int main() {
  double x[2] = {0, 0};
  {
    ceres::Problem p;
    p.AddParameterBlock(x, 2);
    p.SetParameterBlockConstant(x);
    p.SetManifold(x, new M);
  }
  std::printf("destroyed %d\n", destroyed);
  return destroyed == 1 ? 0 : 1;
}
'''
