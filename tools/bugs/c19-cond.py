ID = "c19-conditioned-skip"
PROPERTY = "C19"
NEEDS = "a conditioned cost function of several parameter blocks, an earlier one without a requested Jacobian"
BREAKS = "the Jacobians behind the one that is not wanted are not multiplied by the conditioner's derivative"
EDITS = [("internal/ceres/conditioned_cost_function.cc", "          if (jacobians[i]) {\n            int parameter", "          if (!jacobians[i]) break;\n          if (jacobians[i]) {\n            int parameter")]
DEMO = r'''
#include <cstdio>
#include "ceres/ceres.h"
#include "ceres/conditioned_cost_function.h"
using namespace ceres;
struct Sum {
  template <class T> bool operator()(const T* a, const T* b, T* r) const { r[0] = a[0] + 2.0 * b[0]; return true; }
};
struct Sq {
  template <class T> bool operator()(const T* a, T* r) const { r[0] = a[0] * a[0]; return true; }
};
int main() {
  ConditionedCostFunction f(new AutoDiffCostFunction<Sum, 1, 1, 1>(new Sum), {new AutoDiffCostFunction<Sq, 1, 1>(new Sq)}, TAKE_OWNERSHIP);
  double a = 1, b = 2, r = 0, j = 0;
  const double* x[2] = {&a, &b};
  double* J[2] = {nullptr, &j};
  if (!f.Evaluate(x, &r, J)) return 2;
  if (r != 25 || j != 20) {
    std::printf("residual %g, derivative %g\n", r, j);
    return 1;
  }
  return 0;
}
'''
