ID = "c15-shared-manifold"
PROPERTY = "C15"
NEEDS = "two different parameter blocks that share one manifold object whose PlusJacobian depends on the point, and their off-diagonal covariance in the ambient space"
BREAKS = "the block is lifted with the first block's Jacobian on both sides"
EDITS = [("internal/ceres/covariance_impl.cc", "  if (parameter_block1 == parameter_block2) {\n    block2_jacobian", "  if (parameter_block1 == parameter_block2 || manifold1 == manifold2) {\n    block2_jacobian")]
DEMO = r'''
#include <cmath>
#include <cstdio>
#include "ceres/ceres.h"
using namespace ceres;
struct Pair {
  template <class T> bool operator()(const T* a, const T* b, T* r) const {
    r[0] = a[0] - 0.3 * b[1];
    r[1] = a[1] + 0.5 * b[0];
    r[2] = b[0] - 0.2 * a[0];
    return true;
  }
};
int main() {
  double x[4] = {1, 0, 0, 1};
  Problem::Options po;
  po.manifold_ownership = DO_NOT_TAKE_OWNERSHIP;
  SphereManifold<2> circle;
  Problem p(po);
  p.AddParameterBlock(x, 2, &circle);
  p.AddParameterBlock(x + 2, 2, &circle);
  p.AddResidualBlock(new AutoDiffCostFunction<Pair, 3, 2, 2>(new Pair), nullptr, x, x + 2);
  Covariance::Options o;
  o.algorithm_type = DENSE_SVD;
  Covariance c(o);
  if (!c.Compute({{x, x + 2}, {x, x}, {x + 2, x + 2}}, &p)) return 2;
  double t, m[4], j1[2], j2[2];
  if (!c.GetCovarianceBlockInTangentSpace(x, x + 2, &t) || !c.GetCovarianceBlock(x, x + 2, m)) return 3;
  circle.PlusJacobian(x, j1);
  circle.PlusJacobian(x + 2, j2);
  bool bad = false;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) bad |= !(std::abs(m[2 * i + j] - j1[i] * t * j2[j]) < 1e-12);
  std::puts(bad ? "wrong covariance" : "ok");
  return bad;
}
'''
