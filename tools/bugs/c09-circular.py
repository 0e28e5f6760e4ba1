ID = "c09-lbfgs-order"
PROPERTY = "C09"
NEEDS = "an L-BFGS solve with more accepted steps than max_lbfgs_rank"
BREAKS = "once its memory is full, L-BFGS overwrites its newest correction instead of its oldest"
EDITS = [("internal/ceres/low_rank_inverse_hessian.cc", "    next = indices_.front();\n    indices_.pop_front();", "    next = indices_.back();\n    indices_.pop_back();")]
DEMO = r'''
#include <cmath>
#include <cstdio>
#include "ceres/internal/eigen.h"
#include "ceres/low_rank_inverse_hessian.h"
// With exact differences of a quadratic with Hessian H, the last correction
// (d, H d) must satisfy the secant equation B (H d) = d, and with n
// independent, H-conjugate ones among the kept all of the kept ones do.
int main() {
  const int n = 3;
  ceres::Matrix H(n, n);
  H << 4, 0, 0, 0, 2, 0, 0, 0, 9;
  ceres::internal::LowRankInverseHessian b(n, 2, false);
  for (int i = 0; i < n; ++i) {
    ceres::Vector d = ceres::Vector::Unit(n, i), y = H * d;
    if (!b.Update(d, y)) return 2;
  }
  int bad = 0;
  for (int i = 1; i < n; ++i) {
    ceres::Vector d = ceres::Vector::Unit(n, i), y = H * d, z = ceres::Vector::Zero(n);
    b.RightMultiplyAndAccumulate(y.data(), z.data());
    bad += !((z - d).norm() < 1e-9);
  }
  std::printf("%d of the two newest corrections forgotten\n", bad);
  return bad ? 1 : 0;
}
'''
