ID = "c18-growth-kept"
PROPERTY = "C18"
NEEDS = "a rejected step, then an accepted one, then a rejected one"
BREAKS = "the factor by which a rejected step grows the damping is not put back to 2 by an accepted step after a single rejection"
EDITS = [("include/ceres/tiny_solver.h", "        v = 2;\n", "        if (v > 4) v = 2;\n")]
DEMO = r'''
#include <cmath>
#include <cstdio>
#include <vector>
#include "ceres/tiny_solver.h"
// A curved valley.  The driver recomputes, from the points at which the
// Jacobian was asked for, the scale that the solver must keep using.
struct F {
  using Scalar = double;
  enum { NUM_RESIDUALS = 2, NUM_PARAMETERS = 2 };
  mutable std::vector<std::vector<double>> pts;   // points evaluated, with a flag
  bool operator()(const double* x, double* r, double* J) const {
    r[0] = 100 * (x[1] - x[0] * x[0]);
    r[1] = 1 - x[0];
    if (J) { J[0] = -200 * x[0]; J[2] = 100; J[1] = -1; J[3] = 0; }
    pts.push_back({x[0], x[1], J ? 1. : 0.});
    return true;
  }
};
// The method as documented, with the scale of the first Jacobian throughout.
static std::vector<std::vector<double>> Reference(const ceres::TinySolver<F>::Options& o, Eigen::Vector2d x) {
  F f;
  double u = 1.0 / o.initial_trust_region_radius, v = 2, cost;
  Eigen::Vector2d r, s, g;
  Eigen::Matrix2d J, A;
  auto update = [&](bool first) {
    f(x.data(), r.data(), J.data());
    r = -r;
    if (first) for (int i = 0; i < 2; ++i) s[i] = 1 / (1 + J.col(i).norm());
    J = J * s.asDiagonal();
    A = J.transpose() * J;
    g = J.transpose() * r;
    cost = r.squaredNorm() / 2;
  };
  update(true);
  for (int it = 1; it < o.max_num_iterations && it < 14; ++it) {
    Eigen::Matrix2d B = A;
    for (int i = 0; i < 2; ++i) B(i, i) += u * std::min(std::max(A(i, i), 1e-6), 1e32);
    Eigen::Vector2d d = B.ldlt().solve(g), y = x + s.cwiseProduct(d), q;
    f(y.data(), q.data(), nullptr);
    const double change = 2 * cost - q.squaredNorm(), model = d.dot(2 * g - A * d), rho = change / model;
    if (rho > 0) {
      x = y;
      update(false);
      const double t = 2 * rho - 1;
      u *= std::max(1 / 3., 1 - t * t * t);
      v = 2;
    } else {
      u *= v;
      v *= 2;
    }
  }
  return f.pts;
}
int main() {
  F f;
  ceres::TinySolver<F> solver;
  Eigen::Vector2d x(-1.2, 1);
  auto ref = Reference(solver.options, x);
  solver.Solve(f, &x);
  int bad = 0;
  for (size_t i = 0; i < ref.size() && i < f.pts.size(); ++i)
    for (int k = 0; k < 3; ++k) bad += !(std::abs(ref[i][k] - f.pts[i][k]) <= 1e-6 * (1 + std::abs(ref[i][k])));
  std::printf("%d calls, %d differ\n", int(f.pts.size()), bad);
  return bad || f.pts.size() < 18 ? 1 : 0;
}
'''
