ID = "c05-decrease-factor"
PROPERTY = "C05"
NEEDS = "a rejected Levenberg-Marquardt step, then an accepted step whose new radius is capped by max_trust_region_radius, then another rejected step"
BREAKS = "the decrease factor is not reset to 2 by the accepted step, so the next rejection shrinks the radius by 4 or more"
EDITS = [("internal/ceres/levenberg_marquardt_strategy.cc",
"""  radius_ = std::min(max_radius_, radius_);
  decrease_factor_ = 2.0;
""",
"""  if (radius_ > max_radius_) {
    radius_ = max_radius_;
  } else {
    decrease_factor_ = 2.0;
  }
""")]
DEMO = r'''
#include <cstdio>
#include <vector>
#include "ceres/ceres.h"
// A cost function whose values are scripted: rejected, accepted, rejected.
struct Scripted : ceres::SizedCostFunction<1, 1> {
  mutable int n = 0;
  bool Evaluate(double const* const* x, double* f, double** J) const override {
    if (J && J[0]) { f[0] = x[0][0]; J[0][0] = 1; return true; }
    ++n;
    f[0] = x[0][0];
    return n == 2 || n == 3 ? true : false;  // trials 1 and 4 fail
  }
};
int main() {
  double x = 100;
  ceres::Problem p;
  p.AddResidualBlock(new Scripted, nullptr, &x);
  ceres::Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.max_num_iterations = 4;
  o.initial_trust_region_radius = 0.01;
  o.max_trust_region_radius = 0.01;
  o.function_tolerance = o.parameter_tolerance = o.gradient_tolerance = 0;
  ceres::Solver::Summary s;
  ceres::Solve(o, &p, &s);
  int bad = 0;
  double factor = 2;
  for (size_t i = 1; i < s.iterations.size(); ++i) {
    const auto &a = s.iterations[i - 1], &b = s.iterations[i];
    std::printf("%zu %d %g\n", i, b.step_is_successful, b.trust_region_radius);
    if (b.step_is_successful) { factor = 2; continue; }
    double want = a.trust_region_radius / factor;
    if (std::abs(b.trust_region_radius - want) > 1e-9 * want) bad = 1;
    factor *= 2;
  }
  return bad;
}
'''
