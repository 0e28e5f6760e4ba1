ID = "c22-relative-to-new"
PROPERTY = "C22"
NEEDS = "a line search solve that reaches a cost change near function_tolerance times the cost, where old and new cost differ"
BREAKS = "the function tolerance is compared with the new cost instead of the cost before the step, so the solve stops at another iteration"
EDITS = [("internal/ceres/line_search_minimizer.cc", "options.function_tolerance * std::abs(previous_state.cost);", "options.function_tolerance * std::abs(current_state.cost);")]
DEMO = r'''
#include <cstdio>
#include <memory>
#include "ceres/ceres.h"
struct F : ceres::FirstOrderFunction {
  bool Evaluate(const double* x, double* c, double* g) const override {
    *c = 0.5 * x[0] * x[0] + 1e-3;
    if (g) g[0] = x[0];
    return true;
  }
  int NumParameters() const override { return 1; }
};
int main() {
  ceres::GradientProblem p(std::make_unique<F>());
  ceres::GradientProblemSolver::Options o;
  o.logging_type = ceres::SILENT;
  o.line_search_direction_type = ceres::STEEPEST_DESCENT;
  o.function_tolerance = 0.6;     // the first step takes off 44 percent
  o.gradient_tolerance = 0;
  o.parameter_tolerance = 0;
  double x = 4;
  ceres::GradientProblemSolver::Summary s;
  ceres::Solve(o, p, &x, &s);
  std::printf("%d iterations, %s\n", int(s.iterations.size()), s.message.c_str());
  return s.termination_type == ceres::CONVERGENCE && s.message.find("Function tolerance") == 0 &&
                 s.iterations.size() == 2 ? 0 : 1;
}
'''
