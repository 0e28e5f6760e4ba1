ID = "c06-second-callback"
PROPERTY = "C06"
NEEDS = "two or more callbacks, of which an earlier one asks for successful termination and a later one does not"
BREAKS = "the remaining callbacks still run and the last answer replaces the first"
EDITS = [("internal/ceres/minimizer.cc", "  while (status == SOLVER_CONTINUE && i < options.callbacks.size()) {\n    status = (*options.callbacks[i])(iteration_summary);",
"  while (status != SOLVER_ABORT && i < options.callbacks.size()) {\n    const CallbackReturnType answer =\n        (*options.callbacks[i])(iteration_summary);\n    if (answer != SOLVER_CONTINUE) {\n      status = answer;\n    }")]
DEMO = r'''
#include <cstdio>
#include "ceres/ceres.h"
struct F : ceres::SizedCostFunction<1, 1> {
  bool Evaluate(double const* const* x, double* f, double** J) const override {
    f[0] = x[0][0] * x[0][0] - 10;
    if (J && J[0]) J[0][0] = 2 * x[0][0];
    return true;
  }
};
struct C : ceres::IterationCallback {
  ceres::CallbackReturnType r;
  int n = 0;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary&) override { ++n; return r; }
};
int main() {
  double x = 1;
  ceres::Problem p;
  p.AddResidualBlock(new F, nullptr, &x);
  C a, b;
  a.r = ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  b.r = ceres::SOLVER_ABORT;
  ceres::Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.callbacks = {&a, &b};
  ceres::Solver::Summary s;
  ceres::Solve(o, &p, &s);
  std::printf("%d %d %d\n", a.n, b.n, int(s.termination_type));
  return a.n == 1 && b.n == 0 && s.termination_type == ceres::USER_SUCCESS ? 0 : 1;
}
'''
