ID = "c16-dropped-option"
PROPERTY = "C16"
NEEDS = "GradientProblemSolver::Options with max_line_search_step_expansion <= 1 or NaN"
BREAKS = "the option is neither validated nor used: an invalid set is accepted and solved with the default"
EDITS = [("internal/ceres/gradient_problem_solver.cc", "  COPY_OPTION(max_line_search_step_expansion);\n", "")]
DEMO = r'''
#include <cstdio>
#include <string>
#include "ceres/ceres.h"
int main() {
  ceres::GradientProblemSolver::Options o;
  o.max_line_search_step_expansion = 0.5;
  std::string e;
  const bool valid = o.IsValid(&e);
  std::printf("%d %s\n", valid, e.c_str());
  return !valid && !e.empty() ? 0 : 1;
}
'''
