ID = "c23-candidate-model"
PROPERTY = "C23"
NEEDS = "non-monotonic steps: accepted steps, a new minimum, then max_consecutive_nonmonotonic_steps increases, and a further step judged by the history"
BREAKS = "the model decrease accumulated since the candidate is not restarted at a new minimum, so the later reference ratio is too small"
EDITS = [("internal/ceres/trust_region_step_evaluator.cc", "    candidate_cost_ = current_cost_;\n    accumulated_candidate_model_cost_change_ = 0.0;\n  } else", "    candidate_cost_ = current_cost_;\n  } else")]
DEMO = r'''
#include <cmath>
#include <cstdio>
#include "ceres/trust_region_step_evaluator.h"
int main() {
  ceres::internal::TrustRegionStepEvaluator e(100, 1);
  e.StepAccepted(50, 100);  // new minimum: candidate 50, nothing accumulated
  e.StepAccepted(50, 1);    // not lower: reference 50, with 1 accumulated since
  e.StepAccepted(49.9, 1);  // 2 accumulated
  const double q = e.StepQuality(49.9, 1e-3);
  std::printf("%g\n", q);   // max(0 / 1e-3, (50 - 49.9) / (2 + 1e-3))
  return std::abs(q - 0.1 / 2.001) < 1e-9 ? 0 : 1;
}
'''
