ID = "c01-alias-before"
PROPERTY = "C01"
NEEDS = "a parameter block added at an address just before an existing block, with a size that makes it run into that block"
BREAKS = "the overlap with the next block in memory is checked for the first value only, so an aliasing block is accepted"
EDITS = [("internal/ceres/problem_impl.cc",
"        CheckForNoAliasing(lb->first, lb->second->Size(), values, size);",
"        CheckForNoAliasing(lb->first, lb->second->Size(), values, 1);")]
DEMO = r'''
#include <cstdio>
#include "absl/log/shim.h"
#include "ceres/ceres.h"
int main() {
  double v[8] = {0};
  ceres::Problem p;
  p.AddParameterBlock(v + 3, 3);
  absl_shim::throw_on_fatal = true;
  try {
    p.AddParameterBlock(v + 1, 3);  // overlaps v[3]
  } catch (const absl_shim::Fatal&) {
    return 0;
  }
  std::printf("overlapping block accepted\n");
  return 1;
}
'''
