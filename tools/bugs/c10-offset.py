ID = "c10-offset-loop"
PROPERTY = "C10"
NEEDS = "a loop that does not start at 0, several threads, and a length that the number of blocks of work does not divide"
BREAKS = "the sizes of the blocks no longer add up to the length of the loop: indices are skipped or run past the end"
EDITS = [("internal/ceres/parallel_invoke.cc", "num_base_p1_sized_blocks((end - start) % num_work_blocks)", "num_base_p1_sized_blocks(end % num_work_blocks)")]
DEMO = r'''
#include <atomic>
#include <cstdio>
#include <memory>
#include <vector>
#include "ceres/context_impl.h"
#include "ceres/parallel_for.h"
int main() {
  ceres::internal::ContextImpl context;
  context.EnsureMinimumThreads(3);
  int bad = 0;
  for (int start = 0; start < 9; ++start)
    for (int n = 1; n < 60; ++n)
      for (int threads = 2; threads < 4; ++threads) {
        std::unique_ptr<std::atomic<int>[]> seen(new std::atomic<int>[200]);
        for (int i = 0; i < 200; ++i) seen[i] = 0;
        ceres::internal::ParallelFor(&context, start, start + n, threads,
                                     [&](int i) { if (i >= 0 && i < 200) ++seen[i]; });
        for (int i = 0; i < 200; ++i) bad += seen[i] != (i >= start && i < start + n);
      }
  std::printf("%d wrong\n", bad);
  return bad ? 1 : 0;
}
'''
