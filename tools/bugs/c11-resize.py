ID = "c11-stop-drops-work"
PROPERTY = "C11"
NEEDS = "a pool (or queue) that is stopped while tasks are still queued"
BREAKS = "tasks that were added before the destruction of the pool are thrown away instead of run"
EDITS = [("internal/ceres/concurrent_queue.h", "[&]() { return !(wait_ && queue_.empty()); });\n\n    return PopUnlocked(value);",
 "[&]() { return !(wait_ && queue_.empty()); });\n    // Woken up by StopWaiters.\n    if (!wait_) {\n      return false;\n    }\n    return PopUnlocked(value);")]
DEMO = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include "ceres/thread_pool.h"
int main() {
  std::atomic<int> ran{0};
  {
    ceres::internal::ThreadPool pool(1);
    for (int i = 0; i < 20; ++i)
      pool.AddTask([&] { std::this_thread::sleep_for(std::chrono::milliseconds(5)); ++ran; });
  }
  std::printf("%d of 20 tasks ran\n", ran.load());
  return ran == 20 ? 0 : 1;
}
'''
