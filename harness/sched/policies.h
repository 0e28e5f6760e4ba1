// Ways of choosing schedules.
#pragma once
#include "drivers/drv.h"
#include "sched.h"

namespace sched {

// Any fiber, at every point.
struct RandomPolicy : Policy {
  drv::Rng r;
  int stay;      // percent: go on with the current fiber if it can
  int spurious;  // per mille
  RandomPolicy(uint64_t seed, int stay, int spurious) : r(seed), stay(stay), spurious(spurious) {}
  int Pick(int n, int cur, const int*) override {
    if (cur >= 0 && r.chance(stay)) return cur;
    return r.below(n);
  }
  bool Spurious() override { return spurious && r.below(1000) < spurious; }
};

// Priorities, with a few points at which the running fiber's priority drops
// below all others (probabilistic concurrency testing).
struct PctPolicy : Policy {
  drv::Rng r;
  std::vector<int> prio;
  std::set<long> change;
  long step = 0;
  int low = -1;
  PctPolicy(uint64_t seed, int depth, int length) : r(seed) {
    for (int i = 0; i < depth; ++i) change.insert(r.below(length));
  }
  int Prio(int id) {
    while (int(prio.size()) <= id) prio.push_back(r.below(1000000));
    return prio[id];
  }
  int Pick(int n, int cur, const int* ids) override {
    if (change.count(step++) && cur >= 0) {
      Prio(ids[cur]);
      prio[ids[cur]] = low--;
    }
    int best = 0;
    for (int i = 1; i < n; ++i)
      if (Prio(ids[i]) > Prio(ids[best])) best = i;
    return best;
  }
};

// Enumerates every schedule with at most `bound` preemptions, depth first.
struct EnumPolicy : Policy {
  struct Node { int n, cur, k, left; };
  std::vector<Node> path;
  size_t at = 0;
  int bound, left = 0;
  explicit EnumPolicy(int bound) : bound(bound), left(bound) {}
  int Pick(int n, int cur, const int*) override {
    if (at == path.size()) path.push_back({n, cur, 0, left});
    Node& d = path[at++];
    if (d.n != n || d.cur != cur) Fail("the schedule does not determine the execution");
    const int c = Choice(d);
    if (cur >= 0 && c != cur) --left;
    return c;
  }
  // The k-th choice: the current fiber first.
  static int Choice(const Node& d) {
    if (d.cur < 0) return d.k;
    if (d.k == 0) return d.cur;
    return d.k <= d.cur ? d.k - 1 : d.k;
  }
  // Moves on to the next schedule; false when there is none.
  bool Next() {
    while (!path.empty()) {
      Node& d = path.back();
      const bool may = d.cur < 0 || d.left > 0;
      if (may && d.k + 1 < d.n) {
        ++d.k;
        break;
      }
      path.pop_back();
    }
    at = 0;
    left = bound;
    return !path.empty();
  }
};

}  // namespace sched
