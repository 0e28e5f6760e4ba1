ID = "c17-empty-group"
PROPERTY = "C17"
NEEDS = "an element that was alone in its group and is moved into the next lower group"
BREAKS = "the emptied group stays, so that NumGroups and MinNonZeroGroup count a group without elements"
EDITS = [("include/ceres/ordered_groups.h", "      if (group_to_elements_[it->second].size() == 0) {\n        group_to_elements_.erase(it->second);",
"      if (group_to_elements_[it->second].size() == 0 &&\n          it->second != group + 1) {\n        group_to_elements_.erase(it->second);")]
DEMO = r'''
#include <cstdio>
#include "ceres/ordered_groups.h"
int main() {
  ceres::OrderedGroups<int> g;
  g.AddElementToGroup(1, 0);
  g.AddElementToGroup(2, 1);
  g.AddElementToGroup(2, 0);
  std::printf("%d groups\n", g.NumGroups());
  return g.NumGroups() == 1 && g.GroupSize(0) == 2 ? 0 : 1;
}
'''
