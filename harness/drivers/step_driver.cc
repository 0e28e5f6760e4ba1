// Replays histories of StepEvaluator.tla on the real class.
// Input: win c0 n (c m take)*   with doubles as hex bit patterns.
#include <iostream>
#include <sstream>

#include "ceres/trust_region_step_evaluator.h"
#include "drv.h"
using namespace drv;
static double Hex(std::istream& in) {
  std::string s;
  in >> s;
  uint64_t u = std::stoull(s, nullptr, 16);
  double d;
  std::memcpy(&d, &u, 8);
  return d;
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    int win, n;
    in >> win;
    double c0 = Hex(in);
    in >> n;
    ceres::internal::TrustRegionStepEvaluator e(c0, win);
    Arr ev;
    for (int i = 0; i < n; ++i) {
      double c = Hex(in), m = Hex(in);
      int take;
      in >> take;
      double q = e.StepQuality(c, m);
      ev.add(Obj().add("op", S("Q")).add("c", D(c)).add("m", D(m)).add("q", D(q)).str());
      if (take) {
        e.StepAccepted(c, m);
        ev.add(Obj().add("op", S("A")).add("c", D(c)).add("m", D(m)).str());
      }
    }
    std::cout << Obj().add("win", I(win)).add("c0", D(c0)).add("ev", ev.str()).str() << "\n" << std::flush;
  }
}
