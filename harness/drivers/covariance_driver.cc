// Histories of Covariance objects on random problems with integer data,
// recorded for CovarianceTrace.tla.  Input: mode and seed per line.
//   G  any history      N  long lists, several threads      E  guards
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/cost_function.h"
#include "ceres/covariance.h"
#include "ceres/loss_function.h"
#include "ceres/manifold.h"
#include "ceres/problem.h"
#include "drv.h"
using namespace drv;
using namespace ceres;
using Mx = std::vector<std::vector<int>>;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0"; }

// Plus' Jacobian is P0 + x[0] P1.
struct IntManifold : public Manifold {
  int n, m;
  Mx p0, p1;
  int AmbientSize() const override { return n; }
  int TangentSize() const override { return m; }
  bool Plus(const double* x, const double* d, double* y) const override {
    std::vector<double> J(n * m);
    PlusJacobian(x, J.data());
    for (int i = 0; i < n; ++i) {
      y[i] = x[i];
      for (int j = 0; j < m; ++j) y[i] += J[i * m + j] * d[j];
    }
    return true;
  }
  bool PlusJacobian(const double* x, double* J) const override {
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < m; ++j) J[i * m + j] = p0[i][j] + x[0] * p1[i][j];
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
};

// r_i = c_i + sum_b A_b[i] . x_b + q_i x_{b1,0}^2
struct PolyCost : public CostFunction {
  using CostFunction::mutable_parameter_block_sizes;
  using CostFunction::set_num_residuals;
  std::vector<int> blocks;
  std::vector<Mx> A;
  std::vector<int> c, q;
  int fail = 0;      // 0 no, 1 returns false, 2 a Jacobian entry is not finite
  bool Evaluate(double const* const* x, double* r, double** J) const override {
    const int m = num_residuals();
    const auto& sz = parameter_block_sizes();
    if (fail == 1) return false;
    for (int i = 0; i < m; ++i) {
      r[i] = c[i] + q[i] * x[0][0] * x[0][0];
      for (size_t b = 0; b < sz.size(); ++b)
        for (int j = 0; j < sz[b]; ++j) r[i] += A[b][i][j] * x[b][j];
    }
    if (J)
      for (size_t b = 0; b < sz.size(); ++b)
        if (J[b])
          for (int i = 0; i < m; ++i)
            for (int j = 0; j < sz[b]; ++j) {
              double v = A[b][i][j];
              if (b == 0 && j == 0) v += 2 * q[i] * x[0][0];
              if (fail == 2 && i == m - 1) v = std::numeric_limits<double>::quiet_NaN();
              J[b][i * sz[b] + j] = v;
            }
    return true;
  }
};

static std::string M(const Mx& m) {
  Arr a;
  for (auto& r : m) a.add(Ints(r));
  return a.str();
}

struct Run {
  Rng r;
  char mode;
  Arr ev;
  struct Blk {
    int size, tangent, kind;   // kind 0 no manifold, 1 subset, 2 IntManifold
    std::vector<int> fixed;
    Mx p0, p1;
    int twin = -1;             // the block with the same manifold object
    double* x;
    bool constant = false;
  };
  std::vector<Blk> b;
  std::vector<double> store;
  std::vector<PolyCost*> costs;
  std::unique_ptr<Problem> problem;
  std::unique_ptr<Covariance> cov;
  bool wide = false;

  Run(char m, uint64_t s) : r(s * 4 + (m == 'G' ? 0 : m == 'N' ? 1 : 2)), mode(m) {}

  Mx mat(int n, int m, int lo, int hi, int density) {
    Mx a(n, std::vector<int>(m, 0));
    for (auto& row : a)
      for (auto& v : row)
        if (r.chance(density)) v = r.range(lo, hi);
    return a;
  }

  void make() {
    const int nb = mode == 'N' ? r.range(4, 9) : r.range(1, 6);
    int left = mode == 'N' ? 16 : 10;
    for (int i = 0; i < nb; ++i) {
      Blk k;
      k.size = r.range(1, 3);
      k.kind = r.chance(45) ? 0 : r.range(1, 2);
      k.tangent = k.size;
      if (k.kind == 1) {
        for (int j = 0; j < k.size; ++j)
          if (r.chance(35)) k.fixed.push_back(j);
        k.tangent = k.size - k.fixed.size();
      } else if (k.kind == 2) {
        k.tangent = r.range(r.chance(10) ? 0 : 1, k.size + (r.chance(15) ? 1 : 0));
        if (k.tangent < 0) k.tangent = 0;
        k.p0 = mat(k.size, k.tangent, -2, 2, 60);
        for (int j = 0; j < std::min(k.size, k.tangent); ++j)
          if (k.p0[j][j] == 0) k.p0[j][j] = 1;
        k.p1 = mat(k.size, k.tangent, -1, 1, 20);
        for (size_t j = 0; j < b.size(); ++j)
          if (b[j].kind == 2 && b[j].twin < 0 && r.chance(60)) {
            k = b[j];
            k.twin = j;
            break;
          }
      }
      if (k.tangent > left) break;
      left -= k.tangent;
      b.push_back(k);
    }
    // somewhere in one array, in any order
    std::vector<int> slot;
    for (size_t i = 0; i < b.size(); ++i) slot.insert(slot.begin() + r.below(i + 1), i);
    store.assign(4 * b.size() + 1, 0);
    for (size_t i = 0; i < b.size(); ++i) b[slot[i]].x = store.data() + 4 * i;
    Problem::Options po;
    problem = std::make_unique<Problem>(po);
    std::map<int, IntManifold*> shared;
    std::vector<int> order;
    for (size_t i = 0; i < b.size(); ++i) order.insert(order.begin() + r.below(i + 1), i);
    for (int i : order) {
      problem->AddParameterBlock(b[i].x, b[i].size);
      if (b[i].kind == 1) problem->SetManifold(b[i].x, new SubsetManifold(b[i].size, b[i].fixed));
      if (b[i].kind == 2) {
        auto*& m = shared[b[i].twin < 0 ? i : b[i].twin];
        if (m == nullptr) m = new IntManifold;
        m->n = b[i].size;
        m->m = b[i].tangent;
        m->p0 = b[i].p0;
        m->p1 = b[i].p1;
        problem->SetManifold(b[i].x, m);
      }
    }
    Arr bo;
    for (auto& k : b)
      bo.add(Obj().add("n", I(k.size)).add("k", I(k.kind)).add("m", I(k.tangent)).add("f", Ints(k.fixed)).add("p0", M(k.p0)).add("p1", M(k.p1)).str());
    // residuals: mostly enough of them
    int cols = 0;
    for (auto& k : b) cols += k.tangent;
    int rows = 0;
    const int want = r.chance(12) ? r.range(1, std::max(1, cols - 1)) : cols + r.range(0, 4);
    const int unused = r.chance(20) ? r.below(b.size()) : -1;
    const int density = r.pick<int>(std::vector<int>{40, 70, 100});
    Arr ro;
    size_t first = 0;
    for (int attempt = 0; attempt < 40 && rows < want && costs.size() < 14; ++attempt) {
      auto* c = new PolyCost;
      std::vector<int> ids;
      // every block first, then any
      int lead = first < b.size() ? int(first++) : r.below(b.size());
      for (int k = r.range(1, 3), t = 0; t < k; ++t) {
        int i = t == 0 ? lead : r.below(b.size());
        bool dup = i == unused && b.size() > 1;
        for (int o : ids) dup |= o == i;
        if (!dup) ids.push_back(i);
      }
      if (ids.empty()) {
        delete c;
        continue;
      }
      const int m = std::min(4, std::max(1, r.range(1, b[ids[0]].size + 1)));
      c->set_num_residuals(m);
      std::vector<double*> px;
      Arr ja;
      for (int i : ids) {
        c->mutable_parameter_block_sizes()->push_back(b[i].size);
        c->A.push_back(mat(m, b[i].size, -3, 3, density));
        ja.add(M(c->A.back()));
        px.push_back(b[i].x);
      }
      for (int i = 0; i < m; ++i) {
        c->c.push_back(r.range(-3, 3));
        c->q.push_back(r.chance(25) ? r.range(-2, 2) : 0);
      }
      c->blocks = ids;
      LossFunction* loss = nullptr;
      int s = 1;
      if (r.chance(30)) {
        s = r.range(1, 3);
        loss = new ScaledLoss(r.chance(50) ? nullptr : new TrivialLoss, s * s, TAKE_OWNERSHIP);
      }
      problem->AddResidualBlock(c, loss, px);
      costs.push_back(c);
      rows += m;
      ro.add(Obj().add("b", Ints(ids)).add("a", ja.str()).add("q", Ints(c->q)).add("s", I(s)).str());
    }
    Covariance::Options o;
    o.num_threads = mode == 'N' ? r.range(2, 6) : r.chance(60) ? 1 : r.range(2, 4);
    o.algorithm_type = r.chance(50) ? DENSE_SVD : SPARSE_QR;
    o.sparse_linear_algebra_library_type = r.chance(4) ? SUITE_SPARSE : EIGEN_SPARSE;
    o.apply_loss_function = r.chance(70);
    o.null_space_rank = r.chance(40) ? 0 : r.range(-1, 3);
    // not the square of a reachable ratio
    o.min_reciprocal_condition_number = r.chance(60) ? 1e-14 : r.pick<double>(std::vector<double>{1e-12, 1.2345e-3, 0.0456789, 0.3141592});
    cov = std::make_unique<Covariance>(o);
    ev.add(Obj().add("ev", S("new")).add("b", bo.str()).add("r", ro.str())
               .add("o", Obj().add("alg", S(o.algorithm_type == DENSE_SVD ? "svd" : o.sparse_linear_algebra_library_type == EIGEN_SPARSE ? "qr" : "none"))
                             .add("loss", B(o.apply_loss_function)).add("nsr", I(o.null_space_rank)).add("mrc", D(o.min_reciprocal_condition_number)).str()).str());
  }

  std::string State() {
    // the observable state of the problem
    Arr x, c;
    for (auto& k : b) {
      Arr v;
      for (int j = 0; j < k.size; ++j) v.add(k.x[j] == std::floor(k.x[j]) && std::abs(k.x[j]) < 1e6 ? I((long long)k.x[j]) : "2000000011");
      x.add(v.str());
      c.add(B(problem->IsParameterBlockConstant(k.x)));
    }
    bool same = problem->NumParameterBlocks() == (int)b.size() && problem->NumResidualBlocks() == (int)costs.size();
    return Obj().add("x", x.str()).add("c", c.str()).add("same", B(same)).str();
  }

  void settings() {
    for (auto& k : b) {
      if (r.chance(40))
        for (int j = 0; j < k.size; ++j) k.x[j] = r.range(-2, 2);
      if (r.chance(mode == 'E' ? 30 : 20)) {
        k.constant = r.chance(40);
        if (k.constant) problem->SetParameterBlockConstant(k.x);
        else problem->SetParameterBlockVariable(k.x);
      }
    }
    for (auto* c : costs) c->fail = 0;
    if (!costs.empty() && r.chance(mode == 'E' ? 35 : 10)) costs[r.below(costs.size())]->fail = r.range(1, 2);
    Arr x, f, c;
    for (auto& k : b) {
      std::vector<int> v(k.x, k.x + k.size);
      x.add(Ints(v));
      c.add(B(k.constant));
    }
    for (auto* k : costs) f.add(I(k->fail));
    ev.add(Obj().add("ev", S("set")).add("x", x.str()).add("c", c.str()).add("f", f.str()).str());
  }

  void compute() {
    const int n = b.size();
    Arr req;
    std::vector<std::pair<const double*, const double*>> pairs;
    std::vector<const double*> list;
    const bool dup = mode == 'E' && r.chance(12);
    std::string kind;
    if (r.chance(50)) {
      kind = "pairs";
      std::vector<std::pair<int, int>> p;
      const int dens = r.pick<int>(std::vector<int>{0, 15, 30, 60, 100});
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (r.chance(dens)) p.insert(p.begin() + r.below(p.size() + 1), {i, j});
      if (dens == 0) p.push_back({r.below(n), r.below(n)});
      if (dup && !p.empty()) {
        auto q = p[r.below(p.size())];
        p.insert(p.begin() + r.below(p.size() + 1), q);
      }
      for (auto& q : p) {
        pairs.emplace_back(b[q.first].x, b[q.second].x);
        req.add(Ints(std::vector<int>{q.first, q.second}));
      }
    } else {
      kind = "list";
      std::vector<int> p;
      const int dens = r.pick<int>(std::vector<int>{25, 60, 100});
      for (int i = 0; i < n; ++i)
        if (r.chance(dens)) p.insert(p.begin() + r.below(p.size() + 1), i);
      if (dup && !p.empty()) {
        int q = p[r.below(p.size())];
        p.insert(p.begin() + r.below(p.size() + 1), q);
      }
      for (int q : p) {
        list.push_back(b[q].x);
        req.add(I(q));
      }
    }
    Obj o;
    o.add("ev", S("compute")).add("kind", S(kind)).add("req", req.str());
    bool fatal = false, ok = false;
    try {
      ok = kind == "pairs" ? cov->Compute(pairs, problem.get()) : cov->Compute(list, problem.get());
    } catch (const absl_shim::Fatal&) {
      fatal = true;
    }
    ev.add(o.add("ok", B(ok)).add("fatal", B(fatal)).add("st", State()).str());
  }

  int Dim(int i, bool amb) { return amb ? b[i].size : b[i].tangent; }

  void get() {
    const int n = b.size();
    const int i = r.below(n), j = r.below(n);
    const bool amb = r.chance(50);
    const int sz = Dim(i, amb) * Dim(j, amb);
    std::vector<double> out(sz + 4, 12345.0);
    bool ok = false, fatal = false;
    try {
      ok = amb ? cov->GetCovarianceBlock(b[i].x, b[j].x, out.data() + 2) : cov->GetCovarianceBlockInTangentSpace(b[i].x, b[j].x, out.data() + 2);
    } catch (const absl_shim::Fatal&) {
      fatal = true;
    }
    bool g = out[0] == 12345.0 && out[1] == 12345.0 && out[sz + 2] == 12345.0 && out[sz + 3] == 12345.0;
    ev.add(Obj().add("ev", S("get")).add("a", I(i)).add("b", I(j)).add("amb", B(amb)).add("ok", B(ok)).add("fatal", B(fatal)).add("g", B(g))
               .add("v", ok ? DblsN(out.data() + 2, sz) : "[]").add("st", State()).str());
  }

  void matrix() {
    const int n = b.size();
    const bool amb = r.chance(50);
    std::vector<int> ids;
    const int dens = r.pick<int>(std::vector<int>{20, 40, 100});
    for (int i = 0; i < n; ++i)
      if (r.chance(dens)) ids.insert(ids.begin() + r.below(ids.size() + 1), i);
    if (!ids.empty() && r.chance(8)) ids.push_back(ids[r.below(ids.size())]);
    int sz = 0;
    std::vector<const double*> list;
    for (int i : ids) {
      sz += Dim(i, amb);
      list.push_back(b[i].x);
    }
    std::vector<double> out(sz * sz + 4, 12345.0);
    bool ok = false, fatal = false;
    try {
      ok = amb ? cov->GetCovarianceMatrix(list, out.data() + 2) : cov->GetCovarianceMatrixInTangentSpace(list, out.data() + 2);
    } catch (const absl_shim::Fatal&) {
      fatal = true;
    }
    sz *= sz;
    bool g = out[0] == 12345.0 && out[1] == 12345.0 && out[sz + 2] == 12345.0 && out[sz + 3] == 12345.0;
    ev.add(Obj().add("ev", S("mat")).add("l", Ints(ids)).add("amb", B(amb)).add("ok", B(ok)).add("fatal", B(fatal)).add("g", B(g))
               .add("v", ok ? DblsN(out.data() + 2, sz) : "[]").add("st", State()).str());
  }

  void run() {
    make();
    if (b.empty()) return;
    if (r.chance(10)) get();
    if (r.chance(5)) matrix();
    const int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
      if (k == 0 || r.chance(80)) settings();
      compute();
      const int q = r.range(2, mode == 'N' ? 4 : 8);
      for (int i = 0; i < q; ++i) r.chance(mode == 'N' ? 20 : 70) ? get() : matrix();
    }
  }
};

int main() {
  absl_shim::quiet = true;
  absl_shim::throw_on_fatal = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    char mode;
    uint64_t seed;
    in >> mode >> seed;
    Run r(mode, seed);
    r.run();
    std::cout << Obj().add("mode", S(std::string(1, mode))).add("ev", r.ev.str()).str() << "\n" << std::flush;
  }
}
