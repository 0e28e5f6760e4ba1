// Random small nonlinear least squares problems for the solver drivers.  A
// Model is a description from which any number of identical ceres::Problem
// objects can be built over separate copies of the parameters.
#pragma once
#include <array>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <vector>

#include "absl/log/shim.h"
#include "ceres/ceres.h"
#include "drv.h"

namespace drv {

constexpr double kInf = std::numeric_limits<double>::max();

struct BlockSpec {
  int size = 1;
  std::vector<double> init;
  std::vector<double> lo, hi;   // +-kInf: none
  std::vector<int> fixed;       // coordinates held constant (SubsetManifold)
  int man = 0;                  // 0 none or subset, 1 sphere
  bool constant = false;
};
struct ResSpec {
  std::vector<int> blocks;
  int m = 1;
  // r_k = c_k + sum a_ki x_i + sum q_ki x_i^2 + s_k sin(sum w_ki x_i)
  std::vector<double> c, s;
  std::vector<std::vector<double>> a, q, w;
  int loss = 0;
  double loss_a = 1;
  double domain = kInf;         // evaluation fails when sum x_i > domain
};

// What the cost functions tell the driver, and what the driver makes them do.
struct Hooks {
  // called at the start of each evaluation of residual i; returns a failure
  // mode: 0 none, 1 return false, 2 NaN residual, 3 infinite jacobian,
  // 4 residual not written, 5 infinite residual, 6 NaN jacobian, 7 finite
  // residual with infinite cost, 8 jacobian entry not written
  std::function<int(int i, const double* const* x, bool jac)> on_call;
};

struct Model {
  std::vector<BlockSpec> blocks;
  std::vector<ResSpec> res;
  int total() const { int n = 0; for (auto& b : blocks) n += b.size; return n; }
  std::vector<double> init() const {
    std::vector<double> v;
    for (auto& b : blocks) v.insert(v.end(), b.init.begin(), b.init.end());
    return v;
  }
  int offset(int b) const { int n = 0; for (int i = 0; i < b; ++i) n += blocks[i].size; return n; }
  bool used(int b) const {
    for (auto& r : res) for (int x : r.blocks) if (x == b) return true;
    return false;
  }
  bool active(int b) const {
    return !blocks[b].constant && used(b) && int(blocks[b].fixed.size()) < blocks[b].size;
  }
};

class ModelCost : public ceres::CostFunction {
 public:
  ModelCost(const Model* m, int i, Hooks* h) : model_(m), i_(i), hooks_(h) {
    const ResSpec& r = m->res[i];
    for (int b : r.blocks) mutable_parameter_block_sizes()->push_back(m->blocks[b].size);
    set_num_residuals(r.m);
  }
  bool Evaluate(double const* const* x, double* f, double** J) const override {
    const ResSpec& r = model_->res[i_];
    int mode = hooks_ && hooks_->on_call ? hooks_->on_call(i_, x, J != nullptr) : 0;
    std::vector<double> v;
    for (size_t b = 0; b < r.blocks.size(); ++b)
      for (int i = 0; i < model_->blocks[r.blocks[b]].size; ++i) v.push_back(x[b][i]);
    double sum = 0;
    for (double t : v) sum += t;
    if (!(sum <= r.domain)) return false;
    std::vector<double> old(r.blocks.size());
    if (J && mode == 8)
      for (size_t b = 0; b < r.blocks.size(); ++b)
        if (J[b]) old[b] = J[b][(i_ * 3 + 2 * mode) % (r.m * model_->blocks[r.blocks[b]].size)];
    for (int k = 0; k < r.m; ++k) {
      double y = r.c[k], ph = 0;
      for (size_t i = 0; i < v.size(); ++i) {
        y += r.a[k][i] * v[i] + r.q[k][i] * v[i] * v[i];
        ph += r.w[k][i] * v[i];
      }
      y += r.s[k] * std::sin(ph);
      if (mode == 4 && k == r.m - 1) continue;
      f[k] = y;
      if (J) {
        int o = 0;
        for (size_t b = 0; b < r.blocks.size(); ++b) {
          int sz = model_->blocks[r.blocks[b]].size;
          if (J[b])
            for (int i = 0; i < sz; ++i)
              J[b][k * sz + i] = r.a[k][o + i] + 2 * r.q[k][o + i] * v[o + i] +
                                 r.s[k] * std::cos(ph) * r.w[k][o + i];
          o += sz;
        }
      }
    }
    int row = (i_ * 5 + mode) % r.m;
    if (mode == 2) f[row] = std::numeric_limits<double>::quiet_NaN();
    if (mode == 5) f[row] = -std::numeric_limits<double>::infinity();
    if (mode == 7) {
      if (r.loss == 5) return false;  // this loss is bounded
      f[row] = 1.5e154;
    }
    if (J && (mode == 3 || mode == 6 || mode == 8))
      for (int b = int(r.blocks.size()) - 1; b >= 0; --b)
        if (J[b]) {
          int n = r.m * model_->blocks[r.blocks[b]].size;
          J[b][(i_ * 3 + 2 * mode) % n] = mode == 3 ? std::numeric_limits<double>::infinity()
                                        : mode == 6 ? std::numeric_limits<double>::quiet_NaN() : old[b];
          break;
        }
    return mode != 1;
  }
  const Model* model_;
  int i_;
  Hooks* hooks_;
};

inline ceres::LossFunction* MakeModelLoss(const ResSpec& r) {
  switch (r.loss) {
    case 1: return new ceres::HuberLoss(r.loss_a);
    case 2: return new ceres::CauchyLoss(r.loss_a);
    case 3: return new ceres::SoftLOneLoss(r.loss_a);
    case 4: return new ceres::ScaledLoss(nullptr, r.loss_a, ceres::TAKE_OWNERSHIP);
    case 5: return new ceres::ArctanLoss(r.loss_a);
    default: return nullptr;
  }
}

// A Problem over its own copy of the parameters.
struct Instance {
  const Model* model;
  std::vector<double> store;             // all blocks, in model order
  std::vector<double*> ptr;
  std::vector<ceres::ResidualBlockId> ids;
  std::unique_ptr<ceres::Problem> problem;

  Instance(const Model* m, Hooks* h, ceres::EvaluationCallback* cb = nullptr,
           const std::vector<int>* block_order = nullptr, ceres::Context* context = nullptr)
      : model(m), store(m->init()) {
    ceres::Problem::Options o;
    o.evaluation_callback = cb;
    o.context = context;
    problem = std::make_unique<ceres::Problem>(o);
    for (size_t b = 0; b < m->blocks.size(); ++b) ptr.push_back(store.data() + m->offset(int(b)));
    for (size_t k = 0; k < m->blocks.size(); ++k) {
      int b = block_order ? (*block_order)[k] : int(k);
      const BlockSpec& s = m->blocks[b];
      problem->AddParameterBlock(ptr[b], s.size);
      if (s.man == 1) problem->SetManifold(ptr[b], new ceres::SphereManifold<3>);
      else if (!s.fixed.empty())
        problem->SetManifold(ptr[b], new ceres::SubsetManifold(s.size, s.fixed));
      if (s.constant) problem->SetParameterBlockConstant(ptr[b]);
      for (int i = 0; i < s.size; ++i) {
        if (s.lo[i] > -kInf) problem->SetParameterLowerBound(ptr[b], i, s.lo[i]);
        if (s.hi[i] < kInf) problem->SetParameterUpperBound(ptr[b], i, s.hi[i]);
      }
    }
    for (size_t i = 0; i < m->res.size(); ++i) {
      std::vector<double*> p;
      for (int b : m->res[i].blocks) p.push_back(ptr[b]);
      ids.push_back(problem->AddResidualBlock(new ModelCost(m, int(i), h),
                                              MakeModelLoss(m->res[i]), p));
    }
  }
};

struct ModelOptions {
  int max_blocks = 3, max_size = 3, max_res = 5;
  bool bounds = false, manifolds = false, constants = true, losses = true, domain = false;
  bool well_posed = false;   // every active block gets a full rank prior
  double coef = 2.0, curve = 0.5;
  int min_blocks = 1;
};

inline Model RandomModel(Rng& g, const ModelOptions& o) {
  Model m;
  int nb = g.range(o.min_blocks, o.max_blocks);
  for (int b = 0; b < nb; ++b) {
    BlockSpec s;
    s.size = g.range(1, o.max_size);
    if (o.manifolds && g.chance(40)) { s.man = 1; s.size = 3; }
    double scale = g.chance(12) ? 100 : g.chance(20) ? 10 : 2;
    for (int i = 0; i < s.size; ++i) s.init.push_back(g.chance(8) ? 0 : g.real(-scale, scale));
    if (s.man == 1) {
      double n = 0;
      for (double v : s.init) n += v * v;
      n = std::sqrt(n);
      if (n < 1e-3) { s.init = {0, 0, 1}; n = 1; }
      for (double& v : s.init) v /= n;
    }
    s.lo.assign(s.size, -kInf);
    s.hi.assign(s.size, kInf);
    if (o.constants && g.chance(12)) s.constant = true;
    else if (o.constants && s.man == 0 && s.size > 1 && g.chance(20)) {
      for (int i = 0; i < s.size; ++i) if (g.chance(40)) s.fixed.push_back(i);
      if (int(s.fixed.size()) == s.size && g.chance(80)) s.fixed.pop_back();
    }
    if (o.bounds && s.man == 0) {
      for (int i = 0; i < s.size; ++i) {
        if (g.chance(45)) s.lo[i] = s.init[i] - (g.chance(15) ? -g.real(0, 1) : g.real(0, 2));
        if (g.chance(45)) s.hi[i] = std::max(s.lo[i], s.init[i]) + (g.chance(15) ? -0.3 : g.real(0.01, 2));
        if (s.lo[i] > -kInf && s.hi[i] < kInf && s.hi[i] <= s.lo[i]) s.hi[i] = s.lo[i] + 1;
        bool fx = s.constant || std::find(s.fixed.begin(), s.fixed.end(), i) != s.fixed.end();
        if (fx) { s.lo[i] = -kInf; s.hi[i] = kInf; }
      }
    }
    m.blocks.push_back(s);
  }
  int nr = g.range(1, o.max_res);
  auto add = [&](std::vector<int> bl, int rows, bool prior) {
    ResSpec r;
    r.blocks = bl;
    r.m = rows;
    int n = 0;
    for (int b : bl) n += m.blocks[b].size;
    bool linear = g.chance(25), zero = g.chance(15);
    for (int k = 0; k < r.m; ++k) {
      r.c.push_back(zero ? 0 : g.real(-2, 2));
      r.s.push_back(linear || prior || g.chance(50) ? 0 : g.real(-1.5, 1.5));
      std::vector<double> a, q, w;
      for (int i = 0; i < n; ++i) {
        a.push_back(prior ? (i == k ? 1.0 : 0.0) : g.chance(15) ? 0 : g.real(-o.coef, o.coef));
        q.push_back(linear || prior || g.chance(50) ? 0 : g.real(-o.curve, o.curve));
        w.push_back(g.real(-1.5, 1.5));
      }
      r.a.push_back(a); r.q.push_back(q); r.w.push_back(w);
    }
    if (o.losses && g.chance(30)) { r.loss = g.range(1, 5); r.loss_a = g.real(0.3, 3); }
    if (o.domain && g.chance(35)) {
      double s0 = 0;
      for (int b : bl) for (double v : m.blocks[b].init) s0 += v;
      r.domain = s0 + g.real(0.001, 3);
    }
    m.res.push_back(r);
  };
  for (int i = 0; i < nr; ++i) {
    std::vector<int> bl;
    for (int b = 0; b < nb; ++b) if (g.chance(nb == 1 ? 100 : 60)) bl.push_back(b);
    if (bl.empty()) bl.push_back(g.below(nb));
    if (bl.size() > 1 && g.chance(30)) std::swap(bl[0], bl[1]);
    add(bl, g.range(1, 3), false);
  }
  if (o.well_posed)
    for (int b = 0; b < nb; ++b) add({b}, m.blocks[b].size, true);
  return m;
}

}  // namespace drv
