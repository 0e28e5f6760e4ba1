// Executes scripts of ceres::Problem calls and records, after every call, all
// that the public queries report.  Script format (stdin), one scenario per line:
//   fast ownC ownL ownM callback | op n a1..an | op n a1..an ...
// Trace format (stdout): one JSON object per scenario (see spec/ProblemTrace.tla).
#include <array>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/ceres.h"
#include "drv.h"

using namespace drv;

namespace {

const std::vector<std::vector<int>> kSigs = {
    {1}, {2}, {1, 2}, {2, 1}, {3, 1}, {1, 2, 3}, {3}, {1, 1}, {2, 2}};
const std::vector<int>& CostSig(int c) { return kSigs[(c - 1) % 9]; }
int CostRes(int c) { return c % 3 + 1; }
int ManAmb(int m) { return (m - 1) % 3 + 1; }
int ManTan(int m) { return std::max(0, ManAmb(m) - (((m - 1) / 3) % 3)); }
const int kNone = 1000000;

std::map<int, int> g_dead_cost, g_dead_loss, g_dead_man;
std::map<int, int> g_fail;  // cost id -> failure mode
struct CallLog {
  int jac, fresh;
  std::atomic<int> n{0}, nj{0};
  CallLog(int j, int f) : jac(j), fresh(f) {}
};
std::vector<std::unique_ptr<CallLog>> g_calls;

int A(int c, int r, int b, int i) { return (c * 7 + r * 5 + b * 3 + i * 2) % 7 - 3; }
int C0(int c, int r) { return (c * 3 + r * 2) % 5 - 2; }
int Q(int c, int r) { return (c + r) % 3 - 1; }

class Cost : public ceres::CostFunction {
 public:
  explicit Cost(int id) : id_(id) {
    for (int s : CostSig(id)) mutable_parameter_block_sizes()->push_back(s);
    set_num_residuals(CostRes(id));
  }
  ~Cost() override { ++g_dead_cost[id_]; }
  bool Evaluate(double const* const* x, double* f, double** J) const override {
    if (!g_calls.empty()) {
      g_calls.back()->n++;
      if (J) g_calls.back()->nj++;
    }
    int mode = 0;
    auto it = g_fail.find(id_);
    if (it != g_fail.end()) mode = it->second;
    const auto& sz = CostSig(id_);
    for (int r = 0; r < num_residuals(); ++r) {
      double v = C0(id_, r) + Q(id_, r) * x[0][0] * x[0][0];
      for (size_t b = 0; b < sz.size(); ++b)
        for (int i = 0; i < sz[b]; ++i) v += A(id_, r, int(b), i) * x[b][i];
      if (mode == 4 && r == num_residuals() - 1) continue;
      f[r] = v;
      if (mode == 2 && r == 0) f[r] = std::numeric_limits<double>::quiet_NaN();
      if (mode == 5 && r == 0) f[r] = std::numeric_limits<double>::infinity();
    }
    if (J) {
      for (size_t b = 0; b < sz.size(); ++b) {
        if (!J[b]) continue;
        for (int r = 0; r < num_residuals(); ++r)
          for (int i = 0; i < sz[b]; ++i) {
            double v = A(id_, r, int(b), i);
            if (b == 0 && i == 0) v += 2 * Q(id_, r) * x[0][0];
            if (mode == 3 && i == 0 && r == 0) v = -std::numeric_limits<double>::infinity();
            J[b][r * sz[b] + i] = v;
          }
      }
    }
    return mode != 1;
  }
  int id_;
};

struct Counted : ceres::LossFunction {
  Counted(int id, ceres::LossFunction* l) : id_(id), inner(l) {}
  ~Counted() override { ++g_dead_loss[id_]; }
  void Evaluate(double s, double* o) const override { inner->Evaluate(s, o); }
  int id_;
  std::unique_ptr<ceres::LossFunction> inner;
};
struct Affine : ceres::LossFunction {
  double a, b, c2;
  Affine(double a_, double b_, double c_) : a(a_), b(b_), c2(c_) {}
  void Evaluate(double s, double* o) const override { o[0] = a * s + b; o[1] = a; o[2] = c2; }
};
struct Convex : ceres::LossFunction {
  void Evaluate(double s, double* o) const override {
    o[0] = 5 * s; o[1] = 4; o[2] = s > 0 ? 6 / s : 0;
  }
};
ceres::LossFunction* MakeLoss(int l) {
  using ceres::TAKE_OWNERSHIP;
  switch (l % 6) {
    case 1: return new Counted(l, new ceres::ScaledLoss(nullptr, 4.0, TAKE_OWNERSHIP));
    case 2: return new Counted(l, new Affine(4.0, 2.0, 0.0));
    case 3: return new Counted(l, new Affine(9.0, 0.0, -1.0));
    case 4: return new Counted(l, new Convex);
    case 5: return new Counted(l, new ceres::ComposedLoss(new Affine(4, 2, 0), TAKE_OWNERSHIP,
                                                          new Affine(4, 0, 0), TAKE_OWNERSHIP));
    default: return new Counted(l, new ceres::TrivialLoss);
  }
}

int MB(int m, int i, int j) { return m % 4 == 0 ? (i == j) : (m * 5 + i * 3 + j) % 5 - 2; }
class Man : public ceres::Manifold {
 public:
  explicit Man(int id) : id_(id) {}
  ~Man() override { ++g_dead_man[id_]; }
  int AmbientSize() const override { return ManAmb(id_); }
  int TangentSize() const override { return ManTan(id_); }
  bool Plus(const double* x, const double* d, double* o) const override {
    for (int i = 0; i < AmbientSize(); ++i) {
      o[i] = x[i];
      for (int j = 0; j < TangentSize(); ++j) o[i] += MB(id_, i, j) * d[j];
    }
    return true;
  }
  bool PlusJacobian(const double*, double* J) const override {
    for (int i = 0; i < AmbientSize(); ++i)
      for (int j = 0; j < TangentSize(); ++j) J[i * TangentSize() + j] = MB(id_, i, j);
    return true;
  }
  bool Minus(const double*, const double*, double*) const override { return false; }
  bool MinusJacobian(const double*, double*) const override { return false; }
  int id_;
};
struct SubMan : ceres::Manifold {
  explicit SubMan(int id) : id_(id), m(ManAmb(id), Const(id)) {}
  ~SubMan() override { ++g_dead_man[id_]; }
  static std::vector<int> Const(int id) {
    std::vector<int> v;
    for (int i = ManTan(id); i < ManAmb(id); ++i) v.push_back(i);
    return v;
  }
  int AmbientSize() const override { return m.AmbientSize(); }
  int TangentSize() const override { return m.TangentSize(); }
  bool Plus(const double* x, const double* d, double* o) const override { return m.Plus(x, d, o); }
  bool PlusJacobian(const double* x, double* J) const override { return m.PlusJacobian(x, J); }
  bool Minus(const double* y, const double* x, double* o) const override { return m.Minus(y, x, o); }
  bool MinusJacobian(const double* x, double* J) const override { return m.MinusJacobian(x, J); }
  int id_;
  ceres::SubsetManifold m;
};

struct Callback : ceres::EvaluationCallback {
  void PrepareForEvaluation(bool j, bool n) override {
    g_calls.push_back(std::make_unique<CallLog>(j, n));
  }
};

struct Op { std::string name; std::vector<int> a; };

struct World {
  static constexpr int kSlots = 12;
  double arena[kSlots + 1][8];
  int fast, ownC, ownL, ownM, cb;
  Callback callback;
  std::unique_ptr<ceres::Problem> problem;
  std::map<int, ceres::CostFunction*> costs;
  std::map<int, ceres::LossFunction*> losses;
  std::map<int, ceres::Manifold*> mans;
  std::map<int, ceres::ResidualBlockId> res;   // all ever added
  std::map<ceres::ResidualBlockId, int> rid;   // latest id of a handle
  int next_id = 1;

  double* slot(int p) { return arena[p]; }
  int slot_of(const double* p) {
    for (int k = 1; k <= kSlots; ++k) if (arena[k] == p) return k;
    return -1;
  }
  ceres::Problem::Options options() {
    ceres::Problem::Options o;
    auto own = [](int v) { return v ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP; };
    o.cost_function_ownership = own(ownC);
    o.loss_function_ownership = own(ownL);
    o.manifold_ownership = own(ownM);
    o.enable_fast_removal = fast;
    if (cb) o.evaluation_callback = &callback;
    return o;
  }
  ceres::CostFunction* cost(int c) {
    auto& p = costs[c];
    if (!p) p = new Cost(c);
    return p;
  }
  ceres::LossFunction* loss(int l) {
    if (l == 0) return nullptr;
    auto& p = losses[l];
    if (!p) p = MakeLoss(l);
    return p;
  }
  ceres::Manifold* man(int m) {
    if (m == 0) return nullptr;
    auto& p = mans[m];
    if (!p) p = m % 4 == 0 ? (ceres::Manifold*)new SubMan(m) : (ceres::Manifold*)new Man(m);
    return p;
  }
  static long long bound(double v) {
    if (v == std::numeric_limits<double>::max()) return kNone;
    if (v == -std::numeric_limits<double>::max()) return -kNone;
    if (v != (long long)v || std::abs(v) > 1e6) return 999999;
    return (long long)v;
  }
  int cost_id(const ceres::CostFunction* f) {
    for (auto& kv : costs) if (kv.second == f && !g_dead_cost[kv.first]) return kv.first;
    return -1;
  }
  int loss_id(const ceres::LossFunction* f) {
    if (!f) return 0;
    for (auto& kv : losses) if (kv.second == f && !g_dead_loss[kv.first]) return kv.first;
    return -1;
  }
  int man_id(const ceres::Manifold* f) {
    if (!f) return 0;
    for (auto& kv : mans) if (kv.second == f && !g_dead_man[kv.first]) return kv.first;
    return -1;
  }
  std::string dead() {
    auto f = [](std::map<int, int>& m) {
      Arr a;
      for (auto& kv : m) if (kv.second) a.add(Arr().add(I(kv.first)).add(I(kv.second)).str());
      return a.str();
    };
    return Obj().add("c", f(g_dead_cost)).add("l", f(g_dead_loss)).add("m", f(g_dead_man)).str();
  }
  std::string calls() {
    Arr a;
    for (auto& c : g_calls)
      a.add(Arr().add(I(c->jac)).add(I(c->fresh)).add(I(c->n)).add(I(c->nj)).str());
    return a.str();
  }
  std::string observe() {
    ceres::Problem& P = *problem;
    Obj o;
    o.add("np", I(P.NumParameterBlocks())).add("n", I(P.NumParameters()));
    o.add("nr", I(P.NumResidualBlocks())).add("m", I(P.NumResiduals()));
    std::vector<double*> ps;
    P.GetParameterBlocks(&ps);
    std::vector<int> pl;
    for (auto* p : ps) pl.push_back(slot_of(p));
    o.add("ps", Ints(pl));
    Arr blks;
    for (int s = 1; s <= kSlots; ++s) {
      double* p = slot(s);
      if (!P.HasParameterBlock(p)) continue;
      Obj b;
      int n = P.ParameterBlockSize(p);
      b.add("p", I(s)).add("sz", I(n)).add("tan", I(P.ParameterBlockTangentSize(p)));
      b.add("con", B(P.IsParameterBlockConstant(p)));
      b.add("man", I(man_id(P.GetManifold(p)))).add("has", B(P.HasManifold(p)));
      std::vector<long long> lo, hi;
      for (int i = 0; i < n; ++i) {
        lo.push_back(bound(P.GetParameterLowerBound(p, i)));
        hi.push_back(bound(P.GetParameterUpperBound(p, i)));
      }
      b.add("lo", Ints(lo)).add("hi", Ints(hi));
      std::vector<ceres::ResidualBlockId> rs;
      P.GetResidualBlocksForParameterBlock(p, &rs);
      std::vector<int> ids;
      for (auto r : rs) ids.push_back(rid.count(r) ? rid[r] : -1);
      b.add("rs", Ints(ids));
      blks.add(b.str());
    }
    o.add("blk", blks.str());
    std::vector<ceres::ResidualBlockId> rs;
    P.GetResidualBlocks(&rs);
    Arr ra;
    for (auto r : rs) {
      Obj q;
      q.add("id", I(rid.count(r) ? rid[r] : -1));
      if (rid.count(r)) {
        q.add("cost", I(cost_id(P.GetCostFunctionForResidualBlock(r))));
        q.add("loss", I(loss_id(P.GetLossFunctionForResidualBlock(r))));
        std::vector<double*> bs;
        P.GetParameterBlocksForResidualBlock(r, &bs);
        std::vector<int> bl;
        for (auto* p : bs) bl.push_back(slot_of(p));
        q.add("blocks", Ints(bl));
      }
      ra.add(q.str());
    }
    o.add("res", ra.str());
    std::vector<std::vector<int>> v;
    Arr vals;
    for (int s = 1; s <= kSlots; ++s) {
      Arr x;
      for (int i = 0; i < 3; ++i) x.add(I((long long)arena[s][i]));
      vals.add(x.str());
    }
    o.add("val", vals.str());
    o.add("dead", dead());
    o.add("calls", calls());
    return o.str();
  }

  // returns the "y" (result) field
  std::string apply(const Op& op) {
    const auto& a = op.a;
    ceres::Problem& P = *problem;
    if (op.name == "addp") P.AddParameterBlock(slot(a[0]), a[1]);
    else if (op.name == "addpm") P.AddParameterBlock(slot(a[0]), a[1], man(a[2]));
    else if (op.name == "alias") P.AddParameterBlock(slot(a[0]) + a[1], a[2]);
    else if (op.name == "addr") {
      std::vector<double*> b;
      for (size_t i = 2; i < a.size(); ++i) b.push_back(slot(a[i]));
      auto id = P.AddResidualBlock(cost(a[0]), loss(a[1]), b);
      rid[id] = next_id;
      res[next_id++] = id;
    } else if (op.name == "remp") P.RemoveParameterBlock(slot(a[0]));
    else if (op.name == "remr") {
      // a handle that has been removed may since denote another block: then
      // stand in for it with a pointer that is certainly no residual block
      bool good = res.count(a[0]) && rid[res[a[0]]] == a[0];
      P.RemoveResidualBlock(good ? res[a[0]] : (ceres::ResidualBlockId)(&arena[0][0]));
    }
    else if (op.name == "con") P.SetParameterBlockConstant(slot(a[0]));
    else if (op.name == "var") P.SetParameterBlockVariable(slot(a[0]));
    else if (op.name == "man") P.SetManifold(slot(a[0]), man(a[1]));
    else if (op.name == "lo") P.SetParameterLowerBound(slot(a[0]), a[1], a[2] == -kNone ? -std::numeric_limits<double>::max() : a[2]);
    else if (op.name == "hi") P.SetParameterUpperBound(slot(a[0]), a[1], a[2] == kNone ? std::numeric_limits<double>::max() : a[2]);
    else if (op.name == "val") { for (int i = 0; i < 3; ++i) arena[a[0]][i] = a[1 + i]; }
    else if (op.name == "fail") g_fail[a[0]] = a[1];
    else if (op.name == "qcon") return B(P.IsParameterBlockConstant(slot(a[0])));
    else if (op.name == "qsz") return I(P.ParameterBlockSize(slot(a[0])));
    else if (op.name == "qtan") return I(P.ParameterBlockTangentSize(slot(a[0])));
    else if (op.name == "qman") return I(man_id(P.GetManifold(slot(a[0]))));
    else if (op.name == "qlo") return I(bound(P.GetParameterLowerBound(slot(a[0]), a[1])));
    else if (op.name == "qhi") return I(bound(P.GetParameterUpperBound(slot(a[0]), a[1])));
    else if (op.name == "qres") {
      std::vector<ceres::ResidualBlockId> rs;
      P.GetResidualBlocksForParameterBlock(slot(a[0]), &rs);
      std::vector<int> ids;
      for (auto r : rs) ids.push_back(rid.count(r) ? rid[r] : -1);
      return Ints(ids);
    }
    else if (op.name == "move") {
      auto q = std::make_unique<ceres::Problem>(std::move(*problem));
      problem.swap(q);
    } else if (op.name == "massign") {
      auto q = std::make_unique<ceres::Problem>(options());
      *q = std::move(*problem);
      problem.swap(q);
    } else if (op.name == "destroy") {
      problem.reset();
    } else if (op.name == "eval") {
      // a: loss threads mask nres ids.. nslots slots..
      ceres::Problem::EvaluateOptions eo;
      eo.apply_loss_function = a[0];
      eo.num_threads = a[1];
      int mask = a[2], k = 3, n = a[k++];
      for (int i = 0; i < n; ++i) eo.residual_blocks.push_back(res[a[k++]]);
      n = a[k++];
      for (int i = 0; i < n; ++i) eo.parameter_blocks.push_back(slot(a[k++]));
      double c = -7;
      std::vector<double> r(3, -7), g(2, -7);
      ceres::CRSMatrix J;
      bool ok = P.Evaluate(eo, mask & 1 ? &c : nullptr, mask & 2 ? &r : nullptr,
                           mask & 4 ? &g : nullptr, mask & 8 ? &J : nullptr);
      Obj y;
      y.add("ok", B(ok));
      if (ok) {
        y.add("c", D(c)).add("r", Dbls(r)).add("g", Dbls(g));
        Arr rows;
        if (mask & 8) {
          // dense form; an entry stored twice or out of order is visible as "dup"
          bool dup = int(J.rows.size()) != J.num_rows + 1;
          for (int i = 0; i < J.num_rows && !dup; ++i) {
            std::vector<double> row(J.num_cols, 0.0);
            std::vector<int> seen(J.num_cols, 0);
            for (int q = J.rows[i]; q < J.rows[i + 1]; ++q) {
              if (J.cols[q] < 0 || J.cols[q] >= J.num_cols || seen[J.cols[q]]++) { dup = true; break; }
              row[J.cols[q]] = J.values[q];
            }
            rows.add(Dbls(row));
          }
          y.add("dup", B(dup)).add("nc", I(J.num_cols)).add("nrow", I(J.num_rows));
        }
        y.add("J", rows.str());
      }
      return y.str();
    } else if (op.name == "evalr") {
      // a: id loss mask jmask unchanged
      auto id = res[a[0]];
      std::vector<double*> bs;
      P.GetParameterBlocksForResidualBlock(id, &bs);
      int nres = P.GetCostFunctionForResidualBlock(id)->num_residuals();
      const double guard = -1234567;
      double c = guard;
      std::vector<double> r(nres + 1, guard);
      std::vector<std::vector<double>> J(bs.size());
      std::vector<double*> jp(bs.size());
      for (size_t i = 0; i < bs.size(); ++i) {
        J[i].assign(nres * P.ParameterBlockTangentSize(bs[i]) + 1, guard);
        jp[i] = (a[3] >> i) & 1 ? J[i].data() : nullptr;
      }
      bool ok = a[4] ? P.EvaluateResidualBlockAssumingParametersUnchanged(
                           id, a[1], a[2] & 1 ? &c : nullptr, a[2] & 2 ? r.data() : nullptr,
                           a[2] & 8 ? jp.data() : nullptr)
                     : P.EvaluateResidualBlock(id, a[1], a[2] & 1 ? &c : nullptr,
                                               a[2] & 2 ? r.data() : nullptr,
                                               a[2] & 8 ? jp.data() : nullptr);
      Obj y;
      y.add("ok", B(ok));
      bool g = r.back() == guard;
      for (auto& j : J) g = g && j.back() == guard;
      y.add("guard", B(g));
      if (ok) {
        r.pop_back();
        y.add("c", D(c)).add("r", Dbls(r));
        Arr js;
        for (auto& j : J) { j.pop_back(); js.add(Dbls(j)); }
        y.add("J", js.str());
      }
      return y.str();
    } else if (op.name == "solve") {
      // no iterations: only the setting up, projection and restoring
      ceres::Solver::Options so;
      const ceres::LinearSolverType ls[] = {ceres::DENSE_QR, ceres::DENSE_NORMAL_CHOLESKY,
                                            ceres::SPARSE_NORMAL_CHOLESKY, ceres::CGNR};
      so.linear_solver_type = ls[a[0] & 3];
      so.num_threads = a[1];
      so.max_num_iterations = 0;
      so.logging_type = ceres::SILENT;
      so.preconditioner_type = ceres::JACOBI;
      ceres::Solver::Summary sum;
      ceres::Solve(so, &P, &sum);
      return Obj().add("usable", B(sum.IsSolutionUsable())).str();
    } else {
      std::cerr << "unknown op " << op.name << "\n";
      std::exit(3);
    }
    return "0";
  }
};

}  // namespace

int main() {
  absl_shim::quiet = true;
  absl_shim::throw_on_fatal = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream in(line);
    auto W = std::make_unique<World>();
    g_dead_cost.clear(); g_dead_loss.clear(); g_dead_man.clear(); g_fail.clear(); g_calls.clear();
    in >> W->fast >> W->ownC >> W->ownL >> W->ownM >> W->cb;
    for (int s = 0; s <= World::kSlots; ++s)
      for (int i = 0; i < 8; ++i) W->arena[s][i] = (s * 3 + i * 2) % 5 - 2;
    W->problem = std::make_unique<ceres::Problem>(W->options());
    Arr ev;
    std::string bar;
    bool fatal = false;
    while (in >> bar) {
      Op op;
      int n;
      in >> op.name >> n;
      op.a.resize(n);
      for (int i = 0; i < n; ++i) in >> op.a[i];
      Obj e;
      e.add("op", S(op.name)).add("a", Ints(op.a));
      g_calls.clear();
      try {
        std::string y = W->apply(op);
        e.add("r", S("ok")).add("y", y);
        if (W->problem) e.add("o", W->observe());
        else e.add("o", Obj().add("dead", W->dead()).str());
      } catch (const absl_shim::Fatal& f) {
        e.add("r", S("fatal"));
        fatal = true;
      }
      ev.add(e.str());
      if (fatal || !W->problem) break;
    }
    Obj o;
    o.add("fast", I(W->fast)).add("ownC", I(W->ownC)).add("ownL", I(W->ownL)).add("ownM", I(W->ownM)).add("cb", I(W->cb));
    o.add("ev", ev.str());
    std::cout << o.str() << "\n";
    if (fatal) (void)W->problem.release();  // state is undefined after an abort
  }
  return 0;
}
