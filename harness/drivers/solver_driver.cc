// Runs ceres::Solve on random small problems and records what an observer
// outside the solver can see: PrepareForEvaluation calls and cost function
// calls, iteration callbacks, the summary, and the user's memory throughout.
// Input, one scenario per line:  PROFILE SEED [nonmono]
// Output: one trace per line; see spec/TrustRegionTrace.tla, LineSearchTrace.tla.
#include <algorithm>
#include <iostream>
#include <sstream>

#include "model.h"

using namespace drv;

namespace {

struct Point { std::vector<double> mem; };

class Recorder {
 public:
  Recorder(const Model& m) : model(m), oracle(&m, nullptr) {
    for (size_t b = 0; b < m.blocks.size(); ++b) if (m.active(int(b))) act.push_back(int(b));
    for (size_t b = 0; b < m.blocks.size(); ++b) {
      const BlockSpec& s = m.blocks[b];
      for (int i = 0; i < s.size; ++i) {
        bool a = m.active(int(b));
        if (!a) { rest_idx.push_back(m.offset(int(b)) + i); continue; }
        act_idx.push_back(m.offset(int(b)) + i);
        bool fx = std::find(s.fixed.begin(), s.fixed.end(), i) != s.fixed.end();
        fi.push_back(fx ? 0 : (s.man == 0 ? ++n : -1));
        if (!fx) ti.push_back(int(fi.size()));
        lo.push_back(s.lo[i]);
        hi.push_back(s.hi[i]);
      }
      if (m.active(int(b)) && s.man == 1) n += 2;
    }
  }
  int PointId(const std::vector<double>& mem) {
    std::string key(reinterpret_cast<const char*>(mem.data()), mem.size() * 8);
    auto it = ids.find(key);
    if (it != ids.end()) return it->second;
    pts.push_back({mem});
    return ids[key] = int(pts.size());
  }
  bool HasManifold() const {
    for (int b : act) if (model.blocks[b].man) return true;
    return false;
  }
  // minus(y, x) in the tangent space of the active blocks at x
  std::vector<double> Minus(const std::vector<double>& y, const std::vector<double>& x) {
    std::vector<double> d;
    for (int b : act) {
      const BlockSpec& s = model.blocks[b];
      int o = model.offset(b);
      if (s.man == 1) {
        ceres::SphereManifold<3> sp;
        double t[2];
        sp.Minus(y.data() + o, x.data() + o, t);
        d.insert(d.end(), t, t + 2);
      } else {
        for (int i = 0; i < s.size; ++i)
          if (std::find(s.fixed.begin(), s.fixed.end(), i) == s.fixed.end())
            d.push_back(y[o + i] - x[o + i]);
      }
    }
    return d;
  }
  // x - Plus(x, -g), ambient, with projection on the bounds
  std::vector<double> ProjectedGradient(const std::vector<double>& x, const std::vector<double>& g) {
    std::vector<double> d;
    size_t k = 0;
    for (int b : act) {
      const BlockSpec& s = model.blocks[b];
      int o = model.offset(b);
      std::vector<double> y(s.size);
      if (s.man == 1) {
        ceres::SphereManifold<3> sp;
        double t[2] = {-g[k], -g[k + 1]};
        k += 2;
        sp.Plus(x.data() + o, t, y.data());
      } else {
        for (int i = 0; i < s.size; ++i) {
          bool fx = std::find(s.fixed.begin(), s.fixed.end(), i) != s.fixed.end();
          y[i] = fx ? x[o + i] : x[o + i] - g[k++];
        }
      }
      for (int i = 0; i < s.size; ++i) {
        y[i] = std::min(std::max(y[i], s.lo[i]), s.hi[i]);
        d.push_back(x[o + i] - y[i]);
      }
    }
    return d;
  }
  std::string PointJson(const std::vector<double>& mem, bool lite) {
    std::copy(mem.begin(), mem.end(), oracle.store.begin());
    ceres::Problem::EvaluateOptions o;
    std::vector<double*> pb;
    for (int b : act) pb.push_back(oracle.ptr[b]);
    o.parameter_blocks = pb;
    double cost = -1;
    std::vector<double> r, g;
    ceres::CRSMatrix J;
    bool ok;
    if (act.empty()) {
      ok = oracle.problem->Evaluate(ceres::Problem::EvaluateOptions(), &cost, &r, nullptr, nullptr);
    } else {
      ok = oracle.problem->Evaluate(o, &cost, &r, &g, &J);
    }
    // a problem never lets a non finite cost pass as a success
    Obj out;
    std::vector<double> x, rest;
    for (int i : act_idx) x.push_back(mem[i]);
    for (int i : rest_idx) rest.push_back(mem[i]);
    out.add("x", Dbls(x)).add("rest", Dbls(rest)).add("ok", B(ok));
    double big = kInf;
    out.add("c", D(ok ? cost : big));
    if (ok && !act.empty()) {
      std::vector<double> pg = ProjectedGradient(mem, g);
      double mx = 0, sq = 0;
      for (double v : pg) { mx = std::max(mx, std::fabs(v)); sq += v * v; }
      double gsz = 0;
      for (double v : g) gsz = std::max(gsz, std::fabs(v));
      out.add("gm", D(mx)).add("gn", D(std::sqrt(sq))).add("gs", D(gsz));
      if (!lite) {
        out.add("r", Dbls(r)).add("g", Dbls(g));
        Arr rows;
        for (int i = 0; i < J.num_rows; ++i) {
          std::vector<double> row(J.num_cols, 0.0);
          for (int k = J.rows[i]; k < J.rows[i + 1]; ++k) row[J.cols[k]] = J.values[k];
          rows.add(Dbls(row));
        }
        out.add("J", rows.str());
      }
    }
    return out.str();
  }

  const Model& model;
  Instance oracle;
  std::vector<int> act, act_idx, rest_idx, fi, ti;
  std::vector<double> lo, hi;
  int n = 0;
  std::vector<Point> pts;
  std::map<std::string, int> ids;
};

struct PrepRec {
  int point;
  bool jac, fresh;
  int calls = 0, jcalls = 0;
  bool stable = true;
  int mode = 0;      // injected failure
  bool hit = false;  // the faulty cost function was reached
  std::vector<double> d;
};

class Scenario;
class EvalCb : public ceres::EvaluationCallback {
 public:
  explicit EvalCb(Scenario* s) : s_(s) {}
  void PrepareForEvaluation(bool jac, bool fresh) override;
  Scenario* s_;
};
class IterCb : public ceres::IterationCallback {
 public:
  IterCb(Scenario* s, int i) : s_(s), i_(i) {}
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override;
  Scenario* s_;
  int i_;
};

std::string SummaryJson(const ceres::IterationSummary& s) {
  Obj o;
  o.add("k", I(s.iteration)).add("valid", B(s.step_is_valid)).add("nonm", B(s.step_is_nonmonotonic))
      .add("succ", B(s.step_is_successful)).add("cost", D(s.cost)).add("cc", D(s.cost_change))
      .add("gm", D(s.gradient_max_norm)).add("gn", D(s.gradient_norm)).add("sn", D(s.step_norm))
      .add("rd", D(s.relative_decrease)).add("rad", D(s.trust_region_radius))
      .add("ss", D(s.step_size)).add("lsf", I(s.line_search_function_evaluations))
      .add("lsg", I(s.line_search_gradient_evaluations)).add("lsi", I(s.line_search_iterations));
  return o.str();
}
bool Same(const ceres::IterationSummary& a, const ceres::IterationSummary& b) {
  return SummaryJson(a) == SummaryJson(b) && a.iteration_time_in_seconds == b.iteration_time_in_seconds &&
         a.cumulative_time_in_seconds == b.cumulative_time_in_seconds && a.eta == b.eta &&
         a.linear_solver_iterations == b.linear_solver_iterations;
}

class Scenario {
 public:
  Scenario(const std::string& profile, uint64_t seed, const std::string& extra)
      : profile_(profile), extra_(extra), g(seed) { Setup(); }

  void Setup() {
    use_cb = profile_ != "plain" && profile_ != "inner" && profile_ != "threads";
    bool bounds = profile_ == "bounds" || ((profile_ == "fault" || profile_ == "plain" || profile_ == "ls") && g.chance(25));
    if (profile_ == "ls") bounds = false;
    ModelOptions mo;
    mo.bounds = bounds;
    mo.manifolds = !bounds && g.chance(profile_ == "manifold" ? 100 : profile_ == "tr" ? 0 : 12);
    mo.well_posed = bounds || g.chance(70);
    mo.domain = g.chance(profile_ == "fault" ? 50 : 12);
    mo.max_blocks = profile_ == "inner" ? 4 : 3;
    mo.min_blocks = profile_ == "inner" ? 2 : 1;
    mo.coef = g.chance(30) ? 5.0 : 2.0;
    mo.curve = g.chance(30) ? 1.5 : 0.5;
    model = RandomModel(g, mo);
    if (profile_ == "fault" && g.chance(4)) {
      // an infeasible start for a constant block, or a non-finite parameter
      if (model.blocks[0].man == 0) model.blocks[0].init[0] = g.chance(50) ? std::numeric_limits<double>::quiet_NaN() : 1e301;
    }
    ceres::Solver::Options& o = opt;
    o.logging_type = ceres::SILENT;
    o.max_num_iterations = g.chance(10) ? g.range(0, 3) : g.range(5, 30);
    o.function_tolerance = g.chance(30) ? 1e-3 : g.chance(40) ? 1e-6 : g.chance(50) ? 1e-12 : 0;
    o.gradient_tolerance = g.chance(30) ? 1e-3 : g.chance(50) ? 1e-10 : 0;
    o.parameter_tolerance = g.chance(20) ? 1e-2 : g.chance(50) ? 1e-8 : 0;
    o.num_threads = profile_ == "plain" || profile_ == "inner" ? 1 : g.chance(70) ? 1 : g.range(2, 4);
    o.max_solver_time_in_seconds = g.chance(3) ? 0 : 1e6;
    o.update_state_every_iteration = g.chance(35);
    if (profile_ == "ls") {
      SetupLineSearch();
    } else {
      SetupTrustRegion();
    }
    ncb = g.chance(75) ? 1 : g.range(2, 3);
    if (g.chance(18)) {
      stop_it = g.range(0, 5);
      stop_cb = g.range(1, ncb);
      stop_how = g.chance(50) ? 1 : 2;
    }
    int pf = profile_ == "fault" ? 100 : profile_ == "plain" ? 40 : profile_ == "ls" ? 30 : profile_ == "inner" ? 25 : 0;
    if (g.chance(pf)) {
      int n = g.chance(70) ? 1 : g.range(2, 3);
      for (int i = 0; i < n; ++i) {
        int at = g.chance(20) ? 1 : g.range(1, g.chance(50) ? 6 : 20);
        int len = g.chance(70) ? 1 : g.range(2, 8);
        for (int k = 0; k < len; ++k) faults[at + k] = g.range(1, 8);
      }
      fault_res = g.below(int(model.res.size()));
    }
  }
  void SetupTrustRegion() {
    ceres::Solver::Options& o = opt;
    o.minimizer_type = ceres::TRUST_REGION;
    bool dog = g.chance(35);
    o.trust_region_strategy_type = dog ? ceres::DOGLEG : ceres::LEVENBERG_MARQUARDT;
    o.dogleg_type = g.chance(50) ? ceres::TRADITIONAL_DOGLEG : ceres::SUBSPACE_DOGLEG;
    o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
    switch (g.below(dog ? 5 : 7)) {
      case 0: o.linear_solver_type = ceres::DENSE_QR; break;
      case 1: o.linear_solver_type = ceres::DENSE_NORMAL_CHOLESKY; break;
      case 2: o.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY; o.dynamic_sparsity = g.chance(30); break;
      case 3: o.linear_solver_type = ceres::DENSE_SCHUR; break;
      case 4: o.linear_solver_type = ceres::SPARSE_SCHUR; break;
      case 5:
        o.linear_solver_type = ceres::ITERATIVE_SCHUR;
        o.preconditioner_type = g.chance(50) ? ceres::JACOBI : ceres::SCHUR_JACOBI;
        o.use_explicit_schur_complement = o.preconditioner_type == ceres::SCHUR_JACOBI && g.chance(40);
        break;
      case 6:
        o.linear_solver_type = ceres::CGNR;
        o.preconditioner_type = g.chance(50) ? ceres::JACOBI : ceres::IDENTITY;
        break;
    }
    exact = g.chance(1) ? false : o.linear_solver_type != ceres::ITERATIVE_SCHUR && o.linear_solver_type != ceres::CGNR;
    if (!exact) o.eta = g.chance(50) ? 1e-14 : 1e-1;
    if (dog || g.chance(30)) o.initial_trust_region_radius = std::pow(10.0, g.real(-2.5, 3));
    else if (g.chance(20)) o.initial_trust_region_radius = std::pow(10.0, g.real(3, 8));
    if (g.chance(25)) o.max_trust_region_radius = o.initial_trust_region_radius * g.real(1, 20);
    if (g.chance(30)) o.min_trust_region_radius = o.initial_trust_region_radius * std::pow(10.0, -g.real(0, 4));
    o.min_trust_region_radius = std::min(o.min_trust_region_radius, o.initial_trust_region_radius);
    o.min_relative_decrease = g.chance(50) ? 1e-3 : g.chance(50) ? g.real(0, 0.9) : 0;
    if (g.chance(25)) { o.min_lm_diagonal = std::pow(10.0, g.real(-3, 1)); o.max_lm_diagonal = o.min_lm_diagonal * std::pow(10.0, g.real(0, 3)); }
    o.max_num_consecutive_invalid_steps = g.chance(60) ? 5 : g.range(0, 3);
    o.jacobi_scaling = g.chance(70);
    o.use_nonmonotonic_steps = g.chance(extra_ == "nonmono" ? 100 : 45);
    o.max_consecutive_nonmonotonic_steps = g.range(1, 5);
    o.max_num_line_search_step_size_iterations = g.chance(25) ? 0 : 20;
    if (profile_ == "inner") o.use_inner_iterations = true;
    if (profile_ == "inner") o.inner_iteration_tolerance = g.chance(50) ? 1e-3 : g.chance(50) ? 0 : 0.5;
  }
  void SetupLineSearch() {
    ceres::Solver::Options& o = opt;
    o.minimizer_type = ceres::LINE_SEARCH;
    switch (g.below(4)) {
      case 0: o.line_search_direction_type = ceres::STEEPEST_DESCENT; break;
      case 1: o.line_search_direction_type = ceres::NONLINEAR_CONJUGATE_GRADIENT; break;
      case 2: o.line_search_direction_type = ceres::LBFGS; break;
      case 3: o.line_search_direction_type = ceres::BFGS; break;
    }
    o.nonlinear_conjugate_gradient_type =
        g.chance(33) ? ceres::FLETCHER_REEVES : g.chance(50) ? ceres::POLAK_RIBIERE : ceres::HESTENES_STIEFEL;
    bool q = o.line_search_direction_type == ceres::LBFGS || o.line_search_direction_type == ceres::BFGS;
    o.line_search_type = q || g.chance(50) ? ceres::WOLFE : ceres::ARMIJO;
    o.line_search_interpolation_type = g.chance(30) ? ceres::BISECTION : g.chance(50) ? ceres::QUADRATIC : ceres::CUBIC;
    o.max_lbfgs_rank = g.range(1, 6);
    o.use_approximate_eigenvalue_bfgs_scaling = g.chance(50);
    o.line_search_sufficient_function_decrease = g.chance(70) ? 1e-4 : 0.2;
    o.line_search_sufficient_curvature_decrease = g.chance(70) ? 0.9 : 0.4;
    o.max_num_line_search_step_size_iterations = g.chance(70) ? 20 : g.range(1, 5);
    o.max_num_line_search_direction_restarts = g.chance(70) ? 5 : g.range(0, 2);
    o.min_line_search_step_size = g.chance(80) ? 1e-9 : 1e-3;
    o.max_line_search_step_contraction = g.chance(70) ? 1e-3 : 0.3;
    o.min_line_search_step_contraction = g.chance(70) ? 0.6 : 0.9;
    o.max_line_search_step_expansion = g.chance(70) ? 10 : 2;
  }

  std::vector<double> Memory() const { return inst->store; }
  int Mem() { return rec->PointId(inst->store); }

  void Prepare(bool jac, bool fresh) {
    Flush();
    std::vector<double> mem = Memory();
    preps.emplace_back();
    PrepRec& p = preps.back();
    p.point = rec->PointId(mem);
    p.jac = jac;
    p.fresh = fresh;
    ++nprep;
    p.mode = faults.count(nprep) ? faults[nprep] : 0;
    if (rec->HasManifold() && !base.empty()) p.d = rec->Minus(mem, base);
    else if (!base.empty()) p.d = rec->Minus(mem, base);
    cur_mem = mem;
    open = true;
  }
  // Without an EvaluationCallback an evaluation is recognised as a sequence of
  // calls to distinct cost functions (single threaded).
  int OnCall(int i, const double* const* x, bool jac) {
    std::lock_guard<std::mutex> lk(mu);
    if (!use_cb) {
      bool free = false;
      for (int b : model.res[i].blocks) free |= model.active(b);
      if (!free) return 0;
      std::vector<double> mem = Memory();
      if (!open || seen.count(i) || int(seen.size()) == nfree || preps.back().jac != jac) {
        Flush();
        preps.emplace_back();
        preps.back().jac = jac;
        preps.back().fresh = true;
        preps.back().point = 0;
        ++nprep;
        preps.back().mode = faults.count(nprep) ? faults[nprep] : 0;
        cur_mem = model.init();
        user_at_call = rec->PointId(mem);
        open = true;
      }
      PrepRec& p = preps.back();
      seen.insert(i);
      p.calls++;
      if (jac) p.jcalls++;
      if (rec->PointId(mem) != user_at_call) p.stable = false;
      for (size_t b = 0; b < model.res[i].blocks.size(); ++b) {
        int bl = model.res[i].blocks[b];
        std::copy(x[b], x[b] + model.blocks[bl].size, cur_mem.begin() + model.offset(bl));
      }
      if (i == fault_res) p.hit = true;
      return i == fault_res ? p.mode : 0;
    }
    if (!open) { ++stray; return 0; }
    PrepRec& p = preps.back();
    p.calls++;
    if (jac) p.jcalls++;
    for (size_t b = 0; b < model.res[i].blocks.size(); ++b) {
      int bl = model.res[i].blocks[b];
      for (int k = 0; k < model.blocks[bl].size; ++k) {
        double want = cur_mem[model.offset(bl) + k];
        if (std::memcmp(&x[b][k], &want, 8) || std::memcmp(&inst->ptr[bl][k], &want, 8)) p.stable = false;
      }
    }
    if (i == fault_res) p.hit = true;
    return i == fault_res ? p.mode : 0;
  }
  void Flush() {
    if (!open) return;
    PrepRec& p = preps.back();
    bool complete = true;
    if (!use_cb) {
      // only the residual blocks with a free parameter block are evaluated
      complete = int(seen.size()) == nfree;
      p.point = complete ? rec->PointId(cur_mem) : 0;
      if (complete && !base.empty()) p.d = rec->Minus(cur_mem, base);
    }
    Obj o;
    o.add("op", S("P")).add("p", I(p.point)).add("j", B(p.jac)).add("nw", B(p.fresh))
        .add("n", I(p.calls)).add("nj", I(p.jcalls)).add("st", B(p.stable)).add("bad", I(p.hit ? p.mode : 0))
        .add("um", I(use_cb ? p.point : user_at_call));
    if (!p.d.empty()) o.add("d", Dbls(p.d));
    else o.add("d", "[]");
    if (p.jac && p.point) base = use_cb ? cur_mem : cur_mem;
    ev.add(o.str());
    open = false;
    seen.clear();
  }
  ceres::CallbackReturnType OnIteration(int i, const ceres::IterationSummary& s) {
    Flush();
    int ret = 0;
    if (s.iteration == stop_it && i == stop_cb) ret = stop_how;
    Obj o;
    o.add("op", S("C")).add("i", I(i)).add("s", SummaryJson(s)).add("m", I(Mem())).add("ret", I(ret));
    ev.add(o.str());
    if (i == 1) reported.push_back(s);
    return ret == 0 ? ceres::SOLVER_CONTINUE : ret == 1 ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  }

  std::string Run() {
    rec = std::make_unique<Recorder>(model);
    hooks.on_call = [this](int i, const double* const* x, bool j) { return OnCall(i, x, j); };
    EvalCb ecb(this);
    for (auto& r : model.res) {
      bool free = false;
      for (int b : r.blocks) free |= model.active(b);
      nfree += free;
    }
    inst = std::make_unique<Instance>(&model, &hooks, use_cb ? &ecb : nullptr);
    std::vector<std::unique_ptr<IterCb>> cbs;
    for (int i = 1; i <= ncb; ++i) {
      cbs.push_back(std::make_unique<IterCb>(this, i));
      opt.callbacks.push_back(cbs.back().get());
    }
    int start = Mem();
    // cost of the residual blocks with no free parameter block
    double fixed = 0;
    bool constrained = false;
    for (size_t b = 0; b < model.blocks.size(); ++b)
      if (model.active(int(b)))
        for (int i = 0; i < model.blocks[b].size; ++i)
          constrained |= model.blocks[b].lo[i] > -kInf || model.blocks[b].hi[i] < kInf;
    bool fixok = true;
    int nfixed = 0;
    {
      Instance f(&model, nullptr);
      for (size_t i = 0; i < model.res.size(); ++i) {
        bool free = false;
        for (int b : model.res[i].blocks) free |= model.active(b);
        if (free) continue;
        ++nfixed;
        double c = 0;
        if (!f.problem->EvaluateResidualBlock(f.ids[i], true, &c, nullptr, nullptr)) fixok = false;
        fixed += c;
      }
    }
    ceres::Solver::Summary sum;
    bool fatal = false;
    std::string fmsg;
    absl_shim::throw_on_fatal = true;
    try {
      ceres::Solve(opt, inst->problem.get(), &sum);
    } catch (const absl_shim::Fatal& e) {
      fatal = true;
      fmsg = e.what();
    }
    absl_shim::throw_on_fatal = false;
    Flush();
    bool same = sum.iterations.size() == reported.size();
    for (size_t i = 0; same && i < reported.size(); ++i) same = Same(sum.iterations[i], reported[i]);
    Obj e;
    e.add("op", S("E")).add("fatal", B(fatal)).add("fmsg", S(fmsg)).add("type", I(int(sum.termination_type))).add("use", B(sum.IsSolutionUsable()))
        .add("init", D(sum.initial_cost)).add("fin", D(sum.final_cost)).add("fix", D(sum.fixed_cost))
        .add("ns", I(sum.num_successful_steps)).add("nu", I(sum.num_unsuccessful_steps))
        .add("nits", I((long long)sum.iterations.size())).add("same", B(same)).add("m", I(Mem()))
        .add("nre", I(sum.num_residual_evaluations)).add("nje", I(sum.num_jacobian_evaluations))
        .add("msg", S(sum.message)).add("stray", I(stray));
    ev.add(e.str());

    bool ls = opt.minimizer_type == ceres::LINE_SEARCH;
    Obj o;
    o.add("strat", S(ls ? "LS" : opt.trust_region_strategy_type == ceres::LEVENBERG_MARQUARDT ? "LM"
                     : opt.dogleg_type == ceres::TRADITIONAL_DOGLEG ? "DL" : "SD"))
        .add("initr", D(opt.initial_trust_region_radius)).add("maxr", D(opt.max_trust_region_radius))
        .add("minr", D(opt.min_trust_region_radius)).add("mrd", D(opt.min_relative_decrease))
        .add("mind", D(opt.min_lm_diagonal)).add("maxd", D(opt.max_lm_diagonal))
        .add("jsc", B(opt.jacobi_scaling))
        .add("win", I(opt.use_nonmonotonic_steps ? opt.max_consecutive_nonmonotonic_steps : 0))
        .add("maxit", I(opt.max_num_iterations)).add("maxinv", I(opt.max_num_consecutive_invalid_steps))
        .add("gtol", D(opt.gradient_tolerance)).add("ftol", D(opt.function_tolerance))
        .add("ptol", D(opt.parameter_tolerance)).add("con", B(constrained))
        .add("lsm", I(opt.max_num_line_search_step_size_iterations)).add("upd", B(opt.update_state_every_iteration))
        .add("tz", B(opt.max_solver_time_in_seconds == 0)).add("ncb", I(ncb)).add("ecb", B(use_cb)).add("exact", B(exact)).add("eta", D(opt.eta))
        .add("n", I(rec->n)).add("lo", Dbls(rec->lo)).add("hi", Dbls(rec->hi)).add("fi", Ints(rec->fi)).add("ti", Ints(rec->ti))
        .add("man", B(rec->HasManifold())).add("x0", I(start)).add("fixc", D(fixed)).add("nfixed", I(nfixed)).add("fixok", B(fixok))
        .add("nfree", I(nfree)).add("solver", I(int(opt.linear_solver_type)))
        .add("inner", B(opt.use_inner_iterations)).add("inject", B(!faults.empty())).add("threads", I(opt.num_threads))
        .add("dir", I(int(opt.line_search_direction_type))).add("lst", I(int(opt.line_search_type)))
        .add("c1", D(opt.line_search_sufficient_function_decrease))
        .add("c2", D(opt.line_search_sufficient_curvature_decrease))
        .add("maxres", I(opt.max_num_line_search_direction_restarts))
        .add("minstep", D(opt.min_line_search_step_size)).add("rank", I(opt.max_lbfgs_rank));
    bool lite = ls ? false : false;
    Arr pts;
    for (size_t i = 0; i < rec->pts.size(); ++i) pts.add(rec->PointJson(rec->pts[i].mem, lite));
    Obj t;
    t.add("opt", o.str()).add("pts", pts.str()).add("ev", ev.str());
    return t.str();
  }

  std::string profile_, extra_;
  Rng g;
  Model model;
  ceres::Solver::Options opt;
  bool use_cb = true, exact = true;
  int ncb = 1, stop_it = -1, stop_cb = 0, stop_how = 0;
  std::map<int, int> faults;
  int fault_res = 0;
  Hooks hooks;
  std::unique_ptr<Recorder> rec;
  std::unique_ptr<Instance> inst;
  std::vector<PrepRec> preps;
  std::vector<double> cur_mem, base;
  std::set<int> seen;
  int nfree = 0, nprep = 0, stray = 0, user_at_call = 0;
  bool open = false;
  std::mutex mu;
  Arr ev;
  std::vector<ceres::IterationSummary> reported;
};

void EvalCb::PrepareForEvaluation(bool jac, bool fresh) { s_->Prepare(jac, fresh); }
ceres::CallbackReturnType IterCb::operator()(const ceres::IterationSummary& s) {
  return s_->OnIteration(i_, s);
}

}  // namespace

int main() {
  absl_shim::quiet = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string profile;
    uint64_t seed;
    std::string extra;
    in >> profile >> seed >> extra;
    Scenario s(profile, seed, extra);
    std::cout << s.Run() << "\n" << std::flush;
  }
  return 0;
}
