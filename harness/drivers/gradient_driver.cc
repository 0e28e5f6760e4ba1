// Runs ceres::GradientProblemSolver on seeded functions (scripted ones, that
// answer anything at all, and smooth ones) and records every call the solver
// makes into user code, the user's memory and the summary.
// Input, one scenario per line:  PROFILE SEED      (see spec/GradientSolverTrace.tla)
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/ceres.h"
#include "drv.h"

using namespace drv;

namespace {
const double kInf = std::numeric_limits<double>::infinity();
const double kNaN = std::numeric_limits<double>::quiet_NaN();

struct World {
  Rng r;
  int n = 1, nt = 1;
  int man = 0;                         // 0 none, 1 linear, 2 multiplicative
  std::vector<double> E;               // n x nt
  double plus_limit = kInf;
  int kind = 0;                        // the function
  std::vector<double> a;               // its coefficients
  double wall = kInf;                  // evaluation fails outside
  int wall_kind = 0;
  bool lie = false;                    // gradient not that of the function
  int fail_at = -1;                    // n-th distinct point fails
  Arr ev;
  int events = 0;
  struct Answer { bool ok; double c; std::vector<double> g; };
  std::map<std::string, Answer> memo;
  double last = 0, first = 0;
  int asked = 0;
  int styles = 0;
  explicit World(uint64_t s) : r(s) {}

  Answer Smooth(const double* x) {
    Answer o{true, 0, std::vector<double>(n, 0.0)};
    double far = 0;
    for (int i = 0; i < n; ++i) far = std::max(far, std::fabs(x[i]));
    if (far > wall) {
      if (wall_kind == 0) { o.ok = false; return o; }
      if (wall_kind == 1) { o.c = kInf; return o; }
      if (wall_kind == 2) { o.c = kNaN; return o; }
    }
    switch (kind) {
      case 1:  // quadratic
        for (int i = 0; i < n; ++i) {
          o.c += 0.5 * a[i] * (x[i] - a[n + i]) * (x[i] - a[n + i]);
          o.g[i] = a[i] * (x[i] - a[n + i]);
        }
        break;
      case 2:  // rosenbrock like
        for (int i = 0; i + 1 < n; ++i) {
          double u = x[i + 1] - x[i] * x[i], v = 1 - x[i];
          o.c += 20 * u * u + v * v;
          o.g[i] += -80 * u * x[i] - 2 * v;
          o.g[i + 1] += 40 * u;
        }
        o.c += x[0] * x[0] * 0.01;
        o.g[0] += 0.02 * x[0];
        break;
      case 3:  // waves on a bowl
        for (int i = 0; i < n; ++i) {
          o.c += 0.1 * x[i] * x[i] + std::sin(a[i] * x[i]) + 1;
          o.g[i] = 0.2 * x[i] + a[i] * std::cos(a[i] * x[i]);
        }
        break;
      case 4:  // a barrier
        for (int i = 0; i < n; ++i) {
          o.c += x[i] - 0.5 * std::log(x[i] + 1);
          o.g[i] = 1 - 0.5 / (x[i] + 1);
        }
        break;
      case 5:  // unbounded below, ever steeper
        for (int i = 0; i < n; ++i) {
          o.c -= a[i] * x[i] + 0.01 * x[i] * x[i];
          o.g[i] = -a[i] - 0.02 * x[i];
        }
        break;
      case 6:  // kinks
        for (int i = 0; i < n; ++i) {
          o.c += a[i] * std::fabs(x[i] - a[n + i]);
          o.g[i] = x[i] < a[n + i] ? -a[i] : a[i];
        }
        break;
      case 7: {  // quartic with a coupling
        double q = 0;
        for (int i = 0; i < n; ++i) q += a[i] * x[i];
        for (int i = 0; i < n; ++i) {
          o.c += 0.25 * x[i] * x[i] * x[i] * x[i];
          o.g[i] = x[i] * x[i] * x[i] + q * a[i];
        }
        o.c += 0.5 * q * q;
        break;
      }
      default:  // constant
        o.c = 3;
    }
    if (lie) for (int i = 0; i < n; ++i) o.g[i] = -o.g[i] * (i ? 0.5 : 1) + 0.1;
    return o;
  }
  Answer Script() {
    Answer o{true, 0, std::vector<double>(n, 0.0)};
    ++asked;
    if (asked == 1) {
      last = first = std::ldexp(r.range(1, 64), r.range(-3, 3));
      o.c = last;
      for (double& g : o.g) g = styles & 1 ? (r.chance(50) ? -1.0 : 1.0) : r.real(-4, 4);
      return o;
    }
    int z = r.below(100);
    double scale = std::fabs(first) * 0.1 + 1e-3;
    if (z < 30) o.c = last - scale * r.unit();
    else if (z < 55) o.c = last + scale * r.unit() * 0.5;
    else if (z < 65) o.c = last;
    else if (z < 75) o.c = last - scale * 1e-4 * r.unit();
    else if (z < 80) o.c = last * 1e3 + 1;
    else if (styles & 2) {
      if (z < 86) { o.ok = false; return o; }
      if (z < 92) { o.c = kInf; return o; }
      if (z < 96) { o.c = kNaN; return o; }
      o.c = -kInf;
      return o;
    } else o.c = last - scale * r.unit();
    last = r.chance(70) ? o.c : last;
    for (double& g : o.g) {
      int q = r.below(10);
      g = q == 0 ? 0.0 : q < 6 ? -r.real(0, 2) * std::ldexp(1.0, -r.below(6)) : r.real(0, 2) * std::ldexp(1.0, -r.below(6));
    }
    if ((styles & 4) && r.chance(10)) o.g[r.below(n)] = r.chance(50) ? kInf : kNaN;
    return o;
  }
  const Answer& Ask(const double* x) {
    std::string key(reinterpret_cast<const char*>(x), n * 8);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    Answer o = kind == 0 ? Script() : Smooth(x);
    if (int(memo.size()) == fail_at) o.ok = false;
    return memo[key] = o;
  }
};

class Function final : public ceres::FirstOrderFunction {
 public:
  explicit Function(World* w) : w_(w) {}
  bool Evaluate(const double* x, double* cost, double* g) const final {
    const World::Answer& a = w_->Ask(x);
    Obj e;
    e.add("op", S("F")).add("x", DblsN(x, w_->n)).add("want", B(g != nullptr)).add("ok", B(a.ok))
        .add("c", D(a.c)).add("g", Dbls(a.g));
    w_->ev.add(e.str());
    if (++w_->events > 4000) throw std::runtime_error("endless");
    *cost = a.c;
    if (g) for (int i = 0; i < w_->n; ++i) g[i] = a.ok ? a.g[i] : kNaN;
    return a.ok;
  }
  int NumParameters() const final { return w_->n; }

 private:
  World* w_;
};

// The same function as the only residual of a Problem: cost f^2 / 2.
class Cost final : public ceres::CostFunction {
 public:
  Cost(World* w, const std::vector<int>& sizes) : w_(w) {
    for (int k : sizes) mutable_parameter_block_sizes()->push_back(k);
    set_num_residuals(1);
  }
  bool Evaluate(double const* const* p, double* r, double** J) const final {
    std::vector<double> x;
    for (size_t b = 0; b < parameter_block_sizes().size(); ++b)
      for (int i = 0; i < parameter_block_sizes()[b]; ++i) x.push_back(p[b][i]);
    const World::Answer& a = w_->Ask(x.data());
    bool want = false;
    for (size_t b = 0; J && b < parameter_block_sizes().size(); ++b) want = want || J[b];
    bool ok = a.ok && std::isfinite(a.c);
    std::vector<double> g;
    for (double v : a.g) {
      ok = ok && (!want || std::isfinite(v));
      g.push_back(a.c * v);
    }
    Obj e;
    e.add("op", S("F")).add("x", DblsN(x.data(), w_->n)).add("want", B(want)).add("ok", B(ok))
        .add("c", D(0.5 * a.c * a.c)).add("g", Dbls(g));
    w_->ev.add(e.str());
    if (++w_->events > 4000) throw std::runtime_error("endless");
    r[0] = a.c;
    size_t k = 0;
    for (size_t b = 0; b < parameter_block_sizes().size(); ++b)
      for (int i = 0; i < parameter_block_sizes()[b]; ++i, ++k)
        if (J && J[b]) J[b][i] = a.g[k];
    return a.ok;
  }

 private:
  World* w_;
};

class Prepare final : public ceres::EvaluationCallback {
 public:
  Prepare(World* w, const double* mem) : w_(w), mem_(mem) {}
  void PrepareForEvaluation(bool jacobians, bool fresh) final {
    Obj e;
    e.add("op", S("V")).add("x", DblsN(mem_, w_->n)).add("jac", B(jacobians)).add("fresh", B(fresh));
    w_->ev.add(e.str());
  }

 private:
  World* w_;
  const double* mem_;
};

class Man final : public ceres::Manifold {
 public:
  explicit Man(World* w) : w_(w) {}
  int AmbientSize() const final { return w_->n; }
  int TangentSize() const final { return w_->nt; }
  void Jac(const double* x, double* J) const {
    for (int i = 0; i < w_->n; ++i)
      for (int j = 0; j < w_->nt; ++j)
        J[i * w_->nt + j] = w_->man == 1 ? w_->E[i * w_->nt + j] : (i == j ? x[i] : 0);
  }
  bool Plus(const double* x, const double* d, double* y) const final {
    for (int j = 0; j < w_->nt; ++j)
      if (!(std::fabs(d[j]) <= w_->plus_limit)) {
        Obj e;
        e.add("op", S("P")).add("x", DblsN(x, w_->n)).add("d", DblsN(d, w_->nt));
        w_->ev.add(e.str());
        return false;
      }
    std::vector<double> J(w_->n * w_->nt);
    Jac(x, J.data());
    for (int i = 0; i < w_->n; ++i) {
      double v = 0;
      for (int j = 0; j < w_->nt; ++j) v += J[i * w_->nt + j] * d[j];
      y[i] = x[i] + v;
    }
    return true;
  }
  bool PlusJacobian(const double* x, double* J) const final { Jac(x, J); return true; }
  bool Minus(const double*, const double*, double*) const final { return false; }
  bool MinusJacobian(const double*, double*) const final { return false; }

 private:
  World* w_;
};

std::string Iter(const ceres::IterationSummary& s) {
  Obj o;
  o.add("it", I(s.iteration)).add("valid", B(s.step_is_valid)).add("succ", B(s.step_is_successful))
      .add("c", D(s.cost)).add("dc", D(s.cost_change)).add("gmax", D(s.gradient_max_norm))
      .add("gnorm", D(s.gradient_norm)).add("snorm", D(s.step_norm)).add("step", D(s.step_size))
      .add("lf", I(s.line_search_function_evaluations)).add("lg", I(s.line_search_gradient_evaluations))
      .add("li", I(s.line_search_iterations));
  return o.str();
}

class Callback final : public ceres::IterationCallback {
 public:
  Callback(World* w, int who, int at, ceres::CallbackReturnType what, const double* mem)
      : w_(w), who_(who), at_(at), what_(what), mem_(mem) {}
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) final {
    ceres::CallbackReturnType ret = s.iteration >= at_ ? what_ : ceres::SOLVER_CONTINUE;
    Obj e;
    e.add("op", S("C")).add("who", I(who_)).add("i", Iter(s)).add("mem", DblsN(mem_, w_->n))
        .add("ret", S(ret == ceres::SOLVER_CONTINUE ? "GO" : ret == ceres::SOLVER_ABORT ? "ABORT" : "DONE"));
    w_->ev.add(e.str());
    return ret;
  }

 private:
  World* w_;
  int who_, at_;
  ceres::CallbackReturnType what_;
  const double* mem_;
};

const char* const kTerm[] = {"CONVERGENCE", "NO_CONVERGENCE", "FAILURE", "USER_SUCCESS", "USER_FAILURE"};

std::string Trace(World& w, const std::string& begin, const std::string& id) {
  Obj t;
  t.add("id", S(id));
  std::string evs = w.ev.str();
  t.add("ev", "[" + begin + "," + evs.substr(1));
  return t.str();
}

std::string RunProblem(World& w, const ceres::GradientProblemSolver::Options& g, const std::string& begin,
                       std::vector<double>& mem, bool ecb, const std::string& id) {
  Prepare prepare(&w, mem.data());
  Obj e;
  try {
    ceres::Problem::Options po;
    if (ecb) po.evaluation_callback = &prepare;
    ceres::Problem problem(po);
    std::vector<int> sizes;
    std::vector<double*> blocks;
    for (int i = 0; i < w.n;) {
      int k = w.man ? w.n : w.r.range(1, w.n - i);
      sizes.push_back(k);
      blocks.push_back(mem.data() + i);
      i += k;
    }
    for (size_t b = 0; b < blocks.size(); ++b) problem.AddParameterBlock(blocks[b], sizes[b]);
    if (w.man) problem.SetManifold(blocks[0], new Man(&w));
    problem.AddResidualBlock(new Cost(&w, sizes), nullptr, blocks);
    ceres::Solver::Options o;
    o.minimizer_type = ceres::LINE_SEARCH;
    o.logging_type = ceres::SILENT;
    o.num_threads = w.r.range(1, 3);
    o.line_search_direction_type = g.line_search_direction_type;
    o.line_search_type = g.line_search_type;
    o.nonlinear_conjugate_gradient_type = g.nonlinear_conjugate_gradient_type;
    o.line_search_interpolation_type = g.line_search_interpolation_type;
    o.max_lbfgs_rank = g.max_lbfgs_rank;
    o.use_approximate_eigenvalue_bfgs_scaling = g.use_approximate_eigenvalue_bfgs_scaling;
    o.min_line_search_step_size = g.min_line_search_step_size;
    o.line_search_sufficient_function_decrease = g.line_search_sufficient_function_decrease;
    o.line_search_sufficient_curvature_decrease = g.line_search_sufficient_curvature_decrease;
    o.max_line_search_step_contraction = g.max_line_search_step_contraction;
    o.min_line_search_step_contraction = g.min_line_search_step_contraction;
    o.max_num_line_search_step_size_iterations = g.max_num_line_search_step_size_iterations;
    o.max_num_line_search_direction_restarts = g.max_num_line_search_direction_restarts;
    o.max_line_search_step_expansion = g.max_line_search_step_expansion;
    o.max_num_iterations = g.max_num_iterations;
    o.function_tolerance = g.function_tolerance;
    o.gradient_tolerance = g.gradient_tolerance;
    o.parameter_tolerance = g.parameter_tolerance;
    o.update_state_every_iteration = g.update_state_every_iteration;
    o.callbacks = g.callbacks;
    ceres::Solver::Summary s;
    ceres::Solve(o, &problem, &s);
    Arr its;
    for (const auto& i : s.iterations) its.add(Iter(i));
    e.add("op", S("E")).add("term", S(kTerm[s.termination_type])).add("initial", D(s.initial_cost))
        .add("final", D(s.final_cost)).add("its", its.str()).add("nf", I(s.num_residual_evaluations))
        .add("ng", I(s.num_jacobian_evaluations)).add("nls", I(s.num_line_search_steps))
        .add("ok", I(s.num_successful_steps)).add("mem", Dbls(mem)).add("msg", B(!s.message.empty()))
        .add("np", I(s.num_parameters)).add("ntp", I(s.num_effective_parameters))
        .add("brief", B(s.BriefReport().size() > 20 && s.FullReport().size() > 100));
  } catch (const std::exception& x) {
    Obj d;
    d.add("op", S("DIED")).add("why", S(x.what()));
    w.ev.add(d.str());
    return Trace(w, begin, id);
  }
  w.ev.add(e.str());
  return Trace(w, begin, id);
}

std::string Run(const std::string& profile, uint64_t seed) {
  World w(seed * 7 + 11);
  Rng& r = w.r;
  ceres::GradientProblemSolver::Options o;
  o.logging_type = ceres::SILENT;
  bool prob = profile == "prob";
  bool script = profile == "script" || profile == "nan" || (prob && r.chance(50));
  w.n = script ? r.range(1, 2) : r.range(1, 4);
  w.man = script ? (r.chance(25) ? r.range(1, 2) : 0) : r.chance(50) ? 0 : r.range(1, 2);
  if (profile == "plus") w.man = r.range(1, 2);
  w.nt = w.n;
  if (w.man == 1) {
    w.nt = r.range(1, w.n);
    w.E.assign(w.n * w.nt, 0.0);
    for (int i = 0; i < w.n; ++i)
      for (int j = 0; j < w.nt; ++j) w.E[i * w.nt + j] = i == j ? r.range(1, 2) : (r.chance(30) ? r.range(-1, 1) : 0);
  }
  w.kind = script ? 0 : r.range(1, 7);
  if (!script && r.chance(2)) w.kind = 8;
  w.styles = r.below(2) + (r.chance(50) ? 2 : 0) + (profile == "nan" ? 4 : 0);
  for (int i = 0; i < w.n; ++i) w.a.push_back(std::ldexp(r.real(0.5, 2), w.kind == 1 ? r.range(-3, 4) : 0));
  for (int i = 0; i < w.n; ++i) w.a.push_back(r.real(-3, 3));
  std::vector<double> x(w.n);
  for (double& v : x) v = w.kind == 4 ? r.real(-0.5, 1.9) : w.kind == 0 && r.chance(70) ? r.range(1, 3) : r.real(-2, 2);
  if (w.man == 2) for (double& v : x) if (std::fabs(v) < 0.1) v = 0.5;
  if (!script) {
    if (r.chance(25)) { w.wall = r.real(2, 4); w.wall_kind = r.below(3); }
    if (profile == "fault" || (prob && r.chance(20))) w.fail_at = r.below(25);
    w.lie = r.chance(8);
  }
  if (profile == "plus") w.plus_limit = r.real(0.2, 8);
  o.line_search_direction_type = ceres::LineSearchDirectionType(r.below(4));
  o.line_search_type = r.chance(55) ? ceres::WOLFE : ceres::ARMIJO;
  if (profile == "nan") o.line_search_type = ceres::WOLFE;
  if (o.line_search_direction_type == ceres::LBFGS || o.line_search_direction_type == ceres::BFGS)
    o.line_search_type = ceres::WOLFE;
  o.nonlinear_conjugate_gradient_type = ceres::NonlinearConjugateGradientType(r.below(3));
  o.line_search_interpolation_type = ceres::LineSearchInterpolationType(r.below(3));
  o.max_lbfgs_rank = r.pick(std::vector<int>{1, 2, 3, 20});
  o.use_approximate_eigenvalue_bfgs_scaling = r.chance(40);
  o.min_line_search_step_size = r.pick(std::vector<double>{1e-9, 1e-9, 1e-4, 1e-2});
  o.line_search_sufficient_function_decrease = r.pick(std::vector<double>{1e-4, 1e-4, 0.1, 0.3});
  o.line_search_sufficient_curvature_decrease = r.pick(std::vector<double>{0.9, 0.9, 0.4, 0.99});
  o.max_line_search_step_contraction = r.pick(std::vector<double>{1e-3, 1e-3, 0.1, 0.4});
  o.min_line_search_step_contraction = r.pick(std::vector<double>{0.6, 0.6, 0.9, 0.5, 0.42});
  o.max_num_line_search_step_size_iterations = r.chance(40) ? 20 : r.range(1, 8);
  o.max_num_line_search_direction_restarts = r.range(0, 3);
  o.max_line_search_step_expansion = r.pick(std::vector<double>{10.0, 10.0, 2.0, 1.25});
  o.max_num_iterations = r.chance(20) ? r.range(0, 3) : r.range(4, 25);
  o.function_tolerance = r.pick(std::vector<double>{0.0, 1e-6, 1e-12, 1e-2});
  o.gradient_tolerance = r.pick(std::vector<double>{0.0, 1e-10, 1e-6, 1e-1});
  o.parameter_tolerance = r.pick(std::vector<double>{0.0, 0.0, 1e-8, 1e-12, 1e-2, 0.3});
  o.update_state_every_iteration = r.chance(40);
  int ncb = r.range(1, 2);
  bool stops = r.chance(25);
  int who = r.below(ncb), when = r.range(0, 6);
  auto what = r.chance(50) ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  std::vector<double> mem = x;
  bool ecb = r.chance(50);
  std::vector<std::unique_ptr<Callback>> cbs;
  for (int i = 0; i < ncb; ++i) {
    cbs.push_back(std::make_unique<Callback>(&w, i, stops && i == who ? when : 1 << 30, what, mem.data()));
    o.callbacks.push_back(cbs.back().get());
  }
  static const char* kDir[] = {"SD", "NCG", "LBFGS", "BFGS"};
  static const char* kNcg[] = {"FR", "PR", "HS"};
  static const char* kInt[] = {"BISECTION", "QUADRATIC", "CUBIC"};
  Arr Ej;
  for (int i = 0; i < w.n; ++i) {
    std::vector<double> row;
    for (int j = 0; j < w.nt; ++j) row.push_back(w.man == 1 ? w.E[i * w.nt + j] : i == j);
    Ej.add(Dbls(row));
  }
  Obj b;
  b.add("op", S("S")).add("n", I(w.n)).add("nt", I(w.nt)).add("man", I(w.man)).add("E", Ej.str())
      .add("x0", Dbls(x)).add("dir", S(kDir[o.line_search_direction_type]))
      .add("ncg", S(kNcg[o.nonlinear_conjugate_gradient_type]))
      .add("kind", S(o.line_search_type == ceres::WOLFE ? "WOLFE" : "ARMIJO"))
      .add("interp", S(kInt[o.line_search_interpolation_type])).add("rank", I(o.max_lbfgs_rank))
      .add("eig", B(o.use_approximate_eigenvalue_bfgs_scaling)).add("minstep", D(o.min_line_search_step_size))
      .add("sd", D(o.line_search_sufficient_function_decrease))
      .add("scd", D(o.line_search_sufficient_curvature_decrease))
      .add("maxc", D(o.max_line_search_step_contraction)).add("minc", D(o.min_line_search_step_contraction))
      .add("lsit", I(o.max_num_line_search_step_size_iterations))
      .add("restarts", I(o.max_num_line_search_direction_restarts))
      .add("expand", D(o.max_line_search_step_expansion)).add("maxit", I(o.max_num_iterations))
      .add("ftol", D(o.function_tolerance)).add("gtol", D(o.gradient_tolerance))
      .add("ptol", D(o.parameter_tolerance)).add("upd", B(o.update_state_every_iteration)).add("ncb", I(ncb)).add("prob", B(prob)).add("ecb", B(prob && ecb));
  std::string begin = b.str();
  if (prob) return RunProblem(w, o, begin, mem, ecb, profile + " " + std::to_string(seed));
  ceres::GradientProblemSolver::Summary s;
  bool aborted = false;
  std::string why;
  try {
    std::unique_ptr<ceres::GradientProblem> p;
    if (w.man)
      p = std::make_unique<ceres::GradientProblem>(std::make_unique<Function>(&w), std::make_unique<Man>(&w));
    else
      p = std::make_unique<ceres::GradientProblem>(std::make_unique<Function>(&w));
    ceres::Solve(o, *p, mem.data(), &s);
  } catch (const std::exception& e) {
    aborted = true;
    why = e.what();
  }
  Obj e;
  if (aborted) {
    e.add("op", S("DIED")).add("why", S(why));
  } else {
    Arr its;
    for (const auto& i : s.iterations) its.add(Iter(i));
    e.add("op", S("E")).add("term", S(kTerm[s.termination_type])).add("initial", D(s.initial_cost))
        .add("final", D(s.final_cost)).add("its", its.str()).add("nf", I(s.num_cost_evaluations))
        .add("ng", I(s.num_gradient_evaluations)).add("mem", Dbls(mem)).add("msg", B(!s.message.empty()))
        .add("np", I(s.num_parameters)).add("ntp", I(s.num_tangent_parameters))
        .add("brief", B(s.BriefReport().size() > 20 && s.FullReport().size() > 100));
  }
  w.ev.add(e.str());
  return Trace(w, begin, profile + " " + std::to_string(seed));
}
}  // namespace

int main() {
  absl_shim::throw_on_fatal = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string p;
    uint64_t seed = 0;
    in >> p >> seed;
    std::cout << Run(p, seed) << std::endl;
  }
}
