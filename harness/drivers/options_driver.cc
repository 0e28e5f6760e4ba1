// Sets fields of Solver::Options (or GradientProblemSolver::Options), asks
// IsValid, and runs Solve on a small problem with a point/camera structure.
// Input, one scenario per line:  s|g VARIANT [field value]...
// Output: one trace per line; see spec/OptionsTrace.tla.
#include <functional>
#include <iostream>
#include <map>
#include <sstream>

#include "model.h"

using namespace drv;

namespace {

struct Field { std::function<void(const std::string&)> set; std::function<std::string()> get; };
using Fields = std::map<std::string, Field>;

double Number(const std::string& s) { return std::strtod(s.c_str(), nullptr); }

template <class E>
Field Enum(E* p, std::vector<std::pair<const char*, E>> names) {
  return {[=](const std::string& s) {
            for (auto& n : names) if (s == n.first) { *p = n.second; return; }
            std::cerr << "unknown value " << s << "\n";
            std::exit(3);
          },
          [=]() -> std::string {
            for (auto& n : names) if (*p == n.second) return S(n.first);
            return S("?");
          }};
}
Field Int(int* p) { return {[=](const std::string& s) { *p = std::atoi(s.c_str()); }, [=] { return I(*p); }}; }
Field Dbl(double* p) { return {[=](const std::string& s) { *p = Number(s); }, [=] { return D(*p); }}; }
Field Bool(bool* p) { return {[=](const std::string& s) { *p = s == "T"; }, [=] { return B(*p); }}; }

#define E(x) {#x, ceres::x}
template <class O>
void Shared(O* o, Fields* f) {
  auto& m = *f;
  m["line_search_direction_type"] = Enum(&o->line_search_direction_type,
      {E(STEEPEST_DESCENT), E(NONLINEAR_CONJUGATE_GRADIENT), E(LBFGS), E(BFGS)});
  m["line_search_type"] = Enum(&o->line_search_type, {E(ARMIJO), E(WOLFE)});
  m["nonlinear_conjugate_gradient_type"] = Enum(&o->nonlinear_conjugate_gradient_type,
      {E(FLETCHER_REEVES), E(POLAK_RIBIERE), E(HESTENES_STIEFEL)});
  m["max_lbfgs_rank"] = Int(&o->max_lbfgs_rank);
  m["use_approximate_eigenvalue_bfgs_scaling"] = Bool(&o->use_approximate_eigenvalue_bfgs_scaling);
  m["line_search_interpolation_type"] = Enum(&o->line_search_interpolation_type,
      {E(BISECTION), E(QUADRATIC), E(CUBIC)});
#define DBL(x) m[#x] = Dbl(&o->x)
#define INT(x) m[#x] = Int(&o->x)
#define BOOL(x) m[#x] = Bool(&o->x)
  DBL(min_line_search_step_size);
  DBL(line_search_sufficient_function_decrease);
  DBL(max_line_search_step_contraction);
  DBL(min_line_search_step_contraction);
  INT(max_num_line_search_step_size_iterations);
  INT(max_num_line_search_direction_restarts);
  DBL(line_search_sufficient_curvature_decrease);
  DBL(max_line_search_step_expansion);
  INT(max_num_iterations);
  DBL(max_solver_time_in_seconds);
  DBL(function_tolerance);
  DBL(gradient_tolerance);
  DBL(parameter_tolerance);
}

void Full(ceres::Solver::Options* o, Fields* f) {
  Shared(o, f);
  auto& m = *f;
  m["minimizer_type"] = Enum(&o->minimizer_type, {E(TRUST_REGION), E(LINE_SEARCH)});
  m["trust_region_strategy_type"] = Enum(&o->trust_region_strategy_type, {E(LEVENBERG_MARQUARDT), E(DOGLEG)});
  m["dogleg_type"] = Enum(&o->dogleg_type, {E(TRADITIONAL_DOGLEG), E(SUBSPACE_DOGLEG)});
  BOOL(use_nonmonotonic_steps);
  INT(max_consecutive_nonmonotonic_steps);
  INT(num_threads);
  DBL(initial_trust_region_radius);
  DBL(max_trust_region_radius);
  DBL(min_trust_region_radius);
  DBL(min_relative_decrease);
  DBL(min_lm_diagonal);
  DBL(max_lm_diagonal);
  INT(max_num_consecutive_invalid_steps);
  m["linear_solver_type"] = Enum(&o->linear_solver_type,
      {E(DENSE_NORMAL_CHOLESKY), E(DENSE_QR), E(SPARSE_NORMAL_CHOLESKY), E(DENSE_SCHUR), E(SPARSE_SCHUR),
       E(ITERATIVE_SCHUR), E(CGNR)});
  m["preconditioner_type"] = Enum(&o->preconditioner_type,
      {E(IDENTITY), E(JACOBI), E(SCHUR_JACOBI), E(SCHUR_POWER_SERIES_EXPANSION), E(CLUSTER_JACOBI),
       E(CLUSTER_TRIDIAGONAL), E(SUBSET)});
  m["visibility_clustering_type"] = Enum(&o->visibility_clustering_type, {E(CANONICAL_VIEWS), E(SINGLE_LINKAGE)});
  m["dense_linear_algebra_library_type"] = Enum(&o->dense_linear_algebra_library_type, {E(EIGEN), E(LAPACK), E(CUDA)});
  m["sparse_linear_algebra_library_type"] = Enum(&o->sparse_linear_algebra_library_type,
      {E(SUITE_SPARSE), E(EIGEN_SPARSE), E(ACCELERATE_SPARSE), E(CUDA_SPARSE), E(NO_SPARSE)});
  m["linear_solver_ordering_type"] = Enum(&o->linear_solver_ordering_type, {E(AMD), E(NESDIS)});
  BOOL(use_explicit_schur_complement);
  BOOL(dynamic_sparsity);
  BOOL(use_mixed_precision_solves);
  INT(max_num_refinement_iterations);
  INT(min_linear_solver_iterations);
  INT(max_linear_solver_iterations);
  INT(max_num_spse_iterations);
  BOOL(use_spse_initialization);
  DBL(spse_tolerance);
  DBL(eta);
  BOOL(jacobi_scaling);
  BOOL(use_inner_iterations);
  DBL(inner_iteration_tolerance);
  BOOL(check_gradients);
  DBL(gradient_check_relative_precision);
  DBL(gradient_check_numeric_derivative_relative_step_size);
  BOOL(update_state_every_iteration);
  m["trust_region_problem_dump_format_type"] = Enum(&o->trust_region_problem_dump_format_type, {E(CONSOLE), E(TEXTFILE)});
  m["trust_region_problem_dump_directory"] = {[=](const std::string& s) { o->trust_region_problem_dump_directory = s == "-" ? "" : s; },
                                               [=] { return S(o->trust_region_problem_dump_directory); }};
  // iterations to dump: none, or one that the solver never reaches
  m["trust_region_minimizer_iterations_to_dump"] = {
      [=](const std::string& s) { if (s == "T") o->trust_region_minimizer_iterations_to_dump = {1000000}; },
      [=] { return B(!o->trust_region_minimizer_iterations_to_dump.empty()); }};
}

// Two cameras (3), three points (2), one residual block for each pair.
Model Scene(int variant) {
  Rng r(100 + variant);
  Model m;
  auto block = [&](int size) {
    BlockSpec b;
    b.size = size;
    for (int i = 0; i < size; ++i) b.init.push_back(r.real(-1, 1));
    b.lo.assign(size, -kInf);
    b.hi.assign(size, kInf);
    m.blocks.push_back(b);
  };
  auto residual = [&](std::vector<int> bl, int rows) {
    ResSpec s;
    s.blocks = bl;
    s.m = rows;
    int n = 0;
    for (int b : bl) n += m.blocks[b].size;
    for (int k = 0; k < rows; ++k) {
      s.c.push_back(r.real(-1, 1));
      s.s.push_back(r.real(-0.3, 0.3));
      std::vector<double> a, q, w;
      for (int i = 0; i < n; ++i) a.push_back(r.real(-1, 1)), q.push_back(0), w.push_back(r.real(-1, 1));
      s.a.push_back(a);
      s.q.push_back(q);
      s.w.push_back(w);
    }
    m.res.push_back(s);
  };
  if (variant == 2) {          // one block: no Schur structure
    block(3);
    residual({0}, 3);
    residual({0}, 2);
    return m;
  }
  for (int i = 0; i < 2; ++i) block(3);
  for (int i = 0; i < 3; ++i) block(2);
  for (int c = 0; c < 2; ++c) for (int p = 2; p < 5; ++p) residual({c, p}, 2);
  residual({0}, 2);
  if (variant == 1) {          // bounds, active ones among them
    m.blocks[0].lo[0] = m.blocks[0].init[0];
    m.blocks[2].hi[1] = m.blocks[2].init[1] + 0.05;
    m.blocks[3].lo[0] = m.blocks[3].init[0] - 10;
  }
  if (variant == 3) m.blocks[2].constant = true;
  return m;
}

std::string Shape(ceres::Problem& p) {
  std::ostringstream s;
  s << p.NumParameterBlocks() << "/" << p.NumResidualBlocks() << "/" << p.NumParameters() << "/" << p.NumResiduals();
  std::vector<double*> b;
  p.GetParameterBlocks(&b);
  for (double* x : b) {
    s << " " << x << p.IsParameterBlockConstant(x) << p.HasManifold(x);
    for (int i = 0; i < p.ParameterBlockSize(x); ++i)
      s << "," << p.GetParameterLowerBound(x, i) << ":" << p.GetParameterUpperBound(x, i);
  }
  std::vector<ceres::ResidualBlockId> r;
  p.GetResidualBlocks(&r);
  for (auto i : r) s << " " << i;
  return s.str();
}

const char* Term(ceres::TerminationType t) { return ceres::TerminationTypeToString(t); }

std::string RunFull(int variant, std::istream& in) {
  ceres::Solver::Options o;
  o.minimizer_progress_to_stdout = false;
  o.logging_type = ceres::SILENT;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  Fields f;
  Full(&o, &f);
  std::string k, v, subset = "none";
  while (in >> k >> v) {
    if (k == "subset") { subset = v; continue; }
    if (!f.count(k)) { std::cerr << "unknown field " << k << "\n"; std::exit(3); }
    f[k].set(v);
  }
  Model m = Scene(variant);
  int calls = 0;
  Hooks h;
  h.on_call = [&](int, const double* const*, bool) { static std::mutex mu; std::lock_guard<std::mutex> l(mu); ++calls; return 0; };
  Instance inst(&m, &h);
  if (subset == "some") o.residual_blocks_for_subset_preconditioner = {inst.ids[0], inst.ids.back()};
  if (subset == "all") o.residual_blocks_for_subset_preconditioner = {inst.ids.begin(), inst.ids.end()};
  if (variant == 3) {          // the group to eliminate first is held constant
    o.linear_solver_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
    for (int b = 0; b < 5; ++b) o.linear_solver_ordering->AddElementToGroup(inst.ptr[b], b == 2 ? 0 : 1);
  }
  std::string error;
  bool valid = o.IsValid(&error);
  Obj rec, opt;
  for (auto& x : f) opt.add(x.first.c_str(), x.second.get());
  opt.add("subset", S(subset));
  std::vector<double> x0 = inst.store;
  std::string shape0 = Shape(*inst.problem);
  ceres::Solver::Summary s;
  bool aborted = false;
  std::string fatal;
  absl_shim::throw_on_fatal = true;
  try {
    ceres::Solve(o, inst.problem.get(), &s);
  } catch (const absl_shim::Fatal& e) {
    aborted = true;
    fatal = e.what();
  }
  absl_shim::throw_on_fatal = false;
  rec.add("ev", S("options")).add("api", S("solver")).add("bounded", B(variant == 1)).add("o", opt.str())
      .add("valid", B(valid)).add("error", S(error)).add("aborted", B(aborted)).add("fatal", S(fatal))
      .add("term", S(Term(s.termination_type))).add("message", S(s.message)).add("calls", I(calls))
      .add("same_x", B(x0 == inst.store)).add("same_shape", B(aborted || Shape(*inst.problem) == shape0))
      .add("initial", D(s.initial_cost)).add("final", D(s.final_cost));
  if (aborted) inst.problem.release();   // its state is unknown
  return rec.str();
}

class Bowl final : public ceres::FirstOrderFunction {
 public:
  explicit Bowl(int* calls) : calls_(calls) {}
  bool Evaluate(const double* x, double* cost, double* g) const final {
    ++*calls_;
    double a = 1 - x[0], b = x[1] - x[0] * x[0];
    *cost = a * a + 10 * b * b;
    if (g) { g[0] = -2 * a - 40 * x[0] * b; g[1] = 20 * b; }
    return true;
  }
  int NumParameters() const final { return 2; }
  int* calls_;
};

std::string RunGradient(std::istream& in) {
  ceres::GradientProblemSolver::Options o;
  o.logging_type = ceres::SILENT;
  Fields f;
  Shared(&o, &f);
  std::string k, v;
  while (in >> k >> v) {
    if (!f.count(k)) { std::cerr << "unknown field " << k << "\n"; std::exit(3); }
    f[k].set(v);
  }
  Obj rec, opt;
  for (auto& x : f) opt.add(x.first.c_str(), x.second.get());
  std::string error;
  bool valid = o.IsValid(&error);
  int calls = 0;
  ceres::GradientProblem problem(std::make_unique<Bowl>(&calls));
  double x[2] = {-0.7, 0.4};
  ceres::GradientProblemSolver::Summary s;
  bool aborted = false;
  std::string fatal;
  absl_shim::throw_on_fatal = true;
  try {
    ceres::Solve(o, problem, x, &s);
  } catch (const absl_shim::Fatal& e) {
    aborted = true;
    fatal = e.what();
  }
  absl_shim::throw_on_fatal = false;
  rec.add("ev", S("options")).add("api", S("gradient")).add("bounded", B(false)).add("o", opt.str())
      .add("valid", B(valid)).add("error", S(error)).add("aborted", B(aborted)).add("fatal", S(fatal))
      .add("term", S(Term(s.termination_type))).add("message", S(s.message)).add("calls", I(calls))
      .add("same_x", B(x[0] == -0.7 && x[1] == 0.4)).add("same_shape", B(true))
      .add("initial", D(s.initial_cost)).add("final", D(s.final_cost));
  return rec.str();
}

}  // namespace

int main() {
  absl_shim::quiet = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string api;
    int variant = 0;
    in >> api >> variant;
    std::cout << "{\"ev\":[" << (api == "g" ? RunGradient(in) : RunFull(variant, in)) << "]}" << std::endl;
  }
  return 0;
}
