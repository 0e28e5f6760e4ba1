// Runs TinySolver on seeded functions and records every call of the function
// and the outcome, for TinySolverTrace.tla.  One scenario (a solver object used
// for one to three solves) per line: "kind seed".
#include <cmath>
#include <iostream>
#include <memory>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/cost_function.h"
#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
#include "drv.h"
using namespace drv;
using namespace ceres;

namespace {
// r_i = c_i + sum a_ij x_j + sum q_ij x_j x_{j+1 or j} (+ k_i sin(x_0)) ; NaN
// beyond `wall` in the first coordinate
struct Fun {
  int m, n;
  bool cross, sine;
  double wall;
  std::vector<double> c, a, q, k;
  Fun() {}
  Fun(Rng& r, int m_, int n_) : m(m_), n(n_) {
    cross = r.chance(40);
    sine = r.chance(30);
    wall = r.chance(12) ? r.real(0.5, 4) : 1e300;
    bool lin = r.chance(20), zero = r.chance(10);
    double scale = r.chance(25) ? std::pow(10.0, r.range(-3, 4)) : 1;
    for (int i = 0; i < m; ++i) {
      c.push_back(r.real(-3, 3) * (r.chance(15) ? 0 : scale));
      k.push_back(r.real(-2, 2));
      for (int j = 0; j < n; ++j) {
        a.push_back(r.real(-2, 2) * scale * (j == 0 && r.chance(15) ? 100 : 1));
        q.push_back(lin ? 0 : r.real(-1, 1) * scale);
      }
    }
    if (zero) {  // a column the residuals do not depend on
      int j = r.below(n);
      for (int i = 0; i < m; ++i) a[i * n + j] = q[i * n + j] = 0;
      cross = sine = false;
    }
  }
  template <typename T>
  void Eval(const T* x, T* r) const {
    using std::sin;
    for (int i = 0; i < m; ++i) {
      T s = T(c[i]);
      for (int j = 0; j < n; ++j)
        s += a[i * n + j] * x[j] + q[i * n + j] * x[j] * x[cross ? (j + 1) % n : j];
      if (sine) s += k[i] * sin(x[0]);
      if (x[0] > T(wall)) s = s * T(std::nan(""));
      r[i] = s;
    }
  }
  // row major
  void Jac(const double* x, double* J) const {
    for (int i = 0; i < m; ++i) {
      for (int j = 0; j < n; ++j) J[i * n + j] = a[i * n + j];
      for (int j = 0; j < n; ++j) {
        int h = cross ? (j + 1) % n : j;
        J[i * n + j] += q[i * n + j] * x[h];
        J[i * n + h] += q[i * n + j] * x[j];
      }
      if (sine) J[i * n] += k[i] * std::cos(x[0]);
      if (x[0] > wall)
        for (int j = 0; j < n; ++j) J[i * n + j] = std::nan("");
    }
  }
};

struct Log {
  Arr ev;
  int calls = 0;
  bool on = true;
};
Log* g_log = nullptr;

std::string Mat(const double* J, int m, int n, bool colmajor) {
  Arr a;
  for (int i = 0; i < m; ++i) {
    Arr row;
    for (int j = 0; j < n; ++j) row.add(D(colmajor ? J[j * m + i] : J[i * n + j]));
    a.add(row.str());
  }
  return a.str();
}

// a function object that is asked by the solver: Inner does the work, what it
// answers and what is true are both recorded
template <typename Inner>
struct Logged {
  using Scalar = double;
  enum { NUM_RESIDUALS = Inner::NUM_RESIDUALS, NUM_PARAMETERS = Inner::NUM_PARAMETERS };
  const Inner& f;
  const Fun& truth;
  int NumResiduals() const { return truth.m; }
  int NumParameters() const { return truth.n; }
  bool operator()(const double* x, double* r, double* J) const {
    bool ok = f(x, r, J);
    if (g_log && g_log->on) {
      std::vector<double> tr(truth.m), tj(truth.m * truth.n);
      truth.Eval(x, tr.data());
      truth.Jac(x, tj.data());
      Obj o;
      o.add("op", S("F")).add("x", DblsN(x, truth.n)).add("j", B(J != nullptr)).add("r", DblsN(r, truth.m)).add("tr", Dbls(tr));
      if (J) o.add("J", Mat(J, truth.m, truth.n, true)).add("tJ", Mat(tj.data(), truth.m, truth.n, false));
      g_log->ev.add(o.str());
      ++g_log->calls;
    }
    return ok;
  }
};

template <int M, int N>
struct Plain {
  enum { NUM_RESIDUALS = M, NUM_PARAMETERS = N };
  const Fun& f;
  bool operator()(const double* x, double* r, double* J) const {
    f.Eval(x, r);
    if (J) {
      std::vector<double> R(f.m * f.n);
      f.Jac(x, R.data());
      for (int i = 0; i < f.m; ++i)
        for (int j = 0; j < f.n; ++j) J[j * f.m + i] = R[i * f.n + j];
    }
    return true;
  }
};
struct Cost : CostFunction {
  const Fun& f;
  explicit Cost(const Fun& g) : f(g) {
    set_num_residuals(f.m);
    mutable_parameter_block_sizes()->push_back(f.n);
  }
  bool Evaluate(double const* const* x, double* r, double** J) const override {
    f.Eval(x[0], r);
    if (J && J[0]) f.Jac(x[0], J[0]);
    return true;
  }
};
struct Functor {
  const Fun& f;
  int NumResiduals() const { return f.m; }
  template <typename T>
  bool operator()(const T* const x, T* r) const {
    f.Eval(x, r);
    return true;
  }
};

template <typename Solver>
void Options(Rng& r, Solver& s, Obj& o) {
  auto& p = s.options;
  p.max_num_iterations = r.chance(15) ? r.range(0, 3) : r.range(4, 40);
  p.gradient_tolerance = r.pick(std::vector<double>{1e-10, 1e-10, 1e-4, 0.1, 1e-14});
  p.parameter_tolerance = r.pick(std::vector<double>{1e-8, 1e-8, 1e-3, 0.1, 1e-12});
  p.function_tolerance = r.pick(std::vector<double>{1e-6, 1e-6, 1e-2, 0.2, 1e-10});
  p.cost_threshold = r.pick(std::vector<double>{2.2e-16, 2.2e-16, 1e-3, 1});
  p.initial_trust_region_radius = r.pick(std::vector<double>{1e4, 1e4, 1, 1e-2, 1e8});
  o.add("maxit", I(p.max_num_iterations))
      .add("gtol", D(p.gradient_tolerance))
      .add("ptol", D(p.parameter_tolerance))
      .add("ftol", D(p.function_tolerance))
      .add("cthr", D(p.cost_threshold))
      .add("radius", D(p.initial_trust_region_radius));
}
const char* kStatus[] = {"GRADIENT", "STEP", "COST", "MAX", "CHANGE"};

// one solve with an existing solver, and the same with a fresh one
template <typename F, typename Solver>
void Run(Rng& r, Solver& s, const F& f, const Fun& truth, Log& log) {
  Obj o;
  o.add("op", S("S")).add("n", I(truth.n)).add("m", I(truth.m));
  Options(r, s, o);
  typename Solver::ParameterVector x(truth.n);
  for (int i = 0; i < truth.n; ++i) x[i] = r.chance(15) ? r.range(-2, 2) : r.real(-3, 3);
  if (x[0] > truth.wall && r.chance(80)) x[0] = truth.wall - r.real(0, 1);
  o.add("x0", DblsN(x.data(), truth.n));
  log.ev.add(o.str());
  typename Solver::ParameterVector x0 = x;
  auto sum = s.Solve(f, &x);
  typename Solver::ResidualVector res = s.Residuals();
  typename Solver::JacobianMatrix J = s.Jacobian();
  // the same from a fresh object
  log.on = false;
  auto fresh = std::make_unique<Solver>();
  fresh->options = s.options;
  typename Solver::ParameterVector y = x0;
  auto sum2 = fresh->Solve(f, &y);
  log.on = true;
  auto same = [](const auto& a, const auto& b) {
    return a.size() == b.size() && std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0;
  };
  auto eq = [](double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (a != a && b != b); };
  typename Solver::ResidualVector res2 = fresh->Residuals();
  typename Solver::JacobianMatrix J2 = fresh->Jacobian();
  bool alike = same(x, y) && eq(sum.final_cost, sum2.final_cost) && eq(sum.initial_cost, sum2.initial_cost) &&
               eq(sum.gradient_max_norm, sum2.gradient_max_norm) && sum.iterations == sum2.iterations &&
               sum.status == sum2.status && (truth.wall < 1e299 || (same(res, res2) && same(J, J2)));
  std::vector<double> jc(J.rows() * J.cols());
  for (int j = 0; j < J.cols(); ++j)
    for (int i = 0; i < J.rows(); ++i) jc[j * J.rows() + i] = J(i, j);
  log.ev.add(Obj()
                 .add("op", S("E"))
                 .add("x", DblsN(x.data(), truth.n))
                 .add("status", S(kStatus[int(sum.status) == int(Solver::GRADIENT_TOO_SMALL)             ? 0
                                          : int(sum.status) == int(Solver::RELATIVE_STEP_SIZE_TOO_SMALL) ? 1
                                          : int(sum.status) == int(Solver::COST_TOO_SMALL)               ? 2
                                          : int(sum.status) == int(Solver::HIT_MAX_ITERATIONS)           ? 3
                                                                                                         : 4]))
                 .add("iters", I(sum.iterations))
                 .add("initial", D(sum.initial_cost))
                 .add("final", D(sum.final_cost))
                 .add("gmax", D(sum.gradient_max_norm))
                 .add("r", DblsN(res.data(), int(res.size())))
                 .add("J", Mat(jc.data(), int(J.rows()), int(J.cols()), true))
                 .add("fresh", B(alike))
                 .str());
}

template <int M, int N>
void PlainCase(Rng& r, Log& log) {
  TinySolver<Logged<Plain<M, N>>> s;
  for (int i = r.range(1, 3); i > 0; --i) {
    Fun f(r, M > 0 ? M : r.range(1, 5), N > 0 ? N : r.range(1, 4));
    Plain<M, N> p{f};
    Logged<Plain<M, N>> g{p, f};
    Run(r, s, g, f, log);
  }
}
template <int M, int N>
void MaxCase(Rng& r, Log& log) {
  TinySolver<Logged<Plain<Eigen::Dynamic, Eigen::Dynamic>>, M, N> s;
  for (int i = r.range(1, 3); i > 0; --i) {
    Fun f(r, r.range(1, M), r.range(1, N));
    Plain<Eigen::Dynamic, Eigen::Dynamic> p{f};
    Logged<Plain<Eigen::Dynamic, Eigen::Dynamic>> g{p, f};
    Run(r, s, g, f, log);
  }
}
template <int M, int N>
void AdapterCase(Rng& r, Log& log) {
  using A = TinySolverCostFunctionAdapter<M, N>;
  TinySolver<Logged<A>> s;
  for (int i = r.range(1, 2); i > 0; --i) {
    Fun f(r, M > 0 ? M : r.range(1, 5), N > 0 ? N : r.range(1, 4));
    Cost c(f);
    A a(c);
    Logged<A> g{a, f};
    Run(r, s, g, f, log);
  }
}
template <int M, int N>
void AutoCase(Rng& r, Log& log) {
  using A = TinySolverAutoDiffFunction<Functor, M, N>;
  TinySolver<Logged<A>> s;
  for (int i = r.range(1, 2); i > 0; --i) {
    Fun f(r, M > 0 ? M : r.range(1, 5), N);
    Functor c{f};
    A a(c);
    Logged<A> g{a, f};
    Run(r, s, g, f, log);
  }
}
}  // namespace

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    int kind;
    uint64_t seed;
    in >> kind >> seed;
    Rng r(seed);
    Log log;
    g_log = &log;
    switch (kind) {
      case 0: PlainCase<1, 1>(r, log); break;
      case 1: PlainCase<2, 2>(r, log); break;
      case 2: PlainCase<3, 2>(r, log); break;
      case 3: PlainCase<2, 3>(r, log); break;
      case 4: PlainCase<Eigen::Dynamic, 2>(r, log); break;
      case 5: PlainCase<3, Eigen::Dynamic>(r, log); break;
      case 6: PlainCase<Eigen::Dynamic, Eigen::Dynamic>(r, log); break;
      case 7: MaxCase<5, 4>(r, log); break;
      case 8: AdapterCase<3, 2>(r, log); break;
      case 9: AdapterCase<Eigen::Dynamic, Eigen::Dynamic>(r, log); break;
      case 10: AdapterCase<Eigen::Dynamic, 3>(r, log); break;
      case 11: AutoCase<3, 2>(r, log); break;
      case 12: AutoCase<Eigen::Dynamic, 3>(r, log); break;
      default: std::exit(3);
    }
    std::cout << Obj().add("kind", I(kind)).add("ev", log.ev.str()).str() << "\n" << std::flush;
  }
}
