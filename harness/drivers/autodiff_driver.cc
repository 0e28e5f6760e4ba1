// Functors that interpret random programs, given to the derivative wrappers;
// what the wrappers return is recorded for DerivativeTrace.tla.
// Input: mode and seed per line.
//   S static shapes    D dynamic (strides)    C cost functions as functors
//   W conditioned, normal prior, first order, manifolds, tiny functions
//   E elementary functions of jets    P corner cases of pow, fmax, ...
#include <cmath>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/autodiff_manifold.h"
#include "ceres/conditioned_cost_function.h"
#include "ceres/cost_function.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "ceres/normal_prior.h"
#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "drv.h"
using namespace drv;
using namespace ceres;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0"; }

// ------------------------------------------------------------- programs
struct Ins {
  std::string o;
  int a = 0, b = 0, c = 0, d = 0;
  double k = 0;
};
struct Prog {
  int nx = 0;
  bool exact = true;
  std::vector<Ins> ins;
  std::vector<int> out;
  int guard = -1;         // the functor fails when this register is above limit
  double limit = 0;
  std::string str() const {
    Arr a;
    for (auto& i : ins) a.add(Arr().add(S(i.o)).add(I(i.a)).add(I(i.b)).add(I(i.c)).add(I(i.d)).add(D(i.k)).str());
    return Obj().add("nx", I(nx)).add("exact", B(exact)).add("ins", a.str()).add("out", Ints(out)).add("guard", I(guard)).add("limit", D(limit)).str();
  }
};
static bool operator==(const Ins& a, const Ins& b) { return a.o == b.o && a.a == b.a && a.b == b.b && a.k == b.k; }

// A dual number of our own, ring operations only, for analytic cost functions.
struct Du {
  double a = 0;
  std::vector<double> v;
  Du() {}
  explicit Du(double x) : a(x) {}
  static std::vector<double> lin(double p, const std::vector<double>& x, double q, const std::vector<double>& y) {
    std::vector<double> r(std::max(x.size(), y.size()), 0.0);
    for (size_t i = 0; i < x.size(); ++i) r[i] += p * x[i];
    for (size_t i = 0; i < y.size(); ++i) r[i] += q * y[i];
    return r;
  }
};
static Du operator+(const Du& x, const Du& y) { Du r(x.a + y.a); r.v = Du::lin(1, x.v, 1, y.v); return r; }
static Du operator-(const Du& x, const Du& y) { Du r(x.a - y.a); r.v = Du::lin(1, x.v, -1, y.v); return r; }
static Du operator*(const Du& x, const Du& y) { Du r(x.a * y.a); r.v = Du::lin(y.a, x.v, x.a, y.v); return r; }
static Du operator-(const Du& x) { return Du(0.0) - x; }
static Du operator+(const Du& x, double y) { return x + Du(y); }
static Du operator-(const Du& x, double y) { return x - Du(y); }
static Du operator*(const Du& x, double y) { return x * Du(y); }
static Du operator+(double x, const Du& y) { return Du(x) + y; }
static Du operator-(double x, const Du& y) { return Du(x) - y; }
static Du operator*(double x, const Du& y) { return Du(x) * y; }
static Du& operator+=(Du& x, const Du& y) { return x = x + y; }
static Du& operator-=(Du& x, const Du& y) { return x = x - y; }
static Du& operator*=(Du& x, const Du& y) { return x = x * y; }
static bool operator<(const Du& x, const Du& y) { return x.a < y.a; }
static bool operator<=(const Du& x, const Du& y) { return x.a <= y.a; }
static bool operator>(const Du& x, const Du& y) { return x.a > y.a; }
static bool operator>=(const Du& x, const Du& y) { return x.a >= y.a; }
static bool operator==(const Du& x, const Du& y) { return x.a == y.a; }
static bool operator!=(const Du& x, const Du& y) { return x.a != y.a; }

template <class T>
bool Ring(const Ins& i, const std::vector<T>& r, T* y) {
  const T &a = r[i.a], &b = r[i.b];
  if (i.o == "add") *y = a + b;
  else if (i.o == "sub") *y = a - b;
  else if (i.o == "mul") *y = a * b;
  else if (i.o == "neg") *y = -a;
  else if (i.o == "addc") *y = a + i.k;
  else if (i.o == "subc") *y = a - i.k;
  else if (i.o == "csub") *y = i.k - a;
  else if (i.o == "cadd") *y = i.k + a;
  else if (i.o == "mulc") *y = a * i.k;
  else if (i.o == "cmul") *y = i.k * a;
  else if (i.o == "iadd") { *y = a; *y += b; }
  else if (i.o == "isub") { *y = a; *y -= b; }
  else if (i.o == "imul") { *y = a; *y *= b; }
  else if (i.o == "const") *y = T(i.k);
  else if (i.o == "lt") *y = a < b ? r[i.c] : r[i.d];
  else if (i.o == "le") *y = a <= b ? r[i.c] : r[i.d];
  else if (i.o == "gt") *y = a > b ? r[i.c] : r[i.d];
  else if (i.o == "ge") *y = a >= b ? r[i.c] : r[i.d];
  else if (i.o == "eq") *y = a == b ? r[i.c] : r[i.d];
  else if (i.o == "ne") *y = a != b ? r[i.c] : r[i.d];
  else return false;
  return true;
}
template <class T>
void Elementary(const Ins& i, const std::vector<T>& r, T* y) {
  using namespace std;
  using namespace ceres;
  const T &a = r[i.a], &b = r[i.b], &c = r[i.c];
  if (i.o == "div") *y = a / b;
  else if (i.o == "divc") *y = a / i.k;
  else if (i.o == "cdiv") *y = i.k / a;
  else if (i.o == "idiv") { *y = a; *y /= b; }
  else if (i.o == "abs") *y = abs(a);
  else if (i.o == "log") *y = log(a);
  else if (i.o == "log10") *y = log10(a);
  else if (i.o == "log1p") *y = log1p(a);
  else if (i.o == "log2") *y = log2(a);
  else if (i.o == "exp") *y = exp(a);
  else if (i.o == "exp2") *y = exp2(a);
  else if (i.o == "expm1") *y = expm1(a);
  else if (i.o == "sqrt") *y = sqrt(a);
  else if (i.o == "cbrt") *y = cbrt(a);
  else if (i.o == "sin") *y = sin(a);
  else if (i.o == "cos") *y = cos(a);
  else if (i.o == "tan") *y = tan(a);
  else if (i.o == "asin") *y = asin(a);
  else if (i.o == "acos") *y = acos(a);
  else if (i.o == "atan") *y = atan(a);
  else if (i.o == "sinh") *y = sinh(a);
  else if (i.o == "cosh") *y = cosh(a);
  else if (i.o == "tanh") *y = tanh(a);
  else if (i.o == "floor") *y = floor(a);
  else if (i.o == "ceil") *y = ceil(a);
  else if (i.o == "norm") *y = norm(a);
  else if (i.o == "erf") *y = erf(a);
  else if (i.o == "erfc") *y = erfc(a);
  else if (i.o == "atan2") *y = atan2(a, b);
  else if (i.o == "hypot") *y = hypot(a, b);
  else if (i.o == "hypot3") *y = hypot(a, b, c);
  else if (i.o == "fma") *y = fma(a, b, c);
  else if (i.o == "fmax") *y = fmax(a, b);
  else if (i.o == "fmin") *y = fmin(a, b);
  else if (i.o == "fdim") *y = fdim(a, b);
  else if (i.o == "copysign") *y = copysign(a, b);
  else if (i.o == "pow") *y = pow(a, b);
  else if (i.o == "powc") *y = pow(a, i.k);
  else if (i.o == "cpow") *y = pow(i.k, a);
}
template <class T>
struct Full {
  static void ins(const Ins& i, const std::vector<T>& r, T* y) { if (!Ring(i, r, y)) Elementary(i, r, y); }
};
template <>
struct Full<Du> {
  static void ins(const Ins& i, const std::vector<Du>& r, Du* y) { Ring(i, r, y); }
};
// Big jets and the like: ring operations only.
template <class T, bool kElementary>
bool Interpret(const Prog& p, const T* x, T* out) {
  std::vector<T> r(x, x + p.nx);
  for (auto& i : p.ins) {
    T y{};
    if constexpr (kElementary) Full<T>::ins(i, r, &y);
    else Ring(i, r, &y);
    r.push_back(y);
  }
  if (p.guard >= 0 && r[p.guard] > T(p.limit)) return false;
  for (size_t i = 0; i < p.out.size(); ++i) out[i] = r[p.out[i]];
  return true;
}

// ---------------------------------------------------------------- functors
template <bool kElementary, int... Ns>
struct F {
  Prog p;
  template <class... P>
  bool operator()(const P*... ptr) const {
    return call(ptr...);
  }
  template <class T, class... P>
  bool call(const T* first, const P*... rest) const {
    const T* all[] = {first, rest...};
    const int sizes[] = {Ns...};
    std::vector<T> x;
    for (size_t b = 0; b < sizeof...(Ns); ++b) x.insert(x.end(), all[b], all[b] + sizes[b]);
    return Interpret<T, kElementary>(p, x.data(), const_cast<T*>(all[sizeof...(Ns)]));
  }
};
struct Dyn {
  Prog p;
  std::vector<int> sizes;
  template <class T>
  bool operator()(T const* const* x, T* r) const {
    std::vector<T> v;
    for (size_t b = 0; b < sizes.size(); ++b) v.insert(v.end(), x[b], x[b] + sizes[b]);
    return Interpret<T, false>(p, v.data(), r);
  }
};
// An analytic cost function.
struct Analytic : public CostFunction {
  Prog p;
  Analytic(const Prog& q, const std::vector<int>& sizes) : p(q) {
    set_num_residuals(q.out.size());
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* x, double* r, double** J) const override {
    std::vector<Du> v;
    const auto& sz = parameter_block_sizes();
    for (size_t b = 0; b < sz.size(); ++b)
      for (int j = 0; j < sz[b]; ++j) v.push_back(Du(x[b][j]));
    for (size_t i = 0; i < v.size(); ++i) {
      v[i].v.assign(v.size(), 0.0);
      v[i].v[i] = 1;
    }
    std::vector<Du> y(num_residuals());
    if (!Interpret<Du, false>(p, v.data(), y.data())) return false;
    for (int i = 0; i < num_residuals(); ++i) {
      r[i] = y[i].a;
      y[i].v.resize(v.size(), 0.0);
    }
    if (J) {
      int at = 0;
      for (size_t b = 0; b < sz.size(); at += sz[b], ++b)
        if (J[b])
          for (int i = 0; i < num_residuals(); ++i)
            for (int j = 0; j < sz[b]; ++j) J[b][i * sz[b] + j] = y[i].v[at + j];
    }
    return true;
  }
};
// pre(x) are the arguments of the inner function, post(x, inner) the result
struct Nest {
  Prog pre, inner, post;
  Prog flat() const {
    Prog p;
    p.nx = pre.nx;
    p.ins = pre.ins;
    std::vector<int> map;
    auto add = [&](const Prog& q) {
      for (auto i : q.ins) {
        auto f = [&](int r) { return r < (int)map.size() ? map[r] : 0; };
        i.a = f(i.a); i.b = f(i.b); i.c = f(i.c); i.d = f(i.d);
        p.ins.push_back(i);
        map.push_back(p.nx + p.ins.size() - 1);
      }
    };
    map = pre.out;
    add(inner);
    auto in = map;
    p.guard = inner.guard < 0 ? -1 : in[inner.guard];
    p.limit = inner.limit;
    map.clear();
    for (int i = 0; i < p.nx; ++i) map.push_back(i);
    for (int o : inner.out) map.push_back(in[o]);
    add(post);
    for (int o : post.out) p.out.push_back(map[o]);
    return p;
  }
};
template <class Call, class T>
bool RunNest(const Nest& n, const T* x, T* r, Call call) {
  std::vector<T> a(n.pre.out.size());
  Interpret<T, false>(n.pre, x, a.data());
  std::vector<T> v(x, x + n.pre.nx);
  std::vector<T> y(n.inner.out.size());
  if (!call(a.data(), y.data())) return false;
  v.insert(v.end(), y.begin(), y.end());
  return Interpret<T, false>(n.post, v.data(), r);
}
struct NestDyn {
  Nest n;
  std::vector<int> sizes, inner_sizes;
  std::shared_ptr<DynamicCostFunctionToFunctor> f;
  template <class T>
  bool operator()(T const* const* x, T* r) const {
    std::vector<T> v;
    for (size_t b = 0; b < sizes.size(); ++b) v.insert(v.end(), x[b], x[b] + sizes[b]);
    return RunNest(n, v.data(), r, [&](const T* a, T* y) {
      std::vector<const T*> p;
      for (int s : inner_sizes) {
        p.push_back(a);
        a += s;
      }
      return (*f)(p.data(), y);
    });
  }
};
// inner function with blocks 2 and 1, two results; outer with blocks 2 and 2
struct Nest21 {
  Nest n;
  std::shared_ptr<CostFunctionToFunctor<2, 2, 1>> f;
  template <class T>
  bool operator()(const T* x0, const T* x1, T* r) const {
    T v[4] = {x0[0], x0[1], x1[0], x1[1]};
    return RunNest(n, v, r, [&](const T* a, T* y) { return (*f)(a, a + 2, y); });
  }
};
// one block of 3, three results, dynamic; outer with one block of 3
struct Nest3 {
  Nest n;
  std::shared_ptr<CostFunctionToFunctor<DYNAMIC, 3>> f;
  template <class T>
  bool operator()(const T* x0, T* r) const {
    return RunNest(n, x0, r, [&](const T* a, T* y) { return (*f)(a, y); });
  }
};
template <int A, int T_>
struct ManifoldF {
  Prog plus, minus;
  template <class T>
  bool Plus(const T* x, const T* d, T* y) const {
    std::vector<T> v(x, x + A);
    v.insert(v.end(), d, d + T_);
    return Interpret<T, false>(plus, v.data(), y);
  }
  template <class T>
  bool Minus(const T* y, const T* x, T* d) const {
    std::vector<T> v(y, y + A);
    v.insert(v.end(), x, x + A);
    return Interpret<T, false>(minus, v.data(), d);
  }
};
template <int R, int P>
struct TinyF {
  Prog p;
  using Scalar = double;
  enum { NUM_RESIDUALS = R, NUM_PARAMETERS = P };
  int NumResiduals() const { return p.out.size(); }
  template <class T>
  bool operator()(const T* x, T* r) const { return Interpret<T, false>(p, x, r); }
};

struct Guarded {
  std::vector<double> v;
  explicit Guarded(int n) : v(n + 4, 12345.5) {}
  double* p() { return v.data() + 2; }
  int n() const { return int(v.size()) - 4; }
  bool ok() const { return v[0] == 12345.5 && v[1] == 12345.5 && v[v.size() - 1] == 12345.5 && v[v.size() - 2] == 12345.5; }
  std::string str() { return DblsN(p(), n()); }
};

struct Run {
  Rng r;
  Arr ev;
  std::vector<std::vector<double>> points;
  explicit Run(char mode, uint64_t s) : r(s * 8 + (mode == 'S' ? 0 : mode == 'D' ? 1 : mode == 'C' ? 2 : mode == 'W' ? 3 : 4)) {}

  static int Sum(const std::vector<int>& s) {
    int n = 0;
    for (int x : s) n += x;
    return n;
  }
  void choose_points(int nx, bool exact, int n = 3) {
    points.clear();
    for (int k = 0; k < n; ++k) {
      std::vector<double> x;
      for (int i = 0; i < nx; ++i) x.push_back(exact ? r.range(-3, 3) : r.real(-2, 2));
      points.push_back(x);
    }
  }
  // a random program of nx inputs and m outputs
  Prog prog(int nx, int m, int len, bool may_fail = true) {
    Prog p;
    p.nx = nx;
    std::vector<double> bound(nx, 3.0);
    static const std::vector<std::string> ops = {"add", "sub", "mul", "mul", "mul", "neg", "addc", "subc", "csub", "cadd", "mulc", "cmul", "iadd", "isub", "imul", "const", "lt", "le", "gt", "ge", "eq", "ne"};
    while ((int)p.ins.size() < len) {
      Ins i;
      i.o = r.pick(ops);
      const int n = bound.size();
      // prefer registers that have not been used
      auto reg = [&] { return r.chance(45) ? n - 1 - r.below(std::min(n, 4)) : r.below(n); };
      i.a = reg(); i.b = reg(); i.c = reg(); i.d = reg();
      i.k = r.range(-3, 3);
      double bd;
      if (i.o == "mul" || i.o == "imul") bd = bound[i.a] * bound[i.b];
      else if (i.o == "mulc" || i.o == "cmul") bd = 3 * bound[i.a];
      else if (i.o.size() == 2) bd = std::max(bound[i.c], bound[i.d]);
      else bd = bound[i.a] + std::max(bound[i.b], 3.0);
      if (bd > 2e6) continue;
      p.ins.push_back(i);
      bound.push_back(bd);
    }
    for (int k = 0; k < m; ++k) p.out.push_back(r.chance(75) ? nx + len - 1 - r.below(std::min(len, m + 2)) : r.below(nx + len));
    if (may_fail && r.chance(20)) {
      p.guard = r.below(nx + len);
      p.limit = r.range(-2, 9) + 0.5;
    }
    return p;
  }
  Prog elementary(int nx, int m, int len) {
    Prog p;
    p.nx = nx;
    p.exact = false;
    std::vector<std::vector<double>> v(points.size());
    for (size_t k = 0; k < points.size(); ++k) v[k] = points[k];
    static const std::vector<std::string> ops = {"add", "sub", "mul", "neg", "addc", "csub", "mulc", "imul", "div", "divc", "cdiv", "idiv", "abs", "log", "log10", "log1p", "log2", "exp", "exp2", "expm1", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "floor", "ceil", "norm", "erf", "erfc", "atan2", "hypot", "hypot3", "fma", "fmax", "fmin", "fdim", "copysign", "pow", "powc", "cpow", "lt", "ge"};
    for (int attempt = 0; (int)p.ins.size() < len && attempt < 4000; ++attempt) {
      Ins i;
      i.o = r.pick(ops);
      const int n = nx + p.ins.size();
      auto reg = [&] { return r.chance(50) ? n - 1 - r.below(std::min(n, 3)) : r.below(n); };
      i.a = reg(); i.b = reg(); i.c = reg(); i.d = reg();
      i.k = i.o == "powc" ? r.pick<double>(std::vector<double>{-2, -1, 0.5, 1, 1.5, 2, 3}) : r.pick<double>(std::vector<double>{-2.5, -1, 0.25, 0.5, 1.5, 2, 3});
      if (i.o == "cpow" && i.k < 0) i.k = -i.k;
      bool ok = true;
      std::vector<double> y(points.size());
      for (size_t k = 0; k < points.size() && ok; ++k) {
        double a = v[k][i.a], b = v[k][i.b];
        if (i.o == "lt" || i.o == "ge" || i.o == "fmax" || i.o == "fmin" || i.o == "fdim") ok = i.a == i.b ? i.o[0] != 'f' : std::abs(a - b) > 1e-3;
        if (i.o == "abs" || i.o == "copysign" || i.o == "cbrt") ok = std::abs(a) > 1e-2 && std::abs(b) > 1e-2;
        if (i.o == "floor" || i.o == "ceil") ok = std::abs(a - std::round(a)) > 1e-3;
        if (i.o == "sqrt" || i.o == "log" || i.o == "log10" || i.o == "log2") ok = a > 1e-2;
        if (i.o == "log1p") ok = a > -0.95;
        if (i.o == "asin" || i.o == "acos") ok = std::abs(a) < 0.95;
        if (i.o == "tan") ok = std::abs(std::cos(a)) > 0.1;
        if (i.o == "pow") ok = a > 0.05;
        if (i.o == "powc") ok = std::abs(a) > 0.05 && (a > 0 || i.k == std::floor(i.k));
        if (i.o == "hypot" || i.o == "atan2" || i.o == "hypot3") ok = std::abs(a) + std::abs(b) > 0.05;
        if (i.o.find("div") != std::string::npos) ok = i.o == "divc" || std::abs(i.o == "cdiv" ? a : b) > 0.05;
        if (!ok) break;
        Full<double>::ins(i, v[k], &y[k]);
        ok = std::isfinite(y[k]) && std::abs(y[k]) < 50;
      }
      if (!ok) continue;
      p.ins.push_back(i);
      for (size_t k = 0; k < points.size(); ++k) v[k].push_back(y[k]);
    }
    const int n = p.ins.size();
    for (int k = 0; k < m; ++k) p.out.push_back(n == 0 ? r.below(nx) : nx + n - 1 - r.below(std::min(n, m + 1)));
    return p;
  }

  void put(const char* name, Obj& o) { ev.add(Obj().add("ev", S(name)).s + (o.first ? "}" : "," + o.s.substr(1) + "}")); }

  // Evaluates f with every point and several sets of Jacobians.
  void evaluate(const CostFunction& f, const std::vector<int>& sizes) {
    const int m = f.num_residuals(), nb = sizes.size();
    for (auto& x : points) {
      const int tries = r.range(1, 2);
      for (int t = 0; t < tries; ++t) {
        std::vector<std::unique_ptr<double[]>> own;
        std::vector<const double*> px;
        int at = 0;
        for (int s : sizes) {
          own.emplace_back(new double[s]);
          std::copy_n(x.begin() + at, s, own.back().get());
          px.push_back(own.back().get());
          at += s;
        }
        const int want = r.pick<int>(std::vector<int>{0, 1, 2, 2, 2, 3});   // nothing, all, some, none of them
        std::vector<int> mask(nb, want == 1);
        if (want == 2)
          for (auto& k : mask) k = r.chance(55);
        Guarded res(m);
        std::vector<Guarded> J;
        for (int s : sizes) J.emplace_back(m * s);
        std::vector<double*> pj;
        for (int b = 0; b < nb; ++b) pj.push_back(mask[b] ? J[b].p() : nullptr);
        const bool ok = f.Evaluate(px.data(), res.p(), want == 0 ? nullptr : pj.data());
        bool g = res.ok();
        Arr jj;
        for (int b = 0; b < nb; ++b) {
          g = g && J[b].ok();
          if (!mask[b] || want == 0)
            for (double v : J[b].v) g = g && v == 12345.5;
          jj.add(ok && mask[b] && want ? J[b].str() : "[]");
        }
        at = 0;
        for (int b = 0; b < nb; ++b)
          for (int j = 0; j < sizes[b]; ++j) g = g && px[b][j] == x[at++];
        Obj o;
        o.add("x", Dbls(x)).add("n", Ints(sizes)).add("mask", want ? Ints(mask) : Ints(std::vector<int>(nb, 0))).add("ok", B(ok)).add("g", B(g)).add("r", ok ? res.str() : "[]").add("j", jj.str());
        put("eval", o);
      }
    }
  }
  void fun(const Prog& p) {
    Obj o;
    o.add("p", p.str());
    put("fun", o);
  }

  template <bool El, int R, int... Ns>
  void shape() {
    std::vector<int> sizes = {Ns...};
    const int nx = Sum(sizes), m = R == DYNAMIC ? r.pick<int>(std::vector<int>{1, 2, 5, 20, 21, 24}) : R;
    choose_points(nx, !El);
    using Fu = F<El, Ns...>;
    auto* f = new Fu{El ? elementary(nx, m, r.range(3, 14)) : prog(nx, m, r.range(2, 12))};
    Prog p = f->p;
    fun(p);
    if constexpr (R == DYNAMIC) {
      AutoDiffCostFunction<Fu, R, Ns...> c(f, m);
      evaluate(c, sizes);
    } else {
      AutoDiffCostFunction<Fu, R, Ns...> c(f);
      evaluate(c, sizes);
    }
  }
  void statics() {
    switch (r.below(14)) {
      case 0: return shape<false, 1, 1>();
      case 1: return shape<false, 2, 3>();
      case 2: return shape<false, 3, 2, 1>();
      case 3: return shape<false, 1, 1, 2, 3>();
      case 4: return shape<false, 4, 2, 2, 2>();
      case 5: return shape<false, 2, 1, 1, 1, 1, 1>();
      case 6: return shape<false, DYNAMIC, 2, 3>();
      case 7: return shape<false, DYNAMIC, 4>();
      case 8: return shape<false, 2, 4, 1, 3, 2>();
      case 9: return shape<false, 2, 1, 2, 1, 2, 1, 2, 1, 1, 1, 1>();
      case 10: return shape<false, 21, 2, 1>();
      case 11: return shape<false, 2, 30, 22>();
      case 12: return shape<false, 3, 1, 1>();
      default: return shape<false, 2, 3, 3>();
    }
  }
  template <int Stride>
  void stride() {
    std::vector<int> sizes;
    for (int k = r.range(1, 6); k > 0; --k) sizes.push_back(r.range(1, 4));
    const int nx = Sum(sizes), m = r.range(1, 4);
    choose_points(nx, true);
    auto* f = new Dyn{prog(nx, m, r.range(2, 12)), sizes};
    fun(f->p);
    DynamicAutoDiffCostFunction<Dyn, Stride> c(f);
    for (int s : sizes) c.AddParameterBlock(s);
    c.SetNumResiduals(m);
    evaluate(c, sizes);
  }
  void dynamics() {
    switch (r.below(6)) {
      case 0: return stride<1>();
      case 1: return stride<2>();
      case 2: return stride<3>();
      case 3: return stride<4>();
      case 4: return stride<5>();
      default: return stride<8>();
    }
  }
  void nests() {
    Nest n;
    const int kind = r.below(3);
    std::vector<int> sizes, inner;
    int m, mi;
    if (kind == 0) {
      sizes = {2, 2}; inner = {2, 1}; m = 2; mi = 2;
    } else if (kind == 1) {
      sizes = {3}; inner = {3}; m = 2; mi = 3;
    } else {
      for (int k = r.range(1, 3); k > 0; --k) sizes.push_back(r.range(1, 3));
      for (int k = r.range(1, 4); k > 0; --k) inner.push_back(r.range(1, 3));
      m = r.range(1, 3);
      mi = r.range(1, 3);
    }
    const int nx = Sum(sizes);
    choose_points(nx, true);
    auto small = [&](int a, int b, int len, bool fail) { return prog(a, b, len, fail); };
    n.pre = small(nx, Sum(inner), 3, false);
    n.inner = small(Sum(inner), mi, r.range(2, 4), true);
    n.post = small(nx + mi, m, r.range(2, 4), false);
    // keep the numbers exact: bounded over the whole composition
    Prog flat = n.flat();
    flat.exact = true;
    {
      std::vector<double> bound(nx, 3.0);
      for (auto& i : flat.ins) {
        double bd = (i.o == "mul" || i.o == "imul") ? bound[i.a] * bound[i.b] : (i.o == "mulc" || i.o == "cmul") ? 3 * bound[i.a] : i.o.size() == 2 ? std::max(bound[i.c], bound[i.d]) : bound[i.a] + std::max(bound[i.b], 3.0);
        bound.push_back(bd);
        if (bd > 1e12) return;
      }
    }
    fun(flat);
    auto* a = new Analytic(n.inner, inner);
    if (kind == 0) {
      auto* f = new Nest21{n, std::make_shared<CostFunctionToFunctor<2, 2, 1>>(a)};
      AutoDiffCostFunction<Nest21, 2, 2, 2> c(f);
      evaluate(c, sizes);
    } else if (kind == 1) {
      auto* f = new Nest3{n, std::make_shared<CostFunctionToFunctor<DYNAMIC, 3>>(a)};
      AutoDiffCostFunction<Nest3, 2, 3> c(f);
      evaluate(c, sizes);
    } else {
      auto* f = new NestDyn{n, sizes, inner, std::make_shared<DynamicCostFunctionToFunctor>(a)};
      DynamicAutoDiffCostFunction<NestDyn, 3> c(f);
      for (int s : sizes) c.AddParameterBlock(s);
      c.SetNumResiduals(m);
      evaluate(c, sizes);
    }
  }
  void conditioned() {
    std::vector<int> sizes;
    for (int k = r.range(1, 4); k > 0; --k) sizes.push_back(r.range(1, 3));
    const int nx = Sum(sizes), m = r.range(1, 5);
    choose_points(nx, true);
    Prog p = prog(nx, m, r.range(2, 6));
    std::vector<CostFunction*> c;
    std::vector<Prog> cp;
    Arr co;
    std::vector<std::unique_ptr<CostFunction>> keep;
    const bool take = r.chance(50);
    for (int i = 0; i < m; ++i) {
      const int w = r.below(4);
      if (w == 0) {
        c.push_back(nullptr);
        cp.push_back(Prog());
        co.add("[]");
      } else if (w == 1 && i > 0 && c[i - 1]) {
        c.push_back(c[i - 1]);       // conditioners can repeat
        cp.push_back(cp[i - 1]);
        co.add("[" + cp.back().str() + "]");
      } else {
        Prog q = prog(1, 1, r.range(1, 2));
        c.push_back(new Analytic(q, {1}));
        cp.push_back(q);
        co.add("[" + q.str() + "]");
        if (!take) keep.emplace_back(c.back());
      }
    }
    Obj o;
    o.add("p", p.str()).add("c", co.str());
    put("cond", o);
    auto* w = new Analytic(p, sizes);
    {
      ConditionedCostFunction f(w, c, take ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP);
      evaluate(f, sizes);
    }
    if (!take) delete w;
  }
  void prior() {
    const int n = r.range(1, 5), m = r.range(1, 5);
    choose_points(n, true);
    Matrix A(m, n);
    Vector b(n);
    Arr rows;
    for (int i = 0; i < m; ++i) {
      Arr row;
      for (int j = 0; j < n; ++j) {
        A(i, j) = r.range(-3, 3);
        row.add(D(A(i, j)));
      }
      rows.add(row.str());
    }
    for (int j = 0; j < n; ++j) b[j] = r.range(-3, 3);
    Obj o;
    o.add("a", rows.str()).add("b", DblsN(b.data(), n));
    put("prior", o);
    NormalPrior f(A, b);
    evaluate(f, {n});
  }
  template <int N>
  void first() {
    choose_points(N, true);
    Prog p = prog(N, 1, r.range(2, 10));
    fun(p);
    struct One {
      Prog p;
      bool operator()(const double* x, double* c) const { return Interpret<double, false>(p, x, c); }
      bool operator()(const Jet<double, N>* x, Jet<double, N>* c) const { return Interpret<Jet<double, N>, false>(p, x, c); }
    };
    AutoDiffFirstOrderFunction<One, N> f(new One{p});
    for (auto& x : points) {
      const bool grad = r.chance(70);
      Guarded c(1), g(N);
      const bool ok = f.Evaluate(x.data(), c.p(), grad ? g.p() : nullptr);
      Obj o;
      o.add("x", Dbls(x)).add("n", Ints(std::vector<int>{N})).add("mask", Ints(std::vector<int>{grad})).add("ok", B(ok)).add("g", B(c.ok() && g.ok() && f.NumParameters() == N)).add("r", ok ? c.str() : "[]").add("j", Arr().add(ok && grad ? g.str() : "[]").str());
      put("eval", o);
    }
  }
  template <int A, int T>
  void manifold() {
    ManifoldF<A, T> f{prog(A + T, A, r.range(2, 9)), prog(2 * A, T, r.range(2, 9))};
    Obj o;
    o.add("plus", f.plus.str()).add("minus", f.minus.str()).add("a", I(A)).add("t", I(T));
    put("manifold", o);
    AutoDiffManifold<ManifoldF<A, T>, A, T> m(new ManifoldF<A, T>(f));
    for (int k = 0; k < 4; ++k) {
      choose_points(2 * A + T, true, 1);
      const double* x = points[0].data();
      const int what = r.below(4);
      Guarded y(what == 0 ? A : what == 1 ? T : A * T);
      bool ok = what == 0 ? m.Plus(x, x + A, y.p()) : what == 1 ? m.Minus(x, x + A, y.p()) : what == 2 ? m.PlusJacobian(x, y.p()) : m.MinusJacobian(x, y.p());
      Obj q;
      q.add("what", I(what)).add("x", DblsN(x, A)).add("d", DblsN(x + A, T)).add("y", DblsN(x + A, A)).add("ok", B(ok)).add("g", B(y.ok() && m.AmbientSize() == A && m.TangentSize() == T)).add("r", ok ? y.str() : "[]");
      put("mop", q);
    }
  }
  template <int R, int P>
  void tiny() {
    choose_points(P, true);
    const int m = R == Eigen::Dynamic ? r.range(1, 5) : R;
    TinyF<R, P> f{prog(P, m, r.range(2, 9), false)};
    fun(f.p);
    TinySolverAutoDiffFunction<TinyF<R, P>, R, P> t(f);
    for (auto& x : points) {
      const bool jac = r.chance(70);
      Guarded res(m), J(m * P);
      const bool ok = t(x.data(), res.p(), jac ? J.p() : nullptr);
      std::vector<double> row;             // from column major
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < P; ++j) row.push_back(J.p()[j * m + i]);
      Obj o;
      o.add("x", Dbls(x)).add("n", Ints(std::vector<int>{P})).add("mask", Ints(std::vector<int>{jac})).add("ok", B(ok)).add("g", B(res.ok() && J.ok() && t.NumResiduals() == m)).add("r", ok ? res.str() : "[]").add("j", Arr().add(ok && jac ? Dbls(row) : "[]").str());
      put("eval", o);
    }
  }
  void wrappers() {
    switch (r.below(12)) {
      case 0: case 1: case 2: return conditioned();
      case 3: return prior();
      case 4: return first<1>();
      case 5: return first<4>();
      case 6: return manifold<2, 2>();
      case 7: return manifold<3, 2>();
      case 8: return manifold<4, 3>();
      case 9: return tiny<3, 2>();
      case 10: return tiny<Eigen::Dynamic, 3>();
      default: return prior();
    }
  }
  // Jets at the corners of the documentation of pow, fmax, fmin, fdim and of
  // the classification of numbers.
  using J3 = Jet<double, 3>;
  static std::string str(const J3& j) { return Arr().add(D(j.a)).add(DblsN(j.v.data(), 3)).str(); }
  void corners() {
    const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
    const std::vector<double> a{0, 0, 0, 1, 2, 0.5, 3, -1, -2, -0.5, 1.5, -3}, s{0, 0, 1, -2, 0.5, 3};
    for (int k = 0; k < 12; ++k) {
      J3 f(r.pick(a)), g(r.pick(a));
      for (int i = 0; i < 3; ++i) {
        f.v[i] = r.pick(s);
        g.v[i] = r.pick(s);
      }
      if (r.chance(15)) g.v.setZero();
      const int what = r.below(9);
      if (what >= 3) {
        if (r.chance(20)) g.a = f.a;
        if (r.chance(10)) f.a = nan;
        if (r.chance(10)) g.a = nan;
        if (r.chance(8)) f.a = r.chance(50) ? inf : -inf;
        if (r.chance(8)) g.a = r.chance(50) ? inf : -inf;
      }
      J3 y;
      std::string name;
      std::vector<int> c;
      const double ga = g.a, fa = f.a;
      switch (what) {
        case 0: case 1: name = "pow"; y = pow(f, g); break;
        case 2: name = r.chance(50) ? "powc" : "cpow"; y = name == "powc" ? pow(f, ga) : pow(fa, g); break;
        case 3: name = "fmax"; y = fmax(f, g); break;
        case 4: name = "fmin"; y = fmin(f, g); break;
        case 5: name = "fdim"; y = fdim(f, g); break;
        case 6:
          name = r.chance(50) ? "fmax" : "fmin";
          g = J3(ga);
          y = name == "fmax" ? fmax(f, ga) : fmin(f, ga);
          break;
        default:
          name = "class";
          y = f;
          c = {ceres::isnan(f), ceres::isinf(f), ceres::isfinite(f), isless(f, g), isgreater(f, g), islessequal(f, g), isgreaterequal(f, g), islessgreater(f, g), isunordered(f, g), f < g, f <= g, f > g, f >= g, f == g, f != g};
      }
      Obj o;
      o.add("name", S(name)).add("f", str(f)).add("g", str(g)).add("y", str(y)).add("c", Ints(c));
      put("corner", o);
    }
  }
  void elementaries() {
    switch (r.below(3)) {
      case 0: return shape<true, 2, 2>();
      case 1: return shape<true, 3, 1, 2>();
      default: return shape<true, 1, 1>();
    }
  }
};

int main() {
  absl_shim::quiet = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    char mode;
    uint64_t seed;
    in >> mode >> seed;
    Run r(mode, seed);
    switch (mode) {
      case 'S': r.statics(); break;
      case 'D': r.dynamics(); break;
      case 'C': r.nests(); break;
      case 'W': r.wrappers(); break;
      case 'P': r.corners(); break;
      default: r.elementaries();
    }
    std::cout << Obj().add("mode", S(std::string(1, mode))).add("ev", r.ev.str()).str() << "\n" << std::flush;
  }
}
