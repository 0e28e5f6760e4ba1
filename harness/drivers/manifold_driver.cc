// Performs operations of manifolds built from the terms of ManifoldsGen.tla.
// Input: seed, then the term in postfix (see Build).
#include <iostream>
#include <memory>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/line_manifold.h"
#include "ceres/manifold.h"
#include "ceres/product_manifold.h"
#include "ceres/sphere_manifold.h"
#include "drv.h"
using namespace drv;
using namespace ceres;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0"; }

// A manifold whose operations may report failure.
struct Failing : Manifold {
  int n, bits;
  Failing(int n, int bits) : n(n), bits(bits) {}
  int AmbientSize() const override { return n; }
  int TangentSize() const override { return n; }
  bool Plus(const double* x, const double* d, double* y) const override {
    for (int i = 0; i < n; ++i) y[i] = x[i] + d[i];
    return !(bits & 1);
  }
  bool Minus(const double* y, const double* x, double* d) const override {
    for (int i = 0; i < n; ++i) d[i] = y[i] - x[i];
    return !(bits & 2);
  }
  bool PlusJacobian(const double*, double* J) const override {
    for (int i = 0; i < n * n; ++i) J[i] = i % (n + 1) == 0;
    return !(bits & 4);
  }
  bool MinusJacobian(const double*, double* J) const override {
    for (int i = 0; i < n * n; ++i) J[i] = i % (n + 1) == 0;
    return !(bits & 8);
  }
};

struct Term {
  std::shared_ptr<Manifold> m;
  std::string json;
  bool linear = true;
};
std::vector<std::shared_ptr<Manifold>> keep;  // what raw pointers point to

static std::string J1(const char* k) { return Obj().add("k", S(k)).str(); }
static std::string JN(const char* k, int n) { return Obj().add("k", S(k)).add("n", I(n)).str(); }
static std::string JS(int n, const std::vector<int>& c) {
  return Obj().add("k", S("S")).add("n", I(n)).add("c", Ints(c)).str();
}
static std::string JP(const std::vector<std::string>& f) {
  Arr a;
  for (auto& x : f) a.add(x);
  return Obj().add("k", S("P")).add("f", a.str()).str();
}

struct Refused {
  int n;
  std::vector<int> c;
};
static SubsetManifold Sub(int n, const std::vector<int>& c) {
  try {
    return SubsetManifold(n, c);
  } catch (...) {
    throw Refused{n, c};
  }
}
template <int N>
static std::shared_ptr<Manifold> Euclid() {
  return std::make_shared<EuclideanManifold<N>>();
}
static std::shared_ptr<Manifold> MakeE(int n, bool dynamic) {
  if (!dynamic) {
    switch (n) {
      case 0: return Euclid<0>();
      case 1: return Euclid<1>();
      case 2: return Euclid<2>();
      case 3: return Euclid<3>();
      case 4: return Euclid<4>();
    }
  }
  return std::make_shared<EuclideanManifold<DYNAMIC>>(n);
}
template <template <int> class C>
static std::shared_ptr<Manifold> MakeC(int n, bool dynamic) {
  if (!dynamic) {
    switch (n) {
      case 2: return std::make_shared<C<2>>();
      case 3: return std::make_shared<C<3>>();
      case 4: return std::make_shared<C<4>>();
    }
  }
  return std::make_shared<C<DYNAMIC>>(n);
}

// Forwards to a manifold it owns, so that unique pointers can be made of the
// shared ones on the stack.
struct Fwd : Manifold {
  std::shared_ptr<Manifold> m;
  explicit Fwd(std::shared_ptr<Manifold> m) : m(std::move(m)) {}
  int AmbientSize() const override { return m->AmbientSize(); }
  int TangentSize() const override { return m->TangentSize(); }
  bool Plus(const double* x, const double* d, double* y) const override { return m->Plus(x, d, y); }
  bool Minus(const double* y, const double* x, double* d) const override { return m->Minus(y, x, d); }
  bool PlusJacobian(const double* x, double* J) const override { return m->PlusJacobian(x, J); }
  bool MinusJacobian(const double* x, double* J) const override { return m->MinusJacobian(x, J); }
};
using U = std::unique_ptr<Manifold>;
using Sh = std::shared_ptr<Manifold>;
using Raw = Manifold*;
template <class P>
static P As(const Sh& s);
template <>
U As<U>(const Sh& s) { return std::make_unique<Fwd>(s); }
template <>
Sh As<Sh>(const Sh& s) { return s; }
template <>
Raw As<Raw>(const Sh& s) {
  keep.push_back(s);
  return s.get();
}
template <class P>
static Sh Product(const std::vector<Sh>& f) {
  switch (f.size()) {
    case 2: return std::make_shared<ProductManifold<P, P>>(As<P>(f[0]), As<P>(f[1]));
    case 3: return std::make_shared<ProductManifold<P, P, P>>(As<P>(f[0]), As<P>(f[1]), As<P>(f[2]));
    case 4: return std::make_shared<ProductManifold<P, P, P, P>>(As<P>(f[0]), As<P>(f[1]), As<P>(f[2]), As<P>(f[3]));
    default:
      return std::make_shared<ProductManifold<P, P, P, P, P>>(As<P>(f[0]), As<P>(f[1]), As<P>(f[2]), As<P>(f[3]),
                                                              As<P>(f[4]));
  }
}
// products that hold their factors by value, or in mixed ways
static Term Valued(int kind, int n, const std::vector<int>& c) {
  Term t;
  t.linear = kind == 1 || kind == 6;
  switch (kind) {
    case 1:
      t.m = std::make_shared<ProductManifold<EuclideanManifold<2>, SubsetManifold>>(EuclideanManifold<2>(), Sub(3, c));
      t.json = JP({JN("E", 2), JS(3, c)});
      break;
    case 2: {
      t.m = std::make_shared<ProductManifold<QuaternionManifold, EuclideanManifold<3>>>();
      t.json = JP({J1("Q"), JN("E", 3)});
      break;
    }
    case 3:
      t.m = std::make_shared<ProductManifold<SubsetManifold, EuclideanManifold<DYNAMIC>, SphereManifold<3>>>(
          Sub(3, c), EuclideanManifold<DYNAMIC>(n), SphereManifold<3>());
      t.json = JP({JS(3, c), JN("E", n), JN("O", 3)});
      break;
    case 4: {
      using In = ProductManifold<EuclideanManifold<1>, SubsetManifold>;
      t.m = std::make_shared<ProductManifold<In, EigenQuaternionManifold>>(In(EuclideanManifold<1>(), Sub(3, c)),
                                                                           EigenQuaternionManifold());
      t.json = JP({JP({JN("E", 1), JS(3, c)}), J1("R")});
      break;
    }
    case 5: {
      auto sub = std::make_shared<SubsetManifold>(Sub(3, c));
      keep.push_back(sub);
      t.m = std::make_shared<
          ProductManifold<std::unique_ptr<EuclideanManifold<3>>, SubsetManifold*, std::shared_ptr<LineManifold<3>>,
                          SphereManifold<DYNAMIC>>>(std::make_unique<EuclideanManifold<3>>(), sub.get(),
                                                    std::make_shared<LineManifold<3>>(), SphereManifold<DYNAMIC>(n));
      t.json = JP({JN("E", 3), JS(3, c), JN("L", 3), JN("O", n)});
      break;
    }
    default: {
      ProductManifold p{Sub(3, c), EuclideanManifold<DYNAMIC>{n}, SubsetManifold(2, {1})};
      auto q = p;  // a copy
      t.m = std::make_shared<decltype(q)>(std::move(q));
      t.json = JP({JS(3, c), JN("E", n), JS(2, {1})});
    }
  }
  return t;
}

// An output, in memory that tells whether anything around it was written.
struct Out {
  int n;
  std::vector<double> b;
  explicit Out(int n) : n(n), b(n + 8, 12345.678) {
    for (int i = 0; i < n; ++i) b[4 + i] = std::nan("");
  }
  double* p() { return b.data() + 4; }
  bool guard() const {
    for (int i = 0; i < 4; ++i)
      if (b[i] != 12345.678 || b[n + 4 + i] != 12345.678) return false;
    return true;
  }
};
static std::string Rows(const double* p, int r, int c) {
  Arr a;
  for (int i = 0; i < r; ++i) a.add(DblsN(p + i * c, c));
  return a.str();
}

static std::string Ops(int bits) {
  Arr a;
  const char* n[] = {"plus", "minus", "pj", "mj"};
  for (int i = 0; i < 4; ++i)
    if (bits >> i & 1) a.add(S(n[i]));
  return a.str();
}

int main() {
  absl_shim::throw_on_fatal = true;
  absl_shim::quiet = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    uint64_t seed;
    in >> seed;
    Rng r(seed);
    std::vector<Term> st;
    Arr ev;
    std::string json = JN("E", 0);
    bool built = true;
    try {
      std::string op;
      while (in >> op) {
        Term t;
        auto ints = [&](int k) {
          std::vector<int> v(k);
          for (int& x : v) in >> x;
          return v;
        };
        if (op == "E" || op == "O" || op == "L") {
          int n, d;
          in >> n >> d;
          t.m = op == "E" ? MakeE(n, d) : op == "O" ? MakeC<SphereManifold>(n, d) : MakeC<LineManifold>(n, d);
          t.json = JN(op.c_str(), n);
          t.linear = op == "E";
        } else if (op == "S") {
          int n, k;
          in >> n >> k;
          auto c = ints(k);
          t.m = std::make_shared<SubsetManifold>(Sub(n, c));
          t.json = JS(n, c);
        } else if (op == "Q" || op == "R") {
          if (op == "Q") t.m = std::make_shared<QuaternionManifold>();
          else t.m = std::make_shared<EigenQuaternionManifold>();
          t.json = J1(op.c_str());
          t.linear = false;
        } else if (op == "F") {
          int n, b;
          in >> n >> b;
          t.m = std::make_shared<Failing>(n, b);
          t.json = Obj().add("k", S("F")).add("n", I(n)).add("b", Ops(b)).str();
        } else if (op == "V") {
          int kind, n, k;
          in >> kind >> n >> k;
          t = Valued(kind, n, ints(k));
        } else {
          int k, h;
          in >> k >> h;
          std::vector<Sh> f;
          std::vector<std::string> js;
          for (size_t i = st.size() - k; i < st.size(); ++i) {
            f.push_back(st[i].m);
            js.push_back(st[i].json);
            t.linear = t.linear && st[i].linear;
          }
          st.resize(st.size() - k);
          t.m = h == 0 ? Product<U>(f) : h == 1 ? Product<Sh>(f) : Product<Raw>(f);
          t.json = JP(js);
        }
        st.push_back(t);
      }
    } catch (const Refused& e) {
      ev.add(Obj().add("op", S("refused")).add("n", I(e.n)).add("c", Ints(e.c)).str());
      built = false;
    }
    if (built) {
      Manifold& m = *st[0].m;
      json = st[0].json;
      const bool lin = st[0].linear;
      const int na = m.AmbientSize(), nt = m.TangentSize();
      ev.add(Obj().add("op", S("make")).add("a", I(na)).add("t", I(nt)).str());
      for (int round = 0; round < 3; ++round) {
        // small dyadic numbers, for which sums are exact; or any
        const bool exact = r.chance(70);
        const int style = r.below(5);
        auto num = [&]() {
          if (exact) return r.range(-12, 12) * 0.25;
          return r.real(-3, 3);
        };
        std::vector<double> x(na);
        for (double& v : x) v = num();
        // directions along the axes matter to spheres and lines
        if (!lin && style < 2)
          for (double& v : x) v = r.chance(60) ? 0.0 : v;
        if (!lin)
          for (int i = 0; i < na; ++i)
            if (i % 2 == 1 && x[i] == 0 && (i == na - 1 || r.chance(50))) x[i] = r.chance(50) ? -1 : 2;
        // a step no longer than half way round
        auto step = [&](int kind) {
          std::vector<double> d(nt);
          double s = 0;
          for (double& v : d) {
            v = kind == 0 ? 0 : kind == 1 ? (r.chance(60) ? 0 : num()) : num();
            if (kind == 2) v *= 0x1p-20;
            s += v * v;
          }
          if (!lin && s > 8)
            for (double& v : d) v *= 0.5 * r.unit() / std::sqrt(s / 8);
          return d;
        };
        // directions (halves of lines, quaternions, spheres) must not vanish
        {
          std::vector<double> probe = x;
          bool zero = false;
          if (!lin) {
            Out A(na * nt);
            if (m.PlusJacobian(x.data(), A.p()))
              for (int i = 0; i < na * nt; ++i) zero |= !(std::abs(A.p()[i]) < 1e100);
            // a zero direction gives zero columns
            for (int c = 0; c < nt && !zero; ++c) {
              double s = 0;
              for (int i = 0; i < na; ++i) s += A.p()[i * nt + c] * A.p()[i * nt + c];
              zero |= !(s > 1e-6);
            }
          }
          if (zero)
            for (double& v : x) v = r.real(0.5, 2) * (r.chance(50) ? 1 : -1);
        }
        Out A(na * nt), B(nt * na);
        const bool rp = m.PlusJacobian(x.data(), A.p());
        const bool rm = m.MinusJacobian(x.data(), B.p());
        ev.add(Obj()
                   .add("op", S("at"))
                   .add("x", Dbls(x))
                   .add("A", Rows(A.p(), na, nt))
                   .add("B", Rows(B.p(), nt, na))
                   .add("rp", drv::B(rp))
                   .add("rm", drv::B(rm))
                   .add("g", drv::B(A.guard() && B.guard()))
                   .str());
        for (int k = 0; k < 4; ++k) {
          auto d = step(k);
          Out y(na);
          const bool p = m.Plus(x.data(), d.data(), y.p());
          ev.add(Obj()
                     .add("op", S("plus"))
                     .add("d", Dbls(d))
                     .add("y", DblsN(y.p(), na))
                     .add("r", drv::B(p))
                     .add("g", drv::B(y.guard()))
                     .str());
          Out e(nt);
          const bool q = m.Minus(y.p(), x.data(), e.p());
          ev.add(Obj()
                     .add("op", S("back"))
                     .add("d", Dbls(d))
                     .add("e", DblsN(e.p(), nt))
                     .add("r", drv::B(p && q))
                     .add("int", drv::B(exact))
                     .add("g", drv::B(e.guard()))
                     .str());
        }
        std::vector<double> y(na);
        for (double& v : y) v = num() + (lin ? 0.0 : 0.125);
        Out e(nt);
        const bool q = m.Minus(y.data(), x.data(), e.p());
        ev.add(Obj()
                   .add("op", S("minus"))
                   .add("y", Dbls(y))
                   .add("d", DblsN(e.p(), nt))
                   .add("r", drv::B(q))
                   .add("g", drv::B(e.guard()))
                   .str());
        const int rows = r.below(4);
        std::vector<double> mat(rows * na);
        for (double& v : mat) v = num();
        Out t(rows * nt);
        const bool rr = m.RightMultiplyByPlusJacobian(x.data(), rows, mat.data(), t.p());
        ev.add(Obj()
                   .add("op", S("right"))
                   .add("m", Rows(mat.data(), rows, na))
                   .add("p", Rows(t.p(), rows, nt))
                   .add("r", drv::B(rr))
                   .add("g", drv::B(t.guard()))
                   .str());
      }
    }
    std::cout << Obj().add("m", json).add("ev", ev.str()).str() << "\n" << std::flush;
    st.clear();
    keep.clear();
  }
}
