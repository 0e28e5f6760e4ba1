// Orderings, graphs and clusterings of the real code, recorded for
// OrderingTrace.tla.  One scenario per line:
//   G kind n (op a b)*        history of OrderedGroups operations
//   E n mask seed             the graph on n vertices with the edges in mask
//   H seed                    a history of graph edits, then the algorithms
//   L seed                    a large graph, then the algorithms
//   V seed                    visibility and the graph made of it
//   P seed                    a problem: the orderings computed from it
#include <algorithm>
#include <iostream>
#include <memory>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/block_structure.h"
#include "ceres/canonical_views_clustering.h"
#include "ceres/cost_function.h"
#include "ceres/graph.h"
#include "ceres/graph_algorithms.h"
#include "ceres/manifold.h"
#include "ceres/ordered_groups.h"
#include "ceres/parameter_block.h"
#include "ceres/parameter_block_ordering.h"
#include "ceres/problem.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/reorder_program.h"
#include "ceres/residual_block.h"
#include "ceres/single_linkage_clustering.h"
#include "ceres/visibility.h"
#include "drv.h"
using namespace drv;
using namespace ceres;
using namespace ceres::internal;

namespace {
// ------------------------------------------------------------------ groups
template <typename T>
std::string Observe(const OrderedGroups<T>& g, const std::vector<T>& elems) {
  Arr gte, etg, id, mem, size;
  for (auto& p : g.group_to_elements()) {
    std::vector<int> in;
    for (auto& e : p.second)
      in.push_back(int(std::find(elems.begin(), elems.end(), e) - elems.begin()) + 1);
    std::sort(in.begin(), in.end());
    gte.add(Obj().add("g", I(p.first)).add("e", Ints(in)).str());
  }
  for (size_t i = 0; i < elems.size(); ++i) {
    auto it = g.element_to_group().find(elems[i]);
    etg.add(I(it == g.element_to_group().end() ? -1 : it->second));
    id.add(I(g.GroupId(elems[i])));
    mem.add(B(g.IsMember(elems[i])));
  }
  for (int k = -1; k <= 12; ++k) size.add(I(g.GroupSize(k)));
  return Obj()
      .add("gte", gte.str())
      .add("etg", etg.str())
      .add("netg", I(g.element_to_group().size()))
      .add("id", id.str())
      .add("mem", mem.str())
      .add("size", size.str())
      .add("ne", I(g.NumElements()))
      .add("ng", I(g.NumGroups()))
      .add("min", I(g.NumGroups() ? g.MinNonZeroGroup() : -1))
      .str();
}

template <typename T>
void Groups(std::istream& in, int n, const std::vector<T>& elems) {
  OrderedGroups<T> g;
  Arr ev;
  std::string op;
  while (in >> op) {
    Obj o;
    int ret = 0;
    o.add("op", S(op));
    if (op == "add") {
      int e, k;
      in >> e >> k;
      ret = g.AddElementToGroup(elems[e - 1], k);
      o.add("e", I(e)).add("g", I(k));
    } else if (op == "rem") {
      int e;
      in >> e;
      ret = g.Remove(elems[e - 1]);
      o.add("e", I(e));
    } else if (op == "bulk") {
      int m;
      in >> m;
      std::vector<T> v;
      std::vector<int> vi;
      for (int i = 0; i < m; ++i) {
        int e;
        in >> e;
        v.push_back(elems[e - 1]);
        vi.push_back(e);
      }
      ret = g.Remove(v);
      o.add("es", Ints(vi));
    } else if (op == "rev") {
      g.Reverse();
    } else if (op == "clear") {
      g.Clear();
    } else if (op == "copy") {
      OrderedGroups<T> h(g);
      g.Clear();
      g = h;
    } else {
      std::exit(3);
    }
    ev.add(o.add("ret", I(ret)).add("st", Observe(g, elems)).str());
  }
  std::cout << Obj().add("kind", S("groups")).add("n", I(n)).add("ev", ev.str()).str() << "\n" << std::flush;
}

// ------------------------------------------------------------------ graphs
template <typename Set>
std::vector<int> Sorted(const Set& s) {
  std::vector<int> v(s.begin(), s.end());
  std::sort(v.begin(), v.end());
  return v;
}
std::string Edges(const Graph<int>& g) {
  Arr a;
  for (int v : Sorted(g.vertices())) a.add(Arr().add(I(v)).add(Ints(Sorted(g.Neighbors(v)))).str());
  return a.str();
}
std::string Edges(const WeightedGraph<int>& g) {
  Arr a;
  for (int v : Sorted(g.vertices())) {
    auto n = Sorted(g.Neighbors(v));
    Arr w;
    for (int u : n) w.add(I(std::lround(g.EdgeWeight(v, u) * 16)));
    double vw = g.VertexWeight(v);
    a.add(Arr()
              .add(I(v))
              .add(Ints(n))
              .add(w.str())
              .add(I(std::isnan(vw) ? 1000000 : std::lround(vw * 16)))
              .str());
  }
  return a.str();
}

void Algorithms(Rng& r, const Graph<int>& g, const WeightedGraph<int>& w, Arr& ev) {
  ev.add(Obj().add("op", S("graph")).add("g", Edges(g)).add("w", Edges(w)).str());
  std::vector<int> o;
  int k = IndependentSetOrdering(g, &o);
  ev.add(Obj().add("op", S("iso")).add("order", Ints(o)).add("k", I(k)).str());
  for (int rep = 0; rep < 2; ++rep) {
    std::vector<int> in = Sorted(g.vertices());
    for (size_t i = in.size(); i > 1; --i) std::swap(in[i - 1], in[r.below(int(i))]);
    o = in;
    k = StableIndependentSetOrdering(g, &o);
    ev.add(Obj().add("op", S("siso")).add("in", Ints(in)).add("order", Ints(o)).add("k", I(k)).str());
  }
  auto f = Degree2MaximumSpanningForest(w);
  ev.add(Obj().add("op", S("forest")).add("f", Edges(*f)).str());
  for (int rep = 0; rep < 2; ++rep) {
    SingleLinkageClusteringOptions so;
    int m = r.range(0, 17);
    so.min_similarity = m / 16.0;
    absl::flat_hash_map<int, int> mem;
    int n = ComputeSingleLinkageClustering(so, w, &mem);
    Arr ma;
    for (int v : Sorted(w.vertices())) ma.add(I(mem.count(v) ? mem[v] : -1));
    ev.add(Obj().add("op", S("slc")).add("m", I(m)).add("n", I(n)).add("sz", I(mem.size())).add("mem", ma.str()).str());
  }
  for (int rep = 0; rep < 3; ++rep) {
    CanonicalViewsClusteringOptions co;
    int mv = r.range(0, 4), sp = r.range(0, 24), sim = r.chance(30) ? 400 : r.range(0, 16), vs = r.range(0, 8);
    co.min_views = mv;
    co.size_penalty_weight = sp / 4.0;
    co.similarity_penalty_weight = sim / 4.0;
    co.view_score_weight = vs / 4.0;
    std::vector<int> c = {77};
    absl::flat_hash_map<int, int> mem;
    mem[-5] = 3;
    ComputeCanonicalViewsClustering(co, w, &c, &mem);
    Arr ma;
    for (int v : Sorted(w.vertices())) ma.add(I(mem.count(v) ? mem[v] : -7));
    ev.add(Obj()
               .add("op", S("cvc"))
               .add("mv", I(mv))
               .add("sp", I(sp))
               .add("sim", I(sim))
               .add("vs", I(vs))
               .add("c", Ints(c))
               .add("sz", I(mem.size()))
               .add("mem", ma.str())
               .str());
  }
}
void Emit(const char* kind, int n, Arr& ev) {
  std::cout << Obj().add("kind", S(kind)).add("n", I(n)).add("ev", ev.str()).str() << "\n" << std::flush;
}

double Weight(Rng& r) { return r.chance(40) ? r.pick(std::vector<int>{4, 8}) / 16.0 : r.range(1, 16) / 16.0; }
double VertexW(Rng& r) {
  return r.chance(6) ? WeightedGraph<int>::InvalidWeight() : r.range(0, 16) / 16.0;
}

// the edges of `mask`, at labels spread over the integers
void Enumerated(int n, uint64_t mask, uint64_t seed) {
  Rng r(seed * 131 + mask);
  Graph<int> g;
  WeightedGraph<int> w;
  std::vector<int> label(n);
  for (int i = 0; i < n; ++i) label[i] = i + 1;
  if (r.chance(50))
    for (int i = n; i > 1; --i) std::swap(label[i - 1], label[r.below(i)]);
  for (int i = 0; i < n; ++i) g.AddVertex(label[i]), w.AddVertex(label[i], VertexW(r));
  int b = 0;
  bool same = r.chance(30);
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j, ++b)
      if (mask >> b & 1) {
        int a = label[i], c = label[j];
        if (r.chance(50)) std::swap(a, c);
        g.AddEdge(a, c);
        w.AddEdge(a, c, same ? 0.5 : Weight(r));
      }
  if (r.chance(30))
    for (int i = 0; i < n; ++i) w.AddEdge(label[i], label[i], 1.0);
  Arr ev;
  Algorithms(r, g, w, ev);
  Emit("graph", n, ev);
}

void History(uint64_t seed, bool large) {
  Rng r(seed);
  Graph<int> g;
  WeightedGraph<int> w;
  int n = r.range(2, 9), steps = r.range(4, 40);
  Arr ev;
  if (large) {
    // beyond the sizes where sorting is stable by accident
    n = r.range(17, 30);
    for (int i = 1; i <= n; ++i) g.AddVertex(i), w.AddVertex(i, r.range(0, 16) / 16.0);
    for (int e = r.range(0, n + n / 2); e > 0; --e) {
      int a = r.range(1, n), b = r.range(1, n);
      if (a != b) g.AddEdge(a, b), w.AddEdge(a, b, Weight(r));
    }
    Algorithms(r, g, w, ev);
    return Emit("graph", n, ev);
  }
  for (int s = 0; s < steps; ++s) {
    int a = r.range(1, n), b = r.range(1, n), k = r.below(10);
    Obj o;
    int ret = 1;
    if (k < 3) {
      g.AddVertex(a);
      double x = VertexW(r);
      w.AddVertex(a, x);
      o.add("op", S("av")).add("a", I(a)).add("w", I(std::isnan(x) ? 1000000 : std::lround(x * 16)));
    } else if (k < 4) {
      bool r1 = g.RemoveVertex(a), r2 = w.RemoveVertex(a);
      ret = r1 == r2 ? r1 : 2;
      o.add("op", S("rv")).add("a", I(a));
    } else if (a != b && g.vertices().count(a) && g.vertices().count(b)) {
      double x = Weight(r);
      g.AddEdge(a, b);
      w.AddEdge(a, b, x);
      o.add("op", S("ae")).add("a", I(a)).add("b", I(b)).add("w", I(std::lround(x * 16)));
    } else {
      continue;
    }
    ev.add(o.add("ret", I(ret)).add("g", Edges(g)).add("wg", Edges(w)).str());
  }
  Algorithms(r, g, w, ev);
  Emit("graph", n, ev);
}

void Visibility(uint64_t seed) {
  Rng r(seed);
  int ne = r.range(1, 8), nf = r.range(1, 6), rows = r.range(1, 20);
  CompressedRowBlockStructure bs;
  bs.cols.resize(ne + nf);
  Arr rw;
  for (int i = 0; i < rows; ++i) {
    CompressedRow row;
    std::vector<int> ids;
    if (r.chance(85)) ids.push_back(r.below(ne));
    int m = r.range(ids.empty() ? 1 : 0, 3);
    std::vector<int> fs;
    for (int j = 0; j < m; ++j) fs.push_back(ne + r.below(nf));
    std::sort(fs.begin(), fs.end());
    fs.erase(std::unique(fs.begin(), fs.end()), fs.end());
    ids.insert(ids.end(), fs.begin(), fs.end());
    if (ids.empty()) continue;
    for (int c : ids) row.cells.emplace_back(c, 0);
    bs.rows.push_back(row);
    rw.add(Ints(ids));
  }
  std::vector<absl::btree_set<int>> vis(3);
  vis[0].insert(4);
  ComputeVisibility(bs, ne, &vis);
  Arr va, ga;
  for (auto& s : vis) va.add(Ints(s));
  auto g = CreateSchurComplementGraph(vis);
  for (int v : Sorted(g->vertices())) {
    auto nb = Sorted(g->Neighbors(v));
    Arr w;
    // the square of the weight, times the sizes, must be an exact square
    for (int u : nb)
      w.add(I(u == v ? std::lround(g->EdgeWeight(v, u) * 1000)
                     : std::lround(g->EdgeWeight(v, u) * g->EdgeWeight(v, u) * double(vis[u].size() * vis[v].size()) * 1000)));
    ga.add(Arr().add(Ints(nb)).add(w.str()).add(I(std::lround(g->VertexWeight(v) * 16))).str());
  }
  Arr ev;
  ev.add(Obj().add("op", S("vis")).add("ne", I(ne)).add("nf", I(nf)).add("rows", rw.str()).add("vis", va.str()).add("g", ga.str()).str());
  Emit("graph", 1, ev);
}

// ------------------------------------------------------------------ problems
struct Dummy : CostFunction {
  Dummy(int nres, const std::vector<int>& sizes) {
    set_num_residuals(nres);
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const*, double*, double**) const override { return true; }
};

struct Prob {
  std::vector<std::vector<double>> mem;
  std::vector<double> pool;
  std::vector<double*> ptr;
  std::unique_ptr<ProblemImpl> p;
  std::vector<ResidualBlockId> rid;
  int Block(const ParameterBlock* b) const {
    for (size_t i = 0; i < ptr.size(); ++i)
      if (ptr[i] == b->user_state()) return int(i) + 1;
    return 0;
  }
  int Block(const double* x) const {
    for (size_t i = 0; i < ptr.size(); ++i)
      if (ptr[i] == x) return int(i) + 1;
    return 0;
  }
  std::string Blocks(const std::vector<ParameterBlock*>& v) const {
    Arr a;
    for (auto* b : v) a.add(I(Block(b)));
    return a.str();
  }
  std::string Groups(const ParameterBlockOrdering& o) const {
    Arr a;
    for (auto* x : ptr) a.add(I(o.GroupId(x)));
    return a.str();
  }
  std::string Params() const { return Blocks(p->program().parameter_blocks()); }
  std::string Resids() const {
    Arr a;
    for (auto* r : p->program().residual_blocks())
      a.add(I(std::find(rid.begin(), rid.end(), r) - rid.begin() + 1));
    return a.str();
  }
};

void Problems(uint64_t seed) {
  Rng r(seed);
  Prob q;
  int n = r.range(1, 8), m = r.range(0, 10);
  Arr ev, cst, res;
  q.pool.assign(64, 1.0);
  std::vector<int> size(n);
  std::vector<int> slot(n);
  for (int i = 0; i < n; ++i) slot[i] = i;
  for (int i = n; i > 1; --i) std::swap(slot[i - 1], slot[r.below(i)]);
  q.p = std::make_unique<ProblemImpl>();
  std::vector<int> isc(n, 0);
  bool anyc = r.chance(50);
  for (int i = 0; i < n; ++i) {
    size[i] = r.range(1, 3);
    q.ptr.push_back(q.pool.data() + 3 * slot[i]);
    q.p->AddParameterBlock(q.ptr[i], size[i]);
    if (anyc && r.chance(25)) {
      isc[i] = 1;
      if (r.chance(60)) {
        q.p->SetParameterBlockConstant(q.ptr[i]);
      } else {
        std::vector<int> all;
        for (int k = 0; k < size[i]; ++k) all.push_back(k);
        q.p->SetManifold(q.ptr[i], new SubsetManifold(size[i], all));
      }
    }
    cst.add(I(isc[i]));
  }
  bool bip = r.chance(30);  // a bipartite problem, as in bundle adjustment
  for (int j = 0; j < m; ++j) {
    std::vector<int> b;
    int k = r.range(1, std::min(n, r.chance(70) ? 2 : 3));
    while (int(b.size()) < k) {
      int x = r.below(n);
      if (bip && k == 2 && n > 1) x = b.empty() ? r.below(n / 2) : n / 2 + r.below(n - n / 2);
      if (std::find(b.begin(), b.end(), x) == b.end()) b.push_back(x);
    }
    std::vector<int> sz;
    std::vector<double*> ptrs;
    Arr ids;
    for (int x : b) sz.push_back(size[x]), ptrs.push_back(q.ptr[x]), ids.add(I(x + 1));
    q.rid.push_back(q.p->AddResidualBlock(new Dummy(r.range(1, 2), sz), nullptr, ptrs.data(), int(ptrs.size())));
    res.add(ids.str());
  }
  Program* prog = q.p->mutable_program();
  prog->SetParameterOffsetsAndIndex();
  ev.add(Obj().add("op", S("problem")).add("n", I(n)).add("c", cst.str()).add("r", res.str()).str());
  {
    auto g = CreateHessianGraph(*prog);
    Arr a;
    for (int i = 0; i < n; ++i) {
      for (auto* v : g->vertices())
        if (q.Block(v) == i + 1) {
          std::vector<int> nb;
          for (auto* u : g->Neighbors(v)) nb.push_back(q.Block(u));
          std::sort(nb.begin(), nb.end());
          a.add(Arr().add(I(i + 1)).add(Ints(nb)).str());
        }
    }
    ev.add(Obj().add("op", S("hessian")).add("g", a.str()).str());
  }
  std::vector<ParameterBlock*> o;
  int k = ComputeSchurOrdering(*prog, &o);
  ev.add(Obj().add("op", S("schur")).add("order", q.Blocks(o)).add("k", I(k)).str());
  k = ComputeStableSchurOrdering(*prog, &o);
  ev.add(Obj().add("op", S("stable")).add("order", q.Blocks(o)).add("k", I(k)).str());
  bool hasc = std::count(isc.begin(), isc.end(), 1) > 0;
  if (!hasc) {
    ParameterBlockOrdering po;
    po.AddElementToGroup(q.ptr[0], 9);
    ComputeRecursiveIndependentSetOrdering(*prog, &po);
    std::vector<int> sizes;
    OrderingToGroupSizes(&po, &sizes);
    ev.add(Obj().add("op", S("recursive")).add("g", q.Groups(po)).add("ne", I(po.NumElements())).add("sizes", Ints(sizes)).str());
  }
  // an independent set, asked of the program
  for (int rep = 0; rep < 3; ++rep) {
    std::set<double*> s;
    Arr a;
    for (int i = 0; i < n; ++i)
      if (r.chance(40)) s.insert(q.ptr[i]), a.add(I(i + 1));
    ev.add(Obj().add("op", S("indep")).add("s", a.str()).add("ret", B(prog->IsParameterBlockSetIndependent(s))).str());
  }
  // residual blocks by partition
  {
    std::unordered_set<ResidualBlockId> bottom;
    Arr a;
    for (size_t i = 0; i < q.rid.size(); ++i)
      if (r.chance(40)) bottom.insert(q.rid[i]), a.add(I(int(i) + 1));
    int top = ReorderResidualBlocksByPartition(bottom, prog);
    ev.add(Obj().add("op", S("part")).add("bottom", a.str()).add("top", I(top)).add("rs", q.Resids()).str());
  }
  // apply an ordering: complete, missing one, or with a stranger
  double stranger = 0;
  for (int rep = 0; rep < 2; ++rep) {
    ParameterBlockOrdering po;
    Arr gs;
    int groups = r.range(1, 4), miss = r.chance(20) ? r.below(n) : -1;
    bool foreign = r.chance(15);
    for (int i = 0; i < n; ++i) {
      int g = r.below(groups) * r.range(1, 3);
      if (i == miss) g = -1;
      if (g >= 0) po.AddElementToGroup(q.ptr[i], g);
      gs.add(I(g));
    }
    if (foreign) po.AddElementToGroup(&stranger, r.below(groups));
    std::string before = q.Params(), error;
    bool ok = ApplyOrdering(q.p->parameter_map(), po, prog, &error);
    prog->SetParameterOffsetsAndIndex();
    ev.add(Obj()
               .add("op", S("apply"))
               .add("g", gs.str())
               .add("foreign", I(foreign))
               .add("ok", B(ok))
               .add("err", B(!error.empty()))
               .add("before", before)
               .add("after", q.Params())
               .str());
  }
  // the whole reordering for a Schur solver: needs blocks that are all used
  std::vector<int> used(n, 0);
  for (auto* rb : prog->residual_blocks())
    for (int i = 0; i < rb->NumParameterBlocks(); ++i) used[q.Block(rb->parameter_blocks()[i]) - 1] = 1;
  if (!hasc && std::count(used.begin(), used.end(), 0) == 0) {
    ParameterBlockOrdering po;
    Arr gs;
    int groups = r.chance(40) ? 1 : r.range(1, 4), base = r.below(4);
    int how = r.below(3), other = r.below(n);
    for (int i = 0; i < n; ++i) {
      int g = base + r.below(groups) * 2;
      // first group one block, or an independent set by construction
      if (groups > 1 && how == 0) g = i == other ? base : base + 1 + r.below(2);
      if (groups > 1 && how == 1 && bip) g = i < n / 2 ? base : base + 1;
      po.AddElementToGroup(q.ptr[i], g);
      gs.add(I(g));
    }
    LinearSolverType ls = r.chance(50) ? DENSE_SCHUR : r.chance(60) ? SPARSE_SCHUR : ITERATIVE_SCHUR;
    std::string before = q.Params(), error, rb = q.Resids();
    bool ok = ReorderProgramForSchurTypeLinearSolver(ls, EIGEN_SPARSE, AMD, q.p->parameter_map(), &po, prog, &error);
    Arr idx;
    for (auto* b : prog->parameter_blocks()) idx.add(I(b->index() + 1));
    ev.add(Obj()
               .add("op", S("reorder"))
               .add("g", gs.str())
               .add("sparse", I(ls == SPARSE_SCHUR))
               .add("ok", B(ok))
               .add("err", B(!error.empty()))
               .add("before", before)
               .add("after", q.Params())
               .add("og", q.Groups(po))
               .add("idx", idx.str())
               .add("rs", q.Resids())
               .str());
    if (r.chance(50)) {
      ParameterBlockOrdering all;
      for (auto* x : q.ptr) all.AddElementToGroup(x, 0);
      ok = ReorderProgramForSparseCholesky(EIGEN_SPARSE, AMD, all, 0, prog, &error);
      ev.add(Obj().add("op", S("chol")).add("ok", B(ok)).add("after", q.Params()).add("rs", q.Resids()).str());
    }
  }
  Emit("problem", n, ev);
}
}  // namespace

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    char k;
    in >> k;
    if (k == 'G') {
      int kind, n;
      in >> kind >> n;
      if (kind == 0) {
        std::vector<int> e;
        for (int i = 0; i < n; ++i) e.push_back(i * 7 % 5 + i * 10);
        Groups<int>(in, n, e);
      } else {
        static double pool[64];
        std::vector<double*> e;
        for (int i = 0; i < n; ++i) e.push_back(pool + (i * 5) % 16);
        Groups<double*>(in, n, e);
      }
    } else if (k == 'E') {
      int n;
      uint64_t mask, seed;
      in >> n >> mask >> seed;
      Enumerated(n, mask, seed);
    } else {
      uint64_t seed;
      in >> seed;
      k == 'H' || k == 'L' ? History(seed, k == 'L') : k == 'V' ? Visibility(seed) : Problems(seed);
    }
  }
}
