// Linear solvers and the preparation of a problem for them, recorded for
// LinearTrace.tla.  Input: mode and seed per line.
//   M  one linear solver, several systems of the same structure
//   S  solves of one problem under several configurations
#include <cmath>
#include <iostream>
#include <memory>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/ceres.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/linear_solver.h"
#include "drv.h"
#include "model.h"
using namespace drv;
namespace ci = ceres::internal;

static std::string Rows(const std::vector<std::vector<double>>& m) {
  Arr a;
  for (auto& r : m) a.add(Dbls(r));
  return a.str();
}

// ------------------------------------------------------------------ systems
struct Systems {
  Rng r;
  Arr ev;
  explicit Systems(uint64_t seed) : r(seed * 2) {}

  struct Shape {
    int ne = 0, nf = 0;
    std::vector<int> size;                       // E blocks, then F blocks
    std::vector<std::pair<int, std::vector<int>>> rows;   // size, cells
  };
  Shape shape(bool full) {
    Shape s;
    s.ne = r.range(1, 4);
    s.nf = r.chance(12) ? 0 : r.range(1, 4);
    static const int known[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 2, 4}, {2, 3, 3}, {2, 3, 4}, {2, 3, 6}, {2, 3, 9}, {2, 4, 3}, {2, 4, 4}, {2, 4, 6}, {2, 4, 8}, {2, 4, 9}, {3, 3, 3}, {4, 4, 2}, {4, 4, 3}, {4, 4, 4}};
    const int uniform = r.chance(55) ? r.below(16) : -1;
    const int fs = uniform >= 0 && r.chance(20) ? 0 : 1;    // known row and E size, any F size
    auto esize = [&] { return uniform >= 0 ? known[uniform][1] : r.range(1, 5); };
    auto fsize = [&] { return uniform >= 0 && fs ? known[uniform][2] : r.range(1, 6); };
    auto rsize = [&] { return uniform >= 0 ? known[uniform][0] : r.range(1, 4); };
    if (uniform >= 0 && fs && known[uniform][2] > 6) s.nf = std::min(s.nf, 2);
    for (int i = 0; i < s.ne; ++i) s.size.push_back(esize());
    for (int i = 0; i < s.nf; ++i) s.size.push_back(fsize());
    const int density = r.pick<int>(std::vector<int>{25, 60, 100});
    for (int e = 0; e < s.ne; ++e) {
      int have = 0;
      const int want = r.range(1, 3);
      for (int k = 0; k < want || (full && have < s.size[e] + 1); ++k) {
        std::vector<int> c{e};
        for (int f = 0; f < s.nf; ++f)
          if (r.chance(density)) c.push_back(s.ne + f);
        s.rows.push_back({rsize(), c});
        have += s.rows.back().first;
      }
    }
    // rows without an E block, of any size
    for (int f = 0; f < s.nf; ++f)
      if (full || r.chance(40)) {
        int have = 0;
        do {
          std::vector<int> c{s.ne + f};
          for (int g = f + 1; g < s.nf; ++g)
            if (r.chance(30)) c.push_back(s.ne + g);
          s.rows.push_back({r.chance(50) ? rsize() : r.range(1, 3), c});
          have += s.rows.back().first;
        } while (full && have < s.size[s.ne + f]);
      }
    return s;
  }

  void run() {
    static const char* types[] = {"DENSE_QR", "DENSE_NORMAL_CHOLESKY", "SPARSE_NORMAL_CHOLESKY", "DYNAMIC", "DENSE_SCHUR", "SPARSE_SCHUR", "ITERATIVE_SCHUR", "CGNR"};
    const int type = r.chance(70) ? r.range(4, 7) : r.below(8);
    const bool with_d = r.chance(75);
    Shape s = shape(!with_d);
    ci::ContextImpl context;
    ci::LinearSolver::Options o;
    o.context = &context;
    o.num_threads = r.pick<int>(std::vector<int>{1, 1, 2, 3, 4});
    context.EnsureMinimumThreads(o.num_threads - 1);
    o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
    o.ordering_type = r.chance(50) ? ci::OrderingType::NATURAL : ci::OrderingType::AMD;
    o.dense_linear_algebra_library_type = ceres::EIGEN;
    o.elimination_groups = {s.ne, s.nf};
    std::string pre = "-";
    bool iterative = false;
    switch (type) {
      case 0: o.type = ceres::DENSE_QR; break;
      case 1: o.type = ceres::DENSE_NORMAL_CHOLESKY; break;
      case 2: o.type = ceres::SPARSE_NORMAL_CHOLESKY; break;
      case 3: o.type = ceres::SPARSE_NORMAL_CHOLESKY; o.dynamic_sparsity = true; break;
      case 4: o.type = ceres::DENSE_SCHUR; break;
      case 5: o.type = ceres::SPARSE_SCHUR; break;
      case 6:
        o.type = ceres::ITERATIVE_SCHUR;
        o.preconditioner_type = r.pick<ceres::PreconditionerType>(std::vector<ceres::PreconditionerType>{ceres::IDENTITY, ceres::JACOBI, ceres::SCHUR_JACOBI, ceres::SCHUR_POWER_SERIES_EXPANSION, ceres::CLUSTER_JACOBI, ceres::CLUSTER_TRIDIAGONAL});
        o.visibility_clustering_type = r.chance(50) ? ceres::CANONICAL_VIEWS : ceres::SINGLE_LINKAGE;
        o.use_explicit_schur_complement = o.preconditioner_type == ceres::SCHUR_JACOBI && r.chance(50);
        o.use_spse_initialization = !o.use_explicit_schur_complement && r.chance(25);
        o.max_num_spse_iterations = r.range(1, 6);
        iterative = true;
        break;
      default:
        o.type = ceres::CGNR;
        o.preconditioner_type = r.pick<ceres::PreconditionerType>(std::vector<ceres::PreconditionerType>{ceres::IDENTITY, ceres::JACOBI, ceres::SUBSET});
        if (o.preconditioner_type == ceres::SUBSET) o.subset_preconditioner_start_row_block = r.below(s.rows.size());
        iterative = true;
    }
    if (iterative) pre = ceres::PreconditionerTypeToString(o.preconditioner_type);
    const bool mixed = !iterative && type != 0 && r.chance(20);
    o.use_mixed_precision_solves = mixed;
    o.max_num_refinement_iterations = mixed ? r.range(4, 6) : r.below(3);
    if (iterative) {
      o.min_num_iterations = 0;
      o.max_num_iterations = 300;
      o.residual_reset_period = r.pick<int>(std::vector<int>{1, 5, 10});
    }
    Obj h;
    h.add("ev", S("solver")).add("type", S(types[type])).add("pre", S(pre)).add("iterative", B(iterative)).add("mixed", B(mixed)).add("threads", I(o.num_threads));
    ev.add(h.str());
    auto solver = ci::LinearSolver::Create(o);

    auto* bs = new ci::CompressedRowBlockStructure;
    int n = 0, pos = 0, m = 0;
    for (int k : s.size) {
      bs->cols.emplace_back(k, n);
      n += k;
    }
    for (auto& [size, cells] : s.rows) {
      ci::CompressedRow row;
      row.block = ci::Block(size, m);
      m += size;
      for (int c : cells) {
        row.cells.emplace_back(c, pos);
        pos += size * s.size[c];
      }
      bs->rows.push_back(row);
    }
    ci::BlockSparseMatrix A(bs);
    const int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
      double* v = A.mutable_values();
      const bool zeros = r.chance(15);
      for (int i = 0; i < A.num_nonzeros(); ++i) v[i] = zeros && r.chance(50) ? 0 : r.real(-1.5, 1.5);
      // the blocks one after the other are large on their diagonals
      if (!with_d) {
        std::vector<int> at(s.size.size(), 0);
        for (auto& row : A.block_structure()->rows) {
          auto& c = row.cells[0];
          for (int i = 0; i < row.block.size; ++i) {
            const int w = s.size[c.block_id];
            v[c.position + i * w + (at[c.block_id]++ % w)] += r.chance(50) ? 3 : -3;
          }
        }
      }
      std::vector<double> b(m), D(n), x(n, 1e302);
      for (auto& y : b) y = r.real(-3, 3);
      for (auto& y : D) y = r.real(0.3, 2);
      ceres::Matrix dense;
      A.ToDenseMatrix(&dense);
      std::vector<std::vector<double>> rows(m);
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) rows[i].push_back(dense(i, j));
      ci::LinearSolver::PerSolveOptions p;
      p.D = with_d ? D.data() : nullptr;
      p.r_tolerance = 1e-13;
      p.q_tolerance = 0;
      const std::vector<double> D0 = D, b0 = b;
      ci::LinearSolver::Summary sum;
      bool same = true;
      if (type <= 1) {
        ci::DenseSparseMatrix d(dense);
        sum = solver->Solve(&d, b.data(), p, x.data());
        same = d.matrix() == dense;
      } else if (type == 3) {
        // some structurally zero entries come and go
        ci::CompressedRowSparseMatrix c(m, n, m * n);
        int nnz = 0;
        const bool drop = r.chance(50);
        for (int i = 0; i < m; ++i) {
          c.mutable_rows()[i] = nnz;
          for (int j = 0; j < n; ++j)
            if (dense(i, j) != 0 || !drop) {
              c.mutable_cols()[nnz] = j;
              c.mutable_values()[nnz++] = dense(i, j);
            }
        }
        c.mutable_rows()[m] = nnz;
        sum = solver->Solve(&c, b.data(), p, x.data());
      } else {
        sum = solver->Solve(&A, b.data(), p, x.data());
        ceres::Matrix after;
        A.ToDenseMatrix(&after);
        same = after == dense;
      }
      Obj e;
      e.add("ev", S("solve")).add("A", Rows(rows)).add("D", with_d ? Dbls(D0) : "[]").add("b", Dbls(b0)).add("x", Dbls(x)).add("n", I(n));
      const char* ends[] = {"SUCCESS", "NO_CONVERGENCE", "FAILURE", "FATAL_ERROR"};
      e.add("end", S(ends[int(sum.termination_type)])).add("its", I(sum.num_iterations)).add("same", B(same && b == b0 && D == D0)).add("msg", S(sum.message));
      ev.add(e.str());
    }
  }
};

// ------------------------------------------------------------ configurations
struct Configs {
  Rng r;
  Arr ev;
  explicit Configs(uint64_t seed) : r(seed * 2 + 1) {}
  Model model;
  std::vector<std::vector<double>> points;
  int point(const std::vector<double>& x) {
    for (size_t i = 0; i < points.size(); ++i)
      if (points[i] == x) return i + 1;
    points.push_back(x);
    return points.size();
  }
  struct Callback : public ceres::EvaluationCallback {
    Configs* c;
    std::function<void(bool, bool)> f;
    void PrepareForEvaluation(bool j, bool n) override { f(j, n); }
  };
  struct It : public ceres::IterationCallback {
    std::function<void(const ceres::IterationSummary&)> f;
    ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override { f(s); return ceres::SOLVER_CONTINUE; }
  };

  void graph() {
    ModelOptions o;
    o.min_blocks = 1;
    o.max_blocks = 6;
    o.max_size = r.chance(50) ? 3 : 2;
    o.max_res = 8;
    o.constants = r.chance(60);
    o.well_posed = r.chance(50);
    o.curve = 0.3;
    model = RandomModel(r, o);
    if (r.chance(60)) {       // sparser: keep at most two blocks per residual
      for (auto& s : model.res) {
        if (s.blocks.size() <= 2 || !r.chance(80)) continue;
        std::vector<int> keep(s.blocks);
        while (keep.size() > 2) keep.erase(keep.begin() + r.below(keep.size()));
        for (int k = 0; k < s.m; ++k) {
          std::vector<double> a, q, w;
          int at = 0;
          for (int b : s.blocks) {
            const int n = model.blocks[b].size;
            if (std::find(keep.begin(), keep.end(), b) != keep.end())
              for (int i = 0; i < n; ++i) {
                a.push_back(s.a[k][at + i]);
                q.push_back(s.q[k][at + i]);
                w.push_back(s.w[k][at + i]);
              }
            at += n;
          }
          s.a[k] = a; s.q[k] = q; s.w[k] = w;
        }
        s.blocks = keep;
      }
    }
  }
  // A user's elimination order, as groups of blocks; 100 is no block at all.
  std::vector<std::pair<int, std::vector<int>>> ordering() {
    const int nb = model.blocks.size();
    std::map<int, std::vector<int>> g;
    const int what = r.below(100);
    if (what < 12) {
      for (int b = 0; b < nb; ++b) g[3].push_back(b);
    } else if (what < 70) {
      // an independent set first, unless it is on purpose not one
      std::vector<int> in(nb, 0);
      std::vector<int> perm;
      for (int b = 0; b < nb; ++b) perm.insert(perm.begin() + r.below(b + 1), b);
      const bool sloppy = r.chance(10);
      for (int b : perm) {
        bool ok = true;
        for (auto& s : model.res) {
          bool here = false, other = false;
          for (int x : s.blocks) {
            here |= x == b;
            other |= x != b && in[x];
          }
          if (here && other) ok = false;
        }
        if ((ok || sloppy) && r.chance(80)) in[b] = 1;
      }
      const int first = r.range(0, 3);
      for (int b = 0; b < nb; ++b) g[in[b] ? first : first + r.range(1, r.chance(50) ? 1 : 4)].push_back(b);
    } else {
      for (int b = 0; b < nb; ++b) g[r.below(3)].push_back(b);
    }
    if (r.chance(6)) {
      auto it = g.begin();
      std::advance(it, r.below(g.size()));
      it->second.erase(it->second.begin() + r.below(it->second.size()));
      if (it->second.empty()) g.erase(it);
    }
    if (r.chance(4)) g[r.range(0, 5)].push_back(100);
    if (r.chance(3)) g.clear();
    return {g.begin(), g.end()};
  }

  void run() {
    graph();
    const int nb = model.blocks.size();
    // which coordinates vary
    std::vector<int> ti;
    std::vector<int> active;
    for (int b = 0; b < nb; ++b) {
      if (!model.active(b)) continue;
      active.push_back(b);
      for (int i = 0; i < model.blocks[b].size; ++i)
        if (std::find(model.blocks[b].fixed.begin(), model.blocks[b].fixed.end(), i) == model.blocks[b].fixed.end()) ti.push_back(model.offset(b) + i + 1);
    }
    Arr rb;
    for (auto& s : model.res) {
      std::vector<int> v;
      for (int b : s.blocks) v.push_back(b + 1);
      rb.add(Ints(v));
    }
    std::vector<int> act;
    for (int b : active) act.push_back(b + 1);
    point(model.init());
    const int configs = r.range(2, 4);
    for (int k = 0; k < configs; ++k) configuration();
    // everything about the points
    Instance inst(&model, nullptr);
    Arr pts;
    for (auto& x : points) {
      inst.store = x;
      ceres::Problem::EvaluateOptions eo;
      for (int b : active) eo.parameter_blocks.push_back(inst.ptr[b]);
      double cost = 0;
      std::vector<double> res, g;
      ceres::CRSMatrix J;
      bool ok = true;
      if (!active.empty()) ok = inst.problem->Evaluate(eo, &cost, &res, &g, &J);
      std::vector<std::vector<double>> rows;
      bool finite = ok && std::isfinite(cost);
      if (ok && !active.empty()) {
        rows.assign(J.num_rows, std::vector<double>(J.num_cols, 0.0));
        for (int i = 0; i < J.num_rows; ++i)
          for (int q = J.rows[i]; q < J.rows[i + 1]; ++q) rows[i][J.cols[q]] = J.values[q];
      }
      pts.add(Obj().add("x", Dbls(x)).add("ok", B(finite)).add("c", D(cost)).add("g", Dbls(g)).add("J", Rows(rows)).str());
    }
    head = Obj().add("nb", I(nb)).add("res", rb.str()).add("active", Ints(act)).add("ti", Ints(ti)).add("pts", pts.str()).str();
  }
  std::string head = "{}";

  void configuration() {
    using namespace ceres;
    Solver::Options o;
    Callback cb;
    Instance inst(&model, nullptr, &cb);
    o.minimizer_type = TRUST_REGION;
    o.sparse_linear_algebra_library_type = EIGEN_SPARSE;
    o.logging_type = SILENT;
    o.num_threads = r.pick<int>(std::vector<int>{1, 1, 2, 4});
    o.max_num_iterations = r.range(1, 3);
    o.linear_solver_type = r.pick<LinearSolverType>(std::vector<LinearSolverType>{DENSE_QR, DENSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, DENSE_SCHUR, SPARSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, ITERATIVE_SCHUR, CGNR});
    o.linear_solver_ordering_type = AMD;
    bool iterative = false;
    if (o.linear_solver_type == SPARSE_NORMAL_CHOLESKY) o.dynamic_sparsity = r.chance(30);
    if (o.linear_solver_type == ITERATIVE_SCHUR) {
      iterative = true;
      o.preconditioner_type = r.pick<PreconditionerType>(std::vector<PreconditionerType>{IDENTITY, JACOBI, SCHUR_JACOBI, SCHUR_POWER_SERIES_EXPANSION, CLUSTER_JACOBI, CLUSTER_TRIDIAGONAL});
      o.use_explicit_schur_complement = o.preconditioner_type == SCHUR_JACOBI && r.chance(40);
      o.use_spse_initialization = !o.use_explicit_schur_complement && r.chance(20);
    } else if (o.linear_solver_type == CGNR) {
      iterative = true;
      o.preconditioner_type = r.pick<PreconditionerType>(std::vector<PreconditionerType>{IDENTITY, JACOBI, SUBSET});
      if (o.preconditioner_type == SUBSET)
        for (auto id : inst.ids)
          if (r.chance(50) || o.residual_blocks_for_subset_preconditioner.empty()) o.residual_blocks_for_subset_preconditioner.insert(id);
    }
    o.eta = 1e-14;
    o.max_linear_solver_iterations = 500;
    o.jacobi_scaling = r.chance(60);
    o.initial_trust_region_radius = std::pow(10.0, r.real(-1, 3));
    o.min_trust_region_radius = 1e-12;
    o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 1e-14;
    o.min_relative_decrease = r.chance(50) ? 1e-3 : 0;
    const bool mixed = !iterative && o.linear_solver_type != DENSE_QR && r.chance(12);
    if (mixed) {
      o.use_mixed_precision_solves = true;
      o.max_num_refinement_iterations = 4;
    } else {
      o.max_num_refinement_iterations = std::max(0, r.range(-2, 3));
    }
    double stranger = 0;
    const bool given = r.chance(75);
    std::vector<std::pair<int, std::vector<int>>> groups;
    if (given) {
      groups = ordering();
      o.linear_solver_ordering = std::make_shared<ParameterBlockOrdering>();
      for (auto& [g, bl] : groups)
        for (int b : bl) o.linear_solver_ordering->AddElementToGroup(b == 100 ? &stranger : inst.ptr[b], g);
    }
    Arr go;
    for (auto& [g, bl] : groups) {
      std::vector<int> v;
      for (int b : bl) v.push_back(b == 100 ? 0 : b + 1);
      go.add(Obj().add("id", I(g)).add("b", Ints(v)).str());
    }
    std::string why;
    const bool valid = o.IsValid(&why);
    if (!valid) std::cerr << "invalid options: " << why << "\n";
    Obj c;
    c.add("ev", S("config")).add("type", S(LinearSolverTypeToString(o.linear_solver_type))).add("pre", S(PreconditionerTypeToString(o.preconditioner_type)));
    c.add("dynamic", B(o.dynamic_sparsity)).add("given", B(given)).add("groups", go.str()).add("threads", I(o.num_threads)).add("iterative", B(iterative)).add("mixed", B(mixed));
    c.add("jsc", B(o.jacobi_scaling)).add("mind", D(o.min_lm_diagonal)).add("maxd", D(o.max_lm_diagonal)).add("radius", D(o.initial_trust_region_radius)).add("explicit", B(o.use_explicit_schur_complement));
    ev.add(c.str());
    cb.f = [&](bool j, bool n) { ev.add(Obj().add("ev", S("P")).add("p", I(point(inst.store))).add("j", B(j)).add("n", B(n)).str()); };
    It it;
    it.f = [&](const IterationSummary& s) {
      ev.add(Obj().add("ev", S("I")).add("i", I(s.iteration)).add("ok", B(s.step_is_successful)).add("valid", B(s.step_is_valid)).add("r", D(s.trust_region_radius)).str());
    };
    o.callbacks.push_back(&it);
    Solver::Summary sum;
    bool died = false;
    absl_shim::throw_on_fatal = true;
    try {
      Solve(o, inst.problem.get(), &sum);
    } catch (const absl_shim::Fatal& f) {
      died = true;
      sum.message = f.what();
    }
    absl_shim::throw_on_fatal = false;
    Obj e;
    e.add("ev", S("end")).add("died", B(died)).add("end", S(TerminationTypeToString(sum.termination_type))).add("type", S(LinearSolverTypeToString(sum.linear_solver_type_used))).add("pre", S(PreconditionerTypeToString(sum.preconditioner_type_used)));
    e.add("gtype", S(LinearSolverTypeToString(sum.linear_solver_type_given))).add("gpre", S(PreconditionerTypeToString(sum.preconditioner_type_given)));
    e.add("given", Ints(sum.linear_solver_ordering_given)).add("used", Ints(sum.linear_solver_ordering_used)).add("threads", I(sum.num_threads_used));
    e.add("x", I(point(inst.store))).add("msg", S(sum.message));
    ev.add(e.str());
  }
};

int main() {
  absl_shim::quiet = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    char mode;
    uint64_t seed;
    in >> mode >> seed;
    Obj o;
    o.add("mode", S(std::string(1, mode)));
    if (mode == 'M') {
      Systems s(seed);
      s.run();
      o.add("head", "{}").add("ev", s.ev.str());
    } else {
      Configs c(seed);
      c.run();
      o.add("head", c.head).add("ev", c.ev.str());
    }
    std::cout << o.str() << "\n" << std::flush;
  }
}
