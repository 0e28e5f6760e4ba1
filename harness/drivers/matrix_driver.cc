// Histories of operations on the real matrix containers, recorded for
// MatricesTrace.tla.  Input: mode and seed per line.
//   H  a store of containers that are created, converted, changed and queried
//   Y  a history of one dynamic matrix
//   V  a block sparse Jacobian with E and F columns: views, inner products
//   R  block random access matrices
//   K  dense kernels
//   U  utilities of compressed column matrices
#include <cmath>
#include <iostream>
#include <limits>
#include <memory>
#include <set>
#include <sstream>

#include "absl/log/shim.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_diagonal_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/compressed_col_sparse_matrix_utils.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/dynamic_compressed_row_sparse_matrix.h"
#include "ceres/inner_product_computer.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/partitioned_matrix_view_impl.h"
#include "ceres/small_blas.h"
#include "ceres/triplet_sparse_matrix.h"
#include "drv.h"
using namespace drv;
using namespace ceres;
using namespace ceres::internal;
using CRS = CompressedRowSparseMatrix;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0"; }

// Integers as they are; anything else as a number that is never expected.
static std::string Z(double v) {
  if (v == std::floor(v) && std::abs(v) < 1e9) return I((long long)v);
  return "2000000011";
}
static std::string Zs(const double* p, size_t n) {
  Arr a;
  for (size_t i = 0; i < n; ++i) a.add(Z(p[i]));
  return a.str();
}
static std::string Zs(const std::vector<double>& v) { return Zs(v.data(), v.size()); }
static std::string Zm(const double* p, int r, int c) {
  Arr a;
  for (int i = 0; i < r; ++i) a.add(Zs(p + i * c, c));
  return a.str();
}
static std::string Blocks(const std::vector<Block>& b) {
  Arr a;
  for (auto& x : b) a.add(Ints(std::vector<int>{x.size, x.position}));
  return a.str();
}
static std::vector<Block> MakeBlocks(const std::vector<int>& sizes) {
  std::vector<Block> b;
  int p = 0;
  for (int s : sizes) {
    b.emplace_back(s, p);
    p += s;
  }
  return b;
}

// Output memory with guards on both sides.
struct Out {
  int n;
  std::vector<double> b;
  explicit Out(const std::vector<double>& init) : n(init.size()), b(n + 8, 12345.678) {
    std::copy(init.begin(), init.end(), b.begin() + 4);
  }
  double* p() { return b.data() + 4; }
  bool ok() const {
    for (int i = 0; i < 4; ++i)
      if (b[i] != 12345.678 || b[n + 4 + i] != 12345.678) return false;
    return true;
  }
};

// ------------------------------------------------------------------- dumps
static std::string Dump(const TripletSparseMatrix& m) {
  Arr e;
  for (int i = 0; i < m.num_nonzeros(); ++i)
    e.add("[" + I(m.rows()[i]) + "," + I(m.cols()[i]) + "," + Z(m.values()[i]) + "]");
  return Obj().add("k", S("T")).add("nr", I(m.num_rows())).add("nc", I(m.num_cols())).add("ent", e.str()).str();
}
static std::string Dump(const CRS& m, const char* k = "C") {
  const char* st = m.storage_type() == CRS::StorageType::UNSYMMETRIC        ? "N"
                   : m.storage_type() == CRS::StorageType::LOWER_TRIANGULAR ? "L"
                                                                            : "U";
  const int n = m.num_nonzeros();
  return Obj()
      .add("k", S(k))
      .add("nr", I(m.num_rows()))
      .add("nc", I(m.num_cols()))
      .add("rows", Ints(std::vector<int>(m.rows(), m.rows() + m.num_rows() + 1)))
      .add("cols", Ints(std::vector<int>(m.cols(), m.cols() + n)))
      .add("vals", Zs(m.values(), n))
      .add("st", S(st))
      .add("rb", Blocks(m.row_blocks()))
      .add("cb", Blocks(m.col_blocks()))
      .str();
}
static std::string Structure(const CompressedRowBlockStructure& bs, bool full) {
  Arr rows;
  for (auto& r : bs.rows) {
    Arr cells;
    for (auto& c : r.cells) cells.add("[" + I(c.block_id) + "," + I(c.position) + "]");
    Obj o;
    o.add("b", Ints(std::vector<int>{r.block.size, r.block.position})).add("c", cells.str());
    if (full) o.add("n", I(r.nnz)).add("cum", I(r.cumulative_nnz));
    rows.add(o.str());
  }
  return Obj().add("cols", Blocks(bs.cols)).add("rows", rows.str()).str();
}
static std::string Dump(const BlockSparseMatrix& m) {
  return Obj()
      .add("k", S("B"))
      .add("nr", I(m.num_rows()))
      .add("nc", I(m.num_cols()))
      .add("nnz", I(m.num_nonzeros()))
      .add("bs", Structure(*m.block_structure(), false))
      .add("tr", Structure(*m.transpose_block_structure(), true))
      .add("vals", Zs(m.values(), m.num_nonzeros()))
      .str();
}
static std::string Dump(const DenseSparseMatrix& m) {
  return Obj()
      .add("k", S("D"))
      .add("nr", I(m.num_rows()))
      .add("nc", I(m.num_cols()))
      .add("nnz", I(m.num_nonzeros()))
      .add("m", Zm(m.matrix().data(), m.num_rows(), m.num_cols()))
      .str();
}

struct Thing {
  std::unique_ptr<TripletSparseMatrix> t;
  std::unique_ptr<CRS> c;
  std::unique_ptr<DynamicCompressedRowSparseMatrix> y;
  std::unique_ptr<BlockSparseMatrix> b;
  std::unique_ptr<DenseSparseMatrix> d;
  int from = -1;        // a C made of B `from`, whose structure did not change since
  bool transposed = false;
  bool sequential = true;  // of a B: cells lie in memory in row order
  int version = 0;      // of a B: grows with its structure
  int from_version = 0;
  std::vector<int> rowblocks;  // of a Y: entries pending per row
  SparseMatrix& m() const {
    return t ? static_cast<SparseMatrix&>(*t) : c ? *c : y ? *y : b ? static_cast<SparseMatrix&>(*b) : *d;
  }
  char kind() const { return t ? 'T' : c ? 'C' : y ? 'Y' : b ? 'B' : 'D'; }
  std::string dump() const { return t ? Dump(*t) : c ? Dump(*c) : y ? Dump(*y, "Y") : b ? Dump(*b) : Dump(*d); }
};

static ContextImpl* context() {
  static ContextImpl* c = [] {
    auto* c = new ContextImpl;
    c->EnsureMinimumThreads(4);
    return c;
  }();
  return c;
}

struct Run {
  Rng r;
  Arr ev;
  std::vector<Thing> st;
  explicit Run(uint64_t s) : r(s) {}
  double val() { return r.chance(15) ? 0 : r.range(-4, 4); }
  std::vector<double> vec(int n) {
    std::vector<double> v;
    v.reserve(n + 1);  // never null
    v.resize(n);
    for (double& x : v) x = r.range(-3, 3);
    return v;
  }
  std::vector<int> sizes(int lo, int hi, int big) {
    std::vector<int> s(r.range(lo, hi));
    for (int& x : s) x = r.range(1, big);
    return s;
  }
  int add(Thing&& t) {
    st.push_back(std::move(t));
    return st.size() - 1;
  }
  void put(const char* e, int id, Obj& o) { ev.add(o.add("ev", S(e)).add("id", I(id)).str()); }
  void put(const char* e, int id, Obj&& o) { put(e, id, o); }

  // ------------------------------------------------------------- creation
  std::unique_ptr<BlockSparseMatrix> makeB(const std::vector<int>& rb, const std::vector<int>& cb, int density,
                                           int order, int ne = -1) {
    auto* bs = new CompressedRowBlockStructure;
    bs->cols = MakeBlocks(cb);
    std::vector<Block> rows = MakeBlocks(rb);
    for (auto& b : rows) {
      CompressedRow row;
      row.block = b;
      for (int c = 0; c < (int)cb.size(); ++c)
        if (r.chance(density)) row.cells.emplace_back(c, 0);
      if (order & 1)  // cells out of order
        for (int i = (int)row.cells.size() - 1; i > 0; --i) std::swap(row.cells[i], row.cells[r.below(i + 1)]);
      bs->rows.push_back(row);
    }
    // positions: in row order, or the E cells (or any cells) first
    int pos = 0;
    auto place = [&](auto pick) {
      for (auto& row : bs->rows)
        for (auto& c : row.cells)
          if (pick(c.block_id)) {
            c.position = pos;
            pos += row.block.size * cb[c.block_id];
          }
    };
    if (order & 2) {
      const int k = r.range(0, cb.size());
      place([&](int c) { return c < k; });
      place([&](int c) { return c >= k; });
    } else {
      place([](int) { return true; });
    }
    auto m = std::make_unique<BlockSparseMatrix>(bs);
    for (int i = 0; i < m->num_nonzeros(); ++i) m->mutable_values()[i] = val();
    return m;
  }
  void triplets(int nr, int nc, int density, std::vector<int>* R, std::vector<int>* C, std::vector<double>* V) {
    for (int i = 0; i < nr; ++i)
      for (int j = 0; j < nc; ++j)
        if (r.chance(density)) {
          R->push_back(i);
          C->push_back(j);
          V->push_back(val());
        }
    for (int i = (int)R->size() - 1; i > 0; --i) {
      const int k = r.below(i + 1);
      std::swap((*R)[i], (*R)[k]);
      std::swap((*C)[i], (*C)[k]);
      std::swap((*V)[i], (*V)[k]);
    }
  }
  void create(int what = -1) {
    if (what < 0) what = r.below(10);
    Thing t;
    Obj o;
    if (what <= 2) {
      const int nr = r.range(0, 6), nc = r.range(r.chance(10) ? 0 : 1, 6);
      std::vector<int> R, C;
      std::vector<double> V;
      triplets(nr, nc, r.pick<int>({20, 50, 90}), &R, &C, &V);
      if (r.chance(50)) {
        t.t = std::make_unique<TripletSparseMatrix>(nr, nc, R, C, V);
      } else {
        t.t = std::make_unique<TripletSparseMatrix>(nr, nc, V.size() + r.below(3));
        std::copy(R.begin(), R.end(), t.t->mutable_rows());
        std::copy(C.begin(), C.end(), t.t->mutable_cols());
        std::copy(V.begin(), V.end(), t.t->mutable_values());
        t.t->set_num_nonzeros(V.size());
      }
      Arr e;
      for (size_t i = 0; i < V.size(); ++i) e.add("[" + I(R[i]) + "," + I(C[i]) + "," + Z(V[i]) + "]");
      o.add("k", S("T")).add("nr", I(nr)).add("nc", I(nc)).add("ent", e.str());
    } else if (what <= 6) {
      auto rb = sizes(0, 4, 3), cb = sizes(1, 4, 4);
      const int order = r.below(4);
      t.b = makeB(rb, cb, r.pick<int>({25, 55, 90}), order);
      t.sequential = !(order & 2);
      o.add("k", S("B")).add("rb", Ints(rb)).add("cb", Ints(cb));
    } else if (what == 7) {
      // a diagonal
      auto sz = sizes(1, 4, 3);
      int n = 0;
      for (int s : sz) n += s;
      auto d = vec(n);
      const int k = r.below(4);
      if (k == 0) t.t = TripletSparseMatrix::CreateSparseDiagonalMatrix(d.data(), n);
      if (k == 1) t.c = std::make_unique<CRS>(d.data(), n);
      if (k == 2) t.c = CRS::CreateBlockDiagonalMatrix(d.data(), MakeBlocks(sz));
      if (k == 3) t.b = BlockSparseMatrix::CreateDiagonalMatrix(d.data(), MakeBlocks(sz));
      o.add("how", S(k == 0 ? "T" : k == 1 ? "C" : k == 2 ? "CB" : "B")).add("d", Zs(d)).add("sz", Ints(sz));
      o.add("obj", t.dump());
      const int id = add(std::move(t));
      put("diag", id, o);
      return;
    } else if (what == 8) {
      const int nr = r.range(1, 7), nc = r.range(1, 5);
      t.y = std::make_unique<DynamicCompressedRowSparseMatrix>(nr, nc, r.below(8));
      o.add("k", S("Y")).add("nr", I(nr)).add("nc", I(nc));
    } else {
      const int nr = r.range(1, 5), nc = r.range(1, 5);
      Matrix m(nr, nc);
      for (int i = 0; i < nr * nc; ++i) m.data()[i] = val();
      if (r.chance(50)) {
        t.d = std::make_unique<DenseSparseMatrix>(m);
      } else {
        t.d = std::make_unique<DenseSparseMatrix>(nr, nc);
        *t.d->mutable_matrix() = m;
      }
      o.add("k", S("D")).add("nr", I(nr)).add("nc", I(nc)).add("m", Zm(m.data(), nr, nc));
    }
    o.add("obj", t.dump());
    const int id = add(std::move(t));
    put("new", id, o);
  }

  // A C with a triangle of a symmetric matrix stored (whole blocks on the
  // diagonal, as Ceres makes them).
  void createSymmetric() {
    auto sz = sizes(1, 4, 3);
    auto bl = MakeBlocks(sz);
    const bool lower = r.chance(50);
    int n = 0;
    for (int s : sz) n += s;
    Matrix full = Matrix::Zero(n, n);
    std::vector<int> R, C;
    std::vector<double> V;
    for (int i = 0; i < (int)sz.size(); ++i)
      for (int j = 0; j < (int)sz.size(); ++j) {
        if (lower ? i < j : i > j) continue;
        if (!r.chance(60)) continue;
        for (int a = 0; a < sz[i]; ++a)
          for (int b = 0; b < sz[j]; ++b) {
            double v = i == j && b < a ? full(bl[j].position + b, bl[i].position + a) : val();
            full(bl[i].position + a, bl[j].position + b) = v;
            R.push_back(bl[i].position + a);
            C.push_back(bl[j].position + b);
            V.push_back(v);
          }
      }
    TripletSparseMatrix tm(n, n, R, C, V);
    Thing t;
    t.c = CRS::FromTripletSparseMatrix(tm);
    t.c->set_storage_type(lower ? CRS::StorageType::LOWER_TRIANGULAR : CRS::StorageType::UPPER_TRIANGULAR);
    if (r.chance(50)) {
      *t.c->mutable_row_blocks() = bl;
      *t.c->mutable_col_blocks() = bl;
    }
    Arr e;
    for (size_t i = 0; i < V.size(); ++i) e.add("[" + I(R[i]) + "," + I(C[i]) + "," + Z(V[i]) + "]");
    Obj o;
    o.add("nr", I(n)).add("nc", I(n)).add("ent", e.str()).add("st", S(lower ? "L" : "U"));
    o.add("sz", Ints(t.c->row_blocks().empty() ? std::vector<int>{} : sz)).add("obj", t.dump());
    const int id = add(std::move(t));
    put("sym", id, o);
  }

  // ----------------------------------------------------------- conversions
  void convert(int i) {
    Thing t;
    const char* how = nullptr;
    switch (st[i].kind()) {
      case 'T': {
        const int k = r.below(6);
        if (k == 0) t.c = CRS::FromTripletSparseMatrix(*st[i].t), how = "TC";
        if (k == 1) t.c = CRS::FromTripletSparseMatrixTransposed(*st[i].t), how = "TCt";
        if (k == 2) t.d = std::make_unique<DenseSparseMatrix>(*st[i].t), how = "TD";
        if (k == 3) t.t = std::make_unique<TripletSparseMatrix>(*st[i].t), how = "TT";
        if (k >= 4) {
          // assignment to another, or to itself
          int j = r.below(st.size());
          if (st[j].kind() != 'T') j = i;
          *st[j].t = *st[i].t;
          put("assign", j, Obj().add("from", I(i)).add("obj", st[j].dump()));
          return;
        }
        break;
      }
      case 'B': {
        const int k = r.below(3);
        if (k == 0) t.c = st[i].b->ToCompressedRowSparseMatrix(), how = "BC";
        if (k == 1) t.c = st[i].b->ToCompressedRowSparseMatrixTranspose(), how = "BCt", t.transposed = true;
        if (k < 2) t.from = i, t.from_version = st[i].version;
        if (k == 2) {
          if (r.chance(50)) t.t = std::make_unique<TripletSparseMatrix>();
          else t.t = std::make_unique<TripletSparseMatrix>(r.below(5), r.below(5), r.below(9));
          st[i].b->ToTripletSparseMatrix(t.t.get());
          how = "BT";
        }
        break;
      }
      case 'C': {
        if (st[i].c->row_blocks().empty() != st[i].c->col_blocks().empty()) return;
        t.c = st[i].c->Transpose();
        how = "Ct";
        break;
      }
      default:
        return;
    }
    std::string d = t.dump();
    const int id = add(std::move(t));
    put("conv", id, Obj().add("how", S(how)).add("from", I(i)).add("obj", d));
  }

  // --------------------------------------------------------------- changes
  double largest(const Thing& t) {
    double s = 0;
    const int n = t.m().num_nonzeros();
    for (int k = 0; k < n; ++k) s = std::max(s, std::abs(t.m().values()[k]));
    return s;
  }
  void scale(int i) {
    Thing& t = st[i];
    if (largest(t) > 300) return;
    auto s = vec(t.m().num_cols());
    Out x(s);
    if (t.b && r.chance(60)) t.b->ScaleColumns(x.p(), context(), r.range(1, 4));
    else if (r.chance(30)) t.m().ScaleColumns(x.p(), context(), r.range(1, 4));
    else t.m().ScaleColumns(x.p());
    put("scale", i, Obj().add("s", Zs(s)).add("obj", t.dump()).add("g", B(x.ok())));
  }
  void zero(int i) {
    Thing& t = st[i];
    if (r.chance(50)) t.m().SetZero();
    else t.m().SetZero(context(), r.range(1, 4));
    put("zero", i, Obj().add("obj", t.dump()));
  }
  void append(int i) {
    Thing& t = st[i];
    if (t.t) {
      // another of as many columns (rows)
      const bool rows = r.chance(60);
      const int nr = rows ? r.range(0, 3) : t.t->num_rows(), nc = rows ? t.t->num_cols() : r.range(0, 3);
      std::vector<int> R, C;
      std::vector<double> V;
      triplets(nr, nc, 60, &R, &C, &V);
      TripletSparseMatrix m(nr, nc, R, C, V);
      if (rows) t.t->AppendRows(m);
      else t.t->AppendCols(m);
      put(rows ? "approws" : "appcols", i, Obj().add("other", Dump(m)).add("obj", t.dump()));
    } else if (t.b) {
      std::vector<int> cb;
      for (auto& c : t.b->block_structure()->cols) cb.push_back(c.size);
      const int order = r.below(4);
      auto m = makeB(sizes(0, 3, 3), cb, r.pick<int>({20, 60, 100}), order);
      std::unique_ptr<BlockSparseMatrix> diag;
      if (r.chance(30)) {
        auto d = vec(t.b->num_cols());
        m = BlockSparseMatrix::CreateDiagonalMatrix(d.data(), t.b->block_structure()->cols);
      }
      t.b->AppendRows(*m);
      ++t.version;
      put("approws", i, Obj().add("other", Dump(*m)).add("obj", t.dump()));
    } else if (t.c && t.c->storage_type() == CRS::StorageType::UNSYMMETRIC) {
      std::unique_ptr<CRS> m;
      if (t.c->row_blocks().empty()) {
        const int nr = r.range(0, 3), nc = t.c->num_cols();
        std::vector<int> R, C;
        std::vector<double> V;
        triplets(nr, nc, 60, &R, &C, &V);
        m = CRS::FromTripletSparseMatrix(TripletSparseMatrix(nr, nc, R, C, V));
      } else {
        std::vector<int> cb;
        for (auto& c : t.c->col_blocks()) cb.push_back(c.size);
        if (cb.empty()) return;
        auto rb = sizes(1, 3, 3);
        m = makeB(rb, cb, 60, 0)->ToCompressedRowSparseMatrix();
        // positions of appended blocks go on where the first ones end
        for (auto& b : *m->mutable_row_blocks()) b.position += t.c->num_rows();
      }
      std::string other = Dump(*m);
      t.c->AppendRows(*m);
      t.from = -1;
      put("approws", i, Obj().add("other", other).add("obj", t.dump()));
    }
  }
  void remove(int i) {
    Thing& t = st[i];
    if (t.t) {
      const int nr = r.range(0, t.t->num_rows() + 1), nc = r.range(0, t.t->num_cols() + 1);
      t.t->Resize(nr, nc);
      put("resize", i, Obj().add("nr", I(nr)).add("nc", I(nc)).add("obj", t.dump()));
    } else if (t.b) {
      // rows that are last in memory too
      auto* bs = t.b->block_structure();
      const int n = bs->rows.size();
      int most = 0, end = t.b->num_nonzeros();
      for (; most < n; ++most) {
        std::vector<std::pair<int, int>> c;
        for (auto& x : bs->rows[n - 1 - most].cells)
          c.push_back({x.position, bs->rows[n - 1 - most].block.size * bs->cols[x.block_id].size});
        std::sort(c.rbegin(), c.rend());
        int e = end;
        bool ok = true;
        for (auto& x : c) {
          ok = ok && x.first + x.second == e;
          e = x.first;
        }
        if (!ok) break;
        end = e;
      }
      const int k = r.range(0, most);
      t.b->DeleteRowBlocks(k);
      ++t.version;
      put("delblocks", i, Obj().add("n", I(k)).add("obj", t.dump()));
    } else if (t.c && t.c->storage_type() == CRS::StorageType::UNSYMMETRIC) {
      int k;
      if (t.c->row_blocks().empty()) {
        k = r.range(0, t.c->num_rows());
      } else {
        const int nb = r.range(0, t.c->row_blocks().size());
        k = 0;
        for (int b = nb; b < (int)t.c->row_blocks().size(); ++b) k += t.c->row_blocks()[b].size;
      }
      t.c->DeleteRows(k);
      t.from = -1;
      put("delrows", i, Obj().add("n", I(k)).add("obj", t.dump()));
    }
  }
  void other(int i) {
    Thing& t = st[i];
    if (t.t) {
      t.t->Reserve(t.t->num_nonzeros() + r.below(6));
      put("same", i, Obj().add("obj", t.dump()));
    } else if (t.c && t.from >= 0 && st[t.from].version == t.from_version) {
      // as the matrix it was made of is now
      if (t.transposed) st[t.from].b->UpdateCompressedRowSparseMatrixTranspose(t.c.get());
      else st[t.from].b->UpdateCompressedRowSparseMatrix(t.c.get());
      put("update", i, Obj().add("how", S(t.transposed ? "BCt" : "BC")).add("from", I(t.from)).add("obj", t.dump()));
    } else if (t.c) {
      t.c->SetMaxNumNonZeros(t.c->num_nonzeros() + r.below(4));
      put("same", i, Obj().add("obj", t.dump()));
    } else if (t.y) {
      // entries; then they become the contents
      const int nr = t.y->num_rows(), nc = t.y->num_cols();
      if (r.chance(50)) {
        const int a = r.range(0, nr), n = r.range(0, nr - a);
        t.y->ClearRows(a, n);
        put("clear", i, Obj().add("a", I(a)).add("n", I(n)));
        for (int k = a; k < a + n; ++k) {
          std::set<int> cs;
          for (int q = r.below(nc + 1); q > 0; --q) cs.insert(r.below(nc));
          std::vector<int> cv(cs.begin(), cs.end());
          if (r.chance(50)) std::reverse(cv.begin(), cv.end());
          for (int c : cv) {
            const double v = val();
            t.y->InsertEntry(k, c, v);
            put("insert", i, Obj().add("r", I(k)).add("c", I(c)).add("v", Z(v)));
          }
        }
      }
      if (r.chance(70)) {
        t.y->Finalize(r.below(4));
        put("finalize", i, Obj().add("obj", t.dump()));
      }
    }
  }

  // --------------------------------------------------------------- queries
  void query(int i) {
    Thing& t = st[i];
    SparseMatrix& m = t.m();
    const int nr = m.num_rows(), nc = m.num_cols();
    const int th = r.chance(50) ? 1 : r.range(2, 4);
    switch (r.below(7)) {
      case 0: {
        auto x = vec(nc), y = vec(nr);
        Out o(y);
        if (r.chance(60)) m.RightMultiplyAndAccumulate(x.data(), o.p(), context(), th);
        else m.RightMultiplyAndAccumulate(x.data(), o.p());
        put("right", i, Obj().add("x", Zs(x)).add("y", Zs(y)).add("o", Zs(o.p(), nr)).add("g", B(o.ok())));
        break;
      }
      case 1: {
        auto x = vec(nr), y = vec(nc);
        Out o(y);
        if (t.b && r.chance(60)) t.b->LeftMultiplyAndAccumulate(x.data(), o.p(), context(), th);
        else m.LeftMultiplyAndAccumulate(x.data(), o.p());
        put("left", i, Obj().add("x", Zs(x)).add("y", Zs(y)).add("o", Zs(o.p(), nc)).add("g", B(o.ok())));
        break;
      }
      case 2: {
        if (largest(t) > 5000) return;
        Out o(std::vector<double>(nc, 0.5));
        if (r.chance(60)) m.SquaredColumnNorm(o.p(), context(), th);
        else m.SquaredColumnNorm(o.p());
        put("norms", i, Obj().add("o", Zs(o.p(), nc)).add("g", B(o.ok())));
        break;
      }
      case 3: {
        Matrix d = Matrix::Constant(r.below(3), r.below(3), 0.5);
        m.ToDenseMatrix(&d);
        put("dense", i,
            Obj().add("nr", I(d.rows())).add("nc", I(d.cols())).add("m", Zm(d.data(), d.rows(), d.cols())));
        break;
      }
      case 4: {
        FILE* f = std::tmpfile();
        m.ToTextFile(f);
        std::rewind(f);
        Arr e;
        int a, b;
        double v;
        while (std::fscanf(f, "%d %d %lf", &a, &b, &v) == 3) e.add("[" + I(a) + "," + I(b) + "," + Z(v) + "]");
        std::string back = "[]";
        std::rewind(f);
        if (t.t) back = "[" + Dump(*TripletSparseMatrix::CreateFromTextFile(f)) + "]";
        std::fclose(f);
        put("text", i, Obj().add("ent", e.str()).add("back", back));
        break;
      }
      case 5: {
        CRSMatrix c;
        c.rows = {1, 2, 3};
        c.cols.assign(r.below(20), 7);
        c.values.assign(r.below(20), 7);
        if (t.t) t.t->ToCRSMatrix(&c);
        else if (t.c) t.c->ToCRSMatrix(&c);
        else if (t.y) t.y->ToCRSMatrix(&c);
        else return;
        put("crs", i,
            Obj()
                .add("nr", I(c.num_rows))
                .add("nc", I(c.num_cols))
                .add("rows", Ints(c.rows))
                .add("cols", Ints(c.cols))
                .add("vals", Zs(c.values)));
        break;
      }
      default: {
        Obj o;
        o.add("nr", I(nr)).add("nc", I(nc)).add("nnz", I(m.num_nonzeros()));
        o.add("valid", B(t.t ? t.t->AllTripletsWithinBounds() && t.t->IsValid() : true));
        put("size", i, o);
      }
    }
  }

  void history() {
    create();
    const int steps = r.range(10, 30);
    for (int s = 0; s < steps; ++s) {
      const int k = r.below(100);
      const int i = r.chance(50) ? (int)st.size() - 1 : r.below(st.size());
      if (k < 6 && st.size() < 6) {
        if (r.chance(25)) createSymmetric();
        else create();
      } else if (k < 16 && st.size() < 7) {
        convert(i);
      } else if (k < 24) {
        scale(i);
      } else if (k < 26) {
        zero(i);
      } else if (k < 38) {
        if (st[i].m().num_rows() + st[i].m().num_cols() < 22) append(i);
      } else if (k < 48) {
        remove(i);
      } else if (k < 60) {
        other(i);
      } else {
        query(i);
      }
    }
    for (size_t i = 0; i < st.size(); ++i) put("size", i, Obj().add("nr", I(st[i].m().num_rows())).add("nc", I(st[i].m().num_cols())).add("nnz", I(st[i].m().num_nonzeros())).add("valid", B(true)));
  }

  void dynamic() {
    create(8);
    const int steps = r.range(6, 15);
    for (int s = 0; s < steps; ++s) {
      const int k = r.below(10);
      if (k < 6) other(0);
      else if (k == 6) scale(0);
      else if (k == 7) zero(0);
      else query(0);
    }
  }

  // ----------------------------------------------- views and inner products
  template <int R_, int E_, int F_>
  std::unique_ptr<PartitionedMatrixViewBase> view(const LinearSolver::Options& o, const BlockSparseMatrix& m) {
    return std::make_unique<PartitionedMatrixView<R_, E_, F_>>(o, m);
  }
  void views() {
    // Sizes of rows with an E cell, of E and of F blocks: fixed or not.
    struct Shape { int r, e, f; };
    static const std::vector<Shape> shapes = {{-1, -1, -1}, {2, 2, 2}, {2, 3, -1}, {2, -1, -1}, {1, 1, 1},
                                              {4, 4, 3},    {3, 3, 3}, {2, 3, 4},  {2, 4, 1},   {2, 5, 6}};
    const Shape sh = shapes[r.below(shapes.size())];
    const int ne = r.range(0, 4), nf = r.range(ne == 0 ? 1 : 0, 4);
    std::vector<int> cb;
    for (int i = 0; i < ne; ++i) cb.push_back(sh.e > 0 ? sh.e : r.range(1, 4));
    for (int i = 0; i < nf; ++i) cb.push_back(sh.f > 0 ? sh.f : r.range(1, 4));
    const int re = ne == 0 ? 0 : r.range(0, 6), rf = nf == 0 ? 0 : r.range(re == 0 ? 1 : 0, 3);
    std::vector<int> rb;
    auto* bs = new CompressedRowBlockStructure;
    bs->cols = MakeBlocks(cb);
    const bool partitioned = r.chance(40);
    for (int i = 0; i < re + rf; ++i) {
      rb.push_back(i < re && sh.r > 0 ? sh.r : r.range(1, 4));
      CompressedRow row;
      if (i < re) row.cells.emplace_back(r.below(ne), 0);
      for (int f = 0; f < nf; ++f)
        if (r.chance(50)) row.cells.emplace_back(ne + f, 0);
      if (row.cells.empty()) row.cells.emplace_back(ne + r.below(nf), 0);
      bs->rows.push_back(row);
    }
    if (rb.empty()) {
      delete bs;
      return create();
    }
    auto rbl = MakeBlocks(rb);
    int pos = 0;
    for (int pass = 0; pass < (partitioned ? 2 : 1); ++pass)
      for (size_t i = 0; i < bs->rows.size(); ++i) {
        bs->rows[i].block = rbl[i];
        for (auto& c : bs->rows[i].cells)
          if (!partitioned || (c.block_id < ne) == (pass == 0)) {
            c.position = pos;
            pos += rb[i] * cb[c.block_id];
          }
      }
    Thing t;
    t.b = std::make_unique<BlockSparseMatrix>(bs);
    for (int i = 0; i < t.b->num_nonzeros(); ++i) t.b->mutable_values()[i] = val();
    std::string d = t.dump();
    const int id = add(std::move(t));
    put("new", id, Obj().add("k", S("B")).add("rb", Ints(rb)).add("cb", Ints(cb)).add("obj", d));
    BlockSparseMatrix& m = *st[id].b;
    LinearSolver::Options o;
    o.elimination_groups = {ne};
    if (r.chance(50)) o.elimination_groups.push_back(nf);
    // without E blocks, only on one thread: no solver makes the other
    o.num_threads = ne == 0 || r.chance(40) ? 1 : r.range(2, 4);
    o.context = context();
    std::unique_ptr<PartitionedMatrixViewBase> v;
    const bool factory = r.chance(35);
    if (factory) {
      if (sh.r > 0) o.row_block_size = sh.r;
      if (sh.e > 0) o.e_block_size = sh.e;
      if (sh.f > 0) o.f_block_size = sh.f;
      v = PartitionedMatrixViewBase::Create(o, m);
    } else {
      switch (sh.r * 100 + sh.e * 10 + sh.f) {
        case 222: v = view<2, 2, 2>(o, m); break;
        case 229: v = view<2, 3, Eigen::Dynamic>(o, m); break;
        case 189: v = view<2, Eigen::Dynamic, Eigen::Dynamic>(o, m); break;
        case 111: v = view<1, 1, 1>(o, m); break;
        case 443: v = view<4, 4, 3>(o, m); break;
        case 333: v = view<3, 3, 3>(o, m); break;
        case 234: v = view<2, 3, 4>(o, m); break;
        case 241: v = view<2, 4, 1>(o, m); break;
        case 256: v = view<2, 5, 6>(o, m); break;
        default: v = view<Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic>(o, m);
      }
    }
    auto base = [&](const char* op) { return Obj().add("ne", I(ne)).add("op", S(op)); };
    put("view", id,
        base("sizes")
            .add("x", Ints(std::vector<int>{v->num_col_blocks_e(), v->num_col_blocks_f(), v->num_cols_e(),
                                            v->num_cols_f(), v->num_rows(), v->num_cols()})));
    std::unique_ptr<BlockSparseMatrix> ete, ftf;
    std::vector<std::pair<std::unique_ptr<InnerProductComputer>, std::pair<int, int>>> ip;
    const int steps = r.range(6, 14);
    for (int s = 0; s < steps; ++s) {
      const int ce = v->num_cols_e(), cf = v->num_cols_f(), nr = m.num_rows();
      const int k = r.below(10);
      if (k <= 1) {
        const bool e = k == 0;
        auto x = vec(e ? ce : cf), y = vec(nr);
        Out out(y);
        if (e) v->RightMultiplyAndAccumulateE(x.data(), out.p());
        else v->RightMultiplyAndAccumulateF(x.data(), out.p());
        put("view", id, base(e ? "RE" : "RF").add("x", Zs(x)).add("y", Zs(y)).add("o", Zs(out.p(), nr)).add("g", B(out.ok())));
      } else if (k <= 4) {
        const bool e = r.chance(50);
        auto x = vec(nr), y = vec(e ? ce : cf);
        Out out(y);
        const int how = r.below(3);
        // the two ways to do it directly: with the partition of columns, made
        // for several threads
        if (how == 0 || o.num_threads == 1) {
          if (e) v->LeftMultiplyAndAccumulateE(x.data(), out.p());
          else v->LeftMultiplyAndAccumulateF(x.data(), out.p());
        } else if (how == 1) {
          if (e) v->LeftMultiplyAndAccumulateESingleThreaded(x.data(), out.p());
          else v->LeftMultiplyAndAccumulateFSingleThreaded(x.data(), out.p());
        } else {
          if (e) v->LeftMultiplyAndAccumulateEMultiThreaded(x.data(), out.p());
          else v->LeftMultiplyAndAccumulateFMultiThreaded(x.data(), out.p());
        }
        put("view", id, base(e ? "LE" : "LF").add("x", Zs(x)).add("y", Zs(y)).add("o", Zs(out.p(), e ? ce : cf)).add("g", B(out.ok())));
      } else if (k <= 6) {
        const bool e = k == 5;
        auto& q = e ? ete : ftf;
        if (!q) q = e ? v->CreateBlockDiagonalEtE() : v->CreateBlockDiagonalFtF();
        else if (e) v->UpdateBlockDiagonalEtE(q.get());
        else v->UpdateBlockDiagonalFtF(q.get());
        put("view", id, base(e ? "EtE" : "FtF").add("obj", Dump(*q)));
      } else if (k == 7) {
        if (ip.empty() || (r.chance(40) && ip.size() < 3)) {
          const int n = rb.size();
          int lo = 0, hi = n;
          const auto stt = r.chance(50) ? CRS::StorageType::LOWER_TRIANGULAR : CRS::StorageType::UPPER_TRIANGULAR;
          std::unique_ptr<InnerProductComputer> c;
          if (r.chance(50)) {
            c = InnerProductComputer::Create(m, stt);
          } else {
            lo = r.range(0, n);
            hi = r.range(lo, n);
            c = InnerProductComputer::Create(m, lo, hi, stt);
          }
          ip.emplace_back(std::move(c), std::make_pair(lo, hi));
        }
        auto& c = ip[r.below(ip.size())];
        c.first->Compute();
        put("gram", id, Obj().add("lo", I(c.second.first)).add("hi", I(c.second.second)).add("obj", Dump(c.first->result())));
      } else if (k == 8) {
        if (largest(st[id]) < 20) scale(id);
      } else {
        query(id);
      }
    }
  }

  // ------------------------------------------------------- random access
  void access() {
    auto sz = sizes(1, 5, 4);
    auto bl = MakeBlocks(sz);
    const int nb = sz.size();
    int n = 0;
    for (int s : sz) n += s;
    const int th = r.range(1, 4);
    const int kind = r.below(3);
    std::unique_ptr<BlockRandomAccessMatrix> a;
    absl::btree_set<std::pair<int, int>> pairs;
    BlockRandomAccessSparseMatrix* sp = nullptr;
    BlockRandomAccessDiagonalMatrix* dg = nullptr;
    BlockRandomAccessDenseMatrix* de = nullptr;
    Arr pj;
    if (kind == 0) {
      a.reset(de = new BlockRandomAccessDenseMatrix(bl, context(), th));
    } else if (kind == 1) {
      for (int i = 0; i < nb; ++i)
        for (int j = i; j < nb; ++j)
          if (r.chance(i == j ? 80 : 45)) pairs.insert({i, j}), pj.add("[" + I(i) + "," + I(j) + "]");
      a.reset(sp = new BlockRandomAccessSparseMatrix(bl, pairs, context(), th));
    } else {
      a.reset(dg = new BlockRandomAccessDiagonalMatrix(bl, context(), th));
    }
    a->SetZero();
    const char* kn = kind == 0 ? "dense" : kind == 1 ? "sparse" : "diag";
    auto base = [&](const char* op) { return Obj().add("op", S(op)); };
    put("rnew", 0, base("new").add("k", S(kn)).add("sz", Ints(sz)).add("pairs", pj.str()).add("nr", I(a->num_rows())).add("nc", I(a->num_cols())));
    const int steps = r.range(4, 14);
    for (int s = 0; s < steps; ++s) {
      const int k = r.below(10);
      if (k <= 6) {
        int i = r.below(nb), j = r.chance(40) ? i : r.below(nb);
        if (kind == 1 && i > j && r.chance(70)) std::swap(i, j);
        int row = -1, col = -1, rs = -1, cs = -1;
        CellInfo* c = a->GetCell(i, j, &row, &col, &rs, &cs);
        if (!c) {
          put("radd", 0, base("add").add("i", I(i)).add("j", I(j)).add("null", B(true)).add("m", "[]"));
          continue;
        }
        Matrix v(sz[i], sz[j]);
        for (int q = 0; q < v.size(); ++q) v.data()[q] = val();
        MatrixRef(c->values, rs, cs).block(row, col, sz[i], sz[j]) += v;
        put("radd", 0, base("add").add("i", I(i)).add("j", I(j)).add("null", B(false)).add("m", Zm(v.data(), sz[i], sz[j])));
      } else if (k == 7 && r.chance(30)) {
        a->SetZero();
        put("rzero", 0, base("zero"));
      } else if (de) {
        put("rread", 0, base("read").add("m", Zm(de->values(), n, n)));
      } else if (sp) {
        if (r.chance(50)) {
          put("rdump", 0, base("dump").add("obj", Dump(*sp->matrix())));
        } else {
          auto x = vec(n), y = vec(n);
          Out o(y);
          sp->SymmetricRightMultiplyAndAccumulate(x.data(), o.p());
          put("rmul", 0, base("mul").add("x", Zs(x)).add("y", Zs(y)).add("o", Zs(o.p(), n)).add("g", B(o.ok())));
        }
      } else {
        if (r.chance(50)) {
          put("rdump", 0, base("dump").add("obj", Dump(*dg->matrix())));
        } else {
          auto x = vec(n), y = vec(n);
          Out o(y);
          dg->RightMultiplyAndAccumulate(x.data(), o.p());
          put("rmul", 0, base("mul").add("x", Zs(x)).add("y", Zs(y)).add("o", Zs(o.p(), n)).add("g", B(o.ok())));
        }
      }
    }
    if (dg) {
      // L L' with unit lower triangular integers has an integer inverse
      dg->SetZero();
      put("rzero", 0, base("zero"));
      for (int i = 0; i < nb; ++i) {
        Matrix l = Matrix::Identity(sz[i], sz[i]);
        for (int p = 0; p < sz[i]; ++p)
          for (int q = 0; q < p; ++q) l(p, q) = r.range(-1, 1);
        Matrix g = l * l.transpose();
        int row, col, rs, cs;
        CellInfo* c = dg->GetCell(i, i, &row, &col, &rs, &cs);
        MatrixRef(c->values, rs, cs).block(row, col, sz[i], sz[i]) = g;
        put("radd", 0, base("add").add("i", I(i)).add("j", I(i)).add("null", B(false)).add("m", Zm(g.data(), sz[i], sz[i])));
      }
      dg->Invert();
      auto* m = dg->mutable_matrix();
      for (int i = 0; i < m->num_nonzeros(); ++i) {
        double& v = m->mutable_values()[i];
        if (std::abs(v - std::round(v)) < 1e-6) v = std::round(v);
      }
      put("rinv", 0, base("invert").add("obj", Dump(*m)));
    }
  }

  // ---------------------------------------------------------------- kernels
  template <bool Tr, int A_, int B_, int C_, int D_, int Op>
  void mm(const double* a, int ra, int ca, const double* b, int rb, int cb, double* c, int r0, int c0, int rs, int cs) {
    if constexpr (Tr) MatrixTransposeMatrixMultiply<A_, B_, C_, D_, Op>(a, ra, ca, b, rb, cb, c, r0, c0, rs, cs);
    else MatrixMatrixMultiply<A_, B_, C_, D_, Op>(a, ra, ca, b, rb, cb, c, r0, c0, rs, cs);
  }
  template <bool Tr, int A_, int B_, int C_, int D_>
  void mmo(int op, const double* a, int ra, int ca, const double* b, int rb, int cb, double* c, int r0, int c0, int rs, int cs) {
    if (op > 0) mm<Tr, A_, B_, C_, D_, 1>(a, ra, ca, b, rb, cb, c, r0, c0, rs, cs);
    else if (op < 0) mm<Tr, A_, B_, C_, D_, -1>(a, ra, ca, b, rb, cb, c, r0, c0, rs, cs);
    else mm<Tr, A_, B_, C_, D_, 0>(a, ra, ca, b, rb, cb, c, r0, c0, rs, cs);
  }
  template <int A_, int B_>
  void mv(int op, bool tr, const double* a, int ra, int ca, const double* b, double* c) {
    if (tr) {
      if (op > 0) MatrixTransposeVectorMultiply<A_, B_, 1>(a, ra, ca, b, c);
      else if (op < 0) MatrixTransposeVectorMultiply<A_, B_, -1>(a, ra, ca, b, c);
      else MatrixTransposeVectorMultiply<A_, B_, 0>(a, ra, ca, b, c);
    } else {
      if (op > 0) MatrixVectorMultiply<A_, B_, 1>(a, ra, ca, b, c);
      else if (op < 0) MatrixVectorMultiply<A_, B_, -1>(a, ra, ca, b, c);
      else MatrixVectorMultiply<A_, B_, 0>(a, ra, ca, b, c);
    }
  }
  void kernels() {
    constexpr int X = Eigen::Dynamic;
    for (int k = 0; k < 14; ++k) {
      const int op = r.range(-1, 1);
      const bool tr = r.chance(50);
      if (r.chance(60)) {
        const int form = r.below(8);
        int ra = r.range(1, 7), ca = r.range(1, 7), cb = r.range(1, 14);
        switch (form) {  // sizes known to the compiler
          case 1: ra = 2; ca = 3; cb = 4; break;
          case 2: ra = 4; ca = 4; cb = 4; break;
          case 3: ra = 3; ca = 1; cb = 2; break;
          case 4: ra = 2; break;
          case 5: ra = 2; ca = 3; break;
          case 6: cb = 6; break;
          case 7: ra = 2; ca = 9; cb = 6; break;
        }
        const int in = tr ? ra : ca;   // the size that is summed over
        const int rb = in;
        const int rc = tr ? ca : ra;
        const int rs = rc + r.below(3), cs = cb + r.below(3);
        const int r0 = r.range(0, rs - rc), c0 = r.range(0, cs - cb);
        auto a = vec(ra * ca), b = vec(rb * cb), c = vec(rs * cs);
        Out o(c);
        double* p = o.p();
#define MMO(T_, A_, B_, C_, D_) mmo<T_, A_, B_, C_, D_>(op, a.data(), ra, ca, b.data(), rb, cb, p, r0, c0, rs, cs)
        if (tr) {
          switch (form) {
            case 1: MMO(true, 2, 3, 2, 4); break;
            case 2: MMO(true, 4, 4, 4, 4); break;
            case 3: MMO(true, 3, 1, 3, 2); break;
            case 4: MMO(true, 2, X, 2, X); break;
            case 5: MMO(true, 2, 3, 2, X); break;
            case 6: MMO(true, X, X, X, 6); break;
            case 7: MMO(true, 2, 9, 2, 6); break;
            default: MMO(true, X, X, X, X);
          }
        } else {
          switch (form) {
            case 1: MMO(false, 2, 3, 3, 4); break;
            case 2: MMO(false, 4, 4, 4, 4); break;
            case 3: MMO(false, 3, 1, 1, 2); break;
            case 4: MMO(false, 2, X, X, X); break;
            case 5: MMO(false, 2, 3, 3, X); break;
            case 6: MMO(false, X, X, X, 6); break;
            case 7: MMO(false, 2, 9, 9, 6); break;
            default: MMO(false, X, X, X, X);
          }
        }
        put("mm", 0, Obj().add("op", I(op)).add("tr", B(tr)).add("a", Zm(a.data(), ra, ca)).add("b", Zm(b.data(), rb, cb))
                         .add("c", Zm(c.data(), rs, cs)).add("o", Zm(p, rs, cs)).add("r0", I(r0)).add("c0", I(c0)).add("nb", I(cb)).add("rc", I(rc)).add("g", B(o.ok())));
      } else {
        const int form = r.below(7);
        int ra = r.range(1, 9), ca = r.range(1, 9);
        switch (form) {
          case 1: ra = 2; ca = 3; break;
          case 2: ra = 4; ca = 4; break;
          case 3: ra = 2; break;
          case 4: ca = 3; break;
          case 5: ra = 1; ca = 6; break;
          case 6: ra = 7; ca = 5; break;
        }
        auto a = vec(ra * ca), b = vec(tr ? ra : ca), c = vec(tr ? ca : ra);
        Out o(c);
        double* p = o.p();
        switch (form) {
          case 1: mv<2, 3>(op, tr, a.data(), ra, ca, b.data(), p); break;
          case 2: mv<4, 4>(op, tr, a.data(), ra, ca, b.data(), p); break;
          case 3: mv<2, X>(op, tr, a.data(), ra, ca, b.data(), p); break;
          case 4: mv<X, 3>(op, tr, a.data(), ra, ca, b.data(), p); break;
          case 5: mv<1, 6>(op, tr, a.data(), ra, ca, b.data(), p); break;
          case 6: mv<7, 5>(op, tr, a.data(), ra, ca, b.data(), p); break;
          default: mv<X, X>(op, tr, a.data(), ra, ca, b.data(), p);
        }
        put("mv", 0, Obj().add("op", I(op)).add("tr", B(tr)).add("a", Zm(a.data(), ra, ca)).add("b", Zs(b)).add("c", Zs(c)).add("o", Zs(p, c.size())).add("g", B(o.ok())));
      }
    }
  }

  // -------------------------------------------------------------- utilities
  void utilities() {
    {
      auto sz = sizes(0, 6, 4);
      auto bl = MakeBlocks(sz);
      std::vector<int> perm(sz.size());
      for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
      for (int i = (int)perm.size() - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
      std::vector<int> out(r.below(4), 9);
      BlockOrderingToScalarOrdering(bl, perm, &out);
      put("scalar", 0, Obj().add("sz", Ints(sz)).add("perm", Ints(perm)).add("o", Ints(out)));
    }
    {
      // a block sparse matrix's columns, compressed
      auto rb = sizes(1, 5, 3), cb = sizes(1, 5, 3);
      auto m = makeB(rb, cb, 50, 0);
      auto t = m->ToCompressedRowSparseMatrixTranspose();
      std::vector<int> br(r.below(3), 5), bc(r.below(3), 5);
      CompressedColumnScalarMatrixToBlockMatrix(t->cols(), t->rows(), MakeBlocks(rb), MakeBlocks(cb), &br, &bc);
      Arr cells;
      for (auto& row : m->block_structure()->rows) {
        std::vector<int> c;
        for (auto& x : row.cells) c.push_back(x.block_id);
        cells.add(Ints(c));
      }
      put("blocks", 0, Obj().add("cells", cells.str()).add("nb", I(cb.size())).add("br", Ints(br)).add("bc", Ints(bc)));
    }
    {
      // an upper triangular matrix with a unit diagonal, by columns
      const int n = r.range(1, 6);
      Matrix R = Matrix::Identity(n, n);
      std::vector<int> rows, cols = {0};
      std::vector<double> vals;
      for (int c = 0; c < n; ++c) {
        for (int i = 0; i < c; ++i)
          if (r.chance(60)) {
            R(i, c) = r.range(-2, 2);
            rows.push_back(i);
            vals.push_back(R(i, c));
          }
        R(c, c) = r.chance(70) ? 1 : -1;
        rows.push_back(c);
        vals.push_back(R(c, c));
        cols.push_back(rows.size());
      }
      auto x = vec(n);
      Out a(x), b(x), c(std::vector<double>(n, 0.5));
      SolveUpperTriangularInPlace(n, rows.data(), cols.data(), vals.data(), a.p());
      SolveUpperTriangularTransposeInPlace(n, rows.data(), cols.data(), vals.data(), b.p());
      const int k = r.below(n);
      SolveRTRWithSparseRHS(n, rows.data(), cols.data(), vals.data(), k, c.p());
      put("tri", 0, Obj().add("r", Zm(R.data(), n, n)).add("x", Zs(x)).add("a", Zs(a.p(), n)).add("b", Zs(b.p(), n)).add("c", Zs(c.p(), n)).add("k", I(k)).add("g", B(a.ok() && b.ok() && c.ok())));
    }
  }
};

int main() {
  absl_shim::quiet = true;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    char mode;
    uint64_t seed;
    in >> mode >> seed;
    Run r(seed);
    switch (mode) {
      case 'H': r.history(); break;
      case 'Y': r.dynamic(); break;
      case 'V': r.views(); break;
      case 'R': r.access(); break;
      case 'K': r.kernels(); break;
      default: r.utilities();
    }
    std::cout << Obj().add("mode", S(std::string(1, mode))).add("ev", r.ev.str()).str() << "\n" << std::flush;
  }
}
