ID = "c13-tail-rows"
PROPERTY = "C13"
NEEDS = "a partitioned view with fixed block sizes, several threads, and rows without an E cell whose size differs from the fixed one"
BREAKS = "the F part multiplied from the left by several threads reads the rows below as if they had the fixed row size"
EDITS = [("internal/ceres/partitioned_matrix_view_impl.h", "          if (col_block_id >= num_row_blocks_e) break;\n\n          MatrixTransposeVectorMultiply<kRowBlockSize, kFBlockSize, 1>", "          if (col_block_id > num_row_blocks_e) break;\n\n          MatrixTransposeVectorMultiply<kRowBlockSize, kFBlockSize, 1>")]
DEMO = r'''
#include <cstdio>
#include <vector>
#include "ceres/block_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/partitioned_matrix_view_impl.h"
using namespace ceres::internal;
int main() {
  auto* bs = new CompressedRowBlockStructure;
  bs->cols = {Block(3, 0), Block(2, 3), Block(1, 5)};
  auto row = [&](int size, int pos) {
    CompressedRow r;
    r.block = Block(size, pos);
    return r;
  };
  bs->rows.push_back(row(2, 0));
  bs->rows[0].cells = {Cell(0, 0), Cell(1, 6)};
  bs->rows.push_back(row(2, 2));
  bs->rows[1].cells = {Cell(0, 10), Cell(2, 16)};
  bs->rows.push_back(row(4, 4));
  bs->rows[2].cells = {Cell(1, 18), Cell(2, 26)};
  BlockSparseMatrix m(bs);
  for (int i = 0; i < m.num_nonzeros(); ++i) m.mutable_values()[i] = i % 7 - 3;
  ContextImpl context;
  context.EnsureMinimumThreads(3);
  LinearSolver::Options o;
  o.elimination_groups = {1};
  o.num_threads = 3;
  o.context = &context;
  PartitionedMatrixView<2, 3, Eigen::Dynamic> v(o, m);
  std::vector<double> x = {1, 2, -1, 3, 2, -2, 1, 4}, y(3, 0.0), z(6, 0.0);
  v.LeftMultiplyAndAccumulateF(x.data(), y.data());
  m.LeftMultiplyAndAccumulate(x.data(), z.data());
  bool bad = false;
  for (int i = 0; i < 3; ++i) bad |= y[i] != z[3 + i];
  std::puts(bad ? "wrong product" : "ok");
  return bad;
}
'''
