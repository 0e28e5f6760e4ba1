SPECIFICATION Spec
CONSTANTS DenseLibraries = {"EIGEN"}
 SparseLibraries = {"EIGEN_SPARSE"}
 NestedDissection = FALSE
CHECK_DEADLOCK TRUE
