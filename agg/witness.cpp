// Makes the compiler emit the header-only code of the library (constructors, destructors,
// inline helpers, templates), so that it is analysed like everything else.
#include <aggregation/def.h>
#include <aggregation/BCSCMatrix.h>
#include <aggregation/FusionDemo.h>
#include <aggregation/group.h>
#include <aggregation/group_utils.h>
#include <aggregation/hdagg.h>
#include <aggregation/lbc.h>
#include <aggregation/lbc_utils.h>
#include <aggregation/lfactor_creation.h>
#include <aggregation/sparse_inspector.h>
#include <aggregation/sparse_io.h>
#include <aggregation/sparse_utilities.h>
#include <aggregation/test_utils.h>
#include <aggregation/utils.h>
namespace agg_witness {
using namespace sym_lib;
void csc(size_t m, size_t n, size_t z, bool pat, int st, int *p, int *i, double *x) {
 CSC a(m, n, z); CSC b(m, n, z, pat); CSC c(m, n, z, pat, st); CSC d(m, n, z, p, i, x); CSC e(m, n, z, p, i, st);
}
void csr(size_t m, size_t n, size_t z, bool pat, int st, int *p, int *i) {
 CSR a(m, n, z); CSR b(m, n, z, pat); CSR c(m, n, z, p, i, st);
}
void bcsc(CSC *A, int nodes, int *sup) { BCSC a(A); BCSCMatrix m(A); BCSCMatrix k(A, nodes, sup); k.getBCSC(); }
void dense(size_t m, size_t n, size_t l) { Dense d(m, n, l); }
void grp(int n, int *p, int *i) { group g(n, p, i); g.NaiveGrouping(n, p, i, n, i, 1); }
void lf(int n) { LFactorSymbolicInfo l(n); }
void tmpl(int b, int e, double *u, double *v, int *iu, int *iv, int fd, CSC *A) {
 copy_vector(b, e, u, v); copy_vector(b, e, iu, iv); sum_vector(e, u); sum_vector(e, iu);
 is_equal(b, e, (const double *)u, (const double *)v, 1e-8); is_equal(e, (const double *)u, 1.0, 1e-8); is_equal(b, e, (const int *)iu, (const int *)iv, 1e-8);
 print_vec("", b, e, u); print_vec("", b, e, iu);
}
}
