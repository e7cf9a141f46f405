// Every member of the public containers, operators and scalar products, instantiated explicitly.
#include "config.h"
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/matrixindexset.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
namespace Dune {
using F2 = FieldMatrix<double,2,2>; using V2 = FieldVector<double,2>; using BV = BlockVector<V2>; using BM = BCRSMatrix<F2>;
template class BCRSMatrix<F2>;
template class BCRSMatrix<double>;
template class BlockVector<V2>;
template class BlockVector<double>;
template class VariableBlockVector<V2>;
template class Matrix<F2>;
template class BDMatrix<F2>;
template class BTDMatrix<F2>;
template class ScaledIdentityMatrix<double,2>;
template class MatrixAdapter<BM,BV,BV>;
template class SeqScalarProduct<BV>;
}
#include <dune/istl/matrixmatrix.hh>
#include <dune/istl/matrixutils.hh>
#include <dune/istl/ildl.hh>
using namespace Dune; using namespace Dune::Indices;
using C = std::complex<double>; using D2 = FieldMatrix<C,2,2>; using W2 = FieldVector<C,2>;
using NB = BCRSMatrix<BM>; using NV = BlockVector<BV>; using CM = BCRSMatrix<D2>; using CV = BlockVector<W2>; using SM = BCRSMatrix<double>; using SV = BlockVector<double>;
using DM = Matrix<F2>; using BD = BDMatrix<F2>; using SI = ScaledIdentityMatrix<double,2>; using VB = VariableBlockVector<V2>;
using MV = MultiTypeBlockVector<BV,SV>; using R1 = MultiTypeBlockVector<BCRSMatrix<F2>,BCRSMatrix<FieldMatrix<double,2,1>>>; using R2 = MultiTypeBlockVector<BCRSMatrix<FieldMatrix<double,1,2>>,SM>;
using MM = MultiTypeBlockMatrix<MultiTypeBlockVector<BM,BCRSMatrix<FieldMatrix<double,2,2>>>,MultiTypeBlockVector<BM,BM>>; using MMV = MultiTypeBlockVector<BV,BV>;
#define PRODUCTS(t, M, X, K) \
 void k_##t##_mv(const M& A, const X& x, X& y) { A.mv(x,y); } void k_##t##_mtv(const M& A, const X& x, X& y) { A.mtv(x,y); } void k_##t##_umv(const M& A, const X& x, X& y) { A.umv(x,y); } \
 void k_##t##_umtv(const M& A, const X& x, X& y) { A.umtv(x,y); } void k_##t##_umhv(const M& A, const X& x, X& y) { A.umhv(x,y); } void k_##t##_mmv(const M& A, const X& x, X& y) { A.mmv(x,y); } \
 void k_##t##_mmtv(const M& A, const X& x, X& y) { A.mmtv(x,y); } void k_##t##_mmhv(const M& A, const X& x, X& y) { A.mmhv(x,y); } void k_##t##_usmv(const M& A, const X& x, X& y, K k) { A.usmv(k,x,y); } \
 void k_##t##_usmtv(const M& A, const X& x, X& y, K k) { A.usmtv(k,x,y); } void k_##t##_usmhv(const M& A, const X& x, X& y, K k) { A.usmhv(k,x,y); }
#define NORMS(t, M) auto k_##t##_fn(const M& A) { return A.frobenius_norm(); } auto k_##t##_fn2(const M& A) { return A.frobenius_norm2(); } auto k_##t##_in(const M& A) { return A.infinity_norm(); } auto k_##t##_inr(const M& A) { return A.infinity_norm_real(); }
PRODUCTS(bcrs, BM, BV, double) PRODUCTS(nested, NB, NV, double) PRODUCTS(cplx, CM, CV, C) PRODUCTS(scalar, SM, SV, double) PRODUCTS(dense, DM, BV, double) PRODUCTS(bd, BD, BV, double) PRODUCTS(id, SI, V2, double) PRODUCTS(mt, MM, MMV, double)
NORMS(bcrs, BM) NORMS(nested, NB) NORMS(cplx, CM) NORMS(scalar, SM) NORMS(dense, DM) NORMS(bd, BD) NORMS(mt, MM) auto k_id_fn(const SI& A) { return A.frobenius_norm(); } auto k_id_in(const SI& A) { return A.infinity_norm(); }
#define VECTORS(t, V) auto k_##t##_dot(const V& x, const V& y) { return x.dot(y); } auto k_##t##_mul(const V& x, const V& y) { return x * y; } auto k_##t##_one(const V& x) { return x.one_norm(); } auto k_##t##_two(const V& x) { return x.two_norm(); } \
 auto k_##t##_two2(const V& x) { return x.two_norm2(); } auto k_##t##_inf(const V& x) { return x.infinity_norm(); } auto k_##t##_dim(const V& x) { return x.dim(); } \
 void k_##t##_add(V& x, const V& y) { x += y; } void k_##t##_sub(V& x, const V& y) { x -= y; } void k_##t##_axpy(V& x, const V& y) { x.axpy(typename V::field_type(2), y); } void k_##t##_assign(V& x, const V& y) { x = y; }
VECTORS(bv, BV) VECTORS(nv, NV) VECTORS(cv, CV) VECTORS(sv, SV) VECTORS(vb, VB) VECTORS(mv, MMV)
// copies share nothing that either side writes
#define COPIES(t, T) void k_copy_##t(T* p, const T& x) { new (p) T(x); } void k_assign_##t(T& p, const T& x) { p = x; }
COPIES(bcrs, BM) COPIES(scalar, SM) COPIES(dense, DM) COPIES(bv, BV) COPIES(vb, VB) COPIES(bd, BD)
void k_bcrs_plus(BM& a, const BM& b) { a += b; } void k_bcrs_minus(BM& a, const BM& b) { a -= b; } void k_bcrs_axpy(BM& a, const BM& b) { a.axpy(2, b); }
void k_dense_plus(DM& a, const DM& b) { a += b; } void k_dense_minus(DM& a, const DM& b) { a -= b; } 
// factorised and combined matrices
void k_mm(BM& r, const BM& a, const BM& b) { matMultMat(r, a, b); } void k_mtm(BM& r, const BM& a, const BM& b) { transposeMatMultMat(r, a, b); } void k_mmt(BM& r, const BM& a, const BM& b) { matMultTransposeMat(r, a, b); }
auto k_nnz(const BM& a) { return countNonZeros(a); }
void k_ildl(const BM& a, BM& b) { ILU::blockILUDecomposition(a, 1, b); }
// preconditioners and solves leave the matrix and the right hand side alone
#define PREC(t, ...) void k_prec_##t(const BM& A, BV& v, const BV& d) { __VA_ARGS__; BV x(v); p.pre(x, v); p.apply(v, d); p.post(x); }
using PM = BM;
PREC(ssor, SeqSSOR<PM,BV,BV> p(A,2,1.)) PREC(sor, SeqSOR<PM,BV,BV> p(A,2,1.)) PREC(gs, SeqGS<PM,BV,BV> p(A,2,1.)) PREC(jac, SeqJac<PM,BV,BV> p(A,2,1.)) PREC(ilu, SeqILU<PM,BV,BV> p(A,1.)) PREC(ilun, SeqILU<PM,BV,BV> p(A,2,1.)) PREC(ilur, SeqILU<PM,BV,BV> p(A,1.,true))
PREC(dilu, SeqDILU<PM,BV,BV> p(A,1.)) PREC(ildl, SeqILDL<PM,BV,BV> p(A,1.)) void k_prec_rich(BV& v, const BV& d) { Richardson<BV,BV> p(1.); p.pre(v, v); p.apply(v, d); p.post(v); }
void k_op_apply(const BM& A, const BV& x, BV& y) { MatrixAdapter<BM,BV,BV> o(A); o.apply(x, y); } void k_op_asa(const BM& A, const BV& x, BV& y) { MatrixAdapter<BM,BV,BV> o(A); o.applyscaleadd(2., x, y); }
#define READ(t, M) const void* k_##t##_row(const M& A, std::size_t i) { return &A[i]; } bool k_##t##_exists(const M& A, std::size_t i, std::size_t j) { return A.exists(i, j); } \
 double k_##t##_iterate(const M& A) { double s = 0; for (auto r = A.begin(); r != A.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) s += c.index() + r.index() + (*r).size() + (r->find(c.index()) != r->end()); return s; } \
 double k_##t##_back(const M& A) { double s = 0; for (auto r = A.beforeEnd(); r != A.beforeBegin(); --r) for (auto c = r->beforeEnd(); c != r->beforeBegin(); --c) s += c.index() + r.index(); return s; }
READ(bcrs, BM) READ(scalar, SM) READ(bd, BD) double k_dense_iterate(const DM& A) { double s = 0; for (auto r = A.begin(); r != A.end(); ++r) for (auto c = r->begin(); c != r->end(); ++c) s += c.index() + r.index(); return s; }
