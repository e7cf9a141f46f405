// Dimension checks of checked builds: k_ library, s_ the prescribed admission (nothing else is compared).
#include "config.h"
#include "opaque_block.hh"
#include <algorithm>
#include <vector>
namespace std { template<> const unsigned long* lower_bound<const unsigned long*, unsigned long>(const unsigned long*, const unsigned long*, const unsigned long&);
                template<> unsigned long* lower_bound<unsigned long*, unsigned long>(unsigned long*, unsigned long*, const unsigned long&); }
#define DUNE_ISTL_WITH_CHECKING 1
#define DUNE_FMatrix_WITH_CHECKING 1
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/scaledidmatrix.hh>
using B = vt::ME; using sz = std::size_t;
using M = Dune::BCRSMatrix<B>; using X = Dune::BlockVector<vt::VE>; using D = Dune::Matrix<B>;
using W = Dune::Imp::BlockVectorWindow<vt::VE, std::allocator<vt::VE>>; using CV = Dune::Imp::CompressedBlockVectorWindow<vt::VE>; using V = Dune::VariableBlockVector<double>;
struct DV { sz n; double* p; sz N() const { return n; } double& operator[](sz i) { return p[i]; } const double& operator[](sz i) const { return p[i]; } };
using S = Dune::ScaledIdentityMatrix<double, 3>;
// the search of one index set in another is opaque here
template<> template<> bool Dune::Imp::compressed_block_vector_unmanaged<vt::VE, sz>::includesindexset(const CV::compressed_block_vector_unmanaged& y) const;
template<> template<> bool Dune::Imp::compressed_block_vector_unmanaged<vt::VE, sz>::includesindexset(const CV& y) const;
[[noreturn]] void vt_reject();
#define NEED(c) do { if (!(c)) vt_reject(); } while (0)
#define BUILT(m) (m.ready == M::built)
extern "C" { void* off_mode(M& m) { return &m.build_mode; } void* off_ready(M& m) { return &m.ready; } }
#define PN(nm) void k_bcrs_##nm(const M& A, const X& x, X& y) { A.nm(x,y); } void s_bcrs_##nm(const M& A, const X& x, X& y) { NEED(BUILT(A) && x.n == A.m && y.n == A.n); } \
  void k_dense_##nm(const D& A, const X& x, X& y) { A.nm(x,y); } void s_dense_##nm(const D& A, const X& x, X& y) { NEED(x.n == A.cols_ && y.n == A.data_.rows_); } \
  void k_sid_##nm(const S& A, const DV& x, DV& y) { A.nm(x,y); } void s_sid_##nm(const S& A, const DV& x, DV& y) { NEED(x.n == 3 && y.n == 3); }
#define PT(nm) void k_bcrs_##nm(const M& A, const X& x, X& y) { A.nm(x,y); } void s_bcrs_##nm(const M& A, const X& x, X& y) { NEED(BUILT(A) && x.n == A.n && y.n == A.m); } \
  void k_dense_##nm(const D& A, const X& x, X& y) { A.nm(x,y); } void s_dense_##nm(const D& A, const X& x, X& y) { NEED(x.n == A.data_.rows_ && y.n == A.cols_); } \
  void k_sid_##nm(const S& A, const DV& x, DV& y) { A.nm(x,y); } void s_sid_##nm(const S& A, const DV& x, DV& y) { NEED(x.n == 3 && y.n == 3); }
#define PNA(nm) void k_bcrs_##nm(const M& A, double a, const X& x, X& y) { A.nm(a,x,y); } void s_bcrs_##nm(const M& A, double a, const X& x, X& y) { NEED(BUILT(A) && x.n == A.m && y.n == A.n); } \
  void k_dense_##nm(const D& A, double a, const X& x, X& y) { A.nm(a,x,y); } void s_dense_##nm(const D& A, double a, const X& x, X& y) { NEED(x.n == A.cols_ && y.n == A.data_.rows_); } \
  void k_sid_##nm(const S& A, double a, const DV& x, DV& y) { A.nm(a,x,y); } void s_sid_##nm(const S& A, double a, const DV& x, DV& y) { NEED(x.n == 3 && y.n == 3); }
#define PTA(nm) void k_bcrs_##nm(const M& A, double a, const X& x, X& y) { A.nm(a,x,y); } void s_bcrs_##nm(const M& A, double a, const X& x, X& y) { NEED(BUILT(A) && x.n == A.n && y.n == A.m); } \
  void k_dense_##nm(const D& A, double a, const X& x, X& y) { A.nm(a,x,y); } void s_dense_##nm(const D& A, double a, const X& x, X& y) { NEED(x.n == A.data_.rows_ && y.n == A.cols_); } \
  void k_sid_##nm(const S& A, double a, const DV& x, DV& y) { A.nm(a,x,y); } void s_sid_##nm(const S& A, double a, const DV& x, DV& y) { NEED(x.n == 3 && y.n == 3); }
PN(mv) PN(umv) PN(mmv) PT(umtv) PT(mmtv) PT(umhv) PT(mmhv) PNA(usmv) PTA(usmtv) PTA(usmhv)
void k_bcrs_mtv(const M& A, const X& x, X& y) { A.mtv(x,y); } void s_bcrs_mtv(const M& A, const X& x, X& y) { NEED(BUILT(A) && x.n == A.n && y.n == A.m); }
void k_dense_mtv(const D& A, const X& x, X& y) { A.mtv(x,y); } void s_dense_mtv(const D& A, const X& x, X& y) { NEED(x.n == A.data_.rows_ && y.n == A.cols_); }
// sparse matrix
void k_bcrs_scale(M& A, double a) { A *= a; } void s_bcrs_scale(M& A, double a) { NEED(BUILT(A)); }
void k_bcrs_div(M& A, double a) { A /= a; } void s_bcrs_div(M& A, double a) { NEED(BUILT(A)); }
#define MM NEED(BUILT(A) && BUILT(C) && A.n == C.n && A.m == C.m)
void k_bcrs_add(M& A, const M& C) { A += C; } void s_bcrs_add(M& A, const M& C) { MM; }
void k_bcrs_sub(M& A, const M& C) { A -= C; } void s_bcrs_sub(M& A, const M& C) { MM; }
void k_bcrs_axpy(M& A, double a, const M& C) { A.axpy(a, C); } void s_bcrs_axpy(M& A, double a, const M& C) { MM; }
double k_bcrs_frob2(const M& A) { return A.frobenius_norm2(); } void s_bcrs_frob2(const M& A) { NEED(BUILT(A)); }
double k_bcrs_frob(const M& A) { return A.frobenius_norm(); } void s_bcrs_frob(const M& A) { NEED(BUILT(A)); }
bool k_bcrs_exists(const M& A, sz i, sz j) { return A.exists(i, j); } void s_bcrs_exists(const M& A, sz i, sz j) { NEED(i < A.n && j < A.m); }
// dense matrix
void k_dense_add(D& A, const D& C) { A += C; } void s_dense_add(D& A, const D& C) { NEED(A.data_.rows_ == C.data_.rows_ && A.cols_ == C.cols_); }
void k_dense_sub(D& A, const D& C) { A -= C; } void s_dense_sub(D& A, const D& C) { NEED(A.data_.rows_ == C.data_.rows_ && A.cols_ == C.cols_); }
void k_dense_row(D& A, sz i) { (void) A[i]; } void s_dense_row(D& A, sz i) { NEED(i < A.data_.rows_); }
void k_dense_crow(const D& A, sz i) { (void) A[i]; } void s_dense_crow(const D& A, sz i) { NEED(i < A.data_.rows_); }
bool k_dense_exists(const D& A, sz i, sz j) { return A.exists(i, j); } void s_dense_exists(const D& A, sz i, sz j) { NEED(i < A.data_.rows_ && j < A.cols_); }
// block vectors
void k_bvec_add(X& x, const X& y) { x += y; } void s_bvec_add(X& x, const X& y) { NEED(x.n == y.n); }
void k_bvec_sub(X& x, const X& y) { x -= y; } void s_bvec_sub(X& x, const X& y) { NEED(x.n == y.n); }
void k_bvec_axpy(X& x, double a, const X& y) { x.axpy(a, y); } void s_bvec_axpy(X& x, double a, const X& y) { NEED(x.n == y.n); }
double k_bvec_mult(const X& x, const X& y) { return x * y; } void s_bvec_mult(const X& x, const X& y) { NEED(x.n == y.n); }
double k_bvec_dot(const X& x, const X& y) { return x.dot(y); } void s_bvec_dot(const X& x, const X& y) { NEED(x.n == y.n); }
void* k_bvec_at(X& x, sz i) { return &x[i]; } void s_bvec_at(X& x, sz i) { NEED(i < x.n); }
const void* k_bvec_cat(const X& x, sz i) { return &x[i]; } void s_bvec_cat(const X& x, sz i) { NEED(i < x.n); }
void k_win_assign(W& x, const W& y) { x = y; } void s_win_assign(W& x, const W& y) { NEED(x.n == y.n); }
// index-set vectors
void k_comp_add(CV& x, const CV& y) { x += y; } void s_comp_add(CV& x, const CV& y) { NEED(x.includesindexset(y)); }
void k_comp_sub(CV& x, const CV& y) { x -= y; } void s_comp_sub(CV& x, const CV& y) { NEED(x.includesindexset(y)); }
void k_comp_axpy(CV& x, double a, const CV& y) { x.axpy(a, y); } void s_comp_axpy(CV& x, double a, const CV& y) { NEED(x.includesindexset(y)); }
void k_comp_assign(CV& x, const CV& y) { x = y; } void s_comp_assign(CV& x, const CV& y) { NEED(x.n == y.n); }
void* k_comp_at(CV& x, sz i) { return &x[i]; }
void* s_comp_at(CV& x, sz i) { sz* l = std::lower_bound(x.j, x.j + x.n, i); NEED(l != x.j + x.n && *l == i); return &x.p[l - x.j]; }
const void* k_comp_cat(const CV& x, sz i) { return &x[i]; }
const void* s_comp_cat(const CV& x, sz i) { const sz* l = std::lower_bound(x.j, x.j + x.n, i); NEED(l != x.j + x.n && *l == i); return &x.p[l - x.j]; }
// variable block vectors
void* k_vb_at(V& x, sz i) { return &x[i]; } void s_vb_at(V& x, sz i) { NEED(i < x.block.size()); }
const void* k_vb_cat(const V& x, sz i) { return &x[i]; } void s_vb_cat(const V& x, sz i) { NEED(i < x.block.size()); }
void k_vb_create(V& x) { (void) x.createbegin(); } void s_vb_create(V& x) { NEED(!x.initialized); }
void k_vb_add(V& x, const V& y) { x += y; } void s_vb_add(V& x, const V& y) { NEED(x.n == y.n); }
bool k_sid_exists(const S& A, sz i, sz j) { return A.exists(i, j); } void s_sid_exists(const S& A, sz i, sz j) { NEED(i < 3 && j < 3); }
void* k_bcrs_row(M& m, sz i) { return &m[i]; } void s_bcrs_row(M& m, sz i) { NEED((m.build_mode != M::implicit || BUILT(m)) && m.r != 0 && i < m.n); }
const void* k_bcrs_crow(const M& m, sz i) { return &m[i]; } void s_bcrs_crow(const M& m, sz i) { NEED(BUILT(m) && i < m.n); }
sz k_bcrs_getrow(const M& m, sz i) { return m.getrowsize(i); } void s_bcrs_getrow(const M& m, sz i) { NEED(m.r != 0 && i < m.n); }
using DB = decltype(D::data_);
void k_data_row(DB& A, sz i) { (void) A[i]; } void s_data_row(DB& A, sz i) { NEED(i < A.rows_); }
void k_data_crow(const DB& A, sz i) { (void) A[i]; } void s_data_crow(const DB& A, sz i) { NEED(i < A.rows_); }
void k_comp_mult(CV& x, CV& y) { (void) (x * y); } void s_comp_mult(CV& x, CV& y) { NEED(x.includesindexset(y)); NEED(y.includesindexset(x)); }
