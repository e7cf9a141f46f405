#include "config.h"
#include "opaque_block.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <cmath>
using M = Dune::BCRSMatrix<vt::ME>;
using MI = Dune::BCRSMatrix<vt::MI>;
using D = Dune::Matrix<vt::ME>;
using DI = Dune::Matrix<vt::MI>;
using sz = std::size_t;
#define ROWS for (sz i=0;i<A.n;++i)
#define COLS for (sz k=0;k<A.r[i].n;++k)
#define E A.r[i].p[k]
#define BROWS for (sz k=0;k<B.r[i].n;++k)
void k_assign(M& A, double a) { A = a; }
void s_assign(M& A, double a) { ROWS COLS E = a; }
void k_scale(M& A, double a) { A *= a; }
void s_scale_1(M& A, double a) { if (A.nnz_>0) { for (sz i=0;i<A.nnz_;++i) A.a[i] *= a; } else ROWS COLS E *= a; }
void s_scale_2(M& A, double a) { ROWS COLS E *= a; }
void k_div(M& A, double a) { A /= a; }
void s_div_1(M& A, double a) { if (A.nnz_>0) { for (sz i=0;i<A.nnz_;++i) A.a[i] /= a; } else ROWS COLS E /= a; }
void s_div_2(M& A, double a) { ROWS COLS E /= a; }
void k_add(M& A, const M& B) { A += B; }
void s_add(M& A, const M& B) { ROWS BROWS A.r[i][B.r[i].j[k]] += B.r[i].p[k]; }
void s_add_2(M& A, const M& B) { ROWS BROWS A[i][B.r[i].j[k]] += B.r[i].p[k]; }
void k_sub(M& A, const M& B) { A -= B; }
void s_sub(M& A, const M& B) { ROWS BROWS A.r[i][B.r[i].j[k]] -= B.r[i].p[k]; }
void k_axpy(M& A, double a, const M& B) { A.axpy(a,B); }
void s_axpy(M& A, double a, const M& B) { ROWS BROWS A.r[i][B.r[i].j[k]].axpy(a,B.r[i].p[k]); }
bool pre_add(M& A, const M& B) { return A.n==B.n; }
bool pre_sub(M& A, const M& B) { return A.n==B.n; }
bool pre_axpy(M& A, double, const M& B) { return A.n==B.n; }
double k_frob2(const M& A) { return A.frobenius_norm2(); }
double s_frob2(const M& A) { double s=0; ROWS COLS s += E.frobenius_norm2(); return s; }
double k_frob(const M& A) { return A.frobenius_norm(); }
double s_frob(const M& A) { double s=0; ROWS COLS s += E.frobenius_norm2(); return std::sqrt(s); }
#define INF(T,n) double k_##T##n(const T& A) { return A.n(); } double s_##T##n(const T& A) { double s=0,t=1; ROWS { double q=0; COLS q += E.n(); s = std::max(q,s); t += q; } return s*(t/t); }
#define INFI(T,n) int k_##T##n(const T& A) { return A.n(); } int s_##T##n(const T& A) { int s=0; ROWS { int q=0; COLS q += E.n(); s = std::max(q,s); } return s; }
INF(M,infinity_norm) INF(M,infinity_norm_real) INFI(MI,infinity_norm) INFI(MI,infinity_norm_real)
sz k_N(const M& A) { return A.N(); }
sz s_N(const M& A) { return A.n; }
sz k_M(const M& A) { return A.M(); }
sz s_M(const M& A) { return A.m; }
const void* k_row(const M& A, sz i) { return &A[i]; }
const void* s_row(const M& A, sz i) { return A.r+i; }
void* k_rowm(M& A, sz i) { return &A[i]; }
void* s_rowm(M& A, sz i) { return A.r+i; }
// dense
#undef ROWS
#undef COLS
#undef E
#define ROWS for (sz i=0;i<A.data_.rows_;++i)
#define COLS for (sz j=0;j<A.cols_;++j)
#define E A.data_.p[i*A.cols_+j]
#define F A.data_.p[i*A.data_.columns_+j]
#define ALL for (sz i=0;i<A.data_.n;++i)
#define PD return (A.data_.n==B.data_.n) & (A.data_.columns_==A.cols_) & (B.data_.columns_==B.cols_) & (A.data_.rows_==B.data_.rows_) & (A.cols_==B.cols_);
void k_d_assign(D& A, double a) { A = a; }
void s_d_assign(D& A, double a) { ALL A.data_.p[i] = a; }
void k_d_scale(D& A, double a) { A *= a; }
void s_d_scale(D& A, double a) { ALL A.data_.p[i] *= a; }
void k_d_div(D& A, double a) { A /= a; }
void s_d_div(D& A, double a) { ALL A.data_.p[i] /= a; }
void k_d_add(D& A, const D& B) { A += B; }
void s_d_add(D& A, const D& B) { ALL A.data_.p[i] += B.data_.p[i]; }
bool pre_d_add(D& A, const D& B) { PD }
void k_d_sub(D& A, const D& B) { A -= B; }
void s_d_sub(D& A, const D& B) { ALL A.data_.p[i] -= B.data_.p[i]; }
bool pre_d_sub(D& A, const D& B) { PD }
double k_d_frob2(const D& A) { return A.frobenius_norm2(); }
double s_d_frob2(const D& A) { double s=0; ROWS COLS s += E.frobenius_norm2(); return s; }
bool pre_d_frob2(const D& A) { return A.data_.columns_==A.cols_; }
double k_d_frob(const D& A) { return A.frobenius_norm(); }
double s_d_frob(const D& A) { double s=0; ROWS COLS s += E.frobenius_norm2(); return std::sqrt(s); }
bool pre_d_frob(const D& A) { return A.data_.columns_==A.cols_; }
#define PRD(n) bool pre_##n(const D& A) { return A.data_.columns_==A.cols_; }
#define PRDI(n) bool pre_##n(const DI& A) { return A.data_.columns_==A.cols_; }
INF(D,infinity_norm) INF(D,infinity_norm_real) PRD(Dinfinity_norm) PRD(Dinfinity_norm_real)
INFI(DI,infinity_norm) INFI(DI,infinity_norm_real) PRDI(DIinfinity_norm) PRDI(DIinfinity_norm_real)
sz k_d_N(const D& A) { return A.N(); }
sz s_d_N(const D& A) { return A.data_.rows_; }
sz k_d_M(const D& A) { return A.M(); }
sz s_d_M(const D& A) { return A.cols_; }
const void* k_d_at(const D& A, sz i, sz j) { return &A[i][j]; }
const void* s_d_at(const D& A, sz i, sz j) { return A.data_.p+i*A.data_.columns_+j; }
const void* k_d_atm(D& A, sz i, sz j) { return &A[i][j]; }
const void* s_d_atm(D& A, sz i, sz j) { return A.data_.p+i*A.data_.columns_+j; }
// scaled identity
using S = Dune::ScaledIdentityMatrix<double,3>;
void k_si_assign(S& A, double a) { A = a; }
void s_si_assign(S& A, double a) { A.p_ = a; }
void k_si_add(S& A, const S& B) { A += B; }
void s_si_add(S& A, const S& B) { A.p_ += B.p_; }
void k_si_sub(S& A, const S& B) { A -= B; }
void s_si_sub(S& A, const S& B) { A.p_ -= B.p_; }
void k_si_adds(S& A, double b) { A += b; }
void s_si_adds(S& A, double b) { A.p_ += b; }
void k_si_subs(S& A, double b) { A -= b; }
void s_si_subs(S& A, double b) { A.p_ -= b; }
void k_si_scale(S& A, double a) { A *= a; }
void s_si_scale(S& A, double a) { A.p_ *= a; }
void k_si_div(S& A, double a) { A /= a; }
void s_si_div(S& A, double a) { A.p_ /= a; }
double k_si_inf(const S& A) { return A.infinity_norm(); }
double s_si_inf(const S& A) { return std::abs(A.p_); }
double k_si_infr(const S& A) { return A.infinity_norm_real(); }
double s_si_infr(const S& A) { return std::abs(A.p_); }
double k_si_frob2(const S& A) { return A.frobenius_norm2(); }
double s_si_frob2(const S& A) { return 3*A.p_*A.p_; }
double k_si_frob(const S& A) { return A.frobenius_norm(); }
double s_si_frob(const S& A) { return std::sqrt(3*A.p_*A.p_); }
