#include "config.h"
#include "opaque_block.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/bvector.hh>
using M = Dune::Matrix<vt::ME>;
using X = Dune::BlockVector<vt::VE>;
using sz = std::size_t;
#define K(name) void k_##name(const M& A, const X& x, X& y) { A.name(x,y); }
#define KA(name) void k_##name(const M& A, double a, const X& x, X& y) { A.name(a,x,y); }
K(mv) K(umv) K(mmv) K(mtv) K(umtv) K(mmtv) K(umhv) K(mmhv)
KA(usmv) KA(usmtv) KA(usmhv)
#define ROWS for (sz i=0;i<A.data_.rows_;++i)
#define COLS for (sz j=0;j<A.cols_;++j)
#define E A.data_.p[i*A.cols_+j]
#define D A.data_.columns_==A.cols_
#define PRE return (y.n==A.data_.rows_) & (x.n==A.cols_) & (D);
#define PRET return (x.n==A.data_.rows_) & (y.n==A.cols_) & (D);
#define SN(name) void s_##name(const M& A, const X& x, X& y) { ROWS COLS E.name(x.p[j],y.p[i]); } bool pre_##name(const M& A, const X& x, X& y) { PRE }
#define ST(name) void s_##name(const M& A, const X& x, X& y) { ROWS COLS E.name(x.p[i],y.p[j]); } bool pre_##name(const M& A, const X& x, X& y) { PRET }
#define SNA(name) void s_##name(const M& A, double a, const X& x, X& y) { ROWS COLS E.name(a,x.p[j],y.p[i]); } bool pre_##name(const M& A, double, const X& x, X& y) { PRE }
#define STA(name) void s_##name(const M& A, double a, const X& x, X& y) { ROWS COLS E.name(a,x.p[i],y.p[j]); } bool pre_##name(const M& A, double, const X& x, X& y) { PRET }
void s_mv(const M& A, const X& x, X& y) { ROWS { y.p[i] = 0; COLS E.umv(x.p[j],y.p[i]); } }
bool pre_mv(const M& A, const X& x, X& y) { PRE }
void s_mtv(const M& A, const X& x, X& y) { for (sz i=0;i<A.cols_;++i) y.p[i] = 0; ROWS COLS E.umtv(x.p[i],y.p[j]); }
bool pre_mtv(const M& A, const X& x, X& y) { PRET }
SN(umv) SN(mmv) SNA(usmv) ST(umtv) ST(mmtv) ST(umhv) ST(mmhv) STA(usmtv) STA(usmhv)
