// K01: matrix-vector products of the sparse block matrix. k_* is the library, s_* the specification written on raw storage,
// pre_* the documented size relations.
#include "config.h"
#include "opaque_block.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
using M = Dune::BCRSMatrix<vt::ME>;
using X = Dune::BlockVector<vt::VE>;
using sz = std::size_t;
#define K(name) void k_##name(const M& A, const X& x, X& y) { A.name(x,y); }
#define KA(name) void k_##name(const M& A, double a, const X& x, X& y) { A.name(a,x,y); }
K(mv) K(umv) K(mmv) K(mtv) K(umtv) K(mmtv) K(umhv) K(mmhv)
KA(usmv) KA(usmtv) KA(usmhv)
#define ROWS for (sz i=0;i<A.n;++i)
#define COLS for (sz k=0;k<A.r[i].n;++k)
#define E A.r[i].p[k]
#define J A.r[i].j[k]
#define PRE return (y.n==A.n) & (x.n==A.m);
#define PRET return (x.n==A.n) & (y.n==A.m);
#define SN(name) void s_##name(const M& A, const X& x, X& y) { ROWS COLS E.name(x.p[J],y.p[i]); } bool pre_##name(const M& A, const X& x, X& y) { PRE }
#define ST(name) void s_##name(const M& A, const X& x, X& y) { ROWS COLS E.name(x.p[i],y.p[J]); } bool pre_##name(const M& A, const X& x, X& y) { PRET }
#define SNA(name) void s_##name(const M& A, double a, const X& x, X& y) { ROWS COLS E.name(a,x.p[J],y.p[i]); } bool pre_##name(const M& A, double, const X& x, X& y) { PRE }
#define STA(name) void s_##name(const M& A, double a, const X& x, X& y) { ROWS COLS E.name(a,x.p[i],y.p[J]); } bool pre_##name(const M& A, double, const X& x, X& y) { PRET }
void s_mv(const M& A, const X& x, X& y) { ROWS { y.p[i] = 0; COLS E.umv(x.p[J],y.p[i]); } }
bool pre_mv(const M& A, const X& x, X& y) { PRE }
void s_mtv(const M& A, const X& x, X& y) { for (sz i=0;i<A.m;++i) y.p[i] = 0; ROWS COLS E.umtv(x.p[i],y.p[J]); }
bool pre_mtv(const M& A, const X& x, X& y) { PRET }
SN(umv) SN(mmv) SNA(usmv) ST(umtv) ST(mmtv) ST(umhv) ST(mmhv) STA(usmtv) STA(usmhv)
