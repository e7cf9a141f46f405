// heterogeneous 2x3 block matrix; every block has its own opaque type, so a wrong block shows as a different callee
#include "config.h"
#include "opaque_mtb.hh"
using A23 = vt::MTM; using X2 = vt::MTV2; using X3 = vt::MTV3;
#define K(name,XX,YY) void k_##name(const A23& A, const XX& x, YY& y) { A.name(x,y); }
#define KA(name,XX,YY) void k_##name(const A23& A, double a, const XX& x, YY& y) { A.name(a,x,y); }
K(mv,X3,X2) K(umv,X3,X2) K(mmv,X3,X2) KA(usmv,X3,X2)
K(mtv,X2,X3) K(umtv,X2,X3) K(mmtv,X2,X3) K(umhv,X2,X3) K(mmhv,X2,X3) KA(usmtv,X2,X3) KA(usmhv,X2,X3)
#define E(i,j) std::get<j>(std::get<i>(A))
#define G(v,i) std::get<i>(v)
#define ALL(op) op(0,0) op(0,1) op(0,2) op(1,0) op(1,1) op(1,2)
#define SN(name) void s_##name(const A23& A, const X3& x, X2& y) { ALL(N_##name) }
#define ST(name) void s_##name(const A23& A, const X2& x, X3& y) { ALL(T_##name) }
#define SNA(name) void s_##name(const A23& A, double a, const X3& x, X2& y) { ALL(N_##name) }
#define STA(name) void s_##name(const A23& A, double a, const X2& x, X3& y) { ALL(T_##name) }
#define N_umv(i,j) E(i,j).umv(G(x,j),G(y,i));
#define N_mmv(i,j) E(i,j).mmv(G(x,j),G(y,i));
#define N_usmv(i,j) E(i,j).usmv(a,G(x,j),G(y,i));
#define T_umtv(i,j) E(i,j).umtv(G(x,i),G(y,j));
#define T_mmtv(i,j) E(i,j).mmtv(G(x,i),G(y,j));
#define T_umhv(i,j) E(i,j).umhv(G(x,i),G(y,j));
#define T_mmhv(i,j) E(i,j).mmhv(G(x,i),G(y,j));
#define T_usmtv(i,j) E(i,j).usmtv(a,G(x,i),G(y,j));
#define T_usmhv(i,j) E(i,j).usmhv(a,G(x,i),G(y,j));
SN(umv) SN(mmv) SNA(usmv) ST(umtv) ST(mmtv) ST(umhv) ST(mmhv) STA(usmtv) STA(usmhv)
void s_mv(const A23& A, const X3& x, X2& y) { G(y,0)=0; G(y,1)=0; ALL(N_umv) }
void s_mtv(const A23& A, const X2& x, X3& y) { G(y,0)=0; G(y,1)=0; G(y,2)=0; ALL(T_umtv) }
