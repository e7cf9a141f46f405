#include "config.h"
#include "opaque_scalar.hh"
#include <dune/istl/scaledidmatrix.hh>
#include <dune/common/fvector.hh>
using sz = std::size_t;
using F = vt::F;
constexpr int N = 3;
using M = Dune::ScaledIdentityMatrix<F,N>;
using X = vt::SV<N>;
#define K(name) void k_##name(const M& A, const X& x, X& y) { A.name(x,y); }
#define KA(name) void k_##name(const M& A, F a, const X& x, X& y) { A.name(a,x,y); }
K(mv) K(umv) K(mmv) K(mtv) K(umtv) K(mmtv) K(umhv) K(mmhv)
KA(usmv) KA(usmtv) KA(usmhv)
#define S(name,ex) void s_##name(const M& A, const X& x, X& y) { for (sz i=0;i<N;++i) ex; }
#define SA(name,ex) void s_##name(const M& A, F a, const X& x, X& y) { for (sz i=0;i<N;++i) ex; }
S(mv, y.v[i] = A.p_*x.v[i]) S(mtv, y.v[i] = A.p_*x.v[i])
S(umv, y.v[i] += A.p_*x.v[i]) S(umtv, y.v[i] += A.p_*x.v[i]) S(mmv, y.v[i] -= A.p_*x.v[i]) S(mmtv, y.v[i] -= A.p_*x.v[i])
S(umhv, y.v[i] += conj(A.p_)*x.v[i]) S(mmhv, y.v[i] -= conj(A.p_)*x.v[i])
SA(usmv, y.v[i] += a*A.p_*x.v[i]) SA(usmtv, y.v[i] += a*A.p_*x.v[i]) SA(usmhv, y.v[i] += a*conj(A.p_)*x.v[i])
