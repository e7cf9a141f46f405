// Preconditioners built on the sweeps: the sweeps of one level are declared only.
#include "config.h"
#include "opaque_rows.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/gsetc.hh>
#include <dune/istl/matrixutils.hh>
namespace Dune {
  template<> struct CheckIfDiagonalPresent<vt::Mat,1,1> { static void check(const vt::Mat&) noexcept; };
  template<> struct algmeta_itsteps<1,vt::Mat> {
#define S(n) template<class X,class Y,class K> static void n(const vt::Mat&, X&, const Y&, K) noexcept;
    S(dbgs) S(bsorf) S(bsorb) S(dbjac)
#undef S
  };
}
#include <dune/istl/preconditioners.hh>
using M = vt::Mat; using X = vt::RVec; using I1 = Dune::algmeta_itsteps<1,M>;
using C = Dune::CheckIfDiagonalPresent<M,1,1>;
void k_ssor(const M& A, int n, double w, X& v, const X& d) { Dune::SeqSSOR<M,X,X> p(A,n,w); p.apply(v,d); }
void s_ssor(const M& A, int n, double w, X& v, const X& d) { C::check(A); for (int i=0;i<n;i++) { I1::bsorf(A,v,d,w); I1::bsorb(A,v,d,w); } }
void k_sor(const M& A, int n, double w, X& v, const X& d) { Dune::SeqSOR<M,X,X> p(A,n,w); p.apply(v,d); }
void s_sor(const M& A, int n, double w, X& v, const X& d) { C::check(A); for (int i=0;i<n;i++) I1::bsorf(A,v,d,w); }
void k_sor_forward(const M& A, int n, double w, X& v, const X& d) { Dune::SeqSOR<M,X,X> p(A,n,w); p.template apply<true>(v,d); }
void s_sor_forward(const M& A, int n, double w, X& v, const X& d) { s_sor(A,n,w,v,d); }
void k_sor_backward(const M& A, int n, double w, X& v, const X& d) { Dune::SeqSOR<M,X,X> p(A,n,w); p.template apply<false>(v,d); }
void s_sor_backward(const M& A, int n, double w, X& v, const X& d) { C::check(A); for (int i=0;i<n;i++) I1::bsorb(A,v,d,w); }
void k_gs(const M& A, int n, double w, X& v, const X& d) { Dune::SeqGS<M,X,X> p(A,n,w); p.apply(v,d); }
void s_gs(const M& A, int n, double w, X& v, const X& d) { s_sor(A,n,w,v,d); }
void k_jac(const M& A, int n, double w, X& v, const X& d) { Dune::SeqJac<M,X,X> p(A,n,w); p.apply(v,d); }
void s_jac(const M& A, int n, double w, X& v, const X& d) { C::check(A); for (int i=0;i<n;i++) I1::dbjac(A,v,d,w); }
void k_richardson(double w, X& v, const X& d) { Dune::Richardson<X,X> p(w); p.apply(v,d); }
void s_richardson(double w, X& v, const X& d) { v = d; v *= w; }
