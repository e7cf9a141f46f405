// Nested blocks: the diagonal block is treated by one sweep of the next level, which is declared only.
#include "config.h"
#include "opaque_rows.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/gsetc.hh>
namespace Dune {
  template<> struct algmeta_itsteps<1,vt::ME> {
#define S(n) template<class X,class Y,class K> static void n(const vt::ME&, X&, const Y&, const K&) noexcept;
    S(dbgs) S(bsorf) S(bsorb) S(dbjac)
#undef S
  };
  template<> template<> void algmeta_btsolve<1,withdiag,withrelax>::bltsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_btsolve<1,withdiag,withrelax>::butsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_btsolve<1,withdiag,norelax>::bltsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_btsolve<1,withdiag,norelax>::butsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_btsolve<1,nodiag,withrelax>::bltsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_btsolve<1,nodiag,withrelax>::butsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_btsolve<1,nodiag,norelax>::bltsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_btsolve<1,nodiag,norelax>::butsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_bdsolve<1,withrelax>::bdsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
  template<> template<> void algmeta_bdsolve<1,norelax>::bdsolve(const vt::ME&, vt::VE&, const vt::VE&, const double&);
}
using M = vt::Mat; using X = vt::RVec; using L2 = Dune::BL<2>;
#define K(name) void k_##name(const M& A, X& x, const X& b, double w) { Dune::name(A,x,b,w,L2()); }
#define K0(name) void k_##name##0(const M& A, X& x, const X& b, double w) { Dune::name(A,x,b,L2()); }
K(dbgs) K(bsorf) K(bsorb) K(dbjac) K(bltsolve) K(butsolve) K(ubltsolve) K(ubutsolve) K(bdsolve)
K0(bltsolve) K0(butsolve) K0(ubltsolve) K0(ubutsolve) K0(bdsolve)
