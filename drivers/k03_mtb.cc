// Sweeps of the heterogeneous block matrix; every block has its own opaque type.
#include "config.h"
#include "opaque_mtb.hh"
#include <dune/istl/gsetc.hh>
namespace vt { using SQ = Dune::MultiTypeBlockMatrix<Row<0>,Row<1>,Row<2>>; using SV = Dune::MultiTypeBlockVector<TV<0>,TV<1>,TV<2>>; }
using A33 = vt::SQ; using X = vt::SV;
#ifdef NESTED
namespace Dune {
  template<int i,int j> struct algmeta_itsteps<1,vt::TM<i,j>> {
#define S(n) template<class X,class Y,class K> static void n(const vt::TM<i,j>&, X&, const Y&, const K&) noexcept;
    S(dbgs) S(bsorf) S(bsorb) S(dbjac)
#undef S
  };
}
using L = Dune::BL<2>;
#else
using L = Dune::BL<1>;
#endif
#define K(name) void k_##name(const A33& A, X& x, const X& b, double w) { Dune::name(A,x,b,w,L()); }
K(dbgs) K(bsorf) K(bsorb) K(dbjac)
#define O(i) const void* off_x##i(X& x) { return &std::get<i>(x); }
O(0) O(1) O(2)
#define OE(i,j) const void* off_a##i##j(A33& A) { return &std::get<j>(std::get<i>(A)); }
OE(0,0) OE(0,1) OE(0,2) OE(1,0) OE(1,1) OE(1,2) OE(2,0) OE(2,1) OE(2,2)
