// Relaxation sweeps, triangular and diagonal solves and factor applications on opaque rows.
#include "config.h"
#include "opaque_rows.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/gsetc.hh>
#include <dune/istl/ilu.hh>
#include <dune/istl/dilu.hh>
#include <dune/istl/ildl.hh>
using M = vt::Mat; using X = vt::RVec;
#define K(name) void k_##name(const M& A, X& x, const X& b, double w) { Dune::name(A,x,b,w); }
#define K0(name) void k_##name##0(const M& A, X& x, const X& b, double w) { Dune::name(A,x,b); }
K(dbgs) K(bsorf) K(bsorb) K(dbjac) K(bltsolve) K(butsolve) K(ubltsolve) K(ubutsolve) K(bdsolve)
K0(bltsolve) K0(butsolve) K0(ubltsolve) K0(ubutsolve) K0(bdsolve)
using DM = vt::DMat; using DX = vt::DVec;
#define KD(name) void k_##name##_s(const DM& A, DX& x, const DX& b, double w) { Dune::name(A,x,b,w); }
KD(dbgs) KD(bsorf) KD(bsorb) KD(dbjac)
