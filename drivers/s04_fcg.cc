// Orthogonalisation and window handling of the flexible CG solvers.
#include "config.h"
#include "opaque.hh"
#include <dune/istl/solvers.hh>
using X = vt::Vec;
using R = Dune::RestartedFCGSolver<X>; using C = Dune::CompleteFCGSolver<X>;
using VX = std::vector<X>; using VF = std::vector<double,Dune::ReboundAllocatorType<X,double>>;
void k_orth_restarted(R& s, const int& i, const VX& Ad, const X& w, const VF& dd, VX& d) { s.R::orthogonalizations(i,Ad,w,dd,d); }
void s_orth_restarted(R& s, const int& i, const VX& Ad, const X& w, const VF& dd, VX& d) {
  for (int k = 0; k < i; ++k) d[i].axpy(-s._sp->dot(Ad[k],w)/dd[k], d[k]);
}
void k_orth_complete(C& s, const int& i, const VX& Ad, const X& w, const VF& dd, VX& d) { s.C::orthogonalizations(i,Ad,w,dd,d); }
void s_orth_complete(C& s, const int& i, const VX& Ad, const X& w, const VF& dd, VX& d) {
  for (int k = 0; k < s._k_limit; ++k) if (i != k) d[i].axpy(-s._sp->dot(Ad[k],w)/dd[k], d[k]);
  if (s._k_limit <= i) s._k_limit++;
}
void k_cycle_restarted(R& s, VX& Ad, VX& d, VF& dd, int& i) { s.R::cycle(Ad,d,dd,i); }
void s_cycle_restarted(R& s, VX& Ad, VX& d, VF& dd, int& i) {
  i = std::min(1, s._mmax);
  std::swap(Ad[0], Ad[s._mmax]); std::swap(d[0], d[s._mmax]); std::swap(dd[0], dd[s._mmax]);
}
void k_cycle_complete(C& s, VX& Ad, VX& d, VF& dd, int& i) { s.C::cycle(Ad,d,dd,i); }
void s_cycle_complete(C& s, VX& Ad, VX& d, VF& dd, int& i) { i = 0; s._k_limit = Ad.size(); }
