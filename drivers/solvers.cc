// The iterative solvers over an opaque vector type. Iteration's constructor, destructor and step() are declared as
// specialisations without definition, so every use of them survives as a call; they are analysed in s02_iter.cc.
#include "config.h"
#include "opaque.hh"
#include <dune/istl/solvers.hh>
using X = vt::Vec;
using R = Dune::InverseOperatorResult;
using Base = Dune::IterativeSolver<X,X>;
#define SPEC(C) \
template<> template<> Base::Iteration<C>::Iteration(const Base&, R&); \
template<> template<> bool Base::Iteration<C>::step(C, double); \
template<> template<> Base::Iteration<C>::~Iteration();
SPEC(unsigned int) SPEC(double)
// object and virtual-table slot of every component call, as the compiler sees them
void probe_pre(Base& s, X& x, X& b) { s._prec->pre(x,b); }
void probe_post(Base& s, X& x) { s._prec->post(x); }
void probe_papply(Base& s, X& x, const X& b) { s._prec->apply(x,b); }
void probe_opapply(Base& s, const X& x, X& b) { s._op->apply(x,b); }
void probe_opasa(Base& s, double a, const X& x, X& b) { s._op->applyscaleadd(a,x,b); }
double probe_norm(Base& s, const X& x) { return s._sp->norm(x); }
double probe_dot(Base& s, const X& x, const X& y) { return s._sp->dot(x,y); }
void probe_solve(Base& s, X& x, X& b, R& r) { s.apply(x,b,r); }
void probe_solve4(Base& s, X& x, X& b, double e, R& r) { s.apply(x,b,e,r); }
const void* off_reduction(Base& s) { return &s._reduction; }
const void* off_converged(R& r) { return &r.converged; }
const void* off_cond(R& r) { return &r.condition_estimate; }
const void* off_maxit(Base& s) { return &s._maxit; }
const void* off_verbose(Base& s) { return &s._verbose; }
const void* off_restart_gmres(Dune::RestartedGMResSolver<X>& s) { return &s._restart; }
const void* off_restart_pcg(Dune::GeneralizedPCGSolver<X>& s) { return &s._restart; }
const void* off_mmax(Dune::RestartedFCGSolver<X>& s) { return &s._mmax; }
using FCG = Dune::RestartedFCGSolver<X>;
using FV = std::vector<double,Dune::ReboundAllocatorType<X,double>>;
void probe_orth(FCG& s, const int& i, const std::vector<X>& A, const X& w, const FV& dd, std::vector<X>& d) { s.orthogonalizations(i,A,w,dd,d); }
void probe_cycle(FCG& s, std::vector<X>& A, std::vector<X>& d, FV& dd, int& i) { s.cycle(A,d,dd,i); }
template class Dune::LoopSolver<X>;
template class Dune::GradientSolver<X>;
template class Dune::CGSolver<X>;
template class Dune::BiCGSTABSolver<X>;
template class Dune::MINRESSolver<X>;
template class Dune::RestartedGMResSolver<X>;
template class Dune::RestartedFlexibleGMResSolver<X>;
template class Dune::GeneralizedPCGSolver<X>;
template class Dune::RestartedFCGSolver<X>;
template class Dune::CompleteFCGSolver<X>;
