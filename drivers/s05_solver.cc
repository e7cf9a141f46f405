// Iterative solvers, compiled without inlining. ver_*: the members which hold the verbosity.
#include "config.h"
#include <complex>
#include <dune/common/fvector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/solvers.hh>
using V2 = Dune::FieldVector<double,2>; using X = Dune::BlockVector<V2>; using Z = Dune::BlockVector<Dune::FieldVector<std::complex<double>,1>>;
int ver_solver(Dune::IterativeSolver<X,X>& s) { return s._verbose; }
int ver_zsolver(Dune::IterativeSolver<Z,Z>& s) { return s._verbose; }
template class Dune::LoopSolver<X>;
template class Dune::GradientSolver<X>;
template class Dune::CGSolver<X>;
template class Dune::CGSolver<Z>;
template class Dune::BiCGSTABSolver<X>;
template class Dune::MINRESSolver<X>;
template class Dune::RestartedGMResSolver<X>;
template class Dune::RestartedFlexibleGMResSolver<X>;
template class Dune::RestartedGMResSolver<Z>;
template class Dune::GeneralizedPCGSolver<X>;
template class Dune::RestartedFCGSolver<X>;
template class Dune::CompleteFCGSolver<X>;
