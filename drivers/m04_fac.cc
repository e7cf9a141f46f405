// Components created by name.
#include "config.h"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solverfactory.hh>
using namespace Dune;
using F2 = FieldMatrix<double,2,2>; using V2 = FieldVector<double,2>; using BV = BlockVector<V2>; using BM = BCRSMatrix<F2>; using SO = MatrixAdapter<BM,BV,BV>;
std::shared_ptr<InverseOperator<BV,BV>> g_solver(std::shared_ptr<SO> o, const ParameterTree& c, std::shared_ptr<Preconditioner<BV,BV>> p) { return getSolverFromFactory(o, c, p); }
std::shared_ptr<Preconditioner<BV,BV>> g_prec(std::shared_ptr<SO> o, const ParameterTree& c) { return getPreconditionerFromFactory(o, c); }
