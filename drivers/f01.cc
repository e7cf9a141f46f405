// Construction from a configuration tree: k_ library, s_ the documented meaning of every key.
#include "config.h"
#include "ptree.hh"
#include "opaque.hh"
#include <dune/common/fmatrix.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
using X = vt::Vec; using PT = Dune::ParameterTree;
using L = Dune::LinearOperator<X,X>; using P = Dune::Preconditioner<X,X>; using SP = Dune::ScalarProduct<X>;
template<class T> using sp = std::shared_ptr<T>;
using IS = Dune::IterativeSolver<X,X>;
using Loop = Dune::LoopSolver<X>; using Grad = Dune::GradientSolver<X>; using CG = Dune::CGSolver<X>; using Bi = Dune::BiCGSTABSolver<X>; using MR = Dune::MINRESSolver<X>;
using GM = Dune::RestartedGMResSolver<X>; using FG = Dune::RestartedFlexibleGMResSolver<X>; using GP = Dune::GeneralizedPCGSolver<X>; using RF = Dune::RestartedFCGSolver<X>; using CF = Dune::CompleteFCGSolver<X>;
#define OFF(c, f) void* off_##c##_##f(c& o) { return &o.f; }
extern "C" { OFF(Loop,_reduction) OFF(Loop,_maxit) OFF(Loop,_verbose) OFF(Loop,_op) OFF(Loop,_prec) OFF(Loop,_sp) OFF(GM,_restart) OFF(FG,_restart) OFF(GP,_restart) OFF(RF,_mmax) OFF(CF,_mmax) }
#define GETS(f, x) *reinterpret_cast<const void**>(&p->f) = x.get();
#define COMMON GETS(_op, op) GETS(_prec, pr) p->_reduction = c.get<double>("reduction"); p->_maxit = c.get<int>("maxit"); p->_verbose = c.get<int>("verbose");
#define SOLVER(nm, S, ...) \
 void k_##nm##_2(S* p, sp<const L> op, sp<P> pr, const PT& c) { new (p) S(op, pr, c); } void s_##nm##_2(S* p, sp<const L> op, sp<P> pr, const PT& c) { COMMON __VA_ARGS__ } \
 void k_##nm##_3(S* p, sp<const L> op, sp<const SP> s, sp<P> pr, const PT& c) { new (p) S(op, s, pr, c); } void s_##nm##_3(S* p, sp<const L> op, sp<const SP> s, sp<P> pr, const PT& c) { COMMON GETS(_sp, s) __VA_ARGS__ }
#define RESTART p->_restart = c.get<int>("restart");
#define MMAX p->_mmax = c.get("mmax", 10);
SOLVER(loop, Loop,) SOLVER(grad, Grad,) SOLVER(cg, CG,) SOLVER(bicg, Bi,) SOLVER(minres, MR,) SOLVER(gmres, GM, RESTART) SOLVER(fgmres, FG, RESTART) SOLVER(gpcg, GP, RESTART) SOLVER(fcg, RF, MMAX) SOLVER(cfcg, CF, MMAX)
