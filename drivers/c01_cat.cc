// Declared solver categories: k_ library, s_ prescription.
#include "config.h"
#include "opaque.hh"
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/eigenvalue/poweriteration.hh>
using B = Dune::FieldMatrix<double,1,1>; using V = Dune::FieldVector<double,1>;
using M = Dune::BCRSMatrix<B>; using X = Dune::BlockVector<V>;
using Comm = Dune::OwnerOverlapCopyCommunication<int,int>;
using SC = Dune::SolverCategory;
#define CAT(nm, T) int k_##nm(const T& x) { return x.T::category(); }
#define CONST_(nm, T, c) using T_##nm = T; CAT(nm, T_##nm) int s_##nm(const T_##nm& x) { return SC::c; }
#define SEQ(nm, ...) using T_##nm = __VA_ARGS__; CAT(nm, T_##nm) int s_##nm(const T_##nm&) { return SC::sequential; }
#define OVL(nm, ...) using T_##nm = __VA_ARGS__; CAT(nm, T_##nm) int s_##nm(const T_##nm&) { return SC::overlapping; }
#define NOV(nm, ...) using T_##nm = __VA_ARGS__; CAT(nm, T_##nm) int s_##nm(const T_##nm&) { return SC::nonoverlapping; }
#define VAL(nm, e, ...) using T_##nm = __VA_ARGS__; CAT(nm, T_##nm) int s_##nm(const T_##nm& x) { return e; }
SEQ(matrixadapter, Dune::MatrixAdapter<M,X,X>)
SEQ(ssor, Dune::SeqSSOR<M,X,X>) SEQ(sor, Dune::SeqSOR<M,X,X>) SEQ(gs, Dune::SeqGS<M,X,X>) SEQ(jac, Dune::SeqJac<M,X,X>) SEQ(ilu, Dune::SeqILU<M,X,X>)
SEQ(dilu, Dune::SeqDILU<M,X,X>) SEQ(ildl, Dune::SeqILDL<M,X,X>) SEQ(rich, Dune::Richardson<X,X>) SEQ(schwarz, Dune::SeqOverlappingSchwarz<M,X>)
SEQ(superlu, Dune::SuperLU<M>) SEQ(umfpack, Dune::UMFPack<M>) SEQ(ldl, Dune::LDL<M>) SEQ(spqr, Dune::SPQR<M>) SEQ(cholmod, Dune::Cholmod<X>)
SEQ(seqsp, Dune::SeqScalarProduct<X>) SEQ(seqinfo, Dune::Amg::SequentialInformation)
SEQ(fastamg, Dune::Amg::FastAMG<Dune::MatrixAdapter<M,X,X>,X>)
using Op = Dune::MatrixAdapter<M,X,X>; using Sm = Dune::SeqSSOR<M,X,X>;
using TL = Dune::Amg::TwoLevelMethod<Op, Dune::Amg::OneStepAMGCoarseSolverPolicy<Op,Sm,Dune::Amg::CoarsenCriterion<Dune::Amg::UnSymmetricCriterion<M,Dune::Amg::FirstDiagonal>>>, Sm>;
SEQ(twolevel, TL)
OVL(ovlop, Dune::OverlappingSchwarzOperator<M,X,X,Comm>) OVL(parssor, Dune::ParSSOR<M,X,X,Comm>) OVL(blockprec, Dune::BlockPreconditioner<X,X,Comm,Dune::SeqSSOR<M,X,X>>)
NOV(novop, Dune::NonoverlappingSchwarzOperator<M,X,X,Comm>) NOV(novprec, Dune::NonoverlappingBlockPreconditioner<Comm,Dune::SeqSSOR<M,X,X>>)
VAL(parsp, x._category, Dune::ParallelScalarProduct<X,Comm>) VAL(comm, x.category_, Comm)
VAL(solver, x._category, Dune::IterativeSolver<X,X>)
SEQ(pow_scale, Dune::Impl::ScalingLinearOperator<X>) SEQ(pow_sum, Dune::Impl::LinearOperatorSum<Op,Op>)
using AMG = Dune::Amg::AMG<Op,X,Sm>;
VAL(amg, x.category_, AMG)
using PAMG = Dune::Amg::AMG<Dune::OverlappingSchwarzOperator<M,X,X,Comm>,X,Dune::BlockPreconditioner<X,X,Comm,Sm>,Comm>;
VAL(pamg, x.category_, PAMG)
using KAMG = Dune::Amg::KAMG<Op,X,Sm>; using KTG = Dune::Amg::KAmgTwoGrid<AMG>;
VAL(kamg, x.amg.category_, KAMG) int k_ktg(const KTG& x) { return x.KTG::category(); } int s_ktg(const KTG& x) { return x.amg_.category(); }
using KP = Dune::Amg::KAMG<Dune::OverlappingSchwarzOperator<M,X,X,Comm>,X,Dune::BlockPreconditioner<X,X,Comm,Sm>,Comm>;
VAL(pkamg, x.amg.category_, KP)
// wrappers take the category of what they wrap
struct Inv final : Dune::InverseOperator<X,X> { void apply(X&, X&, Dune::InverseOperatorResult&) override; void apply(X&, X&, double, Dune::InverseOperatorResult&) override; SC::Category cat; SC::Category category() const override { return cat; } };
VAL(inv2prec, x.inverse_operator_.cat, Dune::InverseOperator2Preconditioner<Inv>)
