// The parallel components and the multigrid set-up, instantiated on ordinary matrices.
#include "config.h"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvercategory.hh>
#include <dune/common/parallel/communicator.hh>
#include <dune/common/parallel/interface.hh>
#include <dune/common/parallel/indexset.hh>
#include <dune/common/parallel/plocalindex.hh>
#include <dune/common/parallel/remoteindices.hh>
#include <dune/common/parallel/mpicommunication.hh>
#pragma clang attribute push(__attribute__((noinline)), apply_to=function)
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/novlpschwarz.hh>
#pragma clang attribute pop
#include <dune/istl/schwarz.hh>
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
using namespace Dune;
using F2 = FieldMatrix<double,2,2>; using V2 = FieldVector<double,2>; using BV = BlockVector<V2>; using BM = BCRSMatrix<F2>;
using Comm = OwnerOverlapCopyCommunication<long,int>;
using OP = OverlappingSchwarzOperator<BM,BV,BV,Comm>; using NP = NonoverlappingSchwarzOperator<BM,BV,BV,Comm>;
namespace Dune {
template class OverlappingSchwarzOperator<BM,BV,BV,Comm>;
template class NonoverlappingSchwarzOperator<BM,BV,BV,Comm>;
template class ParallelScalarProduct<BV,Comm>;
template class SeqJac<BM,BV,BV>;
template class SeqSSOR<BM,BV,BV>;
template class BlockPreconditioner<BV,BV,Comm>;
template class NonoverlappingBlockPreconditioner<Comm,SeqJac<BM,BV,BV>>;
template class ParSSOR<BM,BV,BV,Comm>;
template class SeqOverlappingSchwarz<BM,BV,AdditiveSchwarzMode,ILU0SubdomainSolver<BM,BV,BV>>;
template class SeqOverlappingSchwarz<BM,BV,SymmetricMultiplicativeSchwarzMode,ILU0SubdomainSolver<BM,BV,BV>>;
}
void g_redist(BM& a, BM& b, Comm& ca, Comm& cb, RedistributeInformation<Comm>& ri) { redistributeMatrix(a, b, ca, cb, ri); redistributeMatrixEntries(a, b, ca, cb, ri); }
using SO = MatrixAdapter<BM,BV,BV>; using SM = SeqSSOR<BM,BV,BV>; using PS = BlockPreconditioner<BV,BV,Comm,SM>;
using Crit = Amg::CoarsenCriterion<Amg::SymmetricCriterion<BM,Amg::FirstDiagonal>>; using Crit2 = Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<BM,Amg::RowSum>>;
void g_amg(std::shared_ptr<SO> o, Crit& c, BV& x, BV& b) { Amg::AMG<SO,BV,SM> a(*o, c); a.pre(x, b); a.apply(x, b); a.post(x); }
void g_fast(std::shared_ptr<SO> o, Crit2& c, BV& x, BV& b) { Amg::FastAMG<SO,BV> a(*o, c); a.pre(x, b); a.apply(x, b); a.post(x); }
void g_kamg(std::shared_ptr<SO> o, Crit& c, BV& x, BV& b) { Amg::KAMG<SO,BV,SM> a(*o, c); a.pre(x, b); a.apply(x, b); a.post(x); }
void g_pamg(std::shared_ptr<OP> o, Crit& c, BV& x, BV& b, const Comm& comm) { Amg::AMG<OP,BV,PS,Comm> a(*o, c, typename Amg::SmootherTraits<PS>::Arguments(), comm); a.pre(x, b); a.apply(x, b); a.post(x); }
#define COMM(n, ...) void k_comm_##n(const Comm& c, const BV& x, BV& y, double& r) { __VA_ARGS__; }
COMM(copyto, c.copyOwnerToAll(x, y)) COMM(addto, c.addOwnerOverlapToAll(x, y)) COMM(ctc, c.copyCopyToAll(x, y)) COMM(addown, c.addOwnerCopyToOwnerCopy(x, y)) COMM(addcopy, c.addOwnerCopyToAll(x, y)) COMM(norm, r = c.norm(x)) COMM(dot, c.dot(x, x, r)) COMM(project, c.project(y))
#define LZ(c, C, x) void* lo_##c##_##x(C& o) { return &o.x; } void* hi_##c##_##x(C& o) { return &o.x + 1; }
LZ(comm, Comm, OwnerToAllInterface) LZ(comm, Comm, OwnerToAllInterfaceBuilt) LZ(comm, Comm, OwnerOverlapToAllInterface) LZ(comm, Comm, OwnerOverlapToAllInterfaceBuilt) LZ(comm, Comm, OwnerCopyToAllInterface) LZ(comm, Comm, OwnerCopyToAllInterfaceBuilt)
LZ(comm, Comm, OwnerCopyToOwnerCopyInterface) LZ(comm, Comm, OwnerCopyToOwnerCopyInterfaceBuilt) LZ(comm, Comm, CopyToAllInterface) LZ(comm, Comm, CopyToAllInterfaceBuilt) LZ(comm, Comm, mask) LZ(comm, Comm, maskSeqNo) LZ(comm, Comm, interfaceSeqNo) LZ(novlp, NP, buildcomm) LZ(novlp, NP, mask) LZ(novlp, NP, bordercontribution)
