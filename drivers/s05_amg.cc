// Multigrid set-up and repartitioning, compiled without inlining. ver_*: the members which hold the verbosity.
#include "config.h"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/repartition.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
using namespace Dune;
using F2 = FieldMatrix<double,2,2>; using V2 = FieldVector<double,2>; using BV = BlockVector<V2>; using BM = BCRSMatrix<F2>;
using Comm = OwnerOverlapCopyCommunication<long,int>;
using OP = OverlappingSchwarzOperator<BM,BV,BV,Comm>; using SM = SeqSSOR<BM,BV,BV>; using PS = BlockPreconditioner<BV,BV,Comm,SM>;
using Crit = Amg::CoarsenCriterion<Amg::SymmetricCriterion<BM,Amg::FirstDiagonal>>;
using AM = Amg::AMG<OP,BV,PS,Comm>; using SO = MatrixAdapter<BM,BV,BV>; using FA = Amg::FastAMG<SO,BV>;
int ver_params(Amg::Parameters& p) { return p.debugLevel_; }
std::size_t ver_amg(AM& a) { return a.verbosity_; }
std::size_t ver_fast(FA& a) { return a.verbosity_; }
int ver_iter(IterativeSolver<BV,BV>& s) { return s._verbose; }
void g_pamg(std::shared_ptr<OP> o, Crit& c, BV& x, BV& b, const Comm& comm) { AM a(*o, c, typename Amg::SmootherTraits<PS>::Arguments(), comm); a.pre(x, b); a.apply(x, b); a.post(x); }
void g_fast(std::shared_ptr<SO> o, Crit& c, BV& x, BV& b) { FA a(*o, c); a.pre(x, b); a.apply(x, b); a.post(x); }
#if HAVE_PARMETIS
bool g_comm(const BM& A, Comm& c, std::shared_ptr<Comm>& o, RedistributeInterface& r, bool v) { return commGraphRepartition(A, c, Metis::idx_t(3), o, r, v); }
using MG = Amg::MatrixGraph<BM>; using PG = Amg::PropertiesGraph<MG,Amg::VertexProperties,Amg::EdgeProperties,IdentityMap,IdentityMap>;
bool g_graph(const PG& g, Comm& c, std::shared_ptr<Comm>& o, RedistributeInterface& r, bool v) { return graphRepartition(g, c, Metis::idx_t(3), o, r, v); }
#endif
const BM& vok_getmat(const OP& o) { return static_cast<const AssembledLinearOperator<BM,BV,BV>&>(o).getmat(); }     // read-only virtual accessors
