// Collective operations of multigrid set-up, repartitioning and the owner/overlap/copy communication, compiled without inlining.
#include "s05_amg.cc"
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/scalarproducts.hh>
using ZV = BlockVector<FieldVector<std::complex<double>,2>>;
template class Dune::ParallelScalarProduct<BV,Comm>;
template class Dune::ParallelScalarProduct<ZV,Comm>;
void g_dot(const Comm& c, const BV& x, const BV& y, double& r) { c.dot(x, y, r); }
double g_norm(const Comm& c, const BV& x) { return c.norm(x); }
void g_ctor(const IndexInfoFromGrid<long,int>& i) { Comm c(i, MPI_COMM_WORLD); c.remoteIndices(); c.copyOwnerToAll(BV(), *new BV); }
#if HAVE_PARMETIS
using PG2 = Amg::PropertiesGraph<MG,Amg::VertexProperties,Amg::EdgeProperties,IdentityMap,IdentityMap>;
#endif
void g_redist(BM& a, BM& b, Comm& c, Comm& d, RedistributeInformation<Comm>& r) { redistributeMatrix(a, b, c, d, r); redistributeSparsityPattern(a, b, c, d, r); redistributeMatrixEntries(a, b, c, d, r); }
void g_coarsest(Amg::MatrixHierarchy<OP,Comm>& h, std::vector<std::size_t>& d) { h.getCoarsestAggregatesOnFinest(d); h.coarsenVector(*new Amg::Hierarchy<BV>(std::shared_ptr<BV>())); }
void g_nov(NonoverlappingSchwarzOperator<BM,BV,BV,Comm>& o, BV& x, BV& y) { o.apply(x, y); o.applyscaleadd(1., x, y); }
void g_ovl(OP& o, BV& x, BV& y) { o.apply(x, y); o.applyscaleadd(1., x, y); }
void g_prec(PS& p, ParSSOR<BM,BV,BV,Comm>& q, NonoverlappingBlockPreconditioner<Comm,SM>& n, BV& x, BV& y) { p.pre(x,y); p.apply(x, y); p.post(x); q.pre(x,y); q.apply(x, y); q.post(x); n.pre(x,y); n.apply(x, y); n.post(x); }
