// Preconditioners that wrap other components: k_ library, s_ prescribed.
#include "a01_types.hh"
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/preconditioners.hh>
using V = vt::LVec;
namespace vt {
  struct Comm { double pad[2]; void copyOwnerToAll(const V&, V&) const noexcept; void addOwnerCopyToOwnerCopy(const V&, V&) const noexcept; void addOwnerOverlapToAll(const V&, V&) const noexcept; void addOwnerCopyToAll(const V&, V&) const noexcept; void copyCopyToAll(const V&, V&) const noexcept; void project(V&) const noexcept; };
  struct Inv { using domain_type = V; using range_type = V; void apply(V&, V&, Dune::InverseOperatorResult&) noexcept; Dune::SolverCategory::Category category() const noexcept; };
  struct Csp { using Operator = Op; struct CoarseLevelSolver { double pad[4]; void apply(V&, V&, Dune::InverseOperatorResult&) noexcept; }; };
  struct Kr : Dune::InverseOperator<V,V> { Kr(const Op&, const Dune::ScalarProduct<V>&, const void*, double, int, int); template<class P> Kr(const Op&, const Dune::ScalarProduct<V>&, P&, double, int, int); };
}
template<int> struct Al : std::allocator<vt::LVec> {};
namespace Dune { namespace Amg {
  template<> class LevelTransferPolicy<vt::Op,vt::Op> { public: double pad[5]; V& getCoarseLevelRhs() noexcept; V& getCoarseLevelLhs() noexcept; void moveToCoarseLevel(const V&) noexcept; void moveToFineLevel(V&) noexcept; void createCoarseLevelSystem(const vt::Op&) noexcept; LevelTransferPolicy* clone() const noexcept; };
} }
// every wrapper of a sequential preconditioner
using BP = Dune::BlockPreconditioner<V,V,vt::Comm,vt::Sm>; using NB = Dune::NonoverlappingBlockPreconditioner<vt::Comm,vt::Sm>;
void k_bp_pre(BP& p, V& x, V& b) { p.BP::pre(x, b); }
void s_bp_pre(BP& p, V& x, V& b) { p._communication.copyOwnerToAll(x, x); p._preconditioner->pre(x, b); }
void k_bp_apply(BP& p, V& x, const V& b) { p.BP::apply(x, b); }
void s_bp_apply(BP& p, V& x, const V& b) { p._preconditioner->apply(x, b); p._communication.copyOwnerToAll(x, x); }
template void BP::apply<true>(V&, const V&); template void BP::apply<false>(V&, const V&);
void k_bp_forward(BP& p, V& x, const V& b) { p.template apply<true>(x, b); }
void s_bp_forward(BP& p, V& x, const V& b) { p._preconditioner->template apply<true>(x, b); p._communication.copyOwnerToAll(x, x); }
void k_bp_backward(BP& p, V& x, const V& b) { p.template apply<false>(x, b); }
void s_bp_backward(BP& p, V& x, const V& b) { p._preconditioner->template apply<false>(x, b); p._communication.copyOwnerToAll(x, x); }
void k_bp_post(BP& p, V& x) { p.BP::post(x); }
void s_bp_post(BP& p, V& x) { p._preconditioner->post(x); }
void k_nb_pre(NB& p, V& x, V& b) { p.NB::pre(x, b); }
void s_nb_pre(NB& p, V& x, V& b) { p._preconditioner->pre(x, b); }
void k_nb_apply(NB& p, V& x, const V& b) { p.NB::apply(x, b); }
void s_nb_apply(NB& p, V& x, const V& b) { p._preconditioner->apply(x, b); p._communication.addOwnerCopyToOwnerCopy(x, x); }
void k_nb_forward(NB& p, V& x, const V& b) { p.template apply<true>(x, b); }
void s_nb_forward(NB& p, V& x, const V& b) { p._preconditioner->template apply<true>(x, b); p._communication.addOwnerCopyToOwnerCopy(x, x); }
void k_nb_backward(NB& p, V& x, const V& b) { p.template apply<false>(x, b); }
void s_nb_backward(NB& p, V& x, const V& b) { p._preconditioner->template apply<false>(x, b); p._communication.addOwnerCopyToOwnerCopy(x, x); }
void k_nb_post(NB& p, V& x) { p.NB::post(x); }
void s_nb_post(NB& p, V& x) { p._preconditioner->post(x); }
// a solver as preconditioner
using IP = Dune::InverseOperator2Preconditioner<vt::Inv,-1>;
void k_ip_pre(IP& p, V& x, V& b) { p.IP::pre(x, b); }
void s_ip_pre(IP&, V&, V&) {}
void k_ip_apply(IP& p, V& x, const V& b) { p.IP::apply(x, b); }
void s_ip_apply(IP& p, V& x, const V& b) { Dune::InverseOperatorResult res; V copy(b); p.inverse_operator_.apply(x, copy, res); }
void k_ip_post(IP& p, V& x) { p.IP::post(x); }
void s_ip_post(IP&, V&) {}
// two level method
using TL = Dune::Amg::TwoLevelMethod<vt::Op,vt::Csp,vt::Sm>; using TLC = TL::LevelContext;
namespace Dune { namespace Amg { template<> void presmooth<TLC>(TLC&, std::size_t); template<> void postsmooth<TLC>(TLC&, std::size_t); } }
void k_tl_pre(TL& p, V& x, V& b) { p.TL::pre(x, b); }
void s_tl_pre(TL& p, V& x, V& b) { p.smoother_->pre(x, b); }
void k_tl_post(TL& p, V& x) { p.TL::post(x); }
void s_tl_post(TL& p, V& x) { p.smoother_->post(x); }
namespace Dune { template<> std::shared_ptr<ScalarProduct<V>> makeScalarProduct<V,vt::PI>(std::shared_ptr<const vt::PI>, SolverCategory::Category); }
// Krylov cycle multigrid
using AK = Dune::Amg::AMG<vt::Op,V,vt::Sm,vt::PI,Al<3>>; using KG = Dune::Amg::KAMG<vt::Op,V,vt::Sm,vt::PI,vt::Kr,Al<3>>;
template<> void AK::pre(V&, V&); template<> void AK::post(V&); template<> void AK::initIteratorsWithFineLevel(AK::LevelContext&);
template<> bool AK::moveToCoarseLevel(AK::LevelContext&); template<> void AK::moveToFineLevel(AK::LevelContext&, bool);
namespace Dune { namespace Amg { template<> void presmooth<AK::LevelContext>(AK::LevelContext&, std::size_t); template<> void postsmooth<AK::LevelContext>(AK::LevelContext&, std::size_t); } }
void c_kamg_pre(KG& p, V& x, V& b) { p.KG::pre(x, b); }
void* off_amg(KG& p) { return &p.amg; }
void k_kamg_post(KG& p, V& x) { p.KG::post(x); }
void s_kamg_post(KG& p, V& x) { p.amg.AK::post(x); }
using TG = Dune::Amg::KAmgTwoGrid<AK>;
void k_kgrid_apply(TG& p, V& v, const V& d) { p.TG::apply(v, d); }
void s_kgrid_apply(TG& p, V& v, const V& d) {
  auto& c = *p.levelContext_;
  *c.update.p = 0; *c.rhs.p = d; *c.lhs.p = v;
  Dune::Amg::presmooth(c, p.amg_.preSteps_);
  bool f = p.amg_.moveToCoarseLevel(c);
  if (f) { V b(*c.rhs.p); V x(*c.update.p); Dune::InverseOperatorResult res; p.coarseSolver_->apply(x, b, res); *c.update.p = x; }
  p.amg_.moveToFineLevel(c, f);
  Dune::Amg::postsmooth(c, p.amg_.postSteps_);
  v = *c.update.p;
}
// multigrid: every smoother of the hierarchy
using AMG = Dune::Amg::AMG<vt::Op,V,vt::Sm,vt::PI,Al<0>>;
namespace Dune { namespace Amg { } }
void c_amg_pre(AMG& a, V& x, V& b) { a.AMG::pre(x, b); }
void c_amg_post(AMG& a, V& x) { a.AMG::post(x); }
void* off_smoothers(AMG& a) { return a.smoothers_->el; }
std::size_t val_levels(AMG& a) { return a.smoothers_->levels_; }
void* val_lhs(AMG& a) { return a.lhs_->el; }
void* val_rhs(AMG& a) { return a.rhs_->el; }
