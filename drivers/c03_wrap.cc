// C03: exchanges used by the parallel operators and preconditioners; k_ library, s_ prescribed
#include "a01_types.hh"
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
using V = vt::LVec;
namespace vt {
  struct PMat : LMat { double pad[3]; void mv(const V&, V&) const noexcept; void umv(const V&, V&) const noexcept; void usmv(double, const V&, V&) const noexcept; };
  struct Comm { double pad[2]; void copyOwnerToAll(const V&, V&) const noexcept; void addOwnerCopyToOwnerCopy(const V&, V&) const noexcept; void project(V&) const noexcept;
    void addOwnerOverlapToAll(const V&, V&) const noexcept; void addOwnerCopyToAll(const V&, V&) const noexcept; void copyCopyToAll(const V&, V&) const noexcept;
    struct PIS { using const_iterator = int*; }; struct RI { struct RemoteIndexList { using const_iterator = int*; }; using const_iterator = int*; }; };
}
using OS = Dune::OverlappingSchwarzOperator<vt::PMat,V,V,vt::Comm>; using NO = Dune::NonoverlappingSchwarzOperator<vt::PMat,V,V,vt::Comm>; using PS = Dune::ParSSOR<vt::PMat,V,V,vt::Comm>;
template<> void NO::novlp_op_apply(const V&, V&, double) const;
namespace Dune {
  template<> void bsorf(const vt::PMat&, V&, const V&, const double&); template<> void bsorb(const vt::PMat&, V&, const V&, const double&);
}
void k_os_apply(const OS& o, const V& x, V& y) { o.OS::apply(x, y); }
void s_os_apply(const OS& o, const V& x, V& y) { y = 0; o._A_->umv(x, y); o.communication.project(y); }
void s_os_apply_2(const OS& o, const V& x, V& y) { o._A_->mv(x, y); o.communication.project(y); }
void k_os_scale(const OS& o, double a, const V& x, V& y) { o.OS::applyscaleadd(a, x, y); }
void s_os_scale(const OS& o, double a, const V& x, V& y) { o._A_->usmv(a, x, y); o.communication.project(y); }
void k_no_apply(const NO& o, const V& x, V& y) { o.NO::apply(x, y); }
void s_no_apply(const NO& o, const V& x, V& y) { y = 0; o.novlp_op_apply(x, y, 1); o.communication.addOwnerCopyToOwnerCopy(y, y); }
void k_no_scale(const NO& o, double a, const V& x, V& y) { o.NO::applyscaleadd(a, x, y); }
void s_no_scale(const NO& o, double a, const V& x, V& y) { V z(y); y = 0; o.novlp_op_apply(x, y, a); o.communication.addOwnerCopyToOwnerCopy(y, y); y += z; }
void k_ps_pre(PS& p, V& x, V& b) { p.PS::pre(x, b); }
void s_ps_pre(PS& p, V& x, V& b) { p.communication.copyOwnerToAll(x, x); }
void k_ps_apply(PS& p, V& v, const V& d) { p.PS::apply(v, d); }
void s_ps_apply(PS& p, V& v, const V& d) { int n = p._n; for (int i = 0; i<n; ++i) { Dune::bsorf(p._A_, v, d, p._w); Dune::bsorb(p._A_, v, d, p._w); } p.communication.copyOwnerToAll(v, v); }
