// Movement between the levels and one cycle on a level: k_ library, s_ prescribed.
#include "a01_types.hh"
using V = vt::LVec;
struct tagA { using value_type = char; tagA(); template<class U> tagA(const U&); };
template<int> struct Al : std::allocator<vt::LVec> {};
using AMG = Dune::Amg::AMG<vt::Op,V,vt::Sm,vt::PI,Al<0>>;      // movement between levels analysed
using AMC = Dune::Amg::AMG<vt::Op,V,vt::Sm,vt::PI,Al<1>>;      // cycle analysed, movement opaque
using AMX = Dune::Amg::AMG<vt::Op,V,vt::Sm,vt::PI,Al<2>>;      // application analysed, cycle opaque
using LC = AMG::LevelContext; using LCC = AMC::LevelContext; using LCX = AMX::LevelContext;
using T = Dune::Amg::Transfer<int,V,vt::PI>;
template<> void AMC::moveToFineLevel(LCC&, bool);
template<> bool AMC::moveToCoarseLevel(LCC&);
template<> void AMX::mgc(LCX&);
template<> void AMX::additiveMgc();
namespace Dune { namespace Amg {
  template<> void presmooth<LCC>(LCC&, std::size_t);
  template<> void postsmooth<LCC>(LCC&, std::size_t);
} }
extern "C" {
#define OFF(x) void* off_##x(LC& c) { return &c.x; }
OFF(smoother) OFF(matrix) OFF(pinfo) OFF(redist) OFF(aggregates) OFF(lhs) OFF(update) OFF(rhs) OFF(level)
#define OFC(x) void* off_c##x(LCC& c) { return &c.x; }
OFC(matrix) OFC(lhs) OFC(rhs)
void* off_matrices(AMC& a) { return &a.matrices_; }
const void* off_coarsest(AMC& a) { return &*a.matrices_->matrices().coarsest(); }
void* off_levels(AMC& a) { return &a.matrices_->levels_; }
void* off_maxlevels(AMC& a) { return &a.matrices_->maxlevels_; }
void* off_conv(AMC& a) { return &a.coarsesolverconverged; }
void* off_gamma(AMC& a) { return &a.gamma_; }
void* off_presteps(AMC& a) { return &a.preSteps_; }
void* off_poststeps(AMC& a) { return &a.postSteps_; }
}
bool k_down(AMG& a, LC& c) { return a.moveToCoarseLevel(c); }
bool s_down(AMG& a, LC& c) {
  auto& h = *a.matrices_;
  V* r = c.rhs.p; const V* src = r;
  if (c.redist->isSetup()) {
    c.redist->redistribute(*r, r[vt::CAP]);
    if (r[vt::CAP].size() == 0) return false;
    src = r + vt::CAP;
  }
  T::restrictVector(*c.aggregates.p, r[1], *src, c.pinfo.p[1]);
  ++c.pinfo.p; ++c.rhs.p; ++c.lhs.p; ++c.update.p; ++c.matrix.p; ++c.redist.p; ++c.level;
  if (!(c.matrix.p == h.m.el + (h.m.levels_ - 1) && h.levels_ >= h.maxlevels_)) { ++c.smoother.p; ++c.aggregates.p; }
  *c.update.p = 0;
  return true;
}
void k_up(AMG& a, LC& c, bool b) { a.moveToFineLevel(c, b); }
void s_up(AMG& a, LC& c, bool b) {
  auto& h = *a.matrices_;
  V* from = c.update.p;
  if (b) {
    if (!(c.matrix.p == h.m.el + (h.m.levels_ - 1) && h.levels_ >= h.maxlevels_)) { --c.smoother.p; --c.aggregates.p; }
    --c.pinfo.p; --c.rhs.p; --c.lhs.p; --c.update.p; --c.matrix.p; --c.redist.p; --c.level;
  }
  V* l = c.lhs.p;
  if (c.redist->isSetup()) { l[vt::CAP] = 0; T::prolongateVector(*c.aggregates.p, *from, *l, l[vt::CAP], h.damp, *c.pinfo.p, *c.redist.p); }
  else { *l = 0; T::prolongateVector(*c.aggregates.p, *from, *l, h.damp, *c.pinfo.p); }
  *c.update.p += *l;
}
void k_init(AMG& a, LC& c) { a.initIteratorsWithFineLevel(c); }
void s_init(AMG& a, LC& c) {
  auto& h = *a.matrices_;
  c.smoother.p = a.smoothers_->el; c.matrix.p = h.m.el; c.pinfo.p = const_cast<vt::PI*>(h.pi.el); c.redist.p = h.ri.el; c.aggregates.p = const_cast<vt::AMap*>(h.ag.el);
  c.lhs.p = a.lhs_->el; c.update.p = a.update_->el; c.rhs.p = a.rhs_->el;
}
void k_apply(AMX& a, V& v, const V& d) { a.AMX::apply(v, d); }
void s_apply(AMX& a, V& v, const V& d) {
  if (a.additive) { a.rhs_->el[0] = d; a.additiveMgc(); v = a.lhs_->el[0]; return; }
  LCX c; a.initIteratorsWithFineLevel(c); c.level = 0;
  a.lhs_->el[0] = v; a.rhs_->el[0] = d; a.update_->el[0] = 0;
  a.mgc(c);
  if (a.postSteps_ == 0 || a.matrices_->maxlevels_ == 1) c.pinfo.p->copyOwnerToAll(*c.update.p, *c.update.p);
  v = *c.update.p;
}
void c_mgc(AMC& a, LCC& c) { a.mgc(c); }
namespace vt { void other() noexcept; }
void s_coarse(AMC& a, LCC& c) {
  if (!(c.matrix.p == a.matrices_->m.el + (a.matrices_->m.levels_ - 1) && a.matrices_->levels_ == a.matrices_->maxlevels_)) { vt::other(); return; }
  Dune::InverseOperatorResult res; res.converged = true;
  if (c.redist->isSetup()) {
    c.redist->redistribute(*c.rhs.p, c.rhs.p[vt::CAP]);
    if (c.rhs.p[vt::CAP].size() > 0) {
      c.pinfo.p[vt::CAP].copyOwnerToAll(c.rhs.p[vt::CAP], c.rhs.p[vt::CAP]);
      a.solver_->apply(c.update.p[vt::CAP], c.rhs.p[vt::CAP], res);
    }
    c.redist->redistributeBackward(*c.update.p, c.update.p[vt::CAP]);
    c.pinfo->copyOwnerToAll(*c.update.p, *c.update.p);
  } else {
    c.pinfo->copyOwnerToAll(*c.rhs.p, *c.rhs.p);
    a.solver_->apply(*c.update.p, *c.rhs.p, res);
  }
  if (!res.converged) a.coarsesolverconverged = false;
}
void k_additive(AMG& a) { a.additiveMgc(); }
void s_additive(AMG& a) {
  auto& h = *a.matrices_; std::size_t n = h.m.levels_;
  V* r = a.rhs_->el; V* l = a.lhs_->el; std::size_t nr = a.rhs_->levels_, nl = a.lhs_->levels_; auto* pi = const_cast<vt::PI*>(h.pi.el); auto* ag = const_cast<vt::AMap*>(h.ag.el);
  for (std::size_t i = 0; i + 1 != nr; ++i) T::restrictVector(ag[i], r[i+1], r[i], pi[i+1]);
  for (std::size_t i = 0; i + 1 != nr; ++i) { l[i] = 0; a.smoothers_->el[i].apply(l[i], r[i]); }
  Dune::InverseOperatorResult res;
  pi[nr-1].copyOwnerToAll(r[nr-1], r[nr-1]);
  a.solver_->apply(l[nr-1], r[nr-1], res);
  if (!res.converged) throw 1;
  for (std::size_t k = nr-1; k != 0; --k) T::prolongateVector(ag[k-1], l[k], l[k-1], 1.0, pi[k-1]);
}
