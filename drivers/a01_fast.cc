// Fast multigrid: movement between the levels and one cycle on a level; k_ library, s_ prescribed.
#define VT_NOREDIST
#include "a01_types.hh"
using V = vt::LVec;
template<int> struct Al : std::allocator<vt::LVec> {};
using AMG = Dune::Amg::FastAMG<vt::Op,V,vt::PI,Al<0>>;
using AMC = Dune::Amg::FastAMG<vt::Op,V,vt::PI,Al<1>>;
using AMX = Dune::Amg::FastAMG<vt::Op,V,vt::PI,Al<2>>;
using LC = AMG::LevelContext; using LCC = AMC::LevelContext; using LCX = AMX::LevelContext;
using T = Dune::Amg::Transfer<int,V,vt::PI>;
template<> void AMC::moveToFineLevel(LCC&, bool, V&);
template<> bool AMC::moveToCoarseLevel(LCC&);
template<> void AMC::presmooth(LCC&, V&, const V&);
template<> void AMC::postsmooth(LCC&, V&, const V&);
template<> void AMX::mgc(LCX&, V&, const V&);
extern "C" {
#define OFF(x) void* off_##x(LC& c) { return &c.x; }
OFF(matrix) OFF(pinfo) OFF(redist) OFF(aggregates) OFF(lhs) OFF(residual) OFF(rhs) OFF(level)
#define OFC(x) void* off_c##x(LCC& c) { return &c.x; }
OFC(matrix) OFC(lhs) OFC(rhs)
const void* off_coarsest(AMC& a) { return &*a.matrices_->matrices().coarsest(); }
void* off_levels(AMC& a) { return &a.matrices_->levels_; }
void* off_maxlevels(AMC& a) { return &a.matrices_->maxlevels_; }
void* off_conv(AMC& a) { return &a.coarsesolverconverged; }
void* off_gamma(AMC& a) { return &a.gamma_; }
}
bool k_down(AMG& a, LC& c) { return a.moveToCoarseLevel(c); }
bool s_down(AMG& a, LC& c) {
  auto& h = *a.matrices_;
  T::restrictVector(*c.aggregates.p, c.rhs.p[1], *c.residual, c.pinfo.p[1]);
  ++c.pinfo.p; ++c.rhs.p; ++c.lhs.p; ++c.residual.p; ++c.matrix.p; ++c.redist.p; ++c.level;
  if (!(c.matrix.p == h.m.el + (h.m.levels_ - 1) && h.levels_ >= h.maxlevels_)) ++c.aggregates.p;
  *c.lhs.p = 0; *c.residual.p = 0;
  return true;
}
// a level was processed whenever the hierarchy is not redistributed
void k_up(AMG& a, LC& c, V& x) { a.moveToFineLevel(c, true, x); }
void s_up(AMG& a, LC& c, V& x) {
  auto& h = *a.matrices_;
  V* from = c.lhs.p;
  if (!(c.matrix.p == h.m.el + (h.m.levels_ - 1) && h.levels_ >= h.maxlevels_)) --c.aggregates.p;
  --c.pinfo.p; --c.rhs.p; --c.lhs.p; --c.residual.p; --c.matrix.p; --c.redist.p; --c.level;
  T::prolongateVector(*c.aggregates.p, *from, x, h.damp, *c.pinfo.p);
}
void k_init(AMG& a, LC& c) { a.initIteratorsWithFineLevel(c); }
void s_init(AMG& a, LC& c) {
  auto& h = *a.matrices_;
  c.matrix.p = h.m.el; c.pinfo.p = const_cast<vt::PI*>(h.pi.el); c.redist.p = h.ri.el; c.aggregates.p = const_cast<vt::AMap*>(h.ag.el);
  c.lhs.p = a.lhs_->el; c.residual.p = a.residual_->el; c.rhs.p = a.rhs_->el; c.level = 0;
}
void k_apply(AMX& a, V& v, const V& d) { a.AMX::apply(v, d); }
void s_apply(AMX& a, V& v, const V& d) {
  LCX c; a.initIteratorsWithFineLevel(c);
  if (a.matrices_->maxlevels_ == 1) { V b(d); a.mgc(c, v, b); } else a.mgc(c, v, d);
  if (a.postSteps_ == 0 || a.matrices_->maxlevels_ == 1) c.pinfo.p->copyOwnerToAll(v, v);
}
void c_mgc(AMC& a, LCC& c, V& v, const V& b) { a.mgc(c, v, b); }
namespace vt { void other() noexcept; }
void s_coarse(AMC& a, LCC& c, V& v, const V& b) {
  if (!(c.matrix.p == a.matrices_->m.el + (a.matrices_->m.levels_ - 1) && a.matrices_->levels_ == a.matrices_->maxlevels_)) { vt::other(); return; }
  Dune::InverseOperatorResult res; res.converged = true;
  c.pinfo->copyOwnerToAll(b, const_cast<V&>(b));
  a.solver_->apply(v, const_cast<V&>(b), res);
  if (!res.converged) a.coarsesolverconverged = false;
}
