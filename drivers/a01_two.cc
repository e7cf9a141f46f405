// Two-level method, its policies and the Krylov-accelerated cycle: k_ library, s_ prescribed.
#include "a01_types.hh"
using V = vt::LVec; using namespace Dune; using namespace Dune::Amg;
template<int> struct Al : std::allocator<vt::LVec> {};
namespace vt {
  struct CSolver { CSolver(const CSolver&) noexcept; ~CSolver() noexcept; void apply(V&, V&, InverseOperatorResult&) noexcept; double pad[4]; };
  struct CPolicy { using Operator = Op; using CoarseLevelSolver = CSolver; template<class P> CSolver* createCoarseLevelSolver(P&) noexcept; };
  struct Op2 { double pad[3]; using matrix_type = LMat; using domain_type = LVec; using range_type = LVec; const LMat& getmat() const noexcept; };
  struct Crit { double getProlongationDampingFactor() const noexcept; };
}
namespace Dune { namespace Amg {
  template<> class LevelTransferPolicy<vt::Op,vt::Op> { public: double pad[8]; V r, l;
    void moveToCoarseLevel(const V&) noexcept; void moveToFineLevel(V&) noexcept; void createCoarseLevelSystem(const vt::Op&) noexcept; LevelTransferPolicy* clone() const noexcept; ~LevelTransferPolicy() noexcept;
    V& getCoarseLevelLhs() { return l; } V& getCoarseLevelRhs() { return r; } };
} }
using TL = TwoLevelMethod<vt::Op, vt::CPolicy, vt::Sm>; using TC = TL::LevelContext;
namespace Dune { namespace Amg {
  template<> void presmooth<TC>(TC&, std::size_t);
  template<> void postsmooth<TC>(TC&, std::size_t);
  template<> class Transfer<std::size_t,V,SequentialInformation> { public:
    static void prolongateVector(const AggregatesMap<std::size_t>&, V&, V&, double, const SequentialInformation&) noexcept;
    static void restrictVector(const AggregatesMap<std::size_t>&, V&, const V&, const SequentialInformation&) noexcept; };
} }
using AP = AggregationLevelTransferPolicy<vt::Op2, vt::Crit>;
template<> void AP::createCoarseLevelSystem(const vt::Op2&);
void k_ctor(TL* t, const vt::Op& o, std::shared_ptr<vt::Sm> s, const LevelTransferPolicy<vt::Op,vt::Op>& p, vt::CPolicy& c, std::size_t a, std::size_t b) { new(t) TL(o, s, p, c, a, b); }
void s_ctor(TL* t, const vt::Op& o, std::shared_ptr<vt::Sm> s, const LevelTransferPolicy<vt::Op,vt::Op>& p, vt::CPolicy& c, std::size_t a, std::size_t b) {
  auto q = p.clone(); q->createCoarseLevelSystem(o); auto k = c.createCoarseLevelSolver(*q); t->operator_ = &o; t->policy_ = q; t->coarseSolver_ = k; t->preSteps_ = a; t->postSteps_ = b; }
void k_copy(TL* t, const TL& u) { new(t) TL(u); }
void s_copy(TL* t, const TL& u) { auto k = new vt::CSolver(*u.coarseSolver_); auto q = u.policy_->clone(); t->operator_ = u.operator_; t->policy_ = q; t->preSteps_ = u.preSteps_; t->postSteps_ = u.postSteps_; }
void k_dtor(TL& t) { t.TL::~TwoLevelMethod(); }
void s_dtor(TL& t) { delete t.policy_; delete t.coarseSolver_; }
void k_pre(TL& t, V& x, V& b) { t.TL::pre(x, b); }
void s_pre(TL& t, V& x, V& b) { t.smoother_->pre(x, b); }
void k_post(TL& t, V& x) { t.TL::post(x); }
void s_post(TL& t, V& x) { t.smoother_->post(x); }
void k_apply(TL& t, V& v, const V& d) { t.TL::apply(v, d); }
void s_apply(TL& t, V& v, const V& d) {
  V u(v); V rhs(d); SequentialInformation info; TC c; c.smoother = t.smoother_; c.lhs = &u; c.rhs = &rhs; c.update = &v; c.pinfo = &info; c.matrix = t.operator_;
  presmooth(c, t.preSteps_);
  t.policy_->moveToCoarseLevel(rhs);
  InverseOperatorResult res; t.coarseSolver_->apply(t.policy_->l, t.policy_->r, res);
  u = 0; t.policy_->moveToFineLevel(u); v += u;
  postsmooth(c, t.postSteps_);
}
void k_pdown(AP& p, const V& f) { p.AP::moveToCoarseLevel(f); }
void s_pdown(AP& p, const V& f) { Transfer<std::size_t,V,SequentialInformation>::restrictVector(*p.aggregatesMap_, p.rhs_, f, SequentialInformation()); p.lhs_ = 0; }
void k_pup(AP& p, V& f) { p.AP::moveToFineLevel(f); }
void s_pup(AP& p, V& f) { Transfer<std::size_t,V,SequentialInformation>::prolongateVector(*p.aggregatesMap_, p.lhs_, f, p.prolongDamp_, SequentialInformation()); }
// Krylov cycle
using AMG1 = AMG<vt::Op,V,vt::Sm,vt::PI,Al<1>>; using LC1 = AMG1::LevelContext;
template<> void AMG1::moveToFineLevel(LC1&, bool);
template<> bool AMG1::moveToCoarseLevel(LC1&);
namespace Dune { namespace Amg {
  template<> void presmooth<LC1>(LC1&, std::size_t);
  template<> void postsmooth<LC1>(LC1&, std::size_t);
} }
using KT = KAmgTwoGrid<AMG1>;
void k_kapply(KT& t, V& v, const V& d) { t.KT::apply(v, d); }
void s_kapply(KT& t, V& v, const V& d) {
  LC1& c = *t.levelContext_;
  *c.update = 0; *c.rhs = d; *c.lhs = v;
  presmooth(c, t.amg_.preSteps_);
  bool b = t.amg_.moveToCoarseLevel(c);
  if (b) { V r = *c.rhs; V x = *c.update; InverseOperatorResult res; t.coarseSolver_->apply(x, r, res); *c.update = x; }
  t.amg_.moveToFineLevel(c, b);
  postsmooth(c, t.amg_.postSteps_);
  v = *c.update;
}
using AMG2 = AMG<vt::Op,V,vt::Sm,vt::PI,Al<2>>; using LC2 = AMG2::LevelContext; using KT2 = KAmgTwoGrid<AMG2>; using KA = KAMG<vt::Op,V,vt::Sm,vt::PI,GeneralizedPCGSolver<V>,Al<2>>;
template<> void KT2::apply(V&, const V&);
template<> void AMG2::initIteratorsWithFineLevel(LC2&);
template<> void KT2::setLevelContext(std::shared_ptr<LC2>);
void k_kamg(KA& k, V& v, const V& d) { k.KA::apply(v, d); }
void s_kamg(KA& k, V& v, const V& d) {
  if (k.ksolvers.size() == 0) { V td = d; InverseOperatorResult res; k.amg.solver_->apply(v, td, res); return; }
  std::shared_ptr<LC2> c(new LC2); k.amg.initIteratorsWithFineLevel(*c);
  for (auto& s : k.ksolvers) s->setLevelContext(c);
  k.ksolvers.back()->apply(v, d);
}
extern "C" {
#define OFFC(x) void* off_c##x(TC& t) { return &t.x; }
OFFC(smoother) OFFC(lhs) OFFC(rhs) OFFC(update) OFFC(pinfo) OFFC(matrix)
#define OFF(x) void* off_##x(TL& t) { return &t.x; }
OFF(operator_) OFF(coarseSolver_) OFF(policy_) OFF(preSteps_) OFF(postSteps_)
}
