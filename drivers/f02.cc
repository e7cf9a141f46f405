// F02: what a name of the factory creates; k_ library, s_ documented
#include "config.h"
#include "ptree.hh"
#include <memory>
template<> std::__shared_count<__gnu_cxx::_S_atomic>::~__shared_count() noexcept;
template<> std::__shared_count<__gnu_cxx::_S_atomic>& std::__shared_count<__gnu_cxx::_S_atomic>::operator=(const std::__shared_count<__gnu_cxx::_S_atomic>&) noexcept;
template<> std::__shared_count<__gnu_cxx::_S_atomic>::__shared_count(const std::__shared_count<__gnu_cxx::_S_atomic>&) noexcept;
#include <dune/istl/common/registry.hh>
#undef DUNE_REGISTRY_PUT
#define DUNE_REGISTRY_PUT(Tag, id, ...) namespace { template<> struct Registry<Tag, DUNE_GET_COUNTER(Tag)> { \
  static auto getCreator() { return __VA_ARGS__; } static constexpr const char* cname() { return id; } static std::string name() { return id; } }; } DUNE_INC_COUNTER(Tag)
namespace vt {
  struct V { using field_type = double; using block_type = double; using size_type = std::size_t; double pad[3]; };
  struct M { using field_type = double; using block_type = double; using size_type = std::size_t; double pad[3]; };
}
#include <dune/common/ftraits.hh>
namespace Dune { template<> struct FieldTraits<vt::V> { using field_type = double; using real_type = double; }; template<> struct FieldTraits<vt::M> { using field_type = double; using real_type = double; }; }
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/solverfactory.hh>
using vt::V; using vt::M; using PT = Dune::ParameterTree; using Dune::PreconditionerTag; using Dune::SolverTag;
template<class T> using sp = std::shared_ptr<T>;
namespace Dune {
  template<> class Preconditioner<V,V> { public: double pad[4]; SolverCategory::Category category() const noexcept; ~Preconditioner() noexcept; };
  template<> class InverseOperator<V,V> { public: double pad[4]; ~InverseOperator() noexcept; };
  template<> class ScalarProduct<V> { public: double pad[4]; ~ScalarProduct() noexcept; };
  template<> class LinearOperator<V,V> { public: double pad[4]; virtual ~LinearOperator() noexcept; };
  template<> class AssembledLinearOperator<M,V,V> : public LinearOperator<V,V> { public: double pad2[4]; const M& getmat() const noexcept; };
}
namespace vt {
  using P = Dune::Preconditioner<V,V>; using I = Dune::InverseOperator<V,V>; using L = Dune::LinearOperator<V,V>; using A = Dune::AssembledLinearOperator<M,V,V>;
  struct Cc { int size() const noexcept; int rank() const noexcept; };
  struct Comm { double pad[3]; const Cc& communicator() const noexcept; };
  struct Op : A { using matrix_type = M; using domain_type = V; using range_type = V; using field_type = double; using communication_type = Comm; const Comm& getCommunication() const noexcept; Dune::SolverCategory::Category category() const noexcept; };
  struct SOp : A { using matrix_type = M; using domain_type = V; using range_type = V; using field_type = double; };
  void use(const P*) noexcept; void use(const I*) noexcept; void use(const Dune::ScalarProduct<V>*) noexcept;
  template<class O> struct Info { using domain_type = V; using range_type = V; using matrix_type = M; using operator_type = O; using solver_type = I; using comm_type = Comm;
    static constexpr bool isAssembled = true; static constexpr bool isParallel = std::is_same_v<O,Op>;
    static sp<A> getAssembledOpOrThrow(sp<L>); static const Comm& getCommOrThrow(sp<L>); static sp<Dune::ScalarProduct<V>> getScalarProduct(sp<L>); };
}
using IP = vt::Info<vt::Op>; using IQ = vt::Info<vt::SOp>;
constexpr bool same(const char* a, const char* b) { while (*a && *a==*b) { ++a; ++b; } return *a==*b; }
template<class Tag, std::size_t N, std::size_t i = 0> constexpr std::size_t find(const char* n) { if constexpr (i<N) return same(Dune::Registry<Tag,i>::cname(), n) ? i : find<Tag,N,i+1>(n); else return N; }
template<class Tag, std::size_t N, std::size_t i = 0> constexpr int times(const char* n) { if constexpr (i<N) return same(Dune::Registry<Tag,i>::cname(), n) + times<Tag,N,i+1>(n); else return 0; }
struct None {};
namespace Dune { namespace {
  constexpr std::size_t NP = DUNE_GET_COUNTER(PreconditionerTag), NS = DUNE_GET_COUNTER(SolverTag);
} }
using Dune::NP; using Dune::NS;
// opaque components
namespace Dune {
#define P4(C) template<> class C<M,V,V,1> : public Preconditioner<V,V> { public: C(const sp<vt::A>&, const PT&); double vt_pad[5]; };
  P4(SeqSSOR) P4(SeqSOR) P4(SeqJac) P4(SeqDILU) P4(SeqILU)
  template<> class SeqILDL<M,V,V> : public Preconditioner<V,V> { public: SeqILDL(const sp<vt::A>&, const PT&); double vt_pad[5]; };
  template<> class Richardson<V,V> : public Preconditioner<V,V> { public: Richardson(const PT&); double vt_pad[5]; };
#define S1(C,...) template<> class C<V __VA_ARGS__> : public InverseOperator<V,V> { public: C(const sp<vt::L>&, const sp<ScalarProduct<V>>&, const sp<vt::P>&, const PT&); double vt_pad[5]; };
  S1(LoopSolver) S1(GradientSolver) S1(CGSolver) S1(BiCGSTABSolver) S1(MINRESSolver) S1(RestartedGMResSolver) S1(RestartedFlexibleGMResSolver) S1(GeneralizedPCGSolver) S1(RestartedFCGSolver) S1(CompleteFCGSolver)
#define D1(C) template<> class C<M> : public InverseOperator<V,V> { public: C(const M&, int); double vt_pad[5]; };
  D1(SuperLU) D1(UMFPack) D1(LDL) D1(SPQR)
  template<> class Cholmod<V> : public InverseOperator<V,V> { public: Cholmod(); void setMatrix(const M&); double vt_pad[5]; };
  namespace UMFPackImpl { template<> struct isValidBlock<IP> : std::true_type {}; template<> struct isValidBlock<IQ> : std::true_type {}; }
  template<> sp<vt::P> getPreconditionerFromFactory<vt::SOp>(sp<vt::SOp>, const PT&);
  template<> class BlockPreconditioner<V,V,vt::Comm,vt::P> : public Preconditioner<V,V> { public: BlockPreconditioner(const sp<vt::P>&, const vt::Comm&); double vt_pad[5]; };
  template<> class NonoverlappingBlockPreconditioner<vt::Comm,vt::P> : public Preconditioner<V,V> { public: NonoverlappingBlockPreconditioner(const sp<vt::P>&, const vt::Comm&); double vt_pad[5]; };
  template<> class ParameterizedObjectFactory<PreconditionerSignature<vt::Op>,std::string> { public: double pad[4]; sp<vt::P> create(const std::string&, const sp<vt::Op>&, const PT&); void defined(const vt::P*); template<class F> void define(const std::string&, F&& f) { defined(f(0).get()); } };
  template<> class ParameterizedObjectFactory<SolverSignature<vt::Op>,std::string> { public: double pad[4]; sp<vt::I> create(const std::string&, const sp<vt::Op>&, const PT&); template<class F> void define(const std::string&, F&&); };
  template<> ParameterizedObjectFactory<PreconditionerSignature<vt::Op>,std::string>& Singleton<ParameterizedObjectFactory<PreconditionerSignature<vt::Op>,std::string>>::instance();
  template<> ParameterizedObjectFactory<SolverSignature<vt::Op>,std::string>& Singleton<ParameterizedObjectFactory<SolverSignature<vt::Op>,std::string>>::instance();
}
// creation by name
#define NAMED(Tag,N,nm) template<class I, std::size_t i> auto make_##nm(const auto& op, const PT& c) { static_assert(times<Tag,N>(#nm)<2); if constexpr (i<N) return Dune::Registry<Tag,i>::getCreator()(I{}, op, c); else return sp<vt::Unregistered>(); }
namespace vt { struct Unregistered {}; void use(const Unregistered*) noexcept; }
#define PREC(nm, ...) NAMED(PreconditionerTag,NP,nm) void k_prec_##nm(const sp<vt::Op>& op, const PT& c) { auto p = make_##nm<IP, find<PreconditionerTag,NP>(#nm)>(op, c); vt::use(p.get()); } \
  void s_prec_##nm(const sp<vt::Op>& op, const PT& c) { const auto& A = IP::getAssembledOpOrThrow(op); sp<vt::P> p = std::make_shared<__VA_ARGS__>(A, c); vt::use(p.get()); }
PREC(ssor, Dune::SeqSSOR<M,V,V,1>) PREC(sor, Dune::SeqSOR<M,V,V,1>) PREC(gs, Dune::SeqSOR<M,V,V,1>) PREC(jac, Dune::SeqJac<M,V,V,1>) PREC(dilu, Dune::SeqDILU<M,V,V,1>) PREC(ilu, Dune::SeqILU<M,V,V,1>) PREC(ildl, Dune::SeqILDL<M,V,V>)
NAMED(PreconditionerTag,NP,richardson) void k_prec_richardson(const sp<vt::Op>& op, const PT& c) { auto p = make_richardson<IP, find<PreconditionerTag,NP>("richardson")>(op, c); vt::use(p.get()); }
void s_prec_richardson(const sp<vt::Op>& op, const PT& c) { auto p = std::make_shared<Dune::Richardson<V,V>>(c); vt::use(p.get()); }
#define SOLV(nm, ...) NAMED(SolverTag,NS,nm) void k_solver_##nm(const sp<vt::SOp>& op, const PT& c) { auto p = make_##nm<IQ, find<SolverTag,NS>(#nm)>(op, c); vt::use(p.get()); } \
  void s_solver_##nm(const sp<vt::SOp>& op, const PT& c) { sp<vt::SOp> o = std::dynamic_pointer_cast<vt::SOp>(op); sp<vt::P> q = Dune::getPreconditionerFromFactory(o, c.sub("preconditioner")); \
    sp<Dune::ScalarProduct<V>> s = IQ::getScalarProduct(op); sp<vt::I> p = std::make_shared<__VA_ARGS__>(op, s, q, c); vt::use(p.get()); }
SOLV(loopsolver, Dune::LoopSolver<V>) SOLV(gradientsolver, Dune::GradientSolver<V>) SOLV(cgsolver, Dune::CGSolver<V>) SOLV(bicgstabsolver, Dune::BiCGSTABSolver<V>) SOLV(minressolver, Dune::MINRESSolver<V>)
SOLV(restartedgmressolver, Dune::RestartedGMResSolver<V>) SOLV(restartedflexiblegmressolver, Dune::RestartedFlexibleGMResSolver<V>) SOLV(generalizedpcgsolver, Dune::GeneralizedPCGSolver<V>) SOLV(restartedfcgsolver, Dune::RestartedFCGSolver<V>) SOLV(completefcgsolver, Dune::CompleteFCGSolver<V>)
// direct solvers
#define DIRP(nm) void k_direct_##nm(const sp<vt::Op>& op, const PT& c) { auto p = make_##nm<IP, find<SolverTag,NS>(#nm)>(op, c); vt::use(p.get()); }
#define DIRQ(nm) void k_dirseq_##nm(const sp<vt::SOp>& op, const PT& c) { auto p = make_##nm<IQ, find<SolverTag,NS>(#nm)>(op, c); vt::use(p.get()); }
#define DIR(nm, ...) NAMED(SolverTag,NS,nm) DIRP(nm) DIRQ(nm) \
  void s_direct_##nm(const sp<vt::Op>& op, const PT& c) { if (IP::getCommOrThrow(op).communicator().size()>1) throw 1; const auto& a = IP::getAssembledOpOrThrow(op); const M& m = a->getmat(); sp<vt::I> p = std::make_shared<__VA_ARGS__>(m, c.get("verbose", 0)); vt::use(p.get()); } \
  void s_dirseq_##nm(const sp<vt::SOp>& op, const PT& c) { const auto& a = IQ::getAssembledOpOrThrow(op); const M& m = a->getmat(); sp<vt::I> p = std::make_shared<__VA_ARGS__>(m, c.get("verbose", 0)); vt::use(p.get()); }
DIR(superlu, Dune::SuperLU<M>) DIR(umfpack, Dune::UMFPack<M>) DIR(ldl, Dune::LDL<M>) DIR(spqr, Dune::SPQR<M>)
NAMED(SolverTag,NS,cholmod) DIRP(cholmod) DIRQ(cholmod)
void s_direct_cholmod(const sp<vt::Op>& op, const PT& c) { if (IP::getCommOrThrow(op).communicator().size()>1) throw 1; const auto& a = IP::getAssembledOpOrThrow(op); const M& m = a->getmat(); auto p = std::make_shared<Dune::Cholmod<V>>(); p->setMatrix(m); sp<vt::I> q = p; vt::use(q.get()); }
void s_dirseq_cholmod(const sp<vt::SOp>& op, const PT& c) { const auto& a = IQ::getAssembledOpOrThrow(op); const M& m = a->getmat(); auto p = std::make_shared<Dune::Cholmod<V>>(); p->setMatrix(m); sp<vt::I> q = p; vt::use(q.get()); }
// wrapping
void k_wrap(const sp<vt::Op>& op, const PT& c) { auto p = Dune::getPreconditionerFromFactory(op, c); vt::use(p.get()); }
static void wrapped(sp<vt::Op> op, const PT& c) { using SC = Dune::SolverCategory;
  std::string t = c.get<std::string>("type"); auto p = Dune::PreconditionerFactory<vt::Op>::instance().create(t, op, c);
  const vt::Comm& comm = Dune::OperatorTraits<vt::Op>::getCommOrThrow(op);
  if (p->category()==SC::sequential && op->category()==SC::overlapping) { sp<vt::P> q = std::make_shared<Dune::BlockPreconditioner<V,V,vt::Comm>>(p, comm); vt::use(q.get()); }
  else if (p->category()==SC::sequential && op->category()==SC::nonoverlapping) { sp<vt::P> q = std::make_shared<Dune::NonoverlappingBlockPreconditioner<vt::Comm,vt::P>>(p, comm); vt::use(q.get()); }
  else vt::use(p.get());
}
void s_wrap(const sp<vt::Op>& op, const PT& c) { wrapped(op, c); }
// a solver by name, with a preconditioner by name or one that is given
static sp<vt::I> solver(sp<vt::Op> op, const PT& c, sp<vt::P> prec) {
  if (!prec) return Dune::SolverFactory<vt::Op>::instance().create(c.get<std::string>("type"), op, c);
  Dune::PreconditionerFactory<vt::Op>::instance().defined(prec.get());
  PT t = c; t.sub("preconditioner")["type"] = std::string("__passed at runtime__");
  return Dune::SolverFactory<vt::Op>::instance().create(c.get<std::string>("type"), op, t);
}
void k_find_solver(const sp<vt::Op>& op, const PT& c, const sp<vt::P>& prec) { auto p = Dune::getSolverFromFactory(op, c, prec); vt::use(p.get()); }
void s_find_solver(const sp<vt::Op>& op, const PT& c, const sp<vt::P>& prec) { auto p = solver(op, c, prec); vt::use(p.get()); }
void k_find_default(const sp<vt::Op>& op, const PT& c) { auto p = Dune::getSolverFromFactory(op, c); vt::use(p.get()); }
void s_find_default(const sp<vt::Op>& op, const PT& c) { auto p = solver(op, c, nullptr); vt::use(p.get()); }
