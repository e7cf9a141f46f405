// F02: the multigrid preconditioner by name, and what the factories take from an operator
#include "config.h"
#include "ptree.hh"
#include <memory>
template<> std::__shared_count<__gnu_cxx::_S_atomic>::~__shared_count() noexcept;
template<> std::__shared_count<__gnu_cxx::_S_atomic>& std::__shared_count<__gnu_cxx::_S_atomic>::operator=(const std::__shared_count<__gnu_cxx::_S_atomic>&) noexcept;
template<> std::__shared_count<__gnu_cxx::_S_atomic>::__shared_count(const std::__shared_count<__gnu_cxx::_S_atomic>&) noexcept;
template<> bool std::operator==<char,std::char_traits<char>,std::allocator<char>>(const std::string&, const char*);
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/solverfactory.hh>
namespace vt {
  struct V { using field_type = double; using block_type = double; using size_type = std::size_t; double pad[3]; };
  using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>;
  struct Cc { int size() const noexcept; int rank() const noexcept; };
  struct Comm { double pad[3]; const Cc& communicator() const noexcept; };
}
using vt::V; using vt::M; using vt::Comm; using PT = Dune::ParameterTree; using SC = Dune::SolverCategory;
template<class T> using sp = std::shared_ptr<T>;
namespace Dune {
  template<> class Preconditioner<V,V> { public: double pad[4]; SolverCategory::Category category() const noexcept; ~Preconditioner() noexcept; };
  template<> class InverseOperator<V,V> { public: double pad[4]; ~InverseOperator() noexcept; };
  template<> class ScalarProduct<V> { public: double pad[4]; ~ScalarProduct() noexcept; };
  template<> class SeqScalarProduct<V> : public ScalarProduct<V> { public: SeqScalarProduct(); double vt_pad[3]; };
  template<> class ParallelScalarProduct<V,Comm> : public ScalarProduct<V> { public: ParallelScalarProduct(sp<const Comm>, SolverCategory::Category); double vt_pad[3]; };
  template<> class LinearOperator<V,V> { public: double pad[4]; virtual ~LinearOperator() noexcept; SolverCategory::Category category() const noexcept; };
  template<> class AssembledLinearOperator<M,V,V> : public LinearOperator<V,V> { public: double pad2[4]; const M& getmat() const noexcept; };
  template<> class MatrixAdapter<M,V,V> : public AssembledLinearOperator<M,V,V> { public: using matrix_type = M; using domain_type = V; using range_type = V; using field_type = double; double p3; };
  template<> class OverlappingSchwarzOperator<M,V,V,Comm> : public AssembledLinearOperator<M,V,V> { public: using matrix_type = M; using domain_type = V; using range_type = V; using field_type = double; using communication_type = Comm; double p3; const Comm& getCommunication() const noexcept; };
  template<> class NonoverlappingSchwarzOperator<M,V,V,Comm> : public AssembledLinearOperator<M,V,V> { public: using matrix_type = M; using domain_type = V; using range_type = V; using field_type = double; using communication_type = Comm; double p3; const Comm& getCommunication() const noexcept; };
#define P4(C) template<> class C<M,V,V,1> : public Preconditioner<V,V> { public: double vt_pad[5]; };
  P4(SeqSSOR) P4(SeqSOR) P4(SeqJac) P4(SeqILU)
  template<class S> class BlockPreconditioner<V,V,Comm,S> : public Preconditioner<V,V> { public: BlockPreconditioner(const sp<S>&, const Comm&); double vt_pad[5]; };
  template<class S> class NonoverlappingBlockPreconditioner<Comm,S> : public Preconditioner<V,V> { public: NonoverlappingBlockPreconditioner(const sp<S>&, const Comm&); double vt_pad[5]; };
  namespace Amg {
    template<class OP, class S> class AMG<OP,V,S,SequentialInformation,std::allocator<V>> : public Preconditioner<V,V> { public: AMG(sp<const OP>, const PT&); double vt_pad[7]; };
    template<class OP, class S> class AMG<OP,V,S,Comm,std::allocator<V>> : public Preconditioner<V,V> { public: AMG(sp<const OP>, const PT&, const Comm&); double vt_pad[7]; };
  }
}
namespace vt { void use(const Dune::Preconditioner<V,V>*) noexcept; void use(const Dune::ScalarProduct<V>*) noexcept; void use(const Comm&) noexcept; void use(const void*) noexcept; }
using OS = Dune::MatrixAdapter<M,V,V>; using OO = Dune::OverlappingSchwarzOperator<M,V,V,Comm>; using ON = Dune::NonoverlappingSchwarzOperator<M,V,V,Comm>;
template<class S> using BO = Dune::BlockPreconditioner<V,V,Comm,S>; template<class S> using BN = Dune::NonoverlappingBlockPreconditioner<Comm,S>;
using J = Dune::SeqJac<M,V,V>; using G = Dune::SeqGS<M,V,V>; using O = Dune::SeqSOR<M,V,V>; using Q = Dune::SeqSSOR<M,V,V>; using U = Dune::SeqILU<M,V,V>;
template<class Op, class S> sp<Dune::Preconditioner<V,V>> amg(const sp<Op>& op, const PT& c) {
  sp<const Op> o = op;
  if constexpr (std::is_same_v<Op,OS>) return std::make_shared<Dune::Amg::AMG<Op,V,S>>(o, c);
  else if constexpr (std::is_same_v<Op,OO>) return std::make_shared<Dune::Amg::AMG<Op,V,BO<S>,Comm>>(o, c, op->getCommunication());
  else return std::make_shared<Dune::Amg::AMG<Op,V,BN<S>,Comm>>(o, c, op->getCommunication());
}
template<class Op> sp<Dune::Preconditioner<V,V>> amg(const sp<Op>& op, const PT& c) {
  std::string s = c.get("smoother", "ssor");
  if (s == "ssor") return amg<Op,Q>(op, c); if (s == "sor") return amg<Op,O>(op, c); if (s == "jac") return amg<Op,J>(op, c); if (s == "gs") return amg<Op,G>(op, c); if (s == "ilu") return amg<Op,U>(op, c); throw 1;
}
#define AMG(n, OP) void k_amg_##n(const sp<OP>& op, const PT& c) { auto p = Dune::AMGCreator()(Dune::OperatorTraits<OP>(), op, c); vt::use(p.get()); } \
  void s_amg_##n(const sp<OP>& op, const PT& c) { auto p = amg<OP>(op, c); vt::use(p.get()); }
AMG(seq, OS) AMG(overlap, OO) AMG(nonoverlap, ON)
// what is taken from an operator
#define TRAITS(n, OP, PAR) void k_mat_##n(const sp<Dune::LinearOperator<V,V>>& op) { auto a = Dune::OperatorTraits<OP>::getAssembledOpOrThrow(op); vt::use(a.get()); } \
  void s_mat_##n(const sp<Dune::LinearOperator<V,V>>& op) { auto a = std::dynamic_pointer_cast<Dune::AssembledLinearOperator<M,V,V>>(op); if (!a) throw 1; vt::use(a.get()); }
TRAITS(seq, OS, false) TRAITS(overlap, OO, true) TRAITS(nonoverlap, ON, true)
#define SCP(n, OP) void k_sp_##n(const sp<Dune::LinearOperator<V,V>>& op) { auto a = Dune::OperatorTraits<OP>::getScalarProduct(op); vt::use(a.get()); }
SCP(seq, OS) SCP(overlap, OO) SCP(nonoverlap, ON)
void s_sp_seq(const sp<Dune::LinearOperator<V,V>>&) { sp<Dune::ScalarProduct<V>> p = std::make_shared<Dune::SeqScalarProduct<V>>(); vt::use(p.get()); }
template<class OP> void spp(const sp<Dune::LinearOperator<V,V>>& op) { auto o = std::dynamic_pointer_cast<OP>(op); const Comm& c = o->getCommunication(); auto p = Dune::createScalarProduct<V>(c, op->category()); vt::use(p.get()); }
void s_sp_overlap(const sp<Dune::LinearOperator<V,V>>& op) { spp<OO>(op); }
void s_sp_nonoverlap(const sp<Dune::LinearOperator<V,V>>& op) { spp<ON>(op); }
