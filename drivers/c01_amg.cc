// Multigrid constructors and the scalar product factory: k_ library, s_ prescribed admission.
#include "config.h"
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/paamg/amg.hh>
using M = Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>>; using X = Dune::BlockVector<Dune::FieldVector<double,1>>;
using Comm = Dune::OwnerOverlapCopyCommunication<int,int>; using SC = Dune::SolverCategory;
struct Op final : Dune::AssembledLinearOperator<M,X,X> { using communication_type = Comm; void apply(const X&, X&) const override; void applyscaleadd(double, const X&, X&) const override; const M& getmat() const noexcept override; SC::Category category() const noexcept override;
  Op(const M&, const Comm&) noexcept; };
using Sm = Dune::BlockPreconditioner<X,X,Comm,Dune::SeqSSOR<M,X,X>>;
using AMG = Dune::Amg::AMG<Op,X,Sm,Comm>;
using Crit = Dune::Amg::CoarsenCriterion<Dune::Amg::UnSymmetricCriterion<M,Dune::Amg::FirstDiagonal>>;
template<> template<> void AMG::createHierarchies<Crit>(Crit&, const std::shared_ptr<const Op>&, const Comm&);
template<> template<> void AMG::createHierarchies<const Crit>(const Crit&, const std::shared_ptr<const Op>&, const Comm&);
using H = Dune::Amg::MatrixHierarchy<Op,Comm>;
[[noreturn]] void vt_reject();
#define NEED(c) do { if (!(c)) vt_reject(); } while (0)
void probe_lcat(const Dune::LinearOperator<X,X>& l) { (void) l.category(); }
extern "C" { void* off_category(AMG& a) { return &a.category_; } }
void k_amg(AMG* p, const Op& op, const Crit& c, const AMG::SmootherArgs& a, const Comm& pi) { new (p) AMG(op, c, a, pi); }
void s_amg(AMG* p, const Op& op, const Crit& c, const AMG::SmootherArgs& a, const Comm& pi) { NEED(op.category() == pi.category_); p->category_ = pi.category_; }
void k_hier(H* p, std::shared_ptr<Op> op, std::shared_ptr<Comm> pi) { new (p) H(op, pi); }
void s_hier(H* p, std::shared_ptr<Op> op, std::shared_ptr<Comm> pi) { NEED(op->category() == pi->category_); }
// the scalar product made for a category declares that category
int k_makesp(std::shared_ptr<const Comm> c, SC::Category cat) { return Dune::makeScalarProduct<X>(c, cat)->category(); }
int s_makesp(std::shared_ptr<const Comm> c, SC::Category cat) { return cat; }
int k_createsp(const Comm& c, SC::Category cat) { return Dune::createScalarProduct<X>(c, cat)->category(); }
int s_createsp(const Comm& c, SC::Category cat) { return cat; }
