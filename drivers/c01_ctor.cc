// Constructors that combine components: k_ library, s_ prescribed admission.
#include "config.h"
#include "opaque.hh"
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/common/parametertree.hh>
using X = vt::Vec; using SC = Dune::SolverCategory;
using L = Dune::LinearOperator<X,X>; using P = Dune::Preconditioner<X,X>; using SP = Dune::ScalarProduct<X>; using PT = Dune::ParameterTree;
template<class T> using sp = std::shared_ptr<T>;
template<> double PT::get<double>(const std::string&) const; template<> int PT::get<int>(const std::string&) const; template<> int PT::get<int>(const std::string&, const int&) const;
[[noreturn]] void vt_reject();
#define NEED(c) do { if (!(c)) vt_reject(); } while (0)
extern "C" { void* off_category(Dune::IterativeSolver<X,X>& s) { return &s._category; }
 // the component a handle refers to
 const void* at_op(const sp<const L>& o) { return o.get(); } }
void probe_lcat(const L& l) { (void) l.category(); } void probe_pcat(const P& l) { (void) l.category(); } void probe_scat(const SP& l) { (void) l.category(); }
#define SEQ2 NEED(op.category() == SC::sequential); NEED(pr.category() == SC::sequential); p->_category = SC::sequential;
#define SAME3 NEED(op.category() == pr.category()); NEED(op.category() == s.category()); p->_category = op.category();
#define SAME3P NEED(op->category() == pr->category()); NEED(op->category() == s->category()); p->_category = op->category();
#define SEQ2P NEED(op->category() == SC::sequential); NEED(pr->category() == SC::sequential); p->_category = SC::sequential;
#define FIVE(nm, S, ...) void k_##nm##_5(S* p, const L& op, P& pr, double r, int k, int m, int v) { new (p) S(op, pr, r, __VA_ARGS__ m, v); } void s_##nm##_5(S* p, const L& op, P& pr, double r, int k, int m, int v) { SEQ2 }
#define SIX(nm, S, ...) void k_##nm##_6(S* p, const L& op, const SP& s, P& pr, double r, int k, int m, int v) { new (p) S(op, s, pr, r, __VA_ARGS__ m, v); } void s_##nm##_6(S* p, const L& op, const SP& s, P& pr, double r, int k, int m, int v) { SAME3 }
#define CFG2(nm, S) void k_##nm##_c2(S* p, sp<const L> op, sp<P> pr, const PT& c) { new (p) S(op, pr, c); } void s_##nm##_c2(S* p, sp<const L> op, sp<P> pr, const PT& c) { SEQ2P }
#define CFG3(nm, S) void k_##nm##_c3(S* p, sp<const L> op, sp<const SP> s, sp<P> pr, const PT& c) { new (p) S(op, s, pr, c); } void s_##nm##_c3(S* p, sp<const L> op, sp<const SP> s, sp<P> pr, const PT& c) { SAME3P }
#define PTR(nm, S, CS, ...) void k_##nm##_p(S* p, sp<const L> op, sp<CS> s, sp<P> pr, double r, int k, int m, int v) { new (p) S(op, s, pr, r, __VA_ARGS__ m, v); } void s_##nm##_p(S* p, sp<const L> op, sp<CS> s, sp<P> pr, double r, int k, int m, int v) { SAME3P }
#define ALL(nm, S, ...) FIVE(nm, S, __VA_ARGS__) SIX(nm, S, __VA_ARGS__) CFG2(nm, S) CFG3(nm, S) PTR(nm, S, const SP, __VA_ARGS__)
using Loop = Dune::LoopSolver<X>; using Grad = Dune::GradientSolver<X>; using CG = Dune::CGSolver<X>; using Bi = Dune::BiCGSTABSolver<X>; using MR = Dune::MINRESSolver<X>;
using GM = Dune::RestartedGMResSolver<X>; using FG = Dune::RestartedFlexibleGMResSolver<X>; using GP = Dune::GeneralizedPCGSolver<X>; using RF = Dune::RestartedFCGSolver<X>; using CF = Dune::CompleteFCGSolver<X>;
ALL(loop, Loop,) ALL(grad, Grad,) ALL(cg, CG,) ALL(bicg, Bi,) ALL(minres, MR,) ALL(gmres, GM, k,) ALL(fgmres, FG, k,) ALL(gpcg, GP,) ALL(fcg, RF,) ALL(cfcg, CF,)
// condition estimate variants of the conjugate gradient method
void k_cge_5(CG* p, const L& op, P& pr, double r, int m, int v, bool e) { new (p) CG(op, pr, r, m, v, e); } void s_cge_5(CG* p, const L& op, P& pr, double r, int m, int v, bool e) { SEQ2 }
void k_cge_6(CG* p, const L& op, const SP& s, P& pr, double r, int m, int v, bool e) { new (p) CG(op, s, pr, r, m, v, e); } void s_cge_6(CG* p, const L& op, const SP& s, P& pr, double r, int m, int v, bool e) { SAME3 }
void k_cge_p(CG* p, sp<const L> op, sp<SP> s, sp<P> pr, double r, int m, int v, bool e) { new (p) CG(op, s, pr, r, m, v, e); } void s_cge_p(CG* p, sp<const L> op, sp<SP> s, sp<P> pr, double r, int m, int v, bool e) { SAME3P }
// solver as preconditioner with a category demanded by the user
struct Inv final : Dune::InverseOperator<X,X> { void apply(X&, X&, Dune::InverseOperatorResult&) override; void apply(X&, X&, double, Dune::InverseOperatorResult&) override; SC::Category category() const noexcept override; };
template<int c> using I2P = Dune::InverseOperator2Preconditioner<Inv, c>;
void k_i2p_any(I2P<-1>* p, Inv& i) { new (p) I2P<-1>(i); } void s_i2p_any(I2P<-1>* p, Inv& i) { }
#define I2(nm, c) void k_i2p_##nm(I2P<c>* p, Inv& i) { new (p) I2P<c>(i); } void s_i2p_##nm(I2P<c>* p, Inv& i) { NEED(i.category() == c); }
I2(seq, SC::sequential) I2(ovl, SC::overlapping) I2(nov, SC::nonoverlapping)
