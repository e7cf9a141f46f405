// Iteration control of the iterative solvers: what a solver observes of Iteration, against its prescription.
#include "config.h"
#include "opaque.hh"
#include <cmath>
#include <dune/istl/solvers.hh>
using X = vt::Vec;
using R = Dune::InverseOperatorResult;
using Base = Dune::IterativeSolver<X,X>;
template<class C> using It = Base::Iteration<C>;
struct Out { bool a, b; };
const void* off_reduction(Base& s) { return &s._reduction; }
const void* off_verbose(Base& s) { return &s._verbose; }
const void* off_iterations(R& r) { return &r.iterations; }
const void* off_reduction_(R& r) { return &r.reduction; }
const void* off_converged(R& r) { return &r.converged; }
const void* off_rate(R& r) { return &r.conv_rate; }
const void* off_elapsed(R& r) { return &r.elapsed; }
const void* off_cond(R& r) { return &r.condition_estimate; }
// a measurement record with one, two and three measurements
#define K(C,n) \
void k_run0_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { It<C> it(s, r); } \
void k_run1_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { It<C> it(s, r); o.a = it.step(0, d0); } \
void k_run2_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { It<C> it(s, r); it.step(0, d0); o.a = it.step(i, d); } \
void k_run3_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { It<C> it(s, r); it.step(0, d0); o.b = it.step(i, d); o.a = it.step(j, e); } \
void k_move_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { It<C> x(s, r); x.step(0, d0); It<C> it(std::move(x)); o.a = it.step(i, d); }
K(unsigned,u) K(double,d)
// prescription
static inline bool crit(const Base& s, double d0, double d) { return d < d0*s._reduction || d < 1e-30; }
static inline void fin(double d) { if (!std::isfinite(d)) throw Dune::SolverAbort(); }
static inline void stat(R& r, double d0, double d, double i) { r.iterations = i; r.reduction = d/d0; r.conv_rate = std::pow(d/d0, 1.0/i); r.elapsed = Dune::Timer().elapsed(); r.condition_estimate = -1; }
static inline void statu(R& r, double d0, double d, unsigned i) { r.iterations = i; r.reduction = d/d0; r.conv_rate = std::pow(d/d0, 1.0/i); r.elapsed = Dune::Timer().elapsed(); r.condition_estimate = -1; }
static inline void stat0(R& r, double d0, double d) { r.iterations = 0; r.reduction = d/d0; }
#define SP(C,n,st) \
void s_run0_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { r.converged = false; r.iterations = 0; r.condition_estimate = -1; } \
void s_run1_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { r.converged = false; r.condition_estimate = -1; fin(d0); o.a = r.converged = crit(s, d0, d0); stat0(r, d0, d0); } \
void s_run2_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { r.converged = false; fin(d0); if (i == 0) d0 = d; r.converged = false; fin(d); o.a = r.converged = crit(s, d0, d); st(r, d0, d, i); } \
void s_run3_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { r.converged = false; fin(d0); if (i == 0) d0 = d; fin(d); o.b = crit(s, d0, d); if (j == 0) d0 = e; fin(e); o.a = r.converged = crit(s, d0, e); st(r, d0, e, j); } \
void s_move_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { s_run2_##n(s, r, o, i, j, d0, d, e); }
SP(unsigned,u,statu) SP(double,d,stat)
// a run left by an exception
#define KA(C,n) \
void k_abort1_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { try { It<C> it(s, r); it.step(0, d0); o.b = false; } catch (...) { o.b = true; } } \
void k_abort2_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { try { It<C> it(s, r); if (it.step(0, d0)) { o.b = false; return; } it.step(i, d); o.b = false; } catch (...) { o.b = true; } } \
void k_abort0_##n(const Base& s, R& r, Out& o, C i, C j, double d0, double d, double e) { o.b = true; try { It<C> it(s, r); throw 0; } catch (...) { } }
KA(unsigned,u) KA(double,d)
const void* off_excflag(Out& o) { return &o.b; }
const void* off_retflag(Out& o) { return &o.a; }
