// Iterative solvers, compiled without inlining. com_*: the virtual calls that communicate; loc_*: those that do not.
#include "s05_solver.cc"
using LO = Dune::LinearOperator<X,X>; using PC = Dune::Preconditioner<X,X>; using SP = Dune::ScalarProduct<X>; using IO = Dune::InverseOperator<X,X>;
void com_op(LO& o, X& x, X& y) { o.apply(x, y); o.applyscaleadd(1., x, y); }
void com_prec(PC& p, X& x, X& y) { p.pre(x, y); p.apply(x, y); p.post(x); }
double com_sp(SP& s, X& x, X& y) { return s.dot(x, y) + s.norm(x); }
void com_inv(IO& i, X& x, X& y, Dune::InverseOperatorResult& r) { i.apply(x, y, r); i.apply(x, y, 1., r); }
int loc_cat(LO& o, PC& p, SP& s, IO& i) { return int(o.category()) + int(p.category()) + int(s.category()) + int(i.category()); }
