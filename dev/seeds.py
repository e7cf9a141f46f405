S = []
def seed(id, prop, edits, demo, needs, breaks, **kw):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

seed('K01-scaledid-usmhv', 'K01', [('scaledidmatrix.hh', 'y[i] += alpha * conjugateComplex(p_) * x[i]', 'y[i] += alpha * p_ * x[i]')], r'''
#include <dune/istl/scaledidmatrix.hh>
#include <complex>
#include <cstdio>
int main() {
  typedef std::complex<double> C;
  Dune::ScaledIdentityMatrix<C,2> A(C(1,2));
  Dune::FieldVector<C,2> x(C(1,0)), y(C(0,0));
  A.usmhv(C(1,0),x,y);
  std::printf("%g %g\n", y[0].real(), y[0].imag());
  return (y[0]==C(1,-2) && y[1]==C(1,-2)) ? 0 : 1;
}
''', 'complex scalar with non-zero imaginary part', 'usmhv of the scaled identity no longer conjugates')

seed('K02-mtbvec-infreal', 'K02', [('multitypeblockvector.hh', 'real_type entryNorm = entry.infinity_norm_real();', 'real_type entryNorm = entry.infinity_norm();')], r"""
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/bvector.hh>
#include <complex>
#include <cstdio>
int main() {   // |re|+|im| = 7 for the single entry, |z| = 5
  typedef std::complex<double> C;
  typedef Dune::BlockVector<Dune::FieldVector<C,1>> B;
  Dune::MultiTypeBlockVector<B,B> v;
  using namespace Dune::Indices;
  v[_0].resize(1); v[_1].resize(1); v[_0][0]=C(3,4); v[_1][0]=C(1,0);
  double n=v.infinity_norm_real();
  std::printf("%g\n", n);
  return n==7 ? 0 : 1;
}
""", 'complex entries whose modulus differs from the sum of their parts', 'infinity_norm_real uses the modulus')

PREC = r'''
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/common/fmatrix.hh>
#include <cstdio>
#include <cmath>
typedef Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>> M;
typedef Dune::BlockVector<Dune::FieldVector<double,1>> V;
typedef Dune::MatrixAdapter<M,V,V> Op;
inline M laplace(int n) {
  M A(n,n,3*n,M::row_wise);
  for (auto r=A.createbegin(); r!=A.createend(); ++r) { int i=r.index(); if (i>0) r.insert(i-1); r.insert(i); if (i+1<n) r.insert(i+1); }
  for (int i=0;i<n;i++) { A[i][i]=2; if (i>0) A[i][i-1]=-1; if (i+1<n) A[i][i+1]=-1; }
  return A;
}
struct Count : Dune::Preconditioner<V,V> {
  int pre_=0, post_=0, app=0;
  void pre(V&, V&) override { ++pre_; }
  void apply(V& v, const V& d) override { ++app; v=d; }
  void post(V&) override { ++post_; }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
'''

seed('S01-bicg-halfpost', 'S01', [('solvers.hh', """        // apply first correction to x
        // x <- x + alpha y
        x.axpy(alpha,y);

        // r = r - alpha*v
        r.axpy(-alpha,v);

        //
        // test stop criteria
        //

        norm = _sp->norm(r);
        if(iteration.step(it, norm)){
          break;
        }
""", """        // apply first correction to x
        // x <- x + alpha y
        x.axpy(alpha,y);

        // r = r - alpha*v
        r.axpy(-alpha,v);

        //
        // test stop criteria
        //

        norm = _sp->norm(r);
        if(iteration.step(it, norm)){
          return;
        }
""")], PREC + r"""
int main() {   // exact preconditioner: converges in the half step of the first iteration
  M A(2,2,2,M::row_wise);
  for (auto r=A.createbegin(); r!=A.createend(); ++r) r.insert(r.index());
  A[0][0]=1; A[1][1]=1;
  Op op(A); Count p; V x(2), b(2); x=0; b[0]=1; b[1]=2;
  Dune::BiCGSTABSolver<V> s(op,p,1e-8,10,0); Dune::InverseOperatorResult r; s.apply(x,b,r);
  std::printf("pre %d post %d it %d\n", p.pre_, p.post_, r.iterations);
  return p.pre_==1 && p.post_==1 ? 0 : 1;
}
""", 'convergence exactly in the half step of BiCGSTAB, preconditioner with a non-trivial post', 'post() is not called when BiCGSTAB converges in a half step')

seed('S03-gpcg-limit', 'S03', [('solvers.hh', """          ++i;
          if(iteration.step(i, def))
            break;
        }
        if(res.converged)
          break;
        if(end==restart) {
          *(p[0])=*(p[restart-1]);
          pp[0]=pp[restart-1];
        }""", """          ++i;
          if(iteration.step(i, def))
            break;
        }
        if(res.converged)
          break;
        if(end==restart) {
          *(p[0])=*(p[restart-1]);
          pp[0]=pp[restart-1];
          if(def==real_type(0.))
            i=0;
        }""")] if False else [('solvers.hh', 'for (it = 0.5; it < _maxit; it+=.5)', 'for (it = 0.5; it <= _maxit+1-_reduction; it+=.5)')], PREC + r"""
int main() {
  M A = laplace(40); Op op(A); Count p; V x(40), b(40); x=0; b=1; b[3]=-2;
  Dune::BiCGSTABSolver<V> s(op,p,1e-8,3,0); Dune::InverseOperatorResult r; s.apply(x,b,r);
  std::printf("applications %d it %d\n", p.app, r.iterations);
  return p.app <= 6 ? 0 : 1;
}
""", 'a run that exhausts the iteration limit', 'BiCGSTAB performs another full iteration after the limit')

seed('S04-gpcg-image', 'S04', [('solvers.hh', """          _op->apply(*(p[ii]),q);                     // q=Ap
          pp[ii] = _sp->dot(*(p[ii]),q);               // scalar product""", """          if (ii > 1 || i > 1)
            _op->apply(*(p[ii]),q);                     // q=Ap
          pp[ii] = _sp->dot(*(p[ii]),q);               // scalar product""")], PREC + r"""
int main() {
  M A = laplace(6); Op op(A); Count p; V x(6), b(6), b0(6); x=0; b=1; b[3]=-2; b0=b;
  Dune::GeneralizedPCGSolver<V> s(op,p,1e-8,100,0,10); Dune::InverseOperatorResult r; s.apply(x,b,r);
  A.mmv(x,b0); b0-=b;
  std::printf("converged %d: returned defect differs from b-Ax by %g\n", r.converged, b0.two_norm());
  return b0.two_norm() < 1e-10 ? 0 : 1;
}
""", 'any run with more than one search direction, observed through the returned defect', 'the defect is updated with the image of another vector')

seed('S05-convrate', 'S05', [('solver.hh', """        _res.conv_rate  = pow(_res.reduction,1.0/_i);
        _res.elapsed = _watch.elapsed();
        if (_parent._verbose>0)                 // final print
          {
""", """        _res.elapsed = _watch.elapsed();
        if (_parent._verbose>0)                 // final print
          {
            _res.conv_rate  = pow(_res.reduction,1.0/_i);
""")], r"""
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/common/fmatrix.hh>
#include <cstdio>
typedef Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>> M; typedef Dune::BlockVector<Dune::FieldVector<double,1>> V;
double rate(const M& A, int verbose) {
  Dune::MatrixAdapter<M,V,V> op(A); Dune::SeqJac<M,V,V> prec(A,1,1.0);
  Dune::LoopSolver<V> solver(op,prec,1e-6,200,verbose); V x(4), b(4); x=0; b=1; Dune::InverseOperatorResult r;
  solver.apply(x,b,r); return r.conv_rate;
}
int main() {   // what a solve reports must not depend on how much it prints
  M A(4,4,12,M::row_wise);
  for (auto r=A.createbegin(); r!=A.createend(); ++r) { r.insert(r.index()); if (r.index()>0) r.insert(r.index()-1); if (r.index()<3) r.insert(r.index()+1); }
  A=-1; for (int i=0;i<4;++i) A[i][i]=3;
  double quiet=rate(A,0), loud=rate(A,1);
  std::printf("%g %g\n",quiet,loud);
  return quiet==loud ? 0 : 1;
}
""", 'a solve with verbosity zero', 'the reported convergence rate is only set when the solver prints')

seed('A01-twolevel-copy', 'A01', [('paamg/twolevelmethod.hh', 'preSteps_(other.preSteps_), postSteps_(other.postSteps_)', 'preSteps_(other.preSteps_), postSteps_(other.preSteps_)')], r"""
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
#include <dune/common/fmatrix.hh>
#include <cstdio>
#include <string>
typedef Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>> M; typedef Dune::BlockVector<Dune::FieldVector<double,1>> V; typedef Dune::MatrixAdapter<M,V,V> Op;
std::string log_;
struct Smoother : Dune::Preconditioner<V,V> {
  void pre(V&, V&) override {} void post(V&) override {} void apply(V& v, const V&) override { log_ += 's'; v = 0; }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
struct Transfer : Dune::Amg::LevelTransferPolicy<Op,Op> {
  Transfer* clone() const override { return new Transfer(*this); }
  void moveToCoarseLevel(const V&) override { this->lhs_.resize(1); this->rhs_.resize(1); this->lhs_ = 0; log_ += 'd'; }
  void moveToFineLevel(V&) override { log_ += 'u'; }
  void createCoarseLevelSystem(const Op& op) override { this->operator_ = std::make_shared<Op>(op); }
};
struct Coarse : Dune::InverseOperator<V,V> {
  void apply(V&, V&, Dune::InverseOperatorResult&) override { log_ += 'c'; } void apply(V&, V&, double, Dune::InverseOperatorResult&) override {}
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
struct Policy { typedef Op Operator; typedef Coarse CoarseLevelSolver; template<class P> Coarse* createCoarseLevelSolver(P&) { return new Coarse; } };
int main() {   // one presmoothing and two postsmoothing steps, also in a copy
  M A(2,2,2,M::row_wise); for (auto r=A.createbegin(); r!=A.createend(); ++r) r.insert(r.index()); A=1;
  Op op(A); Transfer t; Policy p; auto s=std::make_shared<Smoother>();
  typedef Dune::Amg::TwoLevelMethod<Op,Policy,Smoother> Method;
  Method method(op,s,t,p,1,2); V v(2), d(2); v=0; d=1;
  method.apply(v,d); std::string first=log_; log_.clear();
  Method copy(method); v=0; copy.apply(v,d);
  std::printf("%s %s\n",first.c_str(),log_.c_str());
  return first=="sdcuss" && log_==first ? 0 : 1;
}
""", 'a copied two-level method with different numbers of pre- and postsmoothing steps', 'the copy performs the wrong number of postsmoothing steps')

seed('M02-usmhv', 'M02', [('bcrsmatrix.hh', """    void usmhv (const field_type& alpha, const X& x, Y& y) const
    {
#ifdef DUNE_ISTL_WITH_CHECKING
      if (ready != built)
        DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
      if (x.N()!=N()) DUNE_THROW(BCRSMatrixError,"index out of range");
      if (y.N()!=M()) DUNE""", """    void usmhv (const field_type& alpha, const X& x, Y& y) const
    {
#ifdef DUNE_ISTL_WITH_CHECKING
      if (ready != built)
        DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
      if (x.N()!=N()) DUNE_THROW(BCRSMatrixError,"index out of range");
      if (y.N()<x.N()) DUNE""")], r"""
#define DUNE_ISTL_WITH_CHECKING 1
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/common/fmatrix.hh>
#include <cstdio>
int main() {   // a 1x3 matrix takes a vector with three components as result, not one with two
  typedef Dune::BCRSMatrix<Dune::FieldMatrix<double,1,1>> M;
  M A(1,3,1,M::row_wise);
  for (auto r=A.createbegin(); r!=A.createend(); ++r) r.insert(0);
  A[0][0]=2;
  Dune::BlockVector<Dune::FieldVector<double,1>> x(1), y(3), z(2);
  x=1; y=0; z=0;
  A.usmhv(1.0,x,y);
  try { A.usmhv(1.0,x,z); } catch (const Dune::Exception&) { return y[0][0]==2 ? 0 : 1; }
  std::printf("accepted\n"); return 1;
}
""", 'run-time checking and a matrix with more columns than rows', 'a result vector of the wrong size is accepted')

seed('C03-forward', 'C03', [('schwarz.hh', """      _preconditioner->template apply<forward>(v,d);
      _communication.copyOwnerToAll(v,v);
""", """      _preconditioner->template apply<forward>(v,d);
      if constexpr (forward)
        _communication.copyOwnerToAll(v,v);
""")], r"""
#include <dune/istl/bvector.hh>
#include <dune/istl/schwarz.hh>
#include <cstdio>
typedef Dune::BlockVector<Dune::FieldVector<double,1>> V;
struct Comm { mutable int n=0; void copyOwnerToAll(const V&, V&) const { ++n; } };
struct P : Dune::Preconditioner<V,V> {
  void pre(V&, V&) override {} void post(V&) override {} void apply(V& v, const V& d) override { v=d; }
  template<bool f> void apply(V& v, const V& d) { v=d; }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
int main() {   // sweeps in both directions leave a consistent result
  Comm c; auto p=std::make_shared<P>(); Dune::BlockPreconditioner<V,V,Comm,P> b(p,c);
  V v(1), d(1); d=1; b.template apply<true>(v,d); int one=c.n; b.template apply<false>(v,d);
  std::printf("%d %d\n",one,c.n);
  return one==1 && c.n==2 ? 0 : 1;
}
""", 'a backward sweep of a parallel block preconditioner (symmetric multigrid smoothing)', 'the result of backward sweeps is not made consistent')

seed('I02-assign', 'I02', [('basearray.hh', """        p = other.p;
        i = other.i;
        return *this;""", """        i = other.i;
        return *this;""", 1)], r"""
#include <dune/istl/bvector.hh>
#include <cstdio>
int main() {
  Dune::BlockVector<double> a(4), b(6); a = 1; b = 2;
  Dune::BlockVector<double>::const_iterator it = a.begin();
  it = b.find(3);
  std::printf("%g at %d\n", *it, int(it.index()));
  return *it == 2 && it.index() == 3 ? 0 : 1;
}
""", 'a constant iterator of one vector is assigned an iterator of another vector', 'the iterator keeps the base of the old vector and reports wrong indices')
