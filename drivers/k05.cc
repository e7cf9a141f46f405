// K05: scalar products and norms of distributed vectors; k_ library, s_ specification
#include "par_stub.hh"
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/scalarproducts.hh>
#include <cmath>
#include <algorithm>
namespace vt { struct XV { using field_type = double; using size_type = std::size_t; VE* p; std::size_t n; size_type size() const { return n; } size_type N() const { return n; }
  VE& operator[](size_type i) { return p[i]; } const VE& operator[](size_type i) const { return p[i]; } }; }
using vt::XV; using C = Dune::OwnerOverlapCopyCommunication<vt::G,int>; using sz = std::size_t;
namespace Dune { template<> double Communication<MPI_Comm>::sum<double>(const double&) const; }
// entries of other processes are masked out; the mask belongs to the current index set
static void mask(const C& c, sz n) {
  if (c.mask.size()!=n || c.maskSeqNo!=c.pis.seq) {
    c.maskSeqNo = c.pis.seq; c.mask.resize(n);
    for (sz i=0; i<c.mask.size(); ++i) c.mask[i] = 1;
    for (auto i = c.pis.first; i!=c.pis.last; ++i) if (i->local().attribute()!=Dune::OwnerOverlapCopyAttributeSet::owner) c.mask[i->local().local()] = 0;
  }
}
static void mask2(const C& c, sz n) {
  if (c.mask.size()!=n || c.maskSeqNo!=c.pis.seq) {
    c.maskSeqNo = c.pis.seq; c.mask.assign(n, 1.0);
    for (auto i = c.pis.first; i!=c.pis.last; ++i) if (i->local().attribute()!=Dune::OwnerOverlapCopyAttributeSet::owner) c.mask[i->local().local()] = 0;
  }
}
static void mask3(const C& c, sz n) {
  if (c.mask.size()!=n || c.maskSeqNo!=c.pis.seq) {
    c.maskSeqNo = c.pis.seq; c.mask.resize(n); std::fill(c.mask.begin(), c.mask.end(), 1.0);
    for (auto i = c.pis.first; i!=c.pis.last; ++i) if (i->local().attribute()!=Dune::OwnerOverlapCopyAttributeSet::owner) c.mask[i->local().local()] = 0;
  }
}
#define EACH(F) F(1,mask) F(2,mask2) F(3,mask3)
void k_dot(const C& c, const XV& x, const XV& y, double& r) { c.dot(x, y, r); }
double k_norm(const C& c, const XV& x) { return c.norm(x); }
#define F(k,m) \
  void s_dot_##k##1(const C& c, const XV& x, const XV& y, double& r) { m(c, x.n); r = 0; for (sz i=0; i<x.n; ++i) r += x.p[i].dot(y.p[i])*c.mask[i]; r = c.cc.sum(r); } \
  void s_dot_##k##2(const C& c, const XV& x, const XV& y, double& r) { m(c, x.n); double s = 0; for (sz i=0; i<x.n; ++i) s += x.p[i].dot(y.p[i])*c.mask[i]; r = c.cc.sum(s); } \
  double s_norm_##k(const C& c, const XV& x) { m(c, x.n); double s = 0; for (sz i=0; i<x.n; ++i) s += x.p[i].two_norm2()*c.mask[i]; return std::sqrt(c.cc.sum(s)); }
EACH(F)
#undef F
// complex numbers as entries
using cd = std::complex<double>;
namespace vt { struct CV { using field_type = cd; using size_type = std::size_t; cd* p; std::size_t n; size_type size() const { return n; } size_type N() const { return n; }
  cd& operator[](size_type i) { return p[i]; } const cd& operator[](size_type i) const { return p[i]; } }; }
namespace Dune { template<> cd Communication<MPI_Comm>::sum<cd>(const cd&) const; }
void k_cdot(const C& c, const vt::CV& x, const vt::CV& y, cd& r) { c.dot(x, y, r); }
#define DOT(x,y) Dune::Impl::asVector(x).dot(Dune::Impl::asVector(y))
#define F(k,m) \
  void s_cdot_##k##1(const C& c, const vt::CV& x, const vt::CV& y, cd& r) { m(c, x.n); r = 0; for (sz i=0; i<x.n; ++i) r += DOT(x.p[i],y.p[i])*c.mask[i]; r = c.cc.sum(r); } \
  void s_cdot_##k##2(const C& c, const vt::CV& x, const vt::CV& y, cd& r) { m(c, x.n); r = 0; for (sz i=0; i<x.n; ++i) r += std::conj(x.p[i])*y.p[i]*c.mask[i]; r = c.cc.sum(r); } \
  void s_cdot_##k##3(const C& c, const vt::CV& x, const vt::CV& y, cd& r) { m(c, x.n); cd s = 0; for (sz i=0; i<x.n; ++i) s += DOT(x.p[i],y.p[i])*c.mask[i]; r = c.cc.sum(s); }
EACH(F)
// scalar products by their interface
namespace vt {
  struct DV { using field_type = double; double pad[4]; double dot(const DV&) const noexcept; double two_norm() const noexcept; double operator*(const DV&) const noexcept; };
  struct DC { double pad[4]; void dot(const DV&, const DV&, double&) const noexcept; double norm(const DV&) const noexcept; };
}
using SP = Dune::ScalarProduct<vt::DV>; using QS = Dune::SeqScalarProduct<vt::DV>; using PP = Dune::ParallelScalarProduct<vt::DV,vt::DC>;
using NS = Dune::NonoverlappingSchwarzScalarProduct<vt::DV,vt::DC>; using OS = Dune::OverlappingSchwarzScalarProduct<vt::DV,vt::DC>;
double k_sp_dot(const SP& s, const vt::DV& x, const vt::DV& y) { return s.SP::dot(x, y); }
double s_sp_dot(const SP&, const vt::DV& x, const vt::DV& y) { return x.dot(y); }
double k_sp_norm(const SP& s, const vt::DV& x) { return s.SP::norm(x); }
double s_sp_norm(const SP&, const vt::DV& x) { return x.two_norm(); }
double k_sq_dot(const QS& s, const vt::DV& x, const vt::DV& y) { return s.QS::dot(x, y); }
double s_sq_dot(const SP&, const vt::DV& x, const vt::DV& y) { return x.dot(y); }
double k_sq_norm(const QS& s, const vt::DV& x) { return s.QS::norm(x); }
double s_sq_norm(const SP&, const vt::DV& x) { return x.two_norm(); }
#define PAR(T,n) double k_##n##_dot(const T& s, const vt::DV& x, const vt::DV& y) { return s.T::dot(x, y); } \
  double s_##n##_dot(const T& s, const vt::DV& x, const vt::DV& y) { double r = 0; s._communication->dot(x, y, r); return r; } \
  double k_##n##_norm(const T& s, const vt::DV& x) { return s.T::norm(x); } double s_##n##_norm(const T& s, const vt::DV& x) { return s._communication->norm(x); }
PAR(PP,pp) PAR(NS,ns) PAR(OS,os)
