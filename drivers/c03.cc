// C03: exchanges of the owner/overlap/copy communication; k_ library, s_ prescribed
#include "par_stub.hh"
#include <dune/istl/owneroverlapcopy.hh>
namespace vt {
  struct T; void put(T&, std::size_t, double) noexcept; void accumulate(T&, std::size_t, double) noexcept; double get(const T&, std::size_t) noexcept;
  struct Ref { T& t; std::size_t i; void operator=(double v) { put(t, i, v); } void operator+=(double v) { accumulate(t, i, v); } operator double() const { return get(t, i); } };
  struct T { using value_type = double; double* p; Ref operator[](std::size_t i) { return {*this, i}; } double operator[](std::size_t i) const { return get(*this, i); } };
  struct U { using value_type = double; double* p; double& operator[](std::size_t i) { return p[i]; } const double& operator[](std::size_t i) const { return p[i]; } };
}
using vt::T; using C = Dune::OwnerOverlapCopyCommunication<vt::G,int>; using Dune::Interface;
enum { owner = 1, overlap = 2, copy = 4, all = 7 };
// built interfaces are those of their index classes and of the remembered state of the index set
static bool good(const C& c, bool b, const Interface& i, int from, int to) { return b ? i.state==1 && i.ri==&c.ri && i.from==from && i.to==to && i.seq==c.interfaceSeqNo : i.state==0; }
#define OWN(n,a,b) good(c, c.n##InterfaceBuilt, c.n##Interface, a, b)
#define SET1 OwnerToAll,owner,all
#define SET2 OwnerOverlapToAll,owner|overlap,all
#define SET3 OwnerCopyToAll,owner|copy,all
#define SET4 OwnerCopyToOwnerCopy,owner|copy,owner|copy
#define SET5 CopyToAll,copy,all
// the exchange itself, and its effect on the bookkeeping of every interface
#define X(op,n,a,b,st) \
  void k_##op##n(const C& c, const T& s, T& d) { if (c.ri.seq!=c.pis.seq || !OWN(n,a,b)) return; c.op##n(s, d); if (!OWN(n,a,b)) vt::fail(9); } \
  void s_##op##n(const C& c, const T& s, T& d) { if (c.ri.seq!=c.pis.seq || !OWN(n,a,b)) return; vt::exchange(a, b, c.pis.seq); vt::wire(s[vt::sent()]); double v = vt::wire(); d[vt::received()] st v; } \
  K(op,n,a,b,1,SET1) K(op,n,a,b,2,SET2) K(op,n,a,b,3,SET3) K(op,n,a,b,4,SET4) K(op,n,a,b,5,SET5)
#define K(...) K_(__VA_ARGS__)
#define K_(op,n,a1,b1,k,m,a,b) void i_##op##n##_##k(const C& c, const T& s, T& d) { if (c.ri.seq!=c.pis.seq || !OWN(n,a1,b1) || !OWN(m,a,b)) return; c.op##n(s, d); if (!OWN(m,a,b)) vt::fail(9); }
X(copy,OwnerToAll,owner,all,=)
X(copy,CopyToAll,copy,all,=)
X(add,OwnerOverlapToAll,owner|overlap,all,+=)
X(add,OwnerCopyToAll,owner|copy,all,+=)
X(add,OwnerCopyToOwnerCopy,owner|copy,owner|copy,+=)
void i_none() {}
// construction: no interface is taken for built, every index is entered once with its own attribute
using Info = Dune::IndexInfoFromGrid<vt::G,int>; using SC = Dune::SolverCategory;
#define N_(...) N__(__VA_ARGS__)
#define N__(k,n,a,b) \
  void i_ctor_##k(C* p, MPI_Comm m, SC::Category s, bool f) { const C& c = *new(p) C(m, s, f); if (!OWN(n,a,b)) vt::fail(9); } \
  void i_ctorw_##k(C* p, SC::Category s) { const C& c = *new(p) C(s); if (!OWN(n,a,b)) vt::fail(9); } \
  void i_ctori_##k(C* p, const Info& i, MPI_Comm m, SC::Category s, bool f) { const C& c = *new(p) C(i, m, s, f); if (!OWN(n,a,b)) vt::fail(9); }
N_(1,SET1) N_(2,SET2) N_(3,SET3) N_(4,SET4) N_(5,SET5)
// projection
void k_project(const C& c, vt::U& x) { c.project(x); }
void s_project(const C& c, vt::U& x) { for (auto i = c.pis.first; i!=c.pis.last; ++i) if (i->local().attribute()==Dune::OwnerOverlapCopyAttributeSet::copy) x.p[i->local().local()] = 0; }
// set-up from known indices
void k_setup(C* p, const Info& f, MPI_Comm m) { new(p) C(f, m, SC::overlapping, false); }
void s_setup(C* p, const Info& f, MPI_Comm m) {
  new(p) C(m, SC::overlapping, false);
  p->pis.beginResize();
  for (const auto& t : f.localindices) { int a = std::get<2>(t); if (a==1 || a==2 || a==3) p->pis.enter(&std::get<0>(t), std::get<1>(t), a, true); }
  p->pis.endResize();
}
