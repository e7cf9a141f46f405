// Transfer between two levels and smoothing on one level: k_ library, s_ prescribed.
#include "config.h"
#include <cstddef>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/paamg/transfer.hh>
#include <dune/istl/paamg/smoother.hh>
namespace vt {
  struct B { double d; B& operator+=(const B&) noexcept; B& operator*=(double) noexcept; };
  struct Vec { using field_type = double; using iterator = B*; using const_iterator = const B*; using value_type = B; using block_type = B; using size_type = std::size_t; B* p; std::size_t n;
    B* begin() { return p; } B* end() { return p + n; } const B* begin() const { return p; } const B* end() const { return p + n; }
    B& operator[](std::size_t i) { return p[i]; } const B& operator[](std::size_t i) const { return p[i]; } std::size_t size() const { return n; } std::size_t N() const { return n; }
    Vec& operator=(double) noexcept; Vec& operator+=(const Vec&) noexcept; };
}
using Comm = Dune::OwnerOverlapCopyCommunication<int,int>;
namespace Dune { template<> template<> void OwnerOverlapCopyCommunication<int,int>::copyOwnerToAll<vt::Vec>(const vt::Vec&, vt::Vec&) const;
  template<> template<> void OwnerOverlapCopyCommunication<int,int>::project<vt::Vec>(vt::Vec&) const;
  template<> struct RedistributeInformation<OwnerOverlapCopyCommunication<int,int>> { void redistributeBackward(vt::Vec&, const vt::Vec&) const noexcept; }; }
#include <dune/istl/paamg/transfer.hh>
using V = vt::Vec; using Agg = Dune::Amg::AggregatesMap<std::size_t>; using Seq = Dune::Amg::SequentialInformation;
using T = Dune::Amg::Transfer<std::size_t,V,Seq>; using TP = Dune::Amg::Transfer<std::size_t,V,Comm>;
void k_restrict(const Agg& a, V& c, const V& f, const Seq& s) { T::restrictVector(a, c, f, s); }
void s_restrict(const Agg& a, V& c, const V& f, const Seq& s) { c = 0; for (std::size_t i = 0; i < f.n; ++i) if (a[i] != Agg::ISOLATED) c.p[a[i]] += f.p[i]; }
void k_prolong(const Agg& a, V& c, V& f, double d, const Seq& s) { T::prolongateVector(a, c, f, d, s); }
void s_prolong(const Agg& a, V& c, V& f, double d, const Seq& s) { for (std::size_t i = 0; i < c.n; ++i) c.p[i] *= d; for (std::size_t i = 0; i < f.n; ++i) if (a[i] != Agg::ISOLATED) f.p[i] += c.p[a[i]]; }
void k_prolongredist(const Agg& a, V& c, V& f, double d, const Seq& s, V& fr, const Dune::RedistributeInformation<Seq>& r) { T::prolongateVector(a, c, f, fr, d, s, r); }
void s_prolongredist(const Agg& a, V& c, V& f, double d, const Seq& s, V& fr, const Dune::RedistributeInformation<Seq>& r) { for (std::size_t i = 0; i < c.n; ++i) c.p[i] *= d; for (std::size_t i = 0; i < f.n; ++i) if (a[i] != Agg::ISOLATED) f.p[i] += c.p[a[i]]; }
void k_prestrict(const Agg& a, V& c, const V& f, Comm& s) { TP::restrictVector(a, c, f, s); }
void s_prestrict(const Agg& a, V& c, const V& f, Comm& s) { c = 0; for (std::size_t i = 0; i < f.n; ++i) if (a[i] != Agg::ISOLATED) c.p[a[i]] += f.p[i]; s.project(c); }
void k_pprolong(const Agg& a, V& c, V& f, double d, Comm& s) { TP::prolongateVector(a, c, f, d, s); }
void s_pprolong(const Agg& a, V& c, V& f, double d, Comm& s) { for (std::size_t i = 0; i < c.n; ++i) c.p[i] *= d; for (std::size_t i = 0; i < f.n; ++i) if (a[i] != Agg::ISOLATED) f.p[i] += c.p[a[i]]; }
void k_pprolongredist(const Agg& a, V& c, V& f, double d, Comm& s, V& fr, const Dune::RedistributeInformation<Comm>& r) { TP::prolongateVector(a, c, f, fr, d, s, r); }
void s_pprolongredist(const Agg& a, V& c, V& f, double d, Comm& s, V& fr, const Dune::RedistributeInformation<Comm>& r) {
  if (fr.n > 0) { for (std::size_t i = 0; i < c.n; ++i) c.p[i] *= d; for (std::size_t i = 0; i < fr.n; ++i) if (a[i] != Agg::ISOLATED) fr.p[i] += c.p[a[i]]; }
  r.redistributeBackward(f, fr); s.copyOwnerToAll(f, f); }
// smoothing on one level
namespace vt {
  struct Sm { using domain_type = Vec; using range_type = Vec; void apply(Vec&, const Vec&) noexcept; template<bool f> void apply(Vec&, const Vec&) noexcept; };
  struct DirSm : Sm {};
  struct Mat { void applyscaleadd(double, const Vec&, Vec&) const noexcept; };
  struct Pi { void project(Vec&) const noexcept; };
  template<class S> struct LC { using SmootherType = S; S* smoother; Mat* matrix; Pi* pinfo; Vec *lhs, *update, *rhs; };
  struct SMat { using field_type = double; using block_type = B; };
}
using LC = vt::LC<vt::Sm>;
void k_presmooth(LC& c, std::size_t n) { Dune::Amg::presmooth(c, n); }
void s_presmooth(LC& c, std::size_t n) { for (std::size_t i = 0; i < n; ++i) { *c.lhs = 0; c.smoother->apply(*c.lhs, *c.rhs); c.update->operator+=(*c.lhs); c.matrix->applyscaleadd(-1, *c.lhs, *c.rhs); c.pinfo->project(*c.rhs); } }
void k_postsmooth(LC& c, std::size_t n) { Dune::Amg::postsmooth(c, n); }
void s_postsmooth(LC& c, std::size_t n) { for (std::size_t i = 0; i < n; ++i) { c.matrix->applyscaleadd(-1, *c.lhs, *c.rhs); *c.lhs = 0; c.pinfo->project(*c.rhs); c.smoother->apply(*c.lhs, *c.rhs); c.update->operator+=(*c.lhs); } }
// forward before, backward after the coarse correction
namespace Dune {
  using VtSor = SeqSOR<vt::SMat,V,V,1>; using VtBlk = BlockPreconditioner<V,V,Comm,VtSor>; using VtNov = NonoverlappingBlockPreconditioner<Comm,VtSor>;
  template<> template<> void VtSor::apply<true>(V&, const V&); template<> template<> void VtSor::apply<false>(V&, const V&);
  template<> template<> void VtBlk::apply<true>(V&, const V&); template<> template<> void VtBlk::apply<false>(V&, const V&);
  template<> template<> void VtNov::apply<true>(V&, const V&); template<> template<> void VtNov::apply<false>(V&, const V&);
}
#define DIR(name, S) \
void k_pre_##name(S& s, V& v, V& d) { Dune::Amg::SmootherApplier<S>::preSmooth(s, v, d); } \
void s_pre_##name(S& s, V& v, V& d) { s.template apply<true>(v, d); } \
void k_post_##name(S& s, V& v, V& d) { Dune::Amg::SmootherApplier<S>::postSmooth(s, v, d); } \
void s_post_##name(S& s, V& v, V& d) { s.template apply<false>(v, d); }
DIR(sor, Dune::VtSor) DIR(block, Dune::VtBlk) DIR(nov, Dune::VtNov)
void k_pre_any(vt::Sm& s, V& v, V& d) { Dune::Amg::SmootherApplier<vt::Sm>::preSmooth(s, v, d); }
void s_pre_any(vt::Sm& s, V& v, V& d) { s.apply(v, d); }
void k_post_any(vt::Sm& s, V& v, V& d) { Dune::Amg::SmootherApplier<vt::Sm>::postSmooth(s, v, d); }
void s_post_any(vt::Sm& s, V& v, V& d) { s.apply(v, d); }
