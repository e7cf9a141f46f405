// Multigrid over levels that lie one after the other in memory: level i of a hierarchy is element i of an array, so that
// "one level coarser" is "one element further".  Everything a level holds is opaque.
#ifndef VT_A01_HH
#define VT_A01_HH
#include "config.h"
#include <memory>
#include <list>
#include <new>
template<> std::__shared_count<__gnu_cxx::_S_atomic>::~__shared_count() noexcept;
template<> std::__shared_count<__gnu_cxx::_S_atomic>& std::__shared_count<__gnu_cxx::_S_atomic>::operator=(const std::__shared_count<__gnu_cxx::_S_atomic>&) noexcept;
template<> std::__shared_count<__gnu_cxx::_S_atomic>::__shared_count(const std::__shared_count<__gnu_cxx::_S_atomic>&) noexcept;
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioner.hh>
#include <dune/istl/solver.hh>
namespace vt { struct LVec; }
namespace Dune { template<> class InverseOperator<vt::LVec,vt::LVec> { public: double pad[3]; void apply(vt::LVec&, vt::LVec&, InverseOperatorResult&) noexcept; void apply(vt::LVec&, vt::LVec&, double, InverseOperatorResult&) noexcept; }; }
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
namespace vt {
  enum { CAP = 1000000 };
  struct Row;
  struct LBlk { LBlk() noexcept; LBlk(const LBlk&) noexcept; LBlk& operator=(const LBlk&) noexcept; LBlk& operator=(double) noexcept; bool operator!=(const LBlk&) const noexcept; template<class V, class W> void solve(V&, const W&) const noexcept; };
  struct ColIt { double d; ColIt() noexcept; ColIt(const ColIt&) noexcept; ColIt& operator=(const ColIt&) noexcept; bool operator!=(const ColIt&) const noexcept; ColIt& operator++() noexcept; std::size_t index() const noexcept; const LBlk& operator*() const noexcept; const LBlk* operator->() const noexcept; };
  struct RowIt { double d; RowIt(const RowIt&) noexcept; bool operator!=(const RowIt&) const noexcept; RowIt& operator++() noexcept; std::size_t index() const noexcept; const Row* operator->() const noexcept; };
  struct Row { ColIt begin() const noexcept; ColIt end() const noexcept; };
  struct LMat { using field_type = double; using block_type = LBlk; using ConstRowIterator = RowIt; using ConstColIterator = ColIt; using row_type = Row; using size_type = std::size_t;
    static constexpr int blocklevel = 1; RowIt begin() const noexcept; RowIt end() const noexcept; std::size_t N() const noexcept; };
  struct Ent { double d; };
  struct LVec { using field_type = double; using block_type = double; using size_type = std::size_t; double pad[4];
    LVec() noexcept; LVec(const LVec&) noexcept; ~LVec() noexcept; LVec& operator=(const LVec&) noexcept; LVec& operator=(double) noexcept; LVec& operator+=(const LVec&) noexcept; LVec& operator-=(const LVec&) noexcept;
    Ent& operator[](std::size_t) noexcept; const Ent& operator[](std::size_t) const noexcept; size_type size() const noexcept; double two_norm() const noexcept; double dot(const LVec&) const noexcept; };
  struct Cc { int rank() const noexcept; int size() const noexcept; bool prod(bool) const noexcept; };
  struct PI { double pad[2]; using OwnerSet = int; struct GlobalLookupIndexSet {}; void copyOwnerToAll(const LVec&, const LVec&) const noexcept; void project(LVec&) const noexcept; const Cc& communicator() const noexcept; Dune::SolverCategory::Category category() const noexcept; };
  struct Op { double pad[3]; using matrix_type = LMat; using domain_type = LVec; using range_type = LVec; using field_type = double;
    void apply(const LVec&, LVec&) const noexcept; void applyscaleadd(double, const LVec&, LVec&) const noexcept; const LMat& getmat() const noexcept; };
  struct Sm { double pad[5]; using matrix_type = LMat; using domain_type = LVec; using range_type = LVec; void pre(LVec&, LVec&) noexcept; void apply(LVec&, const LVec&) noexcept; void post(LVec&) noexcept;
    template<bool> void apply(LVec&, const LVec&) noexcept; };
  struct AMap { double pad[7]; using AggregateDescriptor = int; };
#ifdef VT_NOREDIST     // the fast multigrid supports hierarchies without redistribution only
#define VT_SETUP bool isSetup() const { return false; }
#else
#define VT_SETUP bool isSetup() const noexcept;
#endif
  struct Ri { double pad[6]; VT_SETUP void redistribute(const LVec&, LVec&) const noexcept; void redistributeBackward(LVec&, const LVec&) const noexcept; };
  template<class T> struct It { T* p; It() : p(nullptr) {} It(T* q) : p(q) {} template<class U> It(const It<U>& o) : p(const_cast<T*>(o.p)) {}
    template<class U> It& operator=(const It<U>& o) { p = const_cast<T*>(o.p); return *this; }
    T& operator*() const { return *p; } T* operator->() const { return p; } It& operator++() { ++p; return *this; } It& operator--() { --p; return *this; }
    It operator++(int) { It t(*this); ++p; return t; } It operator--(int) { It t(*this); --p; return t; }
    template<class U> bool operator==(const It<U>& o) const { return p == o.p; } template<class U> bool operator!=(const It<U>& o) const { return p != o.p; }
    T& getRedistributed() const { return p[CAP]; } };
  template<class T> struct H { std::size_t levels_; T el[CAP]; T red[CAP]; using Iterator = It<T>; using ConstIterator = It<const T>;
    explicit H(const std::shared_ptr<T>&) noexcept; H() noexcept;
    Iterator finest() { return el; } Iterator coarsest() { return el + (levels_ - 1); } ConstIterator finest() const { return el; } ConstIterator coarsest() const { return el + (levels_ - 1); }
    std::size_t levels() const { return levels_; } };
  template<class T> struct L { T el[CAP]; std::size_t n; using const_iterator = It<const T>; using iterator = It<T>; const_iterator begin() const { return el; } const_iterator end() const { return el + n; } };
  struct PL : L<AMap> { struct const_iterator : It<AMap> { using It<AMap>::It; AMap* operator*() const { return this->p; } const_iterator() {} }; const_iterator begin() const { return const_cast<AMap*>(this->el); } };
}
namespace Dune {
  namespace Amg {
    template<class A> class Hierarchy<vt::LVec,A> : public vt::H<vt::LVec> { using vt::H<vt::LVec>::H; };
    template<class A> class Hierarchy<vt::Sm,A> : public vt::H<vt::Sm> { using vt::H<vt::Sm>::H; };
    template<class A> class Hierarchy<vt::PI,A> : public vt::H<vt::PI> { using vt::H<vt::PI>::H; };
    template<class A> class Hierarchy<vt::Op,A> : public vt::H<vt::Op> { using vt::H<vt::Op>::H; };
    template<class A> class MatrixHierarchy<vt::Op,vt::PI,A> {
    public:
      using MatrixOperator = vt::Op; using Matrix = vt::LMat; using ParallelInformation = vt::PI; using Allocator = A; using AggregatesMap = vt::AMap;
      using ParallelMatrixHierarchy = Hierarchy<vt::Op,A>; using ParallelInformationHierarchy = Hierarchy<vt::PI,A>; using AggregatesMapList = vt::PL; using RedistributeInfoList = vt::L<vt::Ri>;
      std::size_t levels() const { return levels_; } std::size_t maxlevels() const { return maxlevels_; }
      const ParallelMatrixHierarchy& matrices() const { return m; } const ParallelInformationHierarchy& parallelInformation() const { return pi; }
      const AggregatesMapList& aggregatesMaps() const { return ag; } const RedistributeInfoList& redistributeInformation() const { return ri; }
      double getProlongationDampingFactor() const { return damp; }
      void coarsenVector(vt::H<vt::LVec>&) const noexcept;
      std::size_t levels_, maxlevels_; double damp; ParallelMatrixHierarchy m; ParallelInformationHierarchy pi; AggregatesMapList ag; RedistributeInfoList ri;
    };
    template<class V, class W> class Transfer<V,W,vt::PI> {
    public:
      static void prolongateVector(const vt::AMap&, const W&, W&, W&, double, vt::PI&, const vt::Ri&) noexcept;
      static void prolongateVector(const vt::AMap&, const W&, W&, double, vt::PI&) noexcept;
      static void restrictVector(const vt::AMap&, W&, const W&, vt::PI&) noexcept;
    };
  }
}
#endif
