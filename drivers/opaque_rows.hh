// A sparse matrix and vectors whose iterators and element accesses are declared only: a kernel instantiated on them
// appears in the IR as a sequence of iterator and block operations.
#ifndef VT_OPAQUE_ROWS_HH
#define VT_OPAQUE_ROWS_HH
#include "opaque_block.hh"
namespace vt {
  template<class T> struct Iter {
    using value_type = T; using reference = T&; using pointer = T*;
    Iter() noexcept; Iter(const Iter&) noexcept; ~Iter() noexcept; Iter& operator=(const Iter&) noexcept;
    std::size_t index() const noexcept;
    Iter& operator++() noexcept; Iter operator++(int) noexcept; Iter& operator--() noexcept; Iter operator--(int) noexcept;
    bool operator==(const Iter&) const noexcept; bool operator!=(const Iter&) const noexcept;
    T& operator*() const noexcept; T* operator->() const noexcept;
    void* rep;
  };
  using ColIt = Iter<ME>;
  struct Row {
    using Iterator = ColIt; using ConstIterator = ColIt; using size_type = std::size_t;
    ColIt begin() const noexcept; ColIt end() const noexcept; ColIt beforeBegin() const noexcept; ColIt beforeEnd() const noexcept;
    ColIt find(std::size_t) const noexcept;
    ME& operator[](std::size_t) const noexcept;
    std::size_t size() const noexcept;
  };
  using RowIt = Iter<Row>;
  struct Mat {
    using field_type = double; using block_type = ME; using size_type = std::size_t; using row_type = Row;
    using RowIterator = RowIt; using ConstRowIterator = RowIt; using ColIterator = ColIt; using ConstColIterator = ColIt;
    RowIt begin() const noexcept; RowIt end() const noexcept; RowIt beforeBegin() const noexcept; RowIt beforeEnd() const noexcept;
    Row& operator[](std::size_t) const noexcept;
    std::size_t N() const noexcept; std::size_t M() const noexcept; std::size_t nonzeroes() const noexcept;
    void* rep;
  };
  struct RVec {
    using field_type = double; using block_type = VE; using value_type = VE; using size_type = std::size_t;
    RVec() noexcept; RVec(const RVec&) noexcept; ~RVec() noexcept; RVec& operator=(const RVec&) noexcept; RVec& operator=(double) noexcept;
    VE& operator[](std::size_t) noexcept; const VE& operator[](std::size_t) const noexcept;
    RVec& operator+=(const RVec&) noexcept; RVec& operator-=(const RVec&) noexcept; RVec& operator*=(double) noexcept; RVec& axpy(double, const RVec&) noexcept;
    std::size_t size() const noexcept; std::size_t N() const noexcept;
    void* rep;
  };
}
namespace vt {
  // scalar entries
  using DColIt = Iter<double>;
  struct DRow {
    using Iterator = DColIt; using ConstIterator = DColIt; using size_type = std::size_t;
    DColIt begin() const noexcept; DColIt end() const noexcept; DColIt beforeBegin() const noexcept; DColIt beforeEnd() const noexcept;
    DColIt find(std::size_t) const noexcept;
    double& operator[](std::size_t) const noexcept;
    std::size_t size() const noexcept;
  };
  using DRowIt = Iter<DRow>;
  struct DMat {
    using field_type = double; using block_type = double; using size_type = std::size_t; using row_type = DRow;
    using RowIterator = DRowIt; using ConstRowIterator = DRowIt; using ColIterator = DColIt; using ConstColIterator = DColIt;
    DRowIt begin() const noexcept; DRowIt end() const noexcept; DRowIt beforeBegin() const noexcept; DRowIt beforeEnd() const noexcept;
    DRow& operator[](std::size_t) const noexcept;
    std::size_t N() const noexcept; std::size_t M() const noexcept; std::size_t nonzeroes() const noexcept;
    void* rep;
  };
  struct DVec {
    using field_type = double; using block_type = double; using value_type = double; using size_type = std::size_t;
    DVec() noexcept; DVec(const DVec&) noexcept; ~DVec() noexcept; DVec& operator=(const DVec&) noexcept; DVec& operator=(double) noexcept;
    double& operator[](std::size_t) noexcept; const double& operator[](std::size_t) const noexcept;
    DVec& operator+=(const DVec&) noexcept; DVec& operator-=(const DVec&) noexcept; DVec& operator*=(double) noexcept; DVec& axpy(double, const DVec&) noexcept;
    std::size_t size() const noexcept; std::size_t N() const noexcept;
    void* rep;
  };
}
namespace Dune { template<> struct FieldTraits<vt::DMat> { using field_type = double; using real_type = double; };
 template<> struct FieldTraits<vt::DVec> { using field_type = double; using real_type = double; };
 template<> struct FieldTraits<vt::Mat> { using field_type = double; using real_type = double; };
 template<> struct FieldTraits<vt::RVec> { using field_type = double; using real_type = double; }; }
#endif
