#ifndef VT_OPAQUE_MTB_HH
#define VT_OPAQUE_MTB_HH
#include "opaque_block.hh"
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/multitypeblockmatrix.hh>
namespace vt {
  template<int i> struct TV : VE {
    using VE::operator=;
    TV& operator=(double) noexcept; TV& operator=(const TV&) noexcept;
    TV() noexcept; TV(const TV&) noexcept; ~TV() noexcept;
    TV& operator+=(const TV&) noexcept; TV& operator-=(const TV&) noexcept; TV& operator*=(double) noexcept; TV& operator/=(double) noexcept;
    TV& axpy(double, const TV&) noexcept;
    double operator*(const TV&) const noexcept; double dot(const TV&) const noexcept;
    double one_norm() const noexcept; double one_norm_real() const noexcept; double two_norm2() const noexcept; double two_norm() const noexcept;
    double infinity_norm() const noexcept; double infinity_norm_real() const noexcept; std::size_t dim() const noexcept;
  };
  template<int i, int j> struct TM : ME {
    TM() noexcept; TM(const TM&) noexcept; ~TM() noexcept;
    TM& operator=(double) noexcept; TM& operator=(const TM&) noexcept;
    TM& operator+=(const TM&) noexcept; TM& operator-=(const TM&) noexcept; TM& operator*=(double) noexcept; TM& operator/=(double) noexcept;
    TM& axpy(double, const TM&) noexcept;
#define O(n) template<class A,class B> void n(const A&, B&) const noexcept;
#define OA(n) template<class A,class B> void n(double, const A&, B&) const noexcept;
    O(mv) O(umv) O(mmv) O(mtv) O(umtv) O(mmtv) O(umhv) O(mmhv) OA(usmv) OA(usmtv) OA(usmhv)
#undef O
#undef OA
    double frobenius_norm2() const noexcept; double frobenius_norm() const noexcept;
    double infinity_norm() const noexcept; double infinity_norm_real() const noexcept;
  };
  template<int i> using Row = Dune::MultiTypeBlockVector<TM<i,0>,TM<i,1>,TM<i,2>>;
}
namespace Dune {
  template<int i> struct FieldTraits<vt::TV<i>> { using field_type = double; using real_type = double; };
  template<int i,int j> struct FieldTraits<vt::TM<i,j>> { using field_type = double; using real_type = double; };
}
namespace vt {
  using MTM = Dune::MultiTypeBlockMatrix<Row<0>,Row<1>>;
  using MTV2 = Dune::MultiTypeBlockVector<TV<0>,TV<1>>;
  using MTV3 = Dune::MultiTypeBlockVector<TV<10>,TV<11>,TV<12>>;
}
#endif
