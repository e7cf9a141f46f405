// Opaque block (matrix entry) and vector-entry types for the kernel drivers.
#ifndef VT_OPAQUE_BLOCK_HH
#define VT_OPAQUE_BLOCK_HH
#include <cstddef>
#include <complex>
#include <type_traits>
#include <dune/common/ftraits.hh>
namespace vt {
  using Field = std::complex<double>;
  struct VE {                     // entry of a block vector
    using field_type = double;
    using value_type = double;
    using block_type = double;
    using size_type = std::size_t;
    static constexpr int dimension = 3;
    VE() noexcept;
    explicit VE(double) noexcept;
    VE(const VE&) noexcept;
    ~VE() noexcept;
    VE& operator=(const VE&) noexcept;
    VE& operator=(double) noexcept;
    VE& operator+=(const VE&) noexcept;
    VE& operator-=(const VE&) noexcept;
    VE& operator+=(double) noexcept;
    VE& operator-=(double) noexcept;
    VE& operator*=(double) noexcept;
    VE& operator/=(double) noexcept;
    VE& axpy(double, const VE&) noexcept;
    double operator*(const VE&) const noexcept;
    double dot(const VE&) const noexcept;
    double one_norm() const noexcept;
    double one_norm_real() const noexcept;
    double two_norm2() const noexcept;
    double two_norm() const noexcept;
    double infinity_norm() const noexcept;
    double infinity_norm_real() const noexcept;
    size_type size() const noexcept;
    size_type N() const noexcept;
    size_type dim() const noexcept;
    double& operator[](size_type) noexcept;
    const double& operator[](size_type) const noexcept;
    double rep[3];
  };
  struct ME {                     // entry of a block matrix
    using field_type = double;
    using block_type = double;
    using value_type = double;
    using size_type = std::size_t;
    static constexpr int rows = 3;
    static constexpr int cols = 3;
    ME() noexcept;
    ME(const ME&) noexcept;
    ~ME() noexcept;
    ME& operator=(const ME&) noexcept;
    ME& operator=(double) noexcept;
    ME& operator+=(const ME&) noexcept;
    ME& operator-=(const ME&) noexcept;
    ME& operator*=(double) noexcept;
    ME& operator/=(double) noexcept;
    ME& axpy(double, const ME&) noexcept;
    ME operator-() const noexcept;
    template<class A,class B> void mv(const A&, B&) const noexcept;
    template<class A,class B> void umv(const A&, B&) const noexcept;
    template<class A,class B> void mmv(const A&, B&) const noexcept;
    template<class A,class B> void usmv(double, const A&, B&) const noexcept;
    template<class A,class B> void mtv(const A&, B&) const noexcept;
    template<class A,class B> void umtv(const A&, B&) const noexcept;
    template<class A,class B> void mmtv(const A&, B&) const noexcept;
    template<class A,class B> void usmtv(double, const A&, B&) const noexcept;
    template<class A,class B> void mhv(const A&, B&) const noexcept;
    template<class A,class B> void umhv(const A&, B&) const noexcept;
    template<class A,class B> void mmhv(const A&, B&) const noexcept;
    template<class A,class B> void usmhv(double, const A&, B&) const noexcept;
    template<class A,class B> void solve(A&, const B&) const;
    void invert();
    ME& leftmultiply(const ME&) noexcept;
    ME& rightmultiply(const ME&) noexcept;
    ME rightmultiplyany(const ME&) const noexcept;
    double frobenius_norm2() const noexcept;
    double frobenius_norm() const noexcept;
    double infinity_norm() const noexcept;
    double infinity_norm_real() const noexcept;
    size_type N() const noexcept;
    size_type M() const noexcept;
    double rep[9];
  };
}
namespace vt { struct VI : VE { using field_type = int; using VE::operator=; VI() noexcept; VI(const VI&) noexcept; ~VI() noexcept; VI& operator=(const VI&) noexcept; int infinity_norm() const noexcept; int infinity_norm_real() const noexcept; };
  struct MI : ME { using field_type = int; using ME::operator=; MI() noexcept; MI(const MI&) noexcept; ~MI() noexcept; MI& operator=(const MI&) noexcept; int infinity_norm() const noexcept; int infinity_norm_real() const noexcept; }; }
namespace Dune {
  template<> struct FieldTraits<vt::VE> { using field_type = double; using real_type = double; };
  template<> struct FieldTraits<vt::ME> { using field_type = double; using real_type = double; };
  template<> struct FieldTraits<vt::VI> { using field_type = int; using real_type = int; };
  template<> struct FieldTraits<vt::MI> { using field_type = int; using real_type = int; };
}
#endif
