// scalar whose arithmetic is that of one double but whose conjugation and modulus stay opaque calls
#ifndef VT_OPAQUE_SCALAR_HH
#define VT_OPAQUE_SCALAR_HH
#include <cstddef>
#include <dune/common/ftraits.hh>
#include <dune/common/typetraits.hh>
namespace vt {
  struct F {
    double v;
    F() = default;
    F(double x) : v(x) {}
    F& operator+=(F b) { v += b.v; return *this; }
    F& operator-=(F b) { v -= b.v; return *this; }
    F& operator*=(F b) { v *= b.v; return *this; }
    F& operator/=(F b) { v /= b.v; return *this; }
    friend F operator+(F a, F b) { return F(a.v+b.v); }
    friend F operator-(F a, F b) { return F(a.v-b.v); }
    friend F operator*(F a, F b) { return F(a.v*b.v); }
    friend F operator/(F a, F b) { return F(a.v/b.v); }
    friend F operator-(F a) { return F(-a.v); }
    friend bool operator==(F a, F b) { return a.v==b.v; }
    friend bool operator!=(F a, F b) { return a.v!=b.v; }
  };
  F conj(F) noexcept __attribute__((const));
  double abs(F) noexcept __attribute__((const));
  inline F conjugateComplex(F x) { return conj(x); }
  template<int n> struct SV {
    using field_type = F; using value_type = F; using size_type = std::size_t;
    F v[n];
    F& operator[](size_type i) { return v[i]; }
    const F& operator[](size_type i) const { return v[i]; }
    size_type N() const { return n; }
    size_type size() const { return n; }
  };
}
namespace Dune {
  template<> struct FieldTraits<vt::F> { using field_type = vt::F; using real_type = double; };
  template<> struct IsNumber<vt::F> : std::true_type {};
}
#endif
