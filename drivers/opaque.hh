// Opaque vocabulary types for the analysis drivers: every operation is declared, never defined,
// so after inlining each call survives as an external call the rules can recognise by its resolved name.
#ifndef VT_OPAQUE_HH
#define VT_OPAQUE_HH
#include <cstddef>
#include <iosfwd>
namespace vt {
  struct Vec {
    using field_type = double;
    using real_type = double;
    using block_type = double;
    using value_type = double;
    using size_type = std::size_t;
    Vec() noexcept;
    Vec(const Vec&) noexcept;
    ~Vec() noexcept;
    Vec& operator=(const Vec&) noexcept;
    Vec& operator=(double) noexcept;
    Vec& operator+=(const Vec&) noexcept;
    Vec& operator-=(const Vec&) noexcept;
    Vec& operator*=(double) noexcept;
    Vec& operator/=(double) noexcept;
    Vec& axpy(double, const Vec&) noexcept;
    double dot(const Vec&) const noexcept;
    double two_norm() const noexcept;
    double& operator[](size_type) noexcept;
    const double& operator[](size_type) const noexcept;
    size_type size() const noexcept;
    size_type N() const noexcept;
    friend std::ostream& operator<<(std::ostream&, const Vec&);
    void* rep;
  };
}
#endif
