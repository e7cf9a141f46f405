// Incomplete factors in split row storage.
#include "config.h"
#include "opaque_rows.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/ilu.hh>
namespace vt {
  struct IdxVec { std::size_t& operator[](std::size_t) noexcept; };
  struct Crs { IdxVec rows_; void resize(std::size_t) noexcept; void reserveAdditional(std::size_t) noexcept; void push_back(const ME&, std::size_t) noexcept; std::size_t rows() const noexcept; };
  struct InvVec { ME& operator[](std::size_t) noexcept; void resize(std::size_t) noexcept; };
}
void k_convert(const vt::Mat& A, vt::Crs& lower, vt::Crs& upper, vt::InvVec& inv) { Dune::ILU::convertToCRS(A, lower, upper, inv); }
