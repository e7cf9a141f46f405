#include "config.h"
#include "opaque_block.hh"
#include <vector>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/ilu.hh>
using X = Dune::BlockVector<vt::VE>; using sz = std::size_t; using VE = vt::VE;
// the arrays of the split storage, at fixed places
struct Arr { const sz* rows; const vt::ME* values; const sz* cols; sz n; };
struct A1 { template<class T> struct V { const T* p; const T& operator[](sz i) const noexcept { return p[i]; } };
  V<sz> rows_; V<vt::ME> values_; V<sz> cols_; sz n; sz rows() const noexcept { return n; } };
bool pre_backsolve(const A1& lower, const A1& upper, const A1::V<vt::ME>& inv, X& v, const X& d) { return lower.n == upper.n && v.size() == lower.n && d.size() == lower.n; }
void k_backsolve(const A1& lower, const A1& upper, const A1::V<vt::ME>& inv, X& v, const X& d) { Dune::ILU::blockILUBacksolve(lower, upper, inv, v, d); }
void s_backsolve(const A1& lower, const A1& upper, const A1::V<vt::ME>& inv, X& v, const X& d) {
  for (sz i=0; i<lower.n; ++i) { VE rhs(d[i]); for (sz k=lower.rows_[i]; k<lower.rows_[i+1]; ++k) lower.values_[k].mmv(v[lower.cols_[k]], rhs); v[i] = rhs; }
  for (sz i=0; i<lower.n; ++i) { VE rhs(v[lower.n-1-i]); for (sz k=upper.rows_[i]; k<upper.rows_[i+1]; ++k) upper.values_[k].mmv(v[upper.cols_[k]], rhs); inv[i].mv(rhs, v[lower.n-1-i]); }
}
