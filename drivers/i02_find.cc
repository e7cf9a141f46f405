// I02: look-up of an entry in a row; the search in the index array is opaque.
#include "config.h"
#include "opaque_block.hh"
#include <algorithm>
namespace std { template<> const unsigned long* lower_bound<const unsigned long*, unsigned long>(const unsigned long*, const unsigned long*, const unsigned long&);
                template<> unsigned long* lower_bound<unsigned long*, unsigned long>(unsigned long*, unsigned long*, const unsigned long&); }
#include <dune/istl/bcrsmatrix.hh>
using sz = std::size_t; using M = Dune::BCRSMatrix<vt::ME>; using R = M::row_type;
#define SPEC(T, C) \
  auto s_##T(C& c, sz i) { const sz* l = std::lower_bound(c.j, c.j+c.n, i); return l != c.j+c.n && *l == i ? c.p + (l-c.j) : c.p + c.n; } \
  sz s_##T##_offset(C& c, sz i) { const sz* l = std::lower_bound(c.j, c.j+c.n, i); return l != c.j+c.n && *l == i ? l-c.j : c.n; }
#define FIND(T, C) auto k_##T(C& c, sz i) { return &*c.find(i); } sz k_##T##_offset(C& c, sz i) { return c.find(i).offset(); } SPEC(T, C)
FIND(find, R) FIND(cfind, const R)
auto k_entry(R& c, sz i) { return &c[i]; } auto s_entry(R& c, sz i) { const sz* l = std::lower_bound(c.j, c.j+c.n, i); if (l == c.j+c.n || *l != i) throw 1; return c.p + (l-c.j); }
auto k_centry(const R& c, sz i) { return &c[i]; } auto s_centry(const R& c, sz i) { const sz* l = std::lower_bound(c.j, c.j+c.n, i); if (l == c.j+c.n || *l != i) throw 1; return c.p + (l-c.j); }
