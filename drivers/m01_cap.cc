// Capacity checks of the insertions; the binary search is opaque.
#include "config.h"
#include "opaque_block.hh"
#include <algorithm>
namespace std { template<> unsigned long* lower_bound<unsigned long*, unsigned long>(unsigned long*, unsigned long*, const unsigned long&);
                template<> unsigned long* upper_bound<unsigned long*, unsigned long>(unsigned long*, unsigned long*, const unsigned long&);
                template<> unsigned long* find<unsigned long*, unsigned long>(unsigned long*, unsigned long*, const unsigned long&); }
#include <map>
#include <utility>
namespace std { template<> vt::ME& map<pair<unsigned long, unsigned long>, vt::ME>::operator[](pair<unsigned long, unsigned long>&&); template<> vt::ME& map<pair<unsigned long, unsigned long>, vt::ME>::operator[](const pair<unsigned long, unsigned long>&); }
#define DUNE_ISTL_WITH_CHECKING 1
#include <dune/istl/bcrsmatrix.hh>
using B = vt::ME; using M = Dune::BCRSMatrix<B>; using sz = M::size_type;
[[noreturn]] void vt_reject();
extern "C" {
void* off_mode(M& m) { return &m.build_mode; }
void* off_ready(M& m) { return &m.ready; }
void* off_r(M& m) { return &m.r; }
void* off_avg(M& m) { return &m.avg; }
void* off_m(M& m) { return &m.m; }
}
void k_addindex(M& m, sz i, sz j) { m.addindex(i, j); }
void s_addindex(M& m, sz i, sz j) {
  if (!(m.build_mode == M::random && m.ready == M::rowSizesBuilt && j < m.m)) vt_reject();
  sz* first = m.r[i].j; sz* last = first + m.r[i].n;
  sz* pos = std::lower_bound(first, last, j); if (pos != last && *pos == j) return;
  sz* end = std::lower_bound(pos, last, m.m); if (end == last) vt_reject();
  std::copy_backward(pos, end, end + 1); *pos = j;
}
B& s_entry(M& m, sz i, sz j) {
  if (!(m.build_mode == M::implicit && m.ready == M::building && i < m.n && j < m.m)) vt_reject();
  sz* first = m.r[i].j; sz* last = first + m.r[i].n; sz* pos = std::find(first, last, j);
  if (pos != last && *pos == j) return m.r[i].p[pos - first];
  if (m.r[i].n == m.avg) return m.overflow[std::make_pair(i, j)];
  *last = j; B& b = m.r[i].p[m.r[i].n]; m.r[i].n = m.r[i].n + 1; return b;
}
B& k_entry(M& m, sz i, sz j) { return m.entry(i, j); }
