// Set-up calls of sparse matrices (k_) and their prescribed admission and transition (s_).
#include "config.h"
#include "opaque_block.hh"
#include <vector>
#include <new>
#include <dune/istl/bcrsmatrix.hh>
using B = vt::ME; using M = Dune::BCRSMatrix<B>; using sz = M::size_type; using CI = M::CreateIterator; using IB = Dune::ImplicitMatrixBuilder<M>;
[[noreturn]] void vt_reject();
bool vt_capacity() noexcept;
extern "C" {
void* off_mode(M& m) { return &m.build_mode; }
void* off_ready(M& m) { return &m.ready; }
void* off_n(M& m) { return &m.n; }
void* off_m(M& m) { return &m.m; }
void* off_avg(M& m) { return &m.avg; }
void* off_buffer(M& m) { return &m.compressionBufferSize_; }
void* off_r(M& m) { return &m.r; }
void* off_a(M& m) { return &m.a; }
void* off_asz(M& m) { return &m.allocationSize_; }
void* off_nnz(M& m) { return &m.nnz_; }
}
#define NEED(c) do { if (!(c)) vt_reject(); } while (0)
#define MODE(x) (m.build_mode == M::x)
#define STAGE(x) (m.ready == M::x)
// stages and modes
void k_mode(M& m, M::BuildMode bm) { m.setBuildMode(bm); }
void s_mode(M& m, M::BuildMode bm) {
  NEED(STAGE(notAllocated) || (STAGE(building) && !MODE(implicit) && (bm == M::row_wise || bm == M::random))); m.build_mode = bm; }
void k_size(M& m, sz a, sz b, sz nnz) { m.setSize(a, b, nnz); }
void s_size(M& m, sz a, sz b, sz nnz) { NEED(!MODE(implicit) || (nnz == 0 && !(m.compressionBufferSize_ < 0))); m.n = a; m.m = b; m.ready = M::building; }
void k_params(M& m, sz a, double f) { m.setImplicitBuildModeParameters(a, f); }
void s_params(M& m, sz a, double f) { NEED(!(f < 0.0) && STAGE(notAllocated)); m.avg = a; m.compressionBufferSize_ = f; }
void k_ictor(M* p, sz a, sz b, sz v, double f, M::BuildMode bm) { new (p) M(a, b, v, f, bm); }
void s_ictor(M* p, sz a, sz b, sz v, double f, M::BuildMode bm) { NEED(bm == M::implicit && !(f < 0.0)); p->n = a; p->m = b; p->avg = v; p->compressionBufferSize_ = f; p->build_mode = bm; p->ready = M::building; }
void k_ctor(M* p, sz a, sz b, M::BuildMode bm) { new (p) M(a, b, bm); }
void s_ctor(M* p, sz a, sz b, M::BuildMode bm) { p->n = a; p->m = b; p->build_mode = bm; p->ready = M::building; p->compressionBufferSize_ = -1.0; p->avg = 0; }
void k_nctor(M* p, sz a, sz b, sz nnz, M::BuildMode bm) { new (p) M(a, b, nnz, bm); }
void s_nctor(M* p, sz a, sz b, sz nnz, M::BuildMode bm) { p->n = a; p->m = b; p->build_mode = bm; p->ready = M::building; p->compressionBufferSize_ = -1.0; p->avg = 0; }
void k_dctor(M* p) { new (p) M(); }
void s_dctor(M* p) { p->n = 0; p->m = 0; p->build_mode = M::unknown; p->ready = M::notAllocated; p->compressionBufferSize_ = -1.0; p->avg = 0; }
void k_copy(M* p, const M& m) { new (p) M(m); }
void s_copy(M* p, const M& m) { NEED(STAGE(notAllocated) || STAGE(built)); p->n = m.n; p->m = m.m; p->build_mode = M::row_wise; p->ready = M::built; p->avg = m.avg; p->compressionBufferSize_ = m.compressionBufferSize_; }
void k_assign(M& m, const M& x) { m = x; }
void s_assign(M& m, const M& x) { if (&m == &x) return; NEED((STAGE(notAllocated) || STAGE(built)) && (x.ready == M::notAllocated || x.ready == M::built));
  m.n = x.n; m.m = x.m; m.build_mode = M::row_wise; m.ready = M::built; }
void k_fill(M& m, double k) { m = k; }
void s_fill(M& m, double k) { NEED(STAGE(notAllocated) || STAGE(built)); }
// row-wise
void k_create(M& m, CI* p, sz i) { new (p) CI(m, i); }
void s_create(M& m, CI* p, sz i) { if (MODE(unknown) && STAGE(building)) m.build_mode = M::row_wise; NEED((i != 0 || STAGE(building)) && MODE(row_wise)); if (i == 0 && m.n == 0) m.ready = M::built; }
// the matrix is the one the iterator refers to
void k_next(CI& it) { ++it; }
void s_next(CI& it) { M& m = it.Mat; NEED(STAGE(building)); sz s = it.pattern.size(); NEED(s == 0 || m.nnz_ == 0 || it.nnz + s <= m.nnz_); if (it.i + 1 == m.n) m.ready = M::built; }
// random
void k_setrow(M& m, sz i, sz s) { m.setrowsize(i, s); }
void s_setrow(M& m, sz i, sz s) { NEED(MODE(random) && STAGE(building)); }
void k_incrow(M& m, sz i, sz s) { m.incrementrowsize(i, s); }
void s_incrow(M& m, sz i, sz s) { NEED(MODE(random) && STAGE(building)); }
void k_endrows(M& m) { m.endrowsizes(); }
void s_endrows(M& m) { NEED(MODE(random) && STAGE(building)); if (m.nnz_ != 0) NEED(vt_capacity()); m.ready = M::rowSizesBuilt; }
void k_addindex(M& m, sz i, sz j) { m.addindex(i, j); }
void s_addindex(M& m, sz i, sz j) { NEED(MODE(random) && STAGE(rowSizesBuilt) && j < m.m); NEED(vt_capacity()); }
void k_setind(M& m, sz i, const int* a, const int* b) { m.setIndices(i, a, b); }
void s_setind(M& m, sz i, const int* a, const int* b) { NEED(MODE(random) && STAGE(rowSizesBuilt)); NEED(sz(b - a) == m.r[i].n); }
void k_setindns(M& m, sz i, const int* a, const int* b) { m.setIndicesNoSort(i, a, b); }
void s_setindns(M& m, sz i, const int* a, const int* b) { NEED(MODE(random) && STAGE(rowSizesBuilt)); NEED(sz(b - a) == m.r[i].n); }
void k_endind(M& m) { m.endindices(); }
void s_endind(M& m) { NEED(MODE(random) && STAGE(rowSizesBuilt)); m.ready = M::built; }
// implicit
void k_builder(M& m, IB* p) { new (p) IB(m); }
void s_builder(M& m, IB* p) { NEED(MODE(implicit) && STAGE(building)); }
void k_builder5(M& m, IB* p, sz a, sz b, sz v, double f) { new (p) IB(m, a, b, v, f); }
void s_builder5(M& m, IB* p, sz a, sz b, sz v, double f) { NEED(STAGE(notAllocated)); NEED(!(f < 0.0)); m.build_mode = M::implicit; m.avg = v; m.compressionBufferSize_ = f; m.n = a; m.m = b; m.ready = M::building; }
void k_compress(M& m) { m.compress(); }
void s_compress(M& m) { NEED(MODE(implicit) && STAGE(building)); m.ready = M::built; if (m.n) NEED(vt_capacity()); }
#ifdef DUNE_ISTL_WITH_CHECKING
B& k_entry(M& m, sz i, sz j) { return m.entry(i, j); }
void s_entry(M& m, sz i, sz j) { NEED(MODE(implicit) && STAGE(building) && i < m.n && j < m.m); }
void* k_row(M& m, sz i) { return &m[i]; }
void* s_row(M& m, sz i) { NEED((!MODE(implicit) || STAGE(built)) && m.r != 0 && i < m.n); return &m.r[i]; }
const void* k_crow(const M& m, sz i) { return &m[i]; }
const void* s_crow(const M& m, sz i) { NEED(STAGE(built) && i < m.n); return &m.r[i]; }
sz k_getrow(const M& m, sz i) { return m.getrowsize(i); }
sz s_getrow(const M& m, sz i) { NEED(m.r != 0 && i < m.n); return m.r[i].n; }
#endif
