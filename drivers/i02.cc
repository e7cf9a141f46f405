// I02: positions and indices of iterators. k_* is the library, s_* the specification on raw storage.
#include "config.h"
#include "opaque_block.hh"
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <utility>
using sz = std::size_t; using df = std::ptrdiff_t;
using B = vt::VE; using E = vt::ME;
using V = Dune::BlockVector<B>; using W = Dune::VariableBlockVector<B>; using M = Dune::BCRSMatrix<E>; using R = M::row_type; using D = Dune::Matrix<E>;
// ends of a container: position AT(k) of an entry, number N of entries, index IX(k) of position k
#define ENDS(T, C, AT, N) \
  auto k_##T##_begin(C& c) { return &*c.begin(); } auto s_##T##_begin(C& c) { return AT(0); } \
  auto k_##T##_end(C& c) { return &*c.end(); } auto s_##T##_end(C& c) { return AT(N); } \
  auto k_##T##_beforeEnd(C& c) { return &*c.beforeEnd(); } auto s_##T##_beforeEnd(C& c) { return AT(N-1); } \
  auto k_##T##_beforeBegin(C& c) { return &*c.beforeBegin(); } auto s_##T##_beforeBegin(C& c) { return AT(-1); } \
  bool k_##T##_empty(C& c) { return c.begin() == c.end(); } bool s_##T##_empty(C& c) { return AT(0) == AT(N); } \
  bool k_##T##_nonempty(C& c) { return c.begin() != c.end(); } bool s_##T##_nonempty(C& c) { return AT(0) != AT(N); }
#define INDICES(T, C, N) \
  sz k_##T##_ibegin(C& c) { return c.begin().index(); } sz s_##T##_ibegin(C& c) { return 0; } \
  sz k_##T##_iend(C& c) { return c.end().index(); } sz s_##T##_iend(C& c) { return N; } \
  sz k_##T##_ibeforeEnd(C& c) { return c.beforeEnd().index(); } sz s_##T##_ibeforeEnd(C& c) { return sz(N)-1; } \
  sz k_##T##_ibeforeBegin(C& c) { return c.beforeBegin().index(); } sz s_##T##_ibeforeBegin(C& c) { return sz(-1); }
#define FIND(T, C, AT, N) \
  auto k_##T##_find(C& c, sz i) { return &*c.find(i); } auto s_##T##_find_1(C& c, sz i) { sz n = N; return AT(std::min(i,n)); } auto s_##T##_find_2(C& c, sz i) { sz n = N; return i < n ? AT(i) : AT(n); } \
  sz k_##T##_ifind(C& c, sz i) { return c.find(i).index(); } sz s_##T##_ifind_1(C& c, sz i) { return std::min(i,sz(N)); }
// steps of an iterator
#define STEPS(T, I) \
  auto k_##T##_inc(const I& a) { I b(a); ++b; return &*b; } auto s_##T##_inc(const I& a) { return &*a + 1; } \
  auto k_##T##_dec(const I& a) { I b(a); --b; return &*b; } auto s_##T##_dec(const I& a) { return &*a - 1; } \
  auto k_##T##_postinc(const I& a) { I b(a); b++; return &*b; } auto s_##T##_postinc(const I& a) { return &*a + 1; } \
  auto k_##T##_postdec(const I& a) { I b(a); b--; return &*b; } auto s_##T##_postdec(const I& a) { return &*a - 1; } \
  auto k_##T##_copy(const I& a) { I b; b = a; return &*b; } auto s_##T##_copy(const I& a) { return &*a; } \
  sz k_##T##_icopy(const I& a) { I b; b = a; return b.index(); } sz s_##T##_icopy(const I& a) { return a.index(); }
#define JUMPS(T, I) \
  auto k_##T##_add(const I& a, df d) { I b(a); b += d; return &*b; } auto s_##T##_add(const I& a, df d) { return &*a + d; } \
  auto k_##T##_sub(const I& a, df d) { I b(a); b -= d; return &*b; } auto s_##T##_sub(const I& a, df d) { return &*a - d; } \
  auto k_##T##_at(const I& a, df d) { return &a[d]; } auto s_##T##_at(const I& a, df d) { return &*a + d; }
#define CONST(T, I, J) \
  auto k_##T##_const(const I& a) { J b(a); return &*b; } auto s_##T##_const(const I& a) { return &*a; } \
  sz k_##T##_iconst(const I& a) { J b(a); return b.index(); } sz s_##T##_iconst(const I& a) { return a.index(); }
#define STEPI(T, I) \
  sz k_##T##_iinc(const I& a) { I b(a); ++b; return b.index(); } sz s_##T##_iinc(const I& a) { return a.index() + 1; } \
  sz k_##T##_idec(const I& a) { I b(a); --b; return b.index(); } sz s_##T##_idec(const I& a) { return a.index() - 1; }

// vectors
#define AT(k) (c.p + (k))
ENDS(bv, V, AT, c.n) INDICES(bv, V, c.n) FIND(bv, V, AT, c.n) ENDS(cbv, const V, AT, c.n) INDICES(cbv, const V, c.n) FIND(cbv, const V, AT, c.n)
#undef AT
using VI = V::iterator; using VC = V::const_iterator;
STEPS(bvi, VI) JUMPS(bvi, VI) CONST(bvi, VI, VC) STEPS(bvc, VC) JUMPS(bvc, VC)
bool k_bvi_eq(const VI& a, const VI& b) { return a == b; } bool s_bvi_eq(const VI& a, const VI& b) { return &*a == &*b; }
bool k_bvi_ne(const VI& a, const VI& b) { return a != b; } bool s_bvi_ne(const VI& a, const VI& b) { return &*a != &*b; }
bool k_bvc_eq(const VC& a, const VI& b) { return a == b; } bool s_bvc_eq(const VC& a, const VI& b) { return &*a == &*b; }
df k_bvi_dist(const VI& a, const VI& b) { return a - b; } df s_bvi_dist(const VI& a, const VI& b) { return &*a - &*b; }
sz k_bvi_index(const VI& a) { return a.index(); } sz s_bvi_index(const VI& a) { return &*a - a.p; }
// rows of a sparse matrix
#define AT(k) (c.r + (k))
ENDS(row, M, AT, c.n) INDICES(row, M, c.n) ENDS(crow, const M, AT, c.n) INDICES(crow, const M, c.n)
#undef AT
using RI = M::Iterator; using RC = M::ConstIterator;
STEPS(rowi, RI) JUMPS(rowi, RI) CONST(rowi, RI, RC) STEPI(rowi, RI) STEPS(rowc, RC) JUMPS(rowc, RC) STEPI(rowc, RC)
bool k_rowi_eq(const RI& a, const RI& b) { return a == b; } bool s_rowi_eq_1(const RI& a, const RI& b) { return a.index() == b.index(); } bool s_rowi_eq_2(const RI& a, const RI& b) { return &*a == &*b; }
bool k_rowi_ne(const RI& a, const RI& b) { return a != b; } bool s_rowi_ne_1(const RI& a, const RI& b) { return a.index() != b.index(); } bool s_rowi_ne_2(const RI& a, const RI& b) { return &*a != &*b; }
df k_rowi_dist(const RI& a, const RI& b) { return a - b; } df s_rowi_dist_1(const RI& a, const RI& b) { return a.index() - b.index(); } df s_rowi_dist_2(const RI& a, const RI& b) { return &*a - &*b; }
// entries of a row
#define AT(k) (c.p + (k))
ENDS(col, R, AT, c.n) ENDS(ccol, const R, AT, c.n)
#undef AT
using CI = R::Iterator; using CC = R::ConstIterator;
STEPS(coli, CI) CONST(coli, CI, CC) STEPS(colc, CC)
bool k_coli_eq(const CI& a, const CI& b) { return a == b; } bool s_coli_eq_1(const CI& a, const CI& b) { return a.i == b.i; } bool s_coli_eq_2(const CI& a, const CI& b) { return &*a == &*b; }
bool k_coli_ne(const CI& a, const CI& b) { return a != b; } bool s_coli_ne_1(const CI& a, const CI& b) { return a.i != b.i; } bool s_coli_ne_2(const CI& a, const CI& b) { return &*a != &*b; }
sz k_coli_index(const CI& a) { return a.index(); } sz s_coli_index_1(const CI& a) { return a.j[&*a - a.p]; } sz s_coli_index_2(const CI& a) { return a.j[a.i]; }
sz k_coli_iinc(const CI& a) { CI b(a); ++b; return b.index(); } sz s_coli_iinc(const CI& a) { return (&a.j[a.i])[1]; }
sz k_colc_index(const CC& a) { return a.index(); } sz s_colc_index(const CC& a) { return a.j[a.i]; }
sz k_col_ibegin(R& c) { return c.begin().index(); } sz s_col_ibegin(R& c) { return c.j[0]; }
sz k_col_ilast(R& c) { return c.beforeEnd().index(); } sz s_col_ilast(R& c) { return c.j[c.n-1]; }
sz k_ccol_ilast(const R& c) { return c.beforeEnd().index(); } sz s_ccol_ilast(const R& c) { return c.j[c.n-1]; }
// blocks of a vector with blocks of variable size
#define AT(k) (c.block.data() + (k))
ENDS(vb, W, AT, c.block.size()) INDICES(vb, W, c.block.size()) FIND(vb, W, AT, c.block.size()) ENDS(cvb, const W, AT, c.block.size()) INDICES(cvb, const W, c.block.size()) FIND(cvb, const W, AT, c.block.size())
#undef AT
using WI = W::iterator; using WC = W::const_iterator;
STEPI(vbi, WI) STEPI(vbc, WC)
auto k_vbi_inc(const WI& a) { WI b(a); ++b; return &*b; } auto s_vbi_inc(const WI& a) { return &*a + 1; }
auto k_vbi_dec(const WI& a) { WI b(a); --b; return &*b; } auto s_vbi_dec(const WI& a) { return &*a - 1; }
// rows of a dense matrix
using DI = D::RowIterator; using DC = D::ConstRowIterator; using DM = decltype(std::declval<D>().data_);
#define ROW(T, C, CALL, K) \
  auto k_##T(C& c) { return (*c.CALL).p; } auto s_##T(C& c) { return c.data_.p + (K)*c.data_.columns_; } \
  sz k_##T##_size(C& c) { return (*c.CALL).n; } sz s_##T##_size(C& c) { return c.data_.columns_; } \
  sz k_##T##_index(C& c) { return c.CALL.index(); } sz s_##T##_index(C& c) { return K; }
ROW(de_begin, D, begin(), sz(0)) ROW(de_end, D, end(), c.data_.rows_) ROW(de_beforeEnd, D, beforeEnd(), c.data_.rows_-1) ROW(de_beforeBegin, D, beforeBegin(), sz(-1))
ROW(cde_begin, const D, begin(), sz(0)) ROW(cde_end, const D, end(), c.data_.rows_) ROW(cde_beforeEnd, const D, beforeEnd(), c.data_.rows_-1)
auto k_dei_inc(DI& a) { DI b(a); ++b; return (*b).p; } auto s_dei_inc(DI& a) { return (*a).p + (*a).n; }
auto k_dei_dec(DI& a) { DI b(a); --b; return (*b).p; } auto s_dei_dec(DI& a) { return (*a).p - (*a).n; }
auto k_dec_inc(DC& a) { DC b(a); ++b; return (*b).p; } auto s_dec_inc(DC& a) { return (*a).p + (*a).n; }
auto k_dec_dec(DC& a) { DC b(a); --b; return (*b).p; } auto s_dec_dec(DC& a) { return (*a).p - (*a).n; }
sz k_dei_iinc(DI& a) { DI b(a); ++b; return b.index(); } sz s_dei_iinc(DI& a) { return a.index()+1; }
sz k_dei_idec(DI& a) { DI b(a); --b; return b.index(); } sz s_dei_idec(DI& a) { return a.index()-1; }
sz k_dec_iinc(DC& a) { DC b(a); ++b; return b.index(); } sz s_dec_iinc(DC& a) { return a.index()+1; }
sz k_dec_idec(DC& a) { DC b(a); --b; return b.index(); } sz s_dec_idec(DC& a) { return a.index()-1; }
auto k_dec_from(const DI& a) { DC b(a); return (*b).p; } auto s_dec_from(const DI& a) { return (*a).p; }
sz k_dec_ifrom(const DI& a) { DC b(a); return b.index(); } sz s_dec_ifrom(const DI& a) { return a.index(); }
bool k_dei_eq(const DI& a, const DI& b) { return a == b; } bool s_dei_eq_1(const DI& a, const DI& b) { return (*a).p == (*b).p; } bool s_dei_eq_2(const DI& a, const DI& b) { return a.index() == b.index(); }
bool k_dei_ne(const DI& a, const DI& b) { return a != b; } bool s_dei_ne_1(const DI& a, const DI& b) { return (*a).p != (*b).p; } bool s_dei_ne_2(const DI& a, const DI& b) { return a.index() != b.index(); }
bool k_dec_eq(const DC& a, const DC& b) { return a == b; } bool s_dec_eq_1(const DC& a, const DC& b) { return (*a).p == (*b).p; } bool s_dec_eq_2(const DC& a, const DC& b) { return a.index() == b.index(); }
bool k_dec_ne(const DC& a, const DI& b) { return a != b; } bool s_dec_ne_1(const DC& a, const DI& b) { return (*a).p != (*b).p; } bool s_dec_ne_2(const DC& a, const DI& b) { return a.index() != b.index(); }
auto k_dei_assign(DI& a) { DI b; b = a; return (*b).p; } auto s_dei_assign(DI& a) { return (*a).p; }
sz k_dei_iassign(DI& a) { DI b; b = a; return b.index(); } sz s_dei_iassign(DI& a) { return a.index(); }
sz k_dei_sassign(DI& a) { DI b; b = a; return (*b).n; } sz s_dei_sassign(DI& a) { return (*a).n; }
auto k_dec_assign(DC& a) { DC b; b = a; return (*b).p; } auto s_dec_assign(DC& a) { return (*a).p; }
sz k_dec_iassign(DC& a) { DC b; b = a; return b.index(); } sz s_dec_iassign(DC& a) { return a.index(); }
sz k_coli_offset(const CI& a) { return a.offset(); } sz s_coli_offset(const CI& a) { return &*a - a.p; }
sz k_coli_istart(R& c) { return c.begin().offset(); } sz s_coli_istart(R& c) { return 0; }
sz k_coli_iend(R& c) { return c.end().offset(); } sz s_coli_iend(R& c) { return c.n; }
// look-up in dense matrices and in rows
auto k_de_find(D& c, sz i) { return (*c.data_.find(i)).p; } auto s_de_find_1(D& c, sz i) { return c.data_.p + std::min(i,c.data_.rows_)*c.data_.columns_; } auto s_de_find_2(D& c, sz i) { sz n = c.data_.rows_; return i < n ? c.data_.p + i*c.data_.columns_ : c.data_.p + n*c.data_.columns_; }
sz k_de_ifind(D& c, sz i) { return c.data_.find(i).index(); } sz s_de_ifind(D& c, sz i) { return std::min(i,c.data_.rows_); }
auto k_cde_find(const D& c, sz i) { return (*c.data_.find(i)).p; } auto s_cde_find_1(const D& c, sz i) { return c.data_.p + std::min(i,c.data_.rows_)*c.data_.columns_; } auto s_cde_find_2(const D& c, sz i) { sz n = c.data_.rows_; return i < n ? c.data_.p + i*c.data_.columns_ : c.data_.p + n*c.data_.columns_; }
sz k_cde_ifind(const D& c, sz i) { return c.data_.find(i).index(); } sz s_cde_ifind(const D& c, sz i) { return std::min(i,c.data_.rows_); }
bool k_vbi_eq(const WI& a, const WI& b) { return a == b; } bool s_vbi_eq(const WI& a, const WI& b) { return &*a == &*b; }
bool k_vbi_ne(const WI& a, const WI& b) { return a != b; } bool s_vbi_ne(const WI& a, const WI& b) { return &*a != &*b; }
auto k_vbi_add(const WI& a, df d) { WI b(a); b += d; return &*b; } auto s_vbi_add(const WI& a, df d) { return &*a + d; }
sz k_vbi_iadd(const WI& a, df d) { WI b(a); b += d; return b.index(); } sz s_vbi_iadd(const WI& a, df d) { return a.index() + d; }
// rows of a multiple of the identity
using S = Dune::ScaledIdentityMatrix<double,3>;
INDICES(sid, S, 3) INDICES(csid, const S, 3)
bool k_sid_empty(S& c) { return c.begin() == c.end(); } bool s_sid_empty(S& c) { return false; }
bool k_csid_empty(const S& c) { return c.begin() == c.end(); } bool s_csid_empty(const S& c) { return false; }
sz k_sid_passes(S& c) { sz k=0; for (auto it = c.begin(); it != c.end(); ++it) k += 1 + it.index(); return k; } sz s_sid_passes(S& c) { return 6; }
double k_csid_diag(const S& c) { return (*(++c.begin()))[1]; } double s_csid_diag(const S& c) { return c.p_; }
// assignments between iterator kinds, mixed comparisons, indices after steps and jumps
#define XASSIGN(T, I, J) \
  auto k_##T##_cassign(const I& a) { J b; b = a; return &*b; } auto s_##T##_cassign(const I& a) { return &*a; } \
  sz k_##T##_icassign(const I& a) { J b; b = a; return b.index(); } sz s_##T##_icassign(const I& a) { return a.index(); }
XASSIGN(bvi, VI, VC) XASSIGN(rowi, RI, RC) XASSIGN(coli, CI, CC) XASSIGN(bvc, VC, VC) XASSIGN(rowc, RC, RC) XASSIGN(colc, CC, CC) XASSIGN(vbi, WI, WI) XASSIGN(vbc, WC, WC)
#define JUMPI(T, I) \
  sz k_##T##_iadd(const I& a, df d) { I b(a); b += d; return b.index(); } sz s_##T##_iadd(const I& a, df d) { return a.index() + d; } \
  sz k_##T##_isub(const I& a, df d) { I b(a); b -= d; return b.index(); } sz s_##T##_isub(const I& a, df d) { return a.index() - d; } \
  sz k_##T##_iplus(const I& a, df d) { return (a + d).index(); } sz s_##T##_iplus(const I& a, df d) { return a.index() + d; }
#define JUMPP(T, I) \
  sz k_##T##_iadd(const I& a, df d) { I b(a); b += d; return b.index(); } sz s_##T##_iadd(const I& a, df d) { return &*a + d - a.p; } \
  sz k_##T##_isub(const I& a, df d) { I b(a); b -= d; return b.index(); } sz s_##T##_isub(const I& a, df d) { return &*a - d - a.p; } \
  sz k_##T##_iplus(const I& a, df d) { return (a + d).index(); } sz s_##T##_iplus(const I& a, df d) { return &*a + d - a.p; }
JUMPP(bvi, VI) JUMPP(bvc, VC) JUMPI(rowi, RI) JUMPI(rowc, RC)
sz k_bvi_iinc(const VI& a) { VI b(a); ++b; return b.index(); } sz s_bvi_iinc(const VI& a) { return &*a + 1 - a.p; }
sz k_bvi_idec(const VI& a) { VI b(a); --b; return b.index(); } sz s_bvi_idec(const VI& a) { return &*a - 1 - a.p; }
sz k_bvc_iinc(const VC& a) { VC b(a); ++b; return b.index(); } sz s_bvc_iinc(const VC& a) { return &*a + 1 - a.p; }
sz k_bvc_idec(const VC& a) { VC b(a); --b; return b.index(); } sz s_bvc_idec(const VC& a) { return &*a - 1 - a.p; }
bool k_bvcc_eq(const VC& a, const VC& b) { return a == b; } bool s_bvcc_eq(const VC& a, const VC& b) { return &*a == &*b; }
bool k_rowcc_eq(const RC& a, const RC& b) { return a == b; } bool s_rowcc_eq_1(const RC& a, const RC& b) { return a.index() == b.index(); } bool s_rowcc_eq_2(const RC& a, const RC& b) { return &*a == &*b; }
bool k_rowci_eq(const RC& a, const RI& b) { return a == b; } bool s_rowci_eq_1(const RC& a, const RI& b) { return a.index() == b.index(); } bool s_rowci_eq_2(const RC& a, const RI& b) { return &*a == &*b; }
bool k_colcc_eq(const CC& a, const CC& b) { return a == b; } bool s_colcc_eq_1(const CC& a, const CC& b) { return a.i == b.i; } bool s_colcc_eq_2(const CC& a, const CC& b) { return &*a == &*b; }
bool k_colci_ne(const CC& a, const CI& b) { return a != b; } bool s_colci_ne_1(const CC& a, const CI& b) { return a.i != b.i; } bool s_colci_ne_2(const CC& a, const CI& b) { return &*a != &*b; }
df k_rowcc_dist(const RC& a, const RC& b) { return a - b; } df s_rowcc_dist_1(const RC& a, const RC& b) { return a.index() - b.index(); } df s_rowcc_dist_2(const RC& a, const RC& b) { return &*a - &*b; }
df k_rowci_dist(const RC& a, const RI& b) { return a - b; } df s_rowci_dist_1(const RC& a, const RI& b) { return a.index() - b.index(); } df s_rowci_dist_2(const RC& a, const RI& b) { return &*a - &*b; }
df k_bvcc_dist(const VC& a, const VC& b) { return a - b; } df s_bvcc_dist(const VC& a, const VC& b) { return &*a - &*b; }
auto k_dec_cassign(DI& a) { DC b; b = a; return (*b).p; } auto s_dec_cassign(DI& a) { return (*a).p; }
sz k_dec_icassign(DI& a) { DC b; b = a; return b.index(); } sz s_dec_icassign(DI& a) { return a.index(); }
sz k_dec_scassign(DI& a) { DC b; b = a; return (*b).n; } sz s_dec_scassign(DI& a) { return (*a).n; }
auto k_dei_massign(DI& a) { DI b; b = std::move(a); return (*b).p; } auto s_dei_massign(DI& a) { return (*a).p; }
sz k_dei_imassign(DI& a) { DI b; b = std::move(a); return b.index(); } sz s_dei_imassign(DI& a) { return a.index(); }
auto k_dec_cmassign(DI& a) { DC b; b = std::move(a); return (*b).p; } auto s_dec_cmassign(DI& a) { return (*a).p; }
sz k_dec_icmassign(DI& a) { DC b; b = std::move(a); return b.index(); } sz s_dec_icmassign(DI& a) { return a.index(); }
auto k_dec_copy(const DC& a) { DC b(a); return (*b).p; } auto s_dec_copy(const DC& a) { return (*a).p; }
auto k_dei_copy(DI& a) { DI b(a); return (*b).p; } auto s_dei_copy(DI& a) { return (*a).p; }
