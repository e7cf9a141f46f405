// Storage of the containers: every call that obtains, exchanges or returns storage (k_).
#include "config.h"
#include <memory>
#include "opaque_block.hh"
#include <vector>
#include <new>
namespace vt {
  template<class T> struct Alloc {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    template<class U> struct rebind { using other = Alloc<U>; };
    Alloc() noexcept {} Alloc(const Alloc&) noexcept {} template<class U> Alloc(const Alloc<U>&) noexcept {}
    T* allocate(size_type); void deallocate(T*, size_type) noexcept;
    template<class U, class V> void construct(U*, V&&) noexcept; template<class U> void destroy(U*) noexcept;
    void destroy(ME* p) noexcept { p->~ME(); }
    friend bool operator==(const Alloc&, const Alloc&) { return true; }
  };
}
template<> std::__shared_count<__gnu_cxx::_S_atomic>::~__shared_count() noexcept;
template<> std::__shared_count<__gnu_cxx::_S_atomic>& std::__shared_count<__gnu_cxx::_S_atomic>::operator=(const std::__shared_count<__gnu_cxx::_S_atomic>&) noexcept;
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/bccsmatrix.hh>
using B = vt::ME; using A = vt::Alloc<B>;
using M = Dune::BCRSMatrix<B, A>; using sz = M::size_type; using CI = M::CreateIterator; using IB = Dune::ImplicitMatrixBuilder<M>;
using D = Dune::Matrix<B, A>;
using C = Dune::ISTL::Impl::BCCSMatrix<double, sz>;
extern "C" {
void* off_mode(M& m) { return &m.build_mode; }
void* off_ready(M& m) { return &m.ready; }
void* off_n(M& m) { return &m.n; }
void* off_m(M& m) { return &m.m; }
void* off_r(M& m) { return &m.r; }
void* off_a(M& m) { return &m.a; }
void* off_nnz(M& m) { return &m.nnz_; }
void* off_asz(M& m) { return &m.allocationSize_; }
void* off_buffer(M& m) { return &m.compressionBufferSize_; }
void* off_rowp(M::row_type& r) { return &r.p; }
void* off_rown(M::row_type& r) { return &r.n; }
void* off_rowj(M::row_type& r) { return &r.j; }
void* off_dn(D& m) { return &m.data_.n; }
void* off_dp(D& m) { return &m.data_.p; }
void* off_drows(D& m) { return &m.data_.rows_; }
void* off_dcols(D& m) { return &m.data_.columns_; }
void* off_cN(C& m) { return &m.N_; }
void* off_cM(C& m) { return &m.M_; }
void* off_cnnz(C& m) { return &m.Nnz_; }
void* off_cval(C& m) { return &m.values; }
void* off_crow(C& m) { return &m.rowindex; }
void* off_ccol(C& m) { return &m.colstart; }
}
void k_size(M& m, sz a, sz b, sz nnz) { m.setSize(a, b, nnz); }
void k_ctor(M* p, sz a, sz b, M::BuildMode bm) { new (p) M(a, b, bm); }
void k_nctor(M* p, sz a, sz b, sz nnz, M::BuildMode bm) { new (p) M(a, b, nnz, bm); }
void k_ictor(M* p, sz a, sz b, sz v, double f, M::BuildMode bm) { new (p) M(a, b, v, f, bm); }
void k_dctor(M* p) { new (p) M(); }
void k_copy(M* p, const M& m) { new (p) M(m); }
void k_assign(M& m, const M& x) { m = x; }
void k_dtor(M& m) { m.~M(); }
void k_next(CI& it) { ++it; }
void k_endrows(M& m) { m.endrowsizes(); }
void k_endind(M& m) { m.endindices(); }
void k_compress(M& m) { m.compress(); }
void k_builder5(M& m, IB* p, sz a, sz b, sz v, double f) { new (p) IB(m, a, b, v, f); }
void k_fill(M& m, double k) { m = k; }
// dense
void k_ddctor(D* p) { new (p) D(); }
void k_dctor2(D* p, sz a, sz b) { new (p) D(a, b); }
void k_dcopy(D* p, const D& m) { new (p) D(m); }
void k_dassign(D& m, const D& x) { m = x; }
void k_dresize(D& m, sz a, sz b) { m.setSize(a, b); }
void k_ddtor(D& m) { m.~D(); }
// compressed columns
void k_cdctor(C* p) { new (p) C(); }
void k_ccopy(C* p, const C& x) { new (p) C(x); }
void k_cassign(C& m, const C& x) { m = x; }
void k_cfree(C& m) { m.C::free(); }
void k_cdtor(C& m) { m.C::~C(); }
