// Vectors: published size and address against the storage behind them (k_), windows of variable block vectors.
#include "config.h"
#include "opaque_block.hh"
#include <vector>
#include <new>
namespace vt {
  template<class T> struct Alloc {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    template<class U> struct rebind { using other = Alloc<U>; };
    Alloc() noexcept {} Alloc(const Alloc&) noexcept {} template<class U> Alloc(const Alloc<U>&) noexcept {}
    T* allocate(size_type); void deallocate(T*, size_type) noexcept;
    friend bool operator==(const Alloc&, const Alloc&) { return true; }
  };
}
template<class T> class std::vector<T, vt::Alloc<T>> {
public:
  using value_type = T; using size_type = std::size_t; using iterator = T*; using const_iterator = const T*; using reference = T&; using const_reference = const T&;
  using difference_type = std::ptrdiff_t; using allocator_type = vt::Alloc<T>;
  vector() noexcept : start(nullptr), finish(nullptr), cap(nullptr) {}
  explicit vector(size_type); vector(std::initializer_list<T>); vector(const vector&); vector& operator=(const vector&); ~vector() noexcept;
  vector(vector&& o) noexcept : start(o.start), finish(o.finish), cap(o.cap) { o.start = o.finish = o.cap = nullptr; }
  vector& operator=(vector&& o) noexcept { vector t(static_cast<vector&&>(o)); swap(t); return *this; }
  void resize(size_type); void reserve(size_type); void clear() noexcept; void shrink_to_fit(); void assign(size_type, const T&); void push_back(const T&); void pop_back();
  void swap(vector& o) noexcept { T *a = start, *b = finish, *c = cap; start = o.start; finish = o.finish; cap = o.cap; o.start = a; o.finish = b; o.cap = c; }
  friend void swap(vector& a, vector& b) noexcept { a.swap(b); }
  T* data() noexcept { return start; } const T* data() const noexcept { return start; }
  size_type size() const noexcept { return finish - start; } size_type capacity() const noexcept { return cap - start; } bool empty() const noexcept { return start == finish; }
  T& operator[](size_type i) noexcept { return start[i]; } const T& operator[](size_type i) const noexcept { return start[i]; }
  T* begin() noexcept { return start; } T* end() noexcept { return finish; } const T* begin() const noexcept { return start; } const T* end() const noexcept { return finish; }
  T& front() { return *start; } T& back() { return finish[-1]; }
  T *start, *finish, *cap;
};
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
using B = vt::VE; using A = vt::Alloc<B>;
using W = Dune::Imp::BlockVectorWindow<B, A>; using WA = vt::Alloc<W>;
using V = Dune::BlockVector<B, A>; using sz = V::size_type;
using X = Dune::VariableBlockVector<B, A>;
extern "C" {
B* vdata_v(V& v) { return v.storage_.data(); }
sz vsize_v(V& v) { return v.storage_.size(); }
B* vp_v(V& v) { return v.p; }
sz vn_v(V& v) { return v.n; }
B* xdata_x(X& v) { return v.storage_.data(); }
sz xsize_x(X& v) { return v.storage_.size(); }
B* xp_x(X& v) { return v.p; }
sz xn_x(X& v) { return v.n; }
void* off_block(X& v) { return &v.block.start; }
}
// one-block vectors
void k_v1_def(V* p) { new (p) V(); }
void k_v1_size(V* p, sz n) { new (p) V(n); }
void k_v1_list(V* p, std::initializer_list<B> l) { new (p) V(l); }
void k_v1_cap(V* p, sz n, sz c) { new (p) V(n, c); }
void k_v1_copy(V* p, const V& v) { new (p) V(v); }
void k_v2_move(V* p, V& v) { new (p) V(std::move(v)); }
void k_v1_assign(V& p, const V& v) { p = v; }
void k_v2_massign(V& p, V& v) { p = std::move(v); }
void k_v2_swap(V& p, V& v) { p.swap(v); }
void k_v1_resize(V& p, sz n) { p.resize(n); }
void k_v1_reserve(V& p, sz n) { p.reserve(n); }
// variable blocks
void k_x1_def(X* p) { new (p) X(); }
void k_x1_size(X* p, sz n) { new (p) X(n); }
void k_w_size2(X* p, sz n, sz b) { new (p) X(n, b); }
void k_w_copy(X* p, const X& v) { new (p) X(v); }
void k_x2_move(X* p, X& v) { new (p) X(std::move(v)); }
void k_x1_assign(X& p, const X& v) { p = v; }
void k_x2_swap(X& p, X& v) { p.swap(v); }
void k_x1_resize(X& p, sz n) { p.resize(n); }
void k_w_resize2(X& p, sz n, sz b) { p.resize(n, b); }
void k_w_allocate(X& p) { p.allocate(); }
// windows: the prescribed positions in the storage (either published address may be used)
#define CHAIN(P) if (v.block.size() > 0) { v.block[0].p = P; for (sz i = 1; i < v.block.size(); ++i) v.block[i].p = v.block[i-1].p + v.block[i-1].n; }
#define CHAIN2(P) if (v.block.size() > 0) v.block[0].p = P; for (sz i = 1; i < v.block.size(); ++i) v.block[i].p = v.block[i-1].p + v.block[i-1].n;
#define CHAIN2N(P) if (v.block.size() > 0) { v.block[0].n = v.block[0].n; v.block[0].p = P; } for (sz i = 1; i < v.block.size(); ++i) { v.block[i].n = v.block[i].n; v.block[i].p = v.block[i-1].p + v.block[i-1].n; }
#define CHAINN(P) if (v.block.size() > 0) { v.block[0].n = v.block[0].n; v.block[0].p = P; for (sz i = 1; i < v.block.size(); ++i) { v.block[i].n = v.block[i].n; v.block[i].p = v.block[i-1].p + v.block[i-1].n; } }
#define RUN(P) { B* q = P; for (sz i = 0; i < v.block.size(); ++i) { v.block[i].p = q; q += v.block[i].n; } }
#define RUNN(P) { B* q = P; for (sz i = 0; i < v.block.size(); ++i) { v.block[i].n = v.block[i].n; v.block[i].p = q; q += v.block[i].n; } }
#define IRUN(P) { B* q = P; for (auto& w : v.block) { w.p = q; q += w.n; } }
#define IRUNN(P) { B* q = P; for (auto& w : v.block) { w.n = w.n; w.p = q; q += w.n; } }
#define EQUAL(N, P) for (sz i = 0; i < N; ++i) { v.block[i].n = b; v.block[i].p = P + i*b; }
#define ERUN(N, P) { B* q = P; for (sz i = 0; i < N; ++i) { v.block[i].n = b; v.block[i].p = q; q += b; } }
void s_w_size2_1(X& v, sz n, sz b) { EQUAL(n, v.p) }
void s_w_size2_2(X& v, sz n, sz b) { EQUAL(n, v.storage_.data()) }
void s_w_size2_3(X& v, sz n, sz b) { EQUAL(v.block.size(), v.p) }
void s_w_size2_4(X& v, sz n, sz b) { EQUAL(v.block.size(), v.storage_.data()) }
void s_w_size2_5(X& v, sz n, sz b) { ERUN(n, v.p) }
void s_w_size2_6(X& v, sz n, sz b) { ERUN(n, v.storage_.data()) }
void s_w_size2_7(X& v, sz n, sz b) { ERUN(v.block.size(), v.p) }
void s_w_size2_8(X& v, sz n, sz b) { ERUN(v.block.size(), v.storage_.data()) }
void s_w_resize2_1(X& v, sz n, sz b) { EQUAL(n, v.p) }
void s_w_resize2_2(X& v, sz n, sz b) { EQUAL(n, v.storage_.data()) }
void s_w_resize2_3(X& v, sz n, sz b) { EQUAL(v.block.size(), v.p) }
void s_w_resize2_4(X& v, sz n, sz b) { EQUAL(v.block.size(), v.storage_.data()) }
void s_w_resize2_5(X& v, sz n, sz b) { ERUN(n, v.p) }
void s_w_resize2_6(X& v, sz n, sz b) { ERUN(n, v.storage_.data()) }
void s_w_resize2_7(X& v, sz n, sz b) { ERUN(v.block.size(), v.p) }
void s_w_resize2_8(X& v, sz n, sz b) { ERUN(v.block.size(), v.storage_.data()) }
void s_w_copy_1(X& v, const X&) { CHAIN(v.p) }
void s_w_copy_2(X& v, const X&) { CHAIN(v.storage_.data()) }
void s_w_copy_3(X& v, const X&) { CHAIN2(v.p) }
void s_w_copy_4(X& v, const X&) { CHAIN2(v.storage_.data()) }
void s_w_copy_5(X& v, const X&) { RUN(v.p) }
void s_w_copy_6(X& v, const X&) { RUN(v.storage_.data()) }
void s_w_copy_7(X& v, const X&) { CHAINN(v.p) }
void s_w_copy_8(X& v, const X&) { CHAINN(v.storage_.data()) }
void s_w_copy_9(X& v, const X&) { CHAIN2N(v.p) }
void s_w_copy_10(X& v, const X&) { CHAIN2N(v.storage_.data()) }
void s_w_copy_11(X& v, const X&) { RUNN(v.p) }
void s_w_copy_12(X& v, const X&) { RUNN(v.storage_.data()) }
void s_w_copy_13(X& v, const X&) { IRUN(v.p) }
void s_w_copy_14(X& v, const X&) { IRUN(v.storage_.data()) }
void s_w_copy_15(X& v, const X&) { IRUNN(v.p) }
void s_w_copy_16(X& v, const X&) { IRUNN(v.storage_.data()) }
void s_w_allocate_1(X& v) { CHAIN(v.p) }
void s_w_allocate_2(X& v) { CHAIN(v.storage_.data()) }
void s_w_allocate_3(X& v) { CHAIN2(v.p) }
void s_w_allocate_4(X& v) { CHAIN2(v.storage_.data()) }
void s_w_allocate_5(X& v) { RUN(v.p) }
void s_w_allocate_6(X& v) { RUN(v.storage_.data()) }
void s_w_allocate_7(X& v) { CHAINN(v.p) }
void s_w_allocate_8(X& v) { CHAINN(v.storage_.data()) }
void s_w_allocate_9(X& v) { CHAIN2N(v.p) }
void s_w_allocate_10(X& v) { CHAIN2N(v.storage_.data()) }
void s_w_allocate_11(X& v) { RUNN(v.p) }
void s_w_allocate_12(X& v) { RUNN(v.storage_.data()) }
void s_w_allocate_13(X& v) { IRUN(v.p) }
void s_w_allocate_14(X& v) { IRUN(v.storage_.data()) }
void s_w_allocate_15(X& v) { IRUNN(v.p) }
void s_w_allocate_16(X& v) { IRUNN(v.storage_.data()) }
