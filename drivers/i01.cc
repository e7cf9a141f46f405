// Reading Matrix Market files with stand-ins for the stream, the containers and the numbers.  The stand-ins state what has to hold where a value
// taken from the stream is used; a statement that the optimiser cannot derive from the code in front of it leaves a call of vt_bad_* behind.
#include <algorithm>
#include <complex>
#include <cstddef>
#include <fstream>
#include <ios>
#include <iostream>
#include <istream>
#include <limits>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#include <dune/common/exceptions.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/common/hybridutilities.hh>
#include <dune/common/stdstreams.hh>
#include <dune/common/typetraits.hh>
#include <dune/common/simd/simd.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixutils.hh>
typedef std::size_t sz;
#define CONST __attribute__((const))
extern "C" {
  CONST sz vt_num(sz tick); CONST bool vt_fails(sz tick); CONST int vt_peek(sz tick); CONST bool vt_eof(sz tick); CONST double vt_dbl(sz tick);
  CONST sz vt_index(sz row, sz k); CONST sz vt_len(sz row);
  [[noreturn]] void vt_bad_row(); [[noreturn]] void vt_bad_column(); [[noreturn]] void vt_bad_unread(); [[noreturn]] void vt_bad_entry();
  [[noreturn]] void vt_bad_lost(); [[noreturn]] void vt_bad_count(); [[noreturn]] void vt_bad_block(); [[noreturn]] void vt_bad_value();
  [[noreturn]] void vt_bad_dimension();
}
extern char vt_sets[], vt_cells[];
#define MUST(what, c) do { if(!(c)) vt_bad_##what(); } while(0)
namespace vt {
  constexpr sz LIM = sz(1) << 40;
  struct In; template<int P, class V> struct Part;
  // number: where it comes from.  K: 0 general 1 symmetric 2 skew symmetric 3 hermitian
  template<int K, int A, int B> struct F { bool ok = false, neg = false, cj = false; sz r = 0, c = 0, seq = 0; In* in = nullptr;
    F operator-() const { F x = *this; x.neg = !neg; return x; }
    auto real() const { return Part<0,F>{*this}; } auto imag() const { return Part<1,F>{*this}; } };
  struct In {
    bool bad = false; sz tick = 0, q = 0, r = 0, c = 0, third = 0, read = 0; double d1 = 0, d2 = 0; bool main = false, mirror = false;
    void next() { ++tick; bad |= vt_fails(tick); }
    void number(sz v) { q = r; r = c; c = v; }
    In& operator>>(sz& x) { next(); x = vt_num(tick); number(x); return *this; }
    template<class T> requires std::is_integral_v<T> In& operator>>(T& x) { next(); x = T(vt_num(tick)); number(sz(x)); return *this; }
    In& operator>>(double& x) { next(); x = vt_dbl(tick); d1 = d2; d2 = x; return *this; }
    In& operator>>(std::string& x);
    template<int K, int A, int B> friend In& operator>>(In& s, F<K,A,B>& x) {
      s.next();
      if constexpr (K>=0) { MUST(lost, !s.main && !s.mirror); s.main = true; s.mirror = K>0 && s.r!=s.c; }
      x = F<K,A,B>{!s.bad, false, false, s.r, s.c, s.read, &s}; ++s.read;
      return s; }
    bool fail() const { return bad; }
    bool operator!() const { return bad; }
    explicit operator bool() const { return !bad; }
    bool eof() const { return vt_eof(tick); }
    bool good() const { return !bad && !eof(); }
    int peek() { return vt_peek(tick); }
    int get() { return vt_peek(tick++); }
    In& ignore(std::streamsize = 1, int = 0) { ++tick; return *this; }
    void clear(std::ios::iostate = {}) { bad = false; }
    void setstate(std::ios::iostate) { bad = true; }
    In& seekg(std::streamoff, std::ios::seekdir) { ++tick; return *this; }
  };
  struct FileIn : In { void open(const char*, std::ios::openmode = std::ios::in); void close(); };
}
static sz printed;      // entries written since the last block
namespace vt {
  template<int P, class V> struct Part { V v; };
  struct Out {
    sz a = 0, b = 0, c = 0, rows = 0, cols = 0, nnz = 0, count = 0; bool matrix = false, re = false, h1 = false, h2 = false, h3 = false;
    template<int K, int A, int B> void entry(const F<K,A,B>& v) { if(matrix) MUST(entry, b == v.r+1 && c == v.c+1); else MUST(entry, v.seq == count); ++printed; ++count; }
    void end() { if(!h1) h1 = true; else if(!h2) h2 = true; else if(!h3) { h3 = true; if(matrix) MUST(dimension, a == rows && b == cols && c == nnz); else MUST(dimension, b == rows && c == 1); } }
    template<class T> requires std::is_integral_v<T> Out& operator<<(T x) { if constexpr (std::is_same_v<T,char>) { if(x == '\n') end(); } else { a = b; b = c; c = sz(x); } return *this; }
    template<std::size_t N> Out& operator<<(const char (&s)[N]) { if(N > 1 && s[N-2] == '\n') end(); return *this; }
    Out& operator<<(const std::string&) { return *this; }
    Out& operator<<(std::ostream& (*)(std::ostream&)) { end(); return *this; }
    template<int K, int A, int B> Out& operator<<(const F<K,A,B>& v) { MUST(value, K != -2 || !matrix); entry(v); return *this; }
    template<int P, class V> Out& operator<<(const Part<P,V>& v) { MUST(value, re == (P==1)); re = P==0; if(P==0) entry(v.v); return *this; }
    bool operator!() const; void flush(); };
  struct FileOut : Out { void open(const char*); void close(); void setf(std::ios::fmtflags, std::ios::fmtflags); void precision(int); };
}
namespace std { typedef ::vt::In vt_istream; typedef ::vt::Out vt_ostream; typedef ::vt::FileOut vt_ofstream; typedef ::vt::FileIn vt_ifstream;
  template<int K, int A, int B> vt::F<K,A,B> conj(const vt::F<K,A,B>& x) { auto y = x; y.cj = !x.cj; return y; } }
namespace Dune {
  template<int K, int A, int B> struct IsNumber<vt::F<K,A,B>> : std::true_type {};
  namespace MatrixMarketImpl { struct MMHeader; __attribute__((noinline)) inline bool readMatrixMarketBanner(vt::In& file, MMHeader& mmHeader); }
}
#define istream vt_istream
#define ifstream vt_ifstream
#define ostream vt_ostream
#define ofstream vt_ofstream
#include <dune/istl/matrixmarket.hh>
#undef istream
#undef ifstream
#undef ostream
#undef ofstream
using Dune::FieldMatrix; using Dune::FieldVector; using Dune::BCRSMatrix; using Dune::BlockVector;
namespace MM = Dune::MatrixMarketImpl;
namespace Dune::MatrixMarketImpl {
  template<int K, int A, int B> struct mm_numeric_type<vt::F<K,A,B>> { enum { is_numeric = true }; static std::string str() { return "real"; } };
  template<int K, int A, int B> struct is_complex<vt::F<K,A,B>> : std::bool_constant<(K>=0 || K==-2 || K==-4)> {};
}
namespace vt {
  template<int K, int A, int B> using ID = MM::IndexData<MM::NumericWrapper<F<K,A,B>>>;
  inline sz g_cols, g_n;      // of the matrix that is read
}
static sz cur_row, cur_at, seen_rows;      // pattern: entry looked at last; rows of the block row looked at
static bool pending;
namespace std {
  template<int K, int A, int B> class set<vt::ID<K,A,B>> {
  public:
    char here;
    typedef vt::ID<K,A,B> D; typedef D value_type, key_type; typedef sz size_type;
    struct const_iterator { sz row, k; D d;
      const D& operator*() { load(); return d; } const D* operator->() { load(); return &d; }
      void load() { d.index = vt_index(row, k); d.number.r = row; d.number.c = d.index; d.number.ok = true; cur_row = row; cur_at = d.index; }
      const_iterator& operator++() { ++k; return *this; } const_iterator operator++(int) { auto t = *this; ++k; return t; }
      bool operator==(const const_iterator& o) const { return k == o.k; } bool operator!=(const const_iterator& o) const { return k != o.k; } };
    typedef const_iterator iterator;
    sz row() const { return &here - vt_sets; }
    const_iterator begin() const { return {row(), 0, {}}; } const_iterator end() const { return {row(), vt_len(row()), {}}; }
    const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    sz size() const { return vt_len(row()); } bool empty() const { return vt_len(row()) == 0; }
    std::pair<iterator,bool> insert(const D& d) { put(d); return {}; }
    std::pair<iterator,bool> emplace(const D& d) { put(d); return {}; }
    void put(const D& d) {
      const auto& v = d.number;
      MUST(unread, v.ok);
      if constexpr (K<0) return;
      vt::In& s = *v.in;
      MUST(column, d.index < vt::g_cols);
      if(s.main && row() == v.r-1 && d.index == v.c-1 && !v.neg && !v.cj) s.main = false;
      else { MUST(entry, s.mirror && row() == v.c-1 && d.index == v.r-1 && v.neg == (K==2) && v.cj == (K==3)); s.mirror = false; }
    }
  };
  template<int K, int A, int B> class vector<set<vt::ID<K,A,B>>> {
  public:
    typedef set<vt::ID<K,A,B>> S; typedef S value_type; typedef sz size_type; typedef S& reference; typedef const S& const_reference;
    sz n;
    explicit vector(sz k) : n(k) {}
    sz size() const { return n; }
    S& operator[](sz i) { if constexpr (K>=0) MUST(row, i < n || i/A < vt::g_n); return at0(i); } const S& operator[](sz i) const { if constexpr (K>=0) MUST(row, i < n || i/A < vt::g_n); return at0(i); }
    S& at(sz i) { if(i>=n) throw 1; return at0(i); } const S& at(sz i) const { if(i>=n) throw 1; return at0(i); }
    static S& at0(sz i) { return *(S*)(vt_sets + i); }
    S* begin() { return &at0(0); } S* end() { return &at0(n); } const S* begin() const { return &at0(0); } const S* end() const { return &at0(n); }
  };
}
// ------------------------------------------------------------------------------------------- matrices
namespace vt {
  // where a value is written
  template<int K, int A, int B> struct Cell { sz r, c; void operator=(const F<K,A,B>& v) { if constexpr (K>=0) MUST(value, v.ok && v.r == r && v.c == c); } };
  template<int K, int A, int B> struct BRow { sz r, c; Cell<K,A,B> operator[](sz k) { if constexpr (K>=0) MUST(block, k < B); return {r, c+k}; } };
  template<int K, int A, int B> struct Block { sz r, c; BRow<K,A,B> operator[](sz k) { if constexpr (K>=0) MUST(block, k < A); return {r+k, c}; } };
  template<class T, int K, int A, int B> struct Mat {
    static constexpr int a = A, b = B;
    typedef std::conditional_t<Dune::IsNumber<T>::value, Cell<K,A,B>, Block<K,A,B>> Ent;
    typedef F<K,A,B> field_type; typedef T block_type; typedef sz size_type; enum BuildMode { row_wise, random, implicit, unknown };
    sz n, m; 
    Mat() = default;
    Mat(sz N, sz M) : n(N), m(M) { g_n = N; g_cols = M*b; }
    sz N() const { return n; } sz M() const { return m; }
    In* in = nullptr;
    void setSize(sz N, sz M, sz = 0) { MUST(unread, !in->bad); MUST(dimension, N == in->q/a && M == in->r/b && in->q%a == 0 && in->r%b == 0);
      n = N; m = M; g_n = N; g_cols = M*b; in->third = in->c; in->read = 0; }
    void setBuildMode(BuildMode) {}
    void operator=(int) {}
    void operator=(double) {}
    struct CreateIterator { sz i; Mat* M;
      sz index() const { __builtin_assume(i < LIM && i < g_n); return i; }
      void insert(sz j) { if constexpr (K>=0) MUST(block, j == cur_at/b && i == cur_row/a); }
      CreateIterator& operator++() { ++i; return *this; }
      bool operator==(const CreateIterator& o) const { return i == o.i; } bool operator!=(const CreateIterator& o) const { return i != o.i; } };
    CreateIterator createbegin() { return {0, this}; } CreateIterator createend() { return {n, this}; }
    struct Row { sz i; Ent operator[](sz j) { return {i*A, j*B}; } };
    struct Iterator { sz i; Row row;
      sz index() const { __builtin_assume(i < LIM && i < g_n); return i; }
      Row& operator*() { row.i = i; return row; } Row* operator->() { row.i = i; return &row; }
      Iterator& operator++() { ++i; return *this; }
      bool operator==(const Iterator& o) const { return i == o.i; } bool operator!=(const Iterator& o) const { return i != o.i; } };
    typedef Iterator iterator; typedef Iterator RowIterator;
    Iterator begin() { return {0, {}}; } Iterator end() { return {n, {}}; }
    Row operator[](sz i) { return {i}; }
    // for writing
    template<class E> struct It { sz i; E e; E& operator*() { return e; } E* operator->() { return &e; } sz index() const { return i; } bool operator!=(const It& o) const { return i != o.i; } bool operator==(const It& o) const { return i == o.i; } };
    struct CCell : It<F<K,A,B>> { CCell(sz r, sz c, sz k) { this->i = k; this->e = F<K,A,B>{true, false, false, r, c+k}; } CCell& operator++() { ++this->i; ++this->e.c; return *this; } };
    struct CRow { sz r, c; typedef CCell const_iterator; CCell begin() const { return {r, c, 0}; } CCell end() const { return {r, c, B}; } };
    struct CRowIt : It<CRow> { CRowIt(sz r, sz c, sz k) { this->i = k; this->e = {r+k, c}; } CRowIt& operator++() { ++this->i; ++this->e.r; return *this; } };
    struct CBlock { sz r, c; CRowIt begin() const { return {r, c, 0}; } CRowIt end() const { return {r, c, A}; } typedef CRowIt const_iterator; };
    typedef std::conditional_t<Dune::IsNumber<T>::value, F<K,A,B>, CBlock> CEnt;
    static CEnt make(sz i, sz j) { if constexpr (Dune::IsNumber<T>::value) return F<K,A,B>{true, false, false, i, j}; else return {i*A, j*B}; }
    struct ConstColIterator : It<CEnt> { sz row, k; ConstColIterator(sz r, sz p) : row(r), k(p) { set(); } void set() { this->i = vt_index(row, k); this->e = make(row, this->i); }
      ConstColIterator& operator++() { MUST(lost, printed == A*B); printed = 0; ++k; set(); return *this; } bool operator!=(const ConstColIterator& o) const { return k != o.k; } bool operator==(const ConstColIterator& o) const { return k == o.k; } };
    struct CMRow { sz r; typedef ConstColIterator const_iterator; typedef ConstColIterator ConstIterator; ConstColIterator begin() const { return {r, 0}; } ConstColIterator end() const { return {r, vt_len(r)}; } };
    struct const_iterator : It<CMRow> { const_iterator(sz k) { this->i = k; this->e = {k}; } const_iterator& operator++() { ++this->i; this->e.r = this->i; return *this; } };
    typedef const_iterator ConstRowIterator; typedef const_iterator ConstIterator;
    const_iterator begin() const { return {0}; } const_iterator end() const { return {n}; }
    sz nonzeroes() const { return vt_len(1234567); }
  };
}
namespace Dune {
  template<int K> class BCRSMatrix<vt::F<K,1,1>, std::allocator<vt::F<K,1,1>>> : public vt::Mat<vt::F<K,1,1>,K,1,1> { public:
    using Base = vt::Mat<vt::F<K,1,1>,K,1,1>; using Base::Base; using Base::operator=; };
  template<int K, int A, int B> class BCRSMatrix<FieldMatrix<vt::F<K,A,B>,A,B>, std::allocator<FieldMatrix<vt::F<K,A,B>,A,B>>> : public vt::Mat<FieldMatrix<vt::F<K,A,B>,A,B>,K,A,B> { public:
    using Base = vt::Mat<FieldMatrix<vt::F<K,A,B>,A,B>,K,A,B>; using Base::Base; using Base::operator=; };
}
namespace vt {
  constexpr MM::MM_STRUCTURE kind[] = {MM::general, MM::symmetric, MM::skew_symmetric, MM::hermitian};
  template<class T, int K, int A, int B> inline void entries(sz N, sz M, sz n) {
    __builtin_assume(N < LIM && M < LIM);
    BCRSMatrix<T> X(N, M); In s; MM::MMHeader h; h.structure = kind[K]; h.ctype = MM::complex_type;
    MM::readSparseEntries(X, s, n, h, MM::NumericWrapper<F<K,A,B>>());
    MUST(lost, !s.main && !s.mirror);
    MUST(count, s.read == n);
  }
}
#define K_ENTRIES(name, k) \
  void k_read_scalar_##name(sz N, sz M, sz n) { vt::entries<vt::F<k,1,1>,k,1,1>(N, M, n); } \
  void k_read_block_##name(sz N, sz M, sz n) { vt::entries<FieldMatrix<vt::F<k,2,4>,2,4>,k,2,4>(N, M, n); } \
  void k_read_tall_##name(sz N, sz M, sz n) { vt::entries<FieldMatrix<vt::F<k,4,2>,4,2>,k,4,2>(N, M, n); }
K_ENTRIES(general, 0) K_ENTRIES(symmetric, 1) K_ENTRIES(skew, 2) K_ENTRIES(hermitian, 3)

// the whole of a file: dimensions and number of entries
template<class T> inline void vt_file(vt::In& s) {
  BCRSMatrix<T> X; X.in = &s;
  Dune::readMatrixMarket(X, s);
  MUST(count, s.read == s.third);
}
void k_file_scalar(vt::In& s) { vt_file<vt::F<-1,1,1>>(s); }
void k_file_block(vt::In& s) { vt_file<FieldMatrix<vt::F<-1,2,4>,2,4>>(s); }
void k_file_tall(vt::In& s) { vt_file<FieldMatrix<vt::F<-1,4,2>,4,2>>(s); }
// what the header says about the entries
extern "C" { [[noreturn]] void vt_bad_format(); [[noreturn]] void vt_bad_type(); [[noreturn]] void vt_bad_pattern(); }
namespace Dune::MatrixMarketImpl {
  template<> void readSparseEntries(BCRSMatrix<vt::F<-3,1,1>>&, vt::In& s, std::size_t n, const MMHeader& h, const NumericWrapper<vt::F<-3,1,1>>&) {
    MUST(count, n == s.third); MUST(format, h.type != array_type); MUST(pattern, h.ctype != pattern); MUST(type, h.ctype != complex_type); }
  template<> void readSparseEntries(BCRSMatrix<vt::F<-4,1,1>>&, vt::In& s, std::size_t n, const MMHeader& h, const NumericWrapper<vt::F<-4,1,1>>&) {
    MUST(count, n == s.third); MUST(format, h.type != array_type); MUST(type, h.ctype == complex_type); }
}
void k_type_real(vt::In& s) { BCRSMatrix<vt::F<-3,1,1>> X; X.in = &s; Dune::readMatrixMarket(X, s); }
void k_type_complex(vt::In& s) { BCRSMatrix<vt::F<-4,1,1>> X; X.in = &s; Dune::readMatrixMarket(X, s); }
// complex numbers: index, real part, imaginary part
void k_complex(vt::In& s) {
  MM::IndexData<MM::NumericWrapper<std::complex<double>>> d; 
  s >> d;
  if(!s.bad) { MUST(column, d.index == s.c-1);
    MUST(value, __builtin_bit_cast(sz, d.number.real()) == __builtin_bit_cast(sz, s.d1) && __builtin_bit_cast(sz, d.number.imag()) == __builtin_bit_cast(sz, s.d2)); }
}
// ------------------------------------------------------------------------------------------- vectors
namespace vt {
  template<int B> struct VCell { sz at; In* in;
    template<int K> void operator=(const F<K,B,1>& v) { put(*in, v); }
    template<int K> void put(In& s, const F<K,B,1>& v) { MUST(unread, v.ok); MUST(row, at < s.third); MUST(value, v.seq == at); s.main = false; }
    friend In& operator>>(In& s, VCell c) { F<0,B,1> v; s >> v; if(!s.bad) c.put(s, v); return s; } };
  template<int B> struct VBlock { sz at; In* in; VCell<B> operator[](sz k) { MUST(block, k < B); return {at+k, in}; } };
  template<class T, int B> struct Vec {
    typedef F<0,B,1> field_type; typedef T block_type; typedef T value_type; typedef sz size_type;
    In* in; sz n;
    void resize(sz k) { MUST(unread, !in->bad); MUST(dimension, k == in->r/B && in->r%B == 0 && in->c == 1); n = k; in->third = in->r; in->read = 0; in->main = false; in->mirror = false; }
    std::conditional_t<B==0, VBlock<B>, std::conditional_t<Dune::IsNumber<T>::value, VCell<B>, VBlock<B>>> operator[](sz i) { return {i*B, in}; }
    sz size() const { return n; } sz N() const { return n; }
    // for writing
    struct CIt { sz i; F<0,B,1> e; CIt(sz k) : i(k) { e.seq = k; } F<0,B,1>& operator*() { return e; } F<0,B,1>* operator->() { return &e; } CIt& operator++() { ++i; e.seq = i; return *this; } bool operator!=(const CIt& o) const { return i != o.i; } };
    struct CVB { sz at; typedef F<0,B,1> block_type; typedef F<0,B,1> field_type;
      struct const_iterator { sz i, at; F<0,B,1> e; const_iterator(sz k, sz a) : i(k), at(a) { e.seq = a+k; } F<0,B,1>& operator*() { return e; } F<0,B,1>* operator->() { return &e; } const_iterator& operator++() { ++i; e.seq = at+i; return *this; } bool operator!=(const const_iterator& o) const { return i != o.i; } };
      const_iterator begin() const { return {0, at}; } const_iterator end() const { return {B, at}; } sz size() const { return B; } };
    struct CBIt { sz i; CVB e; CBIt(sz k) : i(k), e{k*B} {} CVB& operator*() { return e; } CVB* operator->() { return &e; } CBIt& operator++() { ++i; e.at = i*B; return *this; } bool operator!=(const CBIt& o) const { return i != o.i; } };
    typedef std::conditional_t<Dune::IsNumber<T>::value, CIt, CBIt> const_iterator;
    const_iterator begin() const { return {0}; } const_iterator end() const { return {n}; }
  };
}
namespace Dune {
  template<> class BlockVector<vt::F<0,1,1>, std::allocator<vt::F<0,1,1>>> : public vt::Vec<vt::F<0,1,1>,1> {};
  template<> class BlockVector<FieldVector<vt::F<0,4,1>,4>, std::allocator<FieldVector<vt::F<0,4,1>,4>>> : public vt::Vec<FieldVector<vt::F<0,4,1>,4>,4> {};
}
template<class T> inline void vt_vector(vt::In& s) {
  BlockVector<T> v; v.in = &s;
  Dune::readMatrixMarket(v, s);
  MUST(count, s.read == s.third && !s.main);
}
void k_vector_scalar(vt::In& s) { vt_vector<vt::F<0,1,1>>(s); }
void k_vector_block(vt::In& s) { vt_vector<FieldVector<vt::F<0,4,1>,4>>(s); }

// ------------------------------------------------------------------------------------------- writing
namespace vt { template<class T> sz countNonZeros(const BCRSMatrix<T>&) { return vt_len(7654321); } }
template<class T, int A, int B> inline void vt_write(sz n, sz m) {
  vt::Out o; o.matrix = true; o.rows = n*A; o.cols = m*B; o.nnz = vt_len(7654321);
  BCRSMatrix<T> X; X.n = n; X.m = m; printed = 0;
  Dune::writeMatrixMarket(X, o);
  MUST(count, o.h3);
}
void k_write_scalar(sz n, sz m) { vt_write<vt::F<-1,1,1>,1,1>(n, m); }
void k_write_complex(sz n, sz m) { vt_write<vt::F<-2,1,1>,1,1>(n, m); }
void k_write_block(sz n, sz m) { vt_write<FieldMatrix<vt::F<-1,2,4>,2,4>,2,4>(n, m); }
void k_write_cblock(sz n, sz m) { vt_write<FieldMatrix<vt::F<-2,2,4>,2,4>,2,4>(n, m); }
template<class T, int B> inline void vt_writev(sz n) {
  vt::Out o; o.rows = n*B; BlockVector<T> v; v.n = n; 
  Dune::writeMatrixMarket(v, o);
  MUST(count, o.count == n*B);
}
void k_writev_scalar(sz n) { vt_writev<vt::F<0,1,1>,1>(n); }
void k_writev_block(sz n) { vt_writev<FieldVector<vt::F<0,4,1>,4>,4>(n); }
