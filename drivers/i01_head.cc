// The banner of a Matrix Market file: which words select which kind of file.
#include <algorithm>
#include <complex>
#include <cstddef>
#include <fstream>
#include <ios>
#include <iostream>
#include <istream>
#include <limits>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#include <dune/common/exceptions.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/common/hybridutilities.hh>
#include <dune/common/stdstreams.hh>
#include <dune/common/typetraits.hh>
#include <dune/common/simd/simd.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixutils.hh>
namespace vt {
  struct SIt { char* p; typedef std::random_access_iterator_tag iterator_category; typedef char value_type; typedef std::ptrdiff_t difference_type; typedef char* pointer; typedef char& reference;
    char& operator*() const; SIt& operator++(); bool operator==(const SIt&) const; bool operator!=(const SIt&) const; };
  struct Q { bool is(unsigned long, const char*) const; char at(unsigned long, std::size_t) const; bool empty(unsigned long) const; std::size_t size(unsigned long) const; };
  extern const Q q;      // what a word is
  unsigned long text(const char*);
  struct Word { unsigned long id = 0;
    Word() = default; Word(const char* s) : id(text(s)) {}
    bool operator==(const char* s) const { return q.is(id, s); }
    char operator[](std::size_t k) const { return q.at(id, k); } char front() const { return q.at(id, 0); }
    bool empty() const { return q.empty(id); } std::size_t size() const { return q.size(id); } std::size_t length() const { return q.size(id); }
    SIt begin() { return {}; } SIt end() { return {}; }
    static const std::size_t npos = -1;
    std::size_t find_last_of(const char*) const; Word substr(std::size_t, std::size_t = npos) const; const char* c_str() const;
    friend Word operator+(const Word&, const Word&);
    friend std::ostream& operator<<(std::ostream&, const Word&);
  };
  struct In { int s[8];
    unsigned long word();
    In& operator>>(Word& w) { w.id = word(); return *this; }
    template<class T> In& operator>>(T& x) { number(); return *this; }
    void number();
    bool fail() const; bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); } bool eof() const; bool good() const;
    int peek(); int get(); In& ignore(std::streamsize = 1, int = 0); void clear(std::ios::iostate = {}); In& seekg(std::streamoff, std::ios::seekdir); };
  struct Out { int s[8];
    void put(const char*); void putword(unsigned long); void newline(); void number(long);
    Out& operator<<(const char* s) { put(s); return *this; }
    Out& operator<<(const Word& w) { putword(w.id); return *this; }
    template<class T> requires std::is_arithmetic_v<T> Out& operator<<(T x) { if(std::is_same_v<T,char>) newline(); else number(long(x)); return *this; }
    Out& operator<<(std::ostream& (*)(std::ostream&)) { newline(); return *this; }
    bool operator!() const; void flush(); };
  struct FileOut : Out { void open(const char*); void close(); void setf(std::ios::fmtflags, std::ios::fmtflags); void precision(int); };
  struct FileIn : In { void open(const char*, std::ios::openmode = std::ios::in); void close(); };
}
namespace std { typedef ::vt::In vt_istream; typedef ::vt::FileIn vt_ifstream; typedef ::vt::Word vt_string; typedef ::vt::Out vt_ostream; typedef ::vt::FileOut vt_ofstream;
  template<> vt::SIt transform(vt::SIt, vt::SIt, vt::SIt, int (*)(int) noexcept);
  template<> vt::SIt transform(vt::SIt, vt::SIt, vt::SIt, int (*)(int));
}
namespace Dune::MatrixMarketImpl { __attribute__((noinline)) inline bool lineFeed(vt::In& file); }
#define istream vt_istream
#define ifstream vt_ifstream
#define string vt_string
#define ostream vt_ostream
#define ofstream vt_ofstream
#include <dune/istl/matrixmarket.hh>
#undef istream
#undef ifstream
#undef string
#undef ostream
#undef ofstream
namespace MM = Dune::MatrixMarketImpl;
int k_banner(vt::In& s) {
  MM::MMHeader h; bool ok = MM::readMatrixMarketBanner(s, h);
  return ok ? 1 + 2*int(h.type) + 16*int(h.ctype) + 128*int(h.structure) : 0;
}
// the codes
#define CODE(w, e) int k_code_##w() { return MM::e; }
CODE(coordinate, coordinate_type) CODE(array, array_type) CODE(integer, integer_type) CODE(real, double_type) CODE(complex, complex_type) CODE(pattern, pattern)
CODE(general, general) CODE(symmetric, symmetric) CODE(skew, skew_symmetric) CODE(hermitian, hermitian)
// what is written
#define EMIT(name, ...) void k_emit_##name(vt::Out& o) { MM::mm_header_printer<__VA_ARGS__>::print(o); }
using namespace Dune;
EMIT(coordinate_real_d, BCRSMatrix<double>) EMIT(coordinate_real_f, BCRSMatrix<float>) EMIT(coordinate_integer_i, BCRSMatrix<int>) EMIT(coordinate_complex_d, BCRSMatrix<std::complex<double>>)
EMIT(coordinate_complex_f, BCRSMatrix<std::complex<float>>) EMIT(coordinate_real_b, BCRSMatrix<FieldMatrix<double,2,3>>) EMIT(coordinate_complex_b, BCRSMatrix<FieldMatrix<std::complex<double>,2,3>>)
EMIT(array_real_d, BlockVector<double>) EMIT(array_complex_d, BlockVector<std::complex<double>>) EMIT(array_integer_b, BlockVector<FieldVector<int,3>>) EMIT(array_real_b, BlockVector<FieldVector<float,3>>)
