// Stand-ins for the communication layer of dune-common: interfaces remember what they were built from; the parallel index set
// is an array of index pairs with a sequence number.
#ifndef VT_PAR_STUB_HH
#define VT_PAR_STUB_HH
#include "config.h"
#include <mpi.h>
#include <cstddef>
#include <map>
#include <memory>
#define DUNE_COMMON_PARALLEL_INTERFACE_HH
#define DUNE_COMMON_PARALLEL_COMMUNICATOR_HH
#define DUNE_PARALLEL_REMOTEINDICES_HH
#define DUNE_REMOTEINDICES_HH
#define DUNE_COMMON_PARALLEL_REMOTEINDICES_HH
#include <dune/common/enumset.hh>
#include <dune/common/parallel/indexset.hh>
#include <dune/common/parallel/plocalindex.hh>
#include <dune/common/parallel/mpicommunication.hh>
#include "opaque_block.hh"
namespace vt {
  struct G { long v; friend bool operator==(const G& a, const G& b) { return a.v==b.v; } friend bool operator!=(const G& a, const G& b) { return a.v!=b.v; }
    friend bool operator<(const G& a, const G& b) { return a.v<b.v; } };
  enum Att { owner = 1, overlap = 2, copy = 4 };
  void fail(int) noexcept;                       // never reachable
  void exchange(int from, int to, int state) noexcept;      // one exchange between the given index classes, as of the given state of the index set
  std::size_t sent() noexcept;                   // an index of the sending side
  std::size_t received() noexcept;               // an index of the receiving side
  void wire(double) noexcept; double wire() noexcept;
}
namespace Dune {
  template<class G, class L> class OwnerOverlapCopyCommunication;
  template<class L> class ParallelIndexSet<vt::G,L,512> { public:
    using GlobalIndex = vt::G; using LocalIndex = L; using IndexPair = Dune::IndexPair<vt::G,L>;
    using iterator = IndexPair*; using const_iterator = const IndexPair*;
    IndexPair* first; IndexPair* last; int seq; double pad[3];
    ParallelIndexSet(); ~ParallelIndexSet();
    const_iterator begin() const { return first; } const_iterator end() const { return last; }
    iterator begin() { return first; } iterator end() { return last; }
    int seqNo() const { return seq; } std::size_t size() const { return last-first; }
    void beginResize(); void endResize(); void add(const vt::G& g, const L& l) { enter(&g, l.local(), l.attribute(), l.isPublic()); } void enter(const vt::G*, std::size_t, int, bool) noexcept; void renumberLocal(); };
  template<class L> class GlobalLookupIndexSet<ParallelIndexSet<vt::G,L,512>> { public: using P = ParallelIndexSet<vt::G,L,512>;
    GlobalLookupIndexSet(const P&); GlobalLookupIndexSet(const P&, std::size_t); ~GlobalLookupIndexSet(); double pad[4]; };
  struct SizeOne {}; struct VariableSize {};
  template<class V> struct CommPolicy { using Type = V; using IndexedType = typename V::value_type; using IndexedTypeFlag = SizeOne; };
  template<class P, class A = int> class RemoteIndices;
  template<class T, class Att> struct RemoteIndex { Att att; const void* p; template<class A> RemoteIndex(A a, const void* q) : att(Att(a)), p(q) {} 
    RemoteIndex() {} Att attribute() const { return att; } const typename T::IndexPair& localIndexPair() const { return *(const typename T::IndexPair*)p; } };
  template<class P, class A, bool b> class RemoteIndexListModifier { public: using RX = RemoteIndex<P,int>; double pad[3];
    RemoteIndexListModifier(); RemoteIndexListModifier(const RemoteIndexListModifier&); ~RemoteIndexListModifier(); RemoteIndexListModifier& operator=(const RemoteIndexListModifier&);
    template<class R> void insert(const R& r) { add(r.att, r.p); } void add(int, const void*) noexcept; };
  template<class P, class A> class RemoteIndices { public: using Allocator = int; using ParallelIndexSet = P; using RemoteIndex = Dune::RemoteIndex<P,int>; 
    struct RemoteIndexList { using const_iterator = const RemoteIndex*; const_iterator begin() const; const_iterator end() const; };
    using const_iterator = const std::pair<const int,std::pair<RemoteIndexList*,RemoteIndexList*>>*;
    const_iterator begin() const noexcept; const_iterator end() const noexcept;
    int seq; double pad[3];
    RemoteIndices(); RemoteIndices(const P&, const P&, MPI_Comm); ~RemoteIndices(); void setIndexSets(const P&, const P&, MPI_Comm); void free();
    template<bool> void rebuild();
    bool isSynced() const noexcept;
    template<bool m, bool s> RemoteIndexListModifier<P,int,m> getModifier(int); };
  class Interface { public: const void* ri; int state, from, to, seq;
    Interface() : ri(0), state(0), from(0), to(0), seq(0) {} ~Interface() { }
    template<class R, class S, class D> void build(const R& r, const S&, const D&) {
      using E = typename R::ParallelIndexSet::LocalIndex::Attribute; constexpr E a = E(1), b = E(2), c = E(3);
      ri = &r; state = 1; seq = r.seq; from = (S::contains(a)?1:0) + (S::contains(b)?2:0) + (S::contains(c)?4:0); to = (D::contains(a)?1:0) + (D::contains(b)?2:0) + (D::contains(c)?4:0); }
    void free() { state = 0; } };
  class BufferedCommunicator { public: const Interface* f = 0;
    template<class T> void build(const Interface& i) { if (i.state!=1) vt::fail(1); f = &i; }
    template<class T> void build(const T&, const T&, const Interface& i) { build<T>(i); }
    template<class GS, class T> void go(const T& s, T& d, int a, int b) {
      vt::exchange(a, b, f->seq);
      vt::wire(GS::gather(s, vt::sent())); GS::scatter(d, vt::wire(), vt::received()); }
    template<class GS, class T> void forward(const T& s, T& d) { if (!f) vt::fail(2); else if (f->state!=1) vt::fail(3); else go<GS>(s, d, f->from, f->to); }
    template<class GS, class T> void backward(T& s, const T& d) { if (!f) vt::fail(2); else if (f->state!=1) vt::fail(3); else go<GS>(d, s, f->to, f->from); }
    template<class GS, class T> void forward(T& d) { forward<GS,T>(d, d); }
    template<class GS, class T> void backward(T& d) { backward<GS,T>(d, d); }
    void free() { f = 0; } ~BufferedCommunicator() { } };
}
#endif
