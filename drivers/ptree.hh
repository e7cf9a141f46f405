// An opaque configuration tree in place of dune-common's: keys are string literals, so that which key is read where is visible.
#ifndef VT_PTREE_HH
#define VT_PTREE_HH
#define DUNE_PARAMETERTREE_HH
#include <string>
namespace Dune {
  struct ParameterTree { double pad[8];
    ParameterTree() noexcept; ParameterTree(const ParameterTree&) noexcept; ~ParameterTree() noexcept; ParameterTree& operator=(const ParameterTree&) noexcept;
    bool hasKey(const char*) const noexcept; bool hasSub(const char*) const noexcept;
    template<class T> T read(const char*) const noexcept; template<class T> T read(const char*, T) const noexcept;
    template<class T> T get(const char* k) const { return read<T>(k); } template<class T> T get(const char* k, std::type_identity_t<T> d) const { return read<T>(k, d); }
    int get(const char* k, int d) const { return read<int>(k, d); } bool get(const char* k, bool d) const { return read<bool>(k, d); } double get(const char* k, double d) const { return read<double>(k, d); } std::size_t get(const char* k, std::size_t d) const { return read<std::size_t>(k, d); }
    std::string get(const char*, const char*) const noexcept;
    const ParameterTree& sub(const char*) const noexcept; ParameterTree& sub(const char*) noexcept;
    std::string& operator[](const char*) noexcept; const std::string& operator[](const char*) const noexcept; };
}
#endif
