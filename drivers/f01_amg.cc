// Multigrid configured by a tree: k_ library, s_ the documented meaning of every key.
#include "config.h"
#include <sstream>
#include "ptree.hh"
namespace std { template<> bool operator==(const std::string&, const char*); }
#include "a01_types.hh"
using V = vt::LVec; using PT = Dune::ParameterTree;
template<int> struct Al : std::allocator<vt::LVec> {};
template<int k> using AMG = Dune::Amg::AMG<vt::Op,V,vt::Sm,vt::PI,Al<k>>;
using A0 = AMG<0>; using A1 = AMG<1>; using A2 = AMG<2>;
template<class T> using sp = std::shared_ptr<T>; using OpP = sp<const vt::Op>;
namespace DA = Dune::Amg;
namespace vt { struct Crit { double pad[9];
  void setMaxLevel(int) noexcept; void setMinCoarsenRate(double) noexcept; void setCoarsenTarget(int) noexcept; void setAccumulate(DA::AccumulationMode) noexcept; void setProlongationDampingFactor(double) noexcept;
  void setDefaultValuesIsotropic(std::size_t, std::size_t) noexcept; void setDefaultValuesAnisotropic(std::size_t, std::size_t) noexcept; void setMaxDistance(std::size_t) noexcept; void setMinAggregateSize(std::size_t) noexcept;
  void setMaxAggregateSize(std::size_t) noexcept; void setMaxConnectivity(std::size_t) noexcept; void setAlpha(double) noexcept; void setBeta(double) noexcept; void setGamma(std::size_t) noexcept; void setAdditive(bool) noexcept;
  void setNoPreSmoothSteps(std::size_t) noexcept; void setNoPostSmoothSteps(std::size_t) noexcept; void setDebugLevel(int) noexcept;
  std::size_t getGamma() const noexcept; bool getAdditive() const noexcept; std::size_t getNoPreSmoothSteps() const noexcept; std::size_t getNoPostSmoothSteps() const noexcept; }; }
template<> std::string A0::ToLower::operator()(const std::string&); template<> std::string A2::ToLower::operator()(const std::string&);
#define MAKE(...) template<> template<> void A0::createCriterionAndHierarchies<__VA_ARGS__>(OpP, const vt::PI&, const __VA_ARGS__&, const PT&, std::true_type);
MAKE(DA::Diagonal<0>) MAKE(DA::Diagonal<1>) MAKE(DA::Diagonal<2>) MAKE(DA::Diagonal<3>) MAKE(DA::Diagonal<4>) MAKE(DA::RowSum) MAKE(DA::FrobeniusNorm) MAKE(DA::AlwaysOneNorm)
template<class N> using Sym = DA::CoarsenCriterion<DA::SymmetricCriterion<vt::LMat,N>>; template<class N> using Uns = DA::CoarsenCriterion<DA::UnSymmetricCriterion<vt::LMat,N>>;
template<> template<> void A1::createHierarchies<Sym<DA::RowSum>>(Sym<DA::RowSum>&, OpP, const vt::PI&, const PT&);
template<> template<> void A1::createHierarchies<Uns<DA::RowSum>>(Uns<DA::RowSum>&, OpP, const vt::PI&, const PT&);
template<> template<> void A2::createHierarchies<vt::Crit>(vt::Crit&, const OpP&, const vt::PI&);
extern "C" {
#define OFF(c, f) void* off_##c##_##f(c& a) { return &a.f; }
 OFF(A2,gamma_) OFF(A2,additive) OFF(A2,preSteps_) OFF(A2,postSteps_) OFF(A2,verbosity_) OFF(A0,buildHierarchy_) OFF(A0,coarsesolverconverged)
 void* off_A0_iterations(A0& a) { return &a.smootherArgs_.iterations; } void* off_A0_relaxationFactor(A0& a) { return &a.smootherArgs_.relaxationFactor; }
}
void k_ctor(A0* p, OpP op, const PT& c, const vt::PI& pi) { new (p) A0(op, c, pi); }
void s_ctor(A0* p, OpP op, const PT& c, const vt::PI& pi) {
  pi.category(); p->buildHierarchy_ = true; p->coarsesolverconverged = true; 
  if (c.hasKey("smootherIterations")) p->smootherArgs_.iterations = c.get<int>("smootherIterations"); else p->smootherArgs_.iterations = 1;
  if (c.hasKey("smootherRelaxation")) p->smootherArgs_.relaxationFactor = c.get<double>("smootherRelaxation"); else p->smootherArgs_.relaxationFactor = 1.0;
  std::string n = A0::ToLower()(c.get("strengthMeasure", "diagonal")); int k = c.get<int>("diagonalRowIndex", 0);
  if (n == "diagonal") switch (k) {
    case 0: p->createCriterionAndHierarchies(op, pi, DA::Diagonal<0>(), c, std::true_type()); break;
    case 1: p->createCriterionAndHierarchies(op, pi, DA::Diagonal<1>(), c, std::true_type()); break;
    case 2: p->createCriterionAndHierarchies(op, pi, DA::Diagonal<2>(), c, std::true_type()); break;
    case 3: p->createCriterionAndHierarchies(op, pi, DA::Diagonal<3>(), c, std::true_type()); break;
    case 4: p->createCriterionAndHierarchies(op, pi, DA::Diagonal<4>(), c, std::true_type()); break;
    default: throw Dune::InvalidStateException();
  } else if (n == "rowsum") p->createCriterionAndHierarchies(op, pi, DA::RowSum(), c, std::true_type());
  else if (n == "frobenius") p->createCriterionAndHierarchies(op, pi, DA::FrobeniusNorm(), c, std::true_type());
  else if (n == "one") p->createCriterionAndHierarchies(op, pi, DA::AlwaysOneNorm(), c, std::true_type());
  else throw Dune::InvalidStateException();
}
void k_crit(A1* p, OpP op, const PT& c, const vt::PI& pi) { p->createCriterionAndHierarchies(op, pi, DA::RowSum(), c, std::true_type()); }
void s_crit(A1* p, OpP op, const PT& c, const vt::PI& pi) {
  if (c.get<bool>("criterionSymmetric", true)) { Sym<DA::RowSum> cr; p->createHierarchies(cr, op, pi, c); } else { Uns<DA::RowSum> cr; p->createHierarchies(cr, op, pi, c); }
}
void k_keys(A2* p, vt::Crit& k, OpP op, const PT& c, const vt::PI& pi) { p->createHierarchies(k, op, pi, c); }
// one specification per parameter; each ends with building the hierarchies
#define KEY(key, T, fn) if (c.hasKey(key)) k.fn(c.get<T>(key));
#define GROUP(nm, ...) void s_keys_##nm(A2* p, vt::Crit& k, OpP op, const PT& c, const vt::PI& pi) { __VA_ARGS__ p->createHierarchies(k, op, pi); }
GROUP(level, KEY("maxLevel", int, setMaxLevel)) GROUP(rate, KEY("minCoarseningRate", double, setMinCoarsenRate)) GROUP(target, KEY("coarsenTarget", int, setCoarsenTarget))
GROUP(accumulation, if (c.hasKey("accumulationMode")) {
    std::string m = A2::ToLower()(c.get<std::string>("accumulationMode"));
    if (m == "none") k.setAccumulate(DA::noAccu); else if (m == "atonce") k.setAccumulate(DA::atOnceAccu); else if (m == "successive") k.setAccumulate(DA::successiveAccu); else throw Dune::InvalidStateException(); })
GROUP(damping, KEY("prolongationDampingFactor", double, setProlongationDampingFactor))
GROUP(aggregates, if (c.hasKey("defaultAggregationSizeMode")) {
    std::string m = A2::ToLower()(c.get<std::string>("defaultAggregationSizeMode"));
    std::size_t d = c.get<std::size_t>("defaultAggregationDimension"); std::size_t x = 2;
    if (c.hasKey("maxAggregateDistance")) x = c.get<std::size_t>("maxAggregateDistance");
    if (m == "isotropic") k.setDefaultValuesIsotropic(d, x); else if (m == "anisotropic") k.setDefaultValuesAnisotropic(d, x); else throw Dune::InvalidStateException(); }
  KEY("maxAggregateDistance", std::size_t, setMaxDistance) KEY("minAggregateSize", std::size_t, setMinAggregateSize) KEY("maxAggregateSize", std::size_t, setMaxAggregateSize) KEY("maxAggregateConnectivity", std::size_t, setMaxConnectivity))
GROUP(alpha, KEY("alpha", double, setAlpha)) GROUP(beta, KEY("beta", double, setBeta))
GROUP(gamma, KEY("gamma", std::size_t, setGamma) p->gamma_ = k.getGamma();)
GROUP(additive, KEY("additive", bool, setAdditive) p->additive = k.getAdditive();)
GROUP(presteps, KEY("preSteps", std::size_t, setNoPreSmoothSteps) p->preSteps_ = k.getNoPreSmoothSteps();)
GROUP(poststeps, KEY("postSteps", std::size_t, setNoPostSmoothSteps) p->postSteps_ = k.getNoPostSmoothSteps();)
GROUP(verbosity, p->verbosity_ = c.get("verbosity", 0); k.setDebugLevel(p->verbosity_);)
