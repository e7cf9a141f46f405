// operators: what a (parallel) linear operator does with its matrix and communication
#include "config.h"
#include "opaque.hh"
#include <dune/istl/operators.hh>
#include <dune/istl/schwarz.hh>
namespace vt {
  struct Mat {
    using field_type = double;
    void mv(const Vec&, Vec&) const noexcept; void umv(const Vec&, Vec&) const noexcept; void mmv(const Vec&, Vec&) const noexcept;
    void usmv(double, const Vec&, Vec&) const noexcept; void mtv(const Vec&, Vec&) const noexcept; void umtv(const Vec&, Vec&) const noexcept;
    struct ConstRowIterator; struct ConstColIterator;
    void* rep;
  };
  struct Comm {
    void project(Vec&) const noexcept; void copyOwnerToAll(const Vec&, Vec&) const noexcept;
    void addOwnerCopyToOwnerCopy(const Vec&, Vec&) const noexcept;
    void* rep;
  };
}
using V = vt::Vec;
using MA = Dune::MatrixAdapter<vt::Mat,V,V>;
using OV = Dune::OverlappingSchwarzOperator<vt::Mat,V,V,vt::Comm>;
void k_ma_apply(const MA& A, const V& x, V& y) { A.MA::apply(x,y); }
void k_ma_applyscaleadd(const MA& A, double a, const V& x, V& y) { A.MA::applyscaleadd(a,x,y); }
void s_ma_apply(const MA& A, const V& x, V& y) { A._A_.get()->mv(x,y); }
void s_ma_applyscaleadd(const MA& A, double a, const V& x, V& y) { A._A_.get()->usmv(a,x,y); }
void k_ov_apply(const OV& A, const V& x, V& y) { A.OV::apply(x,y); }
void k_ov_applyscaleadd(const OV& A, double a, const V& x, V& y) { A.OV::applyscaleadd(a,x,y); }
void s_ov_apply(const OV& A, const V& x, V& y) { y = 0; A._A_.get()->umv(x,y); A.communication.project(y); }
void s_ov_apply_2(const OV& A, const V& x, V& y) { A._A_.get()->mv(x,y); A.communication.project(y); }
void s_ov_applyscaleadd(const OV& A, double a, const V& x, V& y) { A._A_.get()->usmv(a,x,y); A.communication.project(y); }
const void* k_ma_getmat(const MA& A) { return &A.MA::getmat(); }
const void* s_ma_getmat(const MA& A) { return A._A_.get(); }
const void* k_ov_getmat(const OV& A) { return &A.OV::getmat(); }
const void* s_ov_getmat(const OV& A) { return A._A_.get(); }
