#include "config.h"
#include "opaque_scalar.hh"
#include <dune/common/fmatrix.hh>
#include <dune/istl/ildl.hh>
using F = vt::F;
using B = Dune::FieldMatrix<F,3,3>;
// A -= B * transpose(C)
void k_dense(const B& b, const B& c, B& a) { Dune::bildl_subtractBCT(b, c, a); }
void s_dense_1(const B& b, const B& c, B& a) { for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int k=0;k<3;++k) a[i][j] -= b[i][k]*c[j][k]; }
void s_dense_2(const B& b, const B& c, B& a) { for (int i=0;i<3;++i) for (int j=0;j<3;++j) { F s = a[i][j]; for (int k=0;k<3;++k) s -= b[i][k]*c[j][k]; a[i][j] = s; } }
void s_dense_3(const B& b, const B& c, B& a) { for (int i=0;i<3;++i) for (int j=0;j<3;++j) { F s(0.0); for (int k=0;k<3;++k) s += b[i][k]*c[j][k]; a[i][j] -= s; } }
