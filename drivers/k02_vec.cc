// K02: vector-space operations and reductions; k_* library, s_* specification on raw storage
#include "config.h"
#include "opaque_block.hh"
#include <dune/istl/bvector.hh>
#include <cmath>
#include <algorithm>
using X = Dune::BlockVector<vt::VE>;
using XI = Dune::BlockVector<vt::VI>;
using C = Dune::Imp::CompressedBlockVectorWindow<vt::VE>;
using CI = Dune::Imp::CompressedBlockVectorWindow<vt::VI>;
using sz = std::size_t;
#define FOR for (sz i=0;i<x.n;++i)
#define PRE(nm) bool pre_##nm(X& x, const X& y) { return x.n==y.n; }
#define PREA(nm) bool pre_##nm(X& x, double, const X& y) { return x.n==y.n; }
#define PREC(nm) bool pre_##nm(const X& x, const X& y) { return x.n==y.n; }
void k_assign(X& x, double a) { x = a; }
void s_assign(X& x, double a) { FOR x.p[i] = a; }
void k_add(X& x, const X& y) { x += y; }
void s_add(X& x, const X& y) { FOR x.p[i] += y.p[i]; } PRE(add)
void k_sub(X& x, const X& y) { x -= y; }
void s_sub(X& x, const X& y) { FOR x.p[i] -= y.p[i]; } PRE(sub)
void k_scale(X& x, double a) { x *= a; }
void s_scale(X& x, double a) { FOR x.p[i] *= a; }
void k_div(X& x, double a) { x /= a; }
void s_div(X& x, double a) { FOR x.p[i] /= a; }
void k_axpy(X& x, double a, const X& y) { x.axpy(a,y); }
void s_axpy(X& x, double a, const X& y) { FOR x.p[i].axpy(a,y.p[i]); } PREA(axpy)
double k_mult(const X& x, const X& y) { return x*y; }
double s_mult(const X& x, const X& y) { double s=0; FOR s += x.p[i]*y.p[i]; return s; } PREC(mult)
double k_dot(const X& x, const X& y) { return x.dot(y); }
double s_dot(const X& x, const X& y) { double s=0; FOR s += x.p[i].dot(y.p[i]); return s; } PREC(dot)
#define SUM(n) double k_##n(const X& x) { return x.n(); } double s_##n(const X& x) { double s=0; FOR s += x.p[i].n(); return s; }
#define INF(n) double k_##n(const X& x) { return x.n(); } double s_##n(const X& x) { double s=0,t=1; FOR { double a=x.p[i].n(); s = std::max(a,s); t += a; } return s*(t/t); } \
  int k_##n##_int(const XI& x) { return x.n(); } int s_##n##_int(const XI& x) { int s=0; FOR { int a=x.p[i].n(); s = std::max(a,s); } return s; }
SUM(one_norm) SUM(one_norm_real) SUM(two_norm2) INF(infinity_norm) INF(infinity_norm_real)
double k_two_norm(const X& x) { return x.two_norm(); }
double s_two_norm(const X& x) { double s=0; FOR s += x.p[i].two_norm2(); return std::sqrt(s); }
sz k_N(const X& x) { return x.N(); }
sz s_N(const X& x) { return x.n; }
sz k_size(const X& x) { return x.size(); }
sz s_size(const X& x) { return x.n; }
sz k_dim(const X& x) { return x.dim(); }
sz s_dim(const X& x) { sz d=0; FOR d += x.p[i].dim(); return d; }
const void* k_at(const X& x, sz i) { return &x[i]; }
const void* s_at(const X& x, sz i) { return x.p+i; }
void* k_atm(X& x, sz i) { return &x[i]; }
void* s_atm(X& x, sz i) { return x.p+i; }
// rows of sparse matrices
using X2 = C;
void k_c_assign(C& x, double a) { x = a; }
void s_c_assign(C& x, double a) { FOR x.p[i] = a; }
void k_c_scale(C& x, double a) { x *= a; }
void s_c_scale(C& x, double a) { FOR x.p[i] *= a; }
void k_c_div(C& x, double a) { x /= a; }
void s_c_div(C& x, double a) { FOR x.p[i] /= a; }
#define FORY for (sz i=0;i<y.n;++i)
// position of a stored column: first index not less than it
static vt::VE& at(const C& x, sz c) { const sz* q = std::lower_bound(x.j, x.j+x.n, c); if (q==x.j+x.n || *q!=c) throw 1; return const_cast<vt::VE&>(x.p[q-x.j]); }
const void* k_c_at(const C& x, sz c) { return &x[c]; }
const void* s_c_at(const C& x, sz c) { return &at(x,c); }
void* k_c_atm(C& x, sz c) { return &x[c]; }
void* s_c_atm(C& x, sz c) { return &at(x,c); }
void k_c_add(C& x, const C& y) { x += y; }
void s_c_add(C& x, const C& y) { FORY x[y.j[i]] += y.p[i]; }
void k_c_sub(C& x, const C& y) { x -= y; }
void s_c_sub(C& x, const C& y) { FORY x[y.j[i]] -= y.p[i]; }
void k_c_axpy(C& x, double a, const C& y) { x.axpy(a,y); }
void s_c_axpy(C& x, double a, const C& y) { FORY x[y.j[i]].axpy(a,y.p[i]); }
double k_c_mult(const C& x, const C& y) { return x*y; }
double s_c_mult(const C& x, const C& y) { double s=0; FOR s += x.p[i]*y[x.j[i]]; return s; }
#define CSUM(n) double k_c_##n(const C& x) { return x.n(); } double s_c_##n(const C& x) { double s=0; FOR s += x.p[i].n(); return s; }
#define CINF(n) double k_c_##n(const C& x) { return x.n(); } double s_c_##n(const C& x) { double s=0,t=1; FOR { double a=x.p[i].n(); s = std::max(a,s); t += a; } return s*(t/t); } \
  int k_c_##n##_int(const CI& x) { return x.n(); } int s_c_##n##_int(const CI& x) { int s=0; FOR { int a=x.p[i].n(); s = std::max(a,s); } return s; }
CSUM(one_norm) CSUM(one_norm_real) CSUM(two_norm2) CINF(infinity_norm) CINF(infinity_norm_real)
double k_c_two_norm(const C& x) { return x.two_norm(); }
double s_c_two_norm(const C& x) { double s=0; FOR s += x.p[i].two_norm2(); return std::sqrt(s); }
sz k_c_dim(const C& x) { return x.dim(); }
sz s_c_dim(const C& x) { sz d=0; FOR d += x.p[i].dim(); return d; }
