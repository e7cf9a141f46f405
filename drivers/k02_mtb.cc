#include "config.h"
#include "opaque_mtb.hh"
#include <cmath>
using X = vt::MTV3;
using A = vt::MTM;
#define G(v,i) std::get<i>(v)
#define ALL(op) op(0) op(1) op(2)
#define MALL(op) op(0,0) op(0,1) op(0,2) op(1,0) op(1,1) op(1,2)
#define E(a,i,j) std::get<j>(std::get<i>(a))
void k_assign(X& x, double a) { x = a; }
#define O(i) G(x,i) = a;
void s_assign(X& x, double a) { ALL(O) }
#undef O
void k_add(X& x, const X& y) { x += y; }
#define O(i) G(x,i) += G(y,i);
void s_add(X& x, const X& y) { ALL(O) }
#undef O
void k_sub(X& x, const X& y) { x -= y; }
#define O(i) G(x,i) -= G(y,i);
void s_sub(X& x, const X& y) { ALL(O) }
#undef O
void k_scale(X& x, double a) { x *= a; }
#define O(i) G(x,i) *= a;
void s_scale(X& x, double a) { ALL(O) }
#undef O
void k_div(X& x, double a) { x /= a; }
#define O(i) G(x,i) /= a;
void s_div(X& x, double a) { ALL(O) }
#undef O
void k_axpy(X& x, double a, const X& y) { x.axpy(a,y); }
#define O(i) G(x,i).axpy(a,G(y,i));
void s_axpy(X& x, double a, const X& y) { ALL(O) }
#undef O
double k_mult(const X& x, const X& y) { return x*y; }
double s_mult(const X& x, const X& y) { return G(x,0)*G(y,0) + G(x,1)*G(y,1) + G(x,2)*G(y,2); }
double k_dot(const X& x, const X& y) { return x.dot(y); }
double s_dot(const X& x, const X& y) { return G(x,0).dot(G(y,0)) + G(x,1).dot(G(y,1)) + G(x,2).dot(G(y,2)); }
#define SUM(n) double k_##n(const X& x) { return x.n(); } double s_##n(const X& x) { return G(x,0).n() + G(x,1).n() + G(x,2).n(); }
SUM(one_norm) SUM(one_norm_real) SUM(two_norm2)
double k_two_norm(const X& x) { return x.two_norm(); }
double s_two_norm(const X& x) { return std::sqrt(G(x,0).two_norm2() + G(x,1).two_norm2() + G(x,2).two_norm2()); }
std::size_t k_dim(const X& x) { return x.dim(); }
std::size_t s_dim(const X& x) { return G(x,0).dim() + G(x,1).dim() + G(x,2).dim(); }
#define INF(n) double k_##n(const X& x) { return x.n(); } double s_##n(const X& x) { double a=G(x,0).n(), b=G(x,1).n(), c=G(x,2).n(); double s=0,t=1; \
  s=std::max(a,s); t+=a; s=std::max(b,s); t+=b; s=std::max(c,s); t+=c; return s*(t/t); }
INF(infinity_norm) INF(infinity_norm_real)
void k_m_assign(A& x, double a) { x = a; }
#define O(i,j) E(x,i,j) = a;
void s_m_assign(A& x, double a) { MALL(O) }
#undef O
void k_m_scale(A& x, double a) { x *= a; }
#define O(i,j) E(x,i,j) *= a;
void s_m_scale(A& x, double a) { MALL(O) }
#undef O
void k_m_div(A& x, double a) { x /= a; }
#define O(i,j) E(x,i,j) /= a;
void s_m_div(A& x, double a) { MALL(O) }
#undef O
void k_m_add(A& x, const A& y) { x += y; }
#define O(i,j) E(x,i,j) += E(y,i,j);
void s_m_add(A& x, const A& y) { MALL(O) }
#undef O
void k_m_sub(A& x, const A& y) { x -= y; }
#define O(i,j) E(x,i,j) -= E(y,i,j);
void s_m_sub(A& x, const A& y) { MALL(O) }
#undef O
#define O(i,j) s += E(x,i,j).frobenius_norm2();
double k_m_frob2(const A& x) { return x.frobenius_norm2(); }
double s_m_frob2(const A& x) { double s=0; MALL(O) return s; }
double k_m_frob(const A& x) { return x.frobenius_norm(); }
double s_m_frob(const A& x) { double s=0; MALL(O) return std::sqrt(s); }
#undef O
#define R(n,i) (E(x,i,0).n()+E(x,i,1).n()+E(x,i,2).n())
#define MINF(n) double k_m_##n(const A& x) { return x.n(); } double s_m_##n(const A& x) { double s=0; double a=R(n,0), b=R(n,1); s=std::max(a,s); s=std::max(b,s); return s; } \
  double s_m_##n##_2(const A& x) { double s=0,t=1; double a=R(n,0), b=R(n,1); s=std::max(a,s); t+=a; s=std::max(b,s); t+=b; return s*(t/t); }
MINF(infinity_norm) MINF(infinity_norm_real)
