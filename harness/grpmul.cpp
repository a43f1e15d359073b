#include "grp.hpp"
#include <memory>
#include "exp.hpp"
typedef Grp::Point P; typedef Grp::PointAffine A;
#define X extern "C" __attribute__((noinline))
X void g_pp(P*r,P*b,uint8_t*s,uint64_t n){Grp G; nafMulByScalar<Grp,P,P>(G,*r,*b,s,(unsigned)n);}
X void g_ap(P*r,A*b,uint8_t*s,uint64_t n){Grp G; nafMulByScalar<Grp,A,P>(G,*r,*b,s,(unsigned)n);}
