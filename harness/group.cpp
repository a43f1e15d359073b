#include <stdexcept>
#include "sf.hpp"
SymF SymF::field;
#include "curve.hpp"
typedef Curve<SymF> C;
typedef C::Point P; typedef C::PointAffine A; typedef SymF::Element E;
#define X extern "C" __attribute__((noinline))
#define MK SymF F; C G(F, k[0], k[1], k[2], k[3])
X void mul_pp(P*r,P*b,uint8_t*s,uint64_t n,E*k){MK; G.mulByScalar(*r,*b,s,(unsigned)n);}
X void mul_pa(P*r,A*b,uint8_t*s,uint64_t n,E*k){MK; G.mulByScalar(*r,*b,s,(unsigned)n);}
X void exp_pp(C*g,P*r,P*b,uint8_t*s,uint64_t n){nafMulByScalar<C,P,P>(*g,*r,*b,s,(unsigned)n);}
X void mulm(P*r,A*b,uint8_t*s,uint64_t ss,uint64_t n,uint64_t nt,E*k){MK; G.multiMulByScalar(*r,b,s,(unsigned)ss,(unsigned)n,(unsigned)nt);}
X void mulmx(P*r,A*b,uint8_t*s,uint64_t ss,uint64_t n,uint64_t nx,uint64_t*x,E*k){MK; G.multiMulByScalar(*r,b,s,(unsigned)ss,(unsigned)n,(uint32_t)nx,x,1u);}
