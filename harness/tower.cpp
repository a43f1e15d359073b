#include "sf.hpp"
SymF SymF::field;
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
typedef F2Field<SymF> F2;
typedef F6Field<F2> F6;
typedef F12Field<F6> F12;
typedef F6Field<AbsBase> A6;
typedef F2::Element E2; typedef F6::Element E6; typedef F12::Element E12; typedef A6::Element EA6;
// the cubic extension over an opaque base has to offer what the twelfth-degree one expects of it
class AbsF6 : public AbsBase { public: typedef AbsBase Base; AbsBase F; };
typedef F12Field<AbsF6> A12;
typedef A12::Element EA12;
typedef SymF::Element E;
#define X extern "C" __attribute__((noinline))
#define COMMON(P, T, TE, MK) \
 X void P##_add(TE*r,TE*a,TE*b,E*nr){MK; f.add(*r,*a,*b);} \
 X void P##_sub(TE*r,TE*a,TE*b,E*nr){MK; f.sub(*r,*a,*b);} \
 X void P##_mul(TE*r,TE*a,TE*b,E*nr){MK; f.mul(*r,*a,*b);} \
 X void P##_div(TE*r,TE*a,TE*b,E*nr){MK; f.div(*r,*a,*b);} \
 X void P##_neg(TE*r,TE*a,E*nr){MK; f.neg(*r,*a);} \
 X void P##_copy(TE*r,TE*a,E*nr){MK; f.copy(*r,*a);} \
 X void P##_square(TE*r,TE*a,E*nr){MK; f.square(*r,*a);} \
 X void P##_inv(TE*r,TE*a,E*nr){MK; f.inv(*r,*a);} \
 X void P##_zero(TE*r,E*nr){MK; f.copy(*r,f.zero());} \
 X void P##_one(TE*r,E*nr){MK; f.copy(*r,f.one());} \
 X void P##_negOne(TE*r,E*nr){MK; f.copy(*r,f.negOne());} \
 X uint64_t P##_isZero(TE*a,E*nr){MK; return f.isZero(*a) ? 1 : 0;} \
 X uint64_t P##_isOne(TE*a,E*nr){MK; return f.isOne(*a) ? 1 : 0;} \
 X uint64_t P##_eq(TE*a,TE*b,E*nr){MK; return f.eq(*a,*b) ? 1 : 0;}
COMMON(f2, F2, E2, F2 f(*nr))
COMMON(f6, F6, E6, F6 f)
COMMON(f12, F12, E12, F12 f)
COMMON(a6, A6, EA6, A6 f)
COMMON(a12, A12, EA12, A12 f)
X void f2_conjugate(E2*r,E2*a,E*nr){F2 f(*nr); f.conjugate(*r,*a);}
X void f2_dbl(E2*r,E2*a,E*nr){F2 f(*nr); f.dbl(*r,*a);}
X void f2_mulXi(E2*r,E2*a,E*nr){F2 f(*nr); f.mulXi(*r,*a);}
X void f2_mulScalar(E2*r,E2*a,E*s,E*nr){F2 f(*nr); f.mulScalar(*r,*a,*s);}
X void f6_mulScalar(E6*r,E6*a,E2*s,E*nr){F6 f; f.mulScalar(*r,*a,*s);}
X void f6_mulTau(E6*r,E6*a,E*nr){F6 f; f.mulTau(*r,*a);}
X void f6_mulGFP(E6*r,E6*a,E*s,E*nr){F6 f; f.mulGFP(*r,*a,*s);}
X void f6_dbl(E6*r,E6*a,E*nr){F6 f; f.dbl(*r,*a);}
X void f6_Frobenius(E6*r,E6*a,E*nr){F6 f; f.Frobenius(*r,*a);}
X void f6_FrobeniusP2(E6*r,E6*a,E*nr){F6 f; f.FrobeniusP2(*r,*a);}
X void a6_mulScalar(EA6*r,EA6*a,E*s,E*nr){A6 f; f.mulScalar(*r,*a,*s);}
X void a6_mulTau(EA6*r,EA6*a,E*nr){A6 f; f.mulTau(*r,*a);}
X void a6_dbl(EA6*r,EA6*a,E*nr){A6 f; f.dbl(*r,*a);}
X void f12_mulScalar(E12*r,E12*a,E6*s,E*nr){F12 f; f.mulScalar(*r,*a,*s);}
X void f12_conjugate(E12*r,E12*a,E*nr){F12 f; f.conjugate(*r,*a);}
X void f12_Frobenius(E12*r,E12*a,E*nr){F12 f; f.Frobenius(*r,*a);}
X void f12_FrobeniusP2(E12*r,E12*a,E*nr){F12 f; f.FrobeniusP2(*r,*a);}
X void a12_mulScalar(EA12*r,EA12*a,E*s,E*nr){A12 f; f.mulScalar(*r,*a,*s);}
X void a12_conjugate(EA12*r,EA12*a,E*nr){A12 f; f.conjugate(*r,*a);}
X void a12_exp(EA12*r,EA12*a,uint8_t*s,uint64_t n,E*nr){A12 f; f.exp(*r,*a,s,n);}
