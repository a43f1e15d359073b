#include <stdexcept>
#include "sf.hpp"
SymF SymF::field;
#include "curve.hpp"
typedef Curve<SymF> C;
typedef C::Point P; typedef C::PointAffine A; typedef SymF::Element E;
#define X extern "C" __attribute__((noinline))
// k points to a, b, gx, gy
#define MK SymF F; C G(F, k[0], k[1], k[2], k[3])
#define BIN(N, TR, TA, TB) \
 X void add_##N(TR*r,TA*a,TB*b,E*k){MK; G.add(*r,*a,*b);} \
 X void sub_##N(TR*r,TA*a,TB*b,E*k){MK; G.sub(*r,*a,*b);}
BIN(ppp,P,P,P) BIN(ppa,P,P,A) BIN(pap,P,A,P) BIN(paa,P,A,A)
BIN(app,A,P,P) BIN(apa,A,P,A) BIN(aap,A,A,P) BIN(aaa,A,A,A)
#define UN(N, TR, TA) \
 X void dbl_##N(TR*r,TA*a,E*k){MK; G.dbl(*r,*a);} \
 X void neg_##N(TR*r,TA*a,E*k){MK; G.neg(*r,*a);} \
 X void copy_##N(TR*r,TA*a,E*k){MK; G.copy(*r,*a);}
UN(pp,P,P) UN(pa,P,A) UN(ap,A,P) UN(aa,A,A)
#define EQ(N, TA, TB) X uint64_t eq_##N(TA*a,TB*b,E*k){MK; return G.eq(*a,*b) ? 1 : 0;}
EQ(pp,P,P) EQ(pa,P,A) EQ(ap,A,P) EQ(aa,A,A)
X uint64_t isZero_p(P*a,E*k){MK; return G.isZero(*a) ? 1 : 0;}
X uint64_t isZero_a(A*a,E*k){MK; return G.isZero(*a) ? 1 : 0;}
X void zero_p(P*r,E*k){MK; *r = G.zero();}
X void zero_a(A*r,E*k){MK; *r = G.zeroAffine();}
X void one_p(P*r,E*k){MK; *r = G.one();}
X void one_a(A*r,E*k){MK; *r = G.oneAffine();}
// a and b as the curve reports them
X void coef_a(A*r,E*k){MK; r->x = G.a(); r->y = G.b();}
// coefficients and generator given as text
X void text_p(P*r,E*k){SymF F; C G(F, "5", "7", "11", "13"); *r = G.one(); r->zz = G.a(); r->zzz = G.b();}
X void text_a(A*r,E*k){SymF F; C G(F, "5", "7", "11", "13"); *r = G.oneAffine();}
X void text_dbl(P*r,P*a,E*k){SymF F; C G(F, "5", "7", "11", "13"); G.dbl(*r, *a);}
