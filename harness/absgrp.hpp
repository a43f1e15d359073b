// an abelian group whose elements are opaque words and whose operations are external functions (those of the
// additive group of SymF, plus a scalar multiplication); all-zero storage is the identity, as for curve points
#ifndef ABSGRP_HPP
#define ABSGRP_HPP
#include "sf.hpp"
extern "C" void hg_mul(uint64_t *r, const uint64_t *b, const uint8_t *s, uint64_t n);
struct HG {
    struct Point { uint64_t v; };
    struct PointAffine { uint64_t v; };
    Point z; PointAffine za;
    HG() { z.v = 0; za.v = 0; }
    Point &zero() { return z; }
    PointAffine &zeroAffine() { return za; }
    template<class R, class S, class T> void add(R &r, S &a, T &b) { sf_add(&r.v, &a.v, &b.v); }
    template<class R, class S, class T> void sub(R &r, S &a, T &b) { sf_sub(&r.v, &a.v, &b.v); }
    template<class R, class S> void dbl(R &r, S &a) { sf_add(&r.v, &a.v, &a.v); }
    template<class R, class S> void neg(R &r, S &a) { sf_neg(&r.v, &a.v); }
    template<class R, class S> void copy(R &r, S &a) { sf_copy(&r.v, &a.v); }
    template<class S, class T> bool eq(S &a, T &b) { return sf_eq(&a.v, &b.v); }
    template<class S> bool isZero(S &a) { return sf_iszero(&a.v); }
    template<class R, class S> void mulByScalar(R &r, S &b, uint8_t *s, unsigned int n) { hg_mul(&r.v, &b.v, s, n); }
};
#endif
