// an abelian group with word-valued coordinates: points are integer vectors modulo 2^64
#ifndef GRP_HPP
#define GRP_HPP
#include <cstdint>
#ifndef GW
#define GW 1
#endif
struct Grp {
    struct Point { uint64_t w[GW]; };
    struct PointAffine { uint64_t w[GW]; };
    Point fz; PointAffine fza;
    Grp() { for (int i = 0; i < GW; i++) { fz.w[i] = 0; fza.w[i] = 0; } }
    Point &zero() { return fz; }
    PointAffine &zeroAffine() { return fza; }
    template<class R, class S, class T> void add(R &r, S &a, T &b) { for (int i = 0; i < GW; i++) r.w[i] = a.w[i] + b.w[i]; }
    template<class R, class S, class T> void sub(R &r, S &a, T &b) { for (int i = 0; i < GW; i++) r.w[i] = a.w[i] - b.w[i]; }
    template<class R, class S> void dbl(R &r, S &a) { for (int i = 0; i < GW; i++) r.w[i] = a.w[i] + a.w[i]; }
    template<class R, class S> void neg(R &r, S &a) { for (int i = 0; i < GW; i++) r.w[i] = 0 - a.w[i]; }
    template<class R, class S> void copy(R &r, S &a) { for (int i = 0; i < GW; i++) r.w[i] = a.w[i]; }
    template<class S, class T> bool eq(S &a, T &b) { uint64_t d = 0; for (int i = 0; i < GW; i++) d |= a.w[i] ^ b.w[i]; return d == 0; }
    template<class S> bool isZero(S &a) { uint64_t d = 0; for (int i = 0; i < GW; i++) d |= a.w[i]; return d == 0; }
};
#endif
