// native meaning of the opaque field operations: integers modulo 2^61-1
#include <cstdint>
#include <string>
typedef unsigned __int128 u128;
static const uint64_t P = (1ull << 61) - 1;
static uint64_t mulm(uint64_t a, uint64_t b) { return (u128)(a % P) * (b % P) % P; }
static uint64_t powm(uint64_t a, uint64_t e) { uint64_t r = 1; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
extern "C" {
uint64_t sf_xi = 9, sf_textseed = 0;
void sf_const(uint64_t *r, int64_t v) { *r = v >= 0 ? (uint64_t)v % P : P - ((uint64_t)(-v)) % P; }
void sf_copy(uint64_t *r, const uint64_t *a) { *r = *a; }
void sf_add(uint64_t *r, const uint64_t *a, const uint64_t *b) { *r = (*a % P + *b % P) % P; }
void sf_sub(uint64_t *r, const uint64_t *a, const uint64_t *b) { *r = (*a % P + P - *b % P) % P; }
void sf_mul(uint64_t *r, const uint64_t *a, const uint64_t *b) { *r = mulm(*a, *b); }
void sf_neg(uint64_t *r, const uint64_t *a) { *r = (P - *a % P) % P; }
void sf_inv(uint64_t *r, const uint64_t *a) { *r = powm(*a, P - 2); }
int sf_iszero(const uint64_t *a) { return *a % P == 0; }
int sf_eq(const uint64_t *a, const uint64_t *b) { return *a % P == *b % P; }
void sf_string(uint64_t *r, const char *s, uint64_t n, uint64_t radix) {
    uint64_t v = 0; bool ok = n > 0;
    for (uint64_t i = 0; i < n; i++) { if (s[i] < '0' || s[i] > '9') { ok = false; break; } v = (mulm(v, radix) + (s[i] - '0')) % P; }
    if (!ok && n > 1 && s[0] == '-') { v = 0; ok = true; for (uint64_t i = 1; i < n; i++) v = (mulm(v, radix) + (s[i] - '0')) % P; v = (P - v) % P; }
    if (!ok) { v = 1469598103934665603ull; for (uint64_t i = 0; i < n; i++) v = (v ^ (unsigned char)s[i]) * 1099511628211ull; v %= P; }
    *r = v;
}
void sf_special(uint64_t *r, const uint64_t *a, int64_t what) { *r = what == 1 ? mulm(*a, sf_xi) : mulm(*a, 1000 + what); }
void sf_exp(uint64_t *r, const uint64_t *a, const uint8_t *s, uint64_t n) {
    uint64_t x = *a % P, y = 1; for (uint64_t i = n * 8; i-- > 0;) { y = mulm(y, y); if (s[i >> 3] >> (i & 7) & 1) y = mulm(y, x); } *r = y;
}
void sf_tompz(void *r, const uint64_t *a) { __builtin_trap(); }
void sf_frommpz(uint64_t *r, const void *a) { __builtin_trap(); }
}
