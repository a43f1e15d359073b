// A field whose elements are opaque 64-bit words and whose operations are external functions: the encoder
// gives them meaning over polynomials with free indeterminates, the native replay over a prime field.
#ifndef SF_HPP
#define SF_HPP
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <gmp.h>
extern "C" {
void sf_const(uint64_t *r, int64_t v);
void sf_copy(uint64_t *r, const uint64_t *a);
void sf_add(uint64_t *r, const uint64_t *a, const uint64_t *b);
void sf_sub(uint64_t *r, const uint64_t *a, const uint64_t *b);
void sf_mul(uint64_t *r, const uint64_t *a, const uint64_t *b);
void sf_neg(uint64_t *r, const uint64_t *a);
void sf_inv(uint64_t *r, const uint64_t *a);
int sf_iszero(const uint64_t *a);
int sf_eq(const uint64_t *a, const uint64_t *b);
void sf_string(uint64_t *r, const char *s, uint64_t n, uint64_t radix);
void sf_special(uint64_t *r, const uint64_t *a, int64_t what);   // 1: times xi/tau, 2: conjugate
void sf_exp(uint64_t *r, const uint64_t *a, const uint8_t *scalar, uint64_t n);
void sf_tompz(void *r, const uint64_t *a);
void sf_frommpz(uint64_t *r, const void *a);
}
class SymF {
public:
    struct Element { uint64_t v; };
    const static int N64 = 1;
    const static int MaxBits = 61;
private:
    Element fZero, fOne, fNegOne;
public:
    SymF() { sf_const(&fZero.v, 0); sf_const(&fOne.v, 1); sf_const(&fNegOne.v, -1); }
    const Element &zero() { return fZero; }
    const Element &one() { return fOne; }
    const Element &negOne() { return fNegOne; }
    Element set(int v) { Element r; sf_const(&r.v, v); return r; }
    void set(Element &r, int v) { sf_const(&r.v, v); }
    void fromUI(Element &r, unsigned long v) { sf_const(&r.v, (int64_t)v); }
    void fromString(Element &r, const std::string &s, uint32_t radix = 10) { sf_string(&r.v, s.data(), s.size(), radix); }
    std::string toString(const Element &, uint32_t = 10) { return std::string(); }
    void copy(Element &r, const Element &a) { sf_copy(&r.v, &a.v); }
    void swap(Element &a, Element &b) { Element t; sf_copy(&t.v, &a.v); sf_copy(&a.v, &b.v); sf_copy(&b.v, &t.v); }
    void add(Element &r, const Element &a, const Element &b) { sf_add(&r.v, &a.v, &b.v); }
    void sub(Element &r, const Element &a, const Element &b) { sf_sub(&r.v, &a.v, &b.v); }
    void mul(Element &r, const Element &a, const Element &b) { sf_mul(&r.v, &a.v, &b.v); }
    Element add(const Element &a, const Element &b) { Element r; add(r, a, b); return r; }
    Element sub(const Element &a, const Element &b) { Element r; sub(r, a, b); return r; }
    Element mul(const Element &a, const Element &b) { Element r; mul(r, a, b); return r; }
    Element neg(const Element &a) { Element r; neg(r, a); return r; }
    Element square(const Element &a) { Element r; square(r, a); return r; }
    Element add(int a, const Element &b) { return add(set(a), b); }
    Element sub(int a, const Element &b) { return sub(set(a), b); }
    Element mul(int a, const Element &b) { return mul(set(a), b); }
    Element add(const Element &a, int b) { return add(a, set(b)); }
    Element sub(const Element &a, int b) { return sub(a, set(b)); }
    Element mul(const Element &a, int b) { return mul(a, set(b)); }
    void mul1(Element &r, const Element &a, uint64_t b) { Element t; fromUI(t, b); mul(r, a, t); }
    void neg(Element &r, const Element &a) { sf_neg(&r.v, &a.v); }
    void square(Element &r, const Element &a) { sf_mul(&r.v, &a.v, &a.v); }
    void inv(Element &r, const Element &a) { sf_inv(&r.v, &a.v); }
    void div(Element &r, const Element &a, const Element &b) { Element t; sf_inv(&t.v, &b.v); sf_mul(&r.v, &a.v, &t.v); }
    void exp(Element &r, const Element &a, uint8_t *s, unsigned int n) { sf_exp(&r.v, &a.v, s, n); }
    int eq(const Element &a, const Element &b) { return sf_eq(&a.v, &b.v); }
    int isZero(const Element &a) { return sf_iszero(&a.v); }
    void toMpz(mpz_t r, const Element &a) { sf_tompz(r, &a.v); }
    void fromMpz(Element &a, const mpz_t r) { sf_frommpz(&a.v, r); }
    int bytes() { return 8; }
    static SymF field;
};

// the interface of an extension field (F2Field / F6Field) over an opaque commutative ring
class AbsBase {
public:
    typedef SymF Base;
    typedef SymF::Element BaseElement;
    typedef SymF::Element Element;
    SymF F;
    AbsBase() {}
    AbsBase(std::string) {}
private:
    Element fZ, fO, fN;
public:
    Element &zero() { sf_const(&fZ.v, 0); return fZ; }
    Element &one() { sf_const(&fO.v, 1); return fO; }
    Element &negOne() { sf_const(&fN.v, -1); return fN; }
    void copy(Element &r, Element &a) { F.copy(r, a); }
    void add(Element &r, Element &a, Element &b) { F.add(r, a, b); }
    void sub(Element &r, Element &a, Element &b) { F.sub(r, a, b); }
    void neg(Element &r, Element &a) { F.neg(r, a); }
    void mul(Element &r, Element &a, Element &b) { F.mul(r, a, b); }
    void square(Element &r, Element &a) { F.mul(r, a, a); }
    void dbl(Element &r, Element &a) { F.add(r, a, a); }
    void inv(Element &r, Element &a) { F.inv(r, a); }
    void div(Element &r, Element &a, Element &b) { F.div(r, a, b); }
    void mulScalar(Element &r, Element &a, Element &b) { F.mul(r, a, b); }
    void mulGFP(Element &r, Element &a, Element &b) { F.mul(r, a, b); }
    void mulXi(Element &r, Element &a) { sf_special(&r.v, &a.v, 1); }
    void mulTau(Element &r, Element &a) { sf_special(&r.v, &a.v, 1); }
    void conjugate(Element &r, Element &a) { sf_special(&r.v, &a.v, 2); }
    void Frobenius(Element &r, Element &a) { sf_special(&r.v, &a.v, 3); }
    void FrobeniusP2(Element &r, Element &a) { sf_special(&r.v, &a.v, 4); }
    bool isZero(Element &a) { return F.isZero(a); }
    bool isOne(Element &a) { return F.eq(a, one()); }
    bool eq(Element &a, Element &b) { return F.eq(a, b); }
    void fromString(Element &r, std::string s) { F.fromString(r, s); }
    std::string toString(Element &, uint32_t = 10) { return std::string(); }
};
#endif
