SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo, kind="field", **k):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, kind=kind, **k)


seed("s01", "C01", "a prime that fills its top limb (secp256k1), and operands whose sum carries out of the top limb",
     "the carry out of the addition chain is ignored, so the sum is not reduced",
     [("src/add.asm.ejs", """<% } %>
        jc rawAddLL_sq   ; if overflow, substract q
""", """<% } %>
""")], """
f = Field("secp256k1q")
want("rawAdd(q-1, q-1)", f.rawop("rawAdd", f.q - 1, f.q - 1), f.q - 2)
""")

seed("s02", "C02", "a prime whose top limb lies between 2^63-1 and 2^64-1 (secp256k1, p64) and operands that make the extra carry limb matter",
     "the Montgomery generator drops the extra carry limb for primes that need it",
     [("src/montgomerybuilder.js", "bigInt.one.shiftLeft(64).minus(1).shiftRight(1).minus(1) );", "bigInt.one.shiftLeft(64).minus(1) );")], """
f = Field("secp256k1q")
Ri = pow(f.R, -1, f.q)
for a in (f.q - 1, f.q - 2, f.q // 2 + 1, f.q - (1 << 64)):
    for b in (f.q - 1, f.q - 3, f.q // 3 * 2):
        want("rawMMul", f.rawop("rawMMul", a, b), a * b * Ri % f.q)
""")

seed("s03", "C03", "a right shift by an exact multiple of 64",
     "the limb that lands exactly at the boundary is cleared instead of moved",
     [("src/binops.asm.ejs", "        ja rawShr_if3_<%=i%>", "        jae rawShr_if3_<%=i%>")], """
f = Field("bn128r")
x = f.q - 12345
for k in (1, 63, 64, 65, 128, 192):
    want("rawShr %d" % k, f.rawop("rawShr", x, k), x >> k)
""")

seed("s04", "C05", "squaring a negative short element whose square does not fit 32 bits",
     "the overflow path of square treats the short value as unsigned",
     [("src/mul.asm.ejs", """        push   rsi
        movsx  rax, r8d
        imul   rax
        mov    rsi, rax""", """        push   rsi
        mov    eax, r8d
        imul   rax
        mov    rsi, rax""")], """
f = Field("bn128r")
for v in (3, -3, 50000, -50000, -(2**31), 2**31 - 1):
    want("square %d" % v, f.op("square", f.el("S", v)), v * v % f.q)
""")

seed("s05", "C06", "comparing a long value equal to (q+1)/2 (the first negative one) with a small or positive value",
     "the boundary between positive and negative values is off by one",
     [("src/fr.asm.ejs", "half    dq      <%= constantElement(q.shiftRight(1)) %>", "half    dq      <%= constantElement(q.shiftRight(1).add(1)) %>")], """
f = Field("bn128r")
h = f.q // 2
for x in (1, h, h + 1, h + 2, f.q - 1):
    for y in (0, 5, h, h + 1):
        sx, sy = (v if v <= h else v - f.q for v in (x, y))
        want("lt %x %x" % (x, y), f.op("lt", f.el("L", x), f.el("L", y)), int(sx < sy))
        want("geq %x %x" % (x, y), f.op("geq", f.el("L", x), f.el("LM", y)), int(sx >= sy))
""")

seed("s06", "C07", "a bitwise operation whose masked result has all limbs but the lowest equal to q's (e.g. exactly q, or q plus a small value)",
     "the final comparison with q stops one limb early, so a result at or above q may stay unreduced, or q may be subtracted from a smaller one",
     [("src/binops.asm.ejs", """<% for (let i=0; i<n64; i++) { %>
        mov rax, [rdi + <%= (n64-i)*8 %>]
        cmp rax, [q + <%= (n64-i-1)*8 %>]
        jc <%=done%>        ; q is bigget so done.
        jnz <%=subQ%>         ; q is lower
<% } %>
        ; If equal substract q""", """<% for (let i=0; i<Math.max(1, n64-1); i++) { %>
        mov rax, [rdi + <%= (n64-i)*8 %>]
        cmp rax, [q + <%= (n64-i-1)*8 %>]
        jc <%=done%>        ; q is bigget so done.
        jnz <%=subQ%>         ; q is lower
<% } %>
        ; If equal substract q""")], """
f = Field("bn128r")
m = (1 << f.q.bit_length()) - 1
M = (1 << 64) - 1
top = f.q & ~M
low = f.q & M
for a, b in ((top, 1), (top, low - 1), (top, 5), (f.q - 1, 2), (f.q - 1, 0)):
    x = (a | b) & m
    want("bor %x %x" % (a, b), f.op("bor", f.el("L", a), f.el("L", b)), x - f.q if x >= f.q else x)
""")

seed("s07", "C08", "a shift amount given as a negative short whose magnitude is exactly the bit length of the prime",
     "the range test lets the exact bit length through, and a shift by it is carried out instead of giving zero",
     [("src/binops.asm.ejs", """        neg ecx
        cmp ecx, <%= q.bitLength() %>
        jae  <%= lbBig %>""", """        neg ecx
        cmp ecx, 31
        jae  <%= lbBig %>""")], """
f = Field("bn128r")
m = (1 << f.q.bit_length()) - 1
for k in (1, 30, 31, 32, 63, 64, 200, 253, 254):
    x = f.q - 77777
    want("shl by -%d" % k, f.op("shl", f.el("L", x), f.el("S", -k)), x >> k if k < f.q.bit_length() else 0)
""")
SEEDS["s07"]["needs"] = "a shift amount given as a negative short whose magnitude is between 31 and the bit length"
SEEDS["s07"]["breaks"] = "the range test of negative short amounts rejects valid amounts, giving zero instead of the opposite shift"

seed("s08", "C09", "a long element whose only nonzero limb is the top one",
     "the truth test skips the top limb, so such an element counts as false",
     [("src/logicalops.asm.ejs", """<%= longIsZero %>:
<%   for (let i=0; i<n64; i++) { %>""", """<%= longIsZero %>:
<%   for (let i=0; i<Math.max(1, n64-1); i++) { %>""")], """
f = Field("bn128r")
x = 3 << 192
want("land", f.op("land", f.el("L", x), f.el("S", 1)), 1)
want("lor", f.op("lor", f.el("L", x), f.el("S", 0)), 1)
want("lnot", f.op("lnot", f.el("L", x)), 0)
want("isTrue", f.call("isTrue", [f.el("L", x)])[0] & 0xffffffff, 1)
""")

seed("s09", "C10", "converting a negative short element to a long one with a prime whose low limb is smaller than the magnitude",
     "the carry of the low limb is lost when a negative short value becomes a long one, so the limbs above are off by one for some magnitudes",
     [("src/copy.asm.ejs", """        mov    rsi, -1          ; all ones
<% for (let i=1; i<n64; i++) { %>
        mov    rax, rsi                       ; Add to q
        adc    rax, [q + <%= i*8 %> ]
        mov    [rdi + <%= (i+1)*8 %>], rax
<% } %>
        ret
""", """        mov    rsi, 0
<% for (let i=1; i<n64; i++) { %>
        mov    rax, rsi                       ; Add to q
        add    rax, [q + <%= i*8 %> ]
        mov    [rdi + <%= (i+1)*8 %>], rax
<% } %>
        ret
""")], """
for pr in ("bn128r", "bls12_381q", "secp256k1q", "p128", "t126", "t253"):
    f = Field(pr)
    for v in (-1, -2, -977, -(2**31)):
        want("%s toLongNormal %d" % (pr, v), f.op("toLongNormal", f.el("S", v)), v % f.q)
""")
SEEDS["s09"]["needs"] = "a prime whose low limb is smaller than the magnitude of the negative short value being converted (e.g. 2^126+7 or 2^253+39)"

seed("s10", "C12", "a prime that fills its top limb (secp256k1) and operands whose sum carries out of the top limb, on the portable build",
     "the portable addition ignores the carry of mpn_add_n",
     [("src/fr_raw_generic.cpp.ejs", """    uint64_t carry = mpn_add_n(pRawResult, pRawA, pRawB, <%=name%>_N64);

    if(carry || mpn_cmp(""", """    mpn_add_n(pRawResult, pRawA, pRawB, <%=name%>_N64);

    if(mpn_cmp(""")], """
f = Field("secp256k1q", "gen")
want("rawAdd(q-1, q-1)", f.rawop("rawAdd", f.q - 1, f.q - 1), f.q - 2)
""")

seed("s11", "C13", "adding two short elements whose sum is below -2^31, on the portable build",
     "the overflow test of short additions misses negative overflow, so the sum wraps round",
     [("src/fr_generic.cpp.ejs", "    return signs == 1 || signs == 2;", "    return signs == 1;")], """
f = Field("bn128r", "gen")
for a, b in ((5, 6), (2**31 - 1, 1), (-(2**31), -1), (-(2**31), -(2**31)), (-3, -4)):
    want("add %d %d" % (a, b), f.op("add", f.el("S", a), f.el("S", b)), (a + b) % f.q)
""")

seed("s12", "C11", "a caller that keeps a live value in rbx across a raw right shift",
     "the right shift uses a register that belongs to the caller",
     [("src/binops.asm.ejs", """        mov r11, [rsi + r8*8 + <%= (i+1)*8 %> ]
        rol cx, 8
        shl r11, cl
        rol cx, 8
        and r11, r10
        or rax, r11
        mov [rdi + <%= i*8 %>], rax

        jmp rawShr_endif""", """        mov rbx, [rsi + r8*8 + <%= (i+1)*8 %> ]
        rol cx, 8
        shl rbx, cl
        rol cx, 8
        and rbx, r10
        or rax, rbx
        mov [rdi + <%= i*8 %>], rax

        jmp rawShr_endif""")], """
f = Field("bn128r")
r = f.call("rawShr", [f.raw(0), f.raw(f.q - 5), 7])
want("result", int.from_bytes(r[1][0], "little"), (f.q - 5) >> 7)
want("registers the caller owns", r[3], 0)
""")

seed("s13", "C04", "subtracting two short elements whose difference does not fit 32 bits and whose second operand is negative",
     "the 64 bit fallback of a short subtraction reads the second operand as unsigned",
     [("src/sub.asm.ejs", """        movsx  rsi, eax
        movsx  rdx, ecx
        sub    rsi, rdx""", """        movsx  rsi, eax
        mov    edx, ecx
        sub    rsi, rdx""")], """
f = Field("bn128r")
for a, b in ((5, 6), (-5, 6), (2**31 - 1, -1), (-(2**31), 1), (2**31 - 1, -(2**31))):
    want("sub %d %d" % (a, b), f.op("sub", f.el("S", a), f.el("S", b)), (a - b) % f.q)
""")


# ---- bugs in the C++ library ----------------------------------------------------------------
def cseed(sid, prop, needs, breaks, edits, body, srcs="", pre="", flags="", kit=("../harness/sf.hpp", "../harness/sfnative.cpp"), **k):
    sh = ('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nt="$(mktemp -d)"\n'
          'g++ -std=c++17 -O1 -w %s -I "$d" -I "$PWD/c" "$d/demo.cpp" %s -o "$t/demo" -lgmp -lpthread || exit 90\n'
          'timeout 120 "$t/demo"\nr=$?\nrm -f "$t/demo"\nrmdir "$t"\nexit $r\n') % (flags, srcs)
    cpp = ("#include <cstdio>\n#include <cstdlib>\n#include <stdexcept>\n#include <memory>\n" + pre +
           "static int bad = 0;\n#define WANT(what, c) do { if (!(c)) { printf(\"wrong: %s\\n\", what); bad = 1; } } while (0)\n" + body)
    seed(sid, prop, needs, breaks, edits, sh, kind="c", files={"demo.cpp": cpp}, copy=kit, **k)


TOWER = """#include "sf.hpp"
#include "sfnative.cpp"
SymF SymF::field;
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
typedef F2Field<SymF> F2; typedef F6Field<F2> F6; typedef F12Field<F6> F12;
static uint64_t rs = 88172645463325252ull;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs % P; }
static void ran(F2::Element &e) { e.a.v = rnd(); e.b.v = rnd(); }
static void ran(F6::Element &e) { ran(e.x); ran(e.y); ran(e.z); }
static void ran(F12::Element &e) { ran(e.x); ran(e.y); }
"""
CURVE = """#include "sf.hpp"
#include "sfnative.cpp"
SymF SymF::field;
#include "curve.hpp"
typedef Curve<SymF> C; typedef SymF::Element E;
static E el(int64_t v) { E e; sf_const(&e.v, v); return e; }
struct Set { SymF F; E a, b, x, y; Set(int64_t A, int64_t X, int64_t Y) { a = el(A); x = el(X); y = el(Y);
    E t, u; F.mul(t, x, x); F.mul(t, t, x); F.mul(u, a, x); F.add(t, t, u); F.mul(u, y, y); F.sub(b, u, t); } };
static void scale(C &G, C::Point &p, int64_t z) { E t = el(z), t2, t3; SymF F; F.mul(t2, t, t); F.mul(t3, t2, t);
    F.mul(p.x, p.x, t2); F.mul(p.y, p.y, t3); F.mul(p.zz, p.zz, t2); F.mul(p.zzz, p.zzz, t3); }
"""
MAIN = "int main() {\n%s    return bad;\n}\n"

cseed("s14", "C17", "multiplication whose result is stored over its first operand",
      "the first coefficient of the result is written before the sum of the operand's coefficients is taken",
      [("c/f2field.cpp", """    typename BaseField::Element sum1, sum2;
    F.add(sum1, e1.a, e1.b);
    F.add(sum2, e2.a, e2.b);

    F.add(r.a, aa, bbr);

    F.mul(r.b""", """    typename BaseField::Element sum1, sum2;
    F.add(r.a, aa, bbr);

    F.add(sum1, e1.a, e1.b);
    F.add(sum2, e2.a, e2.b);

    F.mul(r.b""")], MAIN % """    F2 f("-1"); F2::Element a, b, c, d;
    for (int i = 0; i < 20; i++) { ran(a); ran(b); f.mul(c, a, b); f.copy(d, a); f.mul(d, d, b); WANT("a *= b", f.eq(c, d));
        f.copy(d, b); f.mul(d, a, d); WANT("b = a*b", f.eq(c, d)); f.inv(d, a); f.mul(c, a, d); WANT("a * 1/a", f.isOne(c)); }
""", "c/splitparstr.cpp", TOWER)

cseed("s15", "C17", "an extension whose non-residue is not -1",
      "inversion takes the norm as if the non-residue were -1",
      [("c/f2field.cpp", """    mulByNr(t2, t1);
    F.sub(t2, t0, t2);
    F.inv(t3, t2);""", """    F.add(t2, t0, t1);
    F.inv(t3, t2);""")], MAIN % """    const char *nrs[] = {"-1", "3", "-2", "5"};
    for (int k = 0; k < 4; k++) { F2 f(nrs[k]); F2::Element a, c, d;
        for (int i = 0; i < 20; i++) { ran(a); f.inv(d, a); f.mul(c, a, d); WANT(nrs[k], f.isOne(c)); } }
""", "c/splitparstr.cpp", TOWER)

cseed("s16", "C18", "multiplication by tau whose result is stored over its operand",
      "the coefficient that wraps round is read after it has been overwritten",
      [("c/f6field.cpp", """    F.mulXi(tz, a.x);
    F.copy(ty, a.y);
    F.copy(r.y, a.z);
    F.copy(r.x, ty);
    F.copy(r.z, tz);""", """    F.copy(ty, a.y);
    F.copy(r.y, a.z);
    F.copy(r.x, ty);
    F.mulXi(tz, a.x);
    F.copy(r.z, tz);""")], MAIN % """    F6 f; F6::Element a, c, d;
    for (int i = 0; i < 20; i++) { ran(a); f.mulTau(c, a); f.copy(d, a); f.mulTau(d, d); WANT("in place", f.eq(c, d)); }
""", "c/splitparstr.cpp", TOWER)

cseed("s17", "C19", "an exponent whose topmost bit is set",
      "the exponentiation starts one bit too low",
      [("c/f12field.cpp", "for (int i=scalarSize*8-1; i>=0; i--)", "for (int i=scalarSize*8-2; i>=0; i--)")], MAIN % """    F12 f; F12::Element a, c, d;
    ran(a);
    for (int e = 1; e < 256; e++) { uint8_t s[1] = {(uint8_t)e}; f.exp(c, a, s, 1); f.copy(d, a); for (int i = 1; i < e; i++) f.mul(d, d, a);
        WANT("exp", f.eq(c, d)); }
""", "c/splitparstr.cpp", TOWER)

cseed("s18", "C20", "a curve whose coefficient a is 1 or -1",
      "doubling only adds the a term when a is a general constant",
      [("c/curve.cpp", "    if (typeOfA != a_is_zero) {", "    if (typeOfA == a_is_long) {")], MAIN % """    int64_t as[] = {0, 1, -1, 5};
    for (int k = 0; k < 4; k++) { Set s(as[k], 123456789, 987654321); SymF F; C G(F, s.a, s.b, s.x, s.y);
        C::Point p, q, r; C::PointAffine g; g.x = s.x; g.y = s.y; G.copy(p, g); scale(G, p, 77); G.dbl(q, p); G.dbl(r, g);
        WANT("2P", G.eq(q, r)); }
""", "c/naf.cpp", CURVE)

cseed("s19", "C20", "two affine points that are opposite to each other",
      "the sum of opposite affine points is taken for a doubling",
      [("c/curve.cpp", """    F.sub(R, p2.y, p1.y);

    if (F.isZero(P) && F.isZero(R)) return dbl(p3, p2);""", """    F.sub(R, p2.y, p1.y);

    if (F.isZero(P)) return dbl(p3, p2);""")], MAIN % """    Set s(5, 123456789, 987654321); SymF F; C G(F, s.a, s.b, s.x, s.y);
    C::PointAffine g, h; g.x = s.x; g.y = s.y; G.neg(h, g); C::Point p; G.add(p, g, h); WANT("P + -P", G.isZero(p));
    C::Point q; G.add(p, g, g); G.dbl(q, g); WANT("P + P", G.eq(p, q));
""", "c/naf.cpp", CURVE)

cseed("s20", "C21", "comparing an affine point with a projective one whose denominator is not 1",
      "the ordinate is scaled by the wrong power of the denominator",
      [("c/curve.cpp", """    // S2 = Y2*ZZZ1
    typename BaseField::Element S2;
    F.mul(S2, p2.y, p1.zzz);

    // P = U2-X1
    typename BaseField::Element P;
    F.sub(P, U2, p1.x);

    // R = S2-Y1
    typename BaseField::Element R;
    F.sub(R, S2, p1.y);

    return (""", """    // S2 = Y2*ZZZ1
    typename BaseField::Element S2;
    F.mul(S2, p2.y, p1.zz);

    // P = U2-X1
    typename BaseField::Element P;
    F.sub(P, U2, p1.x);

    // R = S2-Y1
    typename BaseField::Element R;
    F.sub(R, S2, p1.y);

    return (""")], MAIN % """    Set s(5, 123456789, 987654321); SymF F; C G(F, s.a, s.b, s.x, s.y);
    C::PointAffine g, h; g.x = s.x; g.y = s.y; C::Point p; G.copy(p, g); WANT("P == P", G.eq(p, g)); scale(G, p, 1234567);
    WANT("P == P scaled", G.eq(p, g)); G.neg(h, g); WANT("P != -P", !G.eq(p, h));
""", "c/naf.cpp", CURVE)

cseed("s21", "C22", "a scalar whose recoding carries into its last byte (a run of ones crosses that boundary)",
      "the carry into the last byte of the scalar is dropped",
      [("c/naf.cpp", "if (carry) st += 0x200;", "if (carry && i!=scalarSize-1) st += 0x200;")], MAIN % """    for (int v = 0; v < 65536; v++) { uint8_t s[2] = {(uint8_t)v, (uint8_t)(v >> 8)}, r[32]; buildNaf(r, s, 2);
        long k = 0; for (int i = 17; i >= 0; i--) { k *= 2; if (r[i] == 1) k++; if (r[i] == 2) k--; } if (k != v) { WANT("recoding", 0); break; } }
""", "c/naf.cpp", '#include <cstdint>\n#include "naf.hpp"\n', kit=())

cseed("s22", "C28", "an item with white space other than a blank or a tab, such as a carriage return",
      "carriage returns are kept as part of the items",
      [("c/splitparstr.cpp", "if (std::isspace(s[i])) continue;", "if ((s[i] == ' ')||(s[i] == '\\t')||(s[i] == '\\n')) continue;")], MAIN % """    const char *in[] = {"a,b", "a ,\\tb", "a\\n,b", "a\\r\\n,b"};
    for (int i = 0; i < 4; i++) { auto v = splitParStr(in[i]); WANT("white space", v.size() == 2 && v[0] == "a" && v[1] == "b"); }
""", "c/splitparstr.cpp", '#include "splitparstr.hpp"\n', kit=())

cseed("s23", "C31", "an argument of 2^17 or more whose bits below the top half are sparse",
      "the smearing of the top bit stops eight bits down, so large sparse values miss the table",
      [("c/misc.cpp", "    value |= value >> 16;\n", "")], MAIN % """    for (int b = 0; b < 32; b++) { uint32_t v = 1u << b; WANT("log2", log2(v) == (uint32_t)b); WANT("log2", log2(v | (v - 1)) == (uint32_t)b); }
""", "c/misc.cpp", '#include <stdexcept>\n#include "misc.hpp"\n', kit=())

cseed("s24", "C31", "more threads than half the work items, with a remainder above one",
      "the remainder is handed out again from the first job, so that a job gets too many items and others too few, or the total is off",
      [("c/misc.hpp", """        for (int i = 0; i < elementRest; i++) {
            jobs[i] += 1;
        }""", """        for (int i = 0; i < elementRest; i++) {
            jobs[i % jobSize] += 1;
        }""")], MAIN % """    for (int n = 1; n < 60; n++) for (int t = 1; t < 20; t++) { auto v = ThreadPool::divideWork(n, t); int s = 0, lo = n, hi = 0;
        for (int x : v) { s += x; if (x < lo) lo = x; if (x > hi) hi = x; } WANT("shares", s == n && hi - lo <= 1 && lo > 0); }
""", "c/misc.cpp", '#include <stdexcept>\n#include "misc.hpp"\n', kit=())
SEEDS["s24"]["needs"] = "a number of items between one and two times the number of threads (or a small quotient) with a remainder above the quotient"

cseed("s27", "C23", "a scalar whose signed recoding is one digit longer than the scalar (its top bits are 11 or 1011...)",
      "the digit above the scalar's own bits is not looked at",
      [("c/exp.hpp", "int nBits = (scalarSize*8)+2;", "int nBits = scalarSize*8;")], MAIN % """    Set s(5, 123456789, 987654321); SymF F; C G(F, s.a, s.b, s.x, s.y);
    C::PointAffine g; g.x = s.x; g.y = s.y; C::Point p, q, t; G.copy(q, G.zero()); G.copy(t, g);
    for (int v = 0; v < 256; v++) { uint8_t b[1] = {(uint8_t)v}; G.mulByScalar(p, t, b, 1); WANT("multiple", G.eq(p, q)); G.add(q, q, t); }
""", "c/naf.cpp", CURVE)

MULTI = """#include <cstring>
#include <thread>
#include <vector>
#include "misc.hpp"
static const uint64_t P = ((uint64_t)1 << 61) - 1;
static bool slow = false;
struct G {
    struct Point { uint64_t v; }; typedef Point PointAffine; Point z{0}, za{0};
    Point &zero() { return z; } Point &zeroAffine() { return za; }
    void add(Point &r, Point &a, Point &b) { uint64_t x = a.v, y = b.v; if (slow) std::this_thread::sleep_for(std::chrono::microseconds(20)); r.v = (x + y) % P; }
    void sub(Point &r, Point &a, Point &b) { uint64_t x = a.v, y = b.v; if (slow) std::this_thread::sleep_for(std::chrono::microseconds(20)); r.v = (x + P - y) % P; }
    void dbl(Point &r, Point &a) { add(r, a, a); }
    void neg(Point &r, Point &a) { r.v = (P - a.v) % P; }
    void copy(Point &r, Point &a) { r.v = a.v; }
    bool eq(Point &a, Point &b) { return a.v == b.v; }
    bool isZero(Point &a) { return a.v == 0; }
    void mulByScalar(Point &r, Point &a, uint8_t *s, unsigned n) { uint64_t x = 0, b = a.v; for (int i = 8 * n - 1; i >= 0; i--) {
        x = x * 2 % P; if (s[i / 8] >> (i % 8) & 1) x = (x + b) % P; } r.v = x; }
};
struct Fd {};
#include "multiexp.hpp"
#include "msm.hpp"
static uint64_t rs = 88172645463325252ull;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs % P; }
static G g;
struct Job { int n, ss; std::vector<G::Point> b; std::vector<uint8_t> s; uint64_t want;
    Job(int N, int SS, int top) : n(N), ss(SS), b(N), s(N * SS + 8), want(0) {
        for (int i = 0; i < n; i++) { b[i].v = rnd(); for (int j = 0; j < ss; j++) s[i * ss + j] = rnd() >> 20; s[i * ss + ss - 1] &= top;
            G::Point r; g.mulByScalar(r, b[i], &s[i * ss], ss); want = (want + r.v) % P; } } };
"""
cseed("s28", "C24", "two or more threads, and scalars of several windows",
      "the accumulators of the other threads keep their sums from one window to the next",
      [("c/multiexp.cpp", """                g.add(accs[i].p, accs[i].p, accs[j*accsPerChunk + i].p);
                g.copy(accs[j*accsPerChunk + i].p, g.zero());
""", """                g.add(accs[i].p, accs[i].p, accs[j*accsPerChunk + i].p);
""")], MAIN % """    for (int t = 1; t < 4; t++) for (int k = 0; k < 10; k++) { Job j(2 + 3 * k, 32, 255); G::Point r; ParallelMultiexp<G> m(g);
        m.multiexp(r, j.b.data(), j.s.data(), j.ss, j.n, t); WANT("sum", r.v == j.want); }
""", "c/misc.cpp", MULTI, "-fopenmp -DUSE_OPENMP", kit=())
cseed("s29", "C24", "scalars with bits in their last seven bytes",
      "windows near the end of a scalar are shifted as if the eight bytes read began at the window",
      [("c/multiexp.cpp", "uint64_t shift = bitStart - byteStart*8;", "uint64_t shift = bitStart % 8;")], MAIN % """    for (int k = 0; k < 20; k++) { Job j(2 + k, 8 + k, k & 1 ? 255 : 1); G::Point r; ParallelMultiexp<G> m(g);
        m.multiexp(r, j.b.data(), j.s.data(), j.ss, j.n, 1); WANT("sum", r.v == j.want); }
""", "c/misc.cpp", MULTI, kit=())
cseed("s30", "C25", "two or more threads working on different windows at the same time",
      "all threads share the same buckets",
      [("c/msm.cpp", "*buckets = &bucketMatrix[numThread*nBuckets];", "*buckets = bucketMatrix.get();")], MAIN % """    slow = true;
    for (int k = 0; k < 10; k++) { Job j(20 + k, 32, 63); G::Point r; MSM<G, Fd> m(g); m.run(r, j.b.data(), j.s.data(), j.ss, j.n);
        WANT("sum", r.v == j.want); }
""", "c/misc.cpp", MULTI, kit=())
cseed("s31", "C25", "a scalar in which an odd window follows a window that carries",
      "the carry is ored instead of added to the next window",
      [("c/msm.cpp", "int bucketIndex = getBucketIndex(i, j) + carry;", "int bucketIndex = getBucketIndex(i, j) | carry;")], MAIN % """    for (int k = 0; k < 10; k++) { Job j(2 + k, 32, 63); G::Point r; MSM<G, Fd> m(g); m.run(r, j.b.data(), j.s.data(), j.ss, j.n);
        WANT("sum", r.v == j.want); }
""", "c/misc.cpp", MULTI, kit=())

# ---- bugs in the generators written in JavaScript ---------------------------------------------
seed("s25", "C02", "a product whose value before the final subtraction agrees with q in every limb but the lowest, and is smaller there",
     "the final comparison with q leaves out the lowest limb, so q is subtracted from a smaller number",
     [("src/montgomerybuilder.js", """    for (let i=n64-1; i>=0; i--) {
        c.op("cmp", t+i""", """    for (let i=n64-1; i>=Math.min(1, n64-1); i--) {
        c.op("cmp", t+i""")], """
for pr in ("bn128r", "secp256k1q", "p64", "bls12_381q"):
    f = Field(pr)
    Ri = pow(f.R, -1, f.q)
    for k in (1, 2, 5, 77):
        for o in (1, f.R % f.q, f.R * f.R % f.q, 12345):
            a = (f.q - k) * f.R * pow(o, -1, f.q) % f.q
            want("%s rawMMul" % pr, f.rawop("rawMMul", a, o), f.q - k)
        want("%s rawFromMontgomery" % pr, f.rawop("rawFromMontgomery", (f.q - k) * f.R % f.q), f.q - k)
""")

seed("s26", "C11", "a prime of six limbs (bls12-381) and a caller that keeps a value in rbx across a Montgomery multiplication",
     "the register allocator saves at most five callee-saved registers although it hands out six",
     [("src/asmbuilder.js", "this.pushableRegs.slice(0, this.nUsedRegs - this.availableRegs.length);",
       "this.pushableRegs.slice(0, Math.min(this.nUsedRegs - this.availableRegs.length, 5));")], """
f = Field("bls12_381q")
r = f.call("rawMMul", [f.raw(0), f.raw(f.q - 5), f.raw(f.q - 7)])
want("result", int.from_bytes(r[1][0], "little"), 35 * pow(f.R, -1, f.q) % f.q)
want("registers the caller owns", r[3], 0)
""")
