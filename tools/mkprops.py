"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


NOTEST = "The reliable tests only exercise string splitting; none of them generates or runs a field or curve. "

p("C01", "x86-64 raw addition, subtraction and negation are exact modulo q",
  "For every pair of canonical operands (below the modulus), the generated x86-64 raw add, sub and neg return the canonical representative of a+b, a-b and -a modulo q. This holds whether or not the result and operand buffers are the same object, and operands that are not the result are left unchanged.",
  ["inputs", "configurations"], "all canonical operand pairs; every result/operand aliasing pattern; primes with and without a spare top bit, 1 to 6 limbs",
  NOTEST + "Carry and borrow corner cases (sum crossing 2^(64n), result exactly q or 0) have probability around 2^-64 per sample.",
  ["src/add.asm.ejs", "src/sub.asm.ejs", "src/neg.asm.ejs", "src/buildzqfield.js"],
  [("limb-wise add with conditional subtraction of q", "src/add.asm.ejs rawAddLL"), ("limb-wise sub with conditional addition of q", "src/sub.asm.ejs rawSubLL"), ("q minus a, zero kept", "src/neg.asm.ejs rawNegL")])

p("C02", "x86-64 Montgomery arithmetic is exact modulo q",
  "For every canonical operand, the generated x86-64 Montgomery multiply, square, multiply-by-one-limb, and conversions to and from Montgomery form return the canonical representative of a*b/R, a*a/R, a*w/R, a*R and a/R modulo q, where R = 2^(64n). The result may share its buffer with an operand.",
  ["inputs", "configurations"], "all canonical operands, all 64-bit single-limb multipliers; every aliasing pattern; primes that take the no-carry path and primes that do not",
  NOTEST + "Lost carries in the interleaved reduction appear only for operands whose partial products saturate particular limbs.",
  ["src/montgomery.asm.ejs", "src/montgomerybuilder.js", "src/mul.asm.ejs", "src/buildzqfield.js"],
  [("interleaved multiply/reduce generator", "src/montgomerybuilder.js"), ("no-carry optimisation decision", "src/buildzqfield.js canOptimizeConsensys"), ("constants np, R2, R3", "src/buildzqfield.js")])

p("C03", "x86-64 raw copy, swap, comparison and shifts do exactly what they say",
  "The generated x86-64 raw copy duplicates its operand, swap exchanges two operands, equality and zero tests are true exactly when the values are equal or zero, and shifts by less than the modulus bit length return the shifted value, left shifts being truncated to the modulus bit length and then reduced by q at most once. No other memory changes.",
  ["inputs"], "all canonical values, all shift amounts below the bit length of q, shared or distinct buffers",
  NOTEST + "A comparison that ignores one limb, or a shift that is wrong only at a word boundary, is invisible to sampling.",
  ["src/copy.asm.ejs", "src/cmpops.asm.ejs", "src/binops.asm.ejs", "src/fr.asm.ejs"],
  [("rawCopy/rawSwap", "src/copy.asm.ejs"), ("rawIsEq/rawIsZero", "src/cmpops.asm.ejs"), ("rawShl/rawShr", "src/binops.asm.ejs")])

p("C04", "x86-64 element add, subtract and negate do not depend on representation",
  "Adding, subtracting or negating field elements with the generated x86-64 code gives an element that stands for the exact sum, difference or negation modulo q and that is well formed (reduced, with agreeing halves). This holds for every combination of the short, short-Montgomery, long and long-Montgomery representations of the operands. The result may share storage with an operand.",
  ["inputs", "configurations"], "all values and all 16 representation pairs (4 for negation), including 32-bit overflow of the short form; result and operands the same object or distinct",
  NOTEST + "Each representation pair has its own code path and each path has overflow boundaries that a handful of samples does not reach.",
  ["src/add.asm.ejs", "src/sub.asm.ejs", "src/neg.asm.ejs"],
  [("type dispatch of add", "src/add.asm.ejs"), ("type dispatch of sub", "src/sub.asm.ejs"), ("type dispatch of neg", "src/neg.asm.ejs")])

p("C05", "x86-64 element multiply and square do not depend on representation",
  "Multiplying or squaring field elements with the generated x86-64 code gives a well-formed element standing for the exact product modulo q. This holds for every combination of operand representations. The result may share storage with an operand.",
  ["inputs", "configurations"], "all values and all 16 representation pairs (4 for squaring), including products of short values that overflow 32 bits",
  NOTEST + "Sixteen dispatch paths choose between conversions; a wrong power of R or a missed overflow only shows for particular representations and magnitudes.",
  ["src/mul.asm.ejs", "src/montgomery.asm.ejs"],
  [("type dispatch of mul/square", "src/mul.asm.ejs"), ("Montgomery helpers", "src/montgomery.asm.ejs")])

p("C06", "x86-64 element comparisons follow signed order in every representation",
  "Equality and order comparisons of field elements return 1 when the relation holds and 0 otherwise. Equality is equality modulo q and order is that of the signed values in (-q/2, q/2]; the answer does not depend on how either operand is represented.",
  ["inputs", "configurations"], "all values and all 16 representation pairs for eq, neq, lt, gt, leq, geq",
  NOTEST + "Order flips around (q-1)/2 and at limb boundaries, one value in 2^254.",
  ["src/cmpops.asm.ejs"],
  [("comparison builders rltRawL1L2 / binOpCmp", "src/cmpops.asm.ejs"), ("half constant", "src/fr.asm.ejs")])

p("C07", "x86-64 bitwise operators act on canonical values in every representation",
  "Bitwise and, or, xor and not of field elements give the operator applied to the canonical values below q, truncated to the bit length of q and reduced by q at most once. The answer does not depend on how the operands are represented. The result may share storage with an operand.",
  ["inputs", "configurations"], "all values and all representation combinations, including negative short values",
  NOTEST + "Results at or above q, and negative short operands, are the boundary and are not sampled.",
  ["src/binops.asm.ejs"],
  [("binOp generator, mask and final subtraction", "src/binops.asm.ejs")])

p("C08", "x86-64 element shifts obey the signed-shift rule for every amount",
  "Shifting a field element left or right by k below the bit length of q equals shifting its canonical value, left shifts being truncated to that bit length and reduced by q at most once; an amount q-k shifts by k the other way and every other amount gives zero. This holds for every representation of value and amount. The result may share storage with an operand.",
  ["inputs", "configurations"], "all values, all amounts (short and long, positive, negative, out of range), all representation pairs",
  NOTEST + "Shift amounts at word boundaries, at the bit length, or given in Montgomery or negative form are separate code paths.",
  ["src/binops.asm.ejs"],
  [("shl/shr dispatch, do_shlcl/do_shrcl, rawShl/rawShr", "src/binops.asm.ejs")])

p("C09", "x86-64 logical operators and truth test depend only on zero or non-zero",
  "Logical and, or and not of field elements return the element 1 or 0, and the truth test returns 1 or 0, according only to whether the operand values are zero modulo q. This holds for every representation of the operands.",
  ["inputs", "configurations"], "all values and all representation combinations",
  NOTEST + "A zero test that skips a limb is wrong for 2^-64 of the inputs.",
  ["src/logicalops.asm.ejs"],
  [("isTrue / logical ops generator", "src/logicalops.asm.ejs")])

p("C10", "x86-64 representation changes and copies preserve the value",
  "Copying an element or an array of elements, and changing an element to normal, long normal or Montgomery representation, yields a well-formed element with the same value in the requested form (an element kept as a short value counts as normal, because the short value is directly readable). Conversion to a 32-bit integer returns exactly the signed value whenever that value fits, and otherwise invokes the failure handler.",
  ["inputs", "configurations"], "all values and representations; arrays of 0 to 3 elements; values on both sides of the 32-bit limits",
  NOTEST + "Values within 2^31 of q, or Montgomery encodings of small numbers, are not sampled.",
  ["src/utils.asm.ejs", "src/copy.asm.ejs", "src/montgomery.asm.ejs"],
  [("toInt and rawCopyS2L", "src/utils.asm.ejs"), ("copy/copyn", "src/copy.asm.ejs"), ("toNormal/toLongNormal/toMontgomery", "src/montgomery.asm.ejs")])

p("C11", "Generated x86-64 routines respect the calling convention and memory bounds",
  "Every exported routine of the generated x86-64 field, for every input, returns with callee-saved registers, stack pointer and direction flag as on entry, reads only its operands and constants, and writes only its result and its own stack. The stack is suitably aligned whenever it calls out to the failure handler.",
  ["inputs", "configurations"], "every exported routine, all operand representations and values",
  NOTEST + "A clobbered register or an out-of-bounds access is harmless in most callers and shows only under particular compilers or layouts.",
  ["src/fr.asm.ejs", "src/add.asm.ejs", "src/mul.asm.ejs", "src/binops.asm.ejs", "src/cmpops.asm.ejs", "src/utils.asm.ejs", "src/montgomerybuilder.js", "src/asmbuilder.js"],
  [("push/pop pairs in every routine", "src/*.asm.ejs"), ("register allocation of the generator", "src/asmbuilder.js")])

p("C12", "Portable raw field routines compute the same exact results",
  "The portable (non-assembly) raw add, sub, neg, Montgomery multiply, square, single-limb multiply, conversions, copy, swap, comparisons and shifts return the same canonical results modulo q as specified for the x86-64 build. This holds for every canonical operand.",
  ["inputs", "configurations"], "all canonical operands; shared or distinct buffers; primes with and without a spare top bit",
  NOTEST + "The portable code has its own carry handling and its own optimised variant; errors need saturated limbs.",
  ["src/fr_raw_generic.cpp.ejs"],
  [("multi-limb routines on top of the GMP low-level functions", "src/fr_raw_generic.cpp.ejs")])

p("C13", "Portable element operations agree with field arithmetic in every representation",
  "The portable element operations (add, sub, neg, mul, square, comparisons, bitwise, shifts, logical, copies and conversions) return the mathematically specified value modulo q, well formed, whatever the representation of the operands and even when the result shares storage with one of them. They are interchangeable with the x86-64 ones.",
  ["inputs", "configurations"], "all values and representation combinations",
  NOTEST + "The type dispatch is separate C++ code with its own boundaries.",
  ["src/fr_generic.cpp.ejs"],
  [("type dispatch in C++", "src/fr_generic.cpp.ejs")])

p("C14", "ARM64 raw field routines compute the same exact results",
  "The generated ARM64 raw routines return the same canonical results modulo q as the portable ones for every canonical operand. They preserve callee-saved registers and touch no memory but their operands, constants and stack.",
  ["inputs", "configurations"], "all canonical operands; shared or distinct buffers",
  "No test assembles or runs the ARM64 code, and no ARM64 machine is involved in the test run.",
  ["src/fr_raw_arm64.s.ejs", "src/armbuilder.js", "src/buildzqfield.js"],
  [("ARM64 generator", "src/armbuilder.js"), ("raw routines", "src/fr_raw_arm64.s.ejs")])

p("C15", "Integer division, modulo, power and inverse act on canonical field values",
  "Integer division and modulo of elements equal floor division and remainder of the canonical values, power raises to the canonical exponent modulo q, inverse returns the modular inverse, and division multiplies by it. The results are well formed and do not depend on operand representation.",
  ["inputs", "configurations"], "all values and representations of the operands (divisor non-zero where division is involved)",
  NOTEST + "The conversions to and from big integers have a separate path for each representation.",
  ["src/fr.cpp.ejs"],
  [("conversion to and from big integers", "src/fr.cpp.ejs toMpz/fromMpz"), ("idiv, mod, pow, inv, div", "src/fr.cpp.ejs")])

p("C16", "The C++ field class keeps exact values across set, read-back and serialisation",
  "Values set from small integers, from big integers or from big-endian bytes and read back with the C++ field class are the same values modulo q; addition, subtraction, multiplication, squaring, negation, inversion, division and exponentiation through the class equal the field operations.",
  ["inputs"], "all integer and byte-string inputs of the element size; all exponent bit patterns up to the stated length",
  NOTEST + "Leading zero bytes, short values and limb boundaries need particular inputs.",
  ["src/fr.cpp.ejs", "src/fr.hpp.ejs", "c/exp.hpp"],
  [("set/fromUI/fromMpz/toMpz/toRprBE/fromRprBE", "src/fr.cpp.ejs"), ("square-and-multiply", "c/exp.hpp nafMulByScalar / exp")])

p("C17", "Quadratic extension arithmetic is exact in every commutative base field",
  "In the quadratic extension with u^2 equal to the configured non-residue, add, sub, neg, multiply, multiply by a base element, square, conjugate, norm-based inverse and division satisfy their defining polynomial identities. This holds for every operand, every supported non-residue kind and when results share storage with operands.",
  ["inputs", "configurations"], "all operand values (as free indeterminates), non-residue -1, 1 and arbitrary; all result/operand sharing patterns",
  NOTEST + "A wrong cross term cancels for special operands and needs an identity over all values.",
  ["c/f2field.hpp", "c/f2field.cpp"],
  [("Karatsuba multiply, specialised square", "c/f2field.cpp")])

p("C18", "Cubic extension arithmetic is exact over every base field",
  "In the cubic extension with v^3 equal to the configured non-residue, add, sub, neg, multiply, square, inverse and division satisfy their defining polynomial identities. This holds for every operand and when results share storage with operands.",
  ["inputs", "configurations"], "all operand values as free indeterminates; all result/operand sharing patterns",
  NOTEST, ["c/f6field.hpp", "c/f6field.cpp"],
  [("Toom-style multiply, inverse through cofactors", "c/f6field.cpp")])

p("C19", "Twelfth-degree extension arithmetic is exact",
  "In the quadratic extension of the cubic extension with w^2 equal to v, add, sub, neg, multiply, square, inverse, conjugate and exponentiation satisfy their defining identities for every operand, also when results share storage with operands.",
  ["inputs", "configurations"], "all operand values as free indeterminates; all sharing patterns; exponent bytes up to the stated length",
  NOTEST, ["c/f12field.hpp", "c/f12field.cpp"],
  [("Karatsuba over the cubic extension", "c/f12field.cpp")])

p("C20", "Curve addition and doubling follow the group law in every coordinate mix",
  "For points on the curve in any mix of affine and extended projective form, addition, subtraction, doubling and negation return a consistent representation of the group-law result, including the point at infinity, equal points and opposite points. The result may share storage with an operand.",
  ["inputs", "configurations"], "all points and all projective scalings as free indeterminates, including infinity, P+P and P-P; coefficient a equal to 0, 1, -1 or arbitrary; all coordinate mixes",
  NOTEST + "Degenerate cases have negligible probability under random sampling and each coordinate mix has its own formulas.",
  ["c/curve.hpp", "c/curve.cpp"],
  [("add/dbl formulas and special cases", "c/curve.cpp")])

p("C21", "Curve equality, zero test, copy and conversion respect equivalence of points",
  "Two points compare equal exactly when they denote the same curve point whatever their coordinates; the zero test is true exactly for infinity; copying between affine and projective form preserves the point.",
  ["inputs", "configurations"], "all points and projective scalings, including infinity; all coordinate mixes",
  NOTEST, ["c/curve.hpp", "c/curve.cpp"],
  [("eq, isZero, copy", "c/curve.cpp")])

p("C22", "Signed-digit recoding represents the scalar exactly",
  "Recoding a little-endian scalar into signed digits yields digits 0, 1 or -1, no two adjacent ones non-zero, whose weighted sum is exactly the scalar. The recoding writes exactly eight digits per scalar byte plus sixteen.",
  ["inputs"], "every scalar of every length from one byte up to the stated bound, and inductively over the per-byte carry state",
  NOTEST + "Carry chains across bytes depend on long runs of ones.",
  ["c/naf.cpp", "c/exp.hpp"],
  [("table-driven recoding", "c/naf.cpp buildNaf/buildNafTable")])

p("C23", "Scalar multiplication and exponentiation compute k times the base",
  "Scalar multiplication of a point (or exponentiation of an element) by a little-endian byte scalar of any length returns the base combined with itself exactly k times in the group, including k zero and one, and including results that share storage with the base.",
  ["inputs"], "every scalar up to the stated byte length; group elements are free symbols of an arbitrary abelian group",
  NOTEST, ["c/exp.hpp", "c/exp2.hpp", "c/naf.cpp", "c/curve.hpp"],
  [("double-and-add over signed digits", "c/exp.hpp nafMulByScalar")])

p("C24", "Bucketed multi-exponentiation equals the sum of scalar multiples",
  "Multi-scalar multiplication returns exactly the sum of scalar times base over all n pairs, for every list of scalars, every positive scalar length and every thread count, and reads only the given bases and scalars. With a list of column lengths, it returns the sum over the pairs whose row lies within their column.",
  ["inputs", "configurations", "schedules"], "all scalar bytes and symbolic bases up to the stated n and scalar length; thread counts 1 to 3; threads joined at barriers with disjoint writes checked",
  NOTEST + "Chunk boundaries, bucket widths and thread partition each have off-by-one cases that need particular scalars.",
  ["c/multiexp.hpp", "c/multiexp.cpp", "c/curve.hpp"],
  [("chunk extraction, bucket accumulation, pairwise reduction", "c/multiexp.cpp")])

p("C25", "Signed-bucket multi-scalar multiplication equals the sum of scalar multiples",
  "The signed-bucket multi-scalar multiplication returns exactly the sum of scalar times base over all n pairs, for every list of scalars, every positive scalar length and every thread count, and reads only the given bases and scalars.",
  ["inputs", "configurations", "schedules"], "all scalar bytes and symbolic bases up to the stated n and scalar length; thread counts 1 to 3",
  NOTEST, ["c/msm.hpp", "c/msm.cpp", "c/misc.hpp"],
  [("signed slice recoding, bucket sums, chunk combination", "c/msm.cpp")])

p("C26", "The FFT evaluates the polynomial at the roots of unity and the inverse undoes it",
  "For every power-of-two size and every coefficient vector, the forward transform returns the evaluations at successive powers of the root of unity of that size, and the inverse transform returns the original coefficients. This does not depend on the number of threads.",
  ["inputs", "configurations", "schedules"], "all coefficient vectors (free indeterminates) of size 1 to 16 and the root as a symbol of exact order; thread counts 1 to 3",
  NOTEST, ["c/fft.hpp", "c/fft.cpp", "c/misc.hpp"],
  [("bit reversal, butterflies, inverse permutation and scaling", "c/fft.cpp")])

p("C27", "The thread pool runs every index exactly once and waits for all of it",
  "A parallel loop over a non-empty range runs each index exactly once in contiguous pieces with distinct worker numbers and returns only after all pieces finished; a parallel block runs each worker number exactly once. The pool never deadlocks on reuse.",
  ["schedules", "configurations"], "all ranges and thread counts up to the stated bound, and all interleavings of submitter and workers up to the stated number of steps",
  "No test uses the pool; a lost wake-up or early return needs a particular interleaving.",
  ["c/misc.hpp"],
  [("work division", "c/misc.hpp ThreadPool::divideWork/parallelFor/parallelBlock"), ("task hand-off by condition variables", "c/misc.hpp ThreadWorker")])

p("C28", "Splitting a parameter string loses nothing and respects brackets",
  "Splitting a bracketed, comma-separated list returns the top-level items in order: commas inside nested brackets do not split, surrounding spaces and brackets are removed as documented, and joining the items reproduces the list. The splitter never reads outside the string.",
  ["inputs"], "every string of up to the stated length over the characters that matter",
  "The existing tests use a few dozen hand-written strings.",
  ["c/splitparstr.cpp"],
  [("bracket depth tracking", "c/splitparstr.cpp")])

p("C29", "The binary container reader exposes exactly the sections in the file",
  "Opening a well-formed container yields for each section exactly the bytes and size stored in the file; reads advance through the section in order; a file with a wrong magic number or too new a version is rejected, and reading past or before a section, or an incomplete read, is reported as an error.",
  ["inputs", "histories"], "all section tables of up to the stated number of sections with symbolic identifiers, lengths and payload; all call sequences up to the stated length",
  NOTEST, ["c/binfile_utils.hpp", "c/binfile_utils.cpp"],
  [("section table", "c/binfile_utils.cpp constructor"), ("read protocol state", "c/binfile_utils.cpp startReadSection/endReadSection")])

p("C30", "Proving-key and witness headers are decoded field by field",
  "Decoding the header of a proving-key or witness file returns exactly the field sizes, counts, primes and curve points stored at their documented positions; a proving key of another protocol is rejected.",
  ["inputs"], "all header contents with the field sizes up to the stated bound",
  NOTEST, ["c/zkey_utils.cpp", "c/wtns_utils.cpp"],
  [("loadHeader", "c/zkey_utils.cpp, c/wtns_utils.cpp")])

p("C31", "Integer logarithm, bit reversal and work division are exact",
  "The integer logarithm returns the index of the highest set bit for every non-zero 32-bit value; bit reversal is an involution that reverses exactly the requested number of bits; dividing work among threads yields positive pieces that add up to the total and differ by at most one.",
  ["inputs"], "all 32-bit values; all bit counts; all element and thread counts up to the stated bound",
  NOTEST, ["c/misc.cpp", "c/misc.hpp", "c/fft.cpp"],
  [("de Bruijn table", "c/misc.cpp log2"), ("byte-swap bit reversal", "c/fft.cpp BR"), ("divideWork", "c/misc.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
