_ASM = ("symbolic execution of the assembled routine, ")
TECH.update({
 "C01": (_ASM + "exact linear-integer encoding of every carry, decided by Z3 for all canonical operands", "model_checking",
   "Exhaustive over all canonical operands and aliasing patterns for the listed primes (1 to 6 limbs quick, 12 thorough). Trusts the x86-64 instruction semantics of the encoder, cross-checked against native runs."),
 "C02": (_ASM + "linear-integer encoding with abstracted 64x64 products, congruence and range decided by Z3", "model_checking",
   "Exhaustive over all canonical operands for the listed primes (1 to 6 limbs). Trusts the encoder's instruction semantics, cross-checked against native runs."),
 "C03": (_ASM + "bit-vector encoding compared with a bit-vector specification by Z3", "model_checking",
   "Exhaustive over all canonical values and shift amounts below the bit length, listed primes. Trusts the encoder's instruction semantics, cross-checked against native runs."),
 "C12": ("symbolic execution of the compiled portable sources, linear-integer and bit-vector encodings decided by Z3", "model_checking",
   "Exhaustive over all canonical operands for the listed primes (2 to 6 limbs). Trusts the compiler at -O1, the GMP models and the encoder, cross-checked against native runs."),
})

_TAG = "Exhaustive over all well-formed operand values, all representation pairs and all buffer-sharing patterns for the listed primes. Raw callees are replaced by their specification and decided in the same run. Trusts the encoder's instruction semantics, cross-checked against native runs."
for _p, _w in [("C04", "sums, differences and negations"), ("C05", "products (residue polynomials for the Montgomery calls)"),
               ("C06", "signed comparisons"), ("C07", "masked bitwise operators"), ("C08", "the signed-shift rule"),
               ("C09", "zero tests"), ("C10", "value and representation of conversions and copies")]:
    TECH[_p] = (_ASM + "bit-vector specification of %s decided by Z3 for every path and representation" % _w, "model_checking", _TAG)
TECH["C11"] = (_ASM + "registers, stack, direction flag and every memory access checked on every feasible path (feasibility decided by Z3)",
   "model_checking", "Exhaustive over all operand values and representations for the listed primes; counterexamples are replayed with operands against inaccessible pages. Trusts the encoder's instruction semantics.")
TECH["C13"] = ("symbolic execution of the compiled portable sources, bit-vector specification per representation decided by Z3", "model_checking",
   _TAG + " Trusts the compiler at -O1 and the models of the GMP calls.")
TECH["C14"] = ("symbolic execution of the assembled AArch64 routines (disassembled and translated instruction by instruction), "
   "linear-integer and bit-vector encodings decided by Z3", "model_checking",
   "Exhaustive over all canonical operands and aliasing patterns for the listed primes. Trusts the AArch64-to-encoder translation; there is no AArch64 processor here, counterexamples are replayed on the translation only.")
_CXX = ("symbolic execution of the compiled template code on indeterminates; every component compared with its defining "
        "polynomial, decided by Z3 for all values")
_CXXN = "Exhaustive over all field elements (free indeterminates, so every base field), %s and all sharing patterns. Trusts the compiler at -O1 and the encoder, cross-checked against native runs modulo 2^61-1."
TECH["C17"] = (_CXX, "model_checking", _CXXN % "the listed non-residues")
TECH["C18"] = (_CXX, "model_checking", _CXXN % "also over an opaque base ring")
TECH["C19"] = (_CXX + "; exponentiation as powers of a generator with bit-vector exponents", "model_checking", _CXXN % "exponents up to the listed byte lengths")
_CRV = "symbolic execution of the compiled curve template on points with free coordinates; %s decided by Z3 for all values"
_CRVN = "Exhaustive over all points (finite and infinity), projective scalings, coordinate mixes and sharing patterns, for a = 0, 1, -1 and generic. Trusts the compiler at -O1 and the encoder, cross-checked against native runs modulo 2^61-1."
TECH["C20"] = (_CRV % "the chord-and-tangent identities", "model_checking", _CRVN)
TECH["C21"] = (_CRV % "truth values and preserved coordinates", "model_checking", _CRVN)
_BV = "symbolic execution of the compiled code with every input bit symbolic, bit-vector specification decided by Z3"
TECH["C22"] = (_BV + "; long scalars byte by byte with the states crossing a byte enumerated by the solver", "model_checking",
   "Exhaustive over every scalar of the listed lengths. Trusts the compiler at -O1 and the encoder, cross-checked against native runs.")
TECH["C28"] = (_BV + " on every path and character-class pattern", "model_checking",
   "Exhaustive over every balanced text up to the short length and every bracketed list of one-character atoms up to the long one; counterexamples are replayed natively.")
TECH["C31"] = (_BV, "model_checking",
   "Exhaustive over all 32-bit values, bit counts and element counts within the stated bounds; counterexamples are replayed natively.")
TECH["C23"] = ("symbolic execution of the compiled template on an abstract group with symbolic digits or scalar bits; the coefficient of the base compared with the scalar by Z3",
   "model_checking", "Exhaustive over every scalar of the listed lengths. Trusts the compiler at -O1 and the encoder, cross-checked against native runs.")
_MUL = ("symbolic execution of the compiled template on an abstract group with every scalar bit symbolic; the coefficient of each base compared "
        "with its scalar by Z3; parallel pieces checked for disjoint writes")
TECH["C24"] = (_MUL, "model_checking", "Exhaustive over every scalar of the listed lengths and counts, 1 to 3 threads. Trusts the compiler at -O1, "
   "the fork-join model of OpenMP and the encoder, cross-checked against native runs.")
TECH["C25"] = (_MUL, "model_checking", "Exhaustive over every scalar of up to 5 bytes, and 8 bytes for two pairs; longer scalars by windows of symbolic bytes. "
   "Trusts the compiler at -O1 and the encoder, cross-checked against native runs.")
