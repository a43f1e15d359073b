from tagcheck import *
from rawcheck import RAWS, ALIASES
from engine.tagspec import TAGGED2, TAGGED1
c = Check("C11")
GENERIC_ONLY = ["rawAddLS", "rawSubLS", "rawSubSL", "rawNegLS", "rawSubRegular", "rawCmp", "rawAnd", "rawOr", "rawXor", "rawNot",
                "rawCopyS2L"]    # not exported by the assembly backend
FNS = TAGGED2 + TAGGED1 + TAGGEDI
full = ["bn128r"]
others = primes(["p64", "bls12_381q"], ["secp256k1q", "p128", "bn128q", "p192", "goldilocks"])
for p in full + others:
    for fn in [f for f in RAWS if f not in GENERIC_ONLY]:
        for al in (ALIASES[RAWS[fn]] if p in full or not c.quick() else [""]):
            c.add("%s/%s/%s" % (p, fn, al or "-"), ob_rawabi, p, fn, al, c.seed)
    for n in range(4):
        c.add("%s/copyn/%d" % (p, n), ob_copyn, p, "asm", n, True, c.seed)
LIGHT = [f for f in FNS if f not in ("shl", "shr", "eq", "neq", "lt", "gt", "leq", "geq")]
for p in full:
    add_tagged(c, "asm", FNS, p, ["", "ra"] if not c.quick() else [""], abi=True)
for p in others:
    add_tagged(c, "asm", FNS if not c.quick() or p == "p64" else LIGHT, p, [""], abi=True)
c.bounds = {"operand_values": "all", "representations": "all combinations", "primes": full + others,
            "left_out_quick": "comparisons and shifts on bls12_381q"}
c.assumptions = [ELEM, "a raw add/sub/neg/Montgomery routine called from an element routine respects the convention; each is itself decided here",
                 "the encoder's instruction semantics are those of the processor; cross-checked on concrete runs of the natively executed build"]
c.explanation = ("Every path of every exported routine is executed symbolically over a memory in which only the operands, the constants and "
                 "the stack exist; accesses outside are violations, and at the return callee-saved registers, stack pointer and direction flag "
                 "must hold their entry values. The failure handler may change every caller-saved register and return.")
finish(c)
