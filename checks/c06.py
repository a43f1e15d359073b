from tagcheck import *
c = Check("C06")
FNS = ["eq", "neq", "lt", "gt", "leq", "geq"]
others = primes(["secp256k1q", "p64", "p128", "t126"], ["t253", "bls12_381q", "bn128q", "secp256k1r", "goldilocks", "p192"])
add_tagged(c, "asm", FNS, "bn128r", ALL)
for p in others:
    add_tagged(c, "asm", FNS, p, [""] if c.quick() else ALL)
c.bounds = {"operand_values": "all well-formed elements", "representations": "all combinations", "primes": ["bn128r"] + others,
            "buffer_sharing": "all patterns on bn128r" + ("" if c.quick() else " and the other primes")}
c.assumptions = TAG_ASSUMPTIONS
c.explanation = ("Each path of the assembled routine is executed symbolically for each pair of representations; the solver shows "
                 "that the result is well formed and stands for 1 or 0 according to the relation on signed values.")
finish(c)
