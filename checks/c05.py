from tagcheck import *
c = Check("C05")
FNS = ["mul", "square"]
others = primes(["secp256k1q", "bls12_381q", "p64", "p128", "t126"], ["t253", "bn128q", "bls12_381r", "secp256k1r", "goldilocks", "p192", "mnt6753q"])
add_tagged(c, "asm", FNS, "bn128r", ALL)
for p in others:
    add_tagged(c, "asm", FNS, p, [""] if c.quick() else ALL)
c.bounds = {"operand_values": "all well-formed elements", "representations": "all combinations", "primes": ["bn128r"] + others,
            "buffer_sharing": "all patterns on bn128r" + ("" if c.quick() else " and the other primes")}
c.assumptions = TAG_ASSUMPTIONS
c.explanation = ("Each path of the assembled routine is executed symbolically for each pair of representations; the solver shows "
                 "that the result is well formed and stands for the product modulo q.")
finish(c)
