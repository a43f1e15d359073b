from tagcheck import *
from engine.tagspec import TAGGED2, TAGGED1
c = Check("C13")
FNS = TAGGED2 + TAGGED1 + TAGGEDI
HEAVY = ["shl", "shr"]
add_tagged(c, "gen", [f for f in FNS if f not in HEAVY], "bn128r", ["", "ra", "rb", "ab"] if c.quick() else ALL)
add_tagged(c, "gen", HEAVY, "bn128r", ["", "ra"] if c.quick() else ALL)
others = primes(["secp256k1q", "p128", "t126"], ["t253", "bls12_381q", "bn128q", "p192"])
for p in others:
    add_tagged(c, "gen", FNS, p, [""] if c.quick() else ALL)
for p in ["bn128r"] + others:
    for n in range(4 if c.quick() else 9):
        c.add("%s/gen/copyn/%d" % (p, n), ob_copyn, p, "gen", n, False, c.seed)
c.bounds = {"operand_values": "all well-formed elements", "representations": "all combinations", "primes": ["bn128r"] + others,
            "buffer_sharing": "result/first operand, result/second operand and both operands, on bn128r", "array_lengths": "0 to 3 (thorough: 0 to 8)"}
c.assumptions = TAG_ASSUMPTIONS + [GMP, "g++ -O1 stands for every optimisation level"]
c.explanation = ("The portable sources are rendered, compiled and every path of the machine code is executed symbolically for each pair of "
                 "representations; the solver shows that the result is well formed and stands for the specified value.")
finish(c)
