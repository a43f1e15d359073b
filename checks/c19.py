from common import *
from engine import tower
tower.harness()
tower.native()
c = Check("C19")
c.assumptions = ["the base field is a commutative ring with the documented operations; its elements are free indeterminates over the integers",
                 "an inverted value is not zero", "identities over the integers hold in every commutative ring",
                 "the Frobenius maps are decided over the alt_bn128 prime field, their constants recomputed by exponentiation"]
c.explanation = ("The twelfth-degree extension is executed on indeterminates over an opaque cubic ring with generic w^2, and over the real "
                 "tower down to the base field; exponentiation is executed with every exponent bit symbolic on powers of one generator.")
c.bounds = {"operands": "all values (indeterminates); full-tower inverse: two or three free coordinates at a time", "sharing": "all patterns",
            "exponent bytes": "1, 2, 4, 7 exactly; 8 and 32 modulo 2^62"}
OPS = ["add", "sub", "mul", "square", "neg", "copy", "conjugate", "mulScalar", "zero", "one", "negOne", "isZero", "isOne", "eq"]
for k in ("a12", "f12"):
    for fn in OPS + (["inv", "div"] if k == "a12" else ["Frobenius", "FrobeniusP2"]):
        for al in tower.AL[tower.SHAPES[fn]]:
            c.add("%s_%s %s" % (k, fn, al or "none"), tower.run_op, k, fn, tower.NRK[k][0], al, fn.startswith("Frob"))
for fr in [(0, 7), (1, 10), (3, 11), (5, 6), (2, 9), (4, 8)] + ([] if c.quick() else [(0, 5, 7), (1, 8, 10), (2, 3, 11), (4, 6, 9)]):
    for al in ("", "ra"):
        c.add("f12_inv free %s %s" % (fr, al or "none"), tower.run_op, "f12", "inv", "-1", al, False, fr)
for n in [1, 2, 4, 7, 8, 32]:
    for al in ("", "ra"):
        c.add("a12_exp %d bytes %s" % (n, al or "none"), tower.run_exp, n, al)
finish(c)
