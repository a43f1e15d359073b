from common import *
from engine import tower
tower.harness()
tower.native()
c = Check("C18")
c.assumptions = ["the base field is a commutative ring with the documented operations; its elements are free indeterminates over the integers",
                 "an inverted value is not zero", "identities over the integers hold in every commutative ring",
                 "the Frobenius maps are decided over the alt_bn128 prime field, their constants recomputed by exponentiation"]
c.explanation = ("The cubic extension is executed on indeterminates twice: over an opaque ring with generic v^3, and over the real quadratic "
                 "extension with v^3 = 9+u; every result component is compared with its defining polynomial.")
c.bounds = {"operands": "all values (indeterminates)", "sharing": "all patterns"}
OPS = ["add", "sub", "mul", "square", "neg", "copy", "dbl", "mulScalar", "mulTau", "inv", "div", "zero", "one", "negOne", "isZero", "isOne", "eq"]
for k in ("a6", "f6"):
    for fn in OPS + (["mulGFP", "Frobenius", "FrobeniusP2"] if k == "f6" else []):
        for al in tower.AL[tower.SHAPES[fn]]:
            c.add("%s_%s %s" % (k, fn, al or "none"), tower.run_op, k, fn, tower.NRK[k][0], al, fn.startswith("Frob"))
finish(c)
