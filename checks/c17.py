from common import *
from engine import tower
tower.harness()
tower.native()
c = Check("C17")
c.assumptions = ["the base field is a commutative ring with the documented operations; its elements are free indeterminates over the integers",
                 "an inverted value is not zero", "the non-residue is -1, 1, 0, 5 or an indeterminate different from these",
                 "identities over the integers hold in every commutative ring"]
c.explanation = ("The template code, compiled from the current tree, is executed on indeterminates; every result component is compared with "
                 "its defining polynomial, an identity the solver decides for all values; mismatches are replayed natively modulo 2^61-1.")
c.bounds = {"operands": "all values (indeterminates)", "non-residue": "-1, 1, 0, 5, generic", "sharing": "all patterns"}
for fn in ["add", "sub", "mul", "square", "neg", "copy", "dbl", "conjugate", "mulXi", "mulScalar", "inv", "div", "zero", "one", "negOne",
           "isZero", "isOne", "eq"]:
    for nr in tower.NRK["f2"]:
        for al in tower.AL[tower.SHAPES[fn]]:
            c.add("f2_%s %s %s" % (fn, nr, al or "none"), tower.run_op, "f2", fn, nr, al)
finish(c)
