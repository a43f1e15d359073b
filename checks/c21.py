from common import *
from engine import curve
curve.harness()
curve.native()
c = Check("C21")
c.assumptions = ["the base field is a field with the documented operations",
                 "(0,0) is not on the curve (b is not zero), as the affine encoding of infinity requires",
                 "operands denote points of the curve; projective ones satisfy ZZ^3 = ZZZ^2, infinity has ZZ = ZZZ = 0 with any x, y"]
c.explanation = ("The curve template is executed on coordinates x z^2, y z^3, z^2, z^3 with free x, y, z; truth values are compared with "
                 "equality of the affine points on every path, copies with the affine point after clearing denominators.")
c.bounds = {"points": "all, including infinity with arbitrary x, y", "sharing": "all same-type patterns"}
kinds = {"p": ["p", "pi"], "a": ["a", "ai"]}
for mix in ("pp", "pa", "ap", "aa"):
    for al in [""] + (["ab"] if mix[0] == mix[1] else []):
        for ka in kinds[mix[0]]:
            for kb in kinds[mix[1]]:
                if al and ka != kb:
                    continue
                c.add("eq_%s %s %s %s" % (mix, ka, kb, al or "none"), curve.run_op, "eq", mix, ka, kb, "n", al)
    for al in [""] + (["ra"] if mix[0] == mix[1] else []):
        for ka in kinds[mix[1]]:
            c.add("copy_%s %s %s" % (mix, ka, al or "none"), curve.run_op, "copy", mix, ka, None, "n", al)
for m in "pa":
    for ka in kinds[m]:
        c.add("isZero_%s %s" % (m, ka), curve.run_op, "isZero", m, ka, None, "n", "")
for s in ("zero_p", "zero_a", "one_p", "one_a", "coef_a", "text_p", "text_a"):
    c.add(s, curve.run_const, s)
finish(c)
