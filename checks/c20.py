from common import *
from engine import curve
curve.harness()
curve.native()
c = Check("C20")
c.assumptions = ["the base field is a field of characteristic other than 2 and 3 with the documented operations",
                 "the curve is non-singular and (0,0) is not on it (b is not zero), as the affine encoding of infinity requires",
                 "operands denote points of the curve; projective ones satisfy ZZ^3 = ZZZ^2, infinity has ZZ = ZZZ = 0"]
c.explanation = ("The curve template is executed on coordinates x z^2, y z^3, z^2, z^3 with free x, y, z; each path's result is compared "
                 "with the chord-and-tangent law after clearing denominators, an identity the solver decides for all values.")
c.bounds = {"points": "all, including infinity with arbitrary x, y", "coefficient a": "0, 1, -1 and generic", "sharing": "all same-type patterns"}
PK, AKK = ["p", "pi"], ["a", "ai"]
kinds = {"p": PK, "a": AKK}
for fn in ("add", "sub"):
    for mix in ("ppp", "ppa", "pap", "paa", "app", "apa", "aap", "aaa"):
        als = [""]
        if mix[0] == mix[1]:
            als.append("ra")
        if mix[0] == mix[2]:
            als.append("rb")
        if mix[1] == mix[2]:
            als.append("ab")
        if mix[0] == mix[1] == mix[2]:
            als.append("rab")
        for al in als:
            for ka in kinds[mix[1]]:
                for kb in kinds[mix[2]]:
                    if "ab" in al and ka != kb:
                        continue
                    for ak in (("0", "1", "-1", "n") if ka[-1] != "i" and kb[-1] != "i" else ("n",)):
                        c.add("%s_%s %s %s a=%s %s" % (fn, mix, ka, kb, ak, al or "none"), curve.run_op, fn, mix, ka, kb, ak, al)
for fn in ("dbl", "neg"):
    for mix in ("pp", "pa", "ap", "aa"):
        for al in [""] + (["ra"] if mix[0] == mix[1] else []):
            for ka in kinds[mix[1]]:
                for ak in ("0", "1", "-1", "n") if fn == "dbl" else ("n",):
                    c.add("%s_%s %s a=%s %s" % (fn, mix, ka, ak, al or "none"), curve.run_op, fn, mix, ka, None, ak, al)
c.add("text_dbl", curve.run_const, "text_dbl")
finish(c)
