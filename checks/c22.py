from common import *
from engine import plain
plain.harness()
plain.native()
c = Check("C22")
c.assumptions = ["the scalar has at least one byte", "the digit buffer has eight places per byte plus sixteen, as the callers allocate"]
c.explanation = ("The recoding is executed on a scalar with every bit symbolic (its table built by executing the static initialiser); "
                 "digit range, adjacency and the weighted sum (for long scalars as a chain of exact halvings) are decided by the solver.")
NS = [1, 2, 3, 4] + ([] if c.quick() else [5, 6, 7, 8])
NL = [8, 32, 33] + ([] if c.quick() else [9, 16, 24, 31, 48, 64, 96, 128])
c.bounds = {"scalar": "every value", "scalar bytes, at once": NS, "scalar bytes, byte by byte": NL}
for n in NL:
    c.add("naf %d bytes by steps" % n, plain.run_naf_steps, n)
for n in NS:
    c.add("naf %d bytes" % n, plain.run_naf, n)
finish(c)
