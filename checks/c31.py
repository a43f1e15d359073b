from common import *
from engine import plain
plain.harness()
plain.native()
c = Check("C31")
TS = [1, 2, 3, 4, 5, 7, 8] if c.quick() else list(range(1, 17))
NM = 1000000 if c.quick() else (1 << 31) - 1
c.assumptions = ["log2 is asked for a non-zero value; element and thread counts are positive"]
c.explanation = "The compiled helpers are executed on symbolic words and compared with bit-vector specifications on every path."
c.bounds = {"log2": "all non-zero 32-bit values", "bit reversal": "all values of 0 to 32 bits", "work division": "threads %s, elements 1 to %d" % (TS, NM)}
c.add("log2", plain.run_log2)
for p in range(0, 33):
    c.add("BR %d bits" % p, plain.run_br, p)
for t in TS:
    c.add("divideWork %d threads" % t, plain.run_divide, t, NM)
finish(c)
