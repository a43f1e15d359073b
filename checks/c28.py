from common import *
from engine import split
split.harness()
split.native()
c = Check("C28")
N1 = 5 if c.quick() else 7
N2 = 10 if c.quick() else 12
c.assumptions = ["brackets are balanced", "characters are 7-bit and not NUL"]
c.explanation = ("The splitter, with the string and vector code it uses, is executed on texts whose characters are all symbolic; on every "
                 "path the items are compared byte by byte with the specification for each pattern of character classes the solver admits.")
c.bounds = {"any balanced text": "length 0 to %d, every character" % N1,
            "lists of one-character atoms": "length %d to %d, any nesting" % (N1 + 1, N2)}
for n in range(0, N1 + 1):
    for p in ([""] if n < 3 else ["(", ",", " ", "x"] if n < 5 else [a + b for a in "(, x" for b in "(), x" if not (b == ")" and a != "(")]):
        c.add("text %d %r" % (n, p), split.run_split, n, False, p)
for n in range(N1 + 1, N2 + 1):
    for p in ["(" + b + d for b in "(),x" for d in "(),x" if b + d not in ("))", ")x", ")(", "xx", "x(")] + ["x,", ",(", ",x", ",,"]:
        c.add("list %d %r" % (n, p), split.run_split, n, True, p)
finish(c)
