from common import *
from engine.rawspec import RAWS, ob_bv, ob_mont, ob_addsub

MONT = ("rawMMul", "rawMSquare", "rawMMul1", "rawToMontgomery", "rawFromMontgomery")
LIN = ("rawAdd", "rawSub", "rawNeg")


def add_raw(c, backend, fns, primes_, alias_primes, skip=()):
    for pr in primes_:
        for fn in fns:
            for al in ALIASES[RAWS[fn]]:
                if al and pr not in alias_primes:
                    continue
                if (fn, al) in skip:
                    continue
                f = ob_mont if fn in MONT else ob_addsub if fn in LIN else ob_bv
                c.add("%s/%s/%s/%s" % (pr, backend, fn, al or "-"), f, pr, backend, fn, al, c.seed)
