"""Tagged element checks."""
from common import *
from engine.tagspec import OP2, TAGGEDI, SHORT, SHORTM, LONG, LONGM, ob_tagged, ob_copyn, ob_rawabi, tname

T = [SHORT, SHORTM, LONG, LONGM]
ALL = ["", "ra", "rb", "ab", "rab"]


def add_tagged(c, backend, fns, prime, aliases, abi=False):
    for fn in fns:
        for al in aliases:
            if fn in TAGGEDI and al or al and fn not in OP2 and al != "ra":
                continue
            for ta in T:
                for tb in ([None] if fn not in OP2 else [ta] if al in ("ab", "rab") else T):
                    c.add("%s/%s/%s/%s%s/%s" % (prime, backend, fn, tname(ta), "," + tname(tb) if tb is not None else "", al or "-"),
                          ob_tagged, prime, backend, fn, ta, tb, al, c.seed, abi)


TAG_ASSUMPTIONS = [
    ELEM,
    "a call to a raw add/sub/neg/Montgomery routine inside an element routine is replaced by its exact specification; the same "
    "run decides each routine so used, for the buffer sharing with which it was called",
    "the encoder's instruction semantics are those of the processor; cross-checked on concrete runs of the natively executed "
    "build (traces_validated_against_impl)",
]
