from rawcheck import *
from engine.rawspec import EXTRA
c = Check("C12")
ps = primes(["bls12_381q", "bn128r", "secp256k1q", "p192", "p128"], ["bn128q", "bls12_381r", "secp256k1r"])
al = primes(["bn128r", "secp256k1q"], ps)
add_raw(c, "gen", LIN + MONT + ("rawCopy", "rawSwap", "rawIsEq", "rawIsZero", "rawShr"), ps, al)
add_raw(c, "gen", ("rawShl",), [p for p in ps if p != "bls12_381q" or not c.quick()], al)
add_raw(c, "gen", EXTRA, ps, al)
c.bounds = {"operand_values": "all canonical", "shift": "0 <= amount < bit length of q", "primes": ps, "limbs": "2 to 6"}
c.assumptions = RAW_ASSUMPTIONS + [GMP]
c.explanation = ("The portable sources are compiled at -O1 and the object code executed symbolically; GMP mpn calls are replaced "
                 "by their documented semantics on symbolic limbs.")
finish(c)
