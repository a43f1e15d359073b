from rawcheck import *
c = Check("C02")
ps = primes(["bls12_381q", "bn128r", "secp256k1q", "p192", "p128", "p64"], ["bn128q", "bls12_381r", "secp256k1r", "goldilocks"])
add_raw(c, "asm", MONT, ps, primes(["bn128r", "secp256k1q", "p64"], ps))
c.bounds = {"operand_values": "all canonical", "primes": ps, "limbs": "1 to 6", "loops": "unrolled by the generator"}
c.assumptions = RAW_ASSUMPTIONS
c.explanation = ("Integer encoding: each 64x64 product is a variable bounded by row, column and total sums; the solver shows that "
                 "every carry the code drops is zero, that result*2^(64n) is congruent to the product, and result < q.")
finish(c)
