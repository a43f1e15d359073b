from rawcheck import *
c = Check("C01")
ps = primes(["bls12_381q", "bn128r", "secp256k1q", "p192", "p128", "p64"], ["bn128q", "bls12_381r", "secp256k1r", "goldilocks", "mnt6753q"])
add_raw(c, "asm", LIN, ps, ps)
c.bounds = {"operand_values": "all canonical", "primes": ps, "limbs": "1 to 6" if c.quick() else "1 to 12", "loops": "none (straight line)"}
c.assumptions = RAW_ASSUMPTIONS
c.explanation = ("Each path of the assembled routine becomes exact linear definitions over its carries; the solver shows "
                 "result = a+b, a-b or -a modulo q and result < q for all canonical operands.")
finish(c)
