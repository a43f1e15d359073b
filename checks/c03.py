from rawcheck import *
c = Check("C03")
fns = ("rawCopy", "rawSwap", "rawIsEq", "rawIsZero", "rawShl", "rawShr")
ps = primes(["bn128r", "secp256k1q", "p192", "p128", "p64"], ["bls12_381q", "bn128q"])
add_raw(c, "asm", fns, ps, ps)
if c.quick():
    add_raw(c, "asm", ("rawCopy", "rawSwap", "rawIsEq", "rawIsZero", "rawShr"), ["bls12_381q"], ["bls12_381q"])
c.bounds = {"operand_values": "all canonical", "shift": "0 <= amount < bit length of q", "primes": ps + ["bls12_381q (no left shift in quick)"]}
c.assumptions = RAW_ASSUMPTIONS
c.explanation = "Bit-vector encoding of every path; result compared with a bit-vector specification for all inputs."
finish(c)
