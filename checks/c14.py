from rawcheck import *
from engine.rawspec import EXTRA
c = Check("C14")
FNS = LIN + ("rawMMul", "rawMMul1", "rawFromMontgomery", "rawCopy", "rawSwap", "rawIsEq", "rawIsZero", "rawShr", "rawShl") + EXTRA
ps = primes(["bls12_381q", "bn128r", "secp256k1q", "p192", "p128", "t126", "p64"], ["bn128q", "bls12_381r", "secp256k1r", "goldilocks", "t253", "mnt6753q"])
al = primes(["bn128r", "secp256k1q", "p192", "p64"], [p for p in ps if p != "mnt6753q"])
add_raw(c, "arm", FNS, [p for p in ps if p != "mnt6753q"], al)
add_raw(c, "arm", [f for f in FNS if f not in ("rawMMul", "rawMMul1", "rawShl", "rawShr")], [p for p in ps if p == "mnt6753q"], ())
c.bounds = {"operand_values": "all canonical", "short_operand": "every 64-bit value below q (rawNegLS: from 1; rawCopyS2L: magnitude below q)",
            "shift": "0 <= amount < bit length of q", "primes": ps, "limbs": "1 to 6" if c.quick() else "1 to 12",
            "buffer_sharing": {p: "all patterns" for p in al}}
c.assumptions = RAW_ASSUMPTIONS + [
    "the AArch64 instructions are re-expressed as x86-64 sequences (engine/arm.py); no AArch64 processor is available to compare with, "
    "so that translation is trusted; native validation runs the translated code"]
c.explanation = ("The generated AArch64 source is assembled by clang, disassembled, translated instruction by instruction and executed "
                 "symbolically; the solver shows result = specification for all canonical operands, that x19-x30 and sp come back "
                 "unchanged, and every memory access lies in an operand, a constant or the routine's own stack.")
finish(c)
