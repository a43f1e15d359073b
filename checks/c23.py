from common import *
from engine import group
group.harness()
group.natives()
group.gharness()
group.natives("grpmul")
c = Check("C23")
c.assumptions = ["the group operations meet their specification (decided by C20)",
                 "for the long scalars the recoding meets its specification (decided by C22); the short ones include it"]
c.explanation = ("The multiplication is executed on an abstract group: points are integer multiples of the base whose coefficients are "
                 "linear in the signed digits, and the solver compares the final coefficient with the scalar.")
NB = [1, 2, 4, 8, 31, 32, 33] if c.quick() else [1, 2, 3, 4, 5, 7, 8, 16, 24, 31, 32, 33, 48, 64]
WH = [1, 2] if c.quick() else [1, 2, 3]
c.bounds = {"scalar bytes, digits free": NB, "scalar bytes, recoding included": WH, "sharing": "all same-type patterns",
            "leading digit": "every position up to 8 bytes, every 24th beyond" if c.quick() else "every position"}
for n in reversed(NB):
    for fn, als in (("mul_pp", ["", "ra"]), ("mul_pa", [""])):
        for al in als:
            pos = list(range(-1, 8 * n + 1))
            if c.quick() and n > 8:
                pos = pos[::24] + ([pos[-1]] if pos[-1] not in pos[::24] else [])
            if c.quick() and fn == "mul_pa" and n < 8:
                pos = pos[-2:]
            pos = pos[::-1]
            k = 3 if n > 8 else 16
            for i in range(0, len(pos), k):
                c.add("%s %d bytes %s leading digit %s" % (fn, n, al or "none", pos[i:i + k]), group.run_positions, fn, n, al, pos[i:i + k])
for n in WH:
    for fn, al in (("g_pp", "ra"), ("g_ap", "")) if n < 2 or not c.quick() else (("g_pp", "ra"),):
        c.add("%s whole %d bytes %s" % (fn, n, al or "none"), group.run_whole, fn, n, al)
finish(c)
