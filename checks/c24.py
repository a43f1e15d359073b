from multicheck import *
prepare([False, True])
c = Check("C24")
q = c.quick()
c.assumptions = [GROUP, "OpenMP runs the pieces of a parallel loop between its start and its end; the pieces are run one after the other and "
                 "must write disjoint places, so their order does not matter"]
c.explanation = ("The multi-exponentiation is executed on an abstract group in which every element is a vector of integers, one per base, and every "
                 "scalar bit is symbolic; the solver compares the final coefficient of each base with the scalar.")
add(c, "h_multi", 8, 16)
add(c, "h_multi", 32, 2)
for n in range(0, 6):
    for ss in (1, 2, 3, 4, 7, 8, 9) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16):
        add(c, "h_multi", ss, n)
add(c, "h_multi", 32, 0)
add(c, "h_multi", 32, 1)
add(c, "h_multi", 16, 4)
for t in (2, 3):
    for n in (2, 3, 5, 8):
        add(c, "h_multi", 8, n, threads=t)
add(c, "h_multi", 8, 5, threads=3, zero=(1, 3))
add(c, "h_multi", 8, 2, zero=(0, 1))
add(c, "h_multi", 3, 16, threads=2)
add(c, "h_multi", 2, 35)
for nx, sizes, n in ((2, (2, 2), 4), (2, (3, 0), 5), (3, (3, 1, 2), 8), (1, (0,), 1), (1, (1,), 1), (1, (4,), 4), (4, (1, 0, 0, 0), 4), (3, (0, 5, 9), 7)):
    add(c, "h_multix", 8 if q else 12, n, nx=nx, sizes=sizes)
add(c, "h_multix", 8, 7, nx=3, sizes=(3, 1, 2), threads=2)
add(c, "h_multix", 3, 17, nx=2, sizes=(9, 4))
add(c, "h_multi", 2, 3, threads=2)
if not q:
    add(c, "h_multi", 32, 3)
    add(c, "h_multi", 32, 16, mode="window", window=30)
    add(c, "h_multi", 32, 16, mode="window", window=0)
    add(c, "h_multi", 4, 33)
    add(c, "h_multi", 2, 64)
    add(c, "h_multi", 16, 8, threads=3)
c.bounds = {"pairs": "0 to 5 and 16, 35 (with column lengths up to 17)", "scalar bytes": "1 to 9, 32 for two pairs", "threads": "1 to 3",
            "bits per window": "2, 3, 4", "outside": "windows of 5 to 16 bits (more than 63 pairs)"}
finish(c)
