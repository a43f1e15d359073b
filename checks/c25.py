from multicheck import *
CH = [0, 3, 4, 5, 7, 8]
prepare([False], CH)
c = Check("C25")
q = c.quick()
c.assumptions = [GROUP, "the thread pool meets its specification (C27): pieces are run one after the other here, in both orders, and must write disjoint places"]
c.explanation = ("The multi-scalar multiplication is executed on an abstract group in which every element is a vector of integers, one per base; "
                 "the stated scalar bits are symbolic and the solver compares the final coefficient of each base with the scalar.")
add(c, "h_msm", 8, 2)
for n in (0, 1):
    for ss in (1, 8, 32):
        add(c, "h_msm", ss, n)
for ss in (1, 2, 3, 4, 5):
    for n in (2, 3):
        add(c, "h_msm", ss, n)
for ch in CH[1:]:
    for w in (0, 3, 6) if q else range(0, 7):
        add(c, "h_msm", 8, 2, mode="window", window=w, chunk=ch, wb=2)
    add(c, "h_msm", 2, 2, chunk=ch)
for w in (0, 15, 29) if q else (0, 4, 9, 14, 19, 24, 29):
    add(c, "h_msm", 32, 2, mode="window", window=w)
for ss, w in ((9, 7), (12, 10), (31, 29)):
    add(c, "h_msm", ss, 2, mode="window", window=w, wb=2)
add(c, "h_msm", 32, 16, mode="window", window=30, wb=2)
for t in (2, 3):
    for rev in (0, 1):
        add(c, "h_msm", 8, 3, mode="window", window=5, threads=t, reverse=rev, wb=2)
        add(c, "h_msm", 2, 5, threads=t, reverse=rev)
add(c, "h_msm", 3, 4, threads=2, reverse=1, chunk=4, zero=(2,))
add(c, "h_msm", 2, 16)
add(c, "h_msm", 2, 3, threads=2)
if not q:
    add(c, "h_msm", 8, 2, chunk=4)
    add(c, "h_msm", 5, 3, chunk=5)
    add(c, "h_msm", 8, 3)
    add(c, "h_msm", 32, 16, mode="window", window=14, wb=3)
    add(c, "h_msm", 32, 40, mode="window", window=30, wb=1)
c.bounds = {"pairs": "0 to 5 and 16", "scalar bytes": "1 to 5 and 8 fully symbolic; 8, 9, 12, 31, 32 with the bytes of a window symbolic and the "
            "others fixed", "threads": "1 to 3, pieces in both orders", "bits per chunk": CH[1:], "outside": "more pairs, chunks of more than 8 bits"}
finish(c)
