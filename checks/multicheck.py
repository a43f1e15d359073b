from common import *
from engine import multi


def prepare(omps, chunks=(0,)):
    for o in omps:
        for ch in chunks:
            multi.harness(o, ch)
            multi.natives(o, ch)


def job(r, fn, ss, n, kw):
    return multi.run(r, fn, ss, n, **kw)


def add(c, fn, ss, n, **kw):
    kw["seed"] = c.seed
    c.add("%s %d bytes n=%d %s" % (fn[2:], ss, n, " ".join("%s=%s" % i for i in kw.items() if i[0] not in ("seed", "mode"))), job, fn, ss, n, kw)


GROUP = "the group operations meet their specification (decided by C20 and C21) and a single multiple is decided by C23"
