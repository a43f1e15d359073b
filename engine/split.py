"""Obligations for the parameter-string splitter (C28)."""
import os
import subprocess
import z3
from .core import *
from .terms import *
from .cxx import Harness, CExec, compile_cxx, rt_hooks
from .native import Native, Buf, Crash
from .x86 import RAX
from .build import REPO

SRC = ["split.cpp", os.path.join(REPO, "c/splitparstr.cpp"), "strings.cpp"]
SPACES = [9, 10, 11, 12, 13, 32]


def harness():
    return Harness("split", SRC)


def native():
    elf, objs = compile_cxx("split", SRC)
    return Native(list(objs), {"h_split": "h_split"}, os.path.join(os.path.dirname(elf), "native")).guarded()


def strip(ix, cls):
    """remove the brackets that enclose the whole text"""
    while len(ix) >= 2 and cls[ix[0]] == "(":
        d = 0
        for k, i in enumerate(ix):
            d += cls[i] == "("
            d -= cls[i] == ")"
            if d == 0:
                break
        if k != len(ix) - 1:
            break
        ix = ix[1:-1]
    return ix


def spec(cls):
    """lists of positions"""
    ix = strip([i for i, c in enumerate(cls) if c != " "], cls)
    items, cur, d = [], [], 0
    for i in ix:
        c = cls[i]
        if c == "," and d == 0:
            items.append(cur)
            cur = []
            continue
        d += c == "("
        d -= c == ")"
        cur.append(i)
    items.append(cur)
    return [strip(x, cls) for x in items]


def is_space(c):
    return z3.Or(*[c == x for x in SPACES])


CL = {"(": lambda c: c == 40, ")": lambda c: c == 41, ",": lambda c: c == 44, " ": is_space,
      "x": lambda c: z3.Not(z3.Or(c == 40, c == 41, c == 44, is_space(c)))}


def run_split(r, n, grammar, prefix):
    """every balanced text of n characters starting with the given character classes; with grammar: lists of
    one-character atoms without blanks"""
    H = harness()
    ex = CExec(H.p, rt_hooks())
    ex.max_paths = 1000000
    ex.max_steps = 40000 + 4000 * n
    ex.runaway = True
    st = H.state()
    cs = [z3.BitVec("c%d" % i, 8) for i in range(n)]
    S0 = H.bytes_buf(st, cs, "text", align=1) if n else H.bytes_buf(st, [0], "text")
    cap = n + 2
    L0 = H.buf(st, 8 * cap, "lens")
    O0 = H.buf(st, 2 * n + 8, "out")
    H.setup(ex, st, "h_split", [S0, n, L0, O0, cap])
    for c in cs:
        st.path.append(z3.And(z3.UGE(c, 1), z3.ULE(c, 127)))
    d = z3.BitVecVal(0, 8)
    for c in cs:
        d = d + z3.If(c == 40, z3.BitVecVal(1, 8), z3.If(c == 41, z3.BitVecVal(-1, 8), z3.BitVecVal(0, 8)))
        st.path.append(d >= 0)
    if n:
        st.path.append(d == 0)
    for c, k in zip(cs, prefix):
        st.path.append(CL[k](c))
    if grammar:
        at = CL["x"]
        for c in cs:
            st.path.append(z3.Not(is_space(c)))
        for a, b in zip(cs, cs[1:]):
            st.path.append(z3.Not(z3.And(at(a), z3.Or(at(b), b == 40))))
            st.path.append(z3.Not(z3.And(a == 41, z3.Or(at(b), b == 40))))
    nat = native()

    def run(text):
        lens, out = Buf(bytes(8 * cap)), Buf(bytes(2 * n + 8))
        k, o, bad, _ = nat.call("h_split", [Buf(text or b"\0"), n, lens, out, cap])
        res, p = [], 0
        for i in range(min(k, cap)):
            m = int.from_bytes(o[lens][8 * i:8 * i + 8], "little")
            res.append(o[out][p:p + m].decode("latin1"))
            p += m
        return res

    def classify(m):
        t = bytes(m.eval(c, model_completion=True).as_long() for c in cs)
        return t, "".join("(" if b == 40 else ")" if b == 41 else "," if b == 44 else " " if b in SPACES else "x" for b in t)

    def report(t, cls, what):
        want = ["".join(chr(t[i]) for i in it) for it in spec(cls)]
        try:
            got = run(t)
        except Crash as c:
            return r.violation("splitting %r: %s" % (t.decode(), c), key="split:crash", replay={"text": t.decode(), "native": str(c), "expected": want})
        if got == want:
            r.inconclusive("splitting %r: %s in the encoder, right natively" % (t.decode(), what))
        else:
            r.violation("splitting %r gives %s, expected %s" % (t.decode(), got, want), key="split",
                        replay={"text": t.decode(), "native": got, "expected": want})
    nv = 0
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        if e.end != "ret":
            res, m = check_sat(e.path, 60000, "path", True)
            if res == "sat":
                t, cls = classify(m)
                report(t, cls, "%s %s" % (e.end, e.info))
            if len(r.more) > 3:
                break
            continue
        k = e.regs[RAX]
        if not isinstance(k, int):
            ks = ex.concretize_path(e, k)
            if len(ks) != 1:
                r.inconclusive("symbolic item count")
                continue
            k = ks[0]
        path = list(e.path)
        first = True
        while True:
            res, m = check_sat(path, 60000, "classes", True)
            if res != "sat":
                break
            t, cls = classify(m)
            r.obligations += 1
            pat = z3.And(*[CL[x](c) for x, c in zip(cls, cs)]) if cs else z3.BoolVal(True)
            want = spec(cls)
            bad = None
            if k != len(want):
                bad = "%s items" % k
            else:
                p = 0
                diff = []
                for i, it in enumerate(want):
                    ln = e.mem.load(L0 + 8 * i, 8)
                    if not isinstance(ln, int):
                        res3, m3 = check_sat(path + [pat, ln != len(it)], 60000, "length", True)
                        if res3 == "unsat":
                            ln = len(it)
                        else:
                            t, cls = classify(m3) if res3 == "sat" else (t, cls)
                            ln = None
                    if ln != len(it):
                        bad = "item %d has length %s" % (i, ln)
                        break
                    for j in it:
                        diff.append(bv(e.mem.load(O0 + p, 1), 8) != cs[j])
                        p += 1
                if not bad and diff:
                    res2, m2 = check_sat(path + [pat, z3.Or(*diff)], 60000, "bytes", True)
                    if res2 != "unsat":
                        bad = "characters differ"
                        if res2 == "sat":
                            t, cls = classify(m2)
            if bad:
                report(t, cls, bad)
            elif first and nv < 5:
                nv += 1
                if run(t) == ["".join(chr(t[i]) for i in it) for it in want]:
                    r.validated += 1
            first = False
            if r.sample is None and n > 3:
                r.sample = {"text classes": cls, "items": [[cls[i] for i in it] for it in want]}
            path.append(z3.Not(pat))
        if len(r.more) > 3:
            break
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r
