"""Obligations for the stand-alone helpers: recoding (C22), integer helpers (C31)."""
import os
import random
import z3
from .core import *
from .terms import *
from .cxx import Harness, CExec, compile_cxx, rt_hooks
from .native import Native, Buf, Crash
from .sfield import native_sf
from .x86 import RAX
from .build import REPO

SRC = ["plain.cpp", os.path.join(REPO, "c/naf.cpp"), os.path.join(REPO, "c/misc.cpp"), "strings.cpp"]
FN = ["h_naf", "h_log2", "h_br", "h_divide"]


def harness():
    return Harness("plain", SRC)


def native():
    elf, objs = compile_cxx("plain", SRC)
    return Native(list(objs) + [native_sf()], {f: f for f in FN}, os.path.join(os.path.dirname(elf), "native"), libs=["-lgmp", "-lpthread"]).guarded()


def init_hooks():
    """static constructors of the images: only the recoding table matters here"""
    h = rt_hooks()

    def ret(ex, st):
        from .cxx import _ret
        _ret(ex, st, 0)
    for n in ("sf_const", "sf_copy"):
        h[n] = ret
    return h


def digit_bad(ds):
    """conditions on the digit bytes: range and adjacency"""
    rng = z3.Or(*[z3.UGT(d, 2) for d in ds])
    adj = z3.Or(*[z3.And(x != 0, y != 0) for x, y in zip(ds, ds[1:])])
    return rng, adj


def dval(d, w):
    return z3.If(d == 1, z3.BitVecVal(1, w), z3.If(d == 2, z3.BitVecVal(-1, w), z3.BitVecVal(0, w)))


def naf_digits(H, n, sc, rtot=None):
    ex = CExec(H.p, rt_hooks(), merge=True)
    st = H.state(init=True, hooks=init_hooks())
    R0 = H.buf(st, 8 * n + 16, "digits")
    S0 = H.bytes_buf(st, sc, "scalar", align=1)
    H.setup(ex, st, "h_naf", [R0, S0, n])
    return ex, R0, list(ex.run(st))


def run_naf(r, n, timeout=300000):
    H = harness()
    sc = [z3.BitVec("s%d" % i, 8) for i in range(n)]
    ex, R0, ends = naf_digits(H, n, sc)
    nat = native()
    rnd = random.Random(n)

    def run(sv):
        b = Buf(b"\x99" * (8 * n + 16))
        _, out, bad, _ = nat.call("h_naf", [b, Buf(bytes(sv)), n])
        o = out[b]
        k = int.from_bytes(bytes(sv), "little")
        ok = not bad and all(x <= 2 for x in o) and sum((0, 1, -1)[x] << i for i, x in enumerate(o) if x <= 2) == k and \
            not any(x and y for x, y in zip(o, o[1:]))
        return o, ok
    for e in ends:
        r.paths += 1
        r.steps += e.steps
        if e.end != "ret":
            r.violation("recoding %d bytes ends with %s %s" % (n, e.end, e.info), key="naf:%d" % n, replay={"bytes": n, "end": str(e.info)})
            continue
        ds = [bv(e.mem.load(R0 + i, 8 // 8), 8) for i in range(8 * n + 16)]
        rng, adj = digit_bad(ds)
        # weighted sum, one byte at a time: the carry between bytes is a solver term
        W = 8 * n + 24
        todo = [("digit range", rng), ("adjacent digits", adj)]
        # partial sums: digits of the first i bytes plus the carry equal the first i scalar bytes
        k = z3.Concat(z3.BitVecVal(0, 24), *reversed(sc))
        if n <= 3:
            tot = z3.BitVecVal(0, W)
            for i, d in enumerate(ds):
                tot = tot + (dval(d, W) << i)
            todo.append(("weighted sum", tot != k))
        else:
            # 3-valued remainder: r_0 = 0, r_{i+1} = (r_i + d_i - k_i) / 2 exactly, r_end = 0
            todo.append(("weighted sum", chain(ds, sc)))
        for what, c in todo:
            r.obligations += 1
            res, m = check_sat(e.path + [c], timeout, "recoding", True)
            if res == "unknown":
                r.inconclusive("%s: solver gave up" % what)
            elif res == "sat":
                sv = [m.eval(x, model_completion=True).as_long() for x in sc]
                o, ok = run(sv)
                if ok:
                    r.inconclusive("%s: the encoder disagrees with the native run for %s" % (what, bytes(sv).hex()))
                else:
                    r.violation("recoding of %s: %s wrong: %s" % (bytes(sv).hex(), what, o.hex()), key="naf",
                                replay={"scalar": bytes(sv).hex(), "digits": o.hex()})
    for sv in [[0] * n, [255] * n, [0xab] * n] + [[rnd.randrange(256) for _ in range(n)] for _ in range(3)]:
        o, ok = run(sv)
        if ok:
            r.validated += 1
        elif r.status == "ok":
            r.inconclusive("native digits of %s are wrong" % bytes(sv).hex())
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r


def chain(ds, sc):
    """some digit string with this weighted sum differs from the scalar: exact division chain of small remainders"""
    W = 4
    rem = z3.BitVecVal(0, W)
    bad = []
    for i, d in enumerate(ds):
        kb = z3.ZeroExt(W - 1, z3.Extract(i & 7, i & 7, sc[i >> 3])) if i >> 3 < len(sc) else z3.BitVecVal(0, W)
        t = rem + dval(d, W) - kb
        bad.append(z3.Extract(0, 0, t) != 0)
        bad.append(z3.Or(t > 2, t < -2))
        rem = t >> 1
    bad.append(rem != 0)
    return z3.Or(*bad)


def term_vars(t, seen=None):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


def run_naf_steps(r, n, budget=240):
    """long scalars: one byte at a time.  The value read from the recoding table for each byte is cut; the solver
    enumerates every state that can cross from one byte to the next."""
    import time
    H = harness()
    sc = [z3.BitVec("s%d" % i, 8) for i in range(n)]
    ex = CExec(H.p, rt_hooks(), merge=True)
    ex.cuts = []
    st = H.state(init=True, hooks=init_hooks())
    R0 = H.buf(st, 8 * n + 16, "digits")
    S0 = H.bytes_buf(st, sc, "scalar", align=1)
    H.setup(ex, st, "h_naf", [R0, S0, n])
    ends = list(ex.run(st))
    r.paths += len(ends)
    r.steps += sum(e.steps for e in ends)
    r.functions = sorted(H.encoded(ex))
    t0 = time.time()

    def outside(why):
        r.bounds["%d bytes" % n] = "not decided: " + why
        r.sample = {"bytes": n, "not decided": why}
        return r
    if any(e.end == "violation" for e in ends):
        # memory errors do not depend on the cut values: one concrete run settles them
        e = [e for e in ends if e.end == "violation"][0]
        res, m = check_sat(e.path + [v == t for v, _, t in ex.cuts], 60000, "recoding", True)
        if res == "sat":
            return r.violation("recoding %d bytes: %s" % (n, e.info), key="naf:%d" % n, replay={"bytes": n, "what": str(e.info)})
        return outside("memory access under an unconfirmed condition")
    if len(ends) != 1 or ends[0].end != "ret" or len(ex.cuts) != n + 2:
        return outside("the recoding is not one table step per byte")
    e = ends[0]
    W = 5
    states = None
    prevv = None
    for i, (v, idx, tree) in enumerate(ex.cuts):
        ds = [bv(e.mem.load(R0 + 8 * i + j, 1), 8) for j in range(8)]
        if any(term_vars(d) - {v.decl().name()} for d in ds):
            return outside("digits do not come from one table value")
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(v == tree)
        rem = z3.BitVec("rem", W)
        prev = z3.BitVec("prev", 1)
        if i:
            z = [(x, z3.BitVecVal(0, 8)) for x in sc]
            g = z3.simplify(z3.substitute(idx, *z))
            s.add(z3.Or(*[z3.And(g == a, rem == b, prev == c, ahead == d) for a, b, c, d in states]))
        else:
            s.add(rem == 0, prev == 0)
        bad = [z3.UGT(d, 2) for d in ds]
        seq = [prev == 1] + [d != 0 for d in ds]
        bad += [z3.And(a, b) for a, b in zip(seq, seq[1:])]
        rr = rem
        for j, d in enumerate(ds):
            kb = z3.ZeroExt(W - 1, z3.Extract(j, j, sc[i])) if i < n else z3.BitVecVal(0, W)
            t = rr + dval(d, W) - kb
            bad.append(z3.Extract(0, 0, t) != 0)
            bad.append(z3.Or(t > 4, t < -4))
            rr = t >> 1
        if i == n + 1:
            bad.append(rr != 0)
        t = time.time()
        s.push()
        s.add(z3.Or(*bad))
        res = s.check()
        STATS.add("step", time.time() - t, str(res))
        r.obligations += 1
        s.pop()
        if res != z3.unsat:
            # a concrete scalar, if this is real
            full = [x == y for x, _, y in ex.cuts[:i + 1]]
            alld = [bv(e.mem.load(R0 + j, 1), 8) for j in range(8 * (i + 1))]
            rng, adj = digit_bad(alld)
            rr = z3.BitVecVal(0, W)
            bad = [rng, adj]
            for j, d in enumerate(alld):
                kb = z3.ZeroExt(W - 1, z3.Extract(j & 7, j & 7, sc[j >> 3])) if j >> 3 < n else z3.BitVecVal(0, W)
                t = rr + dval(d, W) - kb
                bad.append(z3.Extract(0, 0, t) != 0)
                rr = t >> 1
            if i == n + 1:
                bad.append(rr != 0)
            res, m = check_sat(full + [z3.Or(*bad)], 120000, "recoding", True)
            if res == "sat":
                sv = [m.eval(x, model_completion=True).as_long() for x in sc]
                nat = native()
                b = Buf(b"\x99" * (8 * n + 16))
                _, out, cb, _ = nat.call("h_naf", [b, Buf(bytes(sv)), n])
                nat.close()
                o = out[b]
                k = int.from_bytes(bytes(sv), "little")
                if cb or any(x > 2 for x in o) or sum((0, 1, -1)[x] << j for j, x in enumerate(o)) != k or any(x and y for x, y in zip(o, o[1:])):
                    return r.violation("recoding of %s (%d bytes) is wrong" % (bytes(sv).hex(), n), key="naf",
                                       replay={"scalar": bytes(sv).hex(), "digits": o.hex()})
            return outside("step %d" % i)
        if i < n + 1:
            ng = z3.simplify(z3.substitute(ex.cuts[i + 1][1], *[(x, z3.BitVecVal(0, 8)) for x in sc]))
            if term_vars(ng) - {v.decl().name()}:
                return outside("state does not come from the previous table value")
            nl = z3.If(ds[7] != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            # bits of the next byte this step has already seen
            ahead = z3.BitVecVal(0, 1)
            if i + 1 < n:
                bits = [z3.BitVec("bit%d" % j, 1) for j in range(8)]
                used = term_vars(z3.simplify(z3.substitute(idx, (sc[i + 1], z3.Concat(*reversed(bits))))))
                seen = [z3.Extract(j, j, sc[i + 1]) for j in range(8) if "bit%d" % j in used]
                if seen:
                    ahead = z3.Concat(*seen) if len(seen) > 1 else seen[0]
            states = []
            t = time.time()
            while s.check() == z3.sat:
                m = s.model()
                x = tuple(m.eval(y, model_completion=True).as_long() for y in (ng, rr, nl, ahead))
                states.append(x)
                s.add(z3.Not(z3.And(ng == x[0], rr == x[1], nl == x[2], ahead == x[3])))
                if len(states) > 64:
                    return outside("too many states")
            STATS.add("states", time.time() - t)
        if time.time() - t0 > budget:
            return outside("time at byte %d" % i)
    r.bounds["%d bytes" % n] = "decided, byte by byte"
    r.sample = {"bytes": n, "states between bytes": len(states)}
    return r


def run_log2(r):
    H = harness()
    ex = CExec(H.p, rt_hooks(), merge=True)
    st = H.state()
    v = z3.BitVec("v", 32)
    H.setup(ex, st, "h_log2", [z3.Concat(z3.BitVecVal(0x5a5a5a5a, 32), v)])
    nat = native()
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        r.obligations += 1
        if e.end != "ret":
            r.violation("log2 ends with %s" % e.end, replay={"end": e.end})
            continue
        x = bv(e.regs[RAX], 64)
        sh = z3.Extract(31, 0, x)
        bad = z3.And(v != 0, z3.Or(z3.UGT(x, 31), z3.LShR(v, sh) != 1))
        res, m = check_sat(e.path + [bad], 120000, "log2", True)
        if res == "sat":
            n = m.eval(v, model_completion=True).as_long()
            got = nat.call("h_log2", [n])[0]
            if got == n.bit_length() - 1:
                r.inconclusive("log2(%d): encoder and native run disagree" % n)
            else:
                r.violation("log2(%d) = %d, expected %d" % (n, got, n.bit_length() - 1), replay={"value": n, "native": got})
        elif res != "unsat":
            r.inconclusive("solver gave up")
    for n in (1, 2, 3, 255, 256, 1 << 31, (1 << 32) - 1):
        if nat.call("h_log2", [n])[0] == n.bit_length() - 1:
            r.validated += 1
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r


def run_br(r, p):
    H = harness()
    ex = CExec(H.p, rt_hooks(), merge=True)
    st = H.state()
    xs = z3.BitVec("x", max(p, 1))
    x = z3.ZeroExt(64 - xs.size(), xs)
    H.setup(ex, st, "h_br", [x if p else 0, p])
    nat = native()
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        r.obligations += 1
        if e.end != "ret":
            r.violation("bit reversal ends with %s" % e.end, replay={"end": e.end})
            continue
        got = bv(e.regs[RAX], 64)
        want = z3.BitVecVal(0, 64) if p == 0 else z3.ZeroExt(64 - p, z3.Concat(*[z3.Extract(i, i, xs) for i in range(p)]) if p > 1 else xs)
        res, m = check_sat(e.path + [got != want], 120000, "reversal", True)
        if res == "sat":
            n = m.eval(xs, model_completion=True).as_long() if p else 0
            g = nat.call("h_br", [n, p])[0]
            w = int(bin(n)[2:].zfill(p)[::-1], 2) if p else 0
            if g == w:
                r.inconclusive("BR(%d,%d): encoder and native run disagree" % (n, p))
            else:
                r.violation("BR(%d, %d) = %d, expected %d" % (n, p, g, w), replay={"x": n, "bits": p, "native": g})
        elif res != "unsat":
            r.inconclusive("solver gave up")
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r


def run_divide(r, tmax, nmax):
    """threads fixed, element count symbolic in 1..nmax"""
    H = harness()
    ex = CExec(H.p, rt_hooks(), merge=False)
    ex.max_paths = 100000
    st = H.state()
    n = z3.BitVec("n", 32)
    t = tmax
    O = H.buf(st, 4 * (t + 1) + 4, "out")
    H.setup(ex, st, "h_divide", [z3.Concat(z3.BitVecVal(0, 32), n), t, O, t + 1])
    st.path.append(z3.And(n >= 1, n <= nmax))
    nat = native()
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        r.obligations += 1
        if e.end != "ret":
            res, m = check_sat(e.path, 60000, "divide", True)
            nv = m.eval(n, model_completion=True).as_long() if res == "sat" else None
            r.violation("divideWork(%s, %d) ends with %s %s" % (nv, t, e.end, e.info), key="divide:" + str(e.end), replay={"elements": nv, "threads": t})
            continue
        k = e.regs[RAX]
        if not isinstance(k, int):
            ks = ex.concretize_path(e, k)
            if len(ks) != 1:
                # one path for several piece counts: judge each
                for x in ks:
                    judge_div(r, nat, e, e.path + [bv(k, 64) == x], x, n, t, O)
                continue
            k = ks[0]
        judge_div(r, nat, e, e.path, k & M64, n, t, O)
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r


def judge_div(r, nat, e, path, k, n, t, O):
    if k > t or k == 0:
        bad = z3.BoolVal(True)
        js = []
    else:
        js = [bv(e.mem.load(O + 4 * i, 4), 32) for i in range(k)]
        want = z3.If(n <= t, n, z3.BitVecVal(t, 32))
        tot = js[0]
        for j in js[1:]:
            tot = tot + j
        bad = z3.Or(want != k, tot != n, *[j < 1 for j in js] + [j > n for j in js]
                    + [z3.Or(x - y > 1, x - y < -1) for x in js[:1] + js[-1:] for y in js])
    res, m = check_sat(path + [bad], 120000, "divide", True)
    if res == "sat":
        nv = m.eval(n, model_completion=True).as_long()
        b = Buf(b"\0" * (4 * t + 8))
        try:
            cnt, out, _, _ = nat.call("h_divide", [nv, t, b, t + 1])
            g = [int.from_bytes(out[b][4 * i:4 * i + 4], "little") for i in range(min(cnt, t + 1))]
        except Crash as c:
            cnt, g = str(c), []
        ok = cnt == min(nv, t) and sum(g) == nv and max(g) - min(g) <= 1 and min(g) > 0
        if ok:
            r.inconclusive("divideWork(%d, %d): encoder and native run disagree" % (nv, t))
        else:
            r.violation("divideWork(%d, %d) gives %s pieces %s" % (nv, t, cnt, g), key="divide", replay={"elements": nv, "threads": t, "native": g})
    elif res != "unsat":
        r.inconclusive("solver gave up")
