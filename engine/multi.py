"""Multi-scalar multiplication over a free abelian group (C24, C25): every element is a vector of wide bit-vectors, one
coordinate per base, and the scalars are symbolic."""
import os
import random
import subprocess
import time
import z3
from .core import *
from .terms import *
from .cxx import Harness, CExec, compile_cxx, rt_hooks, _ret, cint
from .native import Native, Buf, Crash
from .sfield import native_sf, NP
from .x86 import RAX, RDI, RSI, RDX, RCX
from .plain import init_hooks
from .build import REPO

GB = 0x5F40000000000000
SRC = ["multi.cpp", os.path.join(REPO, "c/misc.cpp"), "poolvars.cpp", "strings.cpp"]
OMP_RET = 0x7F0000000000


def variant(omp, chunk=0):
    fl = (["-fopenmp", "-DUSE_OPENMP"] if omp else []) + (["-DMSM_BITS_PER_CHUNK=%d" % chunk] if chunk else [])
    return ("multi_omp" if omp else "multi") + (str(chunk) if chunk else ""), tuple(fl)


def harness(omp=False, chunk=0):
    n, fl = variant(omp, chunk)
    return Harness(n, SRC, fl)


def natives(omp=False, chunk=0):
    n, fl = variant(omp, chunk)
    elf, objs = compile_cxx(n, SRC, fl)
    _, o2 = compile_cxx("multinative", ["multinative.cpp"])
    fns = [p[2] for p in (l.split() for l in subprocess.run(["nm", objs[0]], capture_output=True, text=True).stdout.splitlines())
           if len(p) == 3 and p[1] == "T"]
    return Native([objs[0], objs[1], o2[0], native_sf()], {f: f for f in fns}, os.path.join(os.path.dirname(elf), "native"),
                  libs=["-lgmp", "-lpthread"] + (["-lgomp"] if omp else [])).guarded()


class Lin:
    """constant + sum of coefficient * [condition]; coef: {condition id: integer}"""
    __slots__ = ("c", "t", "k")

    def __init__(self, c, t):
        self.c, self.t = c, t
        self.k = (c, frozenset(t.items()))

    def is_const(self):
        return not self.t


class Vec:
    """handles for vectors of integers that are linear in the truth values of conditions"""

    def __init__(self, n, W):
        self.n, self.W = n, W
        self.tab, self.idx = [], {}
        self.cache = {}
        self.ops = 0
        self.conds = {}             # id -> condition
        self.zkeys = {}             # id of a condition "this vector is zero" -> the vector
        self.C0 = Lin(0, {})
        self.zero = (self.C0,) * n

    def num(self, k):
        return Lin(k, {})

    def word(self, t, w):
        """a term read as an unsigned number"""
        return Lin(0, {self.cond(z3.Extract(i, i, t) == 1): 1 << i for i in range(w)})

    def cond(self, c):
        c = z3.simplify(c)
        self.conds[c.get_id()] = c
        return c.get_id()

    def h(self, v):
        if all(x.c == 0 and not x.t for x in v):
            return 0
        k = tuple(x.k for x in v)
        i = self.idx.get(k)
        if i is None:
            i = self.idx[k] = len(self.tab)
            self.tab.append(v)
        return GB + i

    def lin(self, a, b, f=1):
        """a + f*b"""
        if not b.t and not b.c:
            return a
        t = dict(a.t)
        for k, v in b.t.items():
            x = t.get(k, 0) + f * v
            if x:
                t[k] = x
            else:
                t.pop(k, None)
        return Lin(a.c + f * b.c, t)

    def pick(self, c, x, y):
        """coordinates of: x if c else y"""
        d = tuple(self.lin(p, q, -1) for p, q in zip(x, y))
        if all(not p.t and not p.c for p in d):
            return y
        c = z3.simplify(c)
        if z3.is_true(c):
            return x
        if z3.is_false(c):
            return y
        z = self.zkeys.get(c.get_id())
        n = z3.is_not(c) and self.zkeys.get(c.arg(0).get_id())
        for zv, flip in ((z, True), (n, False)):
            if not zv:
                continue
            # c says that zv is (not) zero: a difference that is a multiple of zv needs no case distinction
            for f in (1, -1):
                if all(p.k == Lin(f * q.c, {k: f * v for k, v in q.t.items()}).k for p, q in zip(d, zv)):
                    return y if flip else tuple(self.lin(q, p) for p, q in zip(d, y))
        out = []
        for p, q in zip(d, y):
            if p.t:
                t = {}
                for k, v in p.t.items():
                    i = self.cond(z3.And(c, self.conds[k]))
                    if not z3.is_false(self.conds[i]):
                        t[i] = t.get(i, 0) + v
                if p.c:
                    i = self.cond(c)
                    t[i] = t.get(i, 0) + p.c
                out.append(self.lin(q, Lin(0, t)))
            elif p.c:
                out.append(self.lin(q, Lin(0, {self.cond(c): p.c})))
            else:
                out.append(q)
        return tuple(out)

    def val(self, w):
        if isinstance(w, int):
            if w == 0:
                return self.zero
            if GB <= w < GB + len(self.tab):
                return self.tab[w - GB]
            raise Violation("use of a point nobody initialised")
        r = self.cache.get(w.get_id())
        if r is not None:
            return r[1]
        if z3.is_bv_value(w):
            return self.val(w.as_long())
        if w.decl().kind() != z3.Z3_OP_ITE:
            s = z3.simplify(w)
            if not s.eq(w):
                return self.val(s)
            raise Unsupported("group element %s" % str(w)[:80])
        c, a, b = w.children()
        v = self.pick(c, self.val(a), self.val(b))
        self.cache[w.get_id()] = (w, v)
        return v

    def add(self, a, b, sub=False):
        return tuple(self.lin(x, y, -1 if sub else 1) for x, y in zip(a, b))

    def term(self, x):
        t = z3.BitVecVal(x.c, self.W)
        for k, v in sorted(x.t.items(), key=lambda z: abs(z[1])):
            t = t + z3.If(self.conds[k], z3.BitVecVal(v, self.W), z3.BitVecVal(0, self.W))
        return t

    def iszero(self, v):
        c = []
        for x in v:
            if not x.t:
                if x.c:
                    return 0
                continue
            if x.c == 0 and (all(k > 0 for k in x.t.values()) or all(k < 0 for k in x.t.values())):
                c += [z3.Not(self.conds[k]) for k in x.t]
            else:
                c.append(self.term(x) == 0)
        if not c:
            return 1
        t = z3.simplify(z3.And(*c) if len(c) > 1 else c[0])
        if z3.is_true(t):
            return 1
        if z3.is_false(t):
            return 0
        self.conds[t.get_id()] = t
        self.zkeys[t.get_id()] = v
        return z3.If(t, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))

    def hooks(self, scal=None):
        V = self

        def same(a, b):
            return a is b or (isinstance(a, int) and isinstance(b, int) and a == b) or (is_sym(a) and is_sym(b) and a.eq(b))

        def update(f, k):
            """r = f(operands); r may be symbolic, operands at the same address follow it"""
            def hook(ex, st):
                V.ops += 1
                rs = [st.regs[x] for x in (RDI, RSI, RDX)[:k]]
                r = rs[0]
                if isinstance(r, int):
                    vs = [V.val(ex.load(st, a, 8)) for a in rs[1:]]
                    st.mem.store(r, V.h(f(*vs)), 8)
                else:
                    al = ex.addrs(st, r)
                    for x, c in al:
                        st.mem.check(x, 8, True)
                    vals = []
                    for x, c in al:
                        vals.append(V.h(f(*[V.val(st.mem.load(x, 8) if same(a, r) else ex.load(st, a, 8)) for a in rs[1:]])))
                    for (x, c), v in zip(al, vals):
                        st.mem.store(x, v if c is True else ite(c, v, st.mem.load(x, 8), 64), 8)
                _ret(ex, st)
            return hook

        def test(eq):
            def hook(ex, st):
                v = V.val(ex.load(st, st.regs[RDI], 8))
                if eq:
                    v = V.add(v, V.val(ex.load(st, st.regs[RSI], 8)), True)
                _ret(ex, st, V.iszero(v))
            return hook

        def mul(ex, st):
            b, s, n = V.val(ex.load(st, st.regs[RSI], 8)), cint(ex, st, RDX), cint(ex, st, RCX) & 0xffffffff
            bs = [st.mem.load(s + i, 1) for i in range(n)]
            if all(isinstance(x, int) for x in bs):
                k = V.num(int.from_bytes(bytes(bs), "little"))
            else:
                k = V.word(z3.Concat(*[bv(x, 8) for x in reversed(bs)]) if n > 1 else bs[0], 8 * n)
            v = []
            for x in b:
                if x.is_const():
                    v.append(Lin(k.c * x.c, {i: y * x.c for i, y in k.t.items() if x.c}))
                elif k.is_const():
                    v.append(Lin(k.c * x.c, {i: y * k.c for i, y in x.t.items() if k.c}))
                else:
                    raise Unsupported("multiple of a symbolic element")
            v = tuple(v)
            st.mem.store(cint(ex, st, RDI), V.h(v), 8)
            _ret(ex, st)

        def const(ex, st):
            if cint(ex, st, RSI, "constant") != 0:
                raise Unsupported("group constant")
            st.mem.store(cint(ex, st, RDI), 0, 8)
            _ret(ex, st)
        return {"sf_add": update(lambda a, b: V.add(a, b), 3), "sf_sub": update(lambda a, b: V.add(a, b, True), 3),
                "sf_neg": update(lambda a: V.add(V.zero, a, True), 2), "sf_copy": update(lambda a: a, 2),
                "sf_iszero": test(False), "sf_eq": test(True), "hg_mul": mul, "sf_const": const}


def par_hooks(r, threads):
    """pieces of parallel work run one after the other; two pieces must not write the same place"""
    h = {}

    def begin(st, k):
        st.user["piece"] = k
        st.mem.wlog = set()

    def end(st, top):
        ch = {a + i for a, n, _ in st.mem.wlog for i in range(n)}
        st.mem.wlog = None
        # the part of the stack up to the pool's own frame is the piece's own
        ch = {a for a in ch if not STACK_TOP - STACK_SIZE <= a < top}
        prev = st.user.get("written", frozenset())
        both = ch & prev
        if both:
            raise Violation("two threads write the same place (%s)" % st.mem.near(min(both)))
        st.user["written"] = prev | frozenset(ch)

    def task(ex, st):
        k = cint(ex, st, RDI)
        k = k - (1 << 64) if k >> 63 else k
        if k >= 0:
            begin(st, k)
        elif k == -1:
            end(st, st.regs[RSI])
        else:
            st.user.pop("written", None)
            st.user.pop("piece", None)
        _ret(ex, st)
    h["pool_task"] = task

    def gomp(ex, st):
        fn, data, n = cint(ex, st, RDI), cint(ex, st, RSI), ex.rr(st, RDX, 32)
        if "omp" in st.user:
            raise Unsupported("nested parallel regions")
        n = n or st.user.get("omax", threads)
        st.user["omp"] = (fn, data, n, 0)
        begin(st, 0)
        st.regs[RDI] = data
        ex.push(st, OMP_RET)
        st.pc = fn

    def again(ex, st):
        fn, data, n, k = st.user["omp"]
        end(st, st.regs[4])
        k += 1
        if k < n:
            st.user["omp"] = (fn, data, n, k)
            begin(st, k)
            st.regs[RDI] = data
            ex.push(st, OMP_RET)
            st.pc = fn
        else:
            del st.user["omp"]
            st.user.pop("written", None)
            st.user.pop("piece", None)
            _ret(ex, st)
    h["GOMP_parallel"] = gomp
    h[OMP_RET] = again

    def tid(ex, st):
        _ret(ex, st, st.user["omp"][3] if "omp" in st.user else 0)

    def nth(ex, st):
        _ret(ex, st, st.user["omp"][2] if "omp" in st.user else 1)
    h["omp_get_thread_num"] = tid
    h["omp_get_num_threads"] = nth
    h["omp_get_max_threads"] = lambda ex, st: _ret(ex, st, st.user.get("omax", threads))

    def setn(ex, st):
        st.user["omax"] = ex.rr(st, RDI, 32)
        _ret(ex, st)
    h["omp_set_num_threads"] = setn
    return h


class Guess:
    def __init__(self, d):
        self.d = d

    def eval(self, v, model_completion=True):
        return self.d[v.get_id()]


def guess(cons, vs, rnd, tries=6):
    """a few concrete values first: when the answer is sat, one of them usually shows it at once (the native run decides)"""
    c = z3.And(*[x for x in cons])
    for k in range(tries):
        d = [(v, z3.BitVecVal(rnd.choice([0, 1, 255, 128, rnd.randrange(256), rnd.randrange(256)]), 8)) for v in vs]
        if z3.is_true(z3.simplify(z3.substitute(c, *d))):
            return Guess({v.get_id(): x for v, x in d})
    return None


def run(r, fn, ss, n, threads=1, reverse=0, mode="sym", zero=(), nx=0, sizes=(), seed=1, window=None, chunk=0, wb=3):
    """scalars of ss bytes; mode sym: every bit symbolic; mode window: the bytes window..window+wb-1 of every scalar are symbolic,
    the others concrete; zero: indices of bases that are the identity"""
    omp = fn != "h_msm" and threads > 1
    H = harness(omp, chunk)
    W = 8 * ss + 10
    V = Vec(n, W)
    hk = rt_hooks()
    hk.update(init_hooks())
    hk.update(V.hooks())
    hk.update(par_hooks(r, threads))
    ex = CExec(H.p, hk, merge=True)
    ex.bs.s.set("timeout", 400)         # an undecided branch is explored both ways
    ex.max_paths = 20000
    ex.max_steps = 3000000
    st = H.state()
    st.mem.store(H.p.sym["pool_threads"], threads, 8)
    st.mem.store(H.p.sym["pool_reverse"], reverse, 8)
    rnd = random.Random(seed * 7919 + n * 31 + ss)
    bits, sc = [], []
    for i in range(n):
        bs = []
        for j in range(ss):
            if mode == "sym" or window <= j < window + wb:
                bs.append(z3.BitVec("s%d_%d" % (i, j), 8))
            else:
                bs.append(rnd.choice([0, 255, 255, rnd.randrange(256), 0x80, 0x7f]) )
        sc.append(bs)
    S0 = H.bytes_buf(st, sum(sc, []), "scalars", align=1) if n else H.bytes_buf(st, [0], "scalars")
    unit = lambda k: V.h(tuple(V.num(int(j == k)) for j in range(n)))
    B0 = H.buf(st, max(8 * n, 1), "bases", [0 if i in zero else unit(i) for i in range(n)], writable=False)
    R0 = H.buf(st, 8, "r")
    args = [R0, B0, S0, ss, n]
    if fn == "h_multi":
        args.append(threads)
    if fn == "h_multix":
        args[3:] = [H.buf(st, 8 * (nx + 4), "sizes", [ss, n, nx, threads] + list(sizes), writable=False)]
    H.setup(ex, st, fn, args)
    used = [i for i in range(n) if i not in zero and (fn != "h_multix" or i // nx < sizes[i % nx])]

    def want(i):
        if i not in used:
            return 0
        if all(isinstance(x, int) for x in sc[i]):
            return int.from_bytes(bytes(sc[i]), "little")
        k = z3.Concat(*[bv(x, 8) for x in reversed(sc[i])]) if ss > 1 else sc[i][0]
        return z3.ZeroExt(W - 8 * ss, k)

    def native(svals, bvals):
        nat = natives(omp, chunk)
        sb = Buf(b"".join(x.to_bytes(ss, "little") for x in svals) or b"\0")
        bb = Buf(b"".join(x.to_bytes(8, "little") for x in bvals) or b"\0" * 8)
        rb = Buf(b"\x55" * 8)
        a = [rb, bb, sb, ss, n]
        if fn == "h_multi":
            a.append(threads)
        if fn == "h_multix":
            a[3:] = [Buf(b"".join(x.to_bytes(8, "little") for x in [ss, n, nx, threads] + list(sizes)))]
        try:
            nat.call("h_setpool", [threads, reverse])
            _, out, bad, _ = nat.call(fn, a)
            g = int.from_bytes(out[rb], "little") % NP
        except Crash as c:
            g, bad = str(c), 0
        nat.close()
        w = sum(s * b for i, (s, b) in enumerate(zip(svals, bvals)) if i in used) % NP
        return g, w, bad

    def bvals():
        return [0 if i in zero else rnd.randrange(1, NP) for i in range(n)]

    def report(m, what):
        sv = [int.from_bytes(bytes(x if isinstance(x, int) else m.eval(x, model_completion=True).as_long() for x in s), "little") for s in sc]
        b = bvals()
        g, w, bad = native(sv, b)
        if g == w and not bad and "two threads write" in what:
            # a data race: no single run of the pieces in turn can show it
            r.violation("%s: %s; scalars %s of %d bytes, %d threads" % (fn, what, [hex(x) for x in sv], ss, threads), key="%s race" % fn,
                        replay={"function": fn, "scalars": [hex(x) for x in sv], "bytes": ss, "threads": threads, "race": what})
        elif g == w and not bad:
            r.inconclusive("%s in the encoder, right natively for %s" % (what, [hex(x) for x in sv]))
        else:
            r.violation("%s: %s; scalars %s of %d bytes, %d threads: native run gives %s, expected %s" %
                        (fn, what, [hex(x) for x in sv], ss, threads, g, w), key="%s" % fn,
                        replay={"function": fn, "scalars": [hex(x) for x in sv], "bytes": ss, "bases": b, "threads": threads,
                                "native": g, "expected": w, "prime": NP, "sizes": list(sizes)})
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        if e.end != "ret":
            r.obligations += 1
            res, m = check_sat(e.path, 60000, "path", True)
            if res == "sat":
                report(m, "%s %s" % (e.end, e.info))
            elif res != "unsat":
                r.inconclusive("solver gave up")
            continue
        try:
            got = V.val(e.mem.load(R0, 8))
        except Violation as v:
            res, m = check_sat(e.path, 60000, "path", True)
            if res == "sat":
                report(m, v.kind)
            continue
        for i in range(n):
            r.obligations += 1
            x, y = got[i], want(i)
            if x.is_const() and isinstance(y, int):
                if x.c != y:
                    res, m = check_sat(e.path, 60000, "path", True)
                    if res == "sat":
                        report(m, "wrong coefficient of base %d" % i)
                continue
            bad = V.term(x) != bv(y, W)
            m = guess(e.path + [bad], [v for b in sc for v in b if not isinstance(v, int)], rnd)
            if m is not None:
                report(m, "wrong coefficient of base %d" % i)
                break
            res, m = check_sat(e.path + [bad], 300000, "coefficient", True)
            if res == "sat":
                report(m, "wrong coefficient of base %d" % i)
                break
            if res != "unsat":
                r.inconclusive("solver gave up on base %d" % i)
    if r.status == "ok":
        for _ in range(2):
            sv = [rnd.randrange(1 << 8 * ss) for _ in range(n)]
            g, w, bad = native(sv, bvals())
            if g == w and not bad:
                r.validated += 1
            else:
                r.violation("%s: scalars %s: native run gives %s, expected %s" % (fn, [hex(x) for x in sv], g, w), key=fn)
    r.functions = sorted(H.encoded(ex))
    if r.sample is None:
        r.sample = {"function": fn, "n": n, "bytes": ss, "threads": threads, "group operations": V.ops}
    return r


def bitwise(path, x, y, W, step=4, tmo=60000):
    """x == y under path, the low bits first: what is settled helps with the bits above"""
    t = time.time()
    s = z3.SolverFor("QF_BV")
    s.set("timeout", tmo)
    for c in path:
        s.add(c)
    lo = 0
    while lo < W:
        hi = min(W, lo + step) - 1
        a, b = z3.Extract(hi, lo, x), z3.Extract(hi, lo, y)
        s.push()
        s.add(a != b)
        k = s.check()
        if k == z3.sat:
            m = s.model()
            STATS.add("coefficient", time.time() - t, "sat")
            return "sat", m
        s.pop()
        if k != z3.unsat:
            STATS.add("coefficient", time.time() - t, "unknown")
            return "unknown", None
        s.add(a == b)
        lo = hi + 1
    STATS.add("coefficient", time.time() - t, "unsat")
    return "unsat", None
