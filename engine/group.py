"""Scalar multiplication over an abstract group (C23): digits, scalars and points as solver terms."""
import os
import random
import re
import subprocess
import time
import z3
from .core import *
from .terms import *
from .ring import Poly, Rat, ZERO, ONE, NAMES, IDX, MkZ3
from .sfield import SField, Facts, native_sf, NP
from .cxx import Harness, CExec, compile_cxx, rt_hooks, _ret, cint
from .native import Native, Buf, Crash
from .curve import add_num, affine_num, sqrtp
from .x86 import RAX, RDI, RSI, RDX, RCX
from .build import REPO

SRC = ["group.cpp", os.path.join(REPO, "c/naf.cpp"), os.path.join(REPO, "c/misc.cpp"), "strings.cpp"]
GSRC = ["grpmul.cpp", os.path.join(REPO, "c/naf.cpp"), "strings.cpp"]
GB = 0x5F80000000000000
FL = ["-fno-inline"]


def harness():
    return Harness("group", SRC, FL)


def gharness():
    return Harness("grpmul", GSRC)


def natives(which="group"):
    elf, objs = compile_cxx("group", SRC, FL) if which == "group" else compile_cxx("grpmul", GSRC)
    fns = [p[2] for p in (l.split() for l in subprocess.run(["nm", objs[0]], capture_output=True, text=True).stdout.splitlines())
           if len(p) == 3 and p[1] == "T"]
    return Native(list(objs) + [native_sf()], {f: f for f in fns}, os.path.join(os.path.dirname(elf), "native"), libs=["-lgmp", "-lpthread"]).guarded()


class GroupVals:
    """handles for multiples of generators; rejoined words are resolved digit by digit"""

    def __init__(self, sf):
        self.tab, self.idx, self.sf = [], {}, sf
        self.ops = 0

    def h(self, p):
        i = self.idx.get(p)
        if i is None:
            i = self.idx[p] = len(self.tab)
            self.tab.append(p)
        return GB + i

    def leaves(self, t):
        """[(conditions, handle)]"""
        out = []
        todo = [(t, [])]
        while todo:
            x, c = todo.pop()
            if isinstance(x, int):
                out.append((c, x))
            elif z3.is_bv_value(x):
                out.append((c, x.as_long()))
            elif x.decl().kind() == z3.Z3_OP_ITE:
                a, b, d = x.children()
                todo.append((b, c + [a]))
                todo.append((d, c + [z3.Not(a)]))
            else:
                raise Unsupported("group element depends on %s" % str(x)[:80])
        return out

    def val(self, w):
        if isinstance(w, int):
            if GB <= w < GB + len(self.tab):
                return self.tab[w - GB]
            raise Violation("use of a point nobody initialised")
        lv = self.leaves(w)
        names = set()
        for c, _ in lv:
            for x in c:
                names |= term_vars(x)
        if len(names) != 1 or not list(names)[0].startswith("dig"):
            raise Unsupported("group element depends on %s at once" % sorted(names)[:4])
        nm = names.pop()
        d = z3.BitVec(nm, 8)
        vals = []
        for v in (0, 1, 2):
            t = z3.simplify(z3.substitute(w, (d, z3.BitVecVal(v, 8))))
            if not z3.is_bv_value(t):
                raise Unsupported("group element not determined by its digit")
            t = t.as_long()
            # a leaf only reachable for excluded digits may be missing
            vals.append(self.tab[t - GB] if GB <= t < GB + len(self.tab) else None)
        known = [x for x in vals if x is not None]
        if len(known) < 3:
            raise Violation("use of a point nobody initialised")
        i = int(nm[3:])
        p0, p1, p2 = vals
        return p0 + (p1 - p0) * Poly.var("pos%d" % i) + (p2 - p0) * Poly.var("neg%d" % i)

    def read(self, st, a, n):
        ws = [st.mem.load(a + 8 * i, 8) for i in range(n)]
        w = ws[0]
        # the identity built by the real constructor
        z = self.sf.const(0)
        if n == 4 and ws[2] == z or n == 2 and ws == [z, z]:
            return ZERO
        if any(x is not w and not (isinstance(x, int) and isinstance(w, int) and x == w)
               and not (is_sym(x) and is_sym(w) and x.eq(w)) for x in ws[1:]):
            raise Violation("use of a partly written point")
        return self.val(w)

    def write(self, st, a, n, p):
        h = self.h(p)
        for i in range(n):
            st.mem.store(a + 8 * i, h, 8)

    def hooks(self, prog):
        h = self.sf.hooks()
        pat = re.compile(r"^Curve<SymF>::(add|sub|dbl|neg|copy|isZero|eq)\((.*)\)")
        size = lambda t: 2 if "PointAffine" in t else 4
        for dem, addr in prog.find_syms("^Curve<SymF>::"):
            m = pat.match(dem)
            if not m:
                continue
            h[addr] = self.method(m.group(1), [size(t) for t in m.group(2).split(",")])
        return h

    def method(self, op, sz):
        def hook(ex, st):
            ps = [cint(ex, st, r, "point address") for r in (RSI, RDX, RCX)[:len(sz)]]
            self.ops += 1
            if op in ("isZero", "eq"):
                v = self.read(st, ps[0], sz[0])
                if op == "eq":
                    v = v - self.read(st, ps[1], sz[1])
                if v.vars() - {IDX["B"]}:
                    raise Unsupported("decision on a point that depends on the digits")
                return _ret(ex, st, int(v.is_zero()))
            a = self.read(st, ps[1], sz[1])
            if op in ("add", "sub"):
                b = self.read(st, ps[2], sz[2])
                a = a + b if op == "add" else a - b
            elif op == "dbl":
                a = a + a
            elif op == "neg":
                a = -a
            self.write(st, ps[0], sz[0], a)
            _ret(ex, st)
        return hook


def term_vars(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


def mul_num(p, k, a):
    r = None
    while k:
        if k & 1:
            r = add_num(r, p, a)
        p = add_num(p, p, a)
        k >>= 1
    return r


def run_digits(r, fn, n, alias, lo, hi):
    """scalars of n bytes whose leading signed digit is at a position lo..hi-1 (lo = -1 includes the zero scalar);
    the recoding is replaced by its specification (C22), its digits are free"""
    H = harness()
    sf = SField()
    gv = GroupVals(sf)
    hk = gv.hooks(H.p)
    ND = 8 * n + 2
    dg = [z3.BitVec("dig%d" % i, 8) if i < hi else z3.BitVecVal(0, 8) for i in range(8 * n + 16)]
    used = []

    def naf(ex, st):
        p, s, m = cint(ex, st, RDI), cint(ex, st, RSI), ex.rr(st, RDX, 32)
        if m != n:
            raise Unsupported("recoding of %s bytes" % m)
        st.mem.check(s, n, False)
        for i in range(8 * n + 16):
            st.mem.store(p + i, dg[i] if i < hi else 0, 1)
        used.append(1)
        _ret(ex, st)
    for dem, addr in H.p.find_syms(r"^buildNaf\("):
        hk[addr] = naf
    ex = CExec(H.p, hk, merge=True)
    ex.keep_control = True
    ex.max_paths = 100000
    tv = {}

    def one_digit(g, m):
        # a rejoined group element has to be determined by one digit
        names = set()
        for s in g:
            for c in s.path[m:]:
                if c.get_id() not in tv:
                    tv[c.get_id()] = (c, {x for x in term_vars(c) if x.startswith("dig")})
                names |= tv[c.get_id()][1]
        return len(names) <= 1
    ex.may_join = one_digit
    st = H.state()
    st.user["facts"] = Facts()
    bw = 2 if fn == "mul_pa" else 4
    B = Poly.var("B")
    hB = gv.h(B)
    for i in range(hi):
        st.path.append(z3.ULE(dg[i], 2))
        if i:
            st.path.append(z3.Or(dg[i] == 0, dg[i - 1] == 0))
    # the leading digit is 1
    seen = z3.BoolVal(False)
    for i in reversed(range(hi)):
        st.path.append(z3.Or(seen, dg[i] != 2))
        if i == max(lo, 0) and lo >= 0:
            st.path.append(z3.Or(seen, dg[i] != 0))
        seen = z3.simplify(z3.Or(seen, dg[i] != 0))
    W = 8 * n + 8
    k = z3.BitVecVal(0, W)
    for i in range(hi):
        k = k + (z3.If(dg[i] == 1, z3.BitVecVal(1, W), z3.If(dg[i] == 2, z3.BitVecVal(-1, W), z3.BitVecVal(0, W))) << i)
    A0 = H.buf(st, 8 * bw, "base", [hB] * bw, writable=alias == "ra")
    R0 = A0 if alias == "ra" else H.buf(st, 32, "r")
    S0 = st.alloc(max(n, 1), "scalar", False, align=1, gap=64)
    for i in range(n):
        st.mem.store(S0 + i, z3.Extract(8 * i + 7, 8 * i, k), 1, False)
    kw = [Rat.var(x) for x in ("ca", "cb", "gx", "gy")]
    st.user["facts"] = Facts(nonzero=[kw[0].n, kw[0].n - ONE, kw[0].n + ONE])
    K0 = H.buf(st, 32, "k", [sf.h(x) for x in kw], writable=False)
    H.setup(ex, st, fn, [R0, A0, S0, n, K0])
    key = "%s:%s" % (fn, alias or "none")

    def replay(kv, what):
        nat = natives()
        rnd = random.Random(5)
        a = rnd.randrange(2, NP)
        x, y, z = [rnd.randrange(1, NP) for _ in range(3)]
        wd = [x, y] if bw == 2 else [x * z * z % NP, y * z ** 3 % NP, z * z % NP, z ** 3 % NP]
        b = Buf(b"".join(v.to_bytes(8, "little") for v in wd))
        rb = b if alias == "ra" else Buf(b"\x55" * 32)
        kb = Buf(b"".join(v.to_bytes(8, "little") for v in (a, 7, 8, 9)))
        s = Buf(kv.to_bytes(n, "little") or b"\0")
        want = mul_num((x, y), kv, a)
        try:
            _, out, bad, _ = nat.call(fn, [rb, b, s, n, kb])
            g = affine_num([int.from_bytes(out[rb][i:i + 8], "little") % NP for i in range(0, 32, 8)])
        except Crash as c:
            g, bad = str(c), 0
        nat.close()
        return g, want, bad

    def report(m, what):
        kv = m.eval(k, model_completion=True).as_long() % (1 << W)
        if kv >> (8 * n):
            r.inconclusive("%s for a digit string no scalar has" % what)
            return
        g, want, bad = replay(kv, what)
        if g == want and not bad:
            r.inconclusive("%s with scalar %x in the encoder, right natively" % (what, kv))
        else:
            r.violation("%s: %d-byte scalar %x, sharing %s: %s; native run gives %s, expected %s" % (fn, n, kv, alias or "none", what, g, want),
                        key=key, replay={"function": fn, "scalar": hex(kv), "bytes": n, "native": g, "expected": want, "prime": NP})
    mk = MkZ3("int")
    spec = Poly({})
    for i in range(hi):
        spec = spec + Poly.const(1 << i) * (Poly.var("pos%d" % i) - Poly.var("neg%d" % i)) * B
    try:
        ends = list(ex.run(st))
    except Unsupported as e:
        raise
    for e in ends:
        r.paths += 1
        r.steps += e.steps
        r.obligations += 1
        if e.end != "ret":
            res, m = check_sat(e.path, 60000, "path", True)
            if res == "sat":
                report(m, "%s %s" % (e.end, e.info))
            continue
        got = gv.read(e, R0, 4)
        # digits the path has settled
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 60000)
        iv = {}
        d = got - spec
        for v in d.vars():
            nm = NAMES[v]
            if nm[:3] in ("pos", "neg"):
                i = int(nm[3:])
                s.add(mk.var(v) == z3.If(dg[i] == (1 if nm[:3] == "pos" else 2), 1, 0))
        for c in e.path:
            s.add(c)
        # coefficient of the base
        s.add(d.subst(IDX["B"], ONE).z3(mk) != 0)
        if d.is_zero():
            res = z3.unsat
        else:
            res = s.check()
        STATS.add("identity", time.time() - t, str(res))
        if res == z3.sat:
            report(s.model(), "wrong multiple")
        elif res != z3.unsat:
            r.inconclusive("solver gave up")
    if not used:
        r.bounds["recoding"] = "not called through buildNaf"
    # concrete agreement
    rnd = random.Random(n * 100 + hi)
    for _ in range(2):
        kv = rnd.randrange(1 << max(min(hi, 8 * n) - 1, 0), (1 << min(hi, 8 * n))) if n and hi > 0 else 0
        g, want, bad = replay(kv, "")
        if g == want and not bad:
            r.validated += 1
        elif r.status == "ok":
            r.inconclusive("native run wrong for scalar %x" % kv)
    r.functions = sorted(H.encoded(ex))
    if r.sample is None:
        r.sample = {"function": fn, "bytes": n, "leading digit": [lo, hi], "group operations": gv.ops}
    return r


def run_positions(r, fn, n, alias, pos):
    for p in pos:
        run_digits(r, fn, n, alias, p, p + 1)
        if r.status != "ok":
            break
    return r


def run_whole(r, fn, n, alias):
    """recoding included: every scalar of n bytes on integers modulo 2^64"""
    from .plain import init_hooks
    H = gharness()
    ex = CExec(H.p, rt_hooks(), merge=True)
    ex.keep_control = True
    ex.max_paths = 100000
    st = H.state(init=True, hooks=init_hooks())
    sc = [z3.BitVec("s%d" % i, 8) for i in range(n)]
    b = z3.BitVec("b", 64)
    A0 = H.buf(st, 8, "base", [b], writable=alias == "ra")
    R0 = A0 if alias == "ra" else H.buf(st, 8, "r")
    S0 = H.bytes_buf(st, sc, "scalar", align=1)
    st.path.append(b == 1)      # the group acts linearly: the multiple of 1 decides
    H.setup(ex, st, fn, [R0, A0, S0, n])
    k = z3.ZeroExt(64 - 8 * n, z3.Concat(*reversed(sc)) if n > 1 else sc[0])
    nat = natives("grpmul")
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        r.obligations += 1
        c = [] if e.end != "ret" else [bv(e.mem.load(R0, 8), 64) != k]
        res, m = check_sat(e.path + c, 120000, "multiple", True)
        if res == "unknown":
            r.inconclusive("solver gave up")
        elif res == "sat":
            sv = bytes(m.eval(x, model_completion=True).as_long() for x in sc)
            bb = Buf((1).to_bytes(8, "little"))
            rb = bb if alias == "ra" else Buf(b"\x55" * 8)
            try:
                _, out, bad, _ = nat.call(fn, [rb, bb, Buf(sv), n])
                g = int.from_bytes(out[rb], "little")
            except Crash as x:
                g, bad = str(x), 0
            if g == int.from_bytes(sv, "little") and not bad:
                r.inconclusive("%s: encoder and native run disagree on %s" % (fn, sv.hex()))
            else:
                r.violation("%s: scalar %s times 1 is %s (%s)" % (fn, sv.hex(), g, e.info or ""), key="%s:%s" % (fn, alias or "none"),
                            replay={"function": fn, "scalar": sv.hex(), "native": g})
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r
