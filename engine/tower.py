"""Obligations for the extension-field templates (C17 to C19)."""
import random
import time
import z3
from .core import *
from .ring import Poly, Rat, ZERO, ONE, NAMES, IDX, MkZ3
from .sfield import SField, Facts, random_env, native_sf, NP, BASE
from .cxx import Harness, CExec, compile_cxx
from .native import Native, Buf, Crash
from .build import REPO, PRIMES
import os

Q = PRIMES["bn128q"]

# ---- specification over any ring (works on fractions and on solver terms alike) ----------------------


class Ring:
    def __init__(self, const, xi=None):
        self.const = const


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def neg(a):
    return [-x for x in a]


def mul2(a, b, nr):
    return [a[0] * b[0] + nr * (a[1] * b[1]), a[0] * b[1] + a[1] * b[0]]


class Alg:
    """algebra given by a basis over the coefficient ring and a multiplication"""

    def __init__(self, kind, C):
        self.kind = kind
        self.C = C          # constant maker
        self.dim = {"f2": 2, "f6": 6, "f12": 12, "a6": 3, "a12": 2}[kind]

    def zero(self):
        return [self.C(0)] * self.dim

    def one(self):
        v = [self.C(0)] * self.dim
        v[{"f2": 0, "f6": 4, "f12": 10, "a6": 2, "a12": 1}[self.kind]] = self.C(1)
        return v

    def mul(self, a, b, nr):
        k = self.kind
        C = self.C
        if k == "f2":
            return mul2(a, b, nr)
        if k == "a12":      # x*w + y, w^2 = tau
            return [a[0] * b[1] + a[1] * b[0], a[1] * b[1] + nr * (a[0] * b[0])]
        if k == "a6":       # x v^2 + y v + z, v^3 = xi
            return [a[0] * b[2] + a[1] * b[1] + a[2] * b[0],
                    a[1] * b[2] + a[2] * b[1] + nr * (a[0] * b[0]),
                    a[2] * b[2] + nr * (a[0] * b[1] + a[1] * b[0])]
        m1 = C(-1)
        if k == "f6":
            A = [a[0:2], a[2:4], a[4:6]]
            B = [b[0:2], b[2:4], b[4:6]]
            P = lambda x, y: mul2(x, y, m1)
            xi = [C(9), C(1)]
            X = add(add(P(A[0], B[2]), P(A[1], B[1])), P(A[2], B[0]))
            Y = add(add(P(A[1], B[2]), P(A[2], B[1])), P(xi, P(A[0], B[0])))
            Z = add(P(A[2], B[2]), P(xi, add(P(A[0], B[1]), P(A[1], B[0]))))
            return X + Y + Z
        if k == "f12":
            s = Alg("f6", C)
            P = lambda x, y: s.mul(x, y, None)
            X = add(P(a[:6], b[6:]), P(a[6:], b[:6]))
            t = P(a[:6], b[:6])
            # times v: x v^2 + y v + z -> y v^2 + z v + xi x
            tt = t[2:4] + t[4:6] + mul2([C(9), C(1)], t[0:2], m1)
            return X + add(P(a[6:], b[6:]), tt)


KINDS = {"f2": (2, 16), "f6": (6, 48), "f12": (12, 96), "a6": (3, 24), "a12": (2, 16)}
NRK = {"f2": ["-1", "1", "0", "n", "5"], "f6": ["-1"], "f12": ["-1"], "a6": ["n"], "a12": ["n"]}

_nat = {}


def harness():
    libs = ()
    return Harness("tower", ["tower.cpp", os.path.join(REPO, "c/splitparstr.cpp"), "strings.cpp"])


def native():
    elf, objs = compile_cxx("tower", ["tower.cpp", os.path.join(REPO, "c/splitparstr.cpp"), "strings.cpp"])
    out = os.path.join(os.path.dirname(elf), "native")
    fns = []
    import subprocess
    for l in subprocess.run(["nm", objs[0]], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if len(p) == 3 and p[1] == "T":
            fns.append(p[2])
    return Native(list(objs) + [native_sf()], {f: f for f in fns}, out, libs=["-lgmp"]).guarded()


SHAPES = {"add": "rab", "sub": "rab", "mul": "rab", "div": "rab", "neg": "ra", "copy": "ra", "square": "ra", "inv": "ra",
          "zero": "r", "one": "r", "negOne": "r", "isZero": "pa", "isOne": "pa", "eq": "pab", "conjugate": "ra", "dbl": "ra",
          "mulXi": "ra", "mulScalar": "ras", "mulTau": "ra", "mulGFP": "ras", "Frobenius": "ra", "FrobeniusP2": "ra"}
AL = {"rab": ["", "ra", "rb", "ab", "rab"], "ra": ["", "ra"], "r": [""], "pa": [""], "pab": ["", "ab"], "ras": ["", "ra"]}
SCALW = {"f2": 1, "f6": 2, "f12": 6, "a6": 1, "a12": 1}


def spec(kind, fn, A, a, b, s, nr):
    """list of component values, or None when stated as an equation (inv, div)"""
    C = A.C
    if fn == "add":
        return add(a, b)
    if fn == "sub":
        return sub(a, b)
    if fn == "mul":
        return A.mul(a, b, nr)
    if fn == "square":
        return A.mul(a, a, nr)
    if fn == "neg":
        return neg(a)
    if fn == "copy":
        return a
    if fn == "dbl":
        return add(a, a)
    if fn == "zero":
        return A.zero()
    if fn == "one":
        return A.one()
    if fn == "negOne":
        return neg(A.one())
    if fn == "conjugate":
        if kind == "f2":
            return [a[0], -a[1]]
        h = A.dim // 2
        return neg(a[:h]) + a[h:]
    if fn == "mulXi":
        # the non-residue the cubic extension is built on, 9 + u
        return [C(9) * a[0] - a[1], a[0] + C(9) * a[1]]
    if fn == "mulScalar":
        if kind == "f2":
            return [a[0] * s[0], a[1] * s[0]]
        if kind in ("a6", "a12"):
            return [x * s[0] for x in a]
        if kind == "f6":
            return sum([mul2(a[i:i + 2], s, C(-1)) for i in (0, 2, 4)], [])
        S = Alg("f6", C)
        return S.mul(a[:6], s, None) + S.mul(a[6:], s, None)
    if fn == "mulGFP":
        return [x * s[0] for x in a]
    if fn == "mulTau":
        if kind == "a6":
            return [a[1], a[2], nr * a[0]]
        return a[2:4] + a[4:6] + mul2([C(9), C(1)], a[0:2], C(-1))
    if fn in ("Frobenius", "FrobeniusP2"):
        return frob(kind, 1 if fn == "Frobenius" else 2, a, C)
    raise KeyError(fn)


def f2mul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % Q, (a[0] * b[1] + a[1] * b[0]) % Q)


def f2pow(a, e):
    r = (1, 0)
    while e:
        if e & 1:
            r = f2mul(r, a)
        a = f2mul(a, a)
        e >>= 1
    return r


def frob(kind, k, a, C):
    """p^k-th power map, from v^3 = 9+u, w^2 = v by exponentiation"""
    pk = Q ** k
    cj = (lambda x: [x[0], -x[1]]) if k & 1 else (lambda x: list(x))
    g = lambda num, den: f2pow((9, 1), (pk - 1) * num // den)
    m1 = C(-1)

    def six(x, w):
        out = []
        for i, e in ((0, 2), (2, 1), (4, 0)):       # v^2, v, 1
            c = g(2 * e + w, 6)
            out += mul2(cj(x[i:i + 2]), [C(c[0]), C(c[1])], m1)
        return out
    if kind == "f6":
        return six(a, 0)
    return six(a[:6], 1) + six(a[6:], 0)


def identity(lab, code, sp, spz, facts, mk, q=None, timeout=60000):
    """code: Poly; sp: Poly; spz: the specification as a solver term.  True, or the non-zero difference."""
    t = time.time()
    cz = code.z3(mk)
    d = cz - spz
    if facts.sub:
        d = z3.substitute(d, *[(mk.var(v), x.z3(mk)) for v, x in facts.sub.items()])
    res = None
    if q is None:
        if z3.is_int_value(s0 := z3.simplify(d, som=True)):
            res = s0.as_long() == 0
        else:
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(s0 != 0)
            for z in facts.nz:
                s.add(z.z3(mk) != 0)
            r = s.check()
            res = True if r == z3.unsat else False if r == z3.sat else None
    diff = facts.red(code - sp)
    if q:
        diff = diff.mod(q)
        s = z3.Solver()
        s.set("timeout", timeout)
        # every coefficient of the difference is a multiple of the prime
        s.add(z3.Or(*[z3.IntVal(c) % q != 0 for c in facts.red(code - sp).t.values()] or [z3.BoolVal(False)]))
        res = s.check() == z3.unsat
    STATS.add("identity", time.time() - t, "unknown" if res is None else "unsat" if res else "sat")
    if res is None:
        res = diff.is_zero()
    if res:
        return True
    return diff


def run_op(r, kind, fn, nrk, alias, prime_field=False, free=None):
    H = harness()
    n, size = KINDS[kind]
    sym = "%s_%s" % (kind, fn)
    xi = Rat.var("xi")
    sf = SField(q=Q if prime_field else None, special={1: lambda x: x * xi, 2: lambda x: -x, 3: lambda x: x, 4: lambda x: x})
    ex = CExec(H.p, sf.hooks())
    st = H.state()
    shape = SHAPES[fn]
    one = Poly.const(1)
    if nrk == "n":
        nr = xi if kind in ("a6", "a12") else Rat.var("nr")
    else:
        nr = Rat.const(int(nrk))
    facts = Facts(nonzero=[nr.n, nr.n - one, nr.n + one] if nrk == "n" else [])
    st.user["facts"] = facts
    va = [Rat.var("a%d" % i) for i in range(n)]
    if free is not None:        # the other coordinates are fixed small numbers
        va = [v if i in free else Rat.const(2 + (i * 7 + len(free) * 3) % 11) for i, v in enumerate(va)]
    vb = va if "ab" in alias else [Rat.var("b%d" % i) for i in range(n)]
    sw = SCALW[kind] if fn == "mulScalar" else 1
    vs = [Rat.var("s%d" % i) for i in range(sw)]
    A0 = H.buf(st, size, "a", [sf.h(x) for x in va], writable="ra" in alias or "rab" == alias)
    B0 = A0 if "ab" in alias else H.buf(st, size, "b", [sf.h(x) for x in vb], writable="rb" in alias)
    R0 = A0 if alias in ("ra", "rab") else B0 if alias == "rb" else H.buf(st, size, "r")
    S0 = H.buf(st, 8 * sw, "s", [sf.h(x) for x in vs], writable=False)
    N0 = H.buf(st, 8, "nr", [sf.h(nr)], writable=False)
    m = {"r": R0, "a": A0, "b": B0, "s": S0}
    args = [m[c] for c in shape if c != "p"] + [N0]
    H.setup(ex, st, sym, args)
    nat = native()
    rnd = random.Random(7)
    q = Q if prime_field else None
    C = Rat.const
    A = Alg(kind, C)
    mk = MkZ3("int")
    zc = lambda r_: r_.n.z3(mk)
    AZ = Alg(kind, lambda c: z3.IntVal(c))
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        f = e.user["facts"]
        if e.end != "ret":
            r.violation("%s ends with %s %s" % (sym, e.end, e.info), key=sym + ":" + str(e.end), replay={"function": sym})
            continue

        def replay(env):
            """native run with the values env; returns the result words"""
            bufs = {}
            for k, vals, w in (("a", va, size), ("b", vb, size), ("s", vs, 8 * sw)):
                bufs[k] = Buf(b"".join(x.eval(env, NP).to_bytes(8, "little") for x in vals))
            if "ab" in alias:
                bufs["b"] = bufs["a"]
            bufs["r"] = bufs["a"] if alias in ("ra", "rab") else bufs["b"] if alias == "rb" else Buf(b"\x55" * size)
            nb = Buf(nr.eval(env, NP).to_bytes(8, "little"))
            rax, out, bad, _ = nat.call(sym, [bufs[c] for c in shape if c != "p"] + [nb])
            return rax, out.get(bufs["r"]), bad
        allv = list(va) + list(vb) + list(vs) + [nr]
        if shape[0] == "p":
            rax = e.regs[RAX_]
            rax = rax if isinstance(rax, int) else -1
            tgt = sub(va, vb) if fn == "eq" else sub(va, A.one()) if fn == "isOne" else va
            r.obligations += 1
            red = [f.red(x.n) for x in tgt]
            allzero = all(x.is_zero() for x in red)
            # some component known to be non-zero
            some = any(not x.is_zero() and f.strip(x).is_const() for x in red)
            t = time.time()
            s = z3.Solver()
            s.set("timeout", 20000)
            for z in f.nz:
                s.add(z.z3(mk) != 0)
            for v, x in f.sub.items():
                s.add(mk.var(v) == x.z3(mk))
            for z in f.zero:
                s.add(z.z3(mk) == 0)
            alleq = z3.And(*[x.n.z3(mk) == 0 for x in tgt])
            s.add(alleq if rax == 0 else z3.Not(alleq))
            res = s.check()
            STATS.add("truth", time.time() - t, str(res))
            if res != z3.unsat or rax not in (0, 1):
                env = random_env([x.n for x in allv], f, rnd)
                det = "%s returns %s although its operands are %s" % (sym, rax, "equal" if rax == 0 else "different")
                if env:
                    if rax == 0:       # make the operands meet the claim
                        for v in list(env):
                            pass
                    got = replay(env)
                r.violation(det, key=sym, replay={"function": sym, "path": e.trace, "returned": rax})
            continue
        outv = [sf.load(e, R0 + 8 * i) for i in range(n)]
        bad = None
        if fn in ("inv", "div"):
            src = va if fn == "inv" else vb
            prod = A.mul(outv, src, nr)
            want = A.one() if fn == "inv" else va
            outz = None
            checks = []
            for i, (p_, w) in enumerate(zip(prod, want)):
                # p_ == w  <=>  p_.n == w * den
                dn = p_.den()
                checks.append((i, p_.n, w.n * dn, w.n.z3(mk) * _prodz(p_, mk)))
        else:
            ar = [x for x in va]
            az, bz, sz = [zc(x) for x in va], [zc(x) for x in vb], [zc(x) for x in vs]
            want = spec(kind, fn, A, va, vb, vs, nr)
            wantz = spec(kind, fn, AZ, az, bz, sz, zc(nr))
            checks = []
            for i, (o, w, wz) in enumerate(zip(outv, want, wantz)):
                if o.d:
                    checks.append((i, o.n, w.n * o.den(), wz * _prodz(o, mk)))
                else:
                    checks.append((i, o.n, w.n, wz))
        for i, code, sp, spz in checks:
            r.obligations += 1
            x = identity("%s[%d]" % (sym, i), code, sp, spz, f, mk, q)
            if x is not True:
                bad = (i, x)
                break
        env = random_env([x.n for x in allv] + [x.n for x in outv], f, rnd)
        if bad:
            i, x = bad
            rep = {"function": sym, "sharing": alias or "none", "component": i, "difference": repr(x)}
            if env and not prime_field and kind not in ("a6", "a12"):
                try:
                    rax, out, cb = replay(env)
                    got = [int.from_bytes(out[8 * k:8 * k + 8], "little") % NP for k in range(n)]
                    if fn in ("inv", "div"):
                        g = A.mul([C(v) for v in got], [C(v.eval(env, NP)) for v in src], C(nr.eval(env, NP)))
                        g = [v.eval({}, NP) for v in g]
                        w = [v.eval(env, NP) for v in want]
                    else:
                        g = got
                        w = [v.eval(env, NP) for v in want]
                    rep.update({"prime": NP, "operands": {NAMES[v]: x_ for v, x_ in env.items()}, "native": [str(v) for v in g],
                                "expected": [str(v) for v in w]})
                    if g == w:
                        r.inconclusive("%s: the encoder finds a wrong component %d, the native run does not" % (sym, i))
                        continue
                except Crash as ce:
                    rep["native"] = str(ce)
            r.violation("%s (non-residue %s, sharing %s): component %d differs from the specification by %r" % (
                sym, nrk, alias or "none", i, x), key="%s:%s:%s" % (sym, nrk, alias or "none"), replay=rep)
            if free is not None:
                break
        elif env and not prime_field and kind not in ("a6", "a12"):
            # encoder against the natively executed build
            rax, out, cb = replay(env)
            got = [int.from_bytes(out[8 * k:8 * k + 8], "little") % NP for k in range(n)]
            mine = [o.eval(env, NP) for o in outv]
            if got != mine or cb:
                r.inconclusive("%s: encoder and native run disagree" % sym)
            else:
                r.validated += 1
        if r.sample is None:
            r.sample = {"function": sym, "sharing": alias, "component": 0, "value": repr(outv[0])[:200]}
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r


def _prodz(p_, mk):
    z = z3.IntVal(1)
    for f_, e_ in p_.d:
        for _ in range(e_):
            z = z * f_.z3(mk)
    return z


from .x86 import RAX as RAX_


# ---- exponentiation: powers of one generator, the exponent a bit vector -------------------------------
from .terms import *           # noqa: E402
from .cxx import _ret, cint, rt_hooks    # noqa: E402
from .x86 import RDI as RDI_, RSI as RSI_, RDX as RDX_   # noqa: E402

ZEROW = 1 << 63


def mono_hooks():
    """base-ring elements are 0 or g^k: the word is 2^63 for 0 and k otherwise"""
    def ld(ex, st, r):
        return st.mem.load(cint(ex, st, r), 8)

    def mul(ex, st):
        r = cint(ex, st, RDI_)
        a, b = ld(ex, st, RSI_), ld(ex, st, RDX_)
        if a == ZEROW or b == ZEROW:
            v = ZEROW
        elif isinstance(a, int) and isinstance(b, int):
            v = (a + b) & ((1 << 62) - 1)
        else:
            v = z3.simplify((bv(a, 64) + bv(b, 64)) & ((1 << 62) - 1))     # exponents modulo 2^62
        st.mem.store(r, v, 8)
        _ret(ex, st)

    def add(ex, st):
        r = cint(ex, st, RDI_)
        a, b = ld(ex, st, RSI_), ld(ex, st, RDX_)
        a_, b_ = isinstance(a, int) and a == ZEROW, isinstance(b, int) and b == ZEROW
        if a_:
            v = b
        elif b_:
            v = a
        else:
            raise Unsupported("sum of two non-zero powers")
        st.mem.store(r, v, 8)
        _ret(ex, st)

    def sub(ex, st):
        r = cint(ex, st, RDI_)
        a, b = ld(ex, st, RSI_), ld(ex, st, RDX_)
        if not (isinstance(b, int) and b == ZEROW):
            raise Unsupported("difference of powers")
        st.mem.store(r, a, 8)
        _ret(ex, st)

    def const(ex, st):
        r = cint(ex, st, RDI_)
        v = cint(ex, st, RSI_)
        st.mem.store(r, ZEROW if v == 0 else 0 if v == 1 else 77 << 40, 8)
        _ret(ex, st)

    def copy(ex, st):
        st.mem.store(cint(ex, st, RDI_), ld(ex, st, RSI_), 8)
        _ret(ex, st)

    def zero1(ex, st):
        a = ld(ex, st, RSI_)
        if not (isinstance(a, int) and a == ZEROW):
            raise Unsupported("tau times a power")
        st.mem.store(cint(ex, st, RDI_), a, 8)
        _ret(ex, st)

    def string(ex, st):
        st.mem.store(cint(ex, st, RDI_), 88 << 40, 8)
        _ret(ex, st)
    h = rt_hooks()
    h.update({"sf_mul": mul, "sf_add": add, "sf_sub": sub, "sf_const": const, "sf_copy": copy, "sf_special": zero1,
              "sf_neg": zero1, "sf_string": string})
    return h


def run_exp(r, nbytes, alias):
    H = harness()
    sym = "a12_exp"
    ex = CExec(H.p, mono_hooks(), merge=True)
    st = H.state()
    A0 = H.buf(st, 16, "a", [ZEROW, 1], writable=alias == "ra")
    R0 = A0 if alias == "ra" else H.buf(st, 16, "r")
    sc = [z3.BitVec("s%d" % i, 8) for i in range(nbytes)]
    S0 = H.bytes_buf(st, sc, "scalar")
    N0 = H.buf(st, 8, "nr", [0])
    H.setup(ex, st, sym, [R0, A0, S0, nbytes, N0])
    W = 64
    k = z3.Concat(*reversed(sc[:8])) if nbytes > 1 else sc[0]
    k = (z3.ZeroExt(W - 8 * nbytes, k) if nbytes < 8 else k) & ((1 << 62) - 1)
    nat = native()
    rnd = random.Random(3)

    def run(sv):
        """natively, on a generator of a subgroup of the base field"""
        g = 3
        a = Buf((0).to_bytes(8, "little") + g.to_bytes(8, "little"))
        rb = a if alias == "ra" else Buf(b"\x55" * 16)
        s = Buf(bytes(sv))
        _, out, bad, _ = nat.call(sym, [rb, a, s, nbytes, Buf(b"\1" + bytes(7))])
        return [int.from_bytes(out[rb][i:i + 8], "little") % NP for i in (0, 8)], [0, pow(3, int.from_bytes(bytes(sv), "little"), NP)]
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        r.obligations += 1
        if e.end != "ret":
            r.violation("%s ends with %s %s" % (sym, e.end, e.info), key=sym + ":" + str(e.end), replay={"function": sym})
            continue
        x, y = e.mem.load(R0, 8), e.mem.load(R0 + 8, 8)
        res, m = check_sat(e.path + [z3.Or(bv(x, 64) != ZEROW, bv(y, 64) != k)], 120000, "power", True)
        if res == "unknown":
            r.inconclusive("solver gave up")
        elif res == "sat":
            sv = [m.eval(c, model_completion=True).as_long() for c in sc]
            got, want = run(sv)
            if got == want:
                r.inconclusive("%s: the encoder finds a wrong power for %s, the native run does not" % (sym, sv))
            else:
                r.violation("%s: base to the power %s (sharing %s) is %s, expected %s" % (sym, bytes(sv).hex(), alias or "none", got, want),
                            key="%s:%s" % (sym, alias or "none"), replay={"function": sym, "scalar": bytes(sv).hex(), "base": [0, 3],
                                                                           "native": got, "expected": want, "prime": NP})
    for sv in [[0] * nbytes, [255] * nbytes, [rnd.randrange(256) for _ in range(nbytes)]]:
        got, want = run(sv)
        if got == want:
            r.validated += 1
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r
