"""Meaning of the opaque field operations (harness/sf.hpp) over fractions of polynomials, and the obligations on them."""
import os
import random
import time
import z3
from .core import *
from .terms import *
from .ring import Poly, Rat, ZERO, ONE, NAMES, IDX, MkZ3, var_index
from .x86 import RAX, RCX, RDX, RSI, RDI, RSP
from .cxx import _ret, cint, rt_hooks
from .native import Native, Buf, Crash
from .build import HERE, sh, scratch

BASE = 0x5F00000000000000
NP = (1 << 61) - 1              # the prime of the native replay


class Facts:
    """what a path knows: variables that are zero, polynomials that are not, polynomials that are"""

    def __init__(self, nonzero=(), zero=(), bad=()):
        self.nz = list(nonzero)
        self.sub = {}
        self.zero = list(zero)
        self.bad = list(bad)        # sets of variables that cannot all be zero

    def copy(self):
        f = Facts(self.nz, self.zero, self.bad)
        f.sub = dict(self.sub)
        return f

    def __eq__(self, o):
        return isinstance(o, Facts) and self.nz == o.nz and self.sub == o.sub and self.zero == o.zero

    def red(self, p):
        for v, x in self.sub.items():
            p = p.subst(v, x)
        return p

    def strip(self, p):
        """p without the factors known to be non-zero"""
        ch = True
        fs = [self.red(f) for f in self.nz]
        while ch and not p.is_const():
            ch = False
            for f in fs:
                if f.is_const():
                    continue
                while True:
                    q = p.divide(f)
                    if q is None:
                        break
                    p = q
                    ch = True
                    if p.is_const():
                        return p
        return p


class SField:
    """handles <-> fractions"""

    def __init__(self, q=None, special=None, strings=True):
        self.tab = []
        self.idx = {}
        self.q = q                      # coefficients modulo q (a concrete prime field)
        self.special = special or {}
        self.ops = 0
        self.npoison = 0
        self.mpz = {}

    def h(self, r):
        if self.q and not r.d:
            r = Rat(r.n.mod(self.q))
        i = self.idx.get(r)
        if i is None:
            i = self.idx[r] = len(self.tab)
            self.tab.append(r)
        return BASE + i

    def const(self, c):
        return self.h(Rat.const(c))

    def var(self, name):
        return self.h(Rat.var(name))

    def val(self, w):
        if isinstance(w, int) and BASE <= w < BASE + len(self.tab):
            return self.tab[w - BASE]
        # storage nobody initialised: any value at all
        k = ("poison", w if isinstance(w, int) else w.get_id())
        if not isinstance(w, int):
            self.keep = getattr(self, "keep", [])
            self.keep.append(w)
        if k not in self.mpz:
            self.npoison += 1
            self.mpz[k] = Rat.var("uninitialised%d" % self.npoison)
        return self.mpz[k]

    def load(self, st, a):
        return self.val(st.mem.load(a, 8))

    def store(self, st, a, r):
        st.mem.store(a, self.h(r), 8)

    def hooks(self):
        def ptr(ex, st, r):
            return cint(ex, st, r, "element pointer")

        def op2(f):
            def h(ex, st):
                r, a, b = ptr(ex, st, RDI), ptr(ex, st, RSI), ptr(ex, st, RDX)
                self.ops += 1
                self.store(st, r, f(self.load(st, a), self.load(st, b)))
                _ret(ex, st)
            return h

        def op1(f):
            def h(ex, st):
                r, a = ptr(ex, st, RDI), ptr(ex, st, RSI)
                self.ops += 1
                self.store(st, r, f(self.load(st, a)))
                _ret(ex, st)
            return h

        def const(ex, st):
            r = ptr(ex, st, RDI)
            v = cint(ex, st, RSI, "constant")
            v = v - (1 << 64) if v >> 63 else v
            self.store(st, r, Rat.const(v))
            _ret(ex, st)

        def copy(ex, st):
            r, a = ptr(ex, st, RDI), ptr(ex, st, RSI)
            st.mem.store(r, st.mem.load(a, 8), 8)
            _ret(ex, st)

        def inv(ex, st):
            r, a = ptr(ex, st, RDI), ptr(ex, st, RSI)
            x = self.load(st, a)
            f = st.user["facts"]
            n = f.red(x.n)
            if n.is_zero():
                self.store(st, r, Rat.const(0))     # as the generated field does
            else:
                if self.q and n.is_const():
                    self.store(st, r, Rat.const(pow(n.const_val(), -1, self.q)) * Rat(x.den()))
                else:
                    self.store(st, r, Rat(n, x.d).inv())
            _ret(ex, st)

        def test(eq):
            def h(ex, st):
                key = "__sfz"
                if key in st.user:
                    return _ret(ex, st, st.user.pop(key))
                x = self.load(st, ptr(ex, st, RDI))
                if eq:
                    x = x - self.load(st, ptr(ex, st, RSI))
                f = st.user["facts"]
                d = f.red(x.n)
                if self.q:
                    d = d.mod(self.q)
                if d.is_zero():
                    return _ret(ex, st, 1)
                d = f.strip(d)
                if d.is_const():
                    return _ret(ex, st, 0)
                # both answers are possible: the zero side first
                o = st.copy()
                o.user[key] = 0
                o.user["facts"].nz.append(d)
                o.trace.append(("nonzero", repr(d)[:60]))
                ex.work.append(o)
                if not self.assume_zero(st, d):
                    raise PathEnd("infeasible")
                st.trace.append(("zero", repr(d)[:60]))
                return _ret(ex, st, 1)
            return h

        def string(ex, st):
            r, p = ptr(ex, st, RDI), ptr(ex, st, RSI)
            n, radix = cint(ex, st, RDX), cint(ex, st, RCX) & 0xffffffff
            b = [st.mem.load(p + i, 1) for i in range(n)]
            if not all(isinstance(x, int) for x in b):
                raise Unsupported("symbolic number text")
            t = bytes(b).decode()
            try:
                v = int(t.strip() if t.strip() == t else "x", radix)
                x = Rat.const(v)
            except ValueError:
                x = Rat.var("text:" + t)
            self.store(st, r, x)
            _ret(ex, st)

        def special(ex, st):
            r, a = ptr(ex, st, RDI), ptr(ex, st, RSI)
            k = cint(ex, st, RDX)
            self.store(st, r, self.special[k](self.load(st, a)))
            _ret(ex, st)

        h = rt_hooks()
        h.update({"sf_add": op2(lambda a, b: a + b), "sf_sub": op2(lambda a, b: a - b), "sf_mul": op2(lambda a, b: a * b),
                  "sf_neg": op1(lambda a: -a), "sf_copy": copy, "sf_const": const, "sf_inv": inv,
                  "sf_iszero": test(False), "sf_eq": test(True), "sf_string": string, "sf_special": special})
        return h

    @staticmethod
    def assume_zero(st, d):
        f = st.user["facts"]
        if len(d.t) == 1:
            (m, c), = d.t.items()
            if len(m) == 1:
                v = m[0][0]
                f.sub = {k: x.subst(v, ZERO) for k, x in f.sub.items()}
                f.sub[v] = ZERO
                # a value known to be non-zero cannot vanish with it
                if any(f.red(p).is_zero() for p in f.nz):
                    return False
                if any(all(f.red(Poly({((u, 1),): 1})).is_zero() for u in s) for s in f.bad):
                    return False
                return True
        # c*v + rest with constant c = +-1: eliminate v
        for m, c in d.t.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                v = m[0][0]
                rest = Poly({k: x for k, x in d.t.items() if k != m})
                if v in rest.vars():
                    continue
                val = -rest if c == 1 else rest
                f.sub = {k: x.subst(v, val) for k, x in f.sub.items()}
                f.sub[v] = val
                if any(f.red(p).is_zero() for p in f.nz):
                    return False
                return True
        f.zero.append(d)
        return True


def prove_zero(items, facts, timeout_ms=60000, q=None):
    """items: [(label, Poly)] all claimed to vanish under the facts.  Returns None or (label, poly)."""
    mk = MkZ3("int")
    for lab, d in items:
        d = facts.red(d)
        if q:
            d = d.mod(q)
        t = time.time()
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        for z in facts.zero:
            s.add(facts.red(z).z3(mk) == 0)
        s.add(d.z3(mk) != 0)
        for z in facts.nz:
            s.add(facts.red(z).z3(mk) != 0)
        if d.is_zero() or not facts.zero:
            r = s.check() if len(d.t) < 2000 else (z3.unsat if d.is_zero() else z3.sat)
        else:
            # multiples of a hypothesis
            x = d
            for z in facts.zero:
                zr = facts.red(z)
                if not zr.is_const() and x.divide(zr) is not None:
                    x = ZERO
            r = z3.unsat if x.is_zero() else s.check()
        STATS.add("identity", time.time() - t, str(r))
        if r == z3.unsat:
            continue
        if d.is_zero():
            continue
        return lab, d
    return None


def spec_check(mk_pairs, facts, timeout_ms=120000):
    """mk_pairs: [(label, Poly of the code, z3 term of the specification)] decided by the solver as polynomials
    over the integers (an identity there holds in every commutative ring)."""


def random_env(polys, facts, rnd, p=NP, tries=200):
    """values mod p for all variables, consistent with the facts; used for counterexamples and replays"""
    vs = set()
    for q in list(polys) + facts.nz + list(facts.sub.values()) + facts.zero:
        vs |= q.vars()
    vs |= set(facts.sub)
    for _ in range(tries):
        env = {v: rnd.randrange(p) for v in vs}
        ok = True
        for v, x in facts.sub.items():
            env[v] = x.eval(env, p)
        for v, x in facts.sub.items():
            env[v] = x.eval(env, p)
        for z in facts.zero:
            if z.eval(env, p) != 0 and not solve_for(z, env, p):
                ok = False
        if not ok:
            continue
        if any(z.eval(env, p) == 0 for z in facts.nz) or any(z.eval(env, p) for z in facts.zero):
            continue
        return env
    return None


def solve_for(z, env, p):
    """change one variable that occurs linearly so that z vanishes"""
    for v in z.vars():
        if all(e == 1 for m in z.t for u, e in m if u == v):
            a = Poly({tuple(x for x in m if x[0] != v): c for m, c in z.t.items() if any(u == v for u, _ in m)}).eval(env, p)
            b = Poly({m: c for m, c in z.t.items() if not any(u == v for u, _ in m)}).eval(env, p)
            if a:
                env[v] = -b * pow(a, -1, p) % p
                return True
    return False


def native_sf():
    """object file with the opaque operations over the 61-bit Mersenne prime"""
    from .build import locked
    o = os.path.join(scratch(), "sfnative.o")
    with locked("sfnative"):
        if not os.path.exists(o):
            sh(["g++", "-std=c++17", "-O1", "-w", "-fno-pic", "-c", os.path.join(HERE, "harness/sfnative.cpp"), "-o", o])
    return o
