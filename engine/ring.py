"""Polynomials and fractions with integer coefficients: the values of the opaque field in the C++ harnesses."""
import z3
from .terms import Unsupported

NAMES = []
IDX = {}


def var_index(name):
    i = IDX.get(name)
    if i is None:
        i = IDX[name] = len(NAMES)
        NAMES.append(name)
    return i


LIMIT = [4000000]


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def var(name):
        return Poly({((var_index(name), 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_val(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        if len(self.t) * len(o.t) > LIMIT[0]:
            raise Unsupported("polynomial too large (%d x %d terms)" % (len(self.t), len(o.t)))
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def mod(self, q):
        r = {}
        for m, c in self.t.items():
            c %= q
            if c:
                r[m] = c
        return Poly(r)

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def subst(self, v, val):
        """replace variable index v by a Poly"""
        r = Poly({})
        keep = {}
        for m, c in self.t.items():
            e = dict(m).get(v, 0)
            if not e:
                keep[m] = c
            elif not val.is_zero():
                r = r + Poly({tuple(x for x in m if x[0] != v): c}) * val ** e
        return r + Poly(keep)

    def divide(self, d):
        """exact quotient or None"""
        if d.is_zero():
            return None
        lead = max(d.t, key=_lex)
        lc = d.t[lead]
        q = {}
        r = Poly(dict(self.t))
        n = 0
        while r.t:
            m = max(r.t, key=_lex)
            k = mono_div(m, lead)
            c = r.t[m]
            if k is None or c % lc:
                return None
            q[k] = q.get(k, 0) + c // lc
            r = r - Poly({k: c // lc}) * d
            n += 1
            if n > 20000:
                return None
        return Poly(q)

    def eval(self, env, p=None):
        s = 0
        for m, c in self.t.items():
            x = c
            for v, e in m:
                x = x * (pow(env[v], e, p) if p else env[v] ** e)
                if p:
                    x %= p
            s += x
        return s % p if p else s

    def z3(self, mk):
        if not self.t:
            return mk.const(0)
        out = []
        for m, c in sorted(self.t.items()):
            f = [mk.var(v) for v, e in m for _ in range(e)]
            if c != 1 or not f:
                f.insert(0, mk.const(c))
            out.append(f[0] if len(f) == 1 else z3.Product(*f) if False else _prod(f))
        return out[0] if len(out) == 1 else z3.Sum(*out)

    def __repr__(self):
        if not self.t:
            return "0"
        s = []
        for m, c in sorted(self.t.items())[:12]:
            s.append("*".join([str(c)] * (c != 1 or not m) + [NAMES[v] + ("^%d" % e if e > 1 else "") for v, e in m]))
        return " + ".join(s) + (" + ..." if len(self.t) > 12 else "")


def _lex(m):
    return tuple((-v, e) for v, e in m)


def _prod(f):
    r = f[0]
    for x in f[1:]:
        r = r * x
    return r


_mm = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            r.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            r.append(a[i])
            i += 1
        else:
            r.append(b[j])
            j += 1
    return tuple(r) + a[i:] + b[j:]


def mono_div(a, b):
    da = dict(a)
    for v, e in b:
        x = da.get(v, 0) - e
        if x < 0:
            return None
        if x:
            da[v] = x
        else:
            da.pop(v, None)
    return tuple(sorted(da.items()))


ZERO = Poly({})
ONE = Poly.const(1)


class MkZ3:
    def __init__(self, sort="int"):
        self.c = {}
        self.sort = sort

    def const(self, c):
        return z3.IntVal(c) if self.sort == "int" else z3.RealVal(c)

    def var(self, v):
        x = self.c.get(v)
        if x is None:
            n = "%s_%d" % (NAMES[v], v)
            x = self.c[v] = z3.Int(n) if self.sort == "int" else z3.Real(n)
        return x


class Rat:
    """num / product of factors (each non-zero where the value is defined)"""
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=()):
        self.n = n
        self.d = d            # sorted tuple of (Poly, exp), by hash
        self._h = None

    @staticmethod
    def const(c):
        return Rat(Poly.const(c))

    @staticmethod
    def var(name):
        return Rat(Poly.var(name))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.d))
        return self._h

    def __eq__(self, o):
        return self.n == o.n and self.d == o.d

    @staticmethod
    def _lcm(a, b):
        if a == b:
            return a, ONE, ONE
        da, db = dict(a), dict(b)
        fa, fb = ONE, ONE
        out = dict(da)
        for f, e in db.items():
            x = da.get(f, 0)
            if e > x:
                out[f] = e
                fa = fa * f ** (e - x)
        for f, e in da.items():
            x = db.get(f, 0)
            if e > x:
                fb = fb * f ** (e - x)
        return tuple(sorted(out.items(), key=lambda z: hash(z[0]))), fa, fb

    def __add__(self, o):
        d, fa, fb = self._lcm(self.d, o.d)
        return Rat(self.n * fa + o.n * fb, d)

    def __sub__(self, o):
        return self + (-o)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __mul__(self, o):
        d = dict(self.d)
        for f, e in o.d:
            d[f] = d.get(f, 0) + e
        return Rat(self.n * o.n, tuple(sorted(d.items(), key=lambda z: hash(z[0]))))

    def den(self):
        r = ONE
        for f, e in self.d:
            r = r * f ** e
        return r

    def inv(self):
        n = self.den()
        if self.n.is_const() and self.n.const_val() in (1, -1):
            return Rat(n if self.n.const_val() == 1 else -n)
        return Rat(n, ((self.n, 1),))

    def eval(self, env, p):
        return self.n.eval(env, p) * pow(self.den().eval(env, p), -1, p) % p

    def subst(self, v, val):
        return Rat(self.n.subst(v, val), tuple((f.subst(v, val), e) for f, e in self.d))

    def __repr__(self):
        return "(%r)" % self.n + ("/" + "*".join("(%r)^%d" % x for x in self.d) if self.d else "")
