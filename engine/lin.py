"""Integer-domain terms: linear forms over named integer variables, and conditions on them."""
import z3


class Lin:
    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = c if c is not None else {}
        self.k = k

    @staticmethod
    def var(v):
        return Lin({v: 1}, 0)

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, int):
            return Lin({}, x)
        return x.e          # IV

    def __add__(self, o):
        o = Lin.of(o)
        c = dict(self.c)
        for v, x in o.c.items():
            y = c.get(v, 0) + x
            if y:
                c[v] = y
            else:
                c.pop(v, None)
        return Lin(c, self.k + o.k)

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (Lin.of(o) * -1)

    def __rsub__(self, o):
        return Lin.of(o) - self

    def __mul__(self, n):
        if n == 0:
            return Lin()
        return Lin({v: x * n for v, x in self.c.items()}, self.k * n)

    __rmul__ = __mul__

    def same(self, o):
        return self.k == o.k and self.c == o.c

    def __repr__(self):
        return " + ".join(["%d*%s" % (x, v) for v, x in self.c.items()] + [str(self.k)])

    def z3(self, mk):
        s = [mk(v) * x if x != 1 else mk(v) for v, x in self.c.items()]
        if self.k or not s:
            s.append(z3.RealVal(self.k) if mk is real else z3.IntVal(self.k))
        return z3.Sum(*s) if len(s) > 1 else s[0]

    def eval(self, m):
        return self.k + sum(x * m[v] for v, x in self.c.items())


def real(v):
    return z3.Real(v)


def integer(v):
    return z3.Int(v)


class LC:
    """condition lin OP 0, OP in '<=', '==', '!='"""
    __slots__ = ("op", "l")

    def __init__(self, op, l):
        self.op = op
        self.l = l

    def neg(self):
        if self.op == "==":
            return LC("!=", self.l)
        if self.op == "!=":
            return LC("==", self.l)
        return LC("<=", (self.l * -1) + 1)      # not(l<=0) <=> l>=1

    def z3(self, mk):
        e = self.l.z3(mk)
        return e <= 0 if self.op == "<=" else e == 0 if self.op == "==" else e != 0

    def const(self):
        if self.l.c:
            return None
        k = self.l.k
        return k <= 0 if self.op == "<=" else k == 0 if self.op == "==" else k != 0

    def __repr__(self):
        return "%r %s 0" % (self.l, self.op)


def lt(a, b):
    return LC("<=", Lin.of(a) - Lin.of(b) + 1)


def le(a, b):
    return LC("<=", Lin.of(a) - Lin.of(b))


def eq(a, b):
    return LC("==", Lin.of(a) - Lin.of(b))
