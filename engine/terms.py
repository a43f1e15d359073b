"""Value layer shared by the instruction-set front ends.

A value is a Python int (concrete, unsigned), a z3 BitVecRef (symbolic machine word) or an IV
(integer-domain value: a z3 Int expression known to lie in [0, 2**64)).  The integer domain keeps
the mod-2^64 semantics exactly, by naming every carry, borrow and high word.
"""
import z3
from .lin import Lin, LC, lt as l_lt, le as l_le, eq as l_eq

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """The encoder does not know this instruction / operation: no verdict."""


class IV:
    """e: Lin"""
    __slots__ = ("e", "key", "m")

    def __init__(self, e, key=None, m=M64):
        self.m = m                  # upper bound
        self.e = Lin.var(e) if isinstance(e, str) else e
        self.key = key if key is not None else repr(sorted(self.e.c.items())) + str(self.e.k)

    def __repr__(self):
        return "IV(%r)" % self.e


class Part:
    """a register whose low w bits were replaced while the rest still holds an integer-domain value"""
    __slots__ = ("v", "w")

    def __init__(self, v, w):
        self.v = v
        self.w = w


def is_sym(x):
    return not isinstance(x, int)


def mask(w):
    return (1 << w) - 1


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, IV):
        raise Unsupported("integer-domain value used as bit-vector")
    return x


_K_CONCAT = z3.Z3_OP_CONCAT
_K_EXTRACT = z3.Z3_OP_EXTRACT
_K_ZEXT = z3.Z3_OP_ZERO_EXT
_K_NUM = z3.Z3_OP_BNUM


def simp_num(x):
    """z3 numeral -> int"""
    if not isinstance(x, (int, IV)) and z3.is_bv_value(x):
        return x.as_long()
    return x


def extract(x, hi, lo, w):
    """bits hi..lo of x (width w)"""
    if isinstance(x, int):
        return (x >> lo) & mask(hi - lo + 1)
    if hi == w - 1 and lo == 0:
        return x
    if isinstance(x, IV):
        if lo == 0 and x.m >> (hi + 1) == 0:
            return x
        raise Unsupported("bit extraction from an integer-domain value")
    k = x.decl().kind()
    if k == _K_CONCAT:
        pos = w
        for ch in x.children():
            cw = ch.size()
            pos -= cw
            if lo >= pos and hi < pos + cw:
                return extract(simp_num(ch), hi - pos, lo - pos, cw)
            if pos + cw <= lo:
                break
    elif k == _K_ZEXT:
        ch = x.arg(0)
        cw = ch.size()
        if hi < cw:
            return extract(ch, hi, lo, cw)
        if lo >= cw:
            return 0
    elif k == _K_EXTRACT:
        p = x.params()
        ch = x.arg(0)
        return extract(ch, hi + p[1], lo + p[1], ch.size())
    elif k == _K_NUM:
        return (x.as_long() >> lo) & mask(hi - lo + 1)
    return z3.Extract(hi, lo, x)


TRUNC = {}      # z3 id of a (k+1)-bit limb-chain result -> (it, the longer chain whose low k bits agree)


def _extends(u, t):
    """is t a longer version of the limb chain u (same low bits)?"""
    for _ in range(80):
        if u.eq(t):
            return True
        n = TRUNC.get(u.get_id())
        if n is None or not n[0].eq(u):
            return False
        u = n[1]
    return False


def concat(parts):
    """parts: list of (value, width), most significant first"""
    out = []
    for v, w in parts:
        if w == 0:
            continue
        if isinstance(v, int) and out and isinstance(out[-1][0], int):
            pv, pw = out[-1]
            out[-1] = ((pv << w) | v, pw + w)
        else:
            # merge adjacent extracts of one term
            if out and not isinstance(v, int) and not isinstance(out[-1][0], int):
                pv, pw = out[-1]
                if pv.decl().kind() == _K_EXTRACT and v.decl().kind() == _K_EXTRACT:
                    pp, vp = pv.params(), v.params()
                    if pp[1] == vp[0] + 1 and (pv.arg(0).eq(v.arg(0)) or
                                               vp[0] < v.arg(0).size() - 1 and _extends(v.arg(0), pv.arg(0))):
                        src = pv.arg(0)
                        out[-1] = (extract(src, pp[0], vp[1], src.size()), pw + w)
                        continue
            out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    if isinstance(out[0][0], int) and out[0][0] == 0:
        rest = concat(out[1:])
        return z3.ZeroExt(out[0][1], rest)
    return z3.Concat(*[bv(v, w) for v, w in out])


def zext(x, w, W):
    if isinstance(x, int) or w == W:
        return x
    if isinstance(x, IV):
        return x
    if x.decl().kind() == _K_ZEXT:
        ch = x.arg(0)
        return z3.ZeroExt(W - ch.size(), ch)
    return z3.ZeroExt(W - w, x)


def sext(x, w, W):
    if isinstance(x, int):
        x &= mask(w)
        if x >> (w - 1):
            x |= mask(W) ^ mask(w)
        return x
    if w == W:
        return x
    if isinstance(x, IV):
        raise Unsupported("sign extension of integer-domain value")
    return z3.SignExt(W - w, x)


def to_signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def b_not(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, LC):
        return c.neg()
    return z3.Not(c)


def _mix(a, b):
    if isinstance(a, LC) or isinstance(b, LC):
        raise Unsupported("compound integer-domain condition")


def b_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    _mix(a, b)
    return z3.And(a, b)


def b_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    if isinstance(a, LC) and isinstance(b, LC) and a.op == "<=" and b.op == "==" and a.l.same(b.l + 1):
        return LC("<=", b.l)            # x<y or x==y
    _mix(a, b)
    return z3.Or(a, b)


def b_xor(a, b):
    if isinstance(a, bool):
        return b_not(b) if a else b
    if isinstance(b, bool):
        return b_not(a) if b else a
    _mix(a, b)
    return z3.Xor(a, b)


def simp_bool(c):
    if isinstance(c, bool):
        return c
    if isinstance(c, LC):
        k = c.const()
        return c if k is None else k
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def bool_to(c, w):
    if isinstance(c, bool):
        return int(c)
    return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def v_eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, IV) or isinstance(b, IV):
        return l_eq(ie(a), ie(b))
    return bv(a, w) == bv(b, w)


def ie(x):
    if isinstance(x, (IV, int)):
        return Lin.of(x)
    raise Unsupported("bit-vector value used in integer domain")


def ite(c, a, b, w):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if isinstance(a, IV) or isinstance(b, IV):
        raise Unsupported("ite over integer-domain values")
    return z3.If(c, bv(a, w), bv(b, w))
