"""Obligations for the curve template (C20, C21): every coordinate mix, on points with free coordinates."""
import os
import random
import subprocess
import time
import z3
from .core import *
from .ring import Poly, Rat, ZERO, ONE, NAMES, IDX, MkZ3
from .sfield import SField, Facts, random_env, native_sf, NP
from .cxx import Harness, CExec, compile_cxx
from .native import Native, Buf, Crash
from .x86 import RAX
from .build import REPO

SRC = ["curve.cpp", os.path.join(REPO, "c/naf.cpp"), os.path.join(REPO, "c/misc.cpp"), "strings.cpp"]


def harness():
    return Harness("curve", SRC)


def native(prefixes=None):
    elf, objs = compile_cxx("curve", SRC)
    fns = [p[2] for p in (l.split() for l in subprocess.run(["nm", objs[0]], capture_output=True, text=True).stdout.splitlines())
           if len(p) == 3 and p[1] == "T"]
    return Native(list(objs) + [native_sf()], {f: f for f in fns}, os.path.join(os.path.dirname(elf), "native"), libs=["-lgmp", "-lpthread"]).guarded()


P2 = Poly.const(2)


def split(f, p):
    """[(is_zero, facts)] for the consistent answers to "p vanishes" """
    d = f.strip(f.red(p))
    if d.is_zero():
        return [(True, f)]
    if d.is_const():
        c = abs(d.const_val())
        while c % 2 == 0:
            c //= 2
        while c % 3 == 0:
            c //= 3
        return [(False, f)] if c == 1 else [(False, f)]
    out = []
    g = f.copy()

    class St:
        user = {"facts": g}
    if SField.assume_zero(St, d):
        out.append((True, g))
    h = f.copy()
    h.nz.append(d)
    out.append((False, h))
    return out


class Pt:
    """operand: words handed to the code, and the affine point they denote (None = infinity)"""

    def __init__(self, kind, name, same=None):
        v = Rat.var
        self.kind = kind
        self.nz = []
        self.bad = []
        x, y, z = v(name + "x"), v(name + "y"), v(name + "z")
        if kind == "p":
            self.words = [x * z * z, y * z * z * z, z * z, z * z * z]
            self.nz = [z.n]
            self.bad = [frozenset((IDX[name + "x"], IDX[name + "y"]))]
            self.xy = (x, y)
        elif kind == "pi":          # any x, y with zero denominators
            self.words = [x, y, Rat.const(0), Rat.const(0)]
            self.xy = None
        elif kind == "a":
            self.words = [x, y]
            self.bad = [frozenset((IDX[name + "x"], IDX[name + "y"]))]
            self.xy = (x, y)
        else:
            self.words = [Rat.const(0), Rat.const(0)]
            self.xy = None


def sqrtp(a):
    r = pow(a, (NP + 1) // 4, NP)
    return r if r * r % NP == a % NP else None


def neg_pt(p):
    return None if p is None else (p[0], -p[1] % NP)


def add_num(p, q, a):
    """group law modulo NP"""
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % NP == 0:
            return None
        l = (3 * p[0] * p[0] + a) * pow(2 * p[1], -1, NP)
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, NP)
    x = (l * l - p[0] - q[0]) % NP
    return x, (l * (p[0] - x) - p[1]) % NP


def affine_num(w):
    if len(w) == 2:
        return None if w == [0, 0] else tuple(w)
    if w[2] % NP == 0:
        return None if w[3] % NP == 0 else "inconsistent"
    if pow(w[2], 3, NP) != pow(w[3], 2, NP):
        return "inconsistent"
    return w[0] * pow(w[2], -1, NP) % NP, w[1] * pow(w[3], -1, NP) % NP


def decide(r, mk, lhs, rhs, facts, what):
    """lhs, rhs: solver terms over the integers; equal under the substitutions of the facts?"""
    t = time.time()
    d = lhs - rhs
    if facts.sub:
        sub = [(mk.var(v), x.z3(mk)) for v, x in facts.sub.items()]
        for _ in range(len(sub)):
            d = z3.substitute(d, *sub)
    s0 = z3.simplify(d, som=True)
    if z3.is_int_value(s0):
        res = s0.as_long() == 0
    else:
        s = z3.Solver()
        s.set("timeout", 30000)
        s.add(s0 != 0)
        for z in facts.nz:
            s.add(z.z3(mk) != 0)
        for z in facts.zero:
            s.add(z.z3(mk) == 0)
        x = s.check()
        res = True if x == z3.unsat else False
    STATS.add("identity", time.time() - t, "unsat" if res else "sat")
    r.obligations += 1
    return res


def rz(x, mk):
    """(numerator, denominator) terms"""
    d = z3.IntVal(1)
    for f_, e_ in x.d:
        for _ in range(e_):
            d = d * f_.z3(mk)
    return x.n.z3(mk), d


AK = {"0": 0, "1": 1, "-1": -1, "n": None}


def run_op(r, fn, mix, ka, kb, ak, alias):
    """fn: add sub dbl neg copy eq isZero; mix: result/operand letters; ka, kb operand kinds"""
    H = harness()
    sym = "%s_%s" % (fn, mix)
    sf = SField()
    ex = CExec(H.p, sf.hooks())
    st = H.state()
    one = ONE
    av = Rat.var("ca") if ak == "n" else Rat.const(AK[ak])
    facts = Facts(nonzero=[av.n, av.n - one, av.n + one] if ak == "n" else [])
    a = Pt(ka, "p")
    b = None if kb is None else a if "ab" in alias else Pt(kb, "q")
    for o in (a, b):
        if o is not None:
            facts.nz += o.nz
            facts.bad += o.bad
    if b is a and b is not None:
        pass
    st.user["facts"] = facts
    pred = fn in ("eq", "isZero")
    rm = None if pred else mix[0]
    RS = {"p": 32, "a": 16, None: 0}[rm]
    al = set(alias.split("+")) if alias else set()
    ra, rb = alias in ("ra", "rab"), alias in ("rb",)
    A0 = H.buf(st, 8 * len(a.words), "a", [sf.h(x) for x in a.words], writable=alias in ("ra", "rab"))
    B0 = None
    if b is not None:
        B0 = A0 if b is a else H.buf(st, 8 * len(b.words), "b", [sf.h(x) for x in b.words], writable=rb)
    R0 = None if pred else A0 if ra else B0 if rb else H.buf(st, RS, "r")
    kw = [av, Rat.var("cb"), Rat.var("gx"), Rat.var("gy")]
    K0 = H.buf(st, 32, "k", [sf.h(x) for x in kw], writable=False)
    args = ([] if pred else [R0]) + [A0] + ([B0] if b is not None else []) + [K0]
    H.setup(ex, st, sym, args)
    nat = native()
    rnd = random.Random(11)
    mk = MkZ3("int")
    key = "%s:%s:%s:%s" % (sym, ka, kb, alias or "none")

    def numbers(f):
        """values modulo NP consistent with the facts, the operands on one curve"""
        for _ in range(60):
            e = random_env([x.n for x in a.words + (b.words if b else []) + kw], f, rnd)
            if e is None:
                return None
            if a.xy and b is not None and b.xy and b is not a:
                x1, y1, x2, y2 = [t.eval(e, NP) for t in a.xy + b.xy]
                c = av.eval(e, NP)
                bb = (y1 * y1 - x1 ** 3 - c * x1) % NP
                y = sqrtp((x2 ** 3 + c * x2 + bb) % NP)
                if y is None:
                    continue
                if y2 not in (y, NP - y):
                    v = [m for m in b.xy[1].n.t][0][0][0]
                    if v in f.sub:
                        continue
                    e[v] = y
                    if any(z.eval(e, NP) == 0 for z in f.nz) or any(z.eval(e, NP) for z in f.zero) or \
                            any(e[v2] != x.eval(e, NP) for v2, x in f.sub.items() if v2 in e):
                        continue
            return e
        return None

    def run(e):
        wb = lambda p: Buf(b"".join(x.eval(e, NP).to_bytes(8, "little") for x in p.words))
        ab = wb(a)
        bb = None if b is None else ab if b is a else wb(b)
        rb_ = None if pred else ab if ra else bb if rb else Buf(b"\x55" * RS)
        kb_ = Buf(b"".join(x.eval(e, NP).to_bytes(8, "little") for x in kw))
        rax, out, bad, _ = nat.call(sym, ([] if pred else [rb_]) + [ab] + ([bb] if b is not None else []) + [kb_])
        if pred:
            return rax, bad
        o = out[rb_]
        return [int.from_bytes(o[i:i + 8], "little") % NP for i in range(0, RS, 8)], bad

    def num_pt(p, e):
        return None if p.xy is None else tuple(x.eval(e, NP) for x in p.xy)

    def expected_num(e):
        p = num_pt(a, e)
        q = num_pt(b, e) if b is not None else None
        c = av.eval(e, NP)
        if fn == "add":
            return add_num(p, q, c)
        if fn == "sub":
            return add_num(p, neg_pt(q), c)
        if fn == "dbl":
            return add_num(p, p, c)
        if fn == "neg":
            return neg_pt(p)
        if fn == "copy":
            return p
        if fn == "isZero":
            return int(p is None)
        return int(p == q)

    def report(f, what):
        for _ in range(3):
            e = numbers(f)
            if e is None:
                continue
            try:
                got, bad = run(e)
            except Crash as c:
                return r.violation("%s: %s" % (sym, c), key=key, replay={"function": sym, "operands": {NAMES[v]: x for v, x in e.items()}})
            want = expected_num(e)
            g = got if pred else affine_num(got)
            if g != want or bad:
                return r.violation("%s (a=%s, operands %s %s, sharing %s): %s; native run returns %s, the group law gives %s" % (
                    sym, ak, ka, kb, alias or "none", what, g, want), key=key,
                    replay={"function": sym, "prime": NP, "operands": {NAMES[v]: x for v, x in e.items()}, "native words": got,
                            "native point": g, "expected": want})
        r.inconclusive("%s: %s, not confirmed natively" % (sym, what))

    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        f = e.user["facts"]
        if e.end != "ret":
            r.violation("%s ends with %s %s" % (sym, e.end, e.info), key=key + ":" + str(e.end), replay={"function": sym})
            continue
        # the cases the specification distinguishes
        sg = -1 if fn == "sub" else 1
        cases = []
        P = a.xy
        Q = None if b is None else b.xy
        if Q is not None and sg < 0:
            Q = (Q[0], -Q[1])
        if fn in ("add", "sub"):
            if P is None:
                cases = [(f, ("pt", Q))]
            elif Q is None:
                cases = [(f, ("pt", P))]
            else:
                for z1, f1 in split(f, Q[0].n - P[0].n):
                    if not z1:
                        cases.append((f1, ("chord",)))
                        continue
                    for z2, f2 in split(f1, Q[1].n - P[1].n):
                        if z2:
                            for z3_, f3 in split(f2, P[1].n):
                                cases.append((f3, ("pt", None) if z3_ else ("tangent",)))
                        else:       # on the curve: opposite
                            for z4, f4 in split(f2, Q[1].n + P[1].n):
                                if z4:
                                    cases.append((f4, ("pt", None)))
        elif fn == "dbl":
            if P is None:
                cases = [(f, ("pt", None))]
            else:
                cases = [(g, ("pt", None) if z else ("tangent",)) for z, g in split(f, P[1].n)]
        elif fn == "neg":
            cases = [(f, ("pt", None if P is None else (P[0], -P[1])))]
        elif fn == "copy":
            cases = [(f, ("pt", P))]
        elif fn == "isZero":
            cases = [(f, int(P is None))]
        elif fn == "eq":
            if P is None or Q is None:
                cases = [(f, int(P is None and Q is None))]
            else:
                for z1, f1 in split(f, Q[0].n - P[0].n):
                    if not z1:
                        cases.append((f1, 0))
                    else:
                        cases += [(f2, int(z2)) for z2, f2 in split(f1, Q[1].n - P[1].n)]
        if pred:
            rax = e.regs[RAX]
            for f2, w in cases:
                t = time.time()
                r.obligations += 1
                s = z3.Solver()         # the case is possible only if its facts are
                s.set("timeout", 5000)
                for v, x in f2.sub.items():
                    s.add(mk.var(v) == x.z3(mk))
                for z in f2.zero:
                    s.add(z.z3(mk) == 0)
                s.add(z3.BoolVal(not (isinstance(rax, int) and rax == w)))
                res = s.check()
                STATS.add("truth", time.time() - t, str(res))
                if res != z3.unsat:
                    report(f2, "returns %s, expected %d" % (rax, w))
                    break
            en = numbers(f)
            if en:
                g, bad = run(en)
                if g == rax and not bad:
                    r.validated += 1
                elif r.status == "ok":
                    r.inconclusive("%s: encoder and native run disagree" % sym)
            continue
        out = [sf.load(e, R0 + 8 * i) for i in range(RS // 8)]
        for f2, spec in cases:
            bad = judge(r, mk, out, spec, P, Q if fn in ("add", "sub") else P, av, f2)
            if bad:
                report(f2, bad)
                break
        en = numbers(f)
        if en:
            got, bad = run(en)
            mine = [o.eval(en, NP) for o in out]
            if got != mine or bad:
                r.inconclusive("%s: encoder and native run disagree" % sym)
            else:
                r.validated += 1
        if r.sample is None:
            r.sample = {"function": sym, "operands": [ka, kb], "path": e.trace, "x": repr(out[0])[:160]}
    r.functions = sorted(H.encoded(ex))
    nat.close()
    return r


def judge(r, mk, out, spec, P, Q, av, f):
    """out denotes the specified point, consistently?  None or what is wrong"""
    for i, o in enumerate(out):
        for v in o.n.vars():
            if NAMES[v].startswith("uninitialised"):
                return "coordinate %d depends on storage nobody initialised" % i
    proj = len(out) == 4
    zero = lambda x: decide(r, mk, rz(x, mk)[0], z3.IntVal(0), f, "zero")
    inf = spec == ("pt", None)
    if inf:
        if proj:
            return None if zero(out[2]) and zero(out[3]) else "result is not infinity"
        return None if zero(out[0]) and zero(out[1]) else "result is not infinity"
    # denominators must not vanish
    if proj:
        d = f.strip(f.red(out[2].n))
        if not (d.is_const() and only23(d.const_val())):
            return "denominator %r may vanish" % d
        n2, d2 = rz(out[2], mk)
        n3, d3 = rz(out[3], mk)
        if not decide(r, mk, n2 * n2 * n2 * d3 * d3, n3 * n3 * d2 * d2 * d2, f, "consistency"):
            return "ZZ^3 differs from ZZZ^2"
    else:
        n2 = d2 = n3 = d3 = z3.IntVal(1)
    for o in out:
        for g, _ in o.d:
            d = f.strip(f.red(g))
            if not (d.is_const() and d.const_val() != 0):
                return "division by %r" % d
    if spec[0] != "pt":
        x1, y1, c = P[0].n.z3(mk), P[1].n.z3(mk), av.n.z3(mk)
    if spec[0] == "pt":
        xs, ys = [t.n.z3(mk) for t in spec[1]]
        xn, xd, yn, yd = xs, z3.IntVal(1), ys, z3.IntVal(1)
    else:
        if spec[0] == "tangent":
            ln, ld = 3 * x1 * x1 + c, 2 * y1
            x2 = x1
        else:
            x2, y2 = Q[0].n.z3(mk), Q[1].n.z3(mk)
            ln, ld = y2 - y1, x2 - x1
        # x3 = l^2 - x1 - x2, y3 = l (x1 - x3) - y1
        xn, xd = ln * ln - (x1 + x2) * ld * ld, ld * ld
        yn, yd = ln * (x1 * ld * ld - xn) - y1 * ld * ld * ld, ld * ld * ld
    nx, dx = rz(out[0], mk)
    ny, dy = rz(out[1], mk)
    # X * ZZd * xd == xn * ZZn * Xd
    if not decide(r, mk, nx * d2 * xd, xn * n2 * dx, f, "x"):
        return "x coordinate wrong"
    if not decide(r, mk, ny * d3 * yd, yn * n3 * dy, f, "y"):
        return "y coordinate wrong"
    return None


def only23(c):
    c = abs(c)
    if c == 0:
        return False
    while c % 2 == 0:
        c //= 2
    while c % 3 == 0:
        c //= 3
    return c == 1


def run_const(r, sym):
    """identity element, generator, coefficients"""
    H = harness()
    sf = SField()
    ex = CExec(H.p, sf.hooks())
    st = H.state()
    kw = [Rat.var(n) for n in ("ca", "cb", "gx", "gy")]
    st.user["facts"] = Facts()
    n = 4 if sym.endswith("_p") or sym == "text_dbl" else 2
    R0 = H.buf(st, 8 * n, "r")
    K0 = H.buf(st, 32, "k", [sf.h(x) for x in kw], writable=False)
    x, y, z = Rat.var("px"), Rat.var("py"), Rat.var("pz")
    args = [R0, K0]
    if sym == "text_dbl":
        st.user["facts"] = Facts(nonzero=[z.n], bad=[frozenset((IDX["px"], IDX["py"]))])
        A0 = H.buf(st, 32, "a", [sf.h(t) for t in (x * z * z, y * z * z * z, z * z, z * z * z)], writable=False)
        args = [R0, A0, K0]
    H.setup(ex, st, sym, args)
    C = Rat.const
    want = {"zero_a": [C(0), C(0)], "one_p": [kw[2], kw[3], C(1), C(1)], "one_a": [kw[2], kw[3]], "coef_a": kw[:2],
            "text_p": [C(11), C(13), C(5), C(7)], "text_a": [C(11), C(13)]}
    mk = MkZ3("int")
    for e in ex.run(st):
        r.paths += 1
        r.steps += e.steps
        f = e.user["facts"]
        if e.end != "ret":
            r.violation("%s ends with %s" % (sym, e.end), replay={"function": sym})
            continue
        out = [sf.load(e, R0 + 8 * i) for i in range(n)]
        if sym == "text_dbl":
            for z_, g in split(f, y.n):
                bad = judge(r, mk, out, ("pt", None) if z_ else ("tangent",), (x, y), None, C(5), g)
                if bad:
                    r.violation("doubling on a curve given as text: %s" % bad, key=sym, replay={"function": sym, "coefficients": "5 7 11 13"})
            continue
        if sym == "zero_p":
            r.obligations += 1
            bad = judge(r, mk, out, ("pt", None), None, None, None, f)
            if bad:
                r.violation("zero(): %s" % bad, replay={"function": sym, "words": [repr(o) for o in out]})
            continue
        for i, (o, w) in enumerate(zip(out, want[sym])):
            if not decide(r, mk, rz(o, mk)[0], rz(w, mk)[0], f, sym):
                r.violation("%s: component %d is %r, expected %r" % (sym, i, o, w), key=sym, replay={"function": sym, "component": i})
                break
    r.functions = sorted(H.encoded(ex))
    return r
