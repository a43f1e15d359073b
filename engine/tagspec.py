"""Specification and harness for the tagged field elements (short / long, normal / Montgomery).

Operand values are bit-vectors; their canonical normal value N and Montgomery value M are both
named, and calls to the Montgomery routines (whose exactness is decided separately, and again for the
callees that a harness used) are replaced by their specification: the operand words are resolved to
residue polynomials over Z_q and the result is the word with the specified residue.
"""
import random
import z3
from .field import *
from .check import Result
from .rawspec import z_addmod, z_submod, z_negmod, hexs
from . import rawspec

OP2 = TAGGED2
OP1 = TAGGED1
CMP = ("eq", "neq", "lt", "gt", "leq", "geq")
BIT2 = ("band", "bor", "bxor")
MONT = ("rawMMul", "rawMSquare", "rawMMul1", "rawToMontgomery", "rawFromMontgomery")


# ---- python oracle --------------------------------------------------------------------------
def signed(F, v):
    return v - F.q if v > F.half else v


def red1(F, v):
    v &= F.mask
    return v - F.q if v >= F.q else v


def op_value(F, fn, a, b=0):
    """expected field value (canonical) of an operation on canonical values"""
    q = F.q
    if fn == "add":
        return (a + b) % q
    if fn == "sub":
        return (a - b) % q
    if fn == "neg":
        return -a % q
    if fn == "mul":
        return a * b % q
    if fn == "square":
        return a * a % q
    if fn == "eq":
        return int(a == b)
    if fn == "neq":
        return int(a != b)
    x, y = signed(F, a), signed(F, b)
    if fn == "lt":
        return int(x < y)
    if fn == "gt":
        return int(x > y)
    if fn == "leq":
        return int(x <= y)
    if fn == "geq":
        return int(x >= y)
    if fn == "band":
        return red1(F, a & b)
    if fn == "bor":
        return red1(F, a | b)
    if fn == "bxor":
        return red1(F, a ^ b)
    if fn == "bnot":
        return red1(F, ~a)
    if fn == "land":
        return int(a != 0 and b != 0)
    if fn == "lor":
        return int(a != 0 or b != 0)
    if fn == "lnot":
        return int(a == 0)
    if fn in ("shl", "shr"):
        left = fn == "shl"
        if b < F.nbits:
            k = b
        elif q - b < F.nbits:
            k = q - b
            left = not left
        else:
            return 0
        return red1(F, a << k) if left else a >> k
    if fn in ("copy", "toNormal", "toLongNormal", "toMontgomery"):
        return a
    raise KeyError(fn)


WANT = {  # representation required of the result
    "toNormal": (SHORT, SHORTM, LONG), "toLongNormal": (LONG,), "toMontgomery": (SHORTM, LONGM),
}


def make_elem(F, t, v, rnd=None):
    """bytes of an element of type t with value v (None when v has no such form)"""
    q = F.q
    if t in (SHORT, SHORTM):
        s = v if v < 1 << 31 else v - q
        if not -(1 << 31) <= s < 1 << 31:
            return None
        if t == SHORTM:
            return F.elem_bytes(s, t, v * F.R % q)
        return F.elem_bytes(s, t, rnd.getrandbits(F.W) if rnd else 0)
    s = rnd.getrandbits(32) if rnd else 0
    return F.elem_bytes(s, t, v if t == LONG else v * F.R % q)


def check_tagged(F, fn, ab, bb, alias=""):
    """native run against the oracle; None or a description.  ab, bb: element bytes"""
    nat = F.native()
    a = Buf(ab)
    two = fn in OP2
    b = (a if alias in ("ab", "rab") else Buf(bb)) if two else None
    va = F.denote(*F.parse_elem(ab))
    vb = (va if alias in ("ab", "rab") else F.denote(*F.parse_elem(bb))) if two else 0
    if isinstance(va, str) or isinstance(vb, str):
        return None                       # not a well-formed operand
    nb = len(ab)
    if fn in TAGGEDI:
        args = [a]
        try:
            rv, out, bad, clob = nat.call(fn, args)
        except Crash as e:
            if fn == "toInt":
                s = signed(F, va)
                if -(1 << 31) <= s < 1 << 31:
                    return "failed although the value %d fits 32 bits" % s
                return None
            return str(e)
        if bad or out[a] != ab:
            return "changed memory"
        r32 = rv & 0xffffffff
        if fn == "isTrue":
            return None if bool(r32) == (va != 0) and r32 in (0, 1) else "returned %d for value %#x" % (r32, va)
        s = signed(F, va)
        got = to_signed(r32, 32)
        if not -(1 << 31) <= s < 1 << 31:
            return "returned %d for %#x, which does not fit 32 bits" % (got, va)
        return None if got == s else "returned %d for the value %d" % (got, s)
    r = Buf(b"\xCC" * nb)
    if "ra" in alias:
        r = a
    elif alias == "rb":
        r = b
    args = [r, a] + ([b] if two else [])
    try:
        rv, out, bad, clob = nat.call(fn, args)
    except Crash as e:
        return str(e)
    if bad:
        return "wrote outside its result"
    if (r is not a and out[a] != ab) or (b is not None and r is not b and out[b] != b.data):
        return "changed an operand"
    e = F.parse_elem(out[r])
    if fn in ("copy",) and r is not a and out[r] != ab:
        return "copy differs from the original"
    got = F.denote(*e)
    if isinstance(got, str):
        return "result is malformed: %s (short=%d type=%#x long=%#x)" % (got, e[0], e[1], e[2])
    exp = op_value(F, fn, va, vb)
    if fn in WANT and e[1] not in WANT[fn]:
        return "result has representation %s" % TNAME.get(e[1], hex(e[1]))
    if got != exp:
        return "result stands for %#x, expected %#x" % (got, exp)
    return None


def tname(t):
    return TNAME.get(t, hex(t))


def describe(F, fn, ab, bb, alias, w):
    f = lambda x: "{short=%d, type=%s, long=%#x}" % (F.parse_elem(x)[0], tname(F.parse_elem(x)[1]), F.parse_elem(x)[2])
    return "Fr_%s (%s, %s%s) a=%s%s: %s" % (fn, F.backend, F.prime, ", sharing " + alias if alias else "", f(ab),
                                            " b=" + f(bb) if fn in OP2 else "", w)


def report(res, F, fn, ab, bb, alias, w):
    ta = tname(F.parse_elem(ab)[1])
    tb = tname(F.parse_elem(bb)[1]) if fn in OP2 else ""
    key = "%s/%s/%s/%s" % (F.backend, fn, ta + ("," + tb if tb else ""), alias or "-")
    return res.violation(describe(F, fn, ab, bb, alias, w), key, {
        "kind": "tagged", "prime": F.prime, "backend": F.backend, "function": "Fr_" + fn, "a": ab.hex(),
        "b": bb.hex() if fn in OP2 else None, "alias": alias, "what": w})


def rand_elem(F, rnd, t, near=None):
    q = F.q
    for _ in range(100):
        if t in (SHORT, SHORTM):
            v = F.corner_short(rnd) % q
        else:
            k = rnd.randrange(6)
            if k == 0:
                v = F.corner_short(rnd) % q
            elif k == 1:
                v = F.corner(rnd) * F.Rinv % q
            elif k == 2 and near is not None:
                v = rnd.choice([near, -near % q, (near + 1) % q, (near - 1) % q, near ^ 1 << rnd.randrange(F.nbits - 1)]) % q
            elif k == 3:
                v = rnd.choice([F.half, F.half + 1, F.half - 1, 0, 1, q - 1, rnd.randrange(300), q - rnd.randrange(1, 300),
                                F.nbits, F.nbits - 1, q - F.nbits, q - F.nbits + 1])
                v %= q
            else:
                v = F.corner(rnd)
        e = make_elem(F, t, v, rnd)
        if e is not None:
            return e, v
    raise AssertionError


def search_tagged(res, F, fn, ta, tb, alias, seed, n=4000, hints=()):
    rnd = random.Random(seed)
    for ab, bb in hints:
        w = check_tagged(F, fn, ab, bb, alias)
        if w:
            report(res, F, fn, ab, bb, alias, w)
            return True
    for _ in range(n):
        ab, va = rand_elem(F, rnd, ta)
        bb, _ = rand_elem(F, rnd, tb if tb is not None else SHORT, va)
        w = check_tagged(F, fn, ab, bb, alias)
        if w:
            report(res, F, fn, ab, bb, alias, w)
            return True
    return False


# ---- residue bookkeeping -----------------------------------------------------------------------
def pmul(p, r, q):
    out = {}
    for m, c in p.items():
        for k, d in r.items():
            t = tuple(sorted(m + k))
            out[t] = (out.get(t, 0) + c * d) % q
    return {m: c for m, c in out.items() if c}


def pscale(p, k, q):
    return {m: c * k % q for m, c in p.items() if c * k % q}


def padd(p, r, q):
    out = dict(p)
    for m, c in r.items():
        out[m] = (out.get(m, 0) + c) % q
    return {m: c for m, c in out.items() if c}


class Words:
    """canonical words with known residues"""

    def __init__(self, F):
        self.F = F
        self.known = []             # (expr, poly)
        self.cons = []              # constraints on the words
        self.k = 0
        self.callees = set()

    def copy(self):
        w = Words(self.F)
        w.known = list(self.known)
        w.cons = list(self.cons)
        w.k = self.k
        w.callees = self.callees
        return w

    def add(self, e, p):
        self.known.append((e, p))

    def zero_facts(self, e, p, out):
        # a monomial is zero exactly when one of its atoms is
        if len(p) == 1:
            (m, c), = p.items()
            zs = []
            for at in set(m):
                for e2, p2 in self.known:
                    if list(p2) == [(at,)]:
                        zs.append(e2 == 0)
                        break
            if len(zs) == len(set(m)) and zs:
                out.append((e == 0) == z3.Or(*zs))
            elif not m:
                out.append(e != 0)

    def find(self, p):
        for e, p2 in self.known:
            if p2 == p:
                return e
        return None

    def word_for(self, p, out, tag="w"):
        """canonical word with residue p; out collects new constraints"""
        F = self.F
        q, W = F.q, F.W
        if not p:
            return z3.BitVecVal(0, W)
        if list(p) == [()]:
            return z3.BitVecVal(p[()], W)
        e = self.find(p)
        if e is not None:
            return e
        e = self.find(pscale(p, q - 1, q))
        if e is not None:
            return z_negmod(F, e)
        for e1, p1 in self.known:
            if p == pscale(p1, 2, q):
                return z_addmod(F, e1, e1)
        if len(p) > 1:
            for i, (e1, p1) in enumerate(self.known):
                e2 = self.find(padd(p, pscale(p1, q - 1, q), q))
                if e2 is not None and p1:
                    return z_addmod(F, e1, e2)
                e2 = self.find(padd(p1, pscale(p, q - 1, q), q))
                if e2 is not None and p1:
                    return z_submod(F, e1, e2)
        self.k += 1
        e = z3.BitVec("%s_%d" % (tag, self.k), W)
        c = [z3.ULT(e, z3.BitVecVal(q, W))]
        self.zero_facts(e, p, c)
        self.add(e, p)
        self.cons += c
        out += c
        return e


def resolve(ex, st, x, fresh=True):
    """residue polynomial of the canonical word x (BV W or int); a new atom (or None) when it is
    none of the known words"""
    F = st.user["F"]
    W, q = F.W, F.q
    ws = st.user["words"]
    if isinstance(x, int):
        return {(): x % q} if x % q else {}
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        v = x.as_long()
        return {(): v % q} if v % q else {}
    for e, p in ws.known:
        if e is x or z3.eq(z3.simplify(e), x):
            return p
    if not fresh and "words_fast" not in st.user and len(ws.known) > 12:
        return None
    pre = st.user["pre"] + st.path
    r, m = check_sat(pre, 20000, "resolve", True)
    if r == "unsat":
        return {}
    cands = []
    for e, p in ws.known:
        cands.append((e, p))
        cands.append((z_negmod(F, e), pscale(p, q - 1, q)))
    for i, (e1, p1) in enumerate(ws.known[:6]):
        for e2, p2 in ws.known[:6]:
            cands.append((z_addmod(F, e1, e2), padd(p1, p2, q)))
            if e1 is not e2:
                cands.append((z_submod(F, e1, e2), padd(p1, pscale(p2, q - 1, q), q)))
    cands.append((z3.BitVecVal(0, W), {}))
    if m is not None:
        xv = m.eval(x, model_completion=True).as_long()
        cands = [(e, p) for e, p in cands if m.eval(e, model_completion=True).as_long() == xv]
    for e, p in cands:
        if check_sat(pre + [x != e], 20000, "resolve") == "unsat":
            return p
    if not fresh:
        return None
    if check_sat(pre + [z3.UGE(x, z3.BitVecVal(q, W))], 20000, "resolve") != "unsat":
        st.user["unreduced"] = True
    ws.k += 1
    at = ("x%d" % ws.k,)
    p = {at: 1}
    ws.add(x, p)
    return p


def written_regs(F, addr):
    """general registers a routine (and what it calls) may write; None when unknown"""
    p = F.p
    seen, work, out = set(), [addr], set()
    import re
    while work:
        a = work.pop()
        while a not in seen:
            seen.add(a)
            i = p.get(a)
            if i is None:
                return None
            mn = i.mn
            ops = i.ops
            if mn not in ("cmp", "test", "push", "jmp", "call", "ret", "nop", "bt") and not mn.startswith("j"):
                n = 2 if mn in ("mulx", "xchg", "xadd") else 1
                for o in ops[:n]:
                    if o[0] == "r":
                        out.add(o[1])
                if mn in ("mul", "imul", "div", "idiv") and len(ops) == 1 or mn in ("cqo", "cdq", "cdqe", "cwde"):
                    out.update((RAX, RDX))
                if mn.startswith(("movs", "stos", "rep")) :
                    out.update((RSI, RDI, RCX))
            if mn.startswith("j") or mn == "call":
                t = ops[0]
                if t[0] != "i":
                    return None
                work.append(t[1])
                if mn == "jmp":
                    break
            if mn in ("ret", "ud2"):
                break
            a = i.next
    return out


def alias_of(fn, st):
    """operand sharing of a raw call, in the notation of the raw harness"""
    d, a = st.regs[RDI], st.regs[RSI]
    if RAWS[fn] == "rab":
        b = st.regs[RDX]
        return "rab" if d == a == b else "ra" if d == a else "rb" if d == b else "ab" if a == b else ""
    return "ra" if d == a else ""


def ensure_callee(res, F, fn, alias, seed):
    """a routine replaced by its specification is itself decided (once per run, whichever worker needs it first)"""
    import json
    import os
    key = "%s.%s.%s.%s" % (F.prime, F.backend, fn, alias or "-")
    f = os.path.join(build.scratch(), "callee." + key)
    with build.locked("callee." + key):
        if os.path.exists(f):
            st = json.load(open(f))
            if st != "ok":
                res.inconclusive("callee Fr_%s (%s) is %s" % (fn, alias or "no sharing", st))
            return st == "ok"
        r = Result(res.name)
        if fn in LINEAR:
            rawspec.ob_addsub(r, F.prime, F.backend, fn, alias, seed)
        else:
            rawspec.ob_mont(r, F.prime, F.backend, fn, alias, seed)
        json.dump(r.status, open(f, "w"))
    res.paths += r.paths
    res.steps += r.steps
    res.obligations += r.obligations
    res.validated += r.validated
    res.functions += r.functions
    if r.status == "violation":
        res.violation(r.detail, r.key, r.replay)
    elif r.status != "ok":
        res.inconclusive("callee Fr_%s: %s" % (fn, r.detail))
    return r.status == "ok"


LINEAR = ("rawAdd", "rawSub", "rawNeg")


def mont_hooks(F):
    """replace the raw arithmetic routines by their specification"""
    q = F.q
    hooks = {}
    Ri = F.Rinv

    def mk(fn):
        try:
            wr = written_regs(F, F.addr(fn)) if F.backend == "asm" else None
        except Exception:
            wr = None

        def h(ex, st):
            ws = st.user["words"]
            rd, ra = st.regs[RDI], st.regs[RSI]
            if not isinstance(rd, int) or not isinstance(ra, int):
                raise Unsupported("symbolic pointer passed to " + fn)
            X = bv(F.read_raw(st, ra), F.W)
            px = resolve(ex, st, X, fn not in LINEAR)
            if fn in LINEAR:
                # only for operands that are known (canonical) words; anything else runs the code
                if px is None:
                    return "skip"
                py = {}
                if fn != "rawNeg":
                    py = resolve(ex, st, bv(F.read_raw(st, st.regs[RDX]), F.W), False)
                    if py is None:
                        return "skip"
                pr = padd(px, py, q) if fn == "rawAdd" else padd(px, pscale(py, q - 1, q), q) if fn == "rawSub" \
                    else pscale(px, q - 1, q)
            elif fn == "rawMMul":
                rb = st.regs[RDX]
                if not isinstance(rb, int):
                    raise Unsupported("symbolic pointer passed to " + fn)
                pr = pscale(pmul(px, resolve(ex, st, bv(F.read_raw(st, rb), F.W)), q), Ri, q)
            elif fn == "rawMSquare":
                pr = pscale(pmul(px, px, q), Ri, q)
            elif fn == "rawMMul1":
                w = st.regs[RDX]
                pw = resolve(ex, st, zext(w, 64, F.W) if not isinstance(w, int) else w)
                pr = pscale(pmul(px, pw, q), Ri, q)
            elif fn == "rawToMontgomery":
                pr = pscale(px, F.R % q, q)
            else:
                pr = pscale(px, Ri, q)
            ws.callees.add((fn, alias_of(fn, st)))
            new = []
            v = ws.word_for(pr, new)
            st.path += new
            for i in range(F.n):
                st.mem.store(rd + 8 * i, simp_num(extract(v, 64 * i + 63, 64 * i, F.W)), 8)
            for r in range(16):
                if r == RSP or r in CALLEE_SAVED:
                    continue
                if wr is None or r in wr:
                    st.regs[r] = z3.BitVec("clob_%s_%d_%d" % (fn, st.steps, r), 64)
            st.flags = {k: z3.Bool("clobf_%s_%d_%s" % (fn, st.steps, k)) for k in st.flags}
            st.pc = ex.pop(st)
        return h
    for fn in MONT + LINEAR:
        if F.has(fn):
            hooks[F.symname(fn)] = mk(fn)
    return hooks


# ---- harness ---------------------------------------------------------------------------------
class Operand:
    pass


def new_operand(F, st, name, t, pre, ws, writable=False):
    """symbolic element of type t with named canonical normal and Montgomery values"""
    W, q = F.W, F.q
    o = Operand()
    o.t = t
    o.addr = st.alloc(8 * (F.n + 1), name, writable)
    o.short = z3.BitVec(name + "_short", 32)
    o.long = z3.BitVec(name + "_long", W)
    st.mem.store(o.addr, o.short, 4, False)
    st.mem.store(o.addr + 4, t, 4, False)
    for i in range(F.n):
        st.mem.store(o.addr + 8 + 8 * i, extract(o.long, 64 * i + 63, 64 * i, W), 8, False)
    Q = z3.BitVecVal(q, W)
    sx = z3.SignExt(W - 32, o.short)
    if t in (SHORT, SHORTM):
        o.N = z3.If(o.short < 0, sx + Q, sx)
        o.M = o.long if t == SHORTM else z3.BitVec(name + "_M", W)
        pre.append(z3.ULT(o.M, Q))
    elif t == LONG:
        o.N = o.long
        o.M = z3.BitVec(name + "_M", W)
        pre += [z3.ULT(o.N, Q), z3.ULT(o.M, Q)]
    else:
        o.M = o.long
        o.N = z3.BitVec(name + "_N", W)
        pre += [z3.ULT(o.N, Q), z3.ULT(o.M, Q)]
    pre.append((o.N == 0) == (o.M == 0))
    pre.append((o.N == 1) == (o.M == F.R % q))
    at = (name,)
    ws.add(o.N, {at: 1})
    ws.add(o.M, {at: F.R % q})
    o.atom = {at: 1}
    return o


def pair_facts(F, a, b, pre):
    pre.append((a.N == b.N) == (a.M == b.M))
    pre.append((a.N == z_negmod(F, b.N)) == (a.M == z_negmod(F, b.M)))


def z_signed(F, N):
    W = F.W
    x = z3.ZeroExt(2, N)
    return z3.If(z3.UGT(N, z3.BitVecVal(F.half, W)), x - z3.BitVecVal(F.q, W + 2), x)


def z_red1(F, v):
    W = F.W
    v = v & z3.BitVecVal(F.mask, W)
    Q = z3.BitVecVal(F.q, W)
    return z3.If(z3.UGE(v, Q), v - Q, v)


def z_op(F, fn, a, b):
    """expected canonical normal value"""
    W, q = F.W, F.q
    N = a.N
    B = b.N if b is not None else None
    one = lambda c: z3.If(c, z3.BitVecVal(1, W), z3.BitVecVal(0, W))
    if fn == "add":
        return z_addmod(F, N, B)
    if fn == "sub":
        return z_submod(F, N, B)
    if fn == "neg":
        return z_negmod(F, N)
    if fn == "eq":
        return one(N == B)
    if fn == "neq":
        return one(N != B)
    if fn in ("lt", "gt", "leq", "geq"):
        x, y = z_signed(F, N), z_signed(F, B)
        return one({"lt": x < y, "gt": x > y, "leq": x <= y, "geq": x >= y}[fn])
    if fn == "band":
        return z_red1(F, N & B)
    if fn == "bor":
        return z_red1(F, N | B)
    if fn == "bxor":
        return z_red1(F, N ^ B)
    if fn == "bnot":
        return z_red1(F, ~N)
    if fn == "land":
        return one(z3.And(N != 0, B != 0))
    if fn == "lor":
        return one(z3.Or(N != 0, B != 0))
    if fn == "lnot":
        return one(N == 0)
    if fn in ("shl", "shr"):
        Q = z3.BitVecVal(q, W)
        nb = F.nbits
        left = lambda k: z_red1(F, N << k)
        right = lambda k: z3.LShR(N, k)
        f, g = (left, right) if fn == "shl" else (right, left)
        return z3.If(z3.ULT(B, nb), f(B), z3.If(z3.ULT(Q - B, nb), g(Q - B), z3.BitVecVal(0, W)))
    if fn in ("copy", "toNormal", "toLongNormal", "toMontgomery"):
        return N
    raise KeyError(fn)


def expected(F, fn, a, b, ws, new):
    """(expected normal word, thunk for the Montgomery word)"""
    q, R = F.q, F.R % F.q
    if fn in ("mul", "square"):
        bb = a if fn == "square" else b
        p = pmul(a.atom, bb.atom, q)
        if a.t in (SHORT, SHORTM) and bb.t in (SHORT, SHORTM):
            # exact: the product of two 32-bit values has at most 63 bits
            W = F.W
            pr = z3.SignExt(32, a.short) * z3.SignExt(32, bb.short)
            Q = z3.BitVecVal(q, W)
            if W > 64:
                x = z3.SignExt(W - 64, pr)
            else:
                x = pr
            return z3.If(pr < 0, x + Q, x), lambda: ws.word_for(pscale(p, R, q), new)
        return ws.word_for(p, new), lambda: ws.word_for(pscale(p, R, q), new)
    N = z_op(F, fn, a, b)
    if fn == "add":
        return N, lambda: z_addmod(F, a.M, b.M)
    if fn == "sub":
        return N, lambda: z_submod(F, a.M, b.M)
    if fn == "neg":
        return N, lambda: z_negmod(F, a.M)
    if fn in ("copy", "toNormal", "toLongNormal", "toMontgomery"):
        return N, lambda: a.M
    # value 0 or 1 (or a bit pattern): only these two have a known Montgomery form
    W = F.W

    def mont():
        return z3.If(N == 0, z3.BitVecVal(0, W), z3.If(N == 1, z3.BitVecVal(R, W), z3.BitVec("no_mont", W)))
    return N, mont


def validate(res, F, fn, ta, tb, alias, seed, n=6):
    rnd = random.Random(seed * 31 + len(fn) * 7 + (ta >> 28) * 4 + ((tb or 0) >> 28))
    for _ in range(n):
        ab, va = rand_elem(F, rnd, ta)
        bb, _ = rand_elem(F, rnd, tb if tb is not None else SHORT, va)
        w = check_tagged(F, fn, ab, bb, alias)
        if w:
            report(res, F, fn, ab, bb, alias, w)
            return False
        st = F.new_state()
        nb = 8 * (F.n + 1)

        def put(x, nm, wr):
            a = st.alloc(nb, nm, wr)
            for i in range(F.n + 1):
                st.mem.store(a + 8 * i, int.from_bytes(x[8 * i:8 * i + 8], "little"), 8, False)
            return a
        pa = put(ab, "a", "ra" in alias)
        two = fn in OP2
        pb = (pa if alias in ("ab", "rab") else put(bb, "b", alias == "rb")) if two else None
        pr = None
        if fn in TAGGEDI:
            args = [pa]
        else:
            pr = pa if "ra" in alias else pb if alias == "rb" else put(b"\xCC" * nb, "r", True)
            args = [pr, pa] + ([pb] if two else [])
        F.set_args(st, args)
        ex = F.executor()
        ex.call(st, F.addr(fn))
        fin = list(ex.run(st))
        s = fin[0]
        nat = F.native()
        A = Buf(ab)
        Bf = A if alias in ("ab", "rab") else Buf(bb)
        Rb = A if "ra" in alias else Bf if alias == "rb" else Buf(b"\xCC" * nb)
        try:
            rv, out, bad, clob = nat.call(fn, [A] if fn in TAGGEDI else [Rb, A] + ([Bf] if two else []))
        except Crash:
            if s.end != "fail":
                res.inconclusive("native run of %s failed, the encoder's did not" % fn)
                return False
            res.validated += 1
            continue
        if len(fin) != 1 or s.end != "ret":
            res.inconclusive("concrete execution of %s did not return in the encoder (%s %s)" % (fn, s.end, s.info))
            return False
        if fn in TAGGEDI:
            ok = (ex.rr(s, RAX, 32) == rv & 0xffffffff)
        else:
            got = b"".join(s.mem.load(pr + 8 * i, 8, False).to_bytes(8, "little") for i in range(F.n + 1))
            ok = got == out[Rb]
        if not ok:
            res.inconclusive("the encoder disagrees with native execution on %s(%s, %s)" % (fn, ab.hex(), bb.hex()))
            return False
        res.validated += 1
    return True


def ob_tagged(res, prime, backend, fn, ta, tb, alias, seed, abi_only=False, timeout_ms=240000):
    F = Field(prime, backend) if not isinstance(prime, Field) else prime
    W, q = F.W, F.q
    res.functions.append("%s:Fr_%s" % (backend, fn))
    check, search = check_tagged, search_tagged
    if abi_only:
        check, search = check_abi, search_abi
        if search(res, F, fn, ta, tb, alias, seed, 12):
            return res
    elif not validate(res, F, fn, ta, tb, alias, seed):
        return res
    try:
        return ob_tagged_sym(res, F, fn, ta, tb, alias, seed, abi_only, timeout_ms, search)
    except Unsupported:
        # the code left what the encoder handles: no verdict, unless a concrete run already refutes it
        if search(res, F, fn, ta, tb, alias, seed):
            return res
        raise


def ob_tagged_sym(res, F, fn, ta, tb, alias, seed, abi_only, timeout_ms, search):
    W, q = F.W, F.q
    st = F.new_state()
    ws = Words(F)
    pre = []
    two = fn in OP2
    a = new_operand(F, st, "a", ta, pre, ws, "ra" in alias)
    b = None
    if two:
        if alias in ("ab", "rab"):
            b = a
        else:
            b = new_operand(F, st, "b", tb, pre, ws, alias == "rb")
            pair_facts(F, a, b, pre)
    if fn in TAGGEDI:
        F.set_args(st, [a.addr])
        r = None
    else:
        if "ra" in alias:
            r = a.addr
        elif alias == "rb":
            r = b.addr
        else:
            r = st.alloc(8 * (F.n + 1), "r", True)
            for i in range(F.n + 1):
                st.mem.store(r + 8 * i, z3.BitVec("r_old%d" % i, 64), 8, False)
        F.set_args(st, [r, a.addr] + ([b.addr] if two else []))
    st.user.update(F=F, words=ws, pre=pre)
    hooks = mont_hooks(F)
    for k in list(F.p.sym):
        if re_fail(k):
            hooks[k] = fail_returns if abi_only else fail_hook
    ex = F.executor(hooks, assumptions=pre, branch_timeout=5000)
    ex.call(st, F.addr(fn))
    reached = False
    Q = z3.BitVecVal(q, W)
    for s in split_types(ex.run(st), r, res, pre):
        res.obligations += 1
        wsx = s.user["words"]
        new = []
        why = None
        extra = []
        if s.end == "fail" and fn == "toInt" and not s.info:
            sg = z_signed(F, a.N)
            fits = z3.And(sg >= z3.BitVecVal(-(1 << 31), W + 2), sg < z3.BitVecVal(1 << 31, W + 2))
            why, extra = "failed although the value fits 32 bits", [fits]
            if abi_only:
                continue
        elif s.end != "ret":
            why = "%s: %s" % (s.end, s.info)
        else:
            reached = True
            p = F.abi_problem(s) if abi_only else None
            if p:
                why = p
            elif abi_only:
                continue
            elif fn in TAGGEDI:
                v = bv(ex.rr(s, RAX, 32), 32)
                if fn == "isTrue":
                    ok = v == z3.If(a.N != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
                else:
                    ok = z3.SignExt(W - 30, v) == z_signed(F, a.N)
                extra = [z3.Not(ok)]
                why = "wrong return value"
            else:
                tw = s.mem.load(r + 4, 4, False)
                if not isinstance(tw, int):
                    tw = None
                short = bv(s.mem.load(r, 4, False), 32)
                longv = bv(concat([(s.mem.load(r + 8 + 8 * i, 8, False), 64) for i in range(F.n - 1, -1, -1)]), W)
                if tw not in TNAME:
                    why = "result type word is not a known representation"
                elif fn in WANT and tw not in WANT[fn]:
                    why = "result has representation %s" % TNAME[tw]
                else:
                    N, mont = expected(F, fn, a, b, wsx, new)
                    sx = z3.SignExt(W - 32, short)
                    sN = z3.If(short < 0, sx + Q, sx)
                    if tw == SHORT:
                        ok = sN == N
                    elif tw == SHORTM:
                        ok = z3.And(sN == N, longv == mont())
                    elif tw == LONG:
                        ok = longv == N
                    else:
                        ok = longv == mont()
                    if fn == "copy" and alias == "":
                        ok = z3.And(ok, tw == a.t, short == a.short, longv == a.long)
                    extra = [z3.Not(ok)]
                    why = "wrong result (representation %s)" % TNAME[tw]
        rr, m = query(pre, s.path + new + extra, timeout_ms)
        if rr == "unsat":
            continue
        hints = []
        if m is not None:
            hints = model_hints(F, m, a, b, ta, tb)
        if search(res, F, fn, ta, tb, alias, seed, hints=hints):
            return res
        if rr == "unknown":
            res.inconclusive("solver gave up on Fr_%s %s,%s (%s)" % (fn, tname(ta), tname(tb) if tb is not None else "", why))
        else:
            res.inconclusive("counterexample for Fr_%s %s,%s does not reproduce natively (%s; unreduced=%s)" % (
                fn, tname(ta), tname(tb) if tb is not None else "", why, s.user.get("unreduced")))
        return res
    if not reached and fn != "toInt":
        res.inconclusive("no path of Fr_%s returns" % fn)
    # the Montgomery callees this harness relied on
    for cal, al in sorted(ws.callees):
        if not abi_only and not ensure_callee(res, F, cal, al, seed):
            return res
    res.sample = "%s %s Fr_%s(%s%s)%s: %d path(s); Montgomery callees: %s" % (
        F.prime, F.backend, fn, tname(ta), "," + tname(tb) if tb is not None else "", " sharing " + alias if alias else "",
        res.paths, ",".join(sorted(c + ("/" + a if a else "") for c, a in ws.callees)) or "none")
    return res


def split_types(states, r, res, pre):
    """one state per representation the result can have on a path"""
    for s in states:
        res.paths += 1
        res.steps += s.steps
        if s.end != "ret" or r is None:
            yield s
            continue
        tw = s.mem.load(r + 4, 4, False)
        if isinstance(tw, int):
            yield s
            continue
        tw = bv(tw, 32)
        t2 = z3.simplify(tw)
        got = []
        if z3.is_bv_value(t2):
            got = [t2.as_long()]
        else:
            while len(got) < 5:
                q_, m = check_sat(pre + s.path + [tw != v for v in got], 60000, "type", True)
                if q_ != "sat":
                    break
                got.append(m.eval(tw, model_completion=True).as_long())
            if q_ == "unknown" or len(got) > 4:
                yield s
                continue
        for v in got:
            o = s.copy()
            o.path = s.path + [tw == v]
            o.mem.store(r + 4, v, 4, False)
            yield o


def free_vars(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out, seen, work = set(), set(), [e]
    while work:
        x = work.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            work += x.children()
    cache[k] = (e, frozenset(out))
    return cache[k][1]


def has_mul(e):
    seen, work = set(), [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_BMUL and not any(z3.is_bv_value(c) for c in x.children()):
            return True
        work += x.children()
    return False


def abstract_mul(es):
    es = [z3.simplify(e) for e in es if not isinstance(e, bool)]
    sub, seen, work = {}, set(), list(es)
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_BMUL and not any(z3.is_bv_value(c) for c in x.children()):
            sub[x.get_id()] = (x, z3.BitVec("mul!%d" % x.get_id(), x.size()))
            continue
        work += x.children()
    return [z3.substitute(e, *sub.values()) if sub else e for e in es]


def query(pre, cons, timeout_ms):
    """facts about words that neither the path nor the goal mentions are left out first (dropping
    assumptions is sound for an unsat answer); the full set decides when that is not enough"""
    vs = set()
    if cons and not isinstance(cons[-1], bool) and has_mul(cons[-1]):
        # products as free variables first (dropping their definition is sound for unsat)
        ab = abstract_mul(pre + cons)
        r = check_sat(ab, 30000, "spec")
        if r == "unsat":
            return r, None
    if cons and not isinstance(cons[-1], bool):
        vs = free_vars(cons[-1])            # the negated goal comes last
        rel = [c for c in pre + cons if not isinstance(c, bool) and free_vars(c) <= vs]
        if len(rel) < len(pre) + len(cons):
            r = check_sat(rel, min(timeout_ms, 30000), "spec")
            if r == "unsat":
                return r, None
    for c in cons:
        if not isinstance(c, bool):
            vs = vs | free_vars(c)
    rel = [c for c in pre if free_vars(c) <= vs]
    r, m = check_sat(rel + cons, timeout_ms, "spec", True)
    if r == "unsat" or len(rel) == len(pre):
        return r, m
    return check_sat(pre + cons, timeout_ms, "spec", True)


def re_fail(k):
    return k in ("Fr_fail", "_Z7Fr_failv") or k.startswith("_Z10Fr_longErr")


def fail_hook(ex, st):
    st.end = "fail"
    return "stop"


def fail_returns(ex, st):
    """the handler as the calling convention allows it: any caller-saved register may change, and it may return"""
    # a call: the return address has been pushed, so rsp must be 8 modulo 16
    if st.regs[RSP] % 16 != 8:
        st.end = "violation"
        st.info = "the failure handler is called with a misaligned stack"
        return "stop"
    for r in range(16):
        if r != RSP and r not in CALLEE_SAVED:
            st.regs[r] = z3.BitVec("failclob_%d_%d" % (st.steps, r), 64)
    st.flags = {k: z3.Bool("failclobf_%d_%s" % (st.steps, k)) for k in st.flags}
    st.pc = ex.pop(st)


# ---- calling convention and memory bounds ---------------------------------------------------
def abi_call(F, fn, args, outs):
    """native run with every operand against an inaccessible page; None or a description"""
    nat = F.native(True)
    for mode in "ES":
        try:
            rv, out, bad, clob = nat.call(fn, args, mode)
        except Crash as e:
            if "status 78" in str(e):
                return "called the failure handler with a misaligned stack"
            return "memory fault with every operand %s an inaccessible page (%s)" % (
                "ending at" if mode == "E" else "starting after", e)
        if clob:
            names = [x for i, x in enumerate(["rbx", "rbp", "r12", "r13", "r14", "r15", "rsp", "direction flag"]) if clob >> i & 1]
            return "did not preserve " + ", ".join(names)
        if bad:
            return "wrote outside its result"
        for a in args:
            if isinstance(a, Buf) and a not in outs and out[a] != a.data:
                return "changed an operand"
    return None


def check_abi(F, fn, ab, bb, alias=""):
    a = Buf(ab)
    two = fn in OP2
    b = (a if alias in ("ab", "rab") else Buf(bb)) if two else None
    if fn in TAGGEDI:
        return abi_call(F, fn, [a], [])
    r = a if "ra" in alias else b if alias == "rb" else Buf(b"\xCC" * len(ab))
    return abi_call(F, fn, [r, a] + ([b] if two else []), [r])


def search_abi(res, F, fn, ta, tb, alias, seed, n=3000, hints=()):
    rnd = random.Random(seed)
    for k in range(n + len(hints)):
        if k < len(hints):
            ab, bb = hints[k]
        else:
            ab, va = rand_elem(F, rnd, ta)
            bb, _ = rand_elem(F, rnd, tb if tb is not None else SHORT, va)
        w = check_abi(F, fn, ab, bb, alias)
        if w:
            report(res, F, fn, ab, bb, alias, w)
            return True
    if n < 100:
        res.validated += n
    return False


def model_hints(F, m, a, b, ta, tb):
    ev = lambda e: m.eval(e, model_completion=True).as_long()

    def forms(o):
        short, lng = ev(o.short), ev(o.long)
        out = [F.elem_bytes(short, o.t, lng)]
        if o.t == SHORTM:
            v = to_signed(short, 32) % F.q
            out = [F.elem_bytes(short, o.t, v * F.R % F.q)]
        if o.t == LONGM:
            out.append(F.elem_bytes(short, o.t, ev(o.N) * F.R % F.q))
        if o.t == LONG:
            out.append(F.elem_bytes(short, o.t, ev(o.M) * F.Rinv % F.q))
        return out
    A = forms(a)
    Bs = forms(b) if b is not None else [A[0]]
    return [(x, y) for x in A for y in Bs]


def ob_copyn(res, prime, backend, n, abi_only, seed):
    """array copy of n elements"""
    F = Field(prime, backend)
    res.functions.append("%s:Fr_copyn" % backend)
    nb = 8 * (F.n + 1)
    rnd = random.Random(seed)

    def conc(k):
        for _ in range(k):
            src = Buf(bytes(rnd.getrandbits(8) for _ in range(nb * n)))
            dst = Buf(b"\xCC" * (nb * n))
            w = None
            if abi_only:
                w = abi_call(F, "copyn", [dst, src, n], [dst])
            else:
                try:
                    rv, out, bad, clob = F.native().call("copyn", [dst, src, n])
                    if out[dst] != src.data:
                        w = "the copy differs from the original"
                    elif bad or out[src] != src.data:
                        w = "wrote outside its result"
                except Crash as e:
                    w = str(e)
            res.validated += 1
            if w:
                res.violation("Fr_copyn (%s, %s) of %d elements %s: %s" % (backend, F.prime, n, src.data.hex(), w),
                              "%s/copyn/%d" % (backend, n), {"kind": "copyn", "prime": F.prime, "backend": backend, "n": n,
                                                             "src": src.data.hex(), "what": w})
                return True
        return False
    if conc(4):
        return res
    st = F.new_state()
    src = st.alloc(nb * n, "a", False)
    dst = st.alloc(nb * n, "r", True)
    for i in range(nb * n // 8):
        st.mem.store(src + 8 * i, z3.BitVec("a%d" % i, 64), 8, False)
        st.mem.store(dst + 8 * i, z3.BitVec("r%d" % i, 64), 8, False)
    F.set_args(st, [dst, src, n])
    # only the low half of the count register is defined
    if backend == "asm":
        st.regs[RDX] = n
    ex = F.executor()
    ex.call(st, F.addr("copyn"))
    for s in ex.run(st):
        res.paths += 1
        res.steps += s.steps
        res.obligations += 1
        why = None
        cons = []
        if s.end != "ret":
            why = "%s: %s" % (s.end, s.info)
        elif abi_only:
            why = F.abi_problem(s)
        else:
            cons = [z3.Or(*[bv(s.mem.load(dst + 8 * i, 8, False), 64) != z3.BitVec("a%d" % i, 64)
                            for i in range(nb * n // 8)])] if n else [False]
        if not why and not cons:
            continue
        r = check_sat(s.path + cons, 60000, "spec")
        if r == "unsat":
            continue
        if not conc(500):
            res.inconclusive("Fr_copyn of %d: %s" % (n, why or "result differs") + " (does not reproduce natively)")
        return res
    res.sample = "%s %s Fr_copyn, %d elements: every byte copied" % (F.prime, backend, n)
    return res


def ob_rawabi(res, prime, fn, alias, seed):
    """calling convention and memory bounds of a raw routine"""
    F = Field(prime, "asm")
    res.functions.append("asm:Fr_" + fn)
    rnd = random.Random(seed)
    nb = 8 * F.n
    sig = RAWS[fn]

    def conc(k):
        for _ in range(k):
            a, b = F.corner(rnd), F.corner(rnd)
            A = Buf(a.to_bytes(nb, "little"))
            B = A if alias in ("ab", "rab") else Buf(b.to_bytes(nb, "little"))
            R = A if "ra" in alias else B if alias == "rb" else Buf(b"\xCC" * nb)
            if sig == "rai":
                b = rnd.randrange(F.nbits) if fn in ("rawShl", "rawShr") else rnd.getrandbits(64)
            args = {"rab": [R, A, B], "ra": [R, A], "rai": [R, A, b], "ab": [A, B], "a": [A], "r": [R],
                    "sw": [A, A if alias == "ra" else B]}[sig]
            w = abi_call(F, fn, args, args if sig == "sw" else [R] if sig[0] == "r" else [])
            res.validated += 1
            if w:
                rawspec.report(res, F, fn, a, b, alias, w)
                return True
        return False
    if conc(12):
        return res

    def run(domain):
        st = F.new_state(domain)
        val, args, reg = rawspec.setup(F, st, fn, alias, domain)
        pre = []
        if domain == "bv":
            Q = z3.BitVecVal(F.q, F.W)
            for k in ("a", "b"):
                if k in val and val[k].size() == F.W and not (k == "b" and sig == "rai"):
                    pre.append(z3.ULT(val[k], Q))
            if fn in ("rawShl", "rawShr"):
                pre.append(z3.ULT(val["b"], F.nbits))
        ex = F.executor(assumptions=pre, branch_timeout=3000) if domain == "bv" else F.executor()
        ex.call(st, F.addr(fn))
        for s in ex.run(st):
            res.paths += 1
            res.steps += s.steps
            res.obligations += 1
            why = F.abi_problem(s) if s.end == "ret" else "%s: %s" % (s.end, s.info)
            if not why:
                continue
            if domain == "bv":
                if check_sat(pre + s.path, 60000, "abi") == "unsat":
                    continue
            elif not rawspec.PathProof(s, [], shared={}).feasible():
                continue
            return why
        return None
    n = (res.paths, res.steps, res.obligations)
    try:
        why = run("int" if fn in MONT + LINEAR else "bv")
    except Unsupported:
        res.paths, res.steps, res.obligations = n
        try:
            why = run("bv")
        except Unsupported:
            if conc(3000):
                return res
            raise
    if why and not conc(3000):
        res.inconclusive("Fr_%s: %s (does not reproduce natively)" % (fn, why))
    res.sample = "%s Fr_%s%s: registers, stack and memory accesses in order on %d path(s)" % (
        F.prime, fn, " sharing " + alias if alias else "", res.paths)
    return res
