"""Specification and harness for the raw (limb array) field routines."""
import random
import z3
from .field import *
from .intproof import PathProof, product_bounds, Inconclusive
from .check import Result

# name -> python oracle on canonical inputs
def oracle(F, fn, a, b=0):
    q = F.q
    if fn == "rawAdd":
        return (a + b) % q
    if fn == "rawSub":
        return (a - b) % q
    if fn == "rawNeg":
        return -a % q
    if fn == "rawMMul":
        return a * b * F.Rinv % q
    if fn == "rawMSquare":
        return a * a * F.Rinv % q
    if fn == "rawMMul1":
        return a * b * F.Rinv % q
    if fn == "rawToMontgomery":
        return a * F.R % q
    if fn == "rawFromMontgomery":
        return a * F.Rinv % q
    if fn == "rawCopy":
        return a
    if fn == "rawZero":
        return 0
    if fn == "rawShl":
        v = (a << b) & F.mask
        return v - q if v >= q else v
    if fn == "rawShr":
        return a >> b
    if fn in ("rawAnd", "rawOr", "rawXor", "rawNot"):
        v = (a & b if fn == "rawAnd" else a | b if fn == "rawOr" else a ^ b if fn == "rawXor" else ~a) & F.mask
        return v - q if v >= q else v
    if fn == "rawSubRegular":
        return (a - b) % (1 << F.W)
    if fn == "rawAddLS":
        return (a + b) % q
    if fn == "rawSubLS":
        return (a - b) % q
    if fn == "rawSubSL":
        return (b - a) % q
    if fn == "rawNegLS":
        return (-a - b) % q
    if fn == "rawCopyS2L":
        return to_signed(b, 64) % q
    raise KeyError(fn)


SMALL = ("rawAddLS", "rawSubLS", "rawSubSL", "rawNegLS")        # 64-bit operand, below q
EXTRA = SMALL + ("rawSubRegular", "rawCmp", "rawAnd", "rawOr", "rawXor", "rawNot", "rawCopyS2L")


def int_operand(F, fn, rnd):
    """a 64-bit operand in the routine's domain"""
    if fn in ("rawShl", "rawShr"):
        return rnd.randrange(F.nbits)
    if fn in SMALL:
        return max(int(fn == "rawNegLS"), min(F.corner(rnd) & M64 if rnd.random() < .3 else rnd.choice([0, 1, 2, M64, 1 << 31, 1 << 63, rnd.getrandbits(64), rnd.getrandbits(32)]), F.q - 1))
    if fn == "rawCopyS2L":
        m = min(F.q - 1, (1 << 63) - 1)
        return rnd.choice([0, 1, -1, m, -m, rnd.randrange(-m, m + 1), rnd.getrandbits(31), -rnd.getrandbits(31)]) & M64
    return rnd.choice([0, 1, M64, rnd.getrandbits(64), rnd.getrandbits(32)])


def z_addmod(F, A, B):
    W = F.W
    S = z3.ZeroExt(1, A) + z3.ZeroExt(1, B)
    Q = z3.BitVecVal(F.q, W + 1)
    return z3.Extract(W - 1, 0, z3.If(z3.UGE(S, Q), S - Q, S))


def z_submod(F, A, B):
    Q = z3.BitVecVal(F.q, F.W)
    return z3.If(z3.UGE(A, B), A - B, A - B + Q)


def z_negmod(F, A):
    return z3.If(A == 0, A, z3.BitVecVal(F.q, F.W) - A)


def z_red(F, v):
    v = v & z3.BitVecVal(F.mask, F.W)
    Q = z3.BitVecVal(F.q, F.W)
    return z3.If(z3.UGE(v, Q), v - Q, v)


def z_oracle(F, fn, A, B=None):
    W = F.W
    if fn == "rawAdd":
        return z_addmod(F, A, B)
    if fn == "rawSub":
        return z_submod(F, A, B)
    if fn == "rawNeg":
        return z_negmod(F, A)
    if fn == "rawCopy":
        return A
    if fn == "rawZero":
        return z3.BitVecVal(0, W)
    if fn in ("rawShl", "rawShr"):
        n = z3.ZeroExt(W - 64, B) if W > 64 else B
        if fn == "rawShr":
            return z3.LShR(A, n)
        return z_red(F, A << n)
    if fn in ("rawAnd", "rawOr", "rawXor", "rawNot"):
        return z_red(F, A & B if fn == "rawAnd" else A | B if fn == "rawOr" else A ^ B if fn == "rawXor" else ~A)
    if fn == "rawSubRegular":
        return A - B
    if fn in SMALL:
        b = z3.ZeroExt(W - 64, B) if W > 64 else B
        if fn == "rawAddLS":
            return z_addmod(F, A, b)
        if fn == "rawSubLS":
            return z_submod(F, A, b)
        if fn == "rawSubSL":
            return z_submod(F, b, A)
        return z_submod(F, z_negmod(F, A), b)
    if fn == "rawCopyS2L":
        b = z3.SignExt(W - 64, B) if W > 64 else B
        return z3.If(B < 0, b + z3.BitVecVal(F.q, W), b)
    raise KeyError(fn)


def native_raw(F, fn, a, b=0, alias=""):
    """run natively; returns (result int | (x, y) for swap | bool for predicates, problem or None)"""
    nb = 8 * F.n
    B_ = lambda v: Buf(v.to_bytes(nb, "little"))
    nat = F.native()
    fill = Buf(b"\xCC" * nb)
    if fn == "rawSwap":
        x = B_(a)
        y = x if alias == "ra" else B_(b)
        r, out, bad, clob = nat.call(fn, [x, y])
        return (int.from_bytes(out[x], "little"), int.from_bytes(out[y], "little")), bad, clob
    if fn in ("rawIsEq", "rawCmp"):
        x = B_(a)
        y = x if alias == "ab" else B_(b)
        r, out, bad, clob = nat.call(fn, [x, y])
        return to_signed(r & 0xffffffff, 32) if fn == "rawCmp" else r & 0xffffffff, bad or out[x] != x.data or out[y] != y.data, clob
    if fn == "rawIsZero":
        x = B_(a)
        r, out, bad, clob = nat.call(fn, [x])
        return r & 0xffffffff, bad or out[x] != x.data, clob
    if fn == "rawZero":
        r, out, bad, clob = nat.call(fn, [fill])
        return int.from_bytes(out[fill], "little"), bad, clob
    sig = RAWS[fn]
    if sig == "ri":
        r, out, bad, clob = nat.call(fn, [fill, b])
        return int.from_bytes(out[fill], "little"), bad, clob
    x = B_(a)
    r = x if "ra" in alias else fill
    args = [r, x]
    y = None
    if sig == "rab":
        y = x if alias in ("ab", "rab") else (r if alias == "rb" else B_(b))
        if alias == "rb":
            r = y = B_(b)
            args[0] = r
        args.append(y)
    elif sig == "rai":
        args.append(b)
    elif sig == "ria":
        args.insert(1, b)
    rv, out, bad, clob = nat.call(fn, args)
    if r is not x and out[x] != x.data:
        bad = 1
    if y is not None and y is not r and out[y] != y.data:
        bad = 1
    return int.from_bytes(out[r], "little"), bad, clob


def expect_raw(F, fn, a, b, alias):
    if alias in ("ab", "rab"):
        b = a
    if fn == "rawSwap":
        return (b, a) if alias != "ra" else (a, a)
    if fn == "rawIsEq":
        return int(a == b)
    if fn == "rawIsZero":
        return int(a == 0)
    if fn == "rawCmp":
        return (a > b) - (a < b)
    return oracle(F, fn, a, b)


def check_concrete(F, fn, a, b, alias):
    """None if the native code agrees with the specification, else a description"""
    try:
        got, bad, clob = native_raw(F, fn, a, b, alias)
    except Crash as e:
        return str(e)
    exp = expect_raw(F, fn, a, b, alias)
    if fn in ("rawIsEq", "rawIsZero"):
        got = int(got != 0)
    if fn == "rawCmp":
        got = (got > 0) - (got < 0)
    if got != exp:
        return "returned %s, expected %s" % (hexs(got), hexs(exp))
    if bad:
        return "wrote outside its result"
    if clob and F.backend == "arm":
        return "does not restore a register that belongs to the caller"
    return None


def hexs(v):
    return "(%s)" % ", ".join(hex(x) for x in v) if isinstance(v, tuple) else hex(v)


def replay_rec(F, fn, a, b, alias, what):
    return {"kind": "raw", "prime": F.prime, "backend": F.backend, "function": "Fr_" + fn, "a": hex(a), "b": hex(b),
            "alias": alias, "what": what}


def report(res, F, fn, a, b, alias, what):
    key = "%s/%s/%s" % (F.backend, fn, alias or "-")
    return res.violation("Fr_%s (%s, %s%s) a=%#x b=%#x: %s" % (
        fn, F.backend, F.prime, ", operands " + alias + " shared" if alias else "", a, b, what), key,
        replay_rec(F, fn, a, b, alias, what))


def search(res, F, fn, alias, seed, n=3000, hints=()):
    """concrete counterexample search used only after the solver failed to discharge an obligation"""
    rnd = random.Random(seed)
    sig = RAWS[fn]
    cands = list(hints)
    for _ in range(n):
        a = F.corner(rnd)
        b = F.corner(rnd)
        if "i" in sig:
            b = int_operand(F, fn, rnd)
        if fn in ("rawIsEq", "rawCmp") and rnd.random() < .6:
            b = a ^ (1 << rnd.randrange(F.nbits - 1)) if rnd.random() < .5 else a
        cands.append((a, b))
    for a, b in cands:
        w = check_concrete(F, fn, a, b, alias)
        if w:
            report(res, F, fn, a, b, alias, w)
            return True
    return False


def validate(res, F, fn, alias, seed, n=12):
    """the encoder must agree with the natively executed code on concrete inputs; and so must the spec"""
    rnd = random.Random(seed * 7 + len(fn))
    sig = RAWS[fn]
    for _ in range(n):
        a = F.corner(rnd)
        b = F.corner(rnd)
        if "i" in sig:
            b = int_operand(F, fn, rnd)
        w = check_concrete(F, fn, a, b, alias)
        if w:
            report(res, F, fn, a, b, alias, w)
            return False
        st = F.new_state()
        names, args, regs = setup(F, st, fn, alias, "bv", {"a": a, "b": b})
        ex = F.executor()
        ex.call(st, F.addr(fn))
        fin = list(ex.run(st))
        if len(fin) != 1 or fin[0].end != "ret":
            res.inconclusive("concrete execution of %s did not return in the encoder (%s)" % (fn, fin[0].info))
            return False
        s = fin[0]
        if fn in ("rawIsEq", "rawIsZero"):
            got = ex.rr(s, RAX, 32)
            got = int(got != 0)
        elif fn == "rawCmp":
            got = to_signed(ex.rr(s, RAX, 32), 32)
            got = (got > 0) - (got < 0)
        elif fn == "rawSwap":
            got = (F.read_raw(s, regs["a"]), F.read_raw(s, regs["b"] if alias != "ra" else regs["a"]))
        else:
            got = F.read_raw(s, regs["r"])
        exp = expect_raw(F, fn, a, b, alias)
        if got != exp:
            res.inconclusive("the encoder disagrees with native execution on %s(%#x, %#x): %s, native %s" % (
                fn, a, b, hexs(got), hexs(exp)))
            return False
        res.validated += 1
    return True


def setup(F, st, fn, alias, domain, conc=None):
    """allocate operands; returns (values by name, args, addresses by name)"""
    sig = RAWS[fn]
    val, reg = {}, {}
    c = conc or {}
    mk = lambda nm, wr: F.mem_raw(st, nm, domain, wr, c.get(nm))
    if fn == "rawSwap":
        reg["a"], val["a"] = mk("a", True)
        if alias == "ra":
            reg["b"], val["b"] = reg["a"], val["a"]
        else:
            reg["b"], val["b"] = mk("b", True)
        args = [reg["a"], reg["b"]]
    else:
        args = []
        if "a" in sig:
            reg["a"], val["a"] = mk("a", "ra" in alias)
        if sig in ("rab", "ab"):
            if alias in ("ab", "rab"):
                reg["b"], val["b"] = reg["a"], val["a"]
            else:
                reg["b"], val["b"] = mk("b", alias == "rb")
        if sig[0] == "r":
            if "ra" in alias:
                reg["r"] = reg["a"]
            elif alias == "rb":
                reg["r"] = reg["b"]
            else:
                reg["r"] = st.alloc(8 * F.n, "r", True)
                for i in range(F.n):        # previous contents: arbitrary
                    if domain == "bv":
                        st.mem.store(reg["r"] + 8 * i, z3.BitVec("r_old%d" % i, 64) if conc is None else 0xCCCCCCCCCCCCCCCC, 8, False)
                    else:
                        st.bounds["r_old%d" % i] = (0, M64)
                        st.mem.store(reg["r"] + 8 * i, IV("r_old%d" % i), 8, False)
            args.append(reg["r"])
        if "a" in sig:
            args.append(reg["a"])
        if "b" in sig:
            args.append(reg["b"])
        if "i" in sig:
            if "b" in c:
                val["b"] = c["b"]
            elif domain == "bv":
                val["b"] = z3.BitVec("b", 64)
            else:
                st.bounds["b0"] = (0, M64)
                val["b"] = IV("b0")
            args.insert(1 if sig == "ria" else len(args), val["b"])
    F.set_args(st, args)
    return val, args, reg


def ob_bv(res, prime, backend, fn, alias, seed, timeout_ms=120000):
    """raw routine against its bit-vector specification, all canonical inputs"""
    F = Field(prime, backend) if not isinstance(prime, Field) else prime
    res.functions.append("%s:Fr_%s" % (backend, fn))
    if not validate(res, F, fn, alias, seed):
        return res
    st = F.new_state()
    val, args, reg = setup(F, st, fn, alias, "bv")
    pre = []
    Q = z3.BitVecVal(F.q, F.W)
    for k in ("a", "b"):
        if k in val and val[k].size() == F.W and not (k == "b" and "i" in RAWS[fn]):
            pre.append(z3.ULT(val[k], Q))
    if fn in ("rawShl", "rawShr"):
        pre.append(z3.ULT(val["b"], F.nbits))
    if fn in SMALL and F.W == 64:
        pre.append(z3.ULT(val["b"], Q))
    if fn == "rawNegLS":
        pre.append(val["b"] != 0)       # only ever called with the magnitude of a negative value
    if fn == "rawCopyS2L":
        m = min(F.q - 1, (1 << 63) - 1)
        pre.append(z3.And(val["b"] <= m, val["b"] >= -m))
    ex = F.executor(assumptions=pre)
    ex.call(st, F.addr(fn))
    reached = False
    for s in ex.run(st):
        res.paths += 1
        res.steps += s.steps
        res.obligations += 1
        hints = []
        why = None
        if s.end != "ret":
            why = "%s: %s" % (s.end, s.info)
            r, m = check_sat(pre + s.path, timeout_ms, "path", True)
        else:
            reached = True
            conds = []
            if fn == "rawIsEq":
                got = ex.rr(s, RAX, 32)
                conds.append((bv(got, 32) != 0) == (val["a"] == val["b"]))
            elif fn == "rawIsZero":
                got = ex.rr(s, RAX, 32)
                conds.append((bv(got, 32) != 0) == (val["a"] == 0))
            elif fn == "rawCmp":
                got = bv(ex.rr(s, RAX, 32), 32)
                conds.append((got == 0) == (val["a"] == val["b"]))
                conds.append((got < 0) == z3.ULT(val["a"], val["b"]))
            elif fn == "rawSwap":
                conds.append(bv(F.read_raw(s, reg["a"]), F.W) == val["b"])
                conds.append(bv(F.read_raw(s, reg["b"]), F.W) == val["a"])
            else:
                conds.append(bv(F.read_raw(s, reg["r"]), F.W) == z_oracle(F, fn, val.get("a"), val.get("b")))
            r, m = check_sat(pre + s.path + [z3.Not(z3.And(*conds))], timeout_ms, "spec", True)
            if F.backend == "arm" and F.abi_problem(s):
                r, m = check_sat(pre + s.path, timeout_ms, "path", True)
                why = F.abi_problem(s)
            if r == "sat":
                why = why or "result differs from the specification"
        if r == "unknown":
            if not search(res, F, fn, alias, seed):
                res.inconclusive("solver gave up on Fr_%s %s" % (fn, alias))
            continue
        if why and r == "sat":
            ev = lambda k: m.eval(val[k], model_completion=True).as_long() if k in val else 0
            a, b = ev("a"), ev("b")
            w = check_concrete(F, fn, a, b, alias)
            if w:
                report(res, F, fn, a, b, alias, w)
            elif not search(res, F, fn, alias, seed):
                res.inconclusive("counterexample does not reproduce natively: Fr_%s a=%#x b=%#x (%s)" % (fn, a, b, why))
            return res
    if not reached and res.status == "ok":
        if not search(res, F, fn, alias, seed, 50):
            res.inconclusive("no path of Fr_%s returns" % fn)
    res.sample = "%s %s Fr_%s alias=%s: %d path(s), spec holds for all canonical inputs" % (
        prime if isinstance(prime, str) else prime.prime, backend, fn, alias or "none", res.paths)
    return res


def ob_addsub(res, prime, backend, fn, alias, seed):
    """integer domain first (fast); bit-vectors when the code leaves linear arithmetic"""
    try:
        n = (res.paths, res.steps, res.obligations)
        return ob_mont(res, prime, backend, fn, alias, seed)
    except Unsupported:
        res.paths, res.steps, res.obligations = n
        return ob_bv(res, prime, backend, fn, alias, seed, 300000)


def ob_mont(res, prime, backend, fn, alias, seed):
    """Montgomery routine in the integer domain: exact for every canonical input"""
    F = Field(prime, backend) if not isinstance(prime, Field) else prime
    q, n, R = F.q, F.n, F.R
    res.functions.append("%s:Fr_%s" % (backend, fn))
    if not validate(res, F, fn, alias, seed):
        return res
    st = F.new_state("int")
    val, args, reg = setup(F, st, fn, alias, "int")
    ex = F.executor()
    ex.call(st, F.addr(fn))
    L = lambda vs: sum((Lin.var(v) * (1 << (64 * i)) for i, v in enumerate(vs)), Lin())
    shared = {}

    def settle(st2, c):
        """a branch on a carry that is provably constant is not a branch"""
        vs = list(c.l.c)
        if len(vs) != 1 or st2.bounds.get(vs[0]) != (0, 1):
            return None
        v = vs[0]
        if v not in shared:
            A, B = val["a"], (val["b"] if fn == "rawMMul" else ["b0"] if fn == "rawMMul1" else val["a"])
            cs = [le(L(A), q - 1)]
            if fn in ("rawMMul", "rawAdd", "rawSub"):
                cs.append(le(L(val["b"]), q - 1))
            if fn in ("rawMMul", "rawMSquare", "rawMMul1"):
                cs += product_bounds(st2, A, B, q, bmax=M64 if fn == "rawMMul1" else None, partial=True)[0]
            pp = PathProof(st2, cs, shared=shared)
            pp.settle(v)
        b = shared.get(v)
        if b is None:
            return None
        return LC(c.op, Lin({}, c.l.k + c.l.c[v] * b)).const()
    ex.int_settle = settle
    ok = True
    feas = 0
    for s in ex.run(st):
        res.paths += 1
        res.steps += s.steps
        res.obligations += 2
        A = val["a"]
        cs = [le(L(A), q - 1)]
        if fn == "rawMMul":
            B = val["b"]
            cs.append(le(L(B), q - 1))
        try:
            if fn in ("rawMMul", "rawMSquare"):
                pb, AB = product_bounds(s, A, val["b"] if fn == "rawMMul" else A, q)
                cs += pb
                scale, target = R, AB
            elif fn == "rawMMul1":
                pb, AB = product_bounds(s, A, ["b0"], q, bmax=M64)
                cs += pb
                scale, target = R, AB
            elif fn == "rawFromMontgomery":
                scale, target = R, L(A)
            elif fn == "rawToMontgomery":
                scale, target = R, L(A) * (R * R % q)
            elif fn == "rawAdd":
                cs.append(le(L(val["b"]), q - 1))
                scale, target = 1, L(A) + L(val["b"])
            elif fn == "rawSub":
                cs.append(le(L(val["b"]), q - 1))
                scale, target = 1, L(A) - L(val["b"])
            elif fn == "rawNeg":
                scale, target = 1, L(A) * -1
            else:
                raise Unsupported(fn)
        except Inconclusive as e:
            if not search(res, F, fn, alias, seed):
                res.inconclusive(str(e))
            return res
        pp = PathProof(s, cs, shared=shared)
        if s.end != "ret":
            why = "%s: %s" % (s.end, s.info)
            if not pp.feasible():
                continue
        elif F.backend == "arm" and F.abi_problem(s):
            why = F.abi_problem(s)
            if not pp.feasible():
                continue
        else:
            V = sum((ie(s.mem.load(reg["r"] + 8 * i, 8)) * (1 << (64 * i)) for i in range(n)), Lin())
            why = pp.prove_congruent(V, scale, target, q)
            if why is None and not pp.prove(lt(V, q)):
                why = "result not provably below q"
            if why is not None and not pp.feasible():
                why = None
            else:
                feas += 1
        if why:
            # try for a model of the path; then fall back to concrete search
            if not search(res, F, fn, alias, seed, 20000):
                res.inconclusive("Fr_%s (%s): %s" % (fn, prime, why[:600]))
            return res
    if not feas and res.status == "ok":
        res.inconclusive("no path of Fr_%s returns" % fn)
    res.sample = "%s %s Fr_%s alias=%s: %d paths, result * 2^%d == product (mod q) and result < q on each" % (
        prime, backend, fn, alias or "none", res.paths, 64 * n)
    return res
