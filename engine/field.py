"""Field back ends under test (nasm x86-64, portable C++), harnesses shared by the field checks."""
import os
import random
import z3
from . import build
from .build import PRIMES, asm_field, arm_field, generic_field, render, sh, CXXF
from .core import *
from .terms import *
from .lin import *
from . import x86
from .x86 import Program, Executor, RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, CALLEE_SAVED
from .native import Native, Buf, Crash

SHORT, SHORTM, LONG, LONGM = 0, 0x40000000, 0x80000000, 0xC0000000
TYPES = {"S": SHORT, "SM": SHORTM, "L": LONG, "LM": LONGM}
TNAME = {v: k for k, v in TYPES.items()}

RAWS = {  # name: (number of pointer operands, extra int operand, returns int)
    "rawAdd": "rab", "rawSub": "rab", "rawNeg": "ra", "rawMMul": "rab", "rawMSquare": "ra", "rawMMul1": "rai",
    "rawToMontgomery": "ra", "rawFromMontgomery": "ra", "rawCopy": "ra", "rawSwap": "sw", "rawIsEq": "ab",
    "rawIsZero": "a", "rawShl": "rai", "rawShr": "rai", "rawZero": "r",
    "rawAddLS": "rai", "rawSubLS": "rai", "rawSubSL": "ria", "rawNegLS": "rai", "rawSubRegular": "rab", "rawCmp": "ab",
    "rawAnd": "rab", "rawOr": "rab", "rawXor": "rab", "rawNot": "ra", "rawCopyS2L": "ri",
}
TAGGED2 = ["add", "sub", "mul", "band", "bor", "bxor", "shl", "shr", "eq", "neq", "lt", "gt", "leq", "geq", "land", "lor"]
TAGGED1 = ["copy", "neg", "square", "bnot", "lnot", "toNormal", "toLongNormal", "toMontgomery"]
TAGGEDI = ["toInt", "isTrue"]

ARGREGS = [RDI, RSI, RDX, RCX, 8, 9]


# returns like a C function would, after overwriting everything a callee may overwrite
FAIL_ABI = """
        .intel_syntax noprefix
        .globl Fr_fail
Fr_fail:
        lea rax, [rsp+8]
        test al, 15
        je 1f
        mov edi, 78
        mov eax, 60
        syscall
1:      mov rax, -1
        mov rcx, rax
        mov rdx, rax
        mov rsi, rax
        mov rdi, rax
        mov r8, rax
        mov r9, rax
        mov r10, rax
        mov r11, rax
        ret
        .section .note.GNU-stack,"",@progbits
"""


class Field:
    def __init__(self, prime, backend="asm"):
        self.prime = prime
        self.backend = backend
        self.q = q = PRIMES[prime]
        self.n = (q.bit_length() - 1) // 64 + 1
        self.R = 1 << (64 * self.n)
        self.W = 64 * self.n
        self.half = (q - 1) // 2
        self.nbits = q.bit_length()
        self.mask = (1 << self.nbits) - 1
        if backend == "asm":
            self.dir, self.elf, self.obj = asm_field(q)
        elif backend == "arm":
            self.dir, self.elf, self.obj = arm_field(q)
        else:
            self.dir, self.elf = generic_field(q)
        self.p = Program(self.elf)
        self._nat = None
        self.Rinv = pow(self.R, -1, q)

    # ---- symbols -------------------------------------------------------------
    def symname(self, fn):
        if self.backend in ("asm", "arm"):
            return "Fr_" + fn
        for d, a in self.p.find_syms(r"^Fr_%s\(" % fn):
            for nm, x in self.p.sym.items():
                if x == a and ("Fr_" + fn) in nm:
                    return nm
        return None

    def addr(self, fn):
        nm = self.symname(fn)
        if nm is None or nm not in self.p.sym:
            raise build.BuildError("no function Fr_%s in the %s build" % (fn, self.backend))
        return self.p.sym[nm]

    def has(self, fn):
        nm = self.symname(fn)
        return nm is not None and nm in self.p.sym

    # ---- symbolic side -------------------------------------------------------
    def new_state(self, domain="bv"):
        st = self.p.new_state()
        for lo in list(st.mem.regs):
            hi, name, wr = st.mem.regs[lo]
            st.mem.regs[lo] = (hi, name, name == "stack" or self.backend == "arm" and name == ".bss")      # the image itself is never written
        if self.backend == "arm":
            for i in range(6, 31):      # registers whose content on entry is arbitrary
                v = "x%d_in" % i
                if domain == "bv":
                    st.mem.store(self.p.sym["regs"] + 8 * i, z3.BitVec(v, 64), 8, False)
                else:
                    st.bounds[v] = (0, M64)
                    st.mem.store(self.p.sym["regs"] + 8 * i, IV(v), 8, False)
        for r in CALLEE_SAVED:
            if domain == "bv":
                st.regs[r] = z3.BitVec("init_%s" % x86.R64[r], 64)
            else:
                v = "init_%s" % x86.R64[r]
                st.bounds[v] = (0, M64)
                st.regs[r] = IV(v)
        st.user["saved"] = [st.regs[r] for r in CALLEE_SAVED]
        st.user["rsp0"] = st.regs[RSP]
        return st

    def executor(self, hooks=None, **kw):
        h = dict(mpn_hooks()) if self.backend not in ("asm", "arm") else {}
        for k in ("_Z7Fr_failv", "Fr_fail", "_Z10Fr_longErrv"):
            if k in self.p.sym:
                h[k] = hook_end("fail")
        h.update(hooks or {})
        return Executor(self.p, h, **kw)

    def set_args(self, st, args):
        for r, a in zip(ARGREGS, args):
            st.regs[r] = a

    def ret_int(self, ex, st):
        return ex.rr(st, RAX, 32)

    def abi_problem(self, st):
        """callee-saved registers, stack pointer and direction flag restored?"""
        if st.user.get("df"):
            return "the direction flag is left set"
        if st.regs[RSP] != st.user["rsp0"]:
            return "the stack pointer is off by %s on return" % (st.regs[RSP] - st.user["rsp0"])
        for r, v in zip(CALLEE_SAVED, st.user["saved"]):
            x = st.regs[r]
            if x is v:
                continue
            if isinstance(v, IV):
                if isinstance(x, IV) and x.e.same(v.e):
                    continue
            elif not isinstance(x, (int, IV)) and z3.eq(x, v):
                continue
            return "register %s is not preserved" % x86.R64[r]
        return None

    def mem_raw(self, st, name, domain="bv", writable=False, val=None):
        a = st.alloc(8 * self.n, name, writable)
        if val is None:
            if domain == "bv":
                v = z3.BitVec(name, self.W)
                for i in range(self.n):
                    st.mem.store(a + 8 * i, z3.Extract(64 * i + 63, 64 * i, v) if self.n > 1 else v, 8, False)
            else:
                v = []
                for i in range(self.n):
                    x = "%s%d" % (name, i)
                    st.bounds[x] = (0, M64)
                    v.append(x)
                    st.mem.store(a + 8 * i, IV(x), 8, False)
        else:
            v = val
            for i in range(self.n):
                st.mem.store(a + 8 * i, (val >> (64 * i)) & M64, 8, False)
        return a, v

    def read_raw(self, st, a):
        return concat([(st.mem.load(a + 8 * i, 8, False), 64) for i in range(self.n - 1, -1, -1)])

    def mem_elem(self, st, name, typ, writable=False):
        """tagged element: returns address, short (BV32), long (BV W)"""
        a = st.alloc(8 * (self.n + 1), name, writable)
        s = z3.BitVec(name + "_short", 32)
        st.mem.store(a, s, 4, False)
        st.mem.store(a + 4, typ, 4, False)
        v = z3.BitVec(name + "_long", self.W)
        for i in range(self.n):
            st.mem.store(a + 8 + 8 * i, z3.Extract(64 * i + 63, 64 * i, v) if self.n > 1 else v, 8, False)
        return a, s, v

    # ---- native side -----------------------------------------------------------
    def native(self, abi=False):
        if abi and self.backend == "asm":
            # a failure handler that tells whether it was called with an aligned stack
            if self._nat is None:
              with build.locked("nativeabi" + os.path.basename(self.dir)):
                fns = [f for f in list(RAWS) + TAGGED2 + TAGGED1 + TAGGEDI + ["copyn"] if self.has(f)]
                o = os.path.join(self.dir, "failabi.o")
                if not os.path.exists(o):
                    sh(["gcc", "-x", "assembler", "-", "-c", "-o", o], inp=FAIL_ABI)
                self._nat = Native([self.obj, o], {f: self.symname(f) for f in fns},
                                   os.path.join(self.dir, "native_abi"))
            return self._nat
        if self._nat is None:
          with build.locked("native" + self.backend + os.path.basename(self.dir)):
            fns = [f for f in list(RAWS) + TAGGED2 + TAGGED1 + TAGGEDI + ["copyn"] if self.has(f)]
            tab = {f: self.symname(f) for f in fns}
            out = os.path.join(self.dir, "native_" + self.backend)
            if self.backend == "asm":
                o = os.path.join(self.dir, "fail.o")
                if not os.path.exists(o):
                    # the library's own failure handler aborts; so does this one
                    sh(["gcc", "-x", "c", "-", "-c", "-o", o], inp="#include <stdlib.h>\nvoid Fr_fail(void){abort();}\n")
                objs = [self.obj, o]
            elif self.backend == "arm":
                objs = [self.obj]
            else:
                o = os.path.join(self.dir, "failg.o")
                if not os.path.exists(o):
                    sh(["g++", "-x", "c++", "-", "-c", "-o", o],
                       inp="#include <cstdlib>\nvoid Fr_fail(){abort();}\nvoid Fr_longErr(){abort();}\n")
                objs = [os.path.join(self.dir, "fr_generic.o"), os.path.join(self.dir, "fr_raw_generic.o"), o]
            self._nat = Native(objs, tab, out, libs=["-lgmp"])
        return self._nat

    def elem_bytes(self, short, typ, longv):
        return (short & 0xffffffff).to_bytes(4, "little") + typ.to_bytes(4, "little") + \
            longv.to_bytes(8 * self.n, "little")

    def parse_elem(self, b):
        s = int.from_bytes(b[:4], "little")
        return to_signed(s, 32), int.from_bytes(b[4:8], "little"), int.from_bytes(b[8:], "little")

    def denote(self, short, typ, longv):
        """the field value an element stands for, or a string when it stands for none"""
        q = self.q
        if typ == SHORT:
            return short % q
        if typ == SHORTM:
            v = short % q
            if longv != v * self.R % q:
                return "short Montgomery element whose two halves disagree"
            return v
        if typ not in (LONG, LONGM):
            return "unknown element type %#x" % typ
        if longv >= q:
            return "long value not reduced modulo q"
        return longv if typ == LONG else longv * self.Rinv % q

    # ---- interesting concrete values ----------------------------------------------
    def corner(self, rnd):
        q, W = self.q, self.W
        k = rnd.randrange(10)
        if k == 0:
            return rnd.choice([0, 1, 2, q - 1, q - 2, q // 2, q // 2 + 1, self.R % q, (q - self.R) % q,
                               (1 << (self.nbits - 1)) % q, self.R * self.R % q])
        if k == 1:
            return q - 1 - rnd.randrange(1 << 33)if q > 1 << 34 else rnd.randrange(q)
        if k == 2:
            return rnd.randrange(min(q, 1 << 33))
        if k == 3:
            v = 0
            for i in range(self.n):
                v |= rnd.choice([0, 1, M64, M64 - 1, 1 << 63, rnd.getrandbits(64), (q >> (64 * i)) & M64]) << (64 * i)
            return v % q
        if k == 4:      # agrees with q in some high words
            i = rnd.randrange(self.n)
            m = (1 << (64 * i)) - 1
            v = (q & ~m) | rnd.getrandbits(W) & m
            return v if v < q else v & m
        if k == 5:
            return (1 << rnd.randrange(self.nbits)) % q
        if k == 6:
            v = (rnd.choice([1, 3, 0xffff, M64]) << (64 * rnd.randrange(self.n)))
            return v % q
        return rnd.randrange(q)

    def corner_short(self, rnd):
        return rnd.choice([0, 1, -1, 2, -2, 0x7fffffff, -0x80000000, -0x7fffffff, 1 << 30, -(1 << 30),
                           rnd.randrange(-1 << 31, 1 << 31), rnd.randrange(-300, 300), self.nbits, self.nbits - 1,
                           -self.nbits, 31, 32, 30, 63, 64, 0xffff, 0x10000, -0x10000])


def hook_end(reason):
    def h(ex, st):
        st.end = reason
        return "stop"
    return h


# ---- GMP mpn model (documented semantics, on symbolic limbs) -----------------------------
def _ci(ex, st, v, key, what):
    if isinstance(v, int):
        return v
    return ex.fork_values(st, v, key, what=what)


def mpn_hooks():
    def limb(st, p, i):
        return st.mem.load(p + 8 * i, 8)

    def ptrs(ex, st, *rs):
        out = []
        for r in rs:
            v = st.regs[r]
            if not isinstance(v, int):
                v = ex.fork_values(st, v, "ptr%d" % r, what="pointer")
                st.regs[r] = v
            out.append(v)
        return out

    def count(ex, st, r):
        v = st.regs[r]
        if not isinstance(v, int):
            v = ex.fork_values(st, v, "cnt%d" % r, what="limb count")
            st.regs[r] = v
        if v > 64:
            raise Violation("limb count %d" % to_signed(v, 64))
        return v

    def fin(ex, st, v):
        if v is not None:
            st.regs[RAX] = v
        st.pc = ex.pop(st)

    def cval(ex, st):
        """current carry flag as a limb value"""
        c = ex.carry(st)
        if isinstance(c, (int, IV)):
            return c
        return bool_to(c, 64)

    def chain(op, one):
        def h(ex, st):
            if one:
                r, a = ptrs(ex, st, RDI, RSI)
                n = count(ex, st, RDX)
                b = st.regs[RCX]
            else:
                r, a, b = ptrs(ex, st, RDI, RSI, RDX)
                n = count(ex, st, RCX)
            c = 0
            for i in range(n):
                x = limb(st, a, i)
                y = (b if i == 0 else 0) if one else limb(st, b, i)
                s = ex.addc(st, x, y, c, 64) if op == "add" else ex.subc(st, x, y, c, 64)
                st.mem.store(r + 8 * i, s, 8)
                c = ex.carry(st)
            fin(ex, st, c if isinstance(c, (int, IV)) else bool_to(c, 64))
        return h

    def addv(op):
        """mpn_add / mpn_sub(r, a, an, b, bn)"""
        def h(ex, st):
            r, a, b = ptrs(ex, st, RDI, RSI, RCX)
            an, bn = count(ex, st, RDX), count(ex, st, 8)
            if bn > an:
                raise Violation("mpn_%s with a second operand longer than the first" % op)
            c = 0
            for i in range(an):
                x = limb(st, a, i)
                y = limb(st, b, i) if i < bn else 0
                s = ex.addc(st, x, y, c, 64) if op == "add" else ex.subc(st, x, y, c, 64)
                st.mem.store(r + 8 * i, s, 8)
                c = ex.carry(st)
            fin(ex, st, c if isinstance(c, (int, IV)) else bool_to(c, 64))
        return h

    def mul1(kind):
        def h(ex, st):
            r, a = ptrs(ex, st, RDI, RSI)
            n = count(ex, st, RDX)
            b = st.regs[RCX]
            cy = 0
            for i in range(n):
                hi, lo = ex.mul128(st, limb(st, a, i), b)
                s = ex.addc(st, lo, cy, 0, 64)
                c1 = ex.carry(st)
                hi = ex.addc(st, hi, 0 if isinstance(hi, int) else 0, c1, 64)
                if kind == "addmul":
                    s = ex.addc(st, s, limb(st, r, i), 0, 64)
                    c2 = ex.carry(st)
                    hi = ex.addc(st, hi, 0, c2, 64)
                elif kind == "submul":
                    s = ex.subc(st, limb(st, r, i), s, 0, 64)
                    c2 = ex.carry(st)
                    hi = ex.addc(st, hi, 0, c2, 64)
                st.mem.store(r + 8 * i, s, 8)
                cy = hi
            fin(ex, st, cy)
        return h

    def cmp(ex, st):
        a, b = ptrs(ex, st, RDI, RSI)
        n = count(ex, st, RDX)
        xs = [limb(st, a, i) for i in range(n)]
        ys = [limb(st, b, i) for i in range(n)]
        if any(isinstance(v, IV) for v in xs + ys):
            x = sum((ie(v) * (1 << (64 * i)) for i, v in enumerate(xs)), Lin())
            y = sum((ie(v) * (1 << (64 * i)) for i, v in enumerate(ys)), Lin())
            k = st.user.get("__cmpk", 0)
            # two-step fork: less, then equal
            tk = st.user.pop("__taken", None)
            if k == 0:
                c = simp_bool(l_lt(x, y)) if tk is None else None
                lt_ = tk if tk is not None else ex_branch(ex, st, c)
                if lt_:
                    fin(ex, st, M64)
                    return
                st.user["__cmpk"] = 1
                return
            c = simp_bool(l_eq(x, y)) if tk is None else None
            e_ = tk if tk is not None else ex_branch(ex, st, c)
            st.user.pop("__cmpk")
            fin(ex, st, 0 if e_ else 1)
            return
        if all(isinstance(v, int) for v in xs + ys):
            for i in range(n - 1, -1, -1):
                if xs[i] != ys[i]:
                    fin(ex, st, 1 if xs[i] > ys[i] else M64)
                    return
            fin(ex, st, 0)
            return
        X = bv(concat([(v, 64) for v in reversed(xs)]), 64 * n)
        Y = bv(concat([(v, 64) for v in reversed(ys)]), 64 * n)
        fin(ex, st, z3.If(X == Y, z3.BitVecVal(0, 64), z3.If(z3.ULT(X, Y), z3.BitVecVal(M64, 64), z3.BitVecVal(1, 64))))

    def ex_branch(ex, st, c):
        if isinstance(c, bool):
            return c
        r = ex.decide(st, c)
        if isinstance(r, tuple):
            _, o = r
            o.user["__br"] = st.pc
            ex.work.append(o)
            return True
        return r

    def zero_p(ex, st):
        a, = ptrs(ex, st, RDI)
        n = count(ex, st, RSI)
        xs = [limb(st, a, i) for i in range(n)]
        if all(isinstance(v, int) for v in xs):
            fin(ex, st, int(not any(xs)))
            return
        X = concat([(v, 64) for v in reversed(xs)])
        fin(ex, st, bool_to(bv(X, 64 * n) == 0, 64))

    def copyi(ex, st):
        r, a = ptrs(ex, st, RDI, RSI)
        n = count(ex, st, RDX)
        if r > a and r < a + 8 * n:
            raise Violation("mpn_copyi on forward-overlapping areas")
        for i in range(n):
            st.mem.store(r + 8 * i, limb(st, a, i), 8)
        fin(ex, st, None)

    def copyd(ex, st):
        r, a = ptrs(ex, st, RDI, RSI)
        n = count(ex, st, RDX)
        for i in range(n - 1, -1, -1):
            st.mem.store(r + 8 * i, limb(st, a, i), 8)
        fin(ex, st, None)

    def shift(left):
        def h(ex, st):
            r, a = ptrs(ex, st, RDI, RSI)
            n = count(ex, st, RDX)
            c = ex.rr(st, RCX, 32)
            c = zext(c, 32, 64)
            if isinstance(c, int):
                if not 1 <= c <= 63:
                    raise Violation("mpn shift by %d (must be 1..63)" % c)
            elif ex.bs.feasible(st.path, z3.Or(c == 0, z3.UGT(c, 63))):
                raise Violation("mpn shift count outside 1..63", st, z3.Or(c == 0, z3.UGT(c, 63)))
            xs = [limb(st, a, i) for i in range(n)]
            from .x86 import shift_val
            neg = 64 - c
            out = []
            for i in range(n):
                if left:
                    hi = shift_val("shl", xs[i], c, 64)
                    lo = shift_val("shr", xs[i - 1], neg, 64) if i else 0
                    out.append(ex.logic(st, "or", hi, lo, 64))
                else:
                    lo = shift_val("shr", xs[i], c, 64)
                    hi = shift_val("shl", xs[i + 1], neg, 64) if i + 1 < n else 0
                    out.append(ex.logic(st, "or", hi, lo, 64))
            rv = shift_val("shr", xs[n - 1], neg, 64) if left else shift_val("shl", xs[0], neg, 64)
            for i in range(n):
                st.mem.store(r + 8 * i, out[i], 8)
            fin(ex, st, rv)
        return h

    def bitop(op):
        def h(ex, st):
            r, a, b = ptrs(ex, st, RDI, RSI, RDX)
            n = count(ex, st, RCX)
            for i in range(n):
                st.mem.store(r + 8 * i, ex.logic(st, op, limb(st, a, i), limb(st, b, i), 64), 8)
            fin(ex, st, None)
        return h

    def com(ex, st):
        r, a = ptrs(ex, st, RDI, RSI)
        n = count(ex, st, RDX)
        for i in range(n):
            x = limb(st, a, i)
            st.mem.store(r + 8 * i, x ^ M64 if isinstance(x, int) else ~x, 8)
        fin(ex, st, None)

    h = {
        "__gmpn_add_n": chain("add", False), "__gmpn_sub_n": chain("sub", False),
        "__gmpn_add_1": chain("add", True), "__gmpn_sub_1": chain("sub", True),
        "__gmpn_add": addv("add"), "__gmpn_sub": addv("sub"),
        "__gmpn_mul_1": mul1("mul"), "__gmpn_addmul_1": mul1("addmul"), "__gmpn_submul_1": mul1("submul"),
        "__gmpn_cmp": cmp, "__gmpn_zero_p": zero_p, "__gmpn_copyi": copyi, "__gmpn_copyd": copyd,
        "__gmpn_lshift": shift(True), "__gmpn_rshift": shift(False), "__gmpn_and_n": bitop("and"),
        "__gmpn_ior_n": bitop("or"), "__gmpn_xor_n": bitop("xor"), "__gmpn_com": com,
    }
    h.update(libc_hooks())
    return h


def libc_hooks():
    def conc(ex, st, r, key):
        v = st.regs[r]
        if not isinstance(v, int):
            v = ex.fork_values(st, v, key + str(r), what="length or pointer")
            st.regs[r] = v
        return v

    def memcpy(ex, st):
        d, s, n = conc(ex, st, RDI, "p"), conc(ex, st, RSI, "p"), conc(ex, st, RDX, "n")
        if n > 1 << 20:
            raise Violation("memcpy of %d bytes" % n)
        if n:
            st.mem.check(s, n, False)
            st.mem.check(d, n, True)
        i = 0
        while i < n:
            k = 8 if n - i >= 8 and not (s + i) & 7 and not (d + i) & 7 else 1
            vals = st.mem.load(s + i, k)
            st.mem.store(d + i, vals, k)
            i += k
        st.regs[RAX] = d
        st.pc = ex.pop(st)

    def memmove(ex, st):
        d, s, n = conc(ex, st, RDI, "p"), conc(ex, st, RSI, "p"), conc(ex, st, RDX, "n")
        if n > 1 << 20:
            raise Violation("memmove of %d bytes" % n)
        k = 8 if not (s | d | n) & 7 else 1
        vals = [st.mem.load(s + i, k) for i in range(0, n, k)]
        for i, v in zip(range(0, n, k), vals):
            st.mem.store(d + i, v, k)
        st.regs[RAX] = d
        st.pc = ex.pop(st)

    def memcmp(ex, st):
        a, b, n = conc(ex, st, RDI, "p"), conc(ex, st, RSI, "p"), conc(ex, st, RDX, "n")
        if n == 0:
            st.regs[RAX] = 0
        else:
            X = concat([(st.mem.load(a + i, 1), 8) for i in range(n)])
            Y = concat([(st.mem.load(b + i, 1), 8) for i in range(n)])
            if isinstance(X, int) and isinstance(Y, int):
                st.regs[RAX] = 0 if X == Y else M64 if X < Y else 1
            else:
                X, Y = bv(X, 8 * n), bv(Y, 8 * n)
                st.regs[RAX] = z3.If(X == Y, z3.BitVecVal(0, 64),
                                     z3.If(z3.ULT(X, Y), z3.BitVecVal(M64, 64), z3.BitVecVal(1, 64)))
        st.pc = ex.pop(st)

    def memset(ex, st):
        d, n = conc(ex, st, RDI, "p"), conc(ex, st, RDX, "n")
        c = ex.rr(st, RSI, 8)
        if n > 1 << 20:
            raise Violation("memset of %d bytes" % n)
        if n:
            st.mem.check(d, n, True)
        i = 0
        while i < n:
            if isinstance(c, int) and n - i >= 8 and not (d + i) & 7:
                st.mem.store(d + i, c * 0x0101010101010101, 8)
                i += 8
            else:
                st.mem.store(d + i, c, 1)
                i += 1
        st.regs[RAX] = d
        st.pc = ex.pop(st)

    return {"memcpy": memcpy, "memmove": memmove, "memset": memset, "memcmp": memcmp, "bcmp": memcmp}
