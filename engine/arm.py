"""AArch64 front end: the assembled routines are disassembled and every instruction is re-expressed as an x86-64 sequence over a
register file in memory, which the x86-64 encoder (and, for replay, the processor) then executes.

The register file holds X0..X30 and SP.  The carry flag lives in CF with the polarity its last writer gives it (AArch64's carry after
a subtraction is the complement of a borrow); a data-flow pass works the polarity out statically.  x86 instructions that leave the
flags alone are chosen wherever the AArch64 flags are live."""
import re
from . import build
from .build import sh, BuildError
from .terms import Unsupported

CALLEE = [19, 20, 21, 22, 23, 24]          # carried in the x86 callee-saved registers, in this order
HOST = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
CONST = [25, 26, 27, 28, 29, 30]           # checked against a constant on return
MAGIC = 0x5a5a00000000000

ADDF = "add"
SUBF = "sub"

CC = {  # AArch64 condition -> (x86 after add-like, x86 after sub-like); None: needs no carry
    "eq": ("e", "e"), "ne": ("ne", "ne"), "mi": ("s", "s"), "pl": ("ns", "ns"), "vs": ("o", "o"), "vc": ("no", "no"),
    "ge": ("ge", "ge"), "lt": ("l", "l"), "gt": ("g", "g"), "le": ("le", "le"),
    "cs": ("c", "nc"), "hs": ("c", "nc"), "cc": ("nc", "c"), "lo": ("nc", "c"),
    "hi": (None, "a"), "ls": (None, "be"), "al": (None, None),
}
INV = {"eq": "ne", "ne": "eq", "mi": "pl", "pl": "mi", "vs": "vc", "vc": "vs", "ge": "lt", "lt": "ge", "gt": "le", "le": "gt",
       "cs": "cc", "hs": "lo", "cc": "cs", "lo": "hs", "hi": "ls", "ls": "hi"}


class I:
    __slots__ = ("off", "mn", "ops", "pol", "live", "succ")


def parse(obj):
    """(instructions by offset, data words, relocations, symbols)"""
    ins, data, rel = {}, {}, {}
    order = []
    for l in sh(["llvm-objdump", "-d", "-r", "--no-show-raw-insn", "--no-print-imm-hex", obj]).splitlines():
        m = re.match(r"\s*([0-9a-f]+):\s+R_AARCH64_(\w+)\s+(\S+)", l)
        if m:
            if m.group(2) != "ABS64":
                raise Unsupported("relocation %s" % m.group(2))
            t = re.match(r"\.text(?:\+0x([0-9a-f]+))?$", m.group(3))
            rel[int(m.group(1), 16)] = int(t.group(1) or "0", 16) if t else m.group(3)
            continue
        m = re.match(r"\s*([0-9a-f]+):\s+(?:(?:[0-9a-f]{2} )+\s*)?(\S.*)$", l)
        if not m:
            continue
        off = int(m.group(1), 16)
        t = m.group(2).split("//")[0].strip()
        p = t.split(None, 1)
        if p[0].startswith("."):
            w = {".word": 4, ".byte": 1, ".short": 2, ".xword": 8}.get(p[0])
            if w is None:
                raise Unsupported("data directive %s" % t)
            data[off] = (w, int(p[1].split()[0], 16))
            continue
        i = I()
        i.off, i.mn = off, p[0]
        s = re.sub(r"<[^>]*>", "", p[1]) if len(p) > 1 else ""
        i.ops = [x.strip() for x in re.split(r",(?![^\[]*\])", s)] if s.strip() else []
        ins[off] = i
        order.append(off)
    sym = {}
    for l in sh(["llvm-objdump", "-t", obj]).splitlines():
        m = re.match(r"([0-9a-f]{16}) (.)[^\t]*\.text\t[0-9a-f]+ (?:\.hidden )?(\S+)$", l)
        if m and not m.group(3).startswith("$") and m.group(3) != ".text":
            sym[m.group(3)] = (int(m.group(1), 16), m.group(2) == "g")
    return order, ins, data, rel, sym


SETS = {"adds": ADDF, "adcs": ADDF, "cmn": ADDF, "ands": ADDF, "tst": ADDF, "bics": ADDF, "subs": SUBF, "sbcs": SUBF, "cmp": SUBF,
        "negs": SUBF, "ngcs": SUBF}
USES = {"adc", "adcs", "sbc", "sbcs", "ngc", "ngcs", "csel", "csinc", "csinv", "csneg", "cset", "csetm", "cinc", "cinv", "cneg", "ccmp", "ccmn"}


def tgt(i):
    return int(i.ops[-1], 16) if i.ops else None


def analyse(order, ins):
    pos = {o: k for k, o in enumerate(order)}
    for k, o in enumerate(order):
        i = ins[o]
        nxt = [o + 4] if o + 4 in ins else []
        if i.mn == "b":
            i.succ = [tgt(i)]
        elif i.mn.startswith("b.") or i.mn in ("cbz", "cbnz", "tbz", "tbnz"):
            i.succ = nxt + [tgt(i)]
        elif i.mn in ("ret", "br"):
            i.succ = []
        else:
            i.succ = nxt
        i.pol = None
        i.live = False
    # polarity on entry to each instruction
    entry = {o: set() for o in order}
    work = list(order)
    while work:
        o = work.pop()
        i = ins[o]
        out = {SETS[i.mn]} if i.mn in SETS else entry[o]
        for s in i.succ:
            if s not in entry:
                raise Unsupported("branch to %#x, which is not code" % s)
            if not out <= entry[s]:
                entry[s] |= out
                work.append(s)
    # flags live after each instruction
    livein = {o: False for o in order}
    ch = True
    while ch:
        ch = False
        for o in reversed(order):
            i = ins[o]
            out = any(livein[s] for s in i.succ)
            i.live = out
            v = i.mn in USES or i.mn.startswith("b.") or (out and i.mn not in SETS)
            if v != livein[o]:
                livein[o] = v
                ch = True
    for o in order:
        i = ins[o]
        i.pol = entry[o]


class Tr:
    def __init__(self, order, ins, data, rel, sym):
        self.order, self.ins, self.data, self.rel, self.sym = order, ins, data, rel, sym
        self.out = []

    def e(self, s):
        self.out.append("        " + s)

    # ---- operands
    def slot(self, r):
        return "[regs + %d]" % (8 * (31 if r == "sp" else int(r[1:])))

    def get(self, d, r, w=None):
        """load register r into host register d (64 bit); flags untouched"""
        if r in ("xzr", "wzr"):
            self.e("mov %s, 0" % d)
        elif r == "sp" or re.match(r"x\d+$", r):
            self.e("mov %s, %s" % (d, self.slot(r)))
        elif re.match(r"w\d+$", r):
            self.e("mov %s, dword %s" % (D32[d], self.slot(r)))
        else:
            raise Unsupported("operand %s" % r)

    def put(self, r, s):
        if r in ("xzr", "wzr"):
            return
        if r[0] == "w":
            self.e("mov %s, %s" % (D32[s], D32[s]))
        self.e("mov %s, %s" % (self.slot(r), s))

    def imm(self, s):
        m = re.match(r"#(-?(?:0x)?[0-9a-fA-F]+)$", s)
        return None if not m else int(m.group(1), 0)

    def src(self, d, ops, wide=True):
        """second source operand (register, shifted register or immediate) into d, flags untouched"""
        v = self.imm(ops[0])
        if v is not None:
            if len(ops) > 1:
                m = re.match(r"lsl #(\d+)$", ops[1])
                v <<= int(m.group(1))
            self.e("mov %s, %d" % (d, v))
            return
        self.get(d, ops[0])
        if len(ops) > 1:
            m = re.match(r"(lsl|lsr|asr|ror) #(\d+)$", ops[1])
            if not m or ops[0][0] == "w":
                raise Unsupported("operand modifier %s" % ops[1])
            self.shift(m.group(1), d, int(m.group(2)))

    def shift(self, op, d, n):
        if op == "ror":
            self.e("rorx %s, %s, %d" % (d, d, n))
        else:
            self.e("mov rdi, %d" % n)
            self.e("%s %s, %s, rdi" % ({"lsl": "shlx", "lsr": "shrx", "asr": "sarx"}[op], d, d))

    def addr(self, s, d="rsi"):
        """address operand -> (host address in d, writeback amount or None, base)"""
        m = re.match(r"\[(x\d+|sp)(?:, (.*))?\](!)?$", s)
        if not m:
            raise Unsupported("address %s" % s)
        self.get(d, m.group(1))
        if m.group(2):
            v = self.imm(m.group(2))
            if v is not None:
                self.e("lea %s, [%s + %d]" % (d, d, v))
            else:
                p = [x.strip() for x in m.group(2).split(",")]
                self.get("rdx", p[0])
                if len(p) > 1:
                    k = re.match(r"(lsl|uxtw|sxtw)(?: #(\d+))?$", p[1])
                    if not k or k.group(1) == "sxtw":
                        raise Unsupported("address %s" % s)
                    sh_ = int(k.group(2) or 0)
                    self.e("lea %s, [%s + rdx*%d]" % (d, d, 1 << sh_))
                else:
                    self.e("lea %s, [%s + rdx]" % (d, d))
        if m.group(3):
            self.put(m.group(1), d)
        return m.group(1)

    def post(self, i, base, n):
        """post-index writeback"""
        if len(i.ops) > n:
            v = self.imm(i.ops[n])
            self.get("rsi", base)
            self.e("lea rsi, [rsi + %d]" % v)
            self.put(base, "rsi")

    def cc(self, i, c):
        if not i.pol:
            raise Unsupported("flags used before they are set at %#x" % i.off)
        if CC[c][0] == CC[c][1]:
            return CC[c][0]
        if len(i.pol) != 1:
            raise Unsupported("carry of unknown polarity at %#x" % i.off)
        r = CC[c][0 if ADDF in i.pol else 1]
        if r is None:
            raise Unsupported("condition %s at %#x" % (c, i.off))
        return r

    def carry_as(self, i, want):
        """make CF follow the wanted polarity"""
        if len(i.pol) != 1:
            raise Unsupported("carry of unknown polarity at %#x" % i.off)
        if want not in i.pol:
            self.e("cmc")

    def dead(self, i):
        """this translation clobbers the flags"""
        if i.live:
            raise Unsupported("%s at %#x while the flags are live" % (i.mn, i.off))

    def code(self, off):
        return "L_%x" % off

    def target(self, off):
        if off in self.ins:
            return self.code(off)
        if off in self.data:
            return "D_%x" % off
        raise Unsupported("address %#x" % off)

    def one(self, i):
        m, o = i.mn, i.ops
        e = self.e
        if m in ("nop", "bti", "paciasp", "autiasp"):
            return
        if m == "ret":
            if o and o[0] != "x30":
                raise Unsupported("ret %s" % o[0])
            e("jmp epilogue")
        elif m == "b":
            e("jmp " + self.target(tgt(i)))
        elif m.startswith("b."):
            e("j%s %s" % (self.cc(i, m[2:]), self.target(tgt(i))))
        elif m in ("cbz", "cbnz"):
            if not i.live:
                self.get("rax", o[0])
                e("test rax, rax")
                e("%s %s" % ("jz" if m == "cbz" else "jnz", self.target(tgt(i))))
            else:
                self.get("rcx", o[0])
                e("jrcxz Z_%x" % i.off)
                e("jmp %s" % ("N_%x" % i.off if m == "cbz" else self.target(tgt(i))))
                self.out.append("Z_%x:" % i.off)
                if m == "cbz":
                    e("jmp " + self.target(tgt(i)))
                self.out.append("N_%x:" % i.off)
        elif m in ("tbz", "tbnz"):
            self.dead(i)
            self.get("rax", o[0])
            e("bt rax, %d" % self.imm(o[1]))
            e("%s %s" % ("jnc" if m == "tbz" else "jc", self.target(tgt(i))))
        elif m == "br":
            self.get("rax", o[0])
            e("jmp rax")
        elif m == "adr":
            e("mov rax, %s" % self.target(int(o[1], 16)))
            self.put(o[0], "rax")
        elif m in ("ldr", "ldur"):
            b = self.addr(o[1])
            if o[0][0] == "w":
                e("mov eax, dword [rsi]")
            else:
                e("mov rax, [rsi]")
            self.post(i, b, 2)
            self.put(o[0], "rax")
        elif m in ("str", "stur"):
            self.get("rax", o[0])
            b = self.addr(o[1])
            e("mov [rsi], %s" % ("eax" if o[0][0] == "w" else "rax"))
            self.post(i, b, 2)
        elif m in ("ldp", "stp"):
            if o[0][0] == "w":
                raise Unsupported("32-bit pair")
            if m == "stp":
                self.get("rax", o[0])
                self.get("rcx", o[1])
            b = self.addr(o[2])
            if m == "ldp":
                e("mov rax, [rsi]")
                e("mov rcx, [rsi + 8]")
            else:
                e("mov [rsi], rax")
                e("mov [rsi + 8], rcx")
            self.post(i, b, 3)
            if m == "ldp":
                self.put(o[0], "rax")
                self.put(o[1], "rcx")
        elif m == "mov":
            self.src("rax", o[1:])
            self.put(o[0], "rax")
        elif m in ("movz", "movn"):
            v = self.imm(o[1]) << (int(o[2].split("#")[1]) if len(o) > 2 else 0)
            e("mov rax, %d" % (v if m == "movz" else ~v & (1 << 64) - 1))
            self.put(o[0], "rax")
        elif m == "movk":
            self.dead(i)
            s = int(o[2].split("#")[1]) if len(o) > 2 else 0
            self.get("rax", o[0])
            e("mov rcx, %d" % (~(0xffff << s) & (1 << 64) - 1))
            e("and rax, rcx")
            e("mov rcx, %d" % (self.imm(o[1]) << s))
            e("or rax, rcx")
            self.put(o[0], "rax")
        elif m in ("mvn", "neg", "negs"):
            self.src("rcx", o[1:])
            if m == "mvn":
                e("not rcx")
                self.put(o[0], "rcx")
            elif m == "neg":
                e("not rcx")
                e("lea rax, [rcx + 1]")
                self.put(o[0], "rax")
            else:
                e("mov rax, 0")
                e("sub rax, rcx")
                self.put(o[0], "rax")
        elif m in ("adds", "subs", "cmp", "cmn", "add", "sub"):
            if m in ("cmp", "cmn"):
                o = ["xzr"] + o
            if o[0][0] == "w" or o[1][0] == "w":
                raise Unsupported("32-bit %s" % m)
            k = self.imm(o[2])
            if m in ("add", "sub") and k is not None and len(o) == 3:
                self.get("rax", o[1])
                e("lea rax, [rax + %d]" % (k if m == "add" else -k))
                self.put(o[0], "rax")
                return
            self.src("rcx", o[2:])
            self.get("rax", o[1])
            if m == "add":
                e("lea rax, [rax + rcx]")
            elif m == "sub":
                if not i.live:
                    e("sub rax, rcx")
                else:
                    e("not rcx")
                    e("lea rax, [rax + rcx + 1]")
            else:
                e("%s rax, rcx" % ("add" if m in ("adds", "cmn") else "sub"))
            self.put(o[0], "rax")
        elif m in ("adc", "adcs", "sbc", "sbcs", "ngc", "ngcs"):
            if m in ("ngc", "ngcs"):
                o = [o[0], "xzr", o[1]]
            if o[0][0] == "w" and o[0] != "wzr":
                raise Unsupported("32-bit %s" % m)
            self.get("rax", o[1])
            self.get("rcx", o[2])
            sub = m[0] in "sn"
            if not m.endswith("s") and i.live:
                raise Unsupported("%s while the flags are live" % m)
            self.carry_as(i, SUBF if sub else ADDF)
            e("%s rax, rcx" % ("sbb" if sub else "adc"))
            self.put(o[0], "rax")
        elif m in ("mul", "umulh", "madd"):
            self.get("rdx", o[1])
            self.get("rcx", o[2])
            e("mulx rcx, rax, rdx" if o[1] == o[2] else "mulx rcx, rax, rcx")
            if m == "madd":
                self.get("rdx", o[3])
                e("lea rax, [rax + rdx]")
            self.put(o[0], "rcx" if m == "umulh" else "rax")
        elif m in ("and", "orr", "eor", "bic", "orn", "eon", "ands", "tst", "bics"):
            if m == "tst":
                o = ["xzr"] + o
            if o[0][0] == "w" or o[1][0] == "w":
                raise Unsupported("32-bit %s" % m)
            if m not in ("ands", "tst", "bics"):
                self.dead(i)
            self.src("rcx", o[2:])
            self.get("rax", o[1])
            if m in ("bic", "orn", "eon", "bics"):
                e("not rcx")
            e("%s rax, rcx" % {"and": "and", "ands": "and", "tst": "and", "bic": "and", "bics": "and", "orr": "or", "orn": "or",
                               "eor": "xor", "eon": "xor"}[m])
            self.put(o[0], "rax")
        elif m in ("lsl", "lsr", "asr", "ror"):
            if o[0][0] == "w":
                raise Unsupported("32-bit shift")
            k = self.imm(o[2])
            self.get("rax", o[1])
            if k is not None:
                self.shift(m, "rax", k)
            else:
                if m == "ror":
                    raise Unsupported("ror by a register")
                self.get("rdi", o[2])
                e("%s rax, rax, rdi" % {"lsl": "shlx", "lsr": "shrx", "asr": "sarx"}[m])
            self.put(o[0], "rax")
        elif m == "extr":
            k = self.imm(o[3])
            self.dead(i)
            self.get("rax", o[1])
            self.get("rcx", o[2])
            if k:
                e("shrd rcx, rax, %d" % k)
            self.put(o[0], "rcx")
        elif m in ("csel", "csinc", "csinv", "csneg"):
            self.get("rax", o[2])
            if m == "csinc":
                e("lea rax, [rax + 1]")
            elif m in ("csinv", "csneg"):
                e("not rax")
                if m == "csneg":
                    e("lea rax, [rax + 1]")
            self.get("rcx", o[1])
            e("cmov%s rax, rcx" % self.cc(i, o[3]))
            self.put(o[0], "rax")
        elif m in ("cset", "csetm"):
            e("mov rax, 0")
            e("mov rcx, %d" % (1 if m == "cset" else -1))
            e("cmov%s rax, rcx" % self.cc(i, o[1]))
            self.put(o[0], "rax")
        elif m in ("cinc", "cinv", "cneg"):
            self.get("rax", o[1])
            if m == "cinc":
                e("lea rcx, [rax + 1]")
            else:
                e("mov rcx, rax")
                e("not rcx")
                if m == "cneg":
                    e("lea rcx, [rcx + 1]")
            e("cmov%s rax, rcx" % self.cc(i, o[2]))
            self.put(o[0], "rax")
        else:
            raise Unsupported("AArch64 instruction %s" % m)

    def emit(self):
        w = self.out
        w.append("        default rel" if False else "        bits 64")
        w.append("        section .text")
        g = sorted((a, n) for n, (a, gl) in self.sym.items() if gl and a in self.ins and not n.startswith("_"))
        for a, n in g:
            w.append("        global %s" % n)
            w.append("%s:" % n)
            for k, h in zip(CALLEE, HOST):
                self.e("mov [regs + %d], %s" % (8 * k, h))
            for k in CONST:
                self.e("mov rax, %d" % (MAGIC + k))
                self.e("mov [regs + %d], rax" % (8 * k))
            for k, h in enumerate(("rdi", "rsi", "rdx", "rcx", "r8", "r9")):
                self.e("mov [regs + %d], %s" % (8 * k, h))
            self.e("lea rax, [rsp - 8]")
            self.e("mov [regs + 248], rax")
            self.e("sub rsp, 4096")
            self.e("jmp L_%x" % a)
        w.append("epilogue:")
        for k, h in zip(CALLEE, HOST):
            self.e("mov %s, [regs + %d]" % (h, 8 * k))
        self.e("add rsp, 4096")
        bad = []
        for k in CONST:
            self.e("mov rax, %d" % (MAGIC + k))
            self.e("cmp rax, [regs + %d]" % (8 * k))
            self.e("jne clobbered")
        self.e("lea rax, [rsp - 8]")
        self.e("cmp rax, [regs + 248]")
        self.e("jne clobbered")
        self.e("mov rax, [regs]")
        self.e("ret")
        w.append("clobbered:")
        self.e("not rbx")
        self.e("mov rax, [regs]")
        self.e("ret")
        for o in self.order:
            w.append("L_%x:" % o)
            self.one(self.ins[o])
            i = self.ins[o]
            if i.mn not in ("b", "ret", "br") and o + 4 not in self.ins:
                self.e("ud2")
        w.append("        section .rodata align=16")
        last = None
        for o in sorted(self.data):
            if o != last:
                w.append("        align 16, db 0")
            wd, v = self.data[o]
            w.append("D_%x:" % o)
            if o in self.rel:
                t = self.rel[o]
                w.append("        dq %s" % (self.target(t) if isinstance(t, int) else self.target(self.sym[t][0])))
            elif o - 4 in self.rel and wd == 4:
                pass
            else:
                w.append("        %s %d" % ({1: "db", 2: "dw", 4: "dd", 8: "dq"}[wd], v))
            last = o + wd
        w.append("        section .bss align=4096")
        w.append("        global regs")
        w.append("regs:   resq 512")
        return "\n".join(w) + "\n"


D32 = {"rax": "eax", "rcx": "ecx", "rdx": "edx", "rsi": "esi", "rdi": "edi"}


def translate(src, out_asm):
    o = out_asm + ".arm.o"
    sh(["clang", "--target=aarch64-linux-gnu", "-c", src, "-o", o])
    order, ins, data, rel, sym = parse(o)
    analyse(order, ins)
    t = Tr(order, ins, data, rel, sym)
    open(out_asm, "w").write(t.emit())
