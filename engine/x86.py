"""Symbolic executor for x86-64 object code (disassembled by objdump from the freshly built binary)."""
import re
import subprocess
import struct
import time
from .terms import *
from .core import *

R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
REG = {}
for _i, _n in enumerate(R64):
    REG[_n] = (_i, 64, 0)
for _i, _n in enumerate(["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"] + ["r%dd" % i for i in range(8, 16)]):
    REG[_n] = (_i, 32, 0)
for _i, _n in enumerate(["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"] + ["r%dw" % i for i in range(8, 16)]):
    REG[_n] = (_i, 16, 0)
for _i, _n in enumerate(["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"] + ["r%db" % i for i in range(8, 16)]):
    REG[_n] = (_i, 8, 0)
for _i, _n in enumerate(["ah", "ch", "dh", "bh"]):
    REG[_n] = (_i, 8, 8)
RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI = range(8)
SZ = {"BYTE": 8, "WORD": 16, "DWORD": 32, "QWORD": 64, "XMMWORD": 128}
CALLEE_SAVED = [RBX, RBP, 12, 13, 14, 15]


class Insn:
    __slots__ = ("addr", "mn", "ops", "next", "text", "h", "pre")


class Program:
    """An ELF image plus its disassembly."""

    def __init__(self, path):
        self.path = path
        self.sym = {}
        self.symsize = {}
        self.insn = {}
        self.lines = {}
        self.rodata = {}
        data = open(path, "rb").read()
        self._load(data)
        self._disasm(path)
        out = subprocess.run(["nm", "-S", path], capture_output=True, text=True).stdout
        for l in out.splitlines():
            p = l.split()
            if len(p) == 4:
                self.sym.setdefault(p[3], int(p[0], 16))
                self.symsize[p[3]] = int(p[1], 16)
            elif len(p) == 3 and p[1] != "U":
                self.sym.setdefault(p[2], int(p[0], 16))
        self.dem = None

    def _load(self, data):
        assert data[:4] == b"\x7fELF"
        shoff, = struct.unpack_from("<Q", data, 0x28)
        shentsize, shnum, shstr = struct.unpack_from("<HHH", data, 0x3A)
        self.segs = []
        names = None
        secs = []
        for i in range(shnum):
            nm, ty, fl, ad, off, sz = struct.unpack_from("<IIQQQQ", data, shoff + i * shentsize)
            secs.append((nm, ty, fl, ad, off, sz))
        stroff = secs[shstr][4]
        for nm, ty, fl, ad, off, sz in secs:
            if not fl & 2 or sz == 0:
                continue
            e = data.index(b"\0", stroff + nm)
            name = data[stroff + nm:e].decode()
            if fl & 0x400:      # TLS
                continue
            b = bytes(sz) if ty == 8 else data[off:off + sz]
            self.segs.append((ad, ad + sz, name, bool(fl & 1), b))
        self.segs.sort(key=lambda s: s[0])

    def _disasm(self, path):
        out = subprocess.run(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", path],
                             capture_output=True, text=True).stdout
        prev = None
        for l in out.splitlines():
            if not l.startswith(" "):
                if l.startswith("Disassembly"):
                    prev = None
                continue
            i = l.find(":")
            if i < 0:
                continue
            try:
                a = int(l[:i], 16)
            except ValueError:
                continue
            if prev is not None:
                self.lines[prev] = (self.lines[prev], a)
            self.lines[a] = l[i + 1:].strip()
            prev = a

    def find_syms(self, pat):
        """regex over demangled names -> [(demangled, addr)]"""
        if self.dem is None:
            names = list(self.sym)
            out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.splitlines()
            self.dem = list(zip(out, names))
        r = re.compile(pat)
        return [(d, self.sym[n]) for d, n in self.dem if r.search(d)]

    def base_word(self, a):
        for lo, hi, name, wr, b in self.segs:
            if lo - 7 <= a < hi:
                if a >= lo and a + 8 <= hi:
                    return int.from_bytes(b[a - lo:a - lo + 8], "little")
                v = 0
                for i in range(8):
                    for lo2, hi2, _, _, b2 in self.segs:
                        if lo2 <= a + i < hi2:
                            v |= b2[a + i - lo2] << (8 * i)
                return v
        return None

    def new_state(self):
        st = State()
        st.mem = Memory(self.base_word)
        for lo, hi, name, wr, b in self.segs:
            st.mem.add_region(lo, hi, name, wr)
        st.mem.add_region(STACK_TOP - STACK_SIZE, STACK_TOP, "stack", True)
        st.regs[RSP] = STACK_TOP - 4096
        return st

    def get(self, a):
        i = self.insn.get(a)
        if i is None:
            if a not in self.lines:
                raise Violation("jump to a non-code address %s" % (hex(a) if isinstance(a, int) else a))
            i = self._parse(a)
            self.insn[a] = i
        return i

    def _parse(self, a):
        l = self.lines[a]
        nxt = None
        if type(l) is tuple:
            l, nxt = l
        text = l
        pre = None
        cm = l.find("#")
        rip = None
        if cm >= 0:
            m = re.match(r"\s*([0-9a-f]+)", l[cm + 1:])
            if m:
                rip = int(m.group(1), 16)
            l = l[:cm].strip()
        l = re.sub(r"\s*<[^>]*>\s*$", "", l)
        p = l.split(None, 1)
        while p and p[0] in ("rep", "repz", "repnz", "lock", "bnd", "notrack", "data16", "cs", "ds", "rex.W", "repne", "repe", "addr32", "es", "ss"):
            if p[0] not in ("bnd", "notrack", "data16", "cs", "ds", "rex.W", "lock", "es", "ss"):
                pre = p[0]
            p = p[1].split(None, 1) if len(p) > 1 else ["nop"]
        ins = Insn()
        ins.addr = a
        ins.mn = p[0]
        ins.text = text
        ins.next = nxt
        ins.pre = pre
        ops = []
        if len(p) > 1:
            s = p[1]
            depth = 0
            cur = ""
            toks = []
            for ch in s:
                if ch == "," and depth == 0:
                    toks.append(cur)
                    cur = ""
                    continue
                if ch == "[":
                    depth += 1
                elif ch == "]":
                    depth -= 1
                cur += ch
            toks.append(cur)
            ops = [self._operand(t.strip(), rip, ins.mn) for t in toks]
        ins.ops = ops
        ins.h = HAND.get(ins.mn)
        return ins

    def _operand(self, t, rip, mn):
        if t in REG:
            i, w, sh = REG[t]
            return ("r", i, w, sh)
        if t.startswith("xmm") and t[3:].isdigit():
            return ("x", int(t[3:]), 128)
        m = re.match(r"(?:(BYTE|WORD|DWORD|QWORD|XMMWORD) PTR )?(?:([a-z]s):)?(?:\[(.*)\]|(0x[0-9a-f]+))$", t)
        if m and (m.group(1) or m.group(3) is not None or m.group(2)):
            w = SZ[m.group(1)] if m.group(1) else None
            if m.group(2) in ("fs", "gs"):
                return ("tls", m.group(2), t, w)
            if m.group(3) is None:
                return ("m", None, None, 1, int(m.group(4), 16), w)
            if "rip" in m.group(3):
                return ("m", None, None, 1, rip, w)
            base = idx = None
            sc = 1
            disp = 0
            for sg, part in re.findall(r"([+-]?)([^+-]+)", m.group(3)):
                if "*" in part:
                    r, s_ = part.split("*")
                    if r in ("riz", "eiz"):
                        continue
                    idx = REG[r][0]
                    sc = int(s_)
                elif part in REG:
                    if base is None:
                        base = REG[part][0]
                    else:
                        idx = REG[part][0]
                else:
                    v = int(part, 16)
                    disp += -v if sg == "-" else v
            return ("m", base, idx, sc, disp, w)
        if re.match(r"^-?(0x)?[0-9a-f]+$", t):
            v = int(t, 16)
            return ("i", v)
        return ("?", t)


class Executor:
    def __init__(self, prog, hooks=None, assumptions=(), max_steps=400000, max_paths=20000,
                 branch_timeout=20000, deadline=None):
        self.p = prog
        self.hooks = {}
        for k, v in (hooks or {}).items():
            self.hook(k, v)
        self.bs = BranchSolver(branch_timeout, assumptions)
        self.assumptions = list(assumptions)
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.seen = set()
        self.nv = 0
        self.work = []
        self.cur = None
        self.total_steps = 0
        self.int_settle = None
        self.chains = {}

    def hook(self, k, v):
        if isinstance(k, int):
            self.hooks[k] = v
        elif k in self.p.sym:
            self.hooks[self.p.sym[k]] = v

    # ---- fresh names -------------------------------------------------
    def fresh_int(self, st, pfx, lo=0, hi=M64):
        self.nv += 1
        v = "%s_%d" % (pfx, self.nv)
        st.bounds[v] = (lo, hi)
        return v

    def define(self, st, kind, main, aux, lin):
        """record lin == 0, which defines main (low word / sum) and aux (carry / high word)"""
        st.defs.append((kind, main, aux, lin))

    # ---- feasibility / forking ----------------------------------------
    def decide(self, st, c):
        """c: bool or BoolRef.  Returns a Python bool, forking when both are possible."""
        c = simp_bool(c)
        if isinstance(c, bool):
            return c
        if isinstance(c, LC):
            # integer domain: both sides are kept, the obligations carry the path condition
            if self.int_settle is not None:
                k = self.int_settle(st, c)
                if k is not None:
                    return k
            o = st.copy()
            o.path.append(c.neg())
            o.pc = ("branch", False)
            st.path.append(c)
            return (st, o)
        nc = z3.Not(c)
        cons = st.path
        t = self.bs.feasible(cons, c)
        if not t:
            st.path.append(nc)
            return False
        f = self.bs.feasible(cons, nc)
        if not f:
            st.path.append(c)
            return True
        o = st.copy()
        o.path.append(nc)
        o.pc = ("branch", False)
        st.path.append(c)
        return (st, o)

    def concretize(self, st, v, w=64, limit=300, what="value"):
        """Enumerate the feasible values of v (solver driven)."""
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return [v.as_long()]
        self.bs.sync(st.path)
        s = self.bs.s
        s.push()
        out = []
        t = time.time()
        while True:
            r = s.check()
            if r == z3.unsat:
                break
            if r == z3.unknown:
                s.pop()
                raise Unsupported("solver gave up enumerating a symbolic %s" % what)
            x = s.model().eval(v, model_completion=True).as_long()
            out.append(x)
            s.add(v != x)
            if len(out) > limit:
                s.pop()
                raise Unsupported("symbolic %s with more than %d values" % (what, limit))
        s.pop()
        STATS.add("enumerate", time.time() - t)
        return sorted(out)

    def fork_values(self, st, v, key="fv", w=64, limit=300, what="value"):
        """Fork so that v is concrete (the instruction or hook at st.pc is re-run in each fork)."""
        key = "__fv_" + key
        if key in st.user:
            return st.user.pop(key)
        if isinstance(v, int):
            return v
        if isinstance(v, IV):
            raise Unsupported("integer-domain value used as %s" % what)
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        vals = self.concretize(st, v, w, limit, what)
        if not vals:
            raise PathEnd("infeasible")
        for x in vals[1:]:
            o = st.copy()
            o.path.append(v == x)
            o.user[key] = x
            self.work.append(o)
        st.path.append(v == vals[0])
        return vals[0]

    # ---- registers -----------------------------------------------------
    def rr(self, st, i, w, sh=0):
        v = st.regs[i]
        if type(v) is Part:
            if sh + w <= v.w:
                return extract(v.v, sh + w - 1, sh, v.w)
            raise Unsupported("use of a partly overwritten integer-domain register")
        if w == 64:
            return v
        return extract(v, sh + w - 1, sh, 64)

    def wr(self, st, i, w, sh, v):
        if not isinstance(v, (int, IV)) and z3.is_bv_value(v):
            v = v.as_long()
        if w == 64:
            st.regs[i] = v
        elif w == 32:
            st.regs[i] = zext(v, 32, 64) if not isinstance(v, IV) else v
        else:
            old = st.regs[i]
            if type(old) is Part and sh == 0 and w >= old.w or isinstance(old, IV) and sh == 0 and not isinstance(v, IV):
                st.regs[i] = Part(v, w)
                return
            parts = []
            if sh + w < 64:
                parts.append((extract(old, 63, sh + w, 64), 64 - sh - w))
            parts.append((v, w))
            if sh:
                parts.append((extract(old, sh - 1, 0, 64), sh))
            st.regs[i] = concat(parts)

    def ea(self, st, o):
        _, b, x, s, d, w = o
        v = d & M64
        if b is not None:
            v = self.add64(st.regs[b], v)
        if x is not None:
            xv = st.regs[x]
            if s != 1:
                xv = (xv * s) & M64 if isinstance(xv, int) else bv(xv, 64) * s
            v = self.add64(v, xv)
        return v

    @staticmethod
    def add64(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & M64
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, IV) or isinstance(b, IV):
            raise Unsupported("address arithmetic on integer-domain value")
        return z3.simplify(bv(a, 64) + bv(b, 64))

    def addrs(self, st, a):
        if isinstance(a, int):
            return [(a, True)]
        r = self.table(st, a)
        if r:
            lo, s, n = r
            return [(lo + s * i, a == lo + s * i) for i in range(n)]
        vals = self.concretize(st, a, 64, 600, "address")
        if len(vals) == 1:
            return [(vals[0], True)]
        return [(x, a == x) for x in vals]

    def table(self, st, a):
        """(lowest, stride, count) when a ranges over a regular table of more than 40 and up to 8192 places"""
        a = z3.simplify(a)
        if z3.is_bv_value(a):
            return None
        self.bs.sync(st.path)
        s = self.bs.s
        s.push()
        t = time.time()
        try:
            seen = []
            for _ in range(41):
                if s.check() != z3.sat:
                    return None
                seen.append(s.model().eval(a, model_completion=True).as_long())
                s.add(a != seen[-1])
            s.pop()
            s.push()
            import math
            g = 0
            for x in seen:
                g = math.gcd(g, x - seen[0])
            lo, hi = min(seen), max(seen)
            while True:
                s.push()
                s.add(z3.Or(z3.ULT(a, lo), z3.UGT(a, hi), z3.URem(a - lo, g) != 0) if g & (g - 1) else
                      z3.Or(z3.ULT(a, lo), z3.UGT(a, hi), (a - lo) & (g - 1) != 0))
                r = s.check()
                if r == z3.unsat:
                    s.pop()
                    break
                if r != z3.sat:
                    s.pop()
                    return None
                x = s.model().eval(a, model_completion=True).as_long()
                s.pop()
                g = math.gcd(g, abs(x - lo))
                # approach the end quickly
                for _ in range(64):
                    s.push()
                    s.add(z3.UGT(a, max(x, hi)) if x > hi or x >= lo else z3.ULT(a, min(x, lo)))
                    far = None
                    if s.check() == z3.sat:
                        far = s.model().eval(a, model_completion=True).as_long()
                    s.pop()
                    if far is None:
                        break
                    g = math.gcd(g, abs(far - lo))
                    x = far
                lo, hi = min(lo, x), max(hi, x)
                if (hi - lo) // g > 8192:
                    return None
            return lo, g, (hi - lo) // g + 1
        finally:
            s.pop()
            STATS.add("enumerate", time.time() - t)

    def load(self, st, a, size):
        if isinstance(a, int):
            return st.mem.load(a, size)
        tb = self.table(st, a)
        if tb:
            return self.load_table(st, a, size, *tb)
        al = self.addrs(st, a)
        r = None
        for x, c in reversed(al):
            try:
                v = st.mem.load(x, size)
            except Violation as e:
                raise Violation(e.kind, st, c if c is not True else None)
            r = v if r is None else ite(c, v, r, size * 8)
        if self.cuts is not None and not isinstance(r, int) and len(al) > 1:
            v = z3.BitVec("cut%d_%d" % (len(self.cuts), size * 8), size * 8)
            self.cuts.append((v, a, r))
            return v
        return r

    def load_table(self, st, a, size, lo, g, n):
        vals = []
        for i in range(n):
            try:
                vals.append(st.mem.load(lo + g * i, size))
            except Violation as e:
                raise Violation(e.kind, st, a == lo + g * i)
        k = max(1, (n - 1).bit_length())
        idx = z3.simplify(z3.UDiv(a - lo, z3.BitVecVal(g, 64)) if g & (g - 1) else z3.LShR(a - lo, g.bit_length() - 1))
        vals += [vals[-1]] * ((1 << k) - n)
        for b in range(k):
            c = z3.simplify(z3.Extract(b, b, idx) == 1)
            nv = []
            for i in range(0, len(vals), 2):
                x, y = vals[i], vals[i + 1]
                same = x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or \
                    (not isinstance(x, int) and not isinstance(y, int) and x.eq(y))
                nv.append(x if same else ite(c, y, x, size * 8))
            vals = nv
        if self.cuts is not None and not isinstance(vals[0], int):
            v = z3.BitVec("cut%d_%d" % (len(self.cuts), size * 8), size * 8)
            self.cuts.append((v, a, vals[0]))
            return v
        return vals[0]

    cuts = None         # when a list: values read from tables become fresh variables, defined there

    def store(self, st, a, v, size):
        if isinstance(a, int):
            return st.mem.store(a, v, size)
        al = self.addrs(st, a)
        for x, c in al:
            try:
                st.mem.check(x, size, True)
            except Violation as e:
                raise Violation(e.kind, st, c if c is not True else None)
        for x, c in al:
            if c is True:
                st.mem.store(x, v, size)
            else:
                st.mem.store(x, ite(c, v, st.mem.load(x, size), size * 8), size)

    def val(self, st, o, w=None):
        k = o[0]
        if k == "r":
            return self.rr(st, o[1], o[2], o[3])
        if k == "i":
            return o[1] & mask(w or 64)
        if k == "m":
            return self.load(st, self.ea(st, o), (o[5] or w) // 8)
        raise Unsupported("operand %r" % (o,))

    def width(self, ops):
        for o in ops:
            if o[0] == "r":
                return o[2]
            if o[0] == "m" and o[5]:
                return o[5]
        return 64

    def put(self, st, o, v, w):
        if o[0] == "r":
            self.wr(st, o[1], o[2], o[3], v)
        elif o[0] == "m":
            self.store(st, self.ea(st, o), v, (o[5] or w) // 8)
        else:
            raise Unsupported("store to %r" % (o,))

    def push(self, st, v):
        st.regs[RSP] = (st.regs[RSP] - 8) & M64
        st.mem.store(st.regs[RSP], v, 8)

    def pop(self, st):
        v = st.mem.load(st.regs[RSP], 8)
        st.regs[RSP] += 8
        return v

    # ---- flags -----------------------------------------------------------
    def flag(self, st, f):
        v = st.flags.get(f)
        if callable(v):
            v = v()
            st.flags[f] = v
        if v is None:
            raise Unsupported("code depends on an undefined flag %s" % f)
        return v

    def flagb(self, st, f):
        v = self.flag(st, f)
        if isinstance(v, IV):
            return l_eq(v.e, 1)
        return v

    def carry(self, st, f="C"):
        v = self.flag(st, f)
        if isinstance(v, bool):
            return int(v)
        return v

    def setzs(self, st, r, w):
        fl = st.flags
        if isinstance(r, int):
            fl["Z"] = r == 0
            fl["S"] = bool(r >> (w - 1))
            fl["P"] = bin(r & 255).count("1") % 2 == 0
        elif isinstance(r, IV):
            fl["Z"] = lambda: l_eq(r.e, 0)
            fl["S"] = lambda: l_le(1 << (w - 1), r.e)
            fl["P"] = None
        else:
            fl["Z"] = lambda: r == 0
            fl["S"] = lambda: z3.Extract(w - 1, w - 1, r) == 1
            fl["P"] = None

    def cond(self, st, cc):
        n = False
        F = lambda f: self.flagb(st, f)
        if cc in ("e", "z"):
            r = F("Z")
        elif cc in ("ne", "nz"):
            r = b_not(F("Z"))
        elif cc in ("b", "c", "nae"):
            r = F("C")
        elif cc in ("ae", "nc", "nb"):
            r = b_not(F("C"))
        elif cc in ("be", "na"):
            r = b_or(F("C"), F("Z"))
        elif cc in ("a", "nbe"):
            r = b_not(b_or(F("C"), F("Z")))
        elif cc == "s":
            r = F("S")
        elif cc == "ns":
            r = b_not(F("S"))
        elif cc == "o":
            r = F("O")
        elif cc == "no":
            r = b_not(F("O"))
        elif cc in ("l", "nge"):
            r = st.flags.get("slt")
            r = r() if callable(r) else b_xor(F("S"), F("O"))
        elif cc in ("ge", "nl"):
            r = b_not(self.cond(st, "l"))
        elif cc in ("le", "ng"):
            r = b_or(F("Z"), self.cond(st, "l"))
        elif cc in ("g", "nle"):
            r = b_not(self.cond(st, "le"))
        elif cc in ("p", "pe"):
            r = F("P")
        elif cc in ("np", "po"):
            r = b_not(F("P"))
        else:
            raise Unsupported("condition " + cc)
        return r

    # ---- arithmetic -------------------------------------------------------
    def addc(self, st, a, b, c, w, setflags=True):
        """a + b + c; c is 0/1 int, BoolRef or IV.  returns result; sets C,O,Z,S."""
        fl = st.flags
        if setflags:
            fl.pop("slt", None)
        if isinstance(a, int) and isinstance(b, int) and isinstance(c, int):
            s = a + b + c
            r = s & mask(w)
            cf = s > mask(w)
            if setflags:
                fl["O"] = bool(((a ^ r) & (b ^ r)) >> (w - 1))
                self.setzs(st, r, w)
            fl["C"] = cf
            return r
        if isinstance(a, IV) or isinstance(b, IV) or isinstance(c, IV):
            if w != 64:
                raise Unsupported("narrow integer-domain addition")
            if not isinstance(c, (int, IV)):
                raise Unsupported("mixed-domain carry")
            if isinstance(c, int) and c == 0 and (a == 0 or b == 0) and (isinstance(a, int) or isinstance(b, int)):
                r = b if isinstance(a, int) and a == 0 else a
                fl["C"] = False
            elif sum(x.m if isinstance(x, IV) else x for x in (a, b, c)) <= M64:
                r = IV(ie(a) + ie(b) + ie(c), m=sum(x.m if isinstance(x, IV) else x for x in (a, b, c)))
                fl["C"] = False
            else:
                s = self.fresh_int(st, "s")
                cv = self.fresh_int(st, "c", 0, 1)
                self.define(st, "add", s, cv, Lin.var(s) + (1 << 64) * Lin.var(cv) - (ie(a) + ie(b) + ie(c)))
                r = IV(s)
                fl["C"] = IV(cv, m=1)
            if setflags:
                fl["O"] = None
                self.setzs(st, r, w)
            return r
        A, B = bv(a, w), bv(b, w)
        S, r, cf = self.wide("+", A, B, c, w)
        if setflags:
            fl["O"] = lambda: z3.Extract(w - 1, w - 1, (A ^ B ^ -1) & (A ^ r)) == 1
            self.setzs(st, r, w)
        fl["C"] = cf
        return r

    def wide(self, op, A, B, c, w):
        """one limb of a multi-limb addition or subtraction.  A carry produced by the limb below makes
        this limb part of one wide operation, so that limb chains and whole-number specifications
        have the same shape.  Returns (wide result, limb, carry)"""
        ch = None
        if not isinstance(c, int):
            ch = self.chains.get(id(c))
            if ch is not None and (ch[0] is not c or ch[1] != op):
                ch = None
        low = 0
        if ch is not None:
            _, _, LA, LB, low, prev = ch
            A, B = concat([(A, w), (LA, low)]), concat([(B, w), (LB, low)])
            A, B = bv(A, w + low), bv(B, w + low)
        W = w + low
        x, y = z3.ZeroExt(1, A), z3.ZeroExt(1, B)
        S = x + y if op == "+" else x - y
        if ch is None and not (isinstance(c, int) and c == 0):
            cb = z3.ZeroExt(1, bv(bool_to(bool(c) if isinstance(c, int) else c, w), w))
            S = S + cb if op == "+" else S - cb
        cf = z3.Extract(W, W, S) == 1
        if ch is not None or (isinstance(c, int) and c == 0):
            self.chains[id(cf)] = (cf, op, A, B, W, S)
        if ch is not None:
            TRUNC[prev.get_id()] = (prev, S)
        return S, z3.Extract(W - 1, low, S), cf

    def subc(self, st, a, b, c, w):
        fl = st.flags
        fl.pop("slt", None)
        if isinstance(a, int) and isinstance(b, int) and isinstance(c, int):
            s = a - b - c
            r = s & mask(w)
            fl["C"] = s < 0
            fl["O"] = bool(((a ^ b) & (a ^ r)) >> (w - 1))
            self.setzs(st, r, w)
            return r
        if isinstance(a, IV) or isinstance(b, IV) or isinstance(c, IV):
            if w != 64:
                raise Unsupported("narrow integer-domain subtraction")
            if not isinstance(c, (int, IV)):
                raise Unsupported("mixed-domain borrow")
            if isinstance(c, int) and c == 0 and isinstance(b, int) and b == 0:
                r = a
                fl["C"] = False
            else:
                s = self.fresh_int(st, "d")
                cv = self.fresh_int(st, "b", 0, 1)
                self.define(st, "sub", s, cv, Lin.var(s) - (1 << 64) * Lin.var(cv) - (ie(a) - ie(b) - ie(c)))
                r = IV(s)
                fl["C"] = IV(cv, m=1)
            fl["O"] = None
            self.setzs(st, r, w)
            return r
        A, B = bv(a, w), bv(b, w)
        zero = isinstance(c, int) and c == 0
        S, r, cf = self.wide("-", A, B, c, w)
        fl["O"] = lambda: z3.Extract(w - 1, w - 1, (A ^ B) & (A ^ r)) == 1
        self.setzs(st, r, w)
        if zero:
            fl["Z"] = lambda: A == B
            fl["slt"] = lambda: A < B
        fl["C"] = cf
        return r

    def cmp_int(self, st, a, b):
        """integer-domain compare: no fresh variables needed"""
        fl = st.flags
        x, y = ie(a), ie(b)
        fl.pop("slt", None)
        fl["C"] = lambda: l_lt(x, y)
        fl["Z"] = lambda: l_eq(x, y)
        fl["S"] = None
        fl["O"] = None
        fl["P"] = None

    def logic(self, st, op, a, b, w):
        fl = st.flags
        fl.pop("slt", None)
        if isinstance(a, IV) or isinstance(b, IV):
            if op == "and" and isinstance(a, IV) and isinstance(b, IV) and a.e.same(b.e):
                r = a
            elif op == "or" and isinstance(a, IV) and isinstance(b, IV):
                if a.e.same(b.e):
                    r = a
                else:
                    # an OR is only ever tested for zero: r = a + b has the same zero-ness, and
                    # 'or' results are flagged so that no other use slips through
                    s = self.fresh_int(st, "or", 0, 2 * M64)
                    self.define(st, "or", s, None, Lin.var(s) - ie(a) - ie(b))
                    r = IV(s)
            elif op == "or" and (a == 0 if isinstance(a, int) else b == 0 if isinstance(b, int) else False):
                r = b if isinstance(a, int) else a
            elif op == "and" and (isinstance(a, int) and a in (0, M64) or isinstance(b, int) and b in (0, M64)):
                k, x = (a, b) if isinstance(a, int) else (b, a)
                r = x if k else 0
            else:
                raise Unsupported("bitwise operation in the integer domain")
        elif isinstance(a, int) and isinstance(b, int):
            r = a & b if op == "and" else a | b if op == "or" else a ^ b
        else:
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    r = 0 if op == "and" else a
                elif b == mask(w) and op == "and":
                    r = a
                elif b == mask(w) and op == "or":
                    r = b
                elif op == "and" and (b + 1) & b == 0:
                    n = b.bit_length()
                    r = concat([(0, w - n), (extract(a, n - 1, 0, w), n)])
                elif op == "and":
                    r = a & bv(b, w)
                elif op == "or":
                    r = a | bv(b, w)
                else:
                    r = a ^ bv(b, w)
            elif a is b and op in ("and", "or"):
                r = a
            else:
                A, B = bv(a, w), bv(b, w)
                r = A & B if op == "and" else A | B if op == "or" else A ^ B
        fl["C"] = False
        fl["O"] = False
        self.setzs(st, r, w)
        return r

    def mul128(self, st, a, b, w=64):
        """unsigned full product: (hi, lo)"""
        if isinstance(a, int) and isinstance(b, int):
            p = a * b
            return p >> w, p & mask(w)
        if isinstance(a, IV) or isinstance(b, IV):
            if w != 64:
                raise Unsupported("narrow integer-domain product")
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0, 0
                if b == 1:
                    return 0, a
                key = (a.key, "c", b)
                prod = a.e * b
            else:
                key = tuple(sorted((a.key, b.key)))
                prod = None
            if key in st.pcache:
                return st.pcache[key]
            if prod is None:
                pv = self.fresh_int(st, "p", 0, M64 * M64)
                st.prods.append((a, b, pv))
                prod = Lin.var(pv)
            hi = self.fresh_int(st, "h")
            lo = self.fresh_int(st, "l")
            self.define(st, "mul", lo, hi, (1 << 64) * Lin.var(hi) + Lin.var(lo) - prod)
            r = IV(hi), IV(lo)
            st.pcache[key] = r
            return r
        P = z3.ZeroExt(w, bv(a, w)) * z3.ZeroExt(w, bv(b, w))
        return z3.Extract(2 * w - 1, w, P), z3.Extract(w - 1, 0, P)

    # ---- run ------------------------------------------------------------------
    def ret(self, st):
        st.pc = self.pop(st)

    def call(self, st, addr):
        """push the sentinel and start at addr"""
        self.push(st, SENTINEL)
        st.pc = addr

    def run(self, st0):
        """Explore every feasible path from st0; yields finished states."""
        self.work.append(st0)
        done = 0
        while self.work:
            st = self.work.pop()
            if type(st.pc) is tuple:        # the not-taken side of a forked branch
                self.resume(st)
            try:
                self.run_path(st)
            except PathEnd as e:
                if e.reason == "infeasible":
                    continue
                st.end = e.reason
                st.info = e.info
            except Violation as e:
                v = e.cond
                if v is not None:
                    st.path.append(v)
                # only report a violation on a feasible path
                if not self.bs.feasible(st.path, z3.BoolVal(True)):
                    continue
                st.end = "violation"
                st.info = "%s at %s" % (e.kind, self.where(st))
            done += 1
            if done > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            yield st

    def where(self, st):
        a = st.pc if isinstance(st.pc, int) else 0
        best = None
        for n, x in self.p.sym.items():
            if x <= a and (best is None or x > best[1]):
                best = (n, x)
        return "%s+%#x" % (best[0], a - best[1]) if best else hex(a)

    def resume(self, st):
        ins = self.p.get(st.user["__br"])
        st.pc = st.user["__br"]
        st.user["__taken"] = False

    def run_path(self, st):
        self.cur = st
        p = self.p
        hooks = self.hooks
        insn = p.insn
        while True:
            pc = st.pc
            if pc == SENTINEL:
                st.end = "ret"
                return
            h = hooks.get(pc)
            if h is not None:
                r = h(self, st)
                if r == "stop":
                    return
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget exhausted")
                if r != "skip":             # "skip": the hook declines, run the code itself
                    continue
            i = insn.get(pc)
            if i is None:
                i = p.get(pc)
            self.seen.add(pc)
            st.steps += 1
            self.total_steps += 1
            if st.steps > self.max_steps:
                raise Unsupported("more than %d instructions on one path" % self.max_steps)
            if not st.steps & 1023 and self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            hd = i.h
            if hd is None:
                raise Unsupported("instruction %s" % i.text)
            try:
                n = hd(self, st, i)
            except Unsupported as e:
                if not getattr(e, "at", None):
                    e.at = True
                    e.args = ("%s [%s at %s]" % (e, i.text, self.where(st)),)
                raise
            st.pc = i.next if n is None else n

    def branch(self, st, i, c):
        """conditional transfer: returns True/False for this state, forking if needed"""
        tk = st.user.pop("__taken", None)
        if tk is not None:
            return tk
        r = self.decide(st, c)
        if isinstance(r, tuple):
            _, o = r
            o.user["__br"] = i.addr
            self.work.append(o)
            return True
        return r


# ---- instruction handlers ------------------------------------------------------
HAND = {}


def H(*names):
    def d(f):
        for n in names:
            HAND[n] = f
        return f
    return d


@H("cld", "std")
def _df(ex, st, i):
    st.user["df"] = i.mn == "std"


@H("nop", "endbr64", "nopw", "nopl", "mfence", "lfence", "sfence", "pause", "prefetcht0", "prefetchw")
def _nop(ex, st, i):
    pass


@H("mov", "movabs")
def _mov(ex, st, i):
    d, s = i.ops
    w = ex.width(i.ops)
    if s[0] == "tls" or d[0] == "tls":
        raise Unsupported("tls access")
    v = ex.val(st, s, w)
    if s[0] == "i":
        v &= mask(w)
    ex.put(st, d, v, w)


@H("movzx")
def _movzx(ex, st, i):
    d, s = i.ops
    w = ex.width([s])
    ex.put(st, d, zext(ex.val(st, s, w), w, d[2]), d[2])


@H("movsx", "movsxd")
def _movsx(ex, st, i):
    d, s = i.ops
    w = ex.width([s])
    ex.put(st, d, sext(ex.val(st, s, w), w, d[2]), d[2])


@H("cdqe")
def _cdqe(ex, st, i):
    st.regs[RAX] = sext(ex.rr(st, RAX, 32), 32, 64)


@H("cwde")
def _cwde(ex, st, i):
    ex.wr(st, RAX, 32, 0, sext(ex.rr(st, RAX, 16), 16, 32))


@H("cdq")
def _cdq(ex, st, i):
    ex.wr(st, RDX, 32, 0, extract(sext(ex.rr(st, RAX, 32), 32, 64), 63, 32, 64))


@H("cqo")
def _cqo(ex, st, i):
    st.regs[RDX] = extract(sext(st.regs[RAX], 64, 128), 127, 64, 128)


@H("lea")
def _lea(ex, st, i):
    d, s = i.ops
    _, b, x, sc, dd, _w = s
    if d[2] == 64 and any(r is not None and isinstance(st.regs[r], IV) for r in (b, x)):
        t = []
        if b is not None:
            t.append(st.regs[b])
        if x is not None:
            if sc != 1:
                raise Unsupported("scaled integer-domain value")
            t.append(st.regs[x])
        if dd & M64:
            t.append(dd & M64)
        v = t[0]
        for y in t[1:]:
            if isinstance(v, IV) and y == 1 and v.m < M64:
                v = IV(v.e + 1, None, v.m + 1)
            else:
                v = ex.addc(st, v, y, 0, 64, False)
        ex.put(st, d, v, 64)
        return
    v = ex.ea(st, s)
    if d[2] != 64:
        v = extract(v, d[2] - 1, 0, 64)
    ex.put(st, d, v, d[2])


@H("push")
def _push(ex, st, i):
    o = i.ops[0]
    v = ex.val(st, o, 64)
    if o[0] == "i":
        v = sext(v & 0xffffffff, 32, 64) if o[1] <= 0xffffffff and o[1] >= 0x80000000 else v
    ex.push(st, v)


@H("pop")
def _pop(ex, st, i):
    v = ex.pop(st)
    ex.put(st, i.ops[0], v, 64)


@H("leave")
def _leave(ex, st, i):
    st.regs[RSP] = st.regs[RBP]
    st.regs[RBP] = ex.pop(st)


@H("call")
def _call(ex, st, i):
    o = i.ops[0]
    t = o[1] if o[0] == "i" else ex.val(st, o, 64)
    if not isinstance(t, int):
        t = z3.simplify(t)
        if not z3.is_bv_value(t):
            raise Unsupported("symbolic call target")
        t = t.as_long()
    ex.push(st, i.next)
    return t


@H("ret")
def _ret(ex, st, i):
    t = ex.pop(st)
    if not isinstance(t, int):
        t = z3.simplify(t)
        if not z3.is_bv_value(t):
            raise Violation("return to a symbolic address (corrupted stack)")
        t = t.as_long()
    return t


@H("jmp")
def _jmp(ex, st, i):
    o = i.ops[0]
    if o[0] == "i":
        return o[1]
    fv = st.user.pop("__jmp", None)
    if fv is not None:
        return fv
    t = ex.val(st, o, 64)
    if isinstance(t, int):
        return t
    vals = ex.concretize(st, t, 64, 64, "jump target")
    if not vals:
        raise PathEnd("infeasible")
    for x in vals[1:]:
        o2 = st.copy()
        o2.path.append(t == x)
        o2.user["__jmp"] = x
        o2.pc = i.addr
        ex.work.append(o2)
    st.path.append(t == vals[0])
    return vals[0]


def _mk_jcc(cc):
    def f(ex, st, i):
        c = ex.cond(st, cc) if "__taken" not in st.user else None
        if ex.branch(st, i, c):
            return i.ops[0][1]
    return f


def _mk_set(cc):
    def f(ex, st, i):
        c = simp_bool(ex.cond(st, cc))
        if isinstance(c, bool):
            v = int(c)
        else:
            v = None
            fl = None
            if cc in ("b", "c", "nae"):
                fl = ex.flag(st, "C")
            if isinstance(fl, IV):
                ex.wr(st, i.ops[0][1], 64, 0, fl) if i.ops[0][0] == "r" and st.user.get("set_zext") else None
                if not st.user.get("set_zext"):
                    raise Unsupported("setcc on integer-domain carry")
                return
            if "approx" in st.user or any(isinstance(r, IV) for r in st.regs):
                # integer domain: fork
                r = ex.branch(st, i, c)
                v = int(r)
            else:
                v = bool_to(c, 8)
        ex.put(st, i.ops[0], v, 8)
    return f


def _mk_cmov(cc):
    def f(ex, st, i):
        d, s = i.ops
        w = d[2]
        tk = st.user.get("__taken")
        c = ex.cond(st, cc) if tk is None else None
        a, b = ex.val(st, s, w), ex.val(st, d, w)
        if c is not None:
            c = simp_bool(c)
        if c is None or isinstance(c, LC) or (not isinstance(c, bool) and (isinstance(a, IV) or isinstance(b, IV))):
            c = ex.branch(st, i, c)
        ex.put(st, d, ite(c, a, b, w), w)
    return f


for _cc in ("e z ne nz b c nae ae nc nb be na a nbe s ns o no l nge ge nl le ng g nle p pe np po").split():
    HAND["j" + _cc] = _mk_jcc(_cc)
    HAND["set" + _cc] = _mk_set(_cc)
    HAND["cmov" + _cc] = _mk_cmov(_cc)


@H("jrcxz")
def _jrcxz(ex, st, i):
    if ex.branch(st, i, v_eq(st.regs[RCX], 0, 64)):
        return i.ops[0][1]


def two(ex, st, i):
    d, s = i.ops
    w = ex.width(i.ops)
    a = ex.val(st, d, w)
    b = ex.val(st, s, w)
    if s[0] == "i":
        b &= mask(w)
    return d, s, w, a, b


@H("add")
def _add(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    ex.put(st, d, ex.addc(st, a, b, 0, w), w)


@H("adc")
def _adc(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    ex.put(st, d, ex.addc(st, a, b, ex.carry(st), w), w)


@H("adcx")
def _adcx(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    ex.put(st, d, ex.addc(st, a, b, ex.carry(st), w, False), w)


@H("adox")
def _adox(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    save = st.flags.get("C")
    r = ex.addc(st, a, b, ex.carry(st, "O"), w, False)
    st.flags["O"] = st.flags["C"]
    st.flags["C"] = save
    ex.put(st, d, r, w)


@H("sub")
def _sub(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    if d == s:
        r = ex.subc(st, 0, 0, 0, w)
    else:
        r = ex.subc(st, a, b, 0, w)
    ex.put(st, d, r, w)


@H("sbb")
def _sbb(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    if d == s:
        a = b = 0
    ex.put(st, d, ex.subc(st, a, b, ex.carry(st), w), w)


@H("cmp")
def _cmp(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    if isinstance(a, IV) or isinstance(b, IV):
        ex.cmp_int(st, a, b)
    else:
        ex.subc(st, a, b, 0, w)


@H("neg")
def _neg(ex, st, i):
    d = i.ops[0]
    w = ex.width(i.ops)
    a = ex.val(st, d, w)
    ex.put(st, d, ex.subc(st, 0, a, 0, w), w)


@H("inc", "dec")
def _inc(ex, st, i):
    d = i.ops[0]
    w = ex.width(i.ops)
    a = ex.val(st, d, w)
    save = st.flags.get("C")
    r = ex.addc(st, a, 1, 0, w) if i.mn == "inc" else ex.subc(st, a, 1, 0, w)
    st.flags["C"] = save
    ex.put(st, d, r, w)


@H("not")
def _not(ex, st, i):
    d = i.ops[0]
    w = ex.width(i.ops)
    a = ex.val(st, d, w)
    if isinstance(a, IV):
        raise Unsupported("not in the integer domain")
    ex.put(st, d, a ^ mask(w) if isinstance(a, int) else ~a, w)


@H("and", "or", "xor")
def _logic(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    if i.mn == "xor" and d == s:
        r = ex.logic(st, "xor", 0, 0, w)
    else:
        r = ex.logic(st, i.mn, a, b, w)
    ex.put(st, d, r, w)


@H("test")
def _test(ex, st, i):
    d, s, w, a, b = two(ex, st, i)
    if d == s:
        b = a
    ex.logic(st, "and", a, b, w)


@H("mul")
def _mul(ex, st, i):
    o = i.ops[0]
    w = ex.width(i.ops)
    a = ex.rr(st, RAX, w)
    b = ex.val(st, o, w)
    if w == 8:
        raise Unsupported("8-bit mul")
    hi, lo = ex.mul128(st, a, b, w)
    ex.wr(st, RAX, w, 0, lo)
    ex.wr(st, RDX, w, 0, hi)
    fl = st.flags
    fl.pop("slt", None)
    c = (lambda: b_not(v_eq(hi, 0, w)))
    fl["C"] = c
    fl["O"] = c
    fl["Z"] = fl["S"] = fl["P"] = None


@H("mulx")
def _mulx(ex, st, i):
    h, l, s = i.ops
    w = h[2]
    hi, lo = ex.mul128(st, ex.rr(st, RDX, w), ex.val(st, s, w), w)
    ex.put(st, l, lo, w)
    ex.put(st, h, hi, w)


@H("imul")
def _imul(ex, st, i):
    w = ex.width(i.ops)
    if len(i.ops) == 1:
        a, b = ex.rr(st, RAX, w), ex.val(st, i.ops[0], w)
        d = None
    elif len(i.ops) == 2:
        d = i.ops[0]
        a, b = ex.val(st, d, w), ex.val(st, i.ops[1], w)
    else:
        d = i.ops[0]
        a, b = ex.val(st, i.ops[1], w), i.ops[2][1] & mask(w)
    fl = st.flags
    fl.pop("slt", None)
    if isinstance(a, IV) or isinstance(b, IV):
        if d is None or w != 64:
            raise Unsupported("imul in the integer domain")
        hi, lo = ex.mul128(st, a, b, w)
        ex.put(st, d, lo, w)
        fl["C"] = fl["O"] = fl["Z"] = fl["S"] = fl["P"] = None
        return
    if isinstance(a, int) and isinstance(b, int):
        p = to_signed(a, w) * to_signed(b, w)
        lo = p & mask(w)
        hi = (p >> w) & mask(w)
        ov = p != to_signed(lo, w)
        fl["C"] = fl["O"] = ov
    elif d is not None and (isinstance(a, int) or isinstance(b, int)) and False:
        pass
    else:
        P = z3.SignExt(w, bv(a, w)) * z3.SignExt(w, bv(b, w))
        lo = z3.Extract(w - 1, 0, P)
        hi = z3.Extract(2 * w - 1, w, P)
        ovf = lambda: z3.SignExt(w, lo) != P
        fl["C"] = fl["O"] = ovf
        if d is not None:
            lo = bv(a, w) * bv(b, w)
    fl["Z"] = fl["S"] = fl["P"] = None
    if d is None:
        ex.wr(st, RAX, w, 0, lo)
        ex.wr(st, RDX, w, 0, hi)
    else:
        ex.put(st, d, lo, w)


@H("div", "idiv")
def _div(ex, st, i):
    w = ex.width(i.ops)
    b = ex.val(st, i.ops[0], w)
    hi, lo = ex.rr(st, RDX, w), ex.rr(st, RAX, w)
    if isinstance(b, int) and isinstance(hi, int) and isinstance(lo, int):
        if b == 0:
            raise Violation("division by zero")
        n = (hi << w) | lo
        if i.mn == "div":
            q, r = divmod(n, b)
        else:
            n, d = to_signed(n, 2 * w), to_signed(b, w)
            q = abs(n) // abs(d)
            if (n < 0) != (d < 0):
                q = -q
            r = n - q * d
        ex.wr(st, RAX, w, 0, q & mask(w))
        ex.wr(st, RDX, w, 0, r & mask(w))
    else:
        z = v_eq(b, 0, w)
        if not isinstance(z, bool) and "__taken" not in st.user:
            if ex.bs.feasible(st.path, z):
                raise Violation("division by zero", st, z)
        if i.mn == "div" and isinstance(hi, int) and hi == 0:
            n, d = bv(lo, w), bv(b, w)
            q, r = z3.UDiv(n, d), z3.URem(n, d)
        elif i.mn == "idiv":
            n, d = bv(lo, w), bv(b, w)
            q, r = n / d, z3.SRem(n, d)
            # rdx must be the sign extension of rax for this to be exact
            c = simp_bool(v_eq(hi, extract(sext(lo, w, 2 * w), 2 * w - 1, w, 2 * w), w))
            if c is not True and ex.bs.feasible(st.path, z3.Not(c)):
                raise Unsupported("wide idiv")
        else:
            N = z3.Concat(bv(hi, w), bv(lo, w))
            D = z3.ZeroExt(w, bv(b, w))
            q, r = z3.Extract(w - 1, 0, z3.UDiv(N, D)), z3.Extract(w - 1, 0, z3.URem(N, D))
        ex.wr(st, RAX, w, 0, q)
        ex.wr(st, RDX, w, 0, r)
    for f in "CZSOP":
        st.flags[f] = None
    st.flags.pop("slt", None)


def shift_val(op, a, n, w):
    if isinstance(a, int) and isinstance(n, int):
        if op == "shl":
            return (a << n) & mask(w)
        if op == "shr":
            return a >> n
        if op == "sar":
            return (to_signed(a, w) >> n) & mask(w)
        if op == "rol":
            n %= w
            return ((a << n) | (a >> (w - n))) & mask(w)
        if op == "ror":
            n %= w
            return ((a >> n) | (a << (w - n))) & mask(w)
    if isinstance(a, IV):
        raise Unsupported("shift in the integer domain")
    if isinstance(n, int):
        if n == 0:
            return a
        if op == "shl":
            return 0 if n >= w else concat([(extract(a, w - 1 - n, 0, w), w - n), (0, n)])
        if op == "shr":
            return 0 if n >= w else concat([(0, n), (extract(a, w - 1, n, w), w - n)])
        if op == "sar":
            return sext(extract(a, w - 1, n, w), w - n, w) if n < w else bv(a, w) >> (w - 1)
        if op == "rol":
            n %= w
            return a if n == 0 else concat([(extract(a, w - 1 - n, 0, w), w - n), (extract(a, w - 1, w - n, w), n)])
        if op == "ror":
            n %= w
            return a if n == 0 else concat([(extract(a, n - 1, 0, w), n), (extract(a, w - 1, n, w), w - n)])
    A, N = bv(a, w), bv(n, w)
    if op == "shl":
        return A << N
    if op == "shr":
        return z3.LShR(A, N)
    if op == "sar":
        return A >> N
    if op == "rol":
        return z3.RotateLeft(A, N)
    return z3.RotateRight(A, N)


@H("shl", "sal", "shr", "sar", "rol", "ror")
def _shift(ex, st, i):
    d = i.ops[0]
    w = ex.width([d])
    n = ex.val(st, i.ops[1], 8) if len(i.ops) > 1 else 1
    op = "shl" if i.mn == "sal" else i.mn
    a = ex.val(st, d, w)
    cm = 63 if w == 64 else 31
    if isinstance(n, int):
        n &= cm
        if n == 0:
            return
        if isinstance(a, IV):
            if w != 64 or op not in ("shl", "shr") or n >= 64:
                raise Unsupported("shift in the integer domain")
            hi = ex.fresh_int(st, "sh", 0, (1 << n if op == "shl" else 1 << (64 - n)) - 1)
            lo = ex.fresh_int(st, "sl", 0, (1 << (64 - n) if op == "shl" else 1 << n) - 1)
            if op == "shr":
                ex.define(st, "shr", lo, hi, (1 << n) * Lin.var(hi) + Lin.var(lo) - a.e)
                r = IV(hi)
            else:
                ex.define(st, "shl", lo, hi, (1 << (64 - n)) * Lin.var(hi) + Lin.var(lo) - a.e)
                r = IV(Lin.var(lo) * (1 << n))
            for f in "CSO":
                st.flags[f] = None
            ex.put(st, d, r, w)
            return
    else:
        n = ex.logic(st, "and", zext(extract(n, 7, 0, 8), 8, w) if w > 8 else n, cm, w) if True else n
    r = shift_val(op, a, n, w)
    fl = st.flags
    if isinstance(n, int):
        fl.pop("slt", None)
        if op in ("shl",):
            fl["C"] = (lambda: v_eq(extract(a, w - n, w - n, w), 1, 1)) if n <= w else None
        elif op in ("shr", "sar"):
            fl["C"] = (lambda: v_eq(extract(a, n - 1, n - 1, w), 1, 1)) if n <= w else None
        else:
            k = 0 if op == "rol" else w - 1
            fl["C"] = lambda: v_eq(extract(r, k, k, w), 1, 1)
        if op in ("shl", "shr", "sar"):
            ex.setzs(st, r, w)
        if n == 1 and op == "shl":
            fl["O"] = lambda: v_eq(extract(a, w - 1, w - 1, w) ^ extract(a, w - 2, w - 2, w), 1, 1)
        elif n == 1 and op == "sar":
            fl["O"] = False
        elif n == 1 and op == "shr":
            fl["O"] = lambda: v_eq(extract(a, w - 1, w - 1, w), 1, 1)
        else:
            fl["O"] = None
    else:
        # flags after a symbolic count are not modelled
        for f in "CZSOP":
            fl[f] = None
        fl.pop("slt", None)
    ex.put(st, d, r, w)


@H("shld", "shrd")
def _shld(ex, st, i):
    d, s, c = i.ops
    w = ex.width([d, s])
    a, b = ex.val(st, d, w), ex.val(st, s, w)
    n = ex.val(st, c, 8)
    if isinstance(n, int):
        n &= 63 if w == 64 else 31
        if n == 0:
            return
        if isinstance(a, IV) or isinstance(b, IV):
            raise Unsupported("shld in the integer domain")
        if i.mn == "shld":
            r = concat([(extract(a, w - n - 1, 0, w), w - n), (extract(b, w - 1, w - n, w), n)])
        else:
            r = concat([(extract(b, n - 1, 0, w), n), (extract(a, w - 1, n, w), w - n)])
    else:
        N = z3.ZeroExt(2 * w - 8, n & z3.BitVecVal(63 if w == 64 else 31, 8))
        if i.mn == "shld":
            r = z3.Extract(2 * w - 1, w, z3.Concat(bv(a, w), bv(b, w)) << N)
        else:
            r = z3.Extract(w - 1, 0, z3.LShR(z3.Concat(bv(b, w), bv(a, w)), N))
    if isinstance(r, int) or True:
        ex.setzs(st, r, w)
    st.flags["C"] = st.flags["O"] = None
    ex.put(st, d, r, w)


@H("shlx", "shrx", "sarx")
def _shlx(ex, st, i):
    d, s, c = i.ops
    w = d[2]
    n = ex.val(st, c, w)
    n = n & (w - 1) if isinstance(n, int) else n & bv(w - 1, w)
    ex.put(st, d, shift_val(i.mn[:3], ex.val(st, s, w), n, w), w)


@H("rorx")
def _rorx(ex, st, i):
    d, s, c = i.ops
    ex.put(st, d, shift_val("ror", ex.val(st, s, d[2]), c[1], d[2]), d[2])


@H("bt", "bts", "btr", "btc")
def _bt(ex, st, i):
    d, s = i.ops
    w = ex.width([d] if d[0] == "r" or d[5] else [s])
    if d[0] == "m" and s[0] == "r":
        raise Unsupported("bt with memory bit string")
    a = ex.val(st, d, w)
    n = ex.val(st, s, w)
    if isinstance(n, int):
        n %= w
        if isinstance(a, IV):
            raise Unsupported("bt in integer domain")
        b = extract(a, n, n, w)
        st.flags["C"] = bool(b) if isinstance(b, int) else simp_bool(b == 1)
        m = 1 << n
    else:
        n = n & bv(w - 1, w)
        st.flags["C"] = (z3.LShR(bv(a, w), n) & 1) == 1
        m = z3.BitVecVal(1, w) << n
    st.flags.pop("slt", None)
    if i.mn != "bt":
        sv = st.flags["C"]
        zs = {f: st.flags.get(f) for f in "ZSOP"}
        if i.mn == "bts":
            r = ex.logic(st, "or", a, m, w)
        elif i.mn == "btr":
            r = ex.logic(st, "and", a, m ^ mask(w) if isinstance(m, int) else ~m, w)
        else:
            r = ex.logic(st, "xor", a, m, w)
        st.flags.update(zs)
        st.flags["C"] = sv
        ex.put(st, d, r, w)


@H("bsr", "lzcnt", "bsf", "tzcnt", "popcnt")
def _bitscan(ex, st, i):
    d, s = i.ops
    w = d[2]
    a = ex.val(st, s, w)
    k = i.mn
    if isinstance(a, int):
        if k == "popcnt":
            r = bin(a).count("1")
        elif a == 0:
            if k in ("bsr", "bsf"):
                st.flags["Z"] = True
                for f in "CSOP":
                    st.flags[f] = None
                return
            r = w
        elif k == "bsr":
            r = a.bit_length() - 1
        elif k == "lzcnt":
            r = w - a.bit_length()
        else:
            r = (a & -a).bit_length() - 1
    else:
        A = bv(a, w)
        if k == "popcnt":
            r = z3.BitVecVal(0, w)
            for j in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(j, j, A))
        else:
            order = range(w) if k in ("bsr", "lzcnt") else range(w - 1, -1, -1)
            r = z3.BitVecVal(w, w) if k in ("lzcnt", "tzcnt") else bv(ex.val(st, d, w), w)
            for j in order:
                v = (w - 1 - j) if k == "lzcnt" else j
                r = z3.If(z3.Extract(j, j, A) == 1, z3.BitVecVal(v, w), r)
    st.flags.pop("slt", None)
    if k in ("bsr", "bsf"):
        st.flags["Z"] = v_eq(a, 0, w)
        for f in "CSOP":
            st.flags[f] = None
    elif k == "popcnt":
        ex.setzs(st, r, w)
        st.flags["C"] = st.flags["O"] = False
    else:
        st.flags["C"] = v_eq(a, 0, w)
        ex.setzs(st, r, w)
        st.flags["O"] = None
    ex.put(st, d, r, w)


@H("bswap")
def _bswap(ex, st, i):
    d = i.ops[0]
    w = d[2]
    a = ex.val(st, d, w)
    ex.put(st, d, concat([(extract(a, 8 * k + 7, 8 * k, w), 8) for k in range(w // 8)]), w)


@H("andn")
def _andn(ex, st, i):
    d, a, b = i.ops
    w = d[2]
    x = ex.val(st, a, w)
    x = x ^ mask(w) if isinstance(x, int) else ~x
    ex.put(st, d, ex.logic(st, "and", x, ex.val(st, b, w), w), w)


@H("blsr", "blsi", "blsmsk")
def _bls(ex, st, i):
    d, s = i.ops
    w = d[2]
    a = ex.val(st, s, w)
    if isinstance(a, int):
        r = {"blsr": a & (a - 1), "blsi": a & -a, "blsmsk": a ^ (a - 1)}[i.mn] & mask(w)
    else:
        r = {"blsr": a & (a - 1), "blsi": a & -a, "blsmsk": a ^ (a - 1)}[i.mn]
    ex.setzs(st, r, w)
    st.flags["C"] = st.flags["O"] = None
    st.flags.pop("slt", None)
    ex.put(st, d, r, w)


@H("xchg")
def _xchg(ex, st, i):
    a, b = i.ops
    w = ex.width(i.ops)
    x, y = ex.val(st, a, w), ex.val(st, b, w)
    if a[0] == "r" and a == b:
        return
    ex.put(st, a, y, w)
    ex.put(st, b, x, w)


@H("xadd")
def _xadd(ex, st, i):
    a, b = i.ops
    w = ex.width(i.ops)
    x, y = ex.val(st, a, w), ex.val(st, b, w)
    r = ex.addc(st, x, y, 0, w)
    ex.put(st, b, x, w)
    ex.put(st, a, r, w)


@H("cmpxchg")
def _cmpxchg(ex, st, i):
    a, b = i.ops
    w = ex.width(i.ops)
    x = ex.val(st, a, w)
    acc = ex.rr(st, RAX, w)
    c = simp_bool(v_eq(acc, x, w)) if "__taken" not in st.user else None
    if not isinstance(c, bool):
        c = ex.branch(st, i, c)
    ex.subc(st, acc, x, 0, w)
    if c:
        ex.put(st, a, ex.val(st, b, w), w)
    else:
        ex.wr(st, RAX, w, 0, x)


@H("movs")
def _movs(ex, st, i):
    _string(ex, st, i, True)


@H("stos")
def _stos(ex, st, i):
    _string(ex, st, i, False)


def _string(ex, st, i, mv):
    if st.user.get("df"):
        raise Unsupported("string instruction with the direction flag set")
    w = ex.width([o for o in i.ops if o[0] == "m"])
    n = 1
    if i.pre:
        n = st.regs[RCX]
        if not isinstance(n, int):
            n2 = z3.simplify(n)
            if z3.is_bv_value(n2):
                n = n2.as_long()
            else:
                fv = st.user.pop("__rep", None)
                if fv is not None:
                    n = fv
                else:
                    vals = ex.concretize(st, n, 64, 64, "rep count")
                    if not vals:
                        raise PathEnd("infeasible")
                    for x in vals[1:]:
                        o = st.copy()
                        o.path.append(n == x)
                        o.user["__rep"] = x
                        o.pc = i.addr
                        ex.work.append(o)
                    st.path.append(n == vals[0])
                    n = vals[0]
    if n > 1 << 16:
        raise Violation("string instruction of %d elements" % n)
    b = w // 8
    for _ in range(n):
        v = ex.load(st, st.regs[RSI], b) if mv else ex.rr(st, RAX, w)
        ex.store(st, st.regs[RDI], v, b)
        st.regs[RDI] = ex.add64(st.regs[RDI], b)
        if mv:
            st.regs[RSI] = ex.add64(st.regs[RSI], b)
    if i.pre:
        st.regs[RCX] = 0


@H("ud2", "hlt")
def _ud2(ex, st, i):
    raise PathEnd("trap")


# ---- SSE data movement (values kept as (low64, high64)) --------------------------
def xget(ex, st, o):
    if o[0] == "x":
        return st.xmm.get(o[1], (0, 0))
    a = ex.ea(st, o)
    if o[5] == 64:
        return (ex.load(st, a, 8), 0)
    if o[5] == 32:
        return (zext(ex.load(st, a, 4), 32, 64), 0)
    return (ex.load(st, a, 8), ex.load(st, ex.add64(a, 8), 8))


@H("movups", "movaps", "movdqu", "movdqa", "movupd", "movapd", "lddqu")
def _movups(ex, st, i):
    d, s = i.ops
    if d[0] == "x":
        if s[0] == "m":
            a = ex.ea(st, s)
            st.xmm[d[1]] = (ex.load(st, a, 8), ex.load(st, ex.add64(a, 8), 8))
        else:
            st.xmm[d[1]] = xget(ex, st, s)
    else:
        lo, hi = xget(ex, st, s)
        a = ex.ea(st, d)
        ex.store(st, a, lo, 8)
        ex.store(st, ex.add64(a, 8), hi, 8)


@H("movq", "movlps", "movlpd", "movsd")
def _movq(ex, st, i):
    d, s = i.ops
    if s[0] == "x":
        v = xget(ex, st, s)[0]
    elif s[0] == "m":
        v = ex.load(st, ex.ea(st, s), 8)
    else:
        v = ex.val(st, s, 64)
    if d[0] == "x":
        keep = i.mn in ("movlps", "movlpd") or (i.mn == "movsd" and s[0] == "x")
        st.xmm[d[1]] = (v, xget(ex, st, d)[1] if keep else 0)
    elif d[0] == "m":
        ex.store(st, ex.ea(st, d), v, 8)
    else:
        ex.put(st, d, v, 64)


@H("movd")
def _movd(ex, st, i):
    d, s = i.ops
    if d[0] == "x":
        v = ex.val(st, s, 32)
        w = s[2] if s[0] == "r" else 32
        st.xmm[d[1]] = (zext(v, w, 64) if w != 64 else v, 0)
    else:
        v = xget(ex, st, s)[0]
        if d[0] == "r" and d[2] == 64:
            ex.put(st, d, v, 64)
        else:
            ex.put(st, d, extract(v, 31, 0, 64), 32)


@H("movhps", "movhpd")
def _movhps(ex, st, i):
    d, s = i.ops
    if d[0] == "x":
        st.xmm[d[1]] = (xget(ex, st, d)[0], ex.load(st, ex.ea(st, s), 8))
    else:
        ex.store(st, ex.ea(st, d), xget(ex, st, s)[1], 8)


@H("punpcklqdq", "movlhps", "unpcklpd")
def _punpck(ex, st, i):
    d, s = i.ops
    st.xmm[d[1]] = (xget(ex, st, d)[0], xget(ex, st, s)[0])


@H("movhlps")
def _movhlps(ex, st, i):
    d, s = i.ops
    st.xmm[d[1]] = (xget(ex, st, s)[1], xget(ex, st, d)[1])


@H("punpckhqdq", "unpckhpd")
def _punpckh(ex, st, i):
    d, s = i.ops
    st.xmm[d[1]] = (xget(ex, st, d)[1], xget(ex, st, s)[1])


@H("pxor", "xorps", "xorpd", "por", "orps", "pand", "andps", "pandn", "andnps")
def _pxor(ex, st, i):
    d, s = i.ops
    if i.mn in ("pxor", "xorps", "xorpd") and d == s:
        st.xmm[d[1]] = (0, 0)
        return
    a, b = xget(ex, st, d), xget(ex, st, s)
    fl = dict(st.flags)
    op = {"pxor": "xor", "xorps": "xor", "xorpd": "xor", "por": "or", "orps": "or"}.get(i.mn, "and")
    if i.mn in ("pandn", "andnps"):
        a = tuple(x ^ M64 if isinstance(x, int) else ~x for x in a)
    st.xmm[d[1]] = tuple(ex.logic(st, op, x, y, 64) for x, y in zip(a, b))
    st.flags = fl


@H("paddq", "psubq")
def _paddq(ex, st, i):
    d, s = i.ops
    a, b = xget(ex, st, d), xget(ex, st, s)
    fl = dict(st.flags)
    f = (lambda x, y: ex.addc(st, x, y, 0, 64)) if i.mn == "paddq" else (lambda x, y: ex.subc(st, x, y, 0, 64))
    st.xmm[d[1]] = tuple(f(x, y) for x, y in zip(a, b))
    st.flags = fl


@H("pshufd")
def _pshufd(ex, st, i):
    d, s, c = i.ops
    a = xget(ex, st, s)
    dw = [extract(a[k // 2], 32 * (k % 2) + 31, 32 * (k % 2), 64) for k in range(4)]
    r = [dw[(c[1] >> (2 * k)) & 3] for k in range(4)]
    st.xmm[d[1]] = (concat([(r[1], 32), (r[0], 32)]), concat([(r[3], 32), (r[2], 32)]))


@H("pextrq")
def _pextrq(ex, st, i):
    d, s, c = i.ops
    ex.put(st, d, xget(ex, st, s)[c[1] & 1], 64)


@H("pinsrq")
def _pinsrq(ex, st, i):
    d, s, c = i.ops
    a = list(xget(ex, st, d))
    a[c[1] & 1] = ex.val(st, s, 64)
    st.xmm[d[1]] = tuple(a)
