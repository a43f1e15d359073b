"""Machine state, memory and path exploration shared by the x86-64 and AArch64 front ends."""
import bisect
import time
import z3
from .terms import *

SENTINEL = 0x7ffff0000000
STACK_TOP = 0x7fff00000000
STACK_SIZE = 0x100000


class Violation(Exception):
    """The executed code does something no caller tolerates (bad memory access, ...)."""

    def __init__(self, kind, st=None, cond=None):
        super().__init__(kind)
        self.kind = kind
        self.st = st
        self.cond = cond


class PathEnd(Exception):
    def __init__(self, reason, info=None):
        self.reason = reason
        self.info = info


class Memory:
    __slots__ = ("words", "base", "los", "regs", "fresh", "nfresh", "wlog")

    def __init__(self, base=None):
        self.words = {}
        self.base = base            # callable(aligned addr) -> int or None
        self.los = []               # sorted region starts
        self.regs = {}              # lo -> (hi, name, writable)
        self.wlog = None

    def copy(self):
        m = Memory(self.base)
        m.words = dict(self.words)
        for k, v in m.words.items():
            if type(v) is list:
                m.words[k] = list(v)
        m.los = list(self.los)
        m.regs = dict(self.regs)
        m.wlog = None if self.wlog is None else set(self.wlog)
        return m

    def add_region(self, lo, hi, name, writable=True):
        i = bisect.bisect_left(self.los, lo)
        self.los.insert(i, lo)
        self.regs[lo] = (hi, name, writable)

    def del_region(self, lo):
        i = bisect.bisect_left(self.los, lo)
        if i < len(self.los) and self.los[i] == lo:
            del self.los[i]
            return self.regs.pop(lo)
        return None

    def find(self, a, size):
        i = bisect.bisect_right(self.los, a) - 1
        if i < 0:
            return None
        lo = self.los[i]
        hi, name, wr = self.regs[lo]
        if a + size > hi:
            return None
        return lo, hi, name, wr

    def check(self, a, size, write):
        r = self.find(a, size)
        if r is None:
            raise Violation("out-of-bounds %s of %d bytes at %#x (near %s)" % (
                "write" if write else "read", size, a, self.near(a)))
        if write and not r[3]:
            raise Violation("write of %d bytes into read-only object %s+%d" % (size, r[2], a - r[0]))
        return r

    def near(self, a):
        i = bisect.bisect_right(self.los, a) - 1
        if i < 0:
            return "?"
        lo = self.los[i]
        hi, name, wr = self.regs[lo]
        return "%s[%d]+%d" % (name, hi - lo, a - lo)

    def _word(self, a):
        w = self.words.get(a)
        if w is None:
            w = self.base(a) if self.base else None
            if w is None:
                w = z3.BitVec("uninit_%x" % a, 64)
                self.words[a] = w
        return w

    @staticmethod
    def _byte_of(w, i):
        if type(w) is int:
            return (w >> (8 * i)) & 255
        if type(w) is list:
            return w[i]
        if isinstance(w, IV):
            raise Unsupported("byte access to an integer-domain value")
        return (w, 64, 8 * i)

    @staticmethod
    def _join(bs):
        """bs: byte entries, least significant first -> value"""
        n = len(bs)
        if all(type(b) is int for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return v
        parts = []
        i = n - 1
        while i >= 0:
            b = bs[i]
            if type(b) is int:
                parts.append((b, 8))
                i -= 1
                continue
            t, w, lo = b
            j = i
            while j > 0 and type(bs[j - 1]) is tuple and bs[j - 1][0] is t and bs[j - 1][2] == bs[j][2] - 8:
                j -= 1
            parts.append((extract(t, lo + 7, bs[j][2], w), 8 * (i - j + 1)))
            i = j - 1
        return concat(parts)

    def load(self, a, size, check=True):
        if check:
            self.check(a, size, False)
        if size == 8 and not a & 7:
            w = self._word(a)
            if type(w) is list:
                return self._join(w)
            return w
        bs = []
        for i in range(size):
            x = a + i
            bs.append(self._byte_of(self._word(x & ~7), x & 7))
        return self._join(bs)

    def store(self, a, v, size, check=True):
        if check:
            r = self.check(a, size, True)
            if self.wlog is not None:
                self.wlog.add((a, size, r[2]))
        if size == 8 and not a & 7:
            self.words[a] = v
            return
        if isinstance(v, IV):
            raise Unsupported("unaligned store of an integer-domain value")
        w = size * 8
        if not isinstance(v, int) and z3.is_bv_value(v):
            v = v.as_long()
        i = 0
        while i < size:
            x = a + i
            wa, o = x & ~7, x & 7
            n = min(8 - o, size - i)
            if o == 0 and n == 8:
                self.words[wa] = extract(v, 8 * i + 63, 8 * i, w)
            else:
                old = self._word(wa)
                if type(old) is int and isinstance(v, int):
                    m = mask(8 * n) << (8 * o)
                    self.words[wa] = (old & ~m) | (((v >> (8 * i)) & mask(8 * n)) << (8 * o))
                else:
                    bl = [self._byte_of(old, k) for k in range(8)] if type(old) is not list else list(old)
                    for k in range(n):
                        if isinstance(v, int):
                            bl[o + k] = (v >> (8 * (i + k))) & 255
                        else:
                            bl[o + k] = (v, w, 8 * (i + k))
                    if all(type(b) is int for b in bl):
                        self.words[wa] = self._join(bl)
                    else:
                        self.words[wa] = bl
            i += n


class State:
    def __init__(self):
        self.regs = [0] * 16
        self.xmm = {}
        self.flags = {}
        self.mem = None
        self.pc = 0
        self.path = []          # branch conditions
        self.defs = []          # integer-domain definitions
        self.prods = []         # (a, b, p) nonlinear products
        self.bounds = {}        # integer variable -> (lo, hi)
        self.pcache = {}
        self.steps = 0
        self.end = None
        self.info = None
        self.heap = 0x600000000000
        self.user = {}          # harness data (copied shallowly; values copied when they have .copy)
        self.trace = []

    def copy(self):
        s = State.__new__(State)
        s.regs = list(self.regs)
        s.xmm = dict(self.xmm)
        s.flags = dict(self.flags)
        s.mem = self.mem.copy()
        s.pc = self.pc
        s.path = list(self.path)
        s.defs = list(self.defs)
        s.prods = list(self.prods)
        s.bounds = dict(self.bounds)
        s.pcache = dict(self.pcache)
        s.steps = self.steps
        s.end = self.end
        s.info = self.info
        s.heap = self.heap
        s.user = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.user.items()}
        s.trace = list(self.trace)
        return s

    def alloc(self, size, name, writable=True, align=16, gap=64):
        a = (self.heap + align - 1) // align * align
        self.heap = a + size + gap
        self.mem.add_region(a, a + size, name, writable)
        return a


class SolverStats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.by = {}

    def add(self, kind, dt, res=None):
        self.queries += 1
        self.time += dt
        self.by[kind] = self.by.get(kind, 0) + 1
        if res == "unknown":
            self.unknown += 1

    def merge(self, o):
        self.queries += o.queries
        self.time += o.time
        self.unknown += o.unknown
        for k, v in o.by.items():
            self.by[k] = self.by.get(k, 0) + v


STATS = SolverStats()


def check_sat(cons, timeout_ms=60000, kind="query", want_model=False, tactic=None):
    t = time.time()
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set("timeout", int(timeout_ms))
    for c in cons:
        if c is True:
            continue
        if c is False:
            STATS.add(kind, 0, "unsat")
            return ("unsat", None) if want_model else "unsat"
        s.add(c)
    r = str(s.check())
    STATS.add(kind, time.time() - t, r)
    if want_model:
        return r, (s.model() if r == "sat" else None)
    return r


class BranchSolver:
    """Incremental feasibility checks along the DFS path."""

    def __init__(self, timeout_ms=20000, assumptions=()):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.stack = []
        self.base = list(assumptions)
        for a in self.base:
            self.s.add(a)

    def sync(self, cons):
        n = 0
        st = self.stack
        while n < len(st) and n < len(cons) and st[n] is cons[n]:
            n += 1
        while len(st) > n:
            self.s.pop()
            st.pop()
        for c in cons[n:]:
            self.s.push()
            if not isinstance(c, LC):
                self.s.add(c)
            st.append(c)

    def feasible(self, cons, c):
        t = time.time()
        self.sync(cons)
        self.s.push()
        self.s.add(c)
        r = str(self.s.check())
        self.s.pop()
        STATS.add("branch", time.time() - t, r)
        return r != "unsat"       # unknown: keep the path (sound for proofs)

    def model(self, cons):
        self.sync(cons)
        t = time.time()
        r = str(self.s.check())
        STATS.add("model", time.time() - t, r)
        return self.s.model() if r == "sat" else None
