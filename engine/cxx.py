"""C++ library harnesses: compilation, the executor with path merging, models of the runtime library."""
import hashlib
import os
import time
import z3
from . import build
from .build import sh, scratch, locked, HERE
from .core import *
from .terms import *
from .x86 import (Program, Executor, RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI)
from .field import libc_hooks

FLAGS = ["-std=c++17", "-O1", "-w", "-fno-pic", "-fno-stack-protector", "-fcf-protection=none", "-mgeneral-regs-only",
         "-mno-red-zone", "-fno-omit-frame-pointer", "-fno-shrink-wrap", "-fno-optimize-sibling-calls",
         "-fno-tree-vectorize", "-fno-asynchronous-unwind-tables", "-fno-threadsafe-statics", "-fno-ipa-icf",
         "-fno-partial-inlining", "-fno-jump-tables", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-strict-aliasing"]


def compile_cxx(name, srcs, flags=(), libs=(), incs=()):
    """Compile harness sources (relative to /verif/harness or absolute) and link a fixed image; returns (elf, objs)."""
    key = hashlib.sha1(repr((name, srcs, flags, libs)).encode()).hexdigest()[:8]
    d = os.path.join(scratch(), "cxx_%s_%s" % (name, key))
    elf = os.path.join(d, "img.elf")
    with locked("cxx_" + name + key):
        os.makedirs(d, exist_ok=True)
        objs = []
        for i, s in enumerate(srcs):
            p = s if os.path.isabs(s) else os.path.join(HERE, "harness", s)
            o = os.path.join(d, "%d.o" % i)
            objs.append(o)
            if not os.path.exists(elf):
                sh(["g++"] + FLAGS + list(flags) + ["-I", os.path.join(HERE, "harness"), "-I", os.path.join(build.REPO, "c")]
                   + sum([["-I", x] for x in incs], []) + ["-c", p, "-o", o])
        if not os.path.exists(elf):
            build.link_static(objs, elf, libs)
    return elf, objs


class CExec(Executor):
    """Executor that can rejoin the two sides of a branch where they meet again."""

    def __init__(self, prog, hooks=None, merge=False, merge_in=None, **kw):
        kw.setdefault("max_steps", 20000000)
        super().__init__(prog, hooks, **kw)
        self.merge = merge
        self.merge_in = merge_in
        self.cfg = {}
        self.stop = None
        self.finished = []
        self.bounds_fn = None
        self.nmerged = 0
        stub = prog.path + ".stub.s"
        if os.path.exists(stub):
            for l in open(stub):
                if l.startswith(".globl \""):
                    n = l.split('"')[1]
                    a = prog.sym.get(n)
                    if a is not None and a not in self.hooks:
                        self.hooks[a] = self.unmodelled(n)

    @staticmethod
    def unmodelled(n):
        def h(ex, st):
            if not ex.bs.feasible(st.path, z3.BoolVal(True)):
                raise PathEnd("infeasible")
            raise Unsupported("call of %s, which has no model" % n)
        return h

    # ---- control flow graph -------------------------------------------------
    def func_bounds(self, a):
        if self.bounds_fn is None:
            self.bounds_fn = sorted((x, x + self.p.symsize.get(n, 0)) for n, x in self.p.sym.items()
                                    if self.p.symsize.get(n, 0))
        import bisect
        i = bisect.bisect_right(self.bounds_fn, (a, 1 << 62)) - 1
        while i >= 0:
            lo, hi = self.bounds_fn[i]
            if lo <= a < hi:
                return lo, hi
            if lo < a - 1000000:
                break
            i -= 1
        return None

    def ipdom(self, a):
        fb = self.func_bounds(a)
        if fb is None:
            return None
        t = self.cfg.get(fb[0])
        if t is None:
            t = self.cfg[fb[0]] = self.build_pdom(*fb)
        return t.get(a)

    def build_pdom(self, lo, hi):
        succ = {}
        EXIT = -1
        todo = [lo]
        noret = ("_Unwind_Resume", "__cxa_rethrow", "abort", "__assert_fail", "_ZSt9terminatev", "__cxa_throw",
                 "_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv")
        nraddr = {self.p.sym.get(n) for n in noret}
        DEAD = -2
        while todo:
            a = todo.pop()
            if a in succ:
                continue
            if not lo <= a < hi or a not in self.p.lines:
                succ[a] = [EXIT]
                continue
            i = self.p.get(a)
            if i.mn == "ret":
                s = [EXIT]
            elif i.mn == "jmp":
                s = [i.ops[0][1]] if i.ops[0][0] == "i" else [EXIT]
            elif i.mn.startswith("j"):
                s = [i.next, i.ops[0][1]]
            elif i.mn in ("ud2", "hlt"):
                s = [DEAD]
            elif i.mn == "call" and i.ops[0][0] == "i" and i.ops[0][1] in nraddr:
                s = [DEAD]
            else:
                s = [i.next]
            s = [x if x is None or x < 0 or lo <= x < hi else EXIT for x in s]
            s = [EXIT if x is None else x for x in s]
            succ[a] = s
            todo += [x for x in s if x >= 0]
        # blocks that only reach a dead end do not take part
        pred = {}
        for a, ss in succ.items():
            for x in ss:
                pred.setdefault(x, []).append(a)
        live = set()
        todo = [EXIT]
        while todo:
            x = todo.pop()
            for y in pred.get(x, ()):
                if y not in live:
                    live.add(y)
                    todo.append(y)
        nodes = [a for a in succ if a in live]
        # post-order on the reversed graph, then Cooper-Harvey-Kennedy
        order = []
        seen = {EXIT}
        stack = [(EXIT, iter(pred.get(EXIT, ())))]
        while stack:
            n, it = stack[-1]
            for y in it:
                if y in live and y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred.get(y, ()))))
                    break
            else:
                order.append(n)
                stack.pop()
        num = {n: k for k, n in enumerate(order)}
        idom = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for n in reversed(order):
                if n == EXIT:
                    continue
                new = None
                for x in succ[n]:
                    if x in idom and x in num:
                        if new is None:
                            new = x
                        else:
                            p, q = x, new
                            while p != q:
                                while num[p] < num[q]:
                                    p = idom[p]
                                while num[q] < num[p]:
                                    q = idom[q]
                            new = p
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    ch = True
        return {n: idom.get(n) for n in nodes}

    def rejoin(self, st, a):
        """(pc, rsp) where the sides of the branch at a meet, or None"""
        j = self.ipdom(a)
        if j is None or j == -2:
            return None
        if j == -1:
            fp = st.regs[RBP]
            if not isinstance(fp, int) or st.mem.find(fp, 16) is None or fp < st.regs[RSP]:
                return None
            ra = st.mem.load(fp + 8, 8)
            if not isinstance(ra, int) or (ra != SENTINEL and ra not in self.p.lines and ra not in self.hooks):
                return None
            return ra, fp + 16
        return j, st.regs[RSP]

    # ---- exploration ------------------------------------------------------------
    def branch(self, st, i, c):
        tk = st.user.pop("__taken", None)
        if tk is not None:
            return tk
        n = len(st.path)
        r = self.decide(st, c)
        if not isinstance(r, tuple):
            return r
        o = r[1]
        o.user["__br"] = i.addr
        j = self.rejoin(st, i.addr) if self.merge and (self.merge_in is None or self.merge_in(i.addr)) else None
        if j is None:
            self.work.append(o)
        else:
            self.pending = (o, n, j)
        return True

    pending = None
    runaway = False     # treat exceeding max_steps as a violation (the native replay decides)

    def run_path(self, st):
        p = self.p
        hooks = self.hooks
        insn = p.insn
        while True:
            pc = st.pc
            stp = self.stop
            if stp is not None and pc == stp[0] and st.regs[RSP] == stp[1] and "__taken" not in st.user:
                return "join"
            if pc == SENTINEL:
                st.end = "ret"
                return
            h = hooks.get(pc)
            if h is not None:
                r = h(self, st)
                if r == "stop":
                    return
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget exhausted")
                if self.pending is not None:
                    return "fork"
                if r != "skip":
                    continue
            i = insn.get(pc)
            if i is None:
                i = p.get(pc)
            self.seen.add(pc)
            st.steps += 1
            self.total_steps += 1
            if st.steps > self.max_steps:
                if self.runaway:
                    raise Violation("no end after %d instructions" % self.max_steps)
                raise Unsupported("more than %d instructions on one path" % self.max_steps)
            if not st.steps & 255 and self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            hd = i.h
            if hd is None:
                raise Unsupported("instruction %s" % i.text)
            try:
                n = hd(self, st, i)
            except Unsupported as e:
                if not getattr(e, "at", None):
                    e.at = True
                    e.args = ("%s [%s at %s]" % (e, i.text, self.where(st)),)
                raise
            st.pc = i.next if n is None else n
            if self.pending is not None:
                return "fork"

    def explore(self, states, stop):
        """runs states until stop; returns those that reached it; finished ones go to self.finished"""
        sw, ss = self.work, self.stop
        self.work = list(states)
        self.stop = stop
        out = []
        try:
            while self.work:
                st = self.work.pop()
                if type(st.pc) is tuple:
                    self.resume(st)
                    st.user.pop("__br", None)
                try:
                    r = self.run_path(st)
                except PathEnd as e:
                    if e.reason == "infeasible":
                        continue
                    st.end = e.reason
                    st.info = e.info
                    r = None
                except Violation as e:
                    if e.cond is not None:
                        st.path.append(e.cond)
                    if not self.bs.feasible(st.path, z3.BoolVal(True)):
                        continue
                    st.end = "violation"
                    st.info = "%s at %s" % (e.kind, self.where(st))
                    r = None
                if r == "fork":
                    o, n, j = self.pending
                    self.pending = None
                    got = self.explore([o, st], j)
                    if got:
                        self.work.extend(self.join(got, n))
                elif r == "join":
                    out.append(st)
                else:
                    self.finished.append(st)
                    if len(self.finished) > self.max_paths:
                        raise Unsupported("more than %d paths" % self.max_paths)
        finally:
            self.work, self.stop = sw, ss
        return out

    def run(self, st0):
        self.finished = []
        self.explore([st0], None)
        yield from self.finished

    def concretize_path(self, st, v, limit=64):
        return self.concretize(st, bv(v, 64), 64, limit)

    # ---- joining --------------------------------------------------------------------
    CALLER_DEAD = [RAX, RCX, RDX, RSI, RDI, 8, 9, 10, 11]

    def join(self, sts, n):
        if len(sts) == 1:
            return sts
        groups = []
        for s in sts:
            for g in groups:
                a = g[0]
                if a.mem.regs == s.mem.regs and a.user == s.user and a.trace == s.trace and a.xmm == s.xmm:
                    g.append(s)
                    break
            else:
                groups.append([s])
        out = []
        for g in groups:
            x = self.join_group(g, n, len(groups) == 1)
            if type(x) is list:
                out.extend(x)
            else:
                out.append(x)
        return out

    may_join = None             # states, length of their common path -> whether they may be rejoined
    keep_control = False        # do not rejoin states whose stack or preserved registers hold different numbers

    def same_control(self, g):
        a = g[0]
        for i in (RBX, RBP, 12, 13, 14, 15):
            v = a.regs[i]
            if isinstance(v, int) and any(isinstance(s.regs[i], int) and s.regs[i] != v for s in g[1:]):
                return False
        sp = a.regs[RSP]
        for s in g[1:]:
            for k, v in s.mem.words.items():
                if sp <= k < STACK_TOP:
                    o = a.mem.words.get(k)
                    if v is not o and isinstance(v, int) and isinstance(o, int) and v != o and not self.data_word(v):
                        return False
        return True

    @staticmethod
    def data_word(v):
        return v >> 56 == 0x5F

    def join_group(self, g, n, whole):
        if len(g) == 1:
            return g[0]
        if self.keep_control and not self.same_control(g):
            return g
        if self.may_join is not None and not self.may_join(g, n):
            return g
        self.nmerged += len(g) - 1
        a = g[0]
        conds = [z3.And(*s.path[n:]) if len(s.path) - n != 1 else s.path[n] for s in g]

        def mix(vals, w):
            r = vals[-1]
            for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                if v is r or (isinstance(v, int) and isinstance(r, int) and v == r):
                    continue
                if is_sym(v) and is_sym(r) and v.eq(r):
                    continue
                r = ite(c, v, r, w)
            return r
        m = a.mem
        keys = set()
        words = [s.mem.words for s in g]
        for w in words:
            keys.update(w)
        sp = a.regs[RSP]
        for k in keys:
            if STACK_TOP - STACK_SIZE <= k < sp:
                for w in words:
                    w.pop(k, None)
                continue
            vs = [w.get(k) for w in words]
            f = vs[0]
            if all(v is f for v in vs):
                continue
            vs = [s.mem._word(k) if v is None else v for s, v in zip(g, vs)]
            vs = [s.mem._join(v) if type(v) is list else v for s, v in zip(g, vs)]
            if any(type(v) is IV for v in vs):
                raise Unsupported("joining integer-domain values")
            m.words[k] = mix(vs, 64)
        for i in range(16):
            vs = [s.regs[i] for s in g]
            if any(isinstance(v, (IV, Part)) for v in vs):
                raise Unsupported("joining integer-domain values")
            a.regs[i] = mix(vs, 64)
        a.flags = {k: v for k, v in a.flags.items() if all(s.flags.get(k) is v for s in g[1:])}
        if m.wlog is not None:
            for s in g[1:]:
                m.wlog |= s.mem.wlog or set()
        a.steps = max(s.steps for s in g)
        a.heap = max(s.heap for s in g)
        a.path = a.path[:n]
        # the two sides cover the branch completely when nothing left it otherwise
        c = z3.simplify(z3.Or(*conds))
        if not z3.is_true(c):
            a.path.append(c)
        return a


# ---- the runtime library ------------------------------------------------------------
def _ret(ex, st, v=None):
    if v is not None:
        st.regs[RAX] = v
    for r in (RCX, RDX, RSI, RDI, 8, 9, 10, 11):
        st.regs[r] = 0xDEAD0000DEAD0000 + r
    st.pc = ex.pop(st)


def cint(ex, st, r, what="pointer or length"):
    v = st.regs[r]
    if not isinstance(v, int):
        v = ex.fork_values(st, v, "c%d" % r, what=what)
        st.regs[r] = v
    return v


def rt_hooks(limit=1 << 24):
    def new(kind):
        def h(ex, st):
            n = cint(ex, st, RDI, "allocation size")
            if n > limit:
                raise Violation("allocation of %d bytes" % n)
            _ret(ex, st, st.alloc(max(n, 1), "heap:" + kind, gap=64))
        return h

    def calloc(ex, st):
        n = cint(ex, st, RDI, "allocation size") * cint(ex, st, RSI, "allocation size")
        if n > limit:
            raise Violation("allocation of %d bytes" % n)
        a = st.alloc(max(n, 1), "heap:malloc", gap=64)
        for i in range(0, (n + 7) // 8 * 8, 8):
            st.mem.words[a + i] = 0
        _ret(ex, st, a)

    def free(kind):
        def h(ex, st):
            a = cint(ex, st, RDI)
            if a == 0:
                return _ret(ex, st)
            r = st.mem.regs.get(a)
            if r is None or not r[1].startswith("heap:"):
                raise Violation("release of a pointer that is not an allocation (%#x)" % a)
            if r[1] != "heap:" + kind:
                raise Violation("%s memory released by %s" % (r[1][5:], kind))
            st.mem.del_region(a)
            _ret(ex, st)
        return h

    def end(reason):
        def h(ex, st):
            raise PathEnd(reason)
        return h

    def assert_fail(ex, st):
        raise PathEnd("assert")

    def throw(ex, st):
        raise PathEnd("throw", (st.regs[RDI], st.regs[RSI]))

    def cxa_alloc(ex, st):
        n = cint(ex, st, RDI)
        _ret(ex, st, st.alloc(max(n, 1), "exception", gap=64))

    def ret0(ex, st):
        _ret(ex, st, 0)

    def strlen(ex, st):
        a = cint(ex, st, RDI)
        n = 0
        while True:
            b = st.mem.load(a + n, 1)
            if not isinstance(b, int):
                raise Unsupported("strlen of symbolic text")
            if b == 0:
                break
            n += 1
        _ret(ex, st, n)

    def ctype(cls):
        def h(ex, st):
            c = ex.rr(st, RDI, 32)
            if isinstance(c, int):
                _ret(ex, st, 1 if c in cls else 0)
            else:
                _ret(ex, st, z3.simplify(z3.If(z3.Or(*[c == x for x in cls]), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))))
        return h

    h = libc_hooks()
    h.update({
        "isspace": ctype([9, 10, 11, 12, 13, 32]), "isdigit": ctype(list(range(48, 58))),
        "isblank": ctype([9, 32]),
        "_ZNSt8ios_base4InitC1Ev": ret0, "_ZNSt8ios_base4InitD1Ev": ret0,
        "_Znwm": new("new"), "_Znam": new("new[]"), "malloc": new("malloc"), "calloc": calloc,
        "_ZnwmSt11align_val_t": new("new"), "_ZnamSt11align_val_t": new("new[]"),
        "_ZdlPv": free("new"), "_ZdlPvm": free("new"), "_ZdaPv": free("new[]"), "_ZdaPvm": free("new[]"), "free": free("malloc"),
        "_ZdlPvmSt11align_val_t": free("new"), "_ZdlPvSt11align_val_t": free("new"),
        "__assert_fail": assert_fail, "abort": end("abort"), "_ZSt9terminatev": end("terminate"), "exit": end("exit"),
        "__cxa_throw": throw, "__cxa_allocate_exception": cxa_alloc, "__cxa_rethrow": end("throw"),
        "_Unwind_Resume": end("throw"), "__cxa_free_exception": ret0, "__cxa_atexit": ret0, "atexit": ret0,
        "__cxa_begin_catch": end("throw"), "__gxx_personality_v0": end("throw"), "strlen": strlen,
        "_ZSt20__throw_length_errorPKc": end("throw"), "_ZSt17__throw_bad_allocv": end("throw"),
        "_ZSt28__throw_bad_array_new_lengthv": end("throw"), "_ZSt19__throw_logic_errorPKc": end("throw"),
        "_ZSt20__throw_out_of_rangePKc": end("throw"), "_ZSt24__throw_out_of_range_fmtPKcz": end("throw"),
        "_ZSt25__throw_bad_function_callv": end("bad_function_call"), "_ZSt20__throw_system_errori": end("system_error"),
    })
    return h


class Harness:
    """one compiled image, its executor and buffers"""

    def __init__(self, name, srcs, flags=(), libs=(), incs=()):
        self.elf, self.objs = compile_cxx(name, srcs, flags, libs, incs)
        self.p = Program(self.elf)
        self.dir = os.path.dirname(self.elf)

    def sym(self, n):
        return self.p.sym[n]

    def state(self, init=False, hooks=None):
        """fresh state, static constructors already run"""
        st = self.p.new_state()
        if init:
            for n, a in sorted(self.p.sym.items(), key=lambda z: z[1]):
                if not n.startswith("_GLOBAL__sub_I_"):
                    continue
                ex = CExec(self.p, hooks or rt_hooks())
                ex.call(st, a)
                r = list(ex.run(st))
                if len(r) != 1 or r[0].end != "ret":
                    raise Unsupported("static initialisation: %s %s" % (r[0].end if r else "?", r and r[0].info))
                st = r[0]
                st.end = None
                st.regs = [0] * 16
                st.regs[RSP] = STACK_TOP - 4096
                st.steps = 0
        return st

    def buf(self, st, n, name, vals=None, writable=True):
        a = st.alloc(n, name, writable, align=16, gap=64)
        if vals is not None:
            for i, v in enumerate(vals):
                st.mem.words[a + 8 * i] = v
        return a

    def bytes_buf(self, st, data, name, writable=False, align=16):
        """data: list of ints / 8-bit terms"""
        a = st.alloc(len(data), name, writable, align=align, gap=64)
        for i, b in enumerate(data):
            st.mem.store(a + i, b, 1, False)
        return a

    ARGS = [RDI, RSI, RDX, RCX, 8, 9]

    def setup(self, ex, st, fn, args):
        for i in range(16):
            if i not in (RSP,):
                st.regs[i] = 0x1234567800000000 + i
        for r, v in zip(self.ARGS, args):
            st.regs[r] = v
        if len(args) > 6:
            if len(args) & 1:
                ex.push(st, 0)
            for v in reversed(args[6:]):
                ex.push(st, v)
        ex.call(st, self.p.sym[fn])

    def encoded(self, ex):
        out = set()
        for pc in ex.seen:
            pass
        fb = sorted((x, n) for n, x in self.p.sym.items() if self.p.symsize.get(n))
        import bisect
        starts = [x for x, _ in fb]
        names = set()
        for pc in ex.seen:
            i = bisect.bisect_right(starts, pc) - 1
            if i >= 0:
                names.add(fb[i][1])
        dem = dict((n, d) for d, n in (self.p.dem or [])) if self.p.dem else None
        if dem is None:
            self.p.find_syms("^$")
            dem = {n: d for d, n in self.p.dem}
        return {dem.get(n, n).split("(")[0] for n in names}
