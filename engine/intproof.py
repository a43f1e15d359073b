"""Discharges modular-arithmetic obligations about one integer-domain path.

The path is a list of exact linear definitions (every carry, borrow, high word and quotient is a
named variable).  Obligation:  V * scale == target (mod q)  and  0 <= V < q, for every assignment
that satisfies the definitions, the bounds, the path condition and the product bounds.

1. Elimination (no trust needed: step 4 re-checks it) rewrites V*scale - target as
   q*K + residual, K an integer combination.
2. Every low word the code discards must be 0: a local integer query (Montgomery's m*q + t = 0 mod 2^64).
3. Every carry/borrow that the code drops or assumes must have its claimed value: a rational
   query (infeasibility over the reals implies infeasibility over the integers).
4. definitions => V*scale - target == q*K + residual, and residual == 0: solver query.
"""
import time
import z3
from .lin import *
from .terms import *
from .core import STATS, check_sat


class Inconclusive(Exception):
    pass


class PathProof:
    def __init__(self, st, extra=(), timeout_ms=60000, shared=None):
        """extra: list of LC (product bounds, preconditions).  shared: facts already proven on
        another path of the same exploration without using any branch condition (variable names
        are unique per exploration, so a fact about one is valid on every path that defines it)"""
        self.st = st
        self.extra = list(extra)
        self.timeout = timeout_ms
        self.shared = shared if shared is not None else {}
        self.base = None
        self.lem = []                 # proven LC
        self.zero = {}
        names = {x for _, m, a, _ in st.defs for x in (m, a)}
        for v, b in self.shared.items():
            if v in names and b is not None:
                self.zero[v] = b
                self.lem.append(eq(Lin.var(v), b))
        self.path = self.tighten(list(st.path))
        self.qdefs = set()
        self.classify()
        self.solver = None
        self.interval_pass()

    def tighten(self, path):
        les = {}
        for c in path:
            if isinstance(c, LC) and c.op == "<=":
                les[repr(sorted(c.l.c.items()))] = c.l.k
        out = []
        for c in path:
            if isinstance(c, LC) and c.op == "!=":
                # x != 0 with a known side: x <= 0 -> x <= -1 ; -x <= 0 -> -x <= -1
                for l in (c.l, c.l * -1):
                    k = les.get(repr(sorted(l.c.items())))
                    if k is not None and k == l.k:
                        out.append(LC("<=", l + 1))
            out.append(c)
        # bounds: v in [0, ..], v != 0  ->  v >= 1
        more = []
        for c in out:
            if isinstance(c, LC) and c.op == "!=" and len(c.l.c) == 1:
                (v, x), = c.l.c.items()
                if c.l.k % x == 0 and v in self.st.bounds:
                    val = -c.l.k // x
                    lo, hi = self.st.bounds[v]
                    if val == lo:
                        more.append(le(lo + 1, Lin.var(v)))
                    if val == hi:
                        more.append(le(Lin.var(v), hi - 1))
            elif isinstance(c, LC) and c.op == "!=":
                # all coefficients positive, all lower bounds 0, constant 0 (an OR tested for zero)
                for s in (1, -1):
                    l = c.l * s
                    if l.k == 0 and all(x > 0 for x in l.c.values()) and \
                            all(self.st.bounds.get(v, (None,))[0] == 0 for v in l.c):
                        more.append(le(1, l))
        return out + more

    def classify(self):
        """words used as multiplicands of a constant product, themselves low words of one: Montgomery quotients"""
        used = set()
        prodvars = {p for _, _, p in self.st.prods}
        muls = {}
        for i, (kind, main, aux, l) in enumerate(self.st.defs):
            if kind == "mul":
                rhs = [v for v in l.c if v not in (main, aux)]
                if not any(v in prodvars for v in rhs):
                    used.update(rhs)
                    muls[main] = i
        refs = {}
        for i, (kind, main, aux, l) in enumerate(self.st.defs):
            for v in l.c:
                refs[v] = refs.get(v, 0) + 1
        for v in used:
            if v in muls:
                aux = self.st.defs[muls[v]][2]
                if refs.get(aux, 0) <= 1:          # the high word is thrown away
                    self.qdefs.add(muls[v])

    def interval_pass(self):
        """carries out of sums that cannot reach 2^64 are 0 (each confirmed by the solver)"""
        hi = {v: b[1] for v, b in self.st.bounds.items()}
        for kind, main, aux, l in self.st.defs:
            if kind != "add":
                continue
            m = -l.k
            ok = True
            for v, x in l.c.items():
                if v in (main, aux):
                    continue
                if x > 0:
                    ok = False
                    break
                m += -x * hi.get(v, M64)
            if ok and m <= M64:
                if self.settle(aux) == 0:
                    hi[main] = min(hi.get(main, M64), m)
                    hi[aux] = 0

    def mk_solver(self, mk, defs):
        s = z3.SolverFor("QF_LRA") if mk is real else z3.Solver()
        s.set("timeout", int(self.timeout))
        vs = set()
        for _, _, _, l in defs:
            s.add(l.z3(mk) == 0)
            vs.update(l.c)
        return s, vs

    def add_bounds(self, s, mk, vs):
        for v in vs:
            if v in self.st.bounds:
                lo, hi = self.st.bounds[v]
                s.add(mk(v) >= lo, mk(v) <= hi)

    def lra(self, goal_neg, kind="lra", extra=(), base=False):
        """is goal_neg (list of LC) infeasible over the reals, given everything known?"""
        if base:
            if self.base is None:
                s, vs = self.mk_solver(real, [d for i, d in enumerate(self.st.defs) if i not in self.qdefs])
                for c in self.extra:
                    vs.update(c.l.c)
                    s.add(c.z3(real))
                self.add_bounds(s, real, vs)
                for v, b in self.shared.items():
                    if v in vs and b is not None:
                        s.add(z3.Real(v) == b)
                self.base = (s, vs)
            s, known = self.base
            t = time.time()
            s.push()
            for c in goal_neg:
                s.add(c.z3(real))
            self.add_bounds(s, real, {v for c in goal_neg for v in c.l.c} - known)
            r = str(s.check())
            s.pop()
            STATS.add(kind, time.time() - t, r)
            return r
        if self.solver is None:
            defs = [d for i, d in enumerate(self.st.defs) if i not in self.qdefs]
            s, vs = self.mk_solver(real, defs)
            for c in self.extra + self.path:
                if isinstance(c, LC):
                    vs.update(c.l.c)
                    s.add(c.z3(real))
            self.add_bounds(s, real, vs)
            self.known = vs
            self.solver = s
            for c in self.lem:
                s.add(c.z3(real))
        s = self.solver
        t = time.time()
        s.push()
        vs = set()
        for c in list(goal_neg) + list(extra):
            s.add(c.z3(real))
            vs.update(c.l.c)
        self.add_bounds(s, real, vs - self.known)
        r = str(s.check())
        s.pop()
        STATS.add(kind, time.time() - t, r)
        return r

    def lemma(self, c):
        self.lem.append(c)
        if self.solver is not None:
            self.solver.add(c.z3(real))

    def zero_word(self, v, i):
        """local integer proof that the discarded low word v (defined by def i) is 0"""
        st = self.st
        defby = {}
        for k, (kind, main, aux, l) in enumerate(st.defs):
            if k <= i:
                for x in (main, aux):
                    if x:
                        defby[x] = k
        # cone: follow definitions of variables until inputs / sums that feed the quotient
        keep = {i}
        work = [i]
        depth = {i: 0}
        while work:
            k = work.pop()
            kind, main, aux, l = st.defs[k]
            for x in l.c:
                j = defby.get(x)
                if j is None or j in keep or depth[k] >= 4:
                    continue
                if st.defs[j][0] in ("mul",) and x == st.defs[j][1]:
                    keep.add(j)
                    depth[j] = depth[k] + 1
                    work.append(j)
        cs = []
        vs = set()
        for k in keep:
            l = st.defs[k][3]
            vs.update(l.c)
            cs.append(l.z3(integer) == 0)
        for x in vs:
            lo, hi = st.bounds[x]
            cs += [z3.Int(x) >= lo, z3.Int(x) <= hi]
        for c in self.lem:
            if set(c.l.c) <= vs:
                cs.append(c.z3(integer))
        cs.append(z3.Int(v) != 0)
        return check_sat(cs, 20000, "lia-local")

    def prove_congruent(self, V, scale, target, q):
        """V*scale == target (mod q).  Returns None on success or a string saying what failed."""
        st = self.st
        F = V * scale - target
        F0 = F
        prodvars = {p for _, _, p in st.prods}
        for i in range(len(st.defs) - 1, -1, -1):
            kind, main, aux, l = st.defs[i]
            if kind == "or" or i in self.qdefs:
                continue
            f = F.c.get(main, 0)
            if f:
                F = F - l * f          # l has coefficient +1 on main
            elif aux is not None and F.c.get(aux, 0):
                f = F.c[aux]
                a = l.c[aux]
                if f % a == 0:
                    F = F - l * (f // a)
        K = Lin()
        resid = Lin()
        for v, x in F.c.items():
            if x % q == 0:
                K.c[v] = x // q
            else:
                resid.c[v] = x
        if F.k % q == 0:
            K.k = F.k // q
        else:
            K.k = F.k // q
            resid.k = F.k % q
        # discarded low words
        defidx = {}
        for i, (kind, main, aux, l) in enumerate(st.defs):
            defidx[main] = i
            if aux:
                defidx[aux] = i
        todo = sorted(resid.c, key=lambda v: defidx.get(v, -1))
        # carries that other carries depend on come first: settle every carry from the top of the code
        order = []
        for v in todo:
            order.append(v)
        fails = []
        # earlier carries strengthen later ones
        res = Lin(dict(resid.c), resid.k)
        for v in order:
            lo, hi = st.bounds.get(v, (None, None))
            if (lo, hi) == (0, 1):
                continue
            i = defidx.get(v)
            if i is not None and st.defs[i][0] == "add" and st.defs[i][1] == v:
                # the carry into this word must be known first
                for x in list(st.defs[i][3].c):
                    if st.bounds.get(x) == (0, 1) and x != st.defs[i][2]:
                        self.settle(x)
                r = self.zero_word(v, i)
                if r == "unsat":
                    self.lemma(eq(Lin.var(v), 0))
                    res = res - Lin.var(v) * res.c[v]
        for v in order:
            if st.bounds.get(v) == (0, 1):
                b = self.settle(v)
                if b is not None:
                    x = res.c.pop(v)
                    res = Lin(dict(res.c), res.k + x * b)
        if res.c or res.k:
            r1 = self.lra([self.tight(le(1, res))], "residual")
            r2 = self.lra([self.tight(le(res, -1))], "residual") if r1 == "unsat" else "skipped"
            if (r1, r2) != ("unsat", "unsat"):
                # the residual may still be a multiple of q
                if not res.c and res.k % q == 0:
                    pass
                elif not self.split_residual(res) and not (self.settle_path() and self.split_residual(res)):
                    fails.append("residual %r not provably 0 (%s/%s)" % (res, r1, r2))
        # re-check the elimination itself
        d = F0 - (K * q + resid)
        r = self.identity(d)
        if r != "unsat":
            fails.append("identity re-check: %s" % r)
        return "; ".join(fails) or None

    def identity(self, d):
        """definitions => d == 0 (linear algebra over the rationals)"""
        defs = [x for i, x in enumerate(self.st.defs) if i not in self.qdefs and x[0] != "or"]
        cs = [l.z3(real) == 0 for _, _, _, l in defs]
        cs.append(d.z3(real) != 0)
        return check_sat(cs, self.timeout, "identity")

    def settle(self, v):
        """prove that the 0/1 variable v is constant; returns its value or None"""
        if v in self.zero:
            return self.zero[v]
        if v not in self.shared:
            b = None
            if self.lra([le(1, Lin.var(v))], "carry", base=True) == "unsat":
                b = 0
            elif self.lra([le(Lin.var(v), 0)], "carry", base=True) == "unsat":
                b = 1
            elif self.split_carry(v):
                b = 0
            self.shared[v] = b
            if b is not None:
                self.base[0].add(z3.Real(v) == b)
        r = self.shared[v]
        if r is None:
            if self.lra([le(1, Lin.var(v))], "carry") == "unsat":
                r = 0
            elif self.lra([le(Lin.var(v), 0)], "carry") == "unsat":
                r = 1
        self.zero[v] = r
        if r is not None:
            self.lemma(eq(Lin.var(v), r))
        return r

    def split_carry(self, v):
        """carry v is 0 for every value of the 0/1 variables its word is made of (cuts the real relaxation)"""
        by = {}
        for kind, main, aux, l in self.st.defs:
            for x in (main, aux):
                if x:
                    by[x] = (kind, main, aux, l)
        bins, seen, level = [], {v}, [v]
        for _ in range(4):
            nxt = []
            for x in level:
                d = by.get(x)
                if d is None or d[0] != "add":
                    continue
                for y in d[3].c:
                    if y in seen or y in (d[1], d[2]):
                        continue
                    seen.add(y)
                    if self.st.bounds.get(y) == (0, 1):
                        bins.append(y)
                    else:
                        nxt.append(y)
            level = nxt
        bins = bins[:6]

        def go(i, asg):
            if self.lra(asg, "carry-split", base=True) == "unsat":
                return True
            if i == len(bins):
                return False
            return all(go(i + 1, asg + [eq(Lin.var(bins[i]), b)]) for b in (1, 0))
        return bool(bins) and go(0, [le(1, Lin.var(v))])

    def settle_path(self):
        """settle the carries behind the words the branch conditions talk about"""
        by = {}
        for kind, main, aux, l in self.st.defs:
            by[main] = aux
        for c in self.path:
            if isinstance(c, LC):
                for v in c.l.c:
                    for x in (v, by.get(v)):
                        if x is not None and self.st.bounds.get(x) == (0, 1):
                            self.settle(x)
        return True

    def split_residual(self, res, limit=8):
        """residual == 0, splitting on its 0/1 variables"""
        bins = [v for v in res.c if self.st.bounds.get(v) == (0, 1)][:limit]
        asg = [[]]
        for v in bins:
            nxt = []
            for a in asg:
                for b in (0, 1):
                    x = a + [eq(Lin.var(v), b)]
                    if self.lra(x, "split") != "unsat":
                        nxt.append(x)
            asg = nxt
        for a in asg:
            val = res
            for c in a:
                (v, _), = c.l.c.items()
                b = -c.l.k
                val = Lin({x: y for x, y in val.c.items() if x != v}, val.k + val.c.get(v, 0) * b)
            for g in (le(1, val), le(val, -1)):
                if val.c:
                    # integrality of the rest: a multiple of the common factor
                    if self.lra(a + [self.tight(g)], "residual") != "unsat":
                        return False
                elif g.const():
                    return False
        return True

    @staticmethod
    def tight(c):
        """tighten l <= 0 by the gcd of the coefficients"""
        from math import gcd
        g = 0
        for x in c.l.c.values():
            g = gcd(g, abs(x))
        if g <= 1:
            return c
        return LC("<=", Lin({v: x // g for v, x in c.l.c.items()}, -((-c.l.k) // g)))

    def prove(self, c, kind="range"):
        """c (LC) holds on this path?  rational query first, integers second"""
        n = c.neg()
        if n.op == "!=":
            if self.lra([LC("<=", n.l + 1)], kind) == "unsat" and self.lra([LC("<=", n.l * -1 + 1)], kind) == "unsat":
                return True
        elif self.lra([n], kind) == "unsat":
            return True
        return False

    def feasible(self):
        return self.lra([], "feasible") != "unsat"

    def model(self, conds, timeout_ms=60000):
        """integer model of the path plus conds (None when none found)"""
        s, vs = self.mk_solver(integer, self.st.defs)
        s.set("timeout", timeout_ms)
        for c in self.extra + self.path + list(conds):
            if isinstance(c, LC):
                s.add(c.z3(integer))
                vs.update(c.l.c)
        self.add_bounds(s, integer, vs)
        t = time.time()
        r = str(s.check())
        STATS.add("model", time.time() - t, r)
        if r != "sat":
            return r, None
        m = s.model()
        return r, {v: m.eval(z3.Int(v), model_completion=True).as_long() for v in vs}


def product_bounds(st, A, B, q, amax=None, bmax=None, partial=False):
    """Sound facts about the abstracted products p = a_i*b_j: row/column sums are a word times a
    whole operand.  A, B: lists of limb variable names.  Returns (list of LC, Lin for A*B)."""
    pos = {}
    for i, v in enumerate(A):
        pos.setdefault(v, []).append((0, i))
    for j, v in enumerate(B):
        pos.setdefault(v, []).append((1, j))
    P = {}
    for x, y, p in st.prods:
        vx, vy = list(x.e.c), list(y.e.c)
        if len(vx) != 1 or len(vy) != 1 or x.e.k or y.e.k or x.e.c[vx[0]] != 1 or y.e.c[vy[0]] != 1:
            raise Inconclusive("product of derived words")
        P[tuple(sorted((vx[0], vy[0])))] = p
    get = lambda a, b: P.get(tuple(sorted((a, b))))
    cs = []
    amax = (q - 1) if amax is None else amax
    bmax = (q - 1) if bmax is None else bmax
    tot = Lin()
    for i, a in enumerate(A):
        row = Lin()
        for j, b in enumerate(B):
            p = get(a, b)
            if p is None and partial:
                continue
            if p is None:
                raise Inconclusive("the code never multiplies %s by %s" % (a, b))
            row = row + Lin.var(p) * (1 << (64 * j))
        cs.append(le(row, M64 * bmax))
        cs.append(le(row, Lin.var(a) * bmax))
        tot = tot + row * (1 << (64 * i))
    for j, b in enumerate(B):
        col = Lin()
        for i, a in enumerate(A):
            if get(a, b) is None:
                continue
            col = col + Lin.var(get(a, b)) * (1 << (64 * i))
        cs.append(le(col, M64 * amax))
        cs.append(le(col, Lin.var(b) * amax))
    cs.append(le(tot, amax * bmax))
    return cs, tot
