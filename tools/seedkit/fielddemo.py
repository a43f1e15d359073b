"""Builds a generated field from the sources under the current directory and calls its routines."""
import os, shutil, subprocess, sys, tempfile, atexit
H = os.path.dirname(os.path.abspath(__file__))
P = {
    "bn128r": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bn128q": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "secp256k1q": 2**256 - 2**32 - 977,
    "bls12_381q": int("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16),
    "p64": 2**64 - 59, "p128": 2**127 - 1, "t126": 2**126 + 7, "t253": 2**253 + 39, "goldilocks": 2**64 - 2**32 + 1,
}
T = {"S": 0, "SM": 0x40000000, "L": 0x80000000, "LM": 0xC0000000}
FNS = ("rawAdd rawSub rawNeg rawMMul rawMSquare rawMMul1 rawToMontgomery rawFromMontgomery rawCopy rawSwap rawIsEq rawIsZero rawShl rawShr "
       "add sub mul band bor bxor shl shr eq neq lt gt leq geq land lor copy neg square bnot lnot toNormal toLongNormal toMontgomery "
       "toInt isTrue copyn").split()


def sh(*a, **k):
    r = subprocess.run(a, capture_output=True, text=True, **k)
    if r.returncode:
        sys.stderr.write(r.stdout + r.stderr)
        sys.exit(0 if False else 90)
    return r.stdout


class Field:
    def __init__(self, prime, backend="asm"):
        self.q = q = P[prime]
        self.n = (q.bit_length() - 1) // 64 + 1
        self.R = 1 << 64 * self.n
        d = tempfile.mkdtemp(prefix="fielddemo")
        atexit.register(shutil.rmtree, d, True)
        sh("node", H + "/shims/render.js", "src", str(q), "Fr", d)
        if backend == "asm":
            sh("nasm", "-felf64", d + "/fr.asm", "-o", d + "/fr.o")
            objs = [d + "/fr.o"]
        else:
            objs = []
            for s in ("_generic", "_raw_generic"):
                sh("g++", "-std=c++11", "-O1", "-w", "-I", d, "-c", d + "/fr%s.cpp" % s, "-o", d + "/fr%s.o" % s)
                objs.append(d + "/fr%s.o" % s)
        syms = {}
        for l in sh("nm", *objs).splitlines():
            p = l.split()
            if len(p) == 3 and p[1] in "Tt":
                nm = p[2]
                syms[nm] = nm
                if nm.startswith("_Z") and nm[2].isdigit():
                    i = 2
                    while nm[i].isdigit():
                        i += 1
                    syms[nm[i:i + int(nm[2:i])]] = nm
        self.names = [f for f in FNS if "Fr_" + f in syms]
        with open(d + "/tab.c", "w") as f:
            for i, x in enumerate(self.names):
                f.write('extern char f%d[] __asm__("%s");\n' % (i, syms["Fr_" + x]))
            f.write("#include <stdlib.h>\nvoid Fr_fail(void){abort();}\nvoid a(void)__asm__(\"_Z7Fr_failv\");void a(void){abort();}\n"
                    "void b(void)__asm__(\"_Z10Fr_longErrv\");void b(void){abort();}\n")
            f.write("void *driver_table[] = {%s 0};\n" % "".join("f%d," % i for i in range(len(self.names))))
        sh("gcc", "-O1", "-w", "-no-pie", d + "/tab.c", H + "/driver.c", H + "/tramp.s", *objs, "-lgmp", "-lstdc++", "-o", d + "/run")
        self.exe = d + "/run"

    def call(self, fn, args, mode="C"):
        """args: bytes (a buffer; the same object is the same buffer) or int.  Returns (rax, [buffers], damage, clobbers) or None (died)"""
        bufs, s = [], []
        for a in args:
            if isinstance(a, int):
                s.append("i%x" % (a & 2**64 - 1))
            else:
                k = next((i for i, b in enumerate(bufs) if b is a), None)
                if k is None:
                    bufs.append(a)
                    k = len(bufs) - 1
                s.append("b%d" % k)
        line = mode + " %d %d %s %d %s\n" % (self.names.index(fn), len(s), " ".join(s), len(bufs), " ".join("x" + b.hex() for b in bufs))
        r = subprocess.run([self.exe], input=line, capture_output=True, text=True)
        o = r.stdout.split()
        if r.returncode or len(o) < 3:
            return None
        return int(o[0], 16), [bytes.fromhex(x[1:]) for x in o[3:]], int(o[1]), int(o[2], 16)

    # raw
    def raw(self, v):
        return v.to_bytes(8 * self.n, "little")

    def rawop(self, fn, a, b=None):
        r = self.call(fn, [self.raw(0), self.raw(a)] + ([] if b is None else [b if fn in ("rawMMul1", "rawShl", "rawShr") else self.raw(b)]))
        return None if r is None else int.from_bytes(r[1][0], "little")

    # elements
    def el(self, t, v):
        q = self.q
        v %= q
        s = v if v < 2**31 else v - q
        short = s & 0xffffffff if t in ("S", "SM") else 0
        lng = 0 if t == "S" else v if t == "L" else v * self.R % q
        if t == "S":
            lng = 0x1234567
        return short.to_bytes(4, "little") + T[t].to_bytes(4, "little") + lng.to_bytes(8 * self.n, "little")

    def val(self, e):
        t = int.from_bytes(e[4:8], "little")
        s = int.from_bytes(e[:4], "little", signed=True)
        l = int.from_bytes(e[8:], "little")
        if t == T["S"]:
            return s % self.q
        if t == T["SM"]:
            return s % self.q if l == s * self.R % self.q else None
        if t not in T.values() or l >= self.q:
            return None
        return l if t == T["L"] else l * pow(self.R, -1, self.q) % self.q

    def op(self, fn, a, b=None):
        r = self.call(fn, [b"\xcc" * len(a), a] + ([] if b is None else [b]))
        return None if r is None else self.val(r[1][0])


def want(what, got, exp):
    if got != exp:
        print("%s: got %s, expected %s" % (what, hex(got) if isinstance(got, int) else got, hex(exp) if isinstance(exp, int) else exp))
        sys.exit(1)
