"""Runs the natively built code on concrete inputs (counterexample replay, encoder validation)."""
import os
import subprocess
from .build import HERE, sh, CXXF


class Crash(Exception):
    pass


class Buf:
    def __init__(self, data):
        self.data = bytes(data)


class Native:
    """objs: object files; funcs: {name: symbol}"""

    def __init__(self, objs, funcs, out, libs=(), extra=()):
        self.names = list(funcs)
        self.exe = out
        if not os.path.exists(out):
            tab = out + ".tab.c"
            with open(tab, "w") as f:
                for i, n in enumerate(self.names):
                    f.write('extern char f%d[] __asm__("%s");\n' % (i, funcs[n]))
                f.write("void *driver_table[] = {%s 0};\n" % "".join("f%d," % i for i in range(len(self.names))))
            d = os.path.join(HERE, "tools/native")
            tmp = out + ".%d" % os.getpid()
            sh(["gcc", "-O1", "-w", "-no-pie", "-fno-pic", "-c", os.path.join(d, "driver.c"), "-o", tmp + ".d.o"])
            sh(["gcc", "-w", "-no-pie", "-fno-pic", "-c", tab, "-o", tmp + ".t.o"])
            sh(["g++", "-no-pie", "-w", tmp + ".d.o", tmp + ".t.o", os.path.join(d, "tramp.s")] + list(objs) + list(extra)
               + list(libs) + ["-o", tmp])
            os.rename(tmp, out)
        self.p = None
        self.calls = 0

    guard = False

    def guarded(self):
        self.guard = True
        return self

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def call(self, fn, args, mode="C"):
        """args: int | Buf (the same Buf object = the same address).
        Returns (rax, {buf: bytes}, canary_bad, clobbered)."""
        if self.guard and mode == "C" and all(len(a.data) <= 4096 for a in args if isinstance(a, Buf)):
            # first with every buffer ending, then starting, at an inaccessible page
            for m in "ES":
                r = self.call(fn, args, m)
                if r[2]:
                    return r
        bufs = []
        s = []
        for a in args:
            if isinstance(a, Buf):
                if a not in bufs:
                    bufs.append(a)
                s.append("b%d" % bufs.index(a))
            else:
                s.append("i%x" % (a & (1 << 64) - 1))
        if self.p is None:
            self.start()
        self.calls += 1
        line = mode + " %d %d %s %d %s\n" % (self.names.index(fn), len(s), " ".join(s), len(bufs),
                                       " ".join("x" + b.data.hex() for b in bufs))
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
            import select
            if not select.select([self.p.stdout], [], [], 30)[0]:
                self.close()
                raise Crash("no answer within 30 seconds")
            r = self.p.stdout.readline().split()
        except BrokenPipeError:
            r = []
        if not r:
            rc = self.p.wait()
            self.p = None
            raise Crash("the process died (status %s)" % rc)
        return (int(r[0], 16), {b: bytes.fromhex(x[1:]) for b, x in zip(bufs, r[3:])}, int(r[1]), int(r[2], 16))


def words(data):
    return int.from_bytes(data, "little")
