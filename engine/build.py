"""Builds everything the checks execute from /repo's current working tree, in a scratch directory."""
import atexit
import contextlib
import fcntl
import hashlib
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_tmp = None

PRIMES = {
    "bn128r": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bn128q": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "bls12_381q": 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787,
    "bls12_381r": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "secp256k1q": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F,
    "secp256k1r": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
    "mnt6753q": 41898490967918953402344214791240637128170709919953949071783502921025352812571106773058893763790338921418070971888458477323173057491593855069696241854796396165721416325350064441470418137846398469611935719059908164220784476160001,
    "goldilocks": 0xFFFFFFFF00000001,
    "p64": (1 << 64) - 59,                       # 1 limb
    "p128": (1 << 127) - 1,                      # 2 limbs, consensys-optimisable
    "t126": (1 << 126) + 7,                      # 2 limbs, lowest limb below any short magnitude
    "t253": (1 << 253) + 39,                     # 4 limbs, the same
    "p192": (1 << 192) - (1 << 64) - 1,          # 3 limbs, not consensys-optimisable
}


class BuildError(Exception):
    pass


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="ffverif.")
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp


def sh(cmd, cwd=None, inp=None, ok=True):
    p = subprocess.run(cmd, cwd=cwd, input=inp, capture_output=True, text=True,
                       shell=isinstance(cmd, str))
    if ok and p.returncode:
        raise BuildError("%s\n%s\n%s" % (cmd, p.stdout[-3000:], p.stderr[-3000:]))
    return p.stdout


@contextlib.contextmanager
def locked(name):
    """one builder at a time among the forked workers"""
    with open(os.path.join(scratch(), "lock." + name), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def render(prime, name="Fr"):
    with locked("render"):
        return render_(prime, name)


def render_(prime, name="Fr"):
    """Render the field sources for a prime; returns the directory."""
    d = os.path.join(scratch(), "gen_%s_%s" % (name, hashlib.sha1(str(prime).encode()).hexdigest()[:10]))
    if not os.path.isdir(d):
        sh(["node", os.path.join(HERE, "tools/shims/render.js"), os.path.join(REPO, "src"), str(prime), name, d + ".tmp"])
        os.rename(d + ".tmp", d)
    return d


def undefined(objs):
    und, dfn = set(), set()
    for l in sh(["nm"] + objs).splitlines():
        p = l.split()
        if len(p) >= 2 and p[-2] in ("U", "w", "v"):
            und.add(p[-1])
        elif len(p) >= 3:
            dfn.add(p[-1])
    return sorted(und - dfn)


def link_static(objs, out, libs=(), roots=()):
    """Link a position-fixed image; symbols nothing defines become ud2 stubs the executor hooks."""
    d = os.path.dirname(out)
    if libs:
        rel = out + ".rel.o"
        sh(["ld", "-r", "-o", rel] + list(objs) + ["--start-group"] + list(libs) + ["--end-group"])
        objs = [rel]
    und = [u for u in undefined(list(objs)) if u not in ("_GLOBAL_OFFSET_TABLE_", "__dso_handle")]
    stub = out + ".stub.s"
    with open(stub, "w") as f:
        f.write(".text\n")
        for u in und:
            if u.startswith("__start_") or u.startswith("__stop_"):
                continue
            f.write('.globl "%s"\n.type "%s",@function\n"%s": ud2\n.align 16\n' % (u, u, u))
        f.write('.data\n.globl __dso_handle\n__dso_handle: .quad 0\n.section .note.GNU-stack,"",@progbits\n')
    sh(["as", stub, "-o", out + ".stub.o"])
    sh(["ld", "-static", "-z", "norelro", "-z", "noexecstack", "-e", "0", "-Ttext-segment=0x400000", "--no-relax",
        "-o", out] + list(objs) + [out + ".stub.o"])
    return out


def asm_field(prime, name="Fr"):
    """nasm backend: (dir, elf path, object path)"""
    d = render(prime, name)
    n = name.lower()
    o = os.path.join(d, n + "_asm.o")
    elf = os.path.join(d, n + "_asm.elf")
    with locked("asm" + os.path.basename(d)):
        if not os.path.exists(elf):
            sh(["nasm", "-felf64", os.path.join(d, n + ".asm"), "-o", o])
            link_static([o], elf)
    return d, elf, o


def arm_field(prime, name="Fr"):
    """AArch64 raw routines, re-expressed for the x86-64 encoder: (dir, elf path, object path)"""
    from . import arm
    d = render(prime, name)
    n = name.lower()
    o = os.path.join(d, n + "_arm.o")
    elf = os.path.join(d, n + "_arm.elf")
    with locked("arm" + os.path.basename(d)):
        if not os.path.exists(elf):
            arm.translate(os.path.join(d, n + "_raw_arm64.s"), os.path.join(d, n + "_arm.asm"))
            sh(["nasm", "-felf64", os.path.join(d, n + "_arm.asm"), "-o", o])
            link_static([o], elf)
    return d, elf, o


CXXF = ["-std=c++11", "-O1", "-w", "-fno-pic", "-fno-stack-protector", "-fcf-protection=none",
        "-fno-tree-vectorize", "-fno-asynchronous-unwind-tables", "-mno-red-zone"]


def generic_field(prime, name="Fr"):
    d = render(prime, name)
    n = name.lower()
    elf = os.path.join(d, n + "_gen.elf")
    with locked("gen" + os.path.basename(d)):
      objs = []
      if not os.path.exists(elf):
        for s in ("_generic", "_raw_generic"):
            o = os.path.join(d, n + s + ".o")
            # -fno-inline: GMP's header-inlined mpn_* stay calls, which the encoder models by their documentation
            sh(["g++"] + CXXF + ["-fno-inline", "-I", d, "-c", os.path.join(d, n + s + ".cpp"), "-o", o])
            objs.append(o)
        link_static(objs, elf)
    return d, elf
