"""Nothing is prebuilt: every check rebuilds from /repo.  This only confirms that the tools are there."""
import shutil, subprocess, sys
miss = [t for t in ("node", "nasm", "gcc", "g++", "clang", "objdump", "ld", "nm") if not shutil.which(t)]
try:
    import z3, cvc5     # noqa: F401
except ImportError as e:
    miss.append(str(e))
print("missing: %s" % miss if miss else "tools present")
sys.exit(1 if miss else 0)
