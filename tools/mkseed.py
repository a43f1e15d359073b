#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py and confirms each: the patch builds, passes the tests, and the demonstration tells
the patched tree from the unpatched one.   usage: mkseed.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from seeds import SEEDS
W = "/tmp/seedwork"


def sh(c, cwd=None, ok=True, timeout=600):
    r = subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=timeout)
    if ok and r.returncode:
        raise SystemExit(c + "\n" + r.stdout + r.stderr)
    return r


def run(tree):
    # the build and test scripts work on /repo: a private copy of it is swapped in through a mount-free trick is not
    # possible, so the same commands are run on the copy by rewriting the path
    d = os.path.join(W, "vp")
    shutil.rmtree(d, True)
    shutil.copytree("/opt/vp", d)
    sh("grep -rlI -e /repo -e /opt/vp %s | xargs sed -i 's#/repo#%s#g; s#/opt/vp#%s#g'" % (d, tree, d))
    b = sh("bash %s/build.sh" % d, ok=False)
    if b.returncode:
        return "build failed: " + b.stdout[-500:] + b.stderr[-800:]
    sh("bash %s/test.sh %s/out.json" % (d, W), ok=False)
    o = json.load(open(W + "/out.json"))
    if len(o["passed"]) != 6:
        return "tests: %s" % o
    return None


def main():
    only = sys.argv[1:]
    bad = []
    for sid, s in SEEDS.items():
        if only and sid not in only:
            continue
        shutil.rmtree(W, True)
        os.makedirs(W)
        t = W + "/repo"
        sh("cp -a /repo %s && cd %s && git checkout -q -- . " % (t, t))
        for f, a, b in s["edits"]:
            p = os.path.join(t, f)
            x = open(p).read()
            if x.count(a) < 1:
                raise SystemExit("%s: text not found in %s: %s" % (sid, f, a))
            n = s.get("count", 1)
            if x.count(a) != n:
                raise SystemExit("%s: %d matches in %s for %s" % (sid, x.count(a), f, a))
            open(p, "w").write(x.replace(a, b))
        diff = sh("git diff --no-color", t).stdout
        d = os.path.join(V, "seeded", sid)
        shutil.rmtree(d, True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if s["kind"] == "field":
            shutil.copy(H + "/seedkit/fielddemo.py", d)
            for f in ("driver.c", "tramp.s"):
                shutil.copy(H + "/native/" + f, d)
            shutil.copytree(H + "/shims", d + "/shims")
            open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom fielddemo import *\n" + s["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        else:
            for f, c in s.get("files", {}).items():
                open(os.path.join(d, f), "w").write(c)
            for f in s.get("copy", ()):
                (shutil.copytree if os.path.isdir(H + "/" + f) else shutil.copy)(H + "/" + f, os.path.join(d, os.path.basename(f)))
            open(d + "/demo.sh", "w").write(s["demo"])
        shutil.copytree(d, W + "/demo")
        for f in ("patch.diff", "meta.json"):
            os.remove(W + "/demo/" + f)
        r2 = run(t)
        p = sh("bash %s/demo/demo.sh" % W, t, False)
        sh("git checkout -q -- .", t)
        r1 = run(t)
        c = sh("bash %s/demo/demo.sh" % W, t, False)
        if r1 or r2 or c.returncode or not p.returncode or p.returncode == 90:
            print("BAD", sid, "| clean:", r1, c.returncode, c.stdout[-600:], c.stderr[-600:], "| patched:", r2, p.returncode, p.stdout[-600:], p.stderr[-600:])
            bad.append(sid)
        else:
            print("ok", sid, "|", p.stdout.strip()[:150])
    shutil.rmtree(W, True)
    sys.exit(1 if bad else 0)


main()
