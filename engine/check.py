"""Runs a property's obligations in parallel, replays counterexamples, writes the evidence file."""
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
from . import core
from .build import HERE, BuildError, scratch
from .terms import Unsupported

KNOWN = os.path.join(HERE, "known_findings.txt")


class Result:
    """one obligation's outcome"""

    def __init__(self, name):
        self.name = name
        self.status = "ok"          # ok | violation | inconclusive
        self.detail = ""
        self.replay = None          # dict written to the replay file
        self.key = None             # identifies the failing input / call site (known findings)
        self.paths = 0
        self.steps = 0
        self.obligations = 0
        self.validated = 0          # concrete runs: encoder vs native code
        self.functions = []
        self.bounds = {}
        self.sample = None
        self.more = []              # further violations: (key, detail, replay)

    def violation(self, detail, key=None, replay=None):
        if self.status == "violation":
            self.more.append((key or self.name, detail, replay))
            return self
        self.status = "violation"
        self.detail = detail
        self.key = key or self.name
        self.replay = replay
        return self

    def inconclusive(self, why):
        if self.status == "ok":
            self.status = "inconclusive"
            self.detail = why
        return self


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def _run_one(conn, fn, name, args):
    # a fresh process per obligation: solver state and memory are released with it
    core.STATS = core.STATS.__class__()
    import engine.intproof as ip
    import engine.x86 as x
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith(("engine", "checks")) and hasattr(m, "STATS"):
            m.STATS = core.STATS
    r = Result(name)
    t = time.time()
    try:
        r2 = fn(r, *args)
        r = r2 if isinstance(r2, Result) else r
    except Unsupported as e:
        r.inconclusive("the encoder does not handle: %s" % e)
    except BuildError as e:
        r.inconclusive("build failed: %s" % str(e)[-1500:])
    except Exception:
        r.inconclusive(traceback.format_exc()[-2500:])
    st = core.STATS
    conn.send((r, (st.queries, st.time, st.unknown, st.by), time.time() - t))
    conn.close()


class Check:
    def __init__(self, pid, level="model_checking", title=""):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs = []
        self.t0 = time.time()
        self.assumptions = []
        self.bounds = {}
        self.explanation = ""
        self.jobs = int(os.environ.get("VERIF_JOBS", "8"))
        self.ob_timeout = 700 if self.tier == "quick" else 6000
        self.budget = 780 if self.tier == "quick" else 36000
        self.only = os.environ.get("VERIF_ONLY")

    def quick(self):
        return self.tier == "quick"

    def add(self, name, fn, *args, timeout=None):
        if self.only and not re.search(self.only, name):
            return
        self.obs.append((name, fn, args, timeout or self.ob_timeout))

    def run_all(self):
        ctx = mp.get_context("fork")
        scratch()                       # shared by the workers, removed when this process ends
        pend = list(self.obs)
        live = {}
        res = []
        verbose = os.environ.get("VERIF_VERBOSE")
        known = known_keys(self.pid)
        found = None                    # when the first violation nobody knows of was seen
        tail = set()
        while pend and not found or live:
            while pend and len(live) < self.jobs and not found:
                # the long ones come first; two workers take the short ones from the other end
                back = len(tail) < self.jobs // 4
                name, fn, args, to = pend.pop(-1 if back else 0)
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_run_one, args=(b, fn, name, args))
                p.start()
                if back:
                    tail.add(p)
                b.close()
                live[p] = (a, name, time.time(), to)
            mp.connection.wait([v[0] for v in live.values()], timeout=1.0)
            now = time.time()
            for p in list(live):
                conn, name, t, to = live[p]
                out = None
                if conn.poll():
                    try:
                        out = conn.recv()
                    except EOFError:
                        out = None
                    if out is None:
                        p.join()
                        r = Result(name).inconclusive("worker ended (exit %s)" % p.exitcode)
                        out = (r, (0, 0, 0, {}), now - t)
                elif now - t > to or now - self.t0 > self.budget:
                    p.kill()
                    r = Result(name).inconclusive("time limit (%.0f s)" % (now - t))
                    out = (r, (0, 0, 0, {}), now - t)
                elif found and now - found > 30:
                    p.kill()
                    out = (Result(name), (0, 0, 0, {}), now - t)
                    out[0].detail = "stopped after a violation elsewhere"
                if out is not None:
                    p.join()
                    conn.close()
                    del live[p]
                    tail.discard(p)
                    if out[0].status == "violation" and any(k not in known for k in [out[0].key] + [m[0] for m in out[0].more]):
                        found = found or now
                    res.append(out)
                    if verbose:
                        r = out[0]
                        print("%-12s %6.1fs paths=%d q=%d  %s %s" % (r.status, out[2], r.paths, out[1][0], r.name,
                                                                  r.detail[:1500]), flush=True)
        return res

    def main(self):
        res = self.run_all()
        known = known_keys(self.pid)
        viol, inc, seen = [], [], []
        paths = steps = obl = val = q = unk = 0
        qt = 0.0
        fns, samples, by = set(), [], {}
        for r, (nq, tq, nu, b), w in res:
            paths += r.paths
            steps += r.steps
            obl += r.obligations
            val += r.validated
            q += nq
            qt += tq
            unk += nu
            for k, v in b.items():
                by[k] = by.get(k, 0) + v
            fns.update(r.functions)
            if r.sample is not None and len(samples) < 5:
                samples.append(r.sample)
            for k, v in r.bounds.items():
                self.bounds.setdefault(k, v)
            if r.status == "violation":
                for key, det, rep in [(r.key, r.detail, r.replay)] + r.more:
                    if key in known:
                        if key not in seen:
                            seen.append(key)
                    else:
                        viol.append((r.name, key, det, rep))
            elif r.status == "inconclusive":
                inc.append((r.name, r.detail))
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        for k in seen:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, known[k]))
        for i, (name, key, det, rep) in enumerate(viol[:20]):
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "obligation": name, "key": key, "what": det, "replay": rep}, f,
                          indent=1, default=str)
            print("%s [%s] %s" % (name, key, det))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        for name, det in inc[:20]:
            print("INCONCLUSIVE %s: %s" % (name, det))
        cov = {
            "states": paths, "transitions": steps, "traces_validated_against_impl": val,
            "samples": samples or ["no path explored"],
            "obligations": obl, "discharged": obl - len(viol) - len(inc), "harnesses": len(res),
            "functions_encoded": sorted(fns), "bounds": self.bounds,
            "solver_queries": q, "solver_queries_by_kind": by, "solver_seconds": round(qt, 2),
            "solver_unknown": unk, "inconclusive": [n for n, _ in inc],
            "known_findings_seen": seen,
            "not_run_after_a_violation": len(self.obs) - len(res),
            "meaning": "states = complete symbolic paths (each covers every input satisfying its path condition); "
                       "transitions = machine instructions executed symbolically; traces_validated_against_impl = "
                       "concrete inputs on which the encoder and the natively executed build agreed",
            "explanation": self.explanation,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        p = os.path.join(HERE, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + ".tmp", p)
        print("%s: %d harnesses, %d paths, %d instructions, %d obligations, %d solver queries (%.1f s), %.1f s" % (
            self.pid, len(res), paths, steps, obl, q, qt, time.time() - self.t0))
        if viol:
            return 1
        if inc or not res:
            return 2
        return 0
