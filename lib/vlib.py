"""Runner shared by all checks: workload scheduling, monitors' verdicts, evidence.

A check script declares *families* of cases.  The supervisor builds an overlay of the
current /repo tree (overlay.py), spawns workers which execute the cases against the real
code, and merges what the monitors recorded.

Verdicts: exit 0 held on what was observed; exit 1 + VIOLATION line; exit 3 inconclusive
(a monitor was never reached, the harness could not run).
"""
import hashlib
import gc
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
PY = "/opt/venv/bin/python"

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Violation(Exception):
    def __init__(self, msg, mech="", data=None):
        Exception.__init__(self, msg)
        self.msg, self.mech, self.data = msg, mech, data


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def h64(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return "..."
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:64]]
    if isinstance(x, np.ndarray):
        if x.size > 128:
            return {"shape": list(x.shape), "dtype": str(x.dtype), "head": jsonable(x.ravel()[:32], depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, complex) or isinstance(x, np.complexfloating):
        return [float(x.real), float(x.imag)]
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx(object):
    """Everything a case may use: seeded randomness, counters, assertions."""

    def __init__(self, prop, family, idx, seed, tier, prep):
        import numpy as np
        self.prop, self.family, self.idx, self.tier, self.prep = prop, family, idx, tier, prep
        self.thorough = tier == "thorough"
        s = h64(seed, family, idx)
        self.seed = s
        self.rng = random.Random(s)
        self.np = np.random.RandomState(s & 0xffffffff)
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.notes = {}
        self.known = []

    # --- monitors' bookkeeping
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def nontrivial(self, *sig):
        """Record a distinct, non-trivial case."""
        self.sigs.add("%016x" % h64(self.family, *sig))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({"family": self.family, "case": self.idx,
                                 **{k: jsonable(v) for k, v in kw.items()}})

    def note(self, **kw):
        """Remember inputs, for the replay file should this case fail."""
        self.notes.update(kw)

    # --- oracles
    def fail(self, msg, mech="", **data):
        raise Violation(msg, mech, {**self.notes, **data})

    def check(self, cond, msg, mech="", **data):
        self.count("assertions")
        if not cond:
            self.fail(msg, mech, **data)

    def eq(self, got, want, msg, mech="", **data):
        self.count("assertions")
        if got != want:
            self.fail("%s: got %r, expected %r" % (msg, got, want), mech, **data)

    def same(self, got, want, msg, mech="", **data):
        """Exact array equality, shape included."""
        import numpy as np
        self.count("assertions")
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail("%s: shape %s, expected %s" % (msg, g.shape, w.shape), mech, got=g, want=w, **data)
        if not np.array_equal(g, w):
            self.fail("%s: arrays differ" % msg, mech, got=g, want=w, **data)

    def close(self, got, want, msg, atol=1e-9, rtol=1e-9, mech="", **data):
        import numpy as np
        self.count("assertions")
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail("%s: shape %s, expected %s" % (msg, g.shape, w.shape), mech, got=g, want=w, **data)
        if g.size == 0:
            return 0.0
        d = np.abs(g - w)
        tol = atol + rtol * np.abs(w)
        bad = ~(d <= tol)
        if bad.any():
            k = int(np.argmax(np.where(np.isfinite(d), d, np.inf) * bad))
            self.fail("%s: differs by %.3e (element %d: got %r, expected %r; tolerance %.1e)"
                      % (msg, float(d.ravel()[k]), k, g.ravel()[k], w.ravel()[k], float(np.ravel(tol)[k])),
                      mech, got=g, want=w, **data)
        return float(d.max())

    def raises(self, exc, fn, msg, mech="", **data):
        """fn must raise; returns the exception. exc is a class or tuple."""
        self.count("assertions")
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            self.fail("%s: raised %r, expected %r" % (msg, e, exc), mech, **data)
        self.fail("%s: no error was raised (returned %s)" % (msg, repr(r)[:200]), mech, **data)

    def known_finding(self, mech, what):
        self.known.append((mech, what))


class Check(object):
    def __init__(self, prop, needs=(), rule="", assumptions=(), workers=8, cpu_case=90,
                 require=(), omp=2, soft=None, extra=("", "")):
        self.prop, self.needs, self.rule = prop, tuple(needs), rule
        self.assumptions, self.workers, self.cpu_case = list(assumptions), workers, cpu_case
        self.require, self.omp, self.extra = list(require), omp, extra
        self.soft = soft or {"quick": 240, "thorough": 720}
        self.families = []
        self.prepare = None

    def family(self, name, quick, thorough=None, require=None):
        def deco(fn):
            self.families.append((name, quick, quick if thorough is None else thorough, fn))
            self.require.append("cases:" + name)
            return fn
        return deco

    # ------------------------------------------------------------------ worker side
    def _schedule(self, tier):
        jobs = []
        for order, (name, q, t, fn) in enumerate(self.families):
            n = t if tier == "thorough" else q
            for i in range(n):
                jobs.append(((i + 0.5) / n, order, i))
        jobs.sort()
        return [(o, i) for _, o, i in jobs]

    def _worker(self, a):
        wid, W, tier, seed, out, deadline, prep_file, skip = (
            a["wid"], a["W"], a["tier"], a["seed"], a["out"], a["deadline"], a["prep"], a["skip"])
        prep = json.load(open(prep_file)) if prep_file else {}
        bootstrap()
        import numba
        known = open_findings(self.prop)
        res = {"counts": {}, "sigs": [], "samples": [], "violation": None, "known": [], "done": 0,
               "inconclusive": None, "truncated": 0}
        sigs = set()
        crumb = out + ".crumb"
        only = a.get("only")
        jobs = self._schedule(tier)
        if only:
            jobs = [(o, only["case"]) for o, f in enumerate(self.families) if f[0] == only["family"]]
        else:
            jobs = [j for k, j in enumerate(jobs) if k % W == wid]
        cpu, limit = self.cpu_case, 400.

        def on_prof(sig, frm):
            raise CaseTimeout()
        signal.signal(signal.SIGPROF, on_prof)
        for pos, (o, i) in enumerate(jobs):
            if pos < skip:
                continue
            if time.time() > deadline:
                res["truncated"] = len(jobs) - pos
                break
            name, fn = self.families[o][0], self.families[o][3]
            with open(crumb, "w") as fh:
                json.dump({"family": name, "case": i, "pos": pos, "t": time.time()}, fh)
            if rss() > limit:                                    # arrays are not the collector's concern: make them
                gc.collect()
                limit = max(400., 1.3 * rss())
            ctx = Ctx(self.prop, name, i, seed, tier, prep)
            numba._configure(["shuffle", "shuffle", "reverse", "forward"][i % 4], ctx.seed)
            signal.setitimer(signal.ITIMER_PROF, cpu)
            viol = None
            try:
                fn(ctx)
            except Violation as v:
                viol = (v.msg, v.mech, v.data)
            except Inconclusive as e:
                res["inconclusive"] = "%s[%d]: %s" % (name, i, e)
                break
            except CaseTimeout:
                viol = ("did not terminate within %d s of CPU time" % cpu, "hang", ctx.notes)
            except Exception as e:
                if isinstance(e, ImportError) or (isinstance(e, AttributeError) and str(e).startswith("module ")):
                    res["inconclusive"] = "%s[%d]: %s" % (name, i, traceback.format_exc()[-1500:])
                    break
                viol = ("unexpected %s: %s" % (type(e).__name__, str(e)[:300]),
                        "exception", dict(ctx.notes, traceback=traceback.format_exc()[-3000:]))
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            ctx.counts["cases:" + name] = ctx.counts.get("cases:" + name, 0) + 1
            for k, n in ctx.counts.items():
                res["counts"][k] = res["counts"].get(k, 0) + n
            sigs |= ctx.sigs
            if sum(1 for s in res["samples"] if s["family"] == name) < 1:
                res["samples"] += ctx.samples[:1]
            res["done"] += 1
            for mech, what in ctx.known:
                if mech in known:
                    res["known"].append(mech)
                elif viol is None:
                    viol = (what, mech, ctx.notes)
            if viol is not None:
                if viol[1] in known:
                    res["known"].append(viol[1])
                    continue
                res["violation"] = {"property": self.prop, "family": name, "case": i, "seed": seed, "tier": tier,
                                    "message": viol[0], "mechanism": viol[1], "data": jsonable(viol[2])}
                break
        st = numba._stats()
        for k, v in st.items():
            if v:
                res["counts"]["monitor:" + k] = res["counts"].get("monitor:" + k, 0) + v
        res["sigs"] = sorted(sigs)
        with open(out + ".tmp", "w") as fh:
            json.dump(res, fh, default=jsonable)
        os.rename(out + ".tmp", out)
        sys.stdout.flush()
        os._exit(0)

    # -------------------------------------------------------------- supervisor side
    def main(self):
        if len(sys.argv) > 2 and sys.argv[1] == "--worker":
            return self._worker(json.loads(sys.argv[2]))
        only = None
        tier, seed = TIER, SEED
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            r = json.load(open(sys.argv[2]))
            only, seed, tier = {"family": r["family"], "case": r["case"]}, r["seed"], r["tier"]
        elif len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            tier = sys.argv[1]
        t0 = time.time()
        import overlay
        ov = None
        code = 3
        try:
            try:
                ov = overlay.make(self.needs, self.extra)
                prep = self.prepare(ov, tier, seed) if self.prepare else {}
            except (overlay.BuildError, Inconclusive) as e:
                print("INCONCLUSIVE property=%s %s" % (self.prop, str(e)[-3000:]))
                return sys.exit(3)
            code = self._supervise(ov, prep or {}, tier, seed, only, t0)
        finally:
            if ov:
                shutil.rmtree(ov, ignore_errors=True)
        sys.exit(code)

    def _spawn(self, ov, wid, W, tier, seed, deadline, prep_file, skip, only):
        out = os.path.join(ov, "w%d.%d.json" % (wid, skip))
        arg = {"wid": wid, "W": W, "tier": tier, "seed": seed, "out": out, "deadline": deadline,
               "prep": prep_file, "skip": skip, "only": only}
        env = worker_env(ov, self.omp)
        log = open(out + ".log", "w")
        p = subprocess.Popen([PY, "-B", os.path.abspath(sys.argv[0]), "--worker", json.dumps(arg)],
                             cwd=ov, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        log.close()
        return {"p": p, "out": out, "wid": wid, "skip": skip, "log": out + ".log", "case": None, "cpu0": 0.}

    def _supervise(self, ov, prep, tier, seed, only, t0):
        W = 1 if only else self.workers
        prep_file = os.path.join(ov, "prep.json")
        with open(prep_file, "w") as fh:
            json.dump(prep, fh)
        soft = self.soft[tier]
        deadline = time.time() + soft
        hard = deadline + 2 * self.cpu_case + 60
        live = [self._spawn(ov, w, W, tier, seed, deadline, prep_file, 0, only) for w in range(W)]
        results, viols, incon, restarts, killed = [], [], [], 0, 0
        first_viol = None
        while live:
            time.sleep(0.05)
            for w in list(live):
                rc = w["p"].poll()
                if rc is None:
                    stuck = self._stuck(w)
                    if stuck is not None:
                        kill(w["p"])
                        viols.append(self._case_violation(stuck, seed, tier, "native code did not terminate "
                                                          "within %d s of CPU time" % (2 * self.cpu_case), "hang", w))
                        live.remove(w)
                    elif time.time() > hard:
                        kill(w["p"])
                        incon.append("worker %d exceeded the wall-clock watchdog" % w["wid"])
                        live.remove(w)
                    continue
                live.remove(w)
                if os.path.exists(w["out"]):
                    r = json.load(open(w["out"]))
                    results.append(r)
                    if r["violation"]:
                        viols.append(r["violation"])
                    if r["inconclusive"]:
                        incon.append(r["inconclusive"])
                    continue
                # died without a report: the native code took the process down
                crumb = None
                try:
                    crumb = json.load(open(w["out"] + ".crumb"))
                except Exception:
                    pass
                tail = tail_of(w["log"])
                if rc == -signal.SIGKILL and killed < 4:      # memory ran out: once more
                    killed += 1
                    time.sleep(2.)
                    live.append(self._spawn(ov, w["wid"], W, tier, seed, deadline, prep_file, w["skip"], only))
                    continue
                if crumb is None or rc == -signal.SIGKILL:
                    incon.append("worker %d ended with %s before/while running: %s" % (w["wid"], rc, tail[-1500:]))
                    continue
                v = self._case_violation(crumb, seed, tier, "the process running the case died (%s)"
                                         % ("signal %d" % -rc if rc < 0 else "exit status %d" % rc), "crash", w)
                if "crash" in open_findings(self.prop) and restarts < 20:
                    restarts += 1
                    live.append(self._spawn(ov, w["wid"], W, tier, seed, deadline, prep_file, crumb["pos"] + 1, only))
                else:
                    viols.append(v)
            if viols or incon:
                first_viol = first_viol or time.time()
                if time.time() > first_viol + (1. if viols else 20.):
                    for w in live:
                        kill(w["p"])
                    live = []
        return self._conclude(results, viols, incon, tier, seed, t0, only)

    def _stuck(self, w):
        """Case the worker is in, if it has used far more CPU than the in-process limit."""
        now = time.time()
        if now - w.get("last", 0) < 1.:
            return None
        w["last"] = now
        try:
            crumb = json.load(open(w["out"] + ".crumb"))
            f = open("/proc/%d/stat" % w["p"].pid).read().rsplit(")", 1)[1].split()
            cpu = (int(f[11]) + int(f[12])) / float(os.sysconf("SC_CLK_TCK"))
        except Exception:
            return None
        if w["case"] != crumb["pos"]:
            w["case"], w["cpu0"] = crumb["pos"], cpu
            return None
        return crumb if cpu - w["cpu0"] > 2 * self.cpu_case else None

    def _case_violation(self, crumb, seed, tier, msg, mech, w):
        return {"property": self.prop, "family": crumb["family"], "case": crumb["case"], "seed": seed, "tier": tier,
                "message": msg, "mechanism": mech, "data": {"log": tail_of(w["log"])[-3000:]}}

    def _conclude(self, results, viols, incon, tier, seed, t0, only):
        counts, sigs, samples, known, trunc = {}, set(), [], {}, 0
        for r in results:
            for k, n in r["counts"].items():
                counts[k] = counts.get(k, 0) + n
            sigs |= set(r["sigs"])
            for s in r["samples"]:
                if sum(1 for x in samples if x["family"] == s["family"]) < 2:
                    samples.append(s)
            for k in r["known"]:
                known[k] = known.get(k, 0) + 1
            trunc += r["truncated"]
        ev = {"property": self.prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": sum(r["done"] for r in results),
                           "distinct_nontrivial": len(sigs), "rule": self.rule,
                           "samples": samples or ["none"], "monitors": dict(sorted(counts.items())),
                           "cases_not_run_for_time": trunc,
                           "known_findings_hit": known},
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
        if not only:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            p = os.path.join(VERIF, "evidence", self.prop + ".json")
            with open(p + ".tmp", "w") as fh:
                json.dump(ev, fh, indent=1)
            os.rename(p + ".tmp", p)
        print("%s tier=%s seed=%d cases=%d distinct=%d assertions=%d wall=%.1fs%s" % (
            self.prop, tier, seed, ev["coverage"]["evaluations"], len(sigs), counts.get("assertions", 0), ev["wall_s"],
            " (%d cases not run for time)" % trunc if trunc else ""))
        fams = " ".join("%s=%d" % (k[6:], n) for k, n in sorted(counts.items()) if k.startswith("cases:"))
        print("  families: " + fams)
        print("  observed: " + " ".join("%s=%d" % (k, n) for k, n in sorted(counts.items())
                                         if not k.startswith("cases:")))
        listed = open_findings(self.prop)
        for k in sorted(listed):
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, listed[k]))
        if viols:
            v = viols[0]
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s-%s-%d-%d.json" % (self.prop, v["family"], v["case"], seed))
            with open(rp, "w") as fh:
                json.dump(v, fh, indent=1, default=str)
            print("  %s[%d]: %s (%s)" % (v["family"], v["case"], v["message"], v["mechanism"]))
            if os.environ.get("VERIF_VERBOSE") and isinstance(v["data"], dict):
                print(v["data"].get("traceback", v["data"].get("log", "")))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if incon:
            print("INCONCLUSIVE property=%s %s" % (self.prop, incon[0]))
            return 3
        if only:
            return 0
        missing = [r for r in self.require if not counts.get(r)]
        if missing:
            print("INCONCLUSIVE property=%s monitors never reached: %s" % (self.prop, ", ".join(missing)))
            return 3
        return 0


def tail_of(path, n=4000):
    try:
        return open(path, errors="replace").read()[-n:]
    except Exception:
        return ""


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    try:
        p.wait(10)
    except Exception:
        pass


def rss():
    """Resident memory of this process, MB."""
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 1e6


def worker_env(ov, omp=2):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS=str(omp),
               OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive", EDPYT_OVERLAY=ov,
               PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
               OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
               PYTHONPATH=os.pathsep.join([ov, os.path.join(LIB, "shims"), LIB]))
    return env


def open_findings(prop):
    """mechanism -> description of the open findings recorded for a property."""
    try:
        k = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except IOError:
        return {}
    return {e["mechanism"]: e["what"] for e in k["open"] if e["property"] == prop}


_booted = False


def bootstrap():
    """Make the overlay's packages importable in this interpreter."""
    global _booted
    if _booted:
        return
    _booted = True
    import types
    import warnings
    warnings.filterwarnings("ignore")

    class Dummy(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return None
    # These two pybind11 modules abort PyPy when imported; one complex
    # transform is provided, nothing else of them is used.
    for m in ("scipy.fft._pocketfft.pypocketfft", "scipy.spatial._distance_pybind"):
        sys.modules[m] = Dummy(m)

    def c2c(a, axes=None, forward=True, inorm=0, out=None, nthreads=1):
        """scipy's complex transform by numpy's own implementation."""
        import numpy as np
        axes = tuple(range(np.ndim(a))) if axes is None else axes
        n = np.prod([np.shape(a)[k] for k in axes])
        y = np.fft.fftn(a, axes=axes) if forward else np.fft.ifftn(a, axes=axes) * n
        y = y * {0: 1., 1: n ** -.5, 2: 1. / n}[inorm]
        if out is not None:
            out[...] = y
            return out
        return y
    sys.modules["scipy.fft._pocketfft.pypocketfft"].c2c = c2c
    import edpyt  # noqa: F401
    ov = os.environ["EDPYT_OVERLAY"]
    import edpyt.shared
    assert os.path.abspath(edpyt.shared.__file__).startswith(ov), edpyt.shared.__file__
