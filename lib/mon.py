"""Monitoring harness: runs seeded workloads of one property against the real
code, counts what the monitors observed and turns it into a verdict.

A property module provides PROPS = {id: Prop(...)}.  A workload is a function
of a Ctx; every case gets its own random generator, derived from (seed,
property, workload, case number), so that one case replays on its own.
"""
import contextlib
import hashlib
import io
import json
import logging
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class Stuck(BaseException):
    pass


class Hang(BaseException):
    pass


def short(x, n=300):
    if isinstance(x, numpy.ndarray):
        x = numpy.array2string(x, threshold=20, precision=8)
    s = x if isinstance(x, str) else repr(x)
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


class Prop(object):
    """required: counters that have to be positive for a 'held' verdict."""

    def __init__(self, title, workloads, rule, required=(), assumptions=()):
        self.title = title
        self.workloads = workloads      # (name, function, n_quick, n_thorough)
        self.rule = rule
        self.required = list(required)
        self.assumptions = list(assumptions)


class Ctx(object):
    def __init__(self, run, workload, case):
        self.run = run
        self.workload = workload
        self.case = case
        key = "%s/%s/%d" % (run.pid, workload, case)
        self.rng = numpy.random.RandomState(
            (run.seed * 2654435761 + zlib.crc32(key.encode())) % (2 ** 32))
        self.counts = {}
        self.signature = None
        self.description = None
        self.trail = []
        self._tmp = None
        self.thorough = run.tier == "thorough"

    # ---- observation
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        """Mark the case as non-trivial; parts decide distinctness."""
        h = hashlib.sha1(repr(self.signature).encode())
        for p in parts:
            if isinstance(p, numpy.ndarray):
                h.update(p.tobytes())
            else:
                h.update(repr(p).encode())
        self.signature = h.hexdigest()

    def log(self, *what):
        self.trail.append(" ".join(short(w, 160) for w in what))
        if len(self.trail) > 60:
            del self.trail[:20]

    def sample(self, text):
        self.description = short(text, 600)

    # ---- verdicts
    def fail(self, kind, *what):
        raise Violation(kind, " ".join(short(w) for w in what))

    def expect(self, cond, kind, *what):
        self.count("checks")
        self.count("check:" + kind)
        if not cond:
            self.fail(kind, *what)

    def same(self, got, want, kind, *what, **kw):
        """Exact equality of arrays (shape and values, nan equal to nan)."""
        self.count("checks")
        self.count("check:" + kind)
        got, want = numpy.asarray(got), numpy.asarray(want)
        if got.shape != want.shape or not (
                (got == want) | ((got != got) & (want != want))).all():
            self.fail(kind, "got", got, "want", want, *what)

    def close(self, got, want, kind, *what, **kw):
        rtol, atol = kw.get("rtol", 1e-9), kw.get("atol", 1e-9)
        self.count("checks")
        self.count("check:" + kind)
        try:
            got = numpy.asarray(got, dtype=float)
        except (TypeError, ValueError):
            self.fail(kind, "got", got, "want", want, *what)
        want = numpy.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(kind, "shape", got.shape, "want", want.shape, *what)
        if not numpy.allclose(got, want, rtol=rtol, atol=atol,
                              equal_nan=True):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with numpy.errstate(all="ignore"):
                    worst = numpy.max(numpy.abs(got - want)) \
                        if got.size else 0.
            self.fail(kind, "max difference %r" % float(worst), "got", got,
                      "want", want, *what)

    def raises(self, exc, fn, kind, *what):
        """fn() has to raise one of exc; returns the exception."""
        self.count("checks")
        self.count("check:" + kind)
        try:
            res = fn()
        except exc as e:
            return e
        except Violation:
            raise
        except Exception as e:
            if any(e2 is Exception for e2 in (
                    exc if isinstance(exc, tuple) else (exc,))):
                return e
            self.fail(kind, "raised %s(%s) instead of %s"
                      % (type(e).__name__, e, exc), *what)
        self.fail(kind, "did not raise %s, returned %s" % (exc, short(res)),
                  *what)

    # ---- scratch space
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vc_")
        return self._tmp

    def close_ctx(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)


def _repo_frame(tb, root):
    root = os.path.join(os.path.realpath(root), "echidna") + os.sep
    found = None
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            found = "%s:%s" % (os.path.relpath(fr.filename, root), fr.name)
    return found


def known_findings():
    """{(property, key): text} of the 'known:' lines."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(p.split("=", 1) for p in line.split()[1:3])
                res[(f["property"], f["key"])] = line.split(None, 3)[3]
    return res


class Run(object):
    def __init__(self, pid, prop, seed, tier, jobs=1, budget=None):
        self.pid = pid
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.jobs = jobs
        self.budget = budget
        self.counts = {}
        self.sigs = set()
        self.cases = 0
        self.samples = {}
        self.violations = []
        self.errors = []
        self.known = {}
        self.per_workload = {}
        self._known = known_findings()

    def one(self, name, fn, case, catch=True):
        """Run a case; returns (ctx, violation dict or None, error or None)."""
        ctx = Ctx(self, name, case)
        viol = err = None
        state = numpy.random.get_state()
        numpy.random.seed((self.seed * 7919 + case) % (2 ** 32))
        import random
        random.seed(self.seed * 7919 + case)
        sink = io.StringIO()
        cwd = os.getcwd()
        if hasattr(signal, "alarm"):
            signal.signal(signal.SIGALRM, _stuck)
            signal.alarm(300)
            # cases take seconds: minutes of computing mean no end in sight
            signal.signal(signal.SIGVTALRM, _hang)
            signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_S)
        try:
            with contextlib.redirect_stdout(sink), \
                    contextlib.redirect_stderr(sink), \
                    warnings.catch_warnings(), numpy.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                fn(ctx)
        except Violation as v:
            viol = {"kind": v.kind, "message": v.msg}
        except Hang as e:
            import py2load
            where = _repo_frame(e.__traceback__, py2load.REPO)
            text = "a case was still computing after %d s of CPU time" \
                % HANG_CPU_S
            if where:
                viol = {"kind": "does-not-end",
                        "message": "%s in %s" % (text, where)}
            else:
                err = text
        except Stuck:
            err = "case did not finish within 300 s (inconclusive)"
        except Exception as e:
            import py2load
            where = _repo_frame(e.__traceback__, py2load.REPO)
            text = "".join(traceback.format_exception(
                type(e), e, e.__traceback__))
            if where:
                viol = {"kind": "unexpected-exception",
                        "message": "%s(%s) from %s" % (
                            type(e).__name__, short(str(e)), where),
                        "traceback": text}
            elif isinstance(e, (OSError, MemoryError, ImportError,
                                AssertionError)):
                err = text
            else:
                # the oracles examine any result the code is meant to give:
                # one they cannot even read is not such a result
                viol = {"kind": "unreadable-result",
                        "message": "%s(%s)" % (type(e).__name__,
                                               short(str(e))),
                        "traceback": text}
        finally:
            if hasattr(signal, "alarm"):
                signal.alarm(0)
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.chdir(cwd)
            numpy.random.set_state(state)
            ctx.close_ctx()
        if viol:
            viol.update(property=self.pid, workload=name, case=case,
                        seed=self.seed, tier=self.tier,
                        case_description=ctx.description,
                        trail=ctx.trail)
        return ctx, viol, err

    def _absorb(self, name, counts, signature, desc, viol, err):
        self.cases += 1
        pw = self.per_workload.setdefault(name, 0)
        self.per_workload[name] = pw + 1
        for k, v in counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        if signature:
            self.sigs.add(signature)
        if desc and len(self.samples.setdefault(name, [])) < 2:
            self.samples[name].append(desc)
        if viol:
            key = "%s/%s" % (viol["workload"], viol["kind"])
            if (self.pid, key) in self._known:
                self.known[key] = self._known[(self.pid, key)]
            else:
                self.violations.append(viol)
        if err:
            self.errors.append("%s: %s" % (name, err))

    def _serial(self, name, fn, indices, deadline):
        for i in indices:
            if time.time() > deadline or len(self.violations) >= 5 or \
                    len(self.errors) >= 3 or self._hung():
                break
            ctx, viol, err = self.one(name, fn, i)
            self._absorb(name, ctx.counts, ctx.signature, ctx.description,
                         viol, err)

    def _parallel(self, name, fn, n, deadline):
        import multiprocessing
        mp = multiprocessing.get_context("fork")
        q = mp.Queue()

        def work(k):
            res = []
            for i in range(k, n, self.jobs):
                if time.time() > deadline:
                    break
                ctx, viol, err = self.one(name, fn, i)
                res.append((ctx.counts, ctx.signature, ctx.description, viol,
                            err))
                if len(res) >= 50:
                    q.put(res)
                    res = []
                if err or viol and (self.pid, "%s/%s" % (
                        viol["workload"], viol["kind"])) not in self._known:
                    break
            q.put(res)
            q.put(None)
        procs = [mp.Process(target=work, args=(k,)) for k in range(self.jobs)]
        for p in procs:
            p.start()
        left = self.jobs
        while left:
            try:
                item = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in procs):
                    self.errors.append("%s: a worker died" % name)
                    break
                continue
            if item is None:
                left -= 1
                continue
            for r in item:
                self._absorb(name, *r)
        for p in procs:
            p.join(10)

    def go(self):
        t0 = time.time()
        total = self.budget or (90. if self.tier == "quick" else 600.)
        n_wl = len(self.prop.workloads)
        for k, (name, fn, nq, nt) in enumerate(self.prop.workloads):
            if self.tier == "quick":
                n = nq if nq <= 2 else nq * QUICK_FACTOR
            else:
                n = nt if nt <= 2 else nt * THOROUGH_FACTOR
            # every workload gets a fair share of what is left
            now = time.time()
            deadline = now + (t0 + total - now) / float(n_wl - k)
            if self.jobs > 1:
                self._parallel(name, fn, n, deadline)
            else:
                self._serial(name, fn, range(n), deadline)
            if len(self.violations) >= 5 or len(self.errors) >= 3 or \
                    self._hung():
                break
        self.wall = time.time() - t0

    def _hung(self):
        return any(v["kind"] == "does-not-end" for v in self.violations)

    def missing(self):
        return [r for r in self.prop.required if not self.counts.get(r)]

    def evidence(self):
        return {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": "exploration", "wall_s": round(self.wall, 3),
            "violations": len(self.violations),
            "assumptions": self.prop.assumptions,
            "coverage": {
                "evaluations": self.cases,
                "distinct_nontrivial": len(self.sigs),
                "rule": self.prop.rule,
                "samples": [{"workload": w, "case": s}
                            for w in sorted(self.samples)
                            for s in self.samples[w]],
                "cases_per_workload": self.per_workload,
                "oracle_checks": self.counts.get("checks", 0),
                "observed": {k: v for k, v in sorted(self.counts.items())
                             if k != "checks"},
                "required_but_unobserved": self.missing(),
            }}


HANG_CPU_S = 120
QUICK_FACTOR = 8
#: a thorough run ends after ten minutes (self.budget) at the latest
THOROUGH_FACTOR = 8


def _stuck(*a):
    raise Stuck()


def _hang(*a):
    raise Hang()


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
    os.replace(tmp, path)
