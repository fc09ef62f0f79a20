"""Conversions between half-life, mass and counts (C30), utilities (C32)."""
from collections import OrderedDict
import warnings
import copy
import io
import logging
import math
import os
import socket
import sys

import numpy

import py2load
from gen import E
from mon import Prop

# the constants of the documented calculation, SNO+-doc-1728v2 and PDG
ME = 0.510998910e6          # eV
AMU = 1.660538921e-27       # kg
NA = 6.02214129e23          # /mol
AV = 5997.                  # mm
DENSITY = 862.8e-9          # kg/mm^3
LOADING = 0.003


class Model(object):
    """The physics, written out independently."""

    def __init__(self, a_iso, a_nat, abundance, g, m, loading, radius,
                 density):
        self.__dict__.update(locals())
        if loading is None:
            self.loading = LOADING
        if radius is None:
            self.radius = AV
        if not density:
            self.density = DENSITY

    def atoms(self, loading=None, scint_density=None, target_mass=None,
              scint_mass=None, outer_radius=None):
        if target_mass is None:
            if scint_mass is None:
                r = self.radius if outer_radius is None else outer_radius
                d = self.density if scint_density is None else scint_density
                scint_mass = d * 4. * math.pi * float(r) ** 3 / 3.
            ld = self.loading if loading is None else loading
            target_mass = scint_mass * ld * self.abundance * \
                (float(self.a_iso) / self.a_nat)
        # kg -> g -> mol -> atoms
        return target_mass * 1.e3 / self.a_iso * NA

    def half_life(self, counts, n, livetime):
        return math.log(2.) * n * livetime / float(counts)

    def mass(self, half_life):
        return ME / math.sqrt(self.g * float(self.m) ** 2 * half_life)


def _isotope(ctx, ints=False):
    rng = ctx.rng
    a_iso = float(rng.choice([129.906229, 135.907219, 75.9,
                              rng.uniform(40., 200.)]))
    a_nat = float(rng.choice([127.6, 135.73, a_iso,
                              a_iso + rng.uniform(-3., 3.)]))
    if rng.rand() < 0.2:
        a_iso, a_nat = int(a_iso), int(a_nat)
    args = dict(
        a_iso=a_iso, a_nat=a_nat,
        abundance=rng.choice([0.3408, 0.9093, 1, rng.uniform(0.001, 1.)]),
        g=float(rng.choice([3.69e-14, 1433.e-17, rng.uniform(1., 9.) * 1e-15]
                           )),
        m=rng.choice([4.03, 3.33, 4, rng.uniform(0.5, 6.)]),
        loading=None if rng.rand() < 0.4 else
        rng.choice([0., 1., 0.0244, rng.uniform(0., 0.5)]),
        radius=None if rng.rand() < 0.4 else
        rng.choice([1540., 6000, rng.uniform(100., 9000.)]),
        density=None if rng.rand() < 0.4 else
        rng.choice([756.28e-9, rng.uniform(5., 12.) * 1e-7,
                    10. ** rng.uniform(-10., -2.)]))
    for k in ("abundance", "m", "loading", "radius"):
        v = args[k]
        if v is not None and float(v) == int(v) and rng.rand() < 0.5:
            args[k] = int(v)
            ctx.count("integers")
        elif v is not None:
            args[k] = float(v)
    iso = E("calc.decay").DBIsotope(
        "Te130", args["a_iso"], args["a_nat"], args["abundance"], args["g"],
        args["m"], loading=args["loading"], outer_radius=args["radius"],
        scint_density=args["density"])
    return iso, Model(**args), args


def _number(rng, low, high):
    v = math.exp(rng.uniform(math.log(low), math.log(high)))
    if v > 2 and rng.rand() < 0.3:
        return int(v)
    return float(v)


def wl_decay(ctx):
    rng = ctx.rng
    iso, mod, args = _isotope(ctx)
    before = dict(vars(iso))
    ctx.sample("isotope %s" % args)
    ctx.sig(str(args))
    if args["loading"] is None or args["radius"] is None:
        ctx.count("defaults")
    R = 1e-9
    for _ in range(3):
        kw = {}
        for k, vals in (("loading", (0., 1., rng.uniform(0., 1.), 1)),
                        ("scint_density", (8e-7, rng.uniform(1e-7, 1e-6),
                                           3e-9, 2e-3)),
                        ("target_mass", (125., 125, 0., rng.uniform(1., 999.))),
                        ("scint_mass", (1000, 0., rng.uniform(1., 9e5))),
                        ("outer_radius", (3500., 3500,
                                          rng.uniform(10., 7000.)))):
            if rng.rand() < 0.3:
                kw[k] = vals[rng.randint(len(vals))]
        ctx.close(iso.get_n_atoms(**kw) / 1e26, mod.atoms(**kw) / 1e26,
                  "n-atoms", args, kw, rtol=R, atol=0.)
        ctx.count("atoms")
    default = mod.atoms()
    if default == 0.:
        ctx.count("no-atoms")
        return
    for _ in range(4):
        own = rng.rand() < 0.5
        n = default if not own else float(_number(rng, 1e20, 1e30))
        ctx.expect(iso.half_life_to_activity(1e25, n_atoms=0.) == 0. and
                   iso.half_life_to_counts(1e25, n_atoms=0.) == 0. and
                   iso.eff_mass_to_counts(0.1, n_atoms=0.) == 0. and
                   iso.activity_to_half_life(3., n_atoms=0) == 0.,
                   "no-atoms-no-decays")
        k = {"n_atoms": n} if own else {}
        t = float(rng.choice([5., 1., 112.3 / 365.25,
                              rng.uniform(0.01, 20.)]))
        if t == int(t) and rng.rand() < 0.5:
            t = int(t)
        kt = dict(k)
        if rng.rand() < 0.2:
            t = 5.
        else:
            kt["livetime"] = t
        c = _number(rng, 0.01, 1e7)
        hl = mod.half_life(c, n, t)
        m = mod.mass(hl)
        act = float(c) / t
        what = (args, kt, "counts", c)

        def near(got, want, kind):
            ctx.close(float(got) / want, 1., kind, *what, rtol=R, atol=0.)
        near(iso.counts_to_half_life(c, **kt), hl, "counts-to-half-life")
        near(iso.half_life_to_counts(hl, **kt), c, "half-life-to-counts")
        near(iso.counts_to_eff_mass(c, **kt), m, "counts-to-eff-mass")
        near(iso.eff_mass_to_counts(m, **kt), c, "eff-mass-to-counts")
        near(iso.half_life_to_eff_mass(hl), m, "half-life-to-eff-mass")
        near(iso.eff_mass_to_half_life(m), hl, "eff-mass-to-half-life")
        near(iso.half_life_to_activity(hl, **k), act,
             "half-life-to-activity")
        near(iso.activity_to_half_life(act, **k), hl,
             "activity-to-half-life")
        lt = {"livetime": t} if "livetime" in kt else {}
        near(iso.activity_to_counts(act, **lt), c, "activity-to-counts")
        near(iso.counts_to_activity(c, **lt), act, "counts-to-activity")
        # there and back
        near(iso.counts_to_half_life(iso.half_life_to_counts(hl, **kt), **kt),
             hl, "round-trip")
        near(iso.eff_mass_to_counts(iso.counts_to_eff_mass(c, **kt), **kt),
             c, "round-trip")
        if isinstance(m, float) and rng.rand() < 0.2:
            near(iso.eff_mass_to_half_life(2),
                 ME ** 2 / (mod.g * float(mod.m) ** 2 * 4.),
                 "integer-mass")
        ctx.count("conversions")
        ctx.count("own-atoms" if own else "default-atoms")
        arr = numpy.array([c, 2. * c, 7.])
        ctx.close(iso.counts_to_half_life(arr, **kt) / hl,
                  [1., .5, float(c) / 7.], "arrays", *what)
    ctx.expect(vars(iso) == before, "unchanged", vars(iso), before)


def wl_decay_refusals(ctx):
    rng = ctx.rng
    D = E("calc.decay").DBIsotope
    base = dict(name="x", atm_weight_iso=130., atm_weight_nat=127.6,
                abundance=0.34, phase_space=3.69e-14, matrix_element=4.03)
    iso = D(**base)
    eps = float(rng.choice([1e-9, 0.3, 5.]))
    for bad in ({"abundance": -eps}, {"abundance": 1. + eps},
                {"loading": -eps}, {"loading": 1. + eps},
                {"outer_radius": 0.}, {"outer_radius": -eps},
                {"outer_radius": 0}):
        ctx.raises(ValueError, lambda: D(**dict(base, **bad)), "constructor",
                   bad)
    for bad in ({"loading": -eps}, {"loading": 1. + eps},
                {"outer_radius": 0.}, {"outer_radius": -eps}):
        ctx.raises(ValueError, lambda: iso.get_n_atoms(**bad), "n-atoms", bad)
    for m in (0., -eps, 0):
        ctx.raises(ValueError, lambda: iso.eff_mass_to_half_life(m), "mass")
        ctx.raises(ValueError, lambda: iso.eff_mass_to_counts(m), "mass")
    for t in (0., -eps, 0):
        for f in ("activity_to_counts", "counts_to_activity",
                  "counts_to_eff_mass", "eff_mass_to_counts",
                  "half_life_to_counts", "counts_to_half_life"):
            ctx.raises(ValueError,
                       lambda: getattr(iso, f)(3., livetime=t), "livetime",
                       f, t)
    for ok in ({"abundance": 0.}, {"abundance": 1}, {"loading": 0.},
               {"loading": 1.}, {"outer_radius": 1e-6}):
        D(**dict(base, **ok))
        ctx.count("bounds")
    ctx.count("refusals")
    ctx.sig(eps, ctx.case)


# --------------------------------------------------------------- C32 utilities
def wl_errors(ctx):
    rng = ctx.rng
    U = E("utilities")
    shape = [(1,), (7,), (3, 4), (2, 3, 2), (0,), (5, 1)][rng.randint(6)]
    a = rng.uniform(0.01, 20., size=shape)
    if rng.rand() < 0.3:
        a = rng.randint(1, 50, size=shape)
    if rng.rand() < 0.3 and a.size:
        a.ravel()[rng.randint(a.size)] = 0
        ctx.count("zeros")
    if rng.rand() < 0.2:
        a = a.T
    scale = rng.randint(3)
    err = float(rng.choice([0.01, -0.01, 0.5, rng.uniform(-0.9, 2.)]))
    kw = [{}, {"log": True}, {"log10": True}][scale]
    if rng.rand() < 0.8:
        kw["lin_err"] = err
    else:
        err = 0.01
    keep = a.copy()
    got = U.get_array_errors(a, **kw)
    # an error of e on the scale of the array
    want = numpy.full(a.shape, err) if scale == 0 else \
        a * ((math.exp(err) if scale == 1 else 10. ** err) - 1.)
    ctx.same(a, keep, "array-unchanged", kw)
    ctx.close(got, want, "errors", a, kw, rtol=1e-9, atol=1e-9)
    ctx.count("scale:%d" % scale)
    if a.size:
        ctx.raises(ValueError, lambda: U.get_array_errors(a, lin_err=None),
                   "no-error")
    ctx.sig(a, str(kw))
    ctx.sample("%s of shape %s" % (kw, shape))


def wl_formatter(ctx):
    rng = ctx.rng
    U = E("utilities")
    pool = ["a", "a.b", "a.b.c", "extra", "extra.x", "echidna",
            "echidna.core", "echidna.core.spectra", "ab", "root"]
    chosen = [p for p in pool[:-1] if rng.rand() < 0.4]
    if rng.rand() < 0.3:
        chosen.append("root")
    fmts = dict((n, logging.Formatter(n + "|%(message)s")) for n in chosen)
    f = U.DispatchingFormatter(dict(fmts), logging.Formatter(
        "default|%(message)s"))
    stream = io.StringIO()
    handler = logging.StreamHandler(stream)
    handler.setFormatter(f)
    for name in pool + ["a.b.c.d", "nothing", "echidna.fit"]:
        parts = name.split(".")
        want = "default"
        for k in range(len(parts), 0, -1):
            if ".".join(parts[:k]) in fmts:
                want = ".".join(parts[:k])
                break
        else:
            if "root" in fmts:
                want = "root"
        for mid in (".".join(parts[:k]) for k in range(1, len(parts))):
            logging.getLogger(mid)
        handler.handle(logging.LogRecord(name, logging.INFO, "f", 1,
                                         "hello %s", (name,), None))
        line = stream.getvalue().splitlines()[-1]
        ctx.expect(line == "%s|hello %s" % (want, name), "formatter", line,
                   "want", want, "formatters", chosen)
        ctx.count("records")
    ctx.sig(str(chosen))
    ctx.sample("formatters for %s" % chosen)


def wl_logging(ctx):
    """A script that starts logging, and another one after it."""
    rng = ctx.rng
    U, settings = E("utilities"), E("settings")
    base = ctx.tmp()
    names = [["one", "dump_x", "a.b", "my script"][i]
             for i in rng.permutation(4)[:2]]
    for n in names:
        with open("%s/%s.py" % (base, n), "w") as f:
            f.write("import echidna.utilities as utilities\nimport logging\n"
                    "KW = %s\nlogger = utilities.start_logging(**KW)\n"
                    "logger.debug('d-' + %r)\nlogger.info('i-' + %r)\n"
                    "logger.warning('w-' + %r)\n"
                    "logging.getLogger('extra').info('x-' + %r)\n"
                    "import warnings\n"
                    "try:\n    warnings.warn('u-' + %r + '-', UserWarning)\n"
                    "except UserWarning:\n"
                    "    logger.info('halts:' + %r)\n"
                    % ("%s", n, n, n, n, n, n))
    kws = []
    for _ in names:
        kws.append({k: bool(rng.randint(2)) for k in (
            "capture_warnings", "short_name", "script_name")
            if rng.rand() < 0.5})
    level = ["debug", "info", "warning"][rng.randint(3)]
    logs = base + ["/logs", "/logs/", "/l.1"][rng.randint(3)]
    missing = rng.rand() < 0.15
    if not missing:
        os.mkdir(logs)
    for n, kw in zip(names, kws):
        p = "%s/%s.py" % (base, n)
        with open(p) as f:
            text = f.read()
        with open(p, "w") as f:
            f.write(text.replace("%s", repr(kw)))
    cautious = rng.rand() < 0.4
    stale = not missing and rng.rand() < 0.4
    if stale:                   # of an earlier run with the same short name
        kw = kws[0]
        with open(os.path.join(logs, "echidna%s%s.log" % (
                "." + names[0] if kw.get("script_name", True) else "",
                "" if kw.get("short_name", False) else ".%s.%d" % (
                    socket.gethostname(), os.getpid()))), "w") as f:
            f.write("an earlier run\n")
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        _logging_case(ctx, U, settings, base, names, kws, level, logs,
                      missing, "cautious" if cautious else "normal")


def _logging_case(ctx, U, settings, base, names, kws, level, logs, missing,
                  mode):
    top = logging.getLogger()
    old = (top.level, list(top.handlers), top.manager.disable,
           dict(settings.user_profile), U.logger_set, sys.stderr)
    out = io.StringIO()
    mods, error = [], None
    try:
        settings.user_profile.update(log_save_path=logs, log_level=level,
                                     mode=mode)
        U.logger_set = False
        for h in old[1]:
            top.removeHandler(h)
        logging.disable(logging.NOTSET)
        sys.stderr = out
        for n in names:
            try:
                mods.append(py2load.run_script("%s/%s.py" % (base, n), []))
            except IOError as e:
                error = e
    finally:
        sys.stderr = old[5]
        logging.captureWarnings(False)
        for h in list(top.handlers):
            top.removeHandler(h)
            h.close()
        for h in old[1]:
            top.addHandler(h)
        top.setLevel(old[0])
        logging.disable(old[2])
        settings.user_profile.update(old[3])
        U.logger_set = old[4]
    if missing:
        ctx.expect(error is not None and not mods and
                   not os.path.exists(logs), "no-log-directory", error, logs)
        ctx.count("no-log-directory")
        ctx.sig(names, level, logs, "missing")
        return
    ctx.expect(error is None and len(mods) == 2, "logging-starts", error)
    kw = kws[0]
    want = "echidna"
    if kw.get("script_name", True):
        want += "." + names[0]
    if not kw.get("short_name", False):
        want += ".%s.%d" % (socket.gethostname(), os.getpid())
    # one log, in the log directory, named after the first script
    ctx.expect(os.listdir(logs) == [want + ".log"], "log-file",
               os.listdir(logs), "want", want)
    ctx.expect(sorted(x for x in os.listdir(base) if not x.endswith(".py"))
               == [os.path.basename(logs.rstrip("/"))], "no-other-files",
               os.listdir(base))
    for m, n in zip(mods, names):
        ctx.expect(m.logger.name == n, "logger-name", m.logger.name, n)
    with open(os.path.join(logs, want + ".log")) as f:
        text = f.read()
    shown = out.getvalue()
    ctx.expect("an earlier run" not in text, "log-of-this-run", text)
    for n, kw in zip(names, kws):
        # in cautious mode warnings stop the script, otherwise they are told
        ctx.expect(text.count("halts:%s\n" % n) == (mode == "cautious"),
                   "cautious-raises", mode, n, text)
        if mode != "cautious":
            captured = kw.get("capture_warnings", True)
            ctx.expect(("u-%s-" % n in text) == captured and
                       "u-%s-" % n in shown, "warning-told", n, kw, text,
                       shown)
        ctx.count("mode:" + mode)
    for n in names:
        for k, lev in (("d-", "debug"), ("i-", "info"), ("w-", "warning"),
                       ("x-", "info")):
            # everything in the file, once, whatever goes to the terminal
            ctx.expect(text.count(k + n + "\n") == 1, "in-the-log", k + n,
                       text)
            order = ["debug", "info", "warning"]
            want = order.index(lev) >= order.index(level)
            ctx.expect(shown.count(k + n) == want, "on-the-terminal", k + n,
                       level, shown)
            ctx.count("messages")
        ctx.expect(text.count("Starting script: %s.py\n" % n) == 1,
                   "script-announced", n, text)
    ctx.count("level:" + level)
    ctx.sig(names, level, logs, str(kws))
    ctx.sample("%s, terminal level %s, %s" % (names, level, kws))


def _tree(rng, depth=0):
    r = rng.randint(6 if depth < 3 else 4)
    if r == 0:
        return int(rng.randint(-99, 99))
    if r == 1:
        return float(rng.choice([0.5, -1e-9, 1e300, rng.uniform(-9, 9)]))
    if r == 2:
        return ["mc", "energy_mc", "a: b", "", "1.0", "null", "x y",
                "# no"][rng.randint(8)]
    if r == 3:
        return [None, True, False][rng.randint(3)]
    if r == 4:
        return [_tree(rng, depth + 1) for _ in range(rng.randint(4))]
    keys = ["z", "a", "m", "k2", "10", "low", "high", "bins", "energy_mc"]
    return OrderedDict((keys[i], _tree(rng, depth + 1)) for i in
                       rng.permutation(len(keys))[:rng.randint(6)])


def _order(x):
    if isinstance(x, dict):
        return [(k, _order(v)) for k, v in x.items()]
    if isinstance(x, list):
        return [_order(v) for v in x]
    return x


def wl_yaml(ctx):
    rng = ctx.rng
    Y = E("util.yaml_loader")
    data = OrderedDict(("k%d" % i, _tree(rng)) for i in
                       rng.permutation(6)[:rng.randint(1, 6)])
    if rng.rand() < 0.2:                # a long mapping
        data["many"] = OrderedDict(("n%d" % i, int(i)) for i in
                                   rng.permutation(rng.randint(30, 200)))
    keep = copy.deepcopy(data)
    path = os.path.join(ctx.tmp(), "x.yml")
    kw = {"default_flow_style": bool(rng.rand() < 0.5)} \
        if rng.rand() < 0.7 else {}
    with open(path, "w") as f:
        Y.ordered_dump(data, f, **kw)
    with open(path) as f:
        back = Y.ordered_load(f)
    ctx.expect(_order(back) == _order(keep), "yaml-round-trip", back, keep)
    text = Y.ordered_dump(data, **kw)  # No stream
    with open(path) as f:
        ctx.expect(text == f.read(), "yaml-text", text)
    ctx.expect(_order(Y.ordered_load(text)) == _order(keep),
               "yaml-text-round-trip", text)
    ctx.expect(_order(data) == _order(keep), "yaml-unchanged", data)
    ctx.count("yaml")
    # shared parts: anchors, aliases and merged mappings, as in any yaml
    low, high, bins = int(rng.randint(9)), int(rng.randint(10, 99)), 7
    with open(path, "w") as f:
        f.write("z: &a\n  low: %d\n  high: 1\n  bins: %d\n"
                "b: *a\n"
                "a:\n  <<: *a\n  high: %d\n  new: [1, 2]\n"
                % (low, bins, high))
    with open(path) as f:
        back = Y.ordered_load(f)
    one = OrderedDict([("low", low), ("high", 1), ("bins", bins)])
    ctx.expect(list(back) == ["z", "b", "a"] and
               _order(back["z"]) == _order(one) == _order(back["b"]),
               "yaml-aliases", back)
    ctx.expect(dict(back["a"]) == dict(one, high=high, new=[1, 2]),
               "yaml-merged", back)
    ids = [E("util.strings").id_generator(size=s) for s in (0, 1, 4, 30)]
    ctx.expect([len(i) for i in ids] == [0, 1, 4, 30], "id-length", ids)
    ctx.expect(all(c.isalnum() and ord(c) < 128 for i in ids for c in i),
               "id-characters", ids)
    ctx.expect(set(E("util.strings").id_generator(50, "ab")) <= set("ab"),
               "id-characters")
    ctx.sig(str(_order(data)))
    ctx.sample("yaml of %s" % _order(data))


def wl_physics(ctx):
    """The tolerance of physics tests."""
    rng = ctx.rng
    P = E("test.physics_tests")
    want = float(_number(rng, 1e-9, 1e30))
    tol = float(rng.choice([0.001, 0.1, 0.5]))
    off = float(rng.choice([0., 0.5, 0.9, 1.2, 3., -0.9, -1.2])) * tol

    def thing(x=1.):
        return x
    res, msg = P.test_function_float(thing, want, tolerance=tol,
                                     x=want * (1. + off))
    ctx.expect(bool(res) == (abs(off) <= tol), "physics-test", want, tol,
               off, res)
    ctx.expect(("OK" in msg) == bool(res) and msg.startswith("thing"),
               "physics-message", msg)
    ctx.count("passed" if res else "failed")
    ctx.sig(want, tol, off)


class _Clock(object):
    """The module time with the clock of Python 2."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        if name == "clock":
            return self._real.perf_counter
        return getattr(self._real, name)


def wl_timer(ctx):
    """The time spent in a block, whether or not it ends well."""
    rng = ctx.rng
    U = E("utilities")
    import time
    real = U.time
    fails = rng.rand() < 0.5
    t = U.Timer()
    n = int(rng.choice([0, 1000, 20000]))
    try:
        U.time = _Clock(time)
        a = time.perf_counter()
        try:
            with t as inside:
                b = time.perf_counter()
                sum(i * i for i in range(n))
                least = time.perf_counter() - b
                if fails:
                    raise KeyError("in the block")
            ctx.expect(not fails, "errors-pass-through")
        except KeyError:
            ctx.expect(fails, "errors-pass-through")
        most = time.perf_counter() - a
    finally:
        U.time = real
    ctx.expect(inside is t, "the-timer-itself")
    ctx.expect(-1e-9 <= t._interval <= most + 0.05, "time-spent", n,
               t._interval, least, most)
    ctx.expect(n < 20000 or t._interval > 0., "time-spent", n, t._interval)
    ctx.count("timers")
    ctx.sig(ctx.case)


PROPS = {
    "C30": Prop(
        "double beta conversions",
        [("conversions", wl_decay, 400, 30000),
         ("refusals", wl_decay_refusals, 40, 1000)],
        "random isotopes, detectors and defaults, counts of 0.01 to 1e7, "
        "integers and floats, livetimes; distinct by isotope",
        ["atoms", "conversions", "own-atoms", "default-atoms", "integers",
         "defaults", "no-atoms", "refusals"]),
    "C32": Prop(
        "utilities",
        [("errors", wl_errors, 200, 8000), ("logging", wl_logging, 40, 1500),
         ("formatter", wl_formatter, 80, 3000), ("yaml", wl_yaml, 150, 6000),
         ("physics", wl_physics, 60, 2000),
         ("timer", wl_timer, 10, 300)],
        "random arrays, sets of formatters, nested dictionaries and "
        "tolerances; distinct by input",
        ["scale:0", "scale:1", "scale:2", "zeros", "records",
         "messages", "level:debug", "level:info", "level:warning", "yaml",
         "passed", "failed", "timers", "mode:cautious", "mode:normal"]),
}
