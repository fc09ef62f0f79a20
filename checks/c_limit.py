"""Setting limits and their results."""
from collections import OrderedDict
import itertools
import logging
import os
import re

import numpy

import gen
from gen import E
from mon import Prop
from c_fit import Scene, _check_grid, _fit_config, _pars, _par, interrupt


def _model(sc, cache, norm):
    """(grid of raw statistics, penalties, tolerance) for a signal norm."""
    grids = sc.grids()
    shape = tuple(len(v) for v in grids)
    raw, pen, tol = {}, {}, 0.
    for pt in itertools.product(*[range(n) for n in shape]):
        vals = [v[i] for v, i in zip(grids, pt)]
        raw[pt], t = sc.statistic(sc.expected(vals, cache, norm))
        pen[pt] = sc.penalty(vals)
        tol = max(tol, t)
    return raw, pen, tol


def _best(raw, pen):
    """Grid point of the minimum, and its distance to the next."""
    tot = sorted((float(numpy.sum(raw[p]) + pen[p]), p) for p in raw)
    return tot[0][1], (tot[1][0] - tot[0][0] if len(tot) > 1 else numpy.inf)


class Case(object):
    def __init__(self, ctx, per_bin=None, **kw):
        rng = ctx.rng
        if per_bin is None:
            per_bin = bool(rng.rand() < 0.2)
        args = dict(nfloat=int(rng.choice([0, 1, 1, 2])),
                    nglobal=int(rng.choice([0, 0, 0, 1])), signal=True,
                    per_bin=per_bin)
        args.update(kw)
        sc = self.sc = Scene(rng, **args)
        low = float(rng.choice([0., 0., 0., 1., 5., 0.02]))
        log = rng.rand() < 0.2
        if log:
            low = float(rng.choice([0.5, 2.]))
        high = low + float(rng.choice([20., 60., 300.]))
        if rng.rand() < 0.1 and not log:    # a signal of few decays
            low, high = float(rng.choice([0., 1e-3])), 0.03
        sc.signal["rate"] = dict(prior=low, low=low, high=high, sigma=None,
                                 bins=int(rng.choice([2, 3, 5, 8])))
        if log:
            sc.signal["rate"]["logscale"] = True
        b = sc.signal["rate"]["bins"]
        self.scales = numpy.linspace(low, high, b) if not log else \
            numpy.exp(numpy.linspace(numpy.log(low), numpy.log(high), b))
        self.cache = {}
        self.fresh()
        self.grids = [_model(sc, self.cache, 0. if v < 1e-8 else v)
                      for v in self.scales]
        self.zero = _model(sc, self.cache, 0.)
        ctx.sample("%s scales %s" % (sc.describe(), self.scales))
        ctx.log(sc.describe(), "scales", self.scales)

    def fresh(self):
        self.o = self.sc.objects()
        self.signal = self.o["signal"]
        self.fitter = self.sc.fit(dict(self.o, signal=None))
        self.limit = E("limit.limit").Limit(self.signal, self.fitter)

    def clear(self):
        """True if no minimum is a matter of rounding."""
        for raw, pen, tol in self.grids + [self.zero]:
            if _best(raw, pen)[1] < 10 * tol + 1e-9:
                return False
        s = [float(numpy.sum(x)) for x in self.stats(0.)]
        t = numpy.sort(s)
        return t[1] - t[0] > 1e-6 * (1. + self.tol())

    def tol(self):
        return max(g[2] for g in self.grids + [self.zero])

    def stats(self, min_stat=None):
        """Raw statistics at the best fits less the zero-signal one."""
        if min_stat is None:
            raw, pen, _ = self.zero
            min_stat = raw[_best(raw, pen)[0]]
        return [raw[_best(raw, pen)[0]] - min_stat
                for raw, pen, _ in self.grids]

    def full(self, min_stat=None):
        res = []
        for s, (raw, pen, _) in zip(self.stats(min_stat), self.grids):
            res.append(float(numpy.sum(s)) + pen[_best(raw, pen)[0]])
        return res

    def best_fits(self, i):
        raw, pen, _ = self.grids[i]
        pt = _best(raw, pen)[0]
        return [v[k] for v, k in zip(self.sc.grids(), pt)]

    def penalties(self, i):
        f = 0.5 if self.sc.stat == "BakerCousinsLL" else 1.
        return [0. if p["sigma"] is None else
                f * ((v - p["prior"]) / p["sigma"]) ** 2
                for v, p in zip(self.best_fits(i), self.sc.par_dicts())]


def _wrap(v, per_bin, fixed):
    return numpy.ravel(v) if per_bin and fixed else v


def _check_results(ctx, c, res, min_stat=None, stats=True):
    n = len(c.scales)
    fixed = not c.sc.floats
    tol = c.tol() * 4
    full = c.full(min_stat)
    ctx.close(res.get_scales(), c.scales, "scales-of-results", rtol=1e-9)
    want = [_wrap(s, c.sc.per_bin, fixed) for s in c.stats(min_stat)]
    ctx.close(res.get_stats(), want, "statistics", rtol=1e-8, atol=tol)
    for i in range(n):
        ctx.close(res.get_limit_stat(i), want[i], "statistic-at-scale", i,
                  rtol=1e-8, atol=tol)
        ctx.close(res.get_full_stat(i), full[i], "full-statistic", i,
                  rtol=1e-8, atol=tol)
        ctx.close(res.get_penalty_terms_at_scale(i), c.penalties(i),
                  "penalties-at-scale", i)
        for k, p in enumerate(c.sc.par_dicts()):
            ctx.close(res.get_best_fit(i, p["name"]), c.best_fits(i)[k],
                      "best-fit-at-scale", i, p["name"])
            ctx.close(res.get_penalty_term(i, p["name"]), c.penalties(i)[k],
                      "penalty-at-scale", i, p["name"])
    shape = numpy.shape(want[0])
    ref = numpy.array([numpy.full(shape, f) for f in full])
    ctx.close(res.get_full_stats(), ref, "full-statistics", rtol=1e-8,
              atol=tol)


class Summary(logging.Handler):
    """What is reported of a limit."""

    def __enter__(self):
        self.texts = []
        extra, root = logging.getLogger("extra"), logging.getLogger()
        self.was = (extra.level, extra.propagate, root.level,
                    logging.root.manager.disable)
        logging.disable(logging.NOTSET)
        root.setLevel(logging.CRITICAL + 1)
        extra.setLevel(logging.INFO)
        extra.propagate = False
        extra.addHandler(self)
        return self

    def __exit__(self, *a):
        extra, root = logging.getLogger("extra"), logging.getLogger()
        extra.removeHandler(self)
        extra.level, extra.propagate, level, disable = self.was
        extra.setLevel(extra.level)
        root.setLevel(level)
        logging.disable(disable)

    def emit(self, record):
        text = record.getMessage()
        if "Limit Summary" in text:
            self.texts.append(text)


def _number(text, key):
    m = re.search(r"^\s*%s[^:\n]*:\s*(\S+)\s*$" % key, text, re.M)
    return m.group(1) if m else None


def _same_number(got, want, rtol=1e-4, atol=1e-9):
    if want is None or got in (None, "None"):
        return want is None and got == "None"
    return abs(float(got) - want) <= rtol * abs(want) + atol


def _describes(text, c, i, full, tol):
    """Whether the text describes scale i: a reason why not, or None."""
    if not _same_number(_number(text, "Signal Decays"), c.scales[i], 1e-3):
        return "scale"
    parts = re.split(r"^-+ systematic: (.*) -+$", text, flags=re.M)[1:]
    parts = dict(zip(parts[::2], parts[1::2]))
    pars = c.sc.par_dicts()
    if sorted(parts) != sorted(p["name"] for p in pars):
        return "parameters"
    for p, best, pen in zip(pars, c.best_fits(i), c.penalties(i)):
        part = parts[p["name"]]
        if not _same_number(_number(part, "Best fit"), best):
            return "best fit of " + p["name"]
        if not _same_number(_number(part, "Penalty term"), pen, 1e-3):
            return "penalty of " + p["name"]
        if not _same_number(_number(part, "Prior"), p["prior"]):
            return "prior of " + p["name"]
        if not _same_number(_number(part, "Sigma"), p["sigma"]):
            return "sigma of " + p["name"]
    if not c.sc.per_bin and not _same_number(
            _number(text, "Test statistic"), full[i], 1e-6, 1e-4 + tol):
        return "statistic"


def wl_limit(ctx):
    rng = ctx.rng
    c = Case(ctx)
    sc = c.sc
    L = E("errors.custom_errors").LimitError
    store = E("output.store")
    out = E("output")
    if not c.clear():
        ctx.count("left-to-rounding")
        return
    scratch = ctx.tmp()
    old = out.__default_save_path__
    out.__default_save_path__ = scratch
    try:
        for rnd in range(2):
            min_stat = None
            if rng.rand() < 0.3:
                min_stat = float(rng.choice([0., 0., rng.uniform(-5., 5.)]))
                if sc.per_bin:
                    # one value per bin, like the statistics
                    s = numpy.shape(_wrap(c.stats()[0], True, not sc.floats))
                    min_stat = rng.uniform(-1., 1., size=s)
            full = numpy.array(c.full(_shaped(min_stat, c)))
            raw = numpy.array([numpy.sum(s) for s in
                               c.stats(_shaped(min_stat, c))])
            start = int(numpy.argmin(raw))
            gap = 1e-6 * (1. + numpy.abs(full).max() + c.tol() * 1e9)
            kind = rng.randint(4)
            if kind == 0:
                level = 2.71
            elif kind == 1:
                level = float(full.max() + 1.)
            else:
                level = float(full[rng.randint(len(full))] + rng.choice(
                    [-1, 1]) * 2 * gap)
            exact = min_stat is None and start == 0 and full[0] == 0. and \
                c.scales[0] == 0. and rng.rand() < 0.4
            if exact:
                # the statistic without signal against itself: exactly zero
                level, kind = 0., 1
                ctx.count("limit-exactly-at-level")
            elif numpy.abs(full - level).min() < gap * 0.5:
                continue
            above = [i for i in range(start, len(full)) if full[i] > level]
            if exact and numpy.abs(full[1:]).min() < gap * 0.5:
                continue
            fname = [None, scratch + "/mine%d" % rnd,
                     scratch + "/other%d.hdf5" % rnd,
                     scratch + "/limit_v1.%d" % rnd][rng.randint(4)]
            keep = bool(rng.rand() < 0.8)
            fits = bool(rng.rand() < 0.5)
            specs = bool(rng.rand() < 0.3)
            before = set(os.listdir(scratch))
            kw = dict(store_limit=keep, store_fits=fits,
                      store_spectra=specs, limit_fname=fname)
            if kind != 0 or rng.rand() < 0.5:
                kw["limit"] = level
            if min_stat is not None:
                kw["min_stat"] = min_stat
                ctx.count("given-minimum")
            ctx.log("get_limit", kw, "full", full)
            for k, default in (("store_limit", True), ("store_fits", False),
                               ("store_spectra", False),
                               ("limit_fname", None)):
                if kw[k] == default and rng.rand() < 0.5:
                    del kw[k]
            if rng.rand() < 0.2:            # an attempt that fails half-way
                interrupt(ctx, c.limit._fitter, lambda: c.limit.get_limit(
                    limit=1e300 if rng.rand() < 0.5 else -1e300,
                    store_limit=False), L)
            if above:
                with Summary() as said:
                    got = c.limit.get_limit(**kw)
                where = [above[0]]
                ctx.close(got, c.scales[above[0]], "limit", level, full,
                          start)
                ctx.count("limits")
                if above[0] > start:
                    ctx.count("limits-above-the-minimum")
                if start > 0 and (full[:start] > level).any():
                    ctx.count("excess-below-the-minimum")
            else:
                with Summary() as said:
                    ctx.raises(L, lambda: c.limit.get_limit(**kw), "no-limit",
                               level, full, start)
                ctx.count("no-limit")
                # reported for the largest statistic
                top = full[start:].max()
                where = [i for i in range(start, len(full))
                         if full[i] >= top - gap]
            ctx.expect(len(said.texts) == 1, "one-summary", said.texts)
            why = [_describes(said.texts[0], c, i, full, c.tol() * 4)
                   for i in where]
            ctx.expect(None in why, "summary-of-the-limit", why, where,
                       said.texts[0], full)
            ctx.count("summaries")
            _check_results(ctx, c, c.limit._limit_results,
                           _shaped(min_stat, c))
            if fits:
                for i in range(len(c.scales)):
                    g = c.limit._limit_results._fit_results[i]
                    grid, pen, tol = c.grids[i]
                    if not sc.floats:
                        continue
                    for pt in grid:
                        ctx.close(g._stats[pt], grid[pt], "stored-fit", i,
                                  rtol=1e-8, atol=tol)
                        ctx.close(g._penalty_terms[pt], pen[pt],
                                  "stored-fit-penalty", i)
                    ctx.count("stored-fits")
            new = set(os.listdir(scratch)) - before
            want = set()
            if keep:
                if fname:
                    want.add(os.path.basename(fname).replace(".hdf5", "") +
                             ".hdf5")
                else:
                    mine = [f for f in new if f.startswith(
                        "signal_limit_results_") and f.endswith(".hdf5")]
                    again = [f for f in before if f.startswith(
                        "signal_limit_results_")]
                    ctx.expect(len(mine) == 1 or (not mine and again),
                               "results-file", new)
                    want.update(mine)
                if want:
                    r = store.load_limit_results(
                        scratch + "/" + sorted(want)[0])
                    _check_results(ctx, c, r, _shaped(min_stat, c))
                    ctx.count("results-files")
            if specs:
                files = {"data_data.hdf5": c.o["data"],
                         "signal_signal.hdf5": c.signal}
                if sc.fixed:
                    b = c.fitter.get_fixed_background()
                    files[b.get_name() + "_fixed.hdf5"] = b
                for s in c.o["floats"]:
                    files[s.get_name() + "_float.hdf5"] = s
                for f, s in files.items():
                    ctx.expect(f in new or f in before, "spectrum-file", f,
                               new)
                    x = store.load(scratch + "/" + f)
                    ctx.same(x._data, s._data, "stored-spectrum", f)
                    ctx.close(x.get_num_decays(), s.get_num_decays(),
                              "stored-spectrum", f)
                want.update(files)
                ctx.count("spectra-files")
            ctx.expect(new <= want, "no-other-files", new - want)
        if not sc.per_bin and rng.rand() < 0.3:
            _at_level(ctx, c, L)
    finally:
        out.__default_save_path__ = old
    ctx.count("stat:" + sc.stat)
    ctx.count("fixed-only" if not sc.floats else "floats")
    if sc.globals:
        ctx.count("globals")
    if sc.per_bin:
        ctx.count("per-bin")
    ctx.sig(sc.describe(), sc.data["data"], c.scales)


def _at_level(ctx, c, L):
    """A threshold that is exactly one of the statistics."""
    level = start = None
    for rnd in range(2):
        c.fresh()
        try:
            got = c.limit.get_limit(limit=1e300 if rnd == 0 else level,
                                    store_limit=False)
        except L:
            got = None
        res = c.limit._limit_results
        full = numpy.ravel(res.get_full_stats())
        start = int(numpy.argmin(numpy.ravel(res.get_stats())))
        if rnd == 0:
            first = full
            pick = [start + int(numpy.argmax(full[start:])), ctx.rng.randint(
                start, len(full))][ctx.rng.randint(2)]
            level = float(full[pick])
    if not numpy.array_equal(first, full):
        return
    above = [i for i in range(start, len(full)) if full[i] > level]
    ctx.expect(got is None if not above else
               got == c.limit._signal.get_fit_config().get_par(
                   "rate").get_values()[above[0]],
               "limit-exactly-at-a-statistic", got, level, full)
    ctx.count("exactly-a-statistic")
    ctx.count("exactly-a-statistic:" + ("limit" if above else "none"))


def _shaped(min_stat, c):
    if isinstance(min_stat, numpy.ndarray):
        return min_stat.reshape(numpy.shape(c.grids[0][0][
            next(iter(c.grids[0][0]))]))
    return min_stat


def wl_statistics(ctx):
    """One fit per signal scale, the signal scaled to it."""
    rng = ctx.rng
    c = Case(ctx, per_bin=False)
    sc = c.sc
    if not c.clear():
        ctx.count("left-to-rounding")
        return
    for rnd in range(2):
        got = c.limit.get_statistics()
        ctx.expect(isinstance(got, numpy.ndarray) and
                   len(got) == len(c.scales), "one-per-scale", got)
        for i, (raw, pen, tol) in enumerate(c.grids):
            pt = _best(raw, pen)[0]
            want = [raw[pt], pen[pt]] if sc.floats else raw[pt]
            ctx.close(got[i], want, "statistic-of-scale", i, rtol=1e-8,
                      atol=tol)
            ctx.count("statistics")
        ctx.close(c.fitter.get_data()._data, sc.cut(sc.data),
                  "data-unchanged")
    ctx.sig(sc.describe(), sc.data["data"], c.scales)


def wl_array_limit(ctx):
    rng = ctx.rng
    L, CE = [getattr(E("errors.custom_errors"), n)
             for n in ("LimitError", "CompatibilityError")]
    c = Case(ctx, nfloat=0, per_bin=False, nglobal=0)
    n = len(c.scales)
    for _ in range(8):
        per_bin = rng.rand() < 0.5
        a = rng.uniform(0., 10., size=n) if not per_bin else \
            rng.uniform(0., 3., size=(n, int(rng.randint(1, 5))))
        if rng.rand() < 0.5:
            a = numpy.sort(a, axis=0)
        s = a if not per_bin else a.sum(axis=1)
        level = float(rng.choice([2.71, 0., rng.uniform(0., 12.)]))
        if not per_bin and rng.rand() < 0.3:
            level = float(s[rng.randint(n)])        # not above: only equal
            ctx.count("exactly-at-level")
        above = [i for i in range(n) if s[i] > level]
        arg = list(a) if rng.rand() < 0.3 else a.copy()
        kw = {} if level == 2.71 else {"limit": level}
        if above:
            ctx.close(c.limit.get_array_limit(arg, **kw), c.scales[above[0]],
                      "array-limit", a, level)
            ctx.count("array-limits")
        else:
            ctx.raises(L, lambda: c.limit.get_array_limit(arg, **kw),
                       "array-no-limit", a, level)
            ctx.count("array-no-limit")
        ctx.same(numpy.array(arg), a, "array-unchanged")
        for bad in (a[:-1], numpy.concatenate([a, a[:1]])):
            ctx.raises(CE, lambda: c.limit.get_array_limit(bad, **kw),
                       "array-length")
        if per_bin:
            ctx.close(c.limit.sum_entries(a), s, "sum-entries")
        ctx.sig(a, level)
    # a signal without fit parameters has no limit
    x = gen.spectrum(rng)
    ctx.raises(CE, lambda: E("limit.limit").Limit(x, c.fitter),
               "signal-without-rate")


# -------------------------------------------------------- C25 limit results
def wl_results(ctx):
    """Results hold what was put in, at its place only."""
    rng = ctx.rng
    R = E("fit.fit_results")
    C, P = E("core.config"), E("core.parameter")
    cfg = _fit_config(rng, npar=int(rng.randint(1, 5)))
    spec = gen.config(gen.axes(rng), "spec_cfg")
    n = int(rng.choice([1, 2, 3, 5, 9]))
    pars = [("rate", P.RateParameter("rate", 1., None, 0., 9., n))]
    if rng.rand() < 0.3:                # other systematics of the signal
        pars.insert(rng.randint(2), (
            "energy_mc_scale", P.ScaleParameter(
                "energy_mc_scale", 1., None, 0.5, 1.5, n + 2, "energy_mc")))
    lim = C.SpectraFitConfig("lim", OrderedDict(pars), "sig")
    name = [None, "some_results"][rng.randint(2)]
    res = R.LimitResults(cfg, spec, lim, name) if name or rng.rand() < 0.5 \
        else R.LimitResults(cfg, spec, lim)
    ctx.expect(res.get_name() == (name or "spec_cfg_limit_results"),
               "name-of-results", res.get_name())
    pars = list(cfg.get_pars())
    best = numpy.zeros((n, len(pars)))
    pen = numpy.zeros((n, len(pars)))
    stats = numpy.zeros(n)
    rows = bool(rng.rand() < 0.3)
    if rows:                            # statistics per bin
        stats = rng.uniform(0., 3., size=(n, 4))
        res._stats = stats.copy()
    fits = [None] * n
    for _ in range(25):
        i, k = int(rng.randint(n)), int(rng.randint(len(pars)))
        v = float(rng.choice([rng.uniform(-5., 50.), 0., 1e-9, 1e12]))
        if rng.rand() < 0.1:
            v = [numpy.nan, numpy.inf][rng.randint(2)]
        op = rng.randint(4)
        if op == 0:
            res.set_best_fit(i, v, pars[k])
            best[i, k] = v
        elif op == 1:
            res.set_penalty_term(i, v, pars[k])
            pen[i, k] = v
        elif op == 2:
            res.set_limit_stat(i, v)
            stats[i] = v
        else:
            fits[i] = object()
            res.set_fit_result(i, fits[i])
        for k, p in enumerate(pars):
            ctx.same(res.get_best_fits(p), best[:, k], "best-fits", p)
            ctx.same(res.get_penalty_terms(p), pen[:, k], "penalties", p)
        j = int(rng.randint(n))
        for k, p in enumerate(pars):
            ctx.same(res.get_best_fit(j, p), best[j, k], "best-fit", j, p)
            ctx.same(res.get_penalty_term(j, p), pen[j, k], "penalty", j, p)
        ctx.same(res.get_penalty_terms_at_scale(j), pen[j],
                 "penalties-at-scale")
        ctx.same(res.get_limit_stat(j), stats[j], "limit-stat", j)
        ctx.same(res.get_stats(), stats, "limit-stats")
        full = stats.reshape(n, -1).sum(axis=1) + pen.sum(axis=1)
        ctx.close(res.get_full_stat(j), full[j], "full-stat", j)
        want = full if not rows else numpy.repeat(full[:, None], 4, axis=1)
        ctx.close(res.get_full_stats(), want, "full-stats")
        # asking does not change
        ctx.same(res.get_stats(), stats, "stats-unchanged")
        ctx.same(res._penalty_terms, pen, "penalties-unchanged")
        ctx.expect(all(a is b for a, b in zip(res._fit_results, fits)),
                   "fit-results")
        ctx.count("results-events")
    ctx.close(res.get_scales(), numpy.linspace(0., 9., n), "scales")
    ctx.expect(res.get_fit_config() is cfg and
               res.get_spectra_config() is spec, "configs")
    ctx.raises(IndexError, lambda: res.get_best_fits("nothing"), "unknown")
    ctx.raises(IndexError, lambda: res.set_penalty_term(0, 1., "nothing"),
               "unknown")
    for p in _pars(cfg):
        p.set_best_fit(1.5)
        p.set_penalty_term(0.5)
    s = res.get_summary()
    ctx.expect(dict(s) == {p: {"best_fit": 1.5, "penalty_term": 0.5}
                           for p in pars}, "summary")
    if rows:
        ctx.count("rows")
    # plain fit results
    f = R.FitResults(cfg, spec) if rng.randint(2) else \
        R.FitResults(cfg, spec, "given")
    ctx.expect(f.get_name() in ("a_fit_results", "given"),
               "name-of-fit-results", f.get_name())
    other = gen.config(gen.axes(rng))
    f.set_spectra_config(other)
    cfg2 = _fit_config(rng, npar=1)
    f.set_fit_config(cfg2)
    ctx.expect(f.get_spectra_config() is other and
               f.get_fit_config() is cfg2, "configs-set")
    ctx.sig(pars, n, best, pen, stats)
    ctx.sample("results of %s at %d scales" % (pars, n))


PROPS = {
    "C24": Prop(
        "limits",
        [("limit", wl_limit, 70, 3500), ("statistics", wl_statistics, 30,
                                         1500),
         ("array", wl_array_limit, 30, 2000)],
        "random fits (fixed, floating and global, total and per bin) with a "
        "signal of 2-8 scales on linear or logarithmic grids, thresholds "
        "between, at and above the statistics, given or fitted minimum, "
        "results and spectra stored or not, twice per limit object; "
        "distinct by settings and data",
        ["limits", "limits-above-the-minimum", "no-limit", "given-minimum",
         "stored-fits", "results-files", "spectra-files", "fixed-only",
         "floats", "globals", "per-bin", "statistics", "array-limits",
         "array-no-limit", "exactly-at-level",
         "summaries"],
        ["cases whose minimum is decided by rounding are left out"]),
    "C25": Prop(
        "limit results", [("results", wl_results, 150, 8000)],
        "random sequences of entries of random configurations; distinct by "
        "contents",
        ["results-events", "rows"]),
}
