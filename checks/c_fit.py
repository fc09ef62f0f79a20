"""Grid search and fitting."""
from collections import OrderedDict
import copy
import itertools
import math
import os

import numpy

import gen
from gen import E
from mon import Prop
from c_stats import STATS


# ------------------------------------------------------- C19 / C20 grid search
def _par(rng, name, cls="RateParameter", bins=None, **kw):
    P = E("core.parameter")
    bins = bins or int(rng.choice([1, 2, 3, 4, 5]))
    low = float(rng.choice([0., 1., -2.5, rng.uniform(-3., 3.)]))
    high = low + float(rng.choice([1., 4., rng.uniform(0.5, 9.)]))
    if rng.rand() < 0.04:               # values close to each other
        low, high = float(rng.choice([1e5, 2.5])), 0.
        high = low * (1. + (bins - 1) * 3e-6)
    elif rng.rand() < 0.04:
        low, high = 1e-9, 1e-9 * bins
    args = dict(prior=float(rng.choice([low, high, rng.uniform(low, high)])),
                sigma=None if rng.rand() < 0.3 else
                float(rng.choice([0.5, 1., 3.])), low=low, high=high,
                bins=bins)
    args.update(kw)
    if cls != "RateParameter":
        args["dimension"] = "energy_mc"
    return getattr(P, cls)(name, **args)


def _fit_config(rng, npar=None, max_cells=400, same_values=False,
                values=False):
    C = E("core.config")
    npar = npar or int(rng.choice([1, 2, 2, 3, 3, 4]))
    names = ["b8_rate", "bkg_2_rate", "energy_mc_scale", "energy_mc_shift",
             "u238_rate", "a_rate"]
    pars = OrderedDict()
    cells = 1
    for i in rng.permutation(len(names))[:npar]:
        n = names[i]
        cls = {"scale": "ScaleParameter", "shift": "ShiftParameter"}.get(
            n.rsplit("_", 1)[1], "RateParameter")
        left = max(1, max_cells // cells)
        bins = int(rng.choice([b for b in (1, 2, 3, 4, 5, 8) if b <= left]))
        kw = {}
        if values and rng.rand() < 0.2:
            kw["values"] = rng.permutation(numpy.unique(
                rng.randint(-40, 90, size=bins) * 0.125))
            bins = len(kw["values"])
        if same_values and rng.rand() < 0.5:
            kw = {"low": 2., "high": 2., "prior": 2.}
        pars[n] = {"par": _par(rng, n, cls, bins, **kw),
                   "type": "spectra" if cls == "RateParameter" else "global"}
        cells *= bins
    return C.GlobalFitConfig("a_fit", pars)


def _table(rng, shape):
    k = rng.randint(4)
    if k == 0:
        return rng.uniform(0., 100., size=shape)
    if k == 1:                                        # ties
        return rng.randint(0, 3, size=shape).astype(float)
    if k == 2:
        return rng.normal(0., 50., size=shape)
    return numpy.exp(rng.normal(0., 5., size=shape) +
                     float(rng.choice([0., 0., 40., -40.])))


def wl_minimise(ctx):
    rng = ctx.rng
    M = E("fit.minimise")
    ts = E("fit.test_statistic")
    repeated = rng.rand() < 0.15
    cfg = _fit_config(rng, same_values=repeated, values=not repeated)
    shape = tuple(p.get_bins() for p in _pars(cfg))
    per_bin = bool(rng.rand() < 0.4)
    spec = gen.config(gen.axes(rng, ndim=int(rng.randint(1, 4)), kinds=[0]))
    for p in spec.get_pars():
        spec.get_par(p).set_par(bins=int(rng.randint(1, 4)))
    sshape = tuple(spec.get_par(p).get_bins() for p in spec.get_pars())
    use_numpy = bool(rng.randint(2))
    base = ["grid", "fit_results_2", "a_1_b"][rng.randint(3)]
    g = M.GridSearch(cfg, spec, name=base, per_bin=per_bin,
                     use_numpy=use_numpy)
    t = getattr(ts, ["BakerCousinsChi", "BakerCousinsLL", "Pearson"][
        rng.randint(3)])(per_bin=per_bin)
    grids = [p.get_values() for p in _pars(cfg)]
    points = list(itertools.product(*[range(b) for b in shape]))
    for rnd in range(2):
        raw = _table(rng, shape + (sshape if per_bin else ()))
        pen = rng.randint(0, 3, size=shape).astype(float) \
            if rng.rand() < 0.7 else rng.uniform(0, 9., size=shape)
        if rng.rand() < 0.25 and not repeated and len(points) > 1:
            bad = rng.rand(*shape) < 0.3
            bad[points[rng.randint(len(points))]] = False
            if per_bin and rng.rand() < 0.5:    # one bin of the point
                cell = tuple(rng.randint(k) for k in sshape)
                raw[(bad,) + cell] = numpy.nan
                ctx.count("nan-bins")
            else:
                raw[bad] = numpy.nan
        key = {}
        for pt in points:
            vals = tuple(float(v[i]) for v, i in zip(grids, pt))
            key.setdefault(vals, pt)
            if repeated:                # equal values: equal results
                raw[pt], pen[pt] = raw[key[vals]], pen[key[vals]]
        asked = []

        def funct(*values):
            vals = tuple(float(v) for v in values)
            asked.append(vals)
            pt = key.get(vals)
            if pt is None:
                ctx.fail("value-off-the-grid", vals)
            r = numpy.array(raw[pt], copy=True) if per_bin else raw[pt]
            return r, pen[pt]
        out = g.minimise(funct, t)
        want = sorted(tuple(float(v[i]) for v, i in zip(grids, pt))
                      for pt in points)
        ctx.expect(sorted(asked) == want, "every-grid-point-once",
                   "asked", len(asked), "of", len(want))
        total = raw.reshape(shape + (-1,)).sum(axis=-1) + pen
        ctx.close(g.get_stats(), total, "grid-of-statistics", rtol=1e-9)
        best = numpy.nanmin(total)
        # rounding of sums may break ties
        near = [pt for pt in points if total[pt] <= best + 1e-9 * max(
            1., abs(best))]
        exact = [pt for pt in points if g.get_stats()[pt] ==
                 numpy.nanmin(g.get_stats())]
        values = tuple(p.get_best_fit() for p in _pars(cfg))
        cand = [pt for pt in near if tuple(
            v[i] for v, i in zip(grids, pt)) == values]
        ctx.expect(cand, "best-fit-is-the-minimum", values, "grid", total)
        if not repeated:
            ctx.expect(cand[0] == exact[0], "ties-go-to-the-lowest",
                       cand[0], exact)
            if len(exact) > 1:
                ctx.count("ties")
        pt = cand[0]
        ctx.expect(len(out) == 2, "statistic-and-penalty", out)
        ctx.same(out[0], raw[pt], "minimum-returned", pt)
        ctx.close(out[1], pen[pt], "penalty-returned", pt)
        factor = 0.5 if isinstance(t, ts.BakerCousinsLL) else 1.
        for p, v in zip(_pars(cfg), values):
            w = 0. if p.get_sigma() is None else \
                factor * ((v - p.get_prior()) / p.get_sigma()) ** 2
            ctx.close(p.get_penalty_term(), w, "penalty-of-parameter",
                      p.get_name(), v)
        s = g.get_summary()
        ctx.expect(list(s) == list(cfg.get_pars()), "summary-names")
        for p in _pars(cfg):
            ctx.expect(s[p.get_name()]["best_fit"] == p.get_best_fit() and
                       s[p.get_name()]["penalty_term"] ==
                       p.get_penalty_term(), "summary", s)
        # the same minimum through the other method
        lo, pos = g.find_minimum(g.get_stats())
        ctx.expect(lo == numpy.nanmin(g.get_stats()) and tuple(pos) ==
                   exact[0], "find-minimum", lo, pos, exact)
        ctx.count("minimised")
        ctx.count("points", len(points))
        ctx.count("method:" + ("numpy" if use_numpy else "find_minimum"))
        if numpy.isnan(total).any():
            ctx.count("nan-points")
        ctx.sig(shape, raw, pen)
    if repeated:
        ctx.count("repeated-values")
    if per_bin:
        ctx.count("per-bin")
        ctx.raises(TypeError, lambda: g.minimise(lambda *v: (1., 0.), t),
                   "per-bin-needs-arrays")
        ctx.raises(ValueError, lambda: g.minimise(
            lambda *v: (numpy.zeros(sshape + (2,)), 0.), t),
            "per-bin-needs-the-shape")
        for other in ((1,) + sshape, (int(numpy.prod(sshape)),),
                      sshape[::-1], sshape[1:]):
            if other != sshape:
                ctx.raises(ValueError, lambda: g.minimise(
                    lambda *v: (numpy.zeros(other), 0.), t),
                    "per-bin-needs-the-shape", other, sshape)
                ctx.count("shape-refused")
    # resets follow the configuration
    g.reset_grids()
    ctx.expect(g.get_resets() == 1, "resets")
    ctx.same(g.get_stats(), numpy.zeros(shape), "reset-grid")
    cfg.add_par(_par(rng, "later_rate", bins=3), "spectra")
    g.reset_grids()
    ctx.expect(g.get_resets() == 2 and g.get_stats().shape == shape + (3,),
               "reset-follows-config", g.get_stats().shape)
    ctx.expect(g._stats.shape == shape + (3,) + (sshape if per_bin else ()),
               "reset-keeps-per-bin", g._stats.shape)
    names = {g.get_name()}
    for i in range(3, 3 + rng.randint(1, 4)):
        g.reset_grids()
        ctx.expect(g.get_resets() == i, "resets", g.get_resets(), i)
        names.add(g.get_name())
    ctx.expect(len(names) == i - 1, "a-name-per-reset", sorted(names))
    ctx.expect(names == set("%s_%d" % (base, k) for k in range(2, i + 1)),
               "resets-number-the-name", base, sorted(names))
    ctx.sample("grid %s per_bin %s numpy %s" % (shape, per_bin, use_numpy))


def _pars(cfg):
    return [cfg.get_par(n) for n in cfg.get_pars()]


def wl_accessors(ctx):
    rng = ctx.rng
    M = E("fit.minimise")
    cfg = _fit_config(rng, npar=int(rng.randint(1, 4)), max_cells=60)
    fit = list(cfg.get_pars())
    shape = tuple(p.get_bins() for p in _pars(cfg))
    per_bin = bool(rng.rand() < 0.6)
    spec = gen.config(gen.axes(rng, ndim=int(rng.randint(1, 4)), kinds=[0]))
    for p in spec.get_pars():
        spec.get_par(p).set_par(bins=int(rng.randint(1, 4)))
    sdims = list(spec.get_pars())
    sshape = tuple(spec.get_par(p).get_bins() for p in sdims)
    g = M.GridSearch(cfg, spec, name="grid", per_bin=per_bin)
    full = shape + (sshape if per_bin else ())
    raw = rng.uniform(0., 9., size=full)
    pen = rng.uniform(0., 9., size=shape)
    if rng.rand() < 0.3:                # statistics can be undefined
        raw[rng.uniform(size=full) < 0.2] = \
            [numpy.nan, numpy.inf, -numpy.inf][rng.randint(3)]
        ctx.count("undefined-statistics")
    if rng.rand() < 0.3:
        pen -= 4.
    points = list(itertools.product(*[range(b) for b in shape]))
    if rng.rand() < 0.5:
        g.set_stats(raw.copy())
        g.set_penalty_terms(pen.copy())
    else:
        for k in rng.permutation(len(points)):
            g.set_stat(numpy.array(raw[points[k]]), points[k])
            g.set_penalty_term(pen[points[k]], points[k])
    n = len(shape)
    summed = raw.reshape(shape + (-1,)).sum(axis=-1)

    def unchanged():
        ctx.same(g._stats, raw, "grid-unchanged")
        ctx.same(g._penalty_terms, pen, "penalties-unchanged")
    ctx.close(g.get_stats(), summed + pen, "stats")
    ctx.close(g.get_raw_stats(), summed, "raw-stats")
    for _ in range(6):
        pt = points[rng.randint(len(points))]
        at = OrderedDict((p.get_name(), p.get_values()[i])
                         for p, i in zip(_pars(cfg), pt))
        items = list(at.items())
        rng.shuffle(items)
        off = 1e-12 if rng.rand() < 0.3 else 0.     # only rounding
        at = OrderedDict((k, float(v) * (1. + off)) for k, v in items)
        ctx.same(g.get_raw_stat(pt), raw[pt], "raw-stat", pt)
        ctx.close(g.get_stat(pt), summed[pt] + pen[pt], "stat", pt)
        ctx.same(g.get_penalty_term(pt), pen[pt], "penalty", pt)
        ctx.same(g.get_penalty_at(**at), pen[pt], "penalty-at", at)
        ctx.close(numpy.ravel(g.get_raw_stats_at(**at)),
                  numpy.ravel(raw[pt]), "raw-stats-at", at)
        # a slice at some of the values
        some = dict(kv for kv in at.items() if rng.rand() < 0.5)
        idx = tuple(pt[i] if fit[i] in some else slice(None)
                    for i in range(n))
        ctx.close(g.get_raw_stats(**some), summed[idx], "raw-stats-slice",
                  some)
        # projections
        names = fit + sdims
        if not per_bin:
            names = fit
        want = [names[i] for i in rng.permutation(len(names))[
            :rng.randint(1, len(names) + 1)]]
        got = g.nd_project_stats(*want)
        drop = tuple(i for i, a in enumerate(fit) if a not in want)
        if all(w in fit for w in want):
            ref = (summed + pen).sum(axis=drop)
            ctx.count("projection-with-penalties")
        else:
            drop += tuple(n + i for i, a in enumerate(sdims)
                          if a not in want)
            ref = raw.sum(axis=drop)
            ctx.count("projection-without-penalties")
        ctx.close(got, ref, "projection", want, fit, sdims)
        got = g.nd_project_stat(pt, *want)
        if all(w in fit for w in want):
            ref = summed[pt] + pen[pt]
        else:
            ref = raw[pt].sum(axis=tuple(i for i, a in enumerate(sdims)
                                         if a not in want))
        ctx.close(got, ref, "projection-at", pt, want)
        unchanged()
    for p in _pars(cfg):
        ctx.same(g.get_scales(p.get_name()), p.get_values(), "scales")
        if n == 1:
            ctx.same(g.get_penalty_terms(p.get_name()), pen,
                     "penalties-of-the-parameter")
    # what comes out does not write back
    for get in (g.get_stats, g.get_raw_stats,
                lambda: g.nd_project_stats(*fit),
                lambda: g.nd_project_stats(*(fit + sdims)),
                lambda: g.nd_project_stat(points[0], *sdims),
                lambda: g.get_raw_stats_at(**at)):
        try:
            a = get()
        except ValueError:
            if per_bin:
                raise
            continue                    # nothing spectral to project
        if isinstance(a, numpy.ndarray):
            a += 1.
        unchanged()
    # refusals
    over = tuple(shape[:-1]) + (shape[-1],)
    for fn in (g.get_stat, g.get_penalty_term,
               lambda i: g.set_stat(numpy.array(1.), i),
               lambda i: g.set_penalty_term(1., i)):
        ctx.raises(IndexError, lambda: fn(over), "out-of-bounds", over)
        ctx.raises(IndexError, lambda: fn(points[0] + (0,)), "wrong-rank")
    ctx.raises(TypeError, lambda: g.set_stat(1., points[0]), "not-an-array")
    ctx.raises(TypeError, lambda: g.set_stats([1.]), "not-an-array")
    ctx.raises(ValueError, lambda: g.set_stats(numpy.zeros(full + (2,))),
               "wrong-shape")
    for a, fn in ((full, g.set_stats), (shape, g.set_penalty_terms)):
        for b in (a[::-1], (int(numpy.prod(a)),), a + (1,), (1,) + a):
            if b != a:
                ctx.raises(ValueError, lambda: fn(numpy.zeros(b)),
                           "wrong-shape", b, a)
                ctx.count("same-size-refused")
    ctx.raises(TypeError, lambda: g.set_penalty_terms([1.]), "not-an-array")
    ctx.raises(ValueError, lambda: g.set_penalty_terms(
        numpy.zeros(shape + (2,))), "wrong-shape")
    ctx.raises(IndexError, lambda: g.nd_project_stats("nothing"), "unknown")
    ctx.raises(IndexError, lambda: g.nd_project_stat(points[0], "nothing"),
               "unknown")
    unchanged()
    ctx.count("per-bin" if per_bin else "total")
    ctx.sig(shape, sshape, per_bin, raw)
    ctx.sample("grid %s per bin %s" % (shape, sshape if per_bin else "no"))


# --------------------------------------------------------------- fits: scenes
class Scene(object):
    """Data, backgrounds and a signal on a common region, as plain data from
    which fresh objects are built."""

    def __init__(self, rng, nfloat=None, nglobal=None, signal=None,
                 fixed=None, per_bin=False, small=False, whole=False,
                 trim=True, narrow=True):
        ndim = int(rng.choice([1, 1, 2, 2, 3]))
        self.nglobal = nglobal = int(rng.choice([0, 0, 1, 2])) \
            if nglobal is None else nglobal
        self.nfloat = int(rng.choice([0, 1, 1, 2, 3])) if nfloat is None \
            else nfloat
        if not self.nfloat:
            self.nglobal = nglobal = 0
        dims = ["radial", "radial3", "time"]
        self.dims = ["energy"] + [dims[i] for i in
                                  rng.permutation(3)[:ndim - 1]]
        rng.shuffle(self.dims)
        cap = {1: 12, 2: 5, 3: 3}[ndim]
        self.axes = {}                  # dim: (low, width, bins, roi first/n)
        for d in self.dims:
            n = int(rng.randint(5 if nglobal and d == "energy" else 1,
                                cap + 5 if nglobal and d == "energy"
                                else cap + 1))
            a, b = [int(rng.choice([0, 0, 1, 2])) * int(trim)
                    for _ in range(2)]
            w = float(rng.choice([0.5, 0.1, 1., 0.25]))
            if nglobal and d == "energy" and w == 0.1:
                w = 0.125       # edges without rounding: no ties to break
            low = float(rng.choice([1., 2., 0.5])) if d == "energy" else \
                float(rng.choice([0., 1., 5.]))
            self.axes[d] = (low, w, a + n + b, a, n)
        self.roi_dims = [d for d in self.dims if per_bin or whole or
                         rng.rand() < 0.7]
        if not self.roi_dims:
            self.roi_dims = [self.dims[0]]
        for d in self.dims:
            if d not in self.roi_dims:
                low, w, nb, a, n = self.axes[d]
                self.axes[d] = (low, w, nb, 0, nb)
        rng.shuffle(self.roi_dims)
        kinds = {d: str(rng.choice(gen.TYPES)) for d in self.dims}
        self.has_fixed = (not self.nfloat or rng.rand() < 0.6) \
            if fixed is None else fixed
        self.has_signal = rng.rand() < 0.4 if signal is None else signal
        self.specs = {}
        self.data = self._spec(rng, "data", self._types(rng), 1)
        self.fixed = [self._spec(rng, "fixed%d" % i, self._types(rng), 1)
                      for i in range(rng.randint(1, 4))] \
            if self.has_fixed else []
        for s in self.fixed[1:]:        # they are added to each other
            s["perm"] = self.fixed[0]["perm"]
        self.fixed_norm = [float(rng.choice([5., 40., 123.4]))
                           for _ in self.fixed]
        self.floats = []
        for i in range(self.nfloat):
            t = kinds if nglobal else self._types(rng)
            s = self._spec(rng, "float%d" % i, t, int(rng.choice([1, 1, 2])))
            if rng.rand() < 0.85 or (not nglobal and not any(
                    "rate" in f for f in self.floats)):
                low = float(rng.choice([0., 0., 10., 3.]))
                s["rate"] = dict(
                    prior=low + 20., low=low,
                    high=low + float(rng.choice([40., 55.])),
                    sigma=None if rng.rand() < 0.4 else
                    float(rng.choice([2., 5., 11.])),
                    bins=int(rng.choice([1, 2, 3, 4])))
            self.floats.append(s)
        self.signal = None
        if self.has_signal:
            t = kinds if nglobal else self._types(rng)
            self.signal = self._spec(rng, "signal", t, int(
                rng.choice([1, 2])) if nglobal else 1)
        self.globals = []
        energy = "energy_" + kinds["energy"]
        opts = [("shift", "ShiftParameter"), ("scale", "ScaleParameter"),
                ("ly", "ResolutionParameter"),
                ("rs", "ResolutionParameter")]
        w = self.axes["energy"][1]
        picked = [opts[i] for i in rng.permutation(4)[:nglobal]]
        if len(picked) == 2 and {p[0] for p in picked} == {"ly", "rs"}:
            picked[1] = opts[0]
        for k, cls in picked:
            if k == "shift":
                lo, hi = -w, float(rng.choice([1., 2.])) * w
                prior = 0.
            elif k == "scale":
                lo, hi, prior = 0.95, 1.1, 1.
            elif k == "ly":
                lo, hi, prior = 50., 200., 100.
            else:
                lo, hi, prior = 0.05, 0.2, 0.1
            if rng.rand() < 0.12 and narrow:        # values close to each other
                lo = prior = lo + 0.3 * (hi - lo)
                hi = lo + 1e-5 * abs(hi)
            self.globals.append(dict(
                name=energy + "_" + {"ly": "resolution_ly", "rs":
                                     "resolution"}.get(k, k), cls=cls, dimension=energy, low=lo,
                high=hi, prior=prior, bins=int(rng.choice([1, 2, 3])),
                sigma=None if rng.rand() < 0.4 else (hi - lo) / 3.))
        self.per_bin = per_bin
        stats = [n for n in sorted(STATS)
                 if not (per_bin and n == "BakerCousinsChiUp")]
        self.stat = str(stats[rng.randint(len(stats))])
        self.single_bin = bool(rng.rand() < 0.2) and not per_bin

    def _types(self, rng):
        return {d: str(rng.choice(gen.TYPES)) for d in self.dims}

    def _spec(self, rng, name, types, factor):
        ax = []
        f = {}
        for d in self.dims:
            low, w, nb, a, n = self.axes[d]
            f[d] = factor if rng.rand() < 0.7 else 1
            ax.append((d + "_" + types[d], low, low + nb * w, nb * f[d]))
        shape = tuple(x[3] for x in ax)
        data = rng.uniform(0.3, 8., size=shape)
        if rng.rand() < 0.3:
            data = rng.poisson(3., size=shape) + 0.5
        if name == "data":
            data = rng.poisson(rng.choice([1., 8., 60.]),
                               size=shape).astype(float)
        # the same dimensions, maybe listed in another order
        perm = list(range(len(ax)))
        if name != "data" and len(ax) > 1 and rng.rand() < 0.3:
            perm = [int(i) for i in rng.permutation(len(ax))]
        return dict(name=name, axes=ax, data=data, factor=f, perm=perm,
                    num_decays=float(rng.choice([1., 20., 333., 12.5, 0.4])))

    def roi(self, flip=None):
        res = OrderedDict()
        for i, d in enumerate(self.roi_dims):
            low, w, nb, a, n = self.axes[d]
            r = (low + a * w, low + (a + n) * w)
            if i % 2:
                r = tuple(gen.whole(x) for x in r)
            if flip is not None and flip.rand() < 0.3:
                r = r[::-1]
            res[d] = r if i % 2 else list(r)
        return res

    def namesakes(self, rng):
        """Names need not tell spectra apart."""
        if rng.rand() < 0.25:
            rest = [s for s in self.floats[1:] if "rate" not in s]
            if self.floats and self.signal:
                rest.append(self.signal)
            for s in rest:
                s["name"] = self.floats[0]["name"]
            return bool(rest)

    # ---- real objects
    def make(self, s, fit_config=True):
        x = E("core.spectra").Spectra(s["name"], s["num_decays"], gen.config(
            [s["axes"][i] for i in s["perm"]], s["name"] + "_config"),
            background_name=s["name"] + "_bg")
        x._data = s["data"].transpose(s["perm"]).copy()
        if fit_config and "rate" in s:
            P, C = E("core.parameter"), E("core.config")
            x.set_fit_config(C.SpectraFitConfig(
                s["name"] + "_fit", OrderedDict(
                    [("rate", P.RateParameter("rate", **s["rate"]))]),
                s["name"]))
        return x

    def read(self, x):
        """The contents of a spectrum with the dimensions of the scene."""
        c = x.get_config()
        dims = [c.get_dim(p) for p in c.get_pars()]
        return numpy.array(x._data.transpose([dims.index(d)
                                              for d in self.dims]))

    def config(self):
        P, C = E("core.parameter"), E("core.config")
        pars = OrderedDict()
        for gl in self.globals:
            kw = dict(gl)
            cls = kw.pop("cls")
            pars[gl["name"]] = {"par": getattr(P, cls)(**kw),
                                "type": "global"}
        return C.GlobalFitConfig("the_fit", pars)

    def objects(self):
        return dict(
            data=self.make(self.data),
            fixed=OrderedDict((self.make(s), v) for s, v in
                              zip(self.fixed, self.fixed_norm)),
            floats=[self.make(s) for s in self.floats],
            signal=self.make(self.signal) if self.signal else None)

    def fit(self, objs=None, flip=None, **kw):
        o = objs or self.objects()
        ts = getattr(E("fit.test_statistic"), self.stat)(
            per_bin=self.per_bin)
        args = dict(fit_config=self.config(), data=o["data"],
                    fixed_backgrounds=o["fixed"] or None,
                    floating_backgrounds=o["floats"] or None,
                    signal=o["signal"], per_bin=self.per_bin,
                    single_bin=self.single_bin)
        args.update(kw)
        return E("fit.fit").Fit(self.roi(flip), ts, **args)

    # ---- the model
    def par_dicts(self):
        """Parameters in the order of the grid."""
        res = [dict(g, key=("global", i))
               for i, g in enumerate(self.globals)]
        for i, s in enumerate(self.floats):
            if "rate" in s:
                res.append(dict(s["rate"], key=("rate", i),
                                name=s["name"] + "_rate"))
        return res

    def grids(self):
        return [numpy.linspace(p["low"], p["high"], p["bins"])
                for p in self.par_dicts()]

    def cut(self, s, arr=None, axes=None):
        """The region of a spectrum as an array."""
        arr = s["data"] if arr is None else arr
        for i, d in enumerate(self.dims):
            low, w, nb, a, n = self.axes[d]
            f = s["factor"][d]
            arr = arr.take(range(a * f, (a + n) * f), axis=i)
        return arr

    def binned(self, arr):
        return gen.block_sum(arr, [self.axes[d][4] for d in self.dims])

    def project(self, arr):
        drop = tuple(i for i, d in enumerate(self.dims)
                     if d not in self.roi_dims)
        return arr.sum(axis=drop) if drop else arr

    def convolved(self, s, values):
        """Array of the region after the global parameters."""
        x = self.make(s, False)
        kw = {}
        for d in self.roi_dims:
            n = [a[0] for a in s["axes"] if a[0].startswith(d + "_")][0]
            kw[n + "_low"], kw[n + "_high"] = self.roi()[d]
        x.shrink(**kw)
        for g, v in zip(self.globals, values):
            x = _apply(g, v, x)
        return self.read(x)

    def expected(self, values, cache, signal_norm=None):
        ng = len(self.globals)
        gv = tuple(float(v) for v in values[:ng])
        total = None
        for s, norm in zip(self.fixed, self.fixed_norm):
            t = self.cut(s) * (norm / s["num_decays"])
            total = t if total is None else total + t
        rates = list(values[ng:])
        for i, s in enumerate(self.floats):
            if ng:
                if (i, gv) not in cache:
                    cache[(i, gv)] = self.convolved(s, gv)
                a = cache[(i, gv)]
            else:
                a = self.cut(s)
            if "rate" in s:
                a = a * (rates.pop(0) / s["num_decays"])
            a = self.binned(a)
            total = a if total is None else total + a
        if self.signal and signal_norm != 0.:
            s = self.signal
            if ng:
                if ("signal", gv) not in cache:
                    cache[("signal", gv)] = self.convolved(s, gv)
                a = self.binned(cache[("signal", gv)])
            else:
                a = self.cut(s)
            if signal_norm is not None:
                a = a * (signal_norm / s["num_decays"])
            total = total + a
        return self.project(total)

    def statistic(self, expected):
        """(value or array, tolerance)"""
        o = self.project(self.cut(self.data))
        e = expected
        if self.single_bin:
            o, e = o.sum(), e.sum()
        f = STATS[self.stat]
        vals = numpy.array([f(float(a), float(b)) for a, b in
                            zip(numpy.ravel(o), numpy.ravel(e))])
        tol = 1e-9 * (numpy.abs(vals).sum() + numpy.sum(o) + numpy.sum(e)) \
            + 1e-12
        if self.stat in ("ExtendedLL", "Neyman"):
            tol *= 10
        if self.per_bin:
            return vals.reshape(numpy.shape(o)), tol
        return math.fsum(vals), tol

    def penalty(self, values):
        f = 0.5 if self.stat == "BakerCousinsLL" else 1.
        return sum(f * ((v - p["prior"]) / p["sigma"]) ** 2
                   for v, p in zip(values, self.par_dicts())
                   if p["sigma"] is not None)

    def describe(self):
        return "%s roi %s stat %s floats %d globals %s fixed %d signal %s " \
            "per_bin %s single %s" % (
                self.data["axes"], dict(self.roi()), self.stat,
                len(self.floats), [g["name"] for g in self.globals],
                len(self.fixed), bool(self.signal), self.per_bin,
                self.single_bin)


def _apply(g, v, x):
    dim = g["dimension"]
    if g["cls"] == "ShiftParameter":
        c = E("core.shift").Shift()
        c.set_shift(v)
        return c.shift(x, dim)
    if g["cls"] == "ScaleParameter":
        c = E("core.scale").Scale()
        c.set_scale_factor(v)
        return c.scale(x, dim)
    sm = E("core.smear")
    c = sm.EnergySmearLY() if v > 10. else sm.EnergySmearRes()
    c.set_resolution(v)
    return c.weighted_smear(x, dim)


def _check_grid(ctx, sc, fitter, out, cache, signal_norm=None, kind="grid"):
    """The observed grid of a finished fit against the model."""
    g = fitter.get_minimiser()
    grids = sc.grids()
    shape = tuple(len(v) for v in grids)
    stats = numpy.asarray(g._stats)
    ctx.expect(stats.shape[:len(shape)] == shape, kind + "-shape",
               stats.shape, shape)
    best = None
    for pt in itertools.product(*[range(n) for n in shape]):
        vals = [v[i] for v, i in zip(grids, pt)]
        want, tol = sc.statistic(sc.expected(vals, cache, signal_norm))
        ctx.close(stats[pt], want, kind + "-statistic", vals, rtol=1e-8,
                  atol=tol)
        ctx.close(g._penalty_terms[pt], sc.penalty(vals),
                  kind + "-penalty", vals, rtol=1e-9)
        ctx.count("grid-points")
    tot = stats.reshape(shape + (-1,)).sum(axis=-1) + g._penalty_terms
    flat = int(numpy.argmin(tot.ravel()))
    pt = numpy.unravel_index(flat, shape)
    got = [p.get_best_fit() for p in _pars(fitter.get_fit_config())]
    best = [v[i] for v, i in zip(grids, pt)]
    near = numpy.sort(tot.ravel())
    if len(near) == 1 or near[1] - near[0] > 1e-9 * max(1, abs(near[0])):
        ctx.close(got, best, kind + "-best-fit")
        ctx.close(out[0], stats[pt], kind + "-minimum", rtol=1e-12)
        ctx.close(out[1], g._penalty_terms[pt], kind + "-minimum-penalty")


def wl_objective(ctx):
    rng = ctx.rng
    sc = Scene(rng, per_bin=bool(rng.rand() < 0.25))
    if sc.namesakes(rng):
        ctx.count("namesakes")
    ctx.sample(sc.describe())
    ctx.log(sc.describe())
    fitter = sc.fit(flip=rng)
    roi = sc.roi()
    ctx.expect({k: tuple(v) for k, v in fitter.get_roi().items()} ==
               {k: tuple(v) for k, v in roi.items()}, "roi-low-first",
               fitter.get_roi())
    floats = fitter.get_floating_backgrounds() or []
    ctx.expect([x.get_name() for x in floats] ==
               [f["name"] for f in sc.floats], "floating-backgrounds",
               [x.get_name() for x in floats])
    signal = fitter.get_signal()
    ctx.expect((signal.get_name() if signal else None) ==
               (sc.signal["name"] if sc.signal else None), "signal-given")
    cache = {}
    # after construction the spectra are those of the region
    ctx.close(fitter.get_data()._data, sc.cut(sc.data), "data-of-region")
    if sc.fixed:
        want = sum(sc.cut(s) * (v / s["num_decays"])
                   for s, v in zip(sc.fixed, sc.fixed_norm))
        ctx.close(sc.read(fitter.get_fixed_background()), want,
                  "fixed-background")
    if not sc.floats:
        out = fitter.fit()
        want, tol = sc.statistic(sc.expected([], cache))
        ctx.close(out, numpy.ravel(want) if sc.per_bin else want,
                  "fixed-statistic", rtol=1e-8, atol=tol)
        ctx.count("fixed-only")
    else:
        names = [p["name"] for p in sc.par_dicts()]
        ctx.expect(list(fitter.get_fit_config().get_pars()) == names,
                   "parameters-collected", names,
                   list(fitter.get_fit_config().get_pars()))
        for rnd in range(2):
            out = fitter.fit()
            _check_grid(ctx, sc, fitter, out, cache,
                        kind="grid" if rnd == 0 else "second-fit")
        ctx.count("floats:%d" % len(sc.floats))
        if any(p["key"][0] == "rate" and p["low"] == 0.
               for p in sc.par_dicts()):
            ctx.count("zero-rates")
    if sc.signal:
        ctx.count("signal")
    for g in sc.globals:
        ctx.count("global:" + g["cls"])
    ctx.count("stat:" + sc.stat)
    if sc.single_bin:
        ctx.count("single-bin")
    if sc.per_bin:
        ctx.count("per-bin")
    if any(f != 1 for s in sc.floats for f in s["factor"].values()):
        ctx.count("finer-binning")
    for k, l in (("float", sc.floats), ("fixed", sc.fixed),
                 ("signal", [sc.signal] if sc.signal else [])):
        if any(s["perm"] != sorted(s["perm"]) for s in l):
            ctx.count("reordered-" + k)
    ctx.sig(sc.describe(), sc.data["data"])


class Spy(object):
    """A minimiser that asks for points of its own."""
    _per_bin = False

    def __init__(self, points):
        self.points = points

    def get_name(self):
        return "spy"

    def minimise(self, funct, test_statistic):
        self.results = [funct(*p) for p in self.points]
        self.test_statistic = test_statistic
        return "spied"


def wl_own_minimiser(ctx):
    """Any minimiser may ask for any values in any order."""
    rng = ctx.rng
    sc = Scene(rng, nfloat=int(rng.randint(1, 4)))
    ctx.sample(sc.describe())
    ctx.log(sc.describe())
    pts = []
    for _ in range(8):
        pts.append([float(v[rng.randint(len(v))]) if rng.rand() < 0.5 else
                    float(rng.uniform(v[0], v[-1])) for v in sc.grids()])
    pts = pts + [pts[i] for i in rng.permutation(8)[:4]]
    spy = Spy(pts)
    fitter = sc.fit(minimiser=spy)
    ctx.expect(fitter.get_minimiser() is spy, "minimiser-used")
    ctx.expect(fitter.fit() == "spied", "result-of-minimiser")
    ctx.expect(spy.test_statistic is fitter.get_test_statistic(),
               "statistic-passed")
    cache = {}
    for p, (stat, pen) in zip(pts, spy.results):
        want, tol = sc.statistic(sc.expected(p, cache))
        ctx.close(stat, want, "statistic-at", p, rtol=1e-8, atol=tol)
        ctx.close(pen, sc.penalty(p), "penalty-at", p)
        ctx.count("own-points")
    for v, par in zip(pts[-1], _pars(fitter.get_fit_config())):
        ctx.expect(par.get_current_value() == v, "current-value")
    ctx.sig(sc.describe(), sc.data["data"])


def wl_pre_made(ctx):
    """Spectra convolved and stored beforehand give the same fit."""
    rng = ctx.rng
    store = E("output.store")
    sc = Scene(rng, nfloat=int(rng.randint(1, 3)),
               nglobal=int(rng.randint(1, 3)), narrow=False)
    ctx.sample(sc.describe())
    base = ctx.tmp() + "/spectra"
    alt = ctx.tmp() + "/" + [
        "elsewhere", "Elsewhere", "Pre_2.Made", "made_of_" +
        sc.globals[0]["dimension"], sc.globals[0]["dimension"]][
            rng.randint(5)]
    os.mkdir(base)
    os.mkdir(alt)
    way = int(rng.randint(3))           # beside the spectra, given, set later
    where = base if way == 0 else alt
    o = sc.objects()
    # reference names: base/<dimension>/<kind>/.../<file>_<value><kind>...
    kinds = {"ShiftParameter": ("shift", "sh"), "ScaleParameter":
             ("scale", "sc")}
    grids = [numpy.linspace(g["low"], g["high"], g["bins"])
             for g in sc.globals]
    descr = list(sc.floats) + ([sc.signal] if sc.signal else [])
    objs = list(o["floats"]) + ([o["signal"]] if sc.signal else [])
    factor = float(rng.choice([1., 3., 0.25]))
    for s, x in zip(descr, objs):
        x._location = base + "/" + s["name"] + ".hdf5"
        relabel = rng.rand() < 0.2      # the files tell another number
        if relabel:
            x._orig_num_decays = s["num_decays"] * factor
            ctx.count("decays-of-files-given")
        for vals in itertools.product(*grids):
            d = where + "/"
            if d.split("/")[-2] != sc.globals[0]["dimension"]:
                d += sc.globals[0]["dimension"] + "/"
            f = s["name"]
            used = []
            for g, v in zip(sc.globals, vals):
                k, ext = kinds.get(g["cls"], (
                    "smear", "ly" if v > 10. else "rs"))
                if k not in used:
                    d += k + "/"
                    used.append(k)
                f += "_%g%s" % (v, ext)
            if not os.path.isdir(d):
                os.makedirs(d)
            cut = E("core.spectra").Spectra(s["name"], s["num_decays"], _roi_config(
                sc, s), background_name=s["name"] + "_bg")
            cut._data = sc.convolved(s, vals).transpose(s["perm"]).copy()
            cut.scale(s["num_decays"] * factor)
            if relabel:
                cut._num_decays *= 7.
            store.dump(d + f + ".hdf5", cut)
            ctx.count("files")
    kw = dict(use_pre_made=True)
    if way == 1:
        kw["pre_made_base_dir"] = alt + ("/" if rng.randint(2) else "")
    fitter = sc.fit(o, **kw)
    if way == 2:
        ctx.raises(ValueError, lambda: fitter.set_pre_made_dir(alt + "/no"),
                   "bad-directory")
        fitter.set_pre_made_dir(alt)
    ctx.count("way:%d" % way)
    cache = {}
    out = fitter.fit()
    _check_grid(ctx, sc, fitter, out, cache, kind="pre-made")
    out = fitter.fit()
    _check_grid(ctx, sc, fitter, out, cache, kind="pre-made-again")
    ctx.sig(sc.describe(), sc.data["data"])


def _roi_config(sc, s):
    ax = []
    for (n, lo, hi, b), d in zip(s["axes"], sc.dims):
        low, w, nb, a, nn = sc.axes[d]
        ax.append((n, low + a * w, low + (a + nn) * w, nn * s["factor"][d]))
    return gen.config([ax[i] for i in s["perm"]])


def wl_refusals(ctx):
    """Incomplete or inconsistent fits are refused."""
    rng = ctx.rng
    F = E("fit.fit").Fit
    CE = E("errors.custom_errors").CompatibilityError
    sc = Scene(rng, nfloat=int(rng.randint(0, 3)), fixed=True, signal=True,
               whole=True)
    ts = getattr(E("fit.test_statistic"), sc.stat)()
    roi = sc.roi()
    d = list(roi)[0]
    lo, hi = roi[d]
    for bad, exc in (([(lo, hi)], TypeError), ({d: lo}, TypeError),
                     ({d: (lo,)}, CE), ({d: (lo, hi, hi)}, CE)):
        ctx.raises(exc, lambda: F(bad, ts), "bad-roi", bad)
    o = sc.objects()
    ctx.raises(IndexError, lambda: F({"nothing": (0., 1.)}, ts,
                                     data=o["data"]), "unknown-dimension")
    o = sc.objects()
    ctx.raises(CE, lambda: F(roi, ts).fit(), "nothing-set")
    ctx.raises(CE, lambda: F(roi, ts, fixed_backgrounds=o["fixed"]).fit(),
               "no-data")
    ctx.raises(CE, lambda: F(roi, ts, data=o["data"]).fit(),
               "no-background")
    ctx.raises(TypeError, lambda: F(roi, ts, fit_config=o["data"].
                                    get_config()), "bad-config")
    # a spectrum of another region
    n, low, high, bins = sc.data["axes"][0]
    near = rng.rand() < 0.7             # off by much or by little
    if near:
        roi_cfg = _roi_config(sc, sc.data)
        axes = [(n, p.get_low(), p.get_high(), p.get_bins()) for n, p in
                ((n, roi_cfg.get_par(n)) for n in roi_cfg.get_pars())]
        lo1, hi1 = [(0., 1e-3), (1e-3, 0.), (-0.01, 0.)][rng.randint(3)]
        s = gen.spectrum(rng, [
            (a, l + lo1 * max(l, 0.1) if i == 0 else l,
             h + hi1 * h if i == 0 else h, b)
            for i, (a, l, h, b) in enumerate(axes)])
    else:
        s = gen.spectrum(rng, [(a, l, h + (h - l) if i == 0 else h,
                                b * 2 if i == 0 else b)
                               for i, (a, l, h, b) in
                               enumerate(sc.data["axes"])])
    ctx.count("region:" + ("near" if near else "far"))
    if sc.dims[0] in roi:
        fitter = sc.fit()
        for setter in (fitter.set_data, fitter.set_fixed_background):
            ctx.raises(ValueError, lambda: setter(s, shrink=False),
                       "other-region")
        ctx.raises(ValueError, lambda: fitter.set_floating_backgrounds(
            [s], shrink=False), "other-region")
    # a region that the spectra of a finished fit do not have
    fitter = sc.fit()
    fitter.fit()
    k = rng.randint(3)
    fitter.set_roi(dict(roi, **{d: [(lo, hi + (hi - lo)), (
        lo - 0.5 * (hi - lo), hi), (lo + 1e-3 * (hi - lo), hi)][k]}))
    ctx.raises(ValueError, fitter.fit, "region-left", k)
    if sc.floats:
        o = sc.objects()
        fl = o["floats"]
        for f in fl:
            f._fit_config = None
        ctx.raises(IndexError, lambda: F(
            roi, ts, data=o["data"], floating_backgrounds=fl).fit(),
            "no-parameters")
        ctx.raises(CE, lambda: F(roi, ts).check_fit_config(fl[0]),
                   "no-fit-config")
    else:
        cfg = sc.config()
        cfg.add_par(_par(rng, "lonely_rate"), "spectra")
        ctx.raises(ValueError, lambda: sc.fit(fit_config=cfg).fit(),
                   "rates-without-floats")
        ctx.raises(ValueError, lambda: sc.fit()._funct(), "funct-without-"
                   "floats")
    # per-bin flags have to agree
    o = sc.objects()
    fitter = F(roi, ts, data=o["data"], fixed_backgrounds=o["fixed"],
               per_bin=True)
    ctx.raises(ValueError, fitter.fit, "per-bin-flags")
    ctx.count("refusal-rounds")
    ctx.sig(sc.describe(), sc.data["data"])
    ctx.sample(sc.describe())


# ------------------------------------------------------------ C22 histories
class Interrupted(Exception):
    pass


def interrupt(ctx, fitter, run, *allowed):
    """The statistic fails somewhere in the middle of this."""
    good = fitter.get_test_statistic()
    bad = copy.copy(good)
    left = [int(ctx.rng.choice([0, 1, 2, 3, 7, 20]))]

    def compute_statistic(*a, **k):
        left[0] -= 1
        if left[0] < 0:
            raise Interrupted()
        return good.compute_statistic(*a, **k)
    bad.compute_statistic = compute_statistic
    fitter.set_test_statistic(bad)
    try:
        run()
    except Interrupted:
        ctx.count("interrupted-fits")
    except allowed:
        pass
    fitter.set_test_statistic(good)


def wl_history(ctx):
    """Any history of fits leads to the result of a fresh fit."""
    rng = ctx.rng
    sc = Scene(rng, nfloat=int(rng.choice([0, 1, 2])), signal=True,
               per_bin=bool(rng.rand() < 0.2))
    if sc.namesakes(rng):
        ctx.count("namesakes")
    ctx.sample(sc.describe())
    ctx.log(sc.describe())
    o = sc.objects()
    fixed_in = [(x, gen.snapshot(x)) for x in o["fixed"]]
    fitter = sc.fit(o)
    data0 = gen.snapshot(o["data"])
    back0 = gen.snapshot(fitter.get_fixed_background()) if sc.fixed else None
    cache = {}
    norm = sc.signal["num_decays"]
    present = True
    ops = []
    for step in range(7):
        op = ["fit", "fit", "remove", "set", "scale", "statistic",
              "new-fit", "floats-again", "signal-again", "data-again",
              "region-again", "floats-changed", "narrower",
              "interrupted", "floats-scaled", "fit"][rng.randint(16)]
        if step == 6:
            op = "fit"
            if present and rng.rand() < 0.3:    # down to no signal at all
                norm = 0.
                o["signal"].scale(norm)
                ctx.count("no-signal-left")
        ctx.log(op, norm, present)
        ops.append(op)
        if op == "remove":
            fitter.remove_signal()
            ctx.expect(fitter.get_signal() is None, "signal-removed")
            present = False
        elif op == "set":
            fitter.set_signal(o["signal"], shrink=bool(rng.randint(2)))
            present = True
        elif op == "scale":
            norm = float(rng.choice([7., 50., 0.5]))
            o["signal"].scale(norm)
        elif op == "statistic":
            names = [n for n in sorted(STATS) if not (
                sc.per_bin and n == "BakerCousinsChiUp")]
            sc.stat = names[rng.randint(len(names))]
            fitter.set_test_statistic(getattr(
                E("fit.test_statistic"), sc.stat)(per_bin=sc.per_bin))
        elif op == "interrupted":
            interrupt(ctx, fitter, fitter.fit)
        elif op == "new-fit":
            # another fit of the same objects: inputs are reusable
            if not present:
                o["signal"] = o["signal"]
            fitter = _again(sc, o, present)
            ctx.count("refitted-objects")
        elif op == "floats-again" and sc.floats:
            # other contents under the same names
            for s in sc.floats:
                if not sc.globals:
                    _retype(ctx, sc, s)
                if rng.rand() < 0.7:
                    s["data"] = rng.uniform(0.3, 8., size=s["data"].shape)
            cache.clear()
            fl = [sc.make(s) for s in sc.floats]
            fitter.set_fit_config(sc.config())
            fitter.set_floating_backgrounds(fl)
            fitter.set_minimiser()
            o["floats"] = fl
            ctx.count("replaced-floats")
            if sc.globals:
                ctx.count("replaced-floats-with-globals")
        elif op == "floats-changed" and sc.floats:
            # the same objects with other contents
            for s, x in zip(sc.floats, o["floats"]):
                f = rng.uniform(0.5, 2., size=s["data"].shape)
                part = sc.make(s)
                s["data"] = s["data"] * f
                new = sc.make(s)
                fitter.shrink_spectra(part)
                fitter.shrink_spectra(new)
                nd = x.get_num_decays() / s["num_decays"]
                part._data = (new._data - part._data) * nd
                part._num_decays = 0.
                if rng.rand() < 0.5:
                    x.add(part)
                else:
                    x._data = x._data + part._data
            cache.clear()
            fitter.set_floating_backgrounds(o["floats"])
            ctx.count("changed-floats")
            if sc.globals:
                ctx.count("changed-floats-with-globals")
        elif op == "floats-scaled" and sc.floats:
            # their rates decide, whatever somebody scales them to
            for s, x in zip(sc.floats, o["floats"]):
                if "rate" in s:
                    x.scale(float(rng.choice([1., 33., 0.25])))
                    ctx.count("floats-scaled-in-between")
        elif op == "narrower" and _other_region(rng, sc, True):
            cache.clear()
            fitter.set_roi(sc.roi())
            fitter.shrink_all()
            if not present:
                fitter.shrink_spectra(o["signal"])
            if sc.floats:
                fitter.set_minimiser()
            data0 = gen.snapshot(o["data"])
            if sc.fixed:
                back0 = gen.snapshot(fitter.get_fixed_background())
            ctx.count("narrower-region")
            if sc.globals:
                ctx.count("narrower-region-with-globals")
        elif op == "signal-again":
            s = sc.signal
            if not sc.globals:
                _retype(ctx, sc, s)
            s["data"] = rng.uniform(0.3, 8., size=s["data"].shape)
            cache.clear()
            norm = s["num_decays"]
            o["signal"] = sc.make(s)
            fitter.set_signal(o["signal"])
            present = True
            ctx.count("replaced-signal")
            if sc.globals:
                ctx.count("replaced-signal-with-globals")
        elif op == "data-again":
            s = sc.data
            _retype(ctx, sc, s)
            s["data"] = rng.poisson(7., size=s["data"].shape).astype(float)
            o["data"] = sc.make(s)
            fitter.set_data(o["data"])
            data0 = gen.snapshot(o["data"])
            ctx.count("replaced-data")
        elif op == "region-again" and _other_region(rng, sc):
            cache.clear()
            norm = sc.signal["num_decays"]
            o = sc.objects()
            fixed_in = [(x, gen.snapshot(x)) for x in o["fixed"]]
            fitter.set_roi(sc.roi())
            fitter.set_data(o["data"])
            fitter.set_fit_config(sc.config())
            if sc.fixed:
                fitter.make_fixed_background(o["fixed"])
                back0 = gen.snapshot(fitter.get_fixed_background())
            if sc.floats:
                fitter.set_floating_backgrounds(o["floats"])
            fitter.set_signal(o["signal"])
            if sc.floats:
                fitter.set_minimiser()
            present = True
            data0 = gen.snapshot(o["data"])
            ctx.count("other-region")
            if sc.globals:
                ctx.count("other-region-with-globals")
        if op != "fit":
            continue
        out = fitter.fit()
        if sc.floats:
            _check_grid(ctx, sc, fitter, out, cache,
                        norm if present else 0., "history")
        else:
            want, tol = sc.statistic(sc.expected(
                [], cache, norm if present else 0.))
            ctx.close(out, numpy.ravel(want) if sc.per_bin else want,
                      "history-statistic", rtol=1e-8, atol=tol)
        gen.same_snapshot(ctx, data0, gen.snapshot(o["data"]),
                          "data-unchanged")
        if back0:
            gen.same_snapshot(ctx, back0, gen.snapshot(
                fitter.get_fixed_background()), "background-unchanged")
        for x, snap in fixed_in:
            gen.same_snapshot(ctx, snap, gen.snapshot(x),
                              "fixed-inputs-unchanged")
        ctx.count("history-fits")
        ctx.count("with-signal" if present else "without-signal")
    for s, x in zip(sc.floats, o["floats"]):
        nd = x.get_num_decays()
        if nd > 0:
            ctx.close(sc.binned(sc.read(x)) / nd, sc.binned(sc.cut(s)) /
                      s["num_decays"], "floats-keep-their-shape", rtol=1e-8)
    ctx.sig(sc.describe(), ops, sc.data["data"])


def _retype(ctx, sc, s):
    """The same dimensions of other types (mc, reco, truth)."""
    if ctx.rng.rand() < 0.5:
        types = sc._types(ctx.rng)
        s["axes"] = [(d + "_" + types[d],) + tuple(a[1:]) for d, a in
                     zip(sc.dims, s["axes"])]
        ctx.count("other-types")


def _other_region(rng, sc, inside=False):
    """Move the region of the scene; False if there is nowhere else."""
    moved = False
    for d in sc.roi_dims:
        low, w, nb, a, n = sc.axes[d]
        least = 5 if sc.globals and d == "energy" else 1
        m = int(rng.randint(min(least, n), (n if inside else nb) + 1))
        b = int(rng.randint(nb - m + 1)) if not inside else \
            a + int(rng.randint(n - m + 1))
        moved = moved or (b, m) != (a, n)
        sc.axes[d] = (low, w, nb, b, m)
    return moved


def _again(sc, o, present):
    return sc.fit(dict(o, signal=o["signal"] if present else None))


# ------------------------------------------------------ C23 fixed backgrounds
def wl_fixed(ctx):
    rng = ctx.rng
    sc = Scene(rng, nfloat=0, fixed=True, signal=False)
    ctx.sample(sc.describe())
    F = E("fit.fit").Fit
    ts = getattr(E("fit.test_statistic"), sc.stat)()
    specs = [sc._spec(rng, "bkg%d" % i, sc._types(rng), 1)
             for i in range(rng.randint(1, 5))]
    for s in specs:
        s["perm"] = specs[0]["perm"]
    whole = bool(rng.rand() < 0.3)
    if whole:
        for s in specs:
            s["data"] = sc.cut(s)
            s["axes"] = [(n,) + _span(sc, d) for (n, _, _, _), d in
                         zip(s["axes"], sc.dims)]
    objs = [sc.make(s) for s in specs]
    for x in objs:
        x._raw_events = int(rng.randint(0, 100))
        if rng.rand() < 0.3:
            x._rois = {"energy_mc": {"low": 0., "high": 1.,
                                     "efficiency": 0.5}}
    norms = [float(rng.choice([1., 5., 40., 0.25, 1000., 0., 2e-5]))
             for _ in objs]
    if not all(norms):
        ctx.count("prior-of-zero")
    snaps = [gen.snapshot(x) for x in objs]
    with_data = bool(rng.rand() < 0.5)
    fitter = F(sc.roi(), ts, data=sc.make(sc.data) if with_data else None,
               single_bin=sc.single_bin)
    k = int(rng.randint(1, len(objs) + 1))
    pairs = list(zip(objs, norms))
    first, rest = pairs[:k], pairs[k:]
    rng.shuffle(first)
    shrink = not (whole and rng.rand() < 0.7)
    fitter.make_fixed_background(OrderedDict(first), shrink=shrink)
    total = sum(_cut(sc, s, whole) * (n / s["num_decays"])
                for s, n in zip(specs[:k], norms[:k]))
    b = fitter.get_fixed_background()
    ctx.close(sc.read(b), total, "sum-of-backgrounds")
    ctx.close(b.get_num_decays(), sum(norms[:k]), "decays-add-up")
    ctx.expect(all(b is not x for x in objs), "a-new-spectrum")
    for x, n in rest:
        i = objs.index(x)
        fitter.append_fixed_background(OrderedDict([(x, n)]), shrink=shrink)
        total = total + _cut(sc, specs[i], whole) * (
            n / specs[i]["num_decays"])
        ctx.close(sc.read(fitter.get_fixed_background()), total,
                  "appended-background")
        ctx.count("appended")
    b = fitter.get_fixed_background()
    ctx.close(b.get_num_decays(), sum(norms), "decays-add-up")
    for (_, low, high, bins), d in zip(gen.geometry(b), [
            sc.dims[i] for i in specs[0]["perm"]]):
        ctx.close([low, high, bins], _span(sc, d), "region-of-background")
    for x, snap in zip(objs, snaps):
        gen.same_snapshot(ctx, snap, gen.snapshot(x), "inputs-unchanged")
    if rng.rand() < 0.3:        # the same spectrum given ready made
        data, nd = b._data.copy(), b.get_num_decays()
        fitter.set_fixed_background(b, shrink=bool(rng.randint(2)))
        b = fitter.get_fixed_background()
        ctx.same(b._data, data, "set-as-given")
        ctx.expect(b.get_num_decays() == nd, "set-as-given")
    if with_data and total.sum() > 0:
        fitter.set_minimiser()
        want, tol = sc.statistic(sc.project(total))
        ctx.close(fitter.fit(), want, "statistic-with-background",
                  rtol=1e-8, atol=tol)
        ctx.count("fitted")
    # and later changes of the sum stay in the sum
    if b.get_num_decays():
        b.scale(b.get_num_decays() * 2.)
    b._config.get_par(list(b._config.get_pars())[0]).set_par(bins=99)
    for x, snap in zip(objs, snaps):
        gen.same_snapshot(ctx, snap, gen.snapshot(x), "inputs-independent")
    # a background with other binning is refused
    n, lo, hi, bins = specs[0]["axes"][0]
    odd = gen.spectrum(rng, [(n, lo, hi, bins * 3)] + specs[0]["axes"][1:])
    fitter = F(sc.roi(), ts)
    fitter.make_fixed_background({objs[0]: 1.})
    before = gen.snapshot(fitter.get_fixed_background())
    ctx.raises(Exception, lambda: fitter.append_fixed_background({odd: 1.}),
               "other-binning-refused")
    gen.same_snapshot(ctx, before, gen.snapshot(
        fitter.get_fixed_background()), "refused-leaves-no-trace")
    ctx.count("made:%d" % min(3, k))
    if not shrink:
        ctx.count("unshrunk")
    ctx.sig(sc.describe(), norms, total)


def _cut(sc, s, whole):
    return s["data"] if whole else sc.cut(s)


def _span(sc, d):
    low, w, nb, a, n = sc.axes[d]
    return (low + a * w, low + (a + n) * w, n)


PROPS = {
    "C19": Prop(
        "grid search", [("minimise", wl_minimise, 200, 12000)],
        "random fit configurations of 1-4 parameters (with repeated values "
        "and single-value axes), tables of statistics with ties and nan, "
        "total or per bin, both minimum finders, twice per grid, then "
        "resets; distinct by shape and table",
        ["minimised", "ties", "nan-points", "per-bin", "repeated-values",
         "method:numpy", "method:find_minimum"]),
    "C20": Prop(
        "grid accessors", [("accessors", wl_accessors, 120, 8000)],
        "random grids of 1-3 fit parameters and 1-3 spectral dimensions, "
        "every accessor and random projections; distinct by grid",
        ["projection-with-penalties", "projection-without-penalties",
         "per-bin", "total"]),
    "C21": Prop(
        "fit objective",
        [("objective", wl_objective, 130, 6000),
         ("own-minimiser", wl_own_minimiser, 60, 3000),
         ("pre-made", wl_pre_made, 25, 800),
         ("refusals", wl_refusals, 30, 1000)],
        "random fits of 1-3 dimensions with fixed and 0-3 floating "
        "backgrounds (also binned finer than the data), 0-2 global "
        "parameters, a signal, every statistic, total, per bin and single "
        "bin; the whole grid is recomputed from plain arrays; distinct by "
        "settings and data",
        ["grid-points", "fixed-only", "floats:1", "floats:2", "floats:3",
         "signal", "single-bin", "per-bin", "finer-binning", "zero-rates",
         "global:ShiftParameter", "global:ScaleParameter",
         "global:ResolutionParameter", "own-points", "files", "way:0",
         "way:1", "way:2", "refusal-rounds", "reordered-float",
         "reordered-fixed", "reordered-signal"],
        ["the convolutions themselves are those of C09-C13",
         "fixed backgrounds of one fit list their dimensions in one order"]),
    "C22": Prop(
        "fit histories", [("history", wl_history, 90, 5000)],
        "random histories of fits, signal removal, setting and scaling, "
        "changes of statistic, other backgrounds, signals, data and regions, "
        "new fits of the same spectra; distinct by settings and history",
        ["history-fits", "with-signal", "without-signal",
         "refitted-objects", "replaced-floats", "replaced-signal",
         "replaced-data", "other-region", "replaced-floats-with-globals",
         "replaced-signal-with-globals", "other-region-with-globals",
         "narrower-region", "interrupted-fits", "narrower-region-with-globals",
         "changed-floats", "changed-floats-with-globals"]),
    "C23": Prop(
        "fixed backgrounds", [("fixed", wl_fixed, 120, 8000)],
        "1-4 backgrounds made and appended in any order, shrunk or not; "
        "distinct by settings and contents",
        ["appended", "made:1", "made:2", "unshrunk", "prior-of-zero"]),
}
