"""Fit parameters, configurations and pre-convolved file names."""
from collections import OrderedDict
import glob
import math
import os
import warnings

import numpy
import yaml

import gen
from gen import E
from mon import Prop


# ---------------------------------------------------------- C16 fit parameters
def _scale_kwargs(rng):
    """Arguments of a fit parameter on one of the three scales."""
    kind = ["linear", "log", "dev"][rng.randint(3)]
    bins = int(rng.choice([1, 2, 3, 4, 5, 8, 11, 21, 50, 101]))
    kw = {"bins": bins, "sigma": None if rng.rand() < 0.3 else
          float(rng.choice([0.1, 1., 2.5, 0.]))}
    if kind == "linear":
        low = float(rng.choice([0., -1., 2.5, rng.uniform(-5., 5.)]))
        high = low + float(rng.choice([1., 10., rng.uniform(0.1, 20.)]))
        if rng.rand() < 0.1:            # values close to each other
            low = float(rng.choice([1e5, 2.5, 1e-9, 1e-11]))
            high = low * (1. + bins * 3e-6) if low > 1. else \
                (bins + 1) * low
        prior = float(rng.uniform(low, high))
        if rng.rand() < 0.3:
            prior = 0.5 * (low + high)
        if low == 1e-9 and rng.rand() < 0.3:
            prior = 0.
    elif kind == "log":
        low = float(rng.choice([1e-3, 0.1, 1., 2.5]))
        high = low * float(rng.choice([2., 10., 1e4]))
        if rng.rand() < 0.15:
            low, high = float(rng.choice([0., -3.])), \
                float(rng.choice([10., 50.]))
        prior = 0.5 * (max(low, 0) + high)
        kw["logscale"] = True
        if rng.rand() < 0.3:
            kw["base"] = float(rng.choice([10., 2.]))
    else:
        prior = float(rng.choice([0., 5., 100., rng.uniform(1., 50.)]))
        d1, d2 = [float(rng.choice([1., 5., 20., rng.uniform(0.5, 30.)]))
                  for _ in range(2)]
        if rng.rand() < 0.5:
            d2 = d1
        if rng.rand() < 0.1:
            d1 = 0.
        low, high = prior - d1, prior + d2
        kw["logscale_deviation"] = True
    kw.update(prior=prior, low=low, high=high)
    if rng.rand() < 0.3:
        kw.update((k, gen.whole(kw[k])) for k in ("prior", "low", "high"))
    return kind, kw


def _check_values(ctx, kind, kw, v):
    low, high, bins, prior = kw["low"], kw["high"], kw["bins"], kw["prior"]
    ctx.expect(numpy.shape(v) == (bins,), "as-many-values-as-bins", kind, kw,
               numpy.shape(v))
    v = numpy.asarray(v, dtype=float)
    tol = 1e-9 * max(1., abs(low), abs(high))
    ctx.expect((numpy.diff(v) > 0).all() or bins == 1, "increasing", kind, kw,
               v)
    if kind == "linear":
        ctx.close(v[0], low, "starts-at-low", kw)
        if bins > 1:
            ctx.close(v[-1], high, "ends-at-high", kw)
            ctx.close(numpy.diff(v), numpy.full(bins - 1,
                                                (high - low) / (bins - 1)),
                      "equally-spaced", kw, atol=tol)
    elif kind == "log":
        lo = low if low > 0 else 1. / high
        ctx.close(v[0], lo, "starts-at-low", kw)
        if bins > 1:
            ctx.close(v[-1], high, "ends-at-high", kw)
            ctx.close(numpy.diff(numpy.log(v)),
                      numpy.full(bins - 1, math.log(high / lo) / (bins - 1)),
                      "equally-spaced-in-log", kw)
    else:
        i = numpy.abs(v - prior).argmin()
        ctx.close(v[i], prior, "prior-in-values", kw, atol=tol)
        below, above = v[:i + 1][::-1], v[i:]
        for side, end, other in ((below, low, high), (above, high, low)):
            d = numpy.log(numpy.abs(side - prior) + 1.)
            if len(side) > 1:
                ctx.close(side[-1], end, "ends-at-bound", kw, v, atol=tol)
                ctx.close(numpy.diff(d), numpy.full(
                    len(d) - 1, d[-1] / (len(d) - 1)),
                    "deviations-equally-spaced-in-log", kw, v, atol=1e-8)
        share = (prior - low) / (high - low) * (bins + 1)
        ctx.expect(abs(len(below) - share) <= 1.0 + 1e-9,
                   "bins-shared-by-range", kw, len(below), share)
    ctx.count("values:" + kind)


def _make(P, rng, name, kw):
    cls = ["RateParameter", "ScaleParameter", "ShiftParameter",
           "ResolutionParameter"][rng.randint(4)]
    kw = dict(kw)
    if cls != "RateParameter":
        kw["dimension"] = "energy_mc"
    return cls, getattr(P, cls)(name, **kw)


def wl_values(ctx):
    rng = ctx.rng
    P = E("core.parameter")
    kind, kw = _scale_kwargs(rng)
    cls, p = _make(P, rng, "a_rate", kw)
    ctx.log(cls, kind, kw)
    v = numpy.array(p.get_values(), copy=True)
    _check_values(ctx, kind, kw, v)
    ctx.same(p.get_values(), v, "values-repeatable")
    ctx.expect(p.get_type() == "fit", "type", p.get_type())
    ctx.expect((p.get_prior(), p.get_sigma(), p.get_low(), p.get_high(),
                p.get_bins(), p.get_name()) ==
               (kw["prior"], kw["sigma"], kw["low"], kw["high"], kw["bins"],
                "a_rate"), "accessors", kw)
    # look-ups
    for i in range(len(v)):
        ctx.expect(p.get_value_at(i) == v[i], "value-at", i)
        first = int(numpy.where(v == v[i])[0][0])
        ctx.expect(p.get_value_index(v[i]) == first, "index-of-value", i,
                   v[i], p.get_value_index(v[i]))
        ctx.expect(p.get_bin(v[i]) == first, "bin-of-value", i, v[i],
                   p.get_bin(v[i]))
        ctx.expect(p.get_bin(v[i] * (1 + 1e-12)) == first,
                   "bin-of-rounded-value", i)
    for i in (len(v), len(v) + 3):
        ctx.raises(IndexError, lambda: p.get_value_at(i), "beyond-the-values",
                   i)
    mid = 0.5 * (v[0] + v[-1]) + 0.1234567
    if not (v == mid).any():
        ctx.raises(ValueError, lambda: p.get_value_index(mid),
                   "absent-value-refused", mid)
    if kind == "linear":            # off the grid: bins of equal width
        for _ in range(3):
            at = (rng.randint(kw["bins"]) + rng.uniform(0.01, 0.99))
            x = kw["low"] + at * (kw["high"] - kw["low"]) / kw["bins"]
            if not numpy.isclose(v, x, rtol=1e-4).any():
                ctx.expect(p.get_bin(x) == int(at), "bin-of-absent-value", x,
                           p.get_bin(x), int(at))
                ctx.count("absent-values")
    # the prior warning
    wl = _warnings(p.check_values)
    rel = numpy.abs(v - kw["prior"]) / (abs(kw["prior"]) or 1.)
    if rel.min() < 1e-14:
        ctx.expect(not any("Prior not in" in w for w in wl),
                   "prior-present-no-warning", kw, wl)
        ctx.count("prior-present")
    elif rel.min() > 1e-11:
        ctx.expect(any("Prior not in" in w for w in wl),
                   "prior-absent-warning", kw, wl)
        ctx.count("prior-absent")
    neg = cls == "RateParameter" and (v < 0).any()
    ctx.expect(any("fall outside bounds" in w for w in wl) == neg,
               "bounds-warning", cls, kw, wl)
    # round trip through the dictionary
    cur, best, pen = v[len(v) // 2], v[0], float(rng.choice([0., 1.5]))
    for get in ("get_current_value", "get_best_fit", "get_penalty_term"):
        ctx.raises(ValueError, getattr(p, get), "unset-refused", get)
    p.set_current_value(cur)
    p.set_best_fit(best)
    p.set_penalty_term(pen)
    ctx.expect(p.get_current_value() == cur and p.get_best_fit() == best and
               p.get_penalty_term() == pen, "set-and-get", cur, best, pen)
    d = p.to_dict()
    for k, given in kw.items():
        ctx.expect(d[k] == given, "dictionary-content", k, given, d[k])
    extra = {} if cls == "RateParameter" else {"dimension": "energy_mc"}
    q = getattr(P, cls)("a_rate", **dict(d, **extra))
    _same_par(ctx, p, q, "dictionary-round-trip")
    basic = p.to_dict(basic=True)
    q = getattr(P, cls)("a_rate", **dict(basic, **extra))
    ctx.same(q.get_values(), v, "basic-round-trip")
    ctx.raises(ValueError, q.get_best_fit, "basic-leaves-results-out")
    ctx.sig(cls, kind, sorted(kw.items(), key=str))
    ctx.sample("%s %s %s" % (cls, kind, kw))


def _warnings(fn):
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        fn()
    return [str(w.message) for w in wl]


def _same_par(ctx, p, q, kind, results=True, exact=True):
    a = [p.get_name(), p.get_low(), p.get_high(), p.get_bins(),
         p.get_prior(), p.get_sigma(), p.get_dimension()]
    b = [q.get_name(), q.get_low(), q.get_high(), q.get_bins(),
         q.get_prior(), q.get_sigma(), q.get_dimension()]
    ctx.expect(a == b and type(p) is type(q), kind, a, b)
    ctx.same(q.get_values(), p.get_values(), kind, "values of", a)
    if results:
        for get in ("get_current_value", "get_best_fit", "get_penalty_term"):
            r = []
            for x in (p, q):
                try:
                    r.append(float(getattr(x, get)()))
                except ValueError:
                    r.append(None)
            ctx.expect(r[0] == r[1], kind, get, r)


def wl_set_par(ctx):
    """Changing a parameter is like making it anew."""
    rng = ctx.rng
    P = E("core.parameter")
    kind, kw = _scale_kwargs(rng)
    cls, p = _make(P, rng, "a_rate", kw)
    state = dict(kw)
    for step in range(5):
        if rng.rand() < 0.7:
            p.get_values()
        k2, kw2 = _scale_kwargs(rng)
        if rng.rand() < 0.5:            # everything at once, other scale
            change = dict(kw2)
            for flag in ("logscale", "logscale_deviation"):
                change.setdefault(flag, False)
        else:                           # a few numbers, same scale
            if state.get("logscale"):
                kinds = "log"
            elif state.get("logscale_deviation"):
                kinds = "dev"
            else:
                kinds = "linear"
            while k2 != kinds:
                k2, kw2 = _scale_kwargs(rng)
            change = {k: kw2[k] for k in ("prior", "low", "high")}
            for k in ("bins", "sigma"):
                if rng.rand() < 0.5:
                    change[k] = kw2[k]
            if rng.rand() < 0.2:
                change = {"bins": kw2["bins"]}
            elif rng.rand() < 0.2:
                change = {"sigma": kw2["sigma"]}
            elif rng.rand() < 0.3:      # the prior alone, within the range
                p.get_values()
                change = {"prior": round(float(rng.uniform(
                    max(state["low"], 0.), state["high"])), 3)}
                if not state["low"] <= change["prior"] <= state["high"]:
                    change["prior"] = state["high"]
                ctx.count("prior-alone")
            elif rng.rand() < 0.3:      # one end alone
                end = ["low", "high"][rng.randint(2)]
                by = float(rng.choice([0.25, 1., 3.5]))
                p.get_values()
                change = {end: state[end] + by if end == "high" else
                          state[end] - by if state["low"] <= 0 or
                          kinds != "log" else state[end] * 0.5}
                ctx.count("one-end")
            elif rng.rand() < 0.4:      # the scale alone
                p.get_values()
                flag = "logscale_deviation" if kinds == "dev" else \
                    "logscale" if kinds == "log" else \
                    ["logscale", "logscale_deviation"][int(
                        state["low"] <= 0 or rng.randint(2))]
                inside = state["low"] <= state["prior"] <= state["high"]
                if kinds != "linear" or flag == "logscale" or inside:
                    change = {flag: kinds == "linear"}
                    ctx.count("scale-alone:" + flag)
        items = list(change.items())
        rng.shuffle(items)
        ctx.log("set_par", items)
        p.set_par(**dict(items))
        state.update(change)
        fresh = dict(state)
        if cls != "RateParameter":
            fresh["dimension"] = "energy_mc"
        q = getattr(P, cls)("a_rate", **fresh)
        ctx.same(p.get_values(), q.get_values(), "as-if-made-anew", change,
                 state)
        ctx.expect((p.get_prior(), p.get_sigma(), p.get_low(), p.get_high(),
                    p.get_bins()) == (q.get_prior(), q.get_sigma(),
                                      q.get_low(), q.get_high(),
                                      q.get_bins()), "as-if-made-anew",
                   change, state)
        kd = "log" if state.get("logscale") else \
            "dev" if state.get("logscale_deviation") else "linear"
        _check_values(ctx, kd, state, p.get_values())
        ctx.count("changed")
    for bad in ("nonsense", "_prior", "name", "current_value", "best_fit",
                "values"):
        ctx.raises(TypeError, lambda: p.set_par(**{bad: 3.}),
                   "unknown-refused", bad)
    if cls != "RateParameter":
        p.set_par(dimension="radial_reco")
        ctx.expect(p.get_dimension() == "radial_reco", "dimension-set")
    for k, v in (("base", 10.), ("logscale", True), ("logscale", False),
                 ("logscale_deviation", True)):
        p.set_par(**{k: v})
        ctx.expect(p.to_dict()[k] == v and p.to_dict(True)[k] == v,
                   "setting-set", k, v, p.to_dict())
    p.set_par(sigma=0.)
    ctx.expect(p.get_sigma() == 0. and p.get_sigma() is not None, "sigma-zero")
    ctx.sig(cls, sorted(state.items(), key=str))
    ctx.sample("%s -> %s" % (kw, state))


# ------------------------------------------------------ C17 configuration files
def _config_of(ctx, kind):
    rng = ctx.rng
    C, P = E("core.config"), E("core.parameter")

    def par(cls, name, **extra):
        _, kw = _scale_kwargs(rng)
        for k in ("prior", "low", "high"):
            if rng.rand() < 0.2 and kw[k] == int(kw[k]):
                kw[k] = int(kw[k])
        kw.update(extra)
        if rng.rand() < 0.5:
            p = getattr(P, cls)(name, **kw)
        else:
            res = {"current_value": 1.25, "best_fit": 2.5,
                   "penalty_term": 0.}
            p = getattr(P, cls)(name, **dict(kw, **res))
        if rng.rand() < 0.4:            # results of a fit are numpy numbers
            v = p.get_values()
            if rng.rand() < 0.8:
                p.set_best_fit(v[rng.randint(len(v))])
            if rng.rand() < 0.8:
                p.set_penalty_term([numpy.float64(rng.uniform(0, 3)),
                                    numpy.float32(0.25), numpy.int64(2)][
                                        rng.randint(3)])
            if rng.rand() < 0.8:
                p.set_current_value(v[-1] if rng.rand() < 0.7 else
                                    numpy.int64(3))
        return p
    if kind == "spectra" and rng.rand() < 0.3:
        # dimensions whose names begin alike
        axes = [("energy_mc", 0., 10., 5), ("energy_quenched_reco", 0., 8., 4),
                ("energy_quenched_2_truth", 1., 8., 3),
                ("ener_reco", 0., 2., 2)]
        return gen.config([axes[i] for i in rng.permutation(4)[
            :rng.randint(2, 5)]], "cfg%d" % rng.randint(100))
    if kind == "spectra":
        return gen.config(gen.axes(rng, max_cells=10 ** 7),
                          "cfg%d" % rng.randint(100))
    if kind == "spectra_fit":
        pars = OrderedDict()
        names = ["rate", "rate_b", "another_rate", "rates3"]
        for i in rng.permutation(4)[:rng.randint(1, 4)]:
            pars[names[i]] = par("RateParameter", names[i])
        return C.SpectraFitConfig("sf%d" % rng.randint(100), pars, "spec")
    pars = OrderedDict()
    dims = ["energy_mc", "radial_reco", "time_truth"]
    for i in rng.permutation(3)[:rng.randint(1, 4)]:
        systs = [("resolution", "ResolutionParameter"),
                 ("resolution_ly", "ResolutionParameter"),
                 ("shift", "ShiftParameter"), ("scale", "ScaleParameter")]
        for j in rng.permutation(4)[:rng.randint(1, 4)]:
            n = dims[i] + "_" + systs[j][0]
            pars[n] = {"par": par(systs[j][1], n, dimension=dims[i]),
                       "type": "global"}
    if kind == "global+spectral":
        for n in ("u238_rate", "rate_of_b8"):
            if rng.rand() < 0.7:
                pars[n] = {"par": par("RateParameter", n), "type": "spectra"}
    return C.GlobalFitConfig("gf%d" % rng.randint(100), pars)


def _same_config(ctx, c, d, kind, what, results=True, order=True):
    ctx.expect(type(c) is type(d) and c.get_type() == d.get_type(),
               "type-kept", what)
    a, b = list(c.get_pars()), list(d.get_pars())
    ctx.expect(a == b if order else sorted(a) == sorted(b),
               "parameters-kept", what, a, b)
    for n in a:
        if kind == "spectra":
            p, q = c.get_par(n), d.get_par(n)
            ctx.expect((p.get_name(), p.get_low(), p.get_high(),
                        p.get_bins()) == (q.get_name(), q.get_low(),
                                          q.get_high(), q.get_bins()),
                       "axis-kept", what, n)
        else:
            _same_par(ctx, c.get_par(n), d.get_par(n), "parameter-kept",
                      results)
    if kind.startswith("global"):
        for f in ("get_global_pars", "get_spectra_pars"):
            x = [p.get_name() for p in getattr(c, f)()]
            y = [p.get_name() for p in getattr(d, f)()]
            ctx.expect(x == y, "grouping-kept", what, f, x, y)


def wl_config(ctx):
    rng = ctx.rng
    C = E("core.config")
    kind = ["spectra", "spectra_fit", "global", "global+spectral"][
        rng.randint(4)]
    c = _config_of(ctx, kind)
    names = list(c.get_pars())
    # look-ups
    for i, n in enumerate(names):
        ctx.expect(c.get_index(n) == i, "index-of", n)
        ctx.expect(c.get_par_by_index(i) is c.get_par(n), "par-by-index", i)
    ctx.expect(tuple(c.get_shape()) == tuple(
        c.get_par(n).get_bins() for n in names), "shape", c.get_shape())
    ctx.raises(IndexError, lambda: c.get_index("nothing"), "unknown-index")
    # dictionaries
    basic = bool(rng.rand() < 0.4) and kind != "spectra"
    path = ctx.tmp() + "/"
    if rng.rand() < 0.3:
        path += "sub.dir/"
        os.mkdir(path)
    if rng.rand() < 0.3:
        os.chdir(path)
        path = ""
    new = [None, "given", ""][rng.randint(3)]
    fname = [None, "", "some_file", "other.yml", "anyml", "run.2"][
        rng.randint(6)]
    base = {None: None, "": "?", "some_file": "some_file.yml",
            "other.yml": "other.yml", "anyml": "anyml.yml",
            "run.2": "run.2.yml"}[fname]
    if rng.rand() < 0.4:                # the files are there already
        for f in ("spectra_config.yml", "spectral_fit_config.yml",
                  "global_fit_config.yml", "some_file.yml", "other.yml",
                  "spec_some_file.yml", "anyml.yml", "spec_anyml.yml"):
            with open(path + f, "w") as stream:
                stream.write("parameters:\n    old_mc: {low: 0}\n" * 40)
        ctx.count("file-replaced")
    ctx.log(kind, names, "basic", basic, "file", fname, "name", new)
    if kind == "spectra":
        d = C.SpectraConfig.load(c.dump(), name="given")
        ctx.expect(d.get_name() == "given", "name-given", d.get_name())
        _same_config(ctx, c, d, kind, "dump / load")
        c.dump_to_file(path, fname) if fname is not None or rng.rand() < .5 \
            else c.dump_to_file(path=path)
        want = base or "spectra_config.yml"
        if base == "?":
            want = c.get_name() + ".yml"
        ctx.expect(os.path.exists(path + want), "file-name", fname, want,
                   os.listdir(path or "."))
        d = C.SpectraConfig.load_from_file(path + want, new)
        default = "config"
        _axis_names(ctx, c)
    elif kind == "spectra_fit":
        d = C.SpectraFitConfig.load(c.dump(basic=basic), "spec2",
                                    name="given")
        ctx.expect(d.get_name() == "given" and d._spectra_name == "spec2",
                   "name-given", d.get_name())
        _same_config(ctx, c, d, kind, "dump / load", not basic)
        c.dump_to_file(path, fname, basic)
        want = base or "spectral_fit_config.yml"
        if base == "?":
            want = c.get_name() + ".yml"
        ctx.expect(os.path.exists(path + want), "file-name", fname, want)
        d = C.SpectraFitConfig.load_from_file(path + want, "spec", new)
        default = "spectral_fit_config"
    else:
        g, s = c.dump(basic=basic)
        if c.get_spectra_pars() or rng.rand() < 0.5:
            d = C.GlobalFitConfig.load(g, s, name="given")
        else:
            d = C.GlobalFitConfig.load(g, name="given")
        ctx.expect(d.get_name() == "given", "name-given", d.get_name())
        _same_config(ctx, c, d, kind, "dump / load", not basic)
        sname = None if fname is None else "" if fname == "" else \
            "spec_" + fname
        c.dump_to_file(path, fname, sname, basic)
        want = base or "global_fit_config.yml"
        swant = "spec_" + base if base else "spectral_fit_config.yml"
        if base == "?":
            want = c.get_name() + "_global.yml"
            swant = c.get_name() + "_spectral.yml"
        ctx.expect(os.path.exists(path + want) and
                   os.path.exists(path + swant), "file-name", fname, want)
        d = C.GlobalFitConfig.load_from_file(
            path + want, path + swant if c.get_spectra_pars() or
            rng.rand() < 0.5 else None, new)
        default = "global_fit_config"
    _same_config(ctx, c, d, kind, "file", not basic)
    wname = {None: default, "given": "given",
             "": os.path.splitext(want)[0]}[new]
    ctx.expect(d.get_name() == wname, "name-of-loaded", new, wname,
               d.get_name())
    # a second generation is identical
    args = _load_args(kind, d)
    before = repr(args)
    ctx.expect(repr(d.dump()) == repr(type(d).load(*args).dump()),
               "dump-stable", kind)
    ctx.expect(repr(args) == before, "load-keeps-dictionary", kind)
    ctx.count("kind:" + kind)
    ctx.count("basic" if basic else "full")
    _rejections(ctx, C)
    ctx.sig(kind, repr(c.dump()))
    ctx.sample("%s %s" % (kind, names))


def _load_args(kind, d):
    if kind == "spectra":
        return (d.dump(),)
    if kind == "spectra_fit":
        return (d.dump(), "spec")
    return d.dump()


def _axis_names(ctx, c):
    dims = [n.rsplit("_", 1)[0] for n in c.get_pars()]
    ctx.expect(sorted(c.get_dims()) == sorted(dims), "dimension-names",
               c.get_dims(), dims)
    for n in c.get_pars():
        dim, typ = n.rsplit("_", 1)
        ctx.expect(c.get_dim(n) == dim and c.get_dim_type(dim) == typ,
                   "dimension-of", n, c.get_dim(n), c.get_dim_type(dim))
    ctx.raises(IndexError, lambda: c.get_dim_type("nothing"),
               "unknown-dimension")
    d = c.copy()
    n = list(c.get_pars())[0]
    old = (c.get_par(n).get_low(), c.get_par(n).get_bins())
    d.get_par(n).set_par(low=-99., bins=1)
    ctx.expect((c.get_par(n).get_low(), c.get_par(n).get_bins()) == old,
               "copy-independent")
    ctx.expect(list(d.get_pars()) == list(c.get_pars()) and
               d.get_name() == c.get_name(), "copy-equal")


def _rejections(ctx, C):
    ctx.raises(KeyError, lambda: C.SpectraConfig.load({"pars": {}}),
               "bad-dictionary")
    ctx.raises(KeyError, lambda: C.SpectraFitConfig.load(
        {"parameters": {"rate": {}}}, "s"), "bad-dictionary")
    ctx.raises(KeyError, lambda: C.GlobalFitConfig.load({"parameters": {}}),
               "bad-dictionary")
    kw = {"prior": 1., "sigma": None, "low": 0., "high": 2., "bins": 3}
    ctx.raises(IndexError, lambda: C.SpectraFitConfig.load(
        {"spectral_fit_parameters": {"speed": kw}}, "s"), "bad-systematic")
    ctx.raises(IndexError, lambda: C.GlobalFitConfig.load(
        {"global_fit_parameters": {"energy_mc": {"wobble": kw}}}),
        "bad-systematic")
    ctx.raises(IndexError, lambda: C.GlobalFitConfig.load(
        {"global_fit_parameters": {}},
        {"spectral_fit_parameters": {"speed": kw}}), "bad-systematic")
    ctx.raises(KeyError, lambda: C.GlobalFitConfig.load(
        {"global_fit_parameters": {}}, {"nothing": {}}), "bad-dictionary")
    ctx.raises(KeyError, lambda: C.GlobalFitConfig.load(
        {"global_fit_parameters": {}}, {}), "bad-dictionary")
    g = C.GlobalFitConfig("g", OrderedDict())
    p = E("core.parameter").RateParameter("rate", **kw)
    ctx.raises(IndexError, lambda: g.add_par(p, "local"), "bad-par-type")
    ctx.raises(ValueError, lambda: g.add_config(gen.config(
        [("energy_mc", 0., 1., 2)])), "bad-config-type")
    ctx.expect(list(g.get_pars()) == [], "rejected-changes-nothing")


_YAML = """common: &common
    prior: %(prior)r
    sigma: %(sigma)r
    low: %(low)r
    high: %(high)r
spectral_fit_parameters:
    z_rate:
        <<: *common
        bins: %(bins)d
    a_rate:
        bins: %(bins2)d
        <<: *common
        prior: %(prior2)r
"""


def _shipped(ctx):
    """The configurations that come with the package hold what they say."""
    C = E("core.config")
    kinds = {"parameters": (C.SpectraConfig, ()),
             "spectral_fit_parameters": (C.SpectraFitConfig, ("spec",)),
             "global_fit_parameters": (C.GlobalFitConfig, ())}
    home = os.path.dirname(os.path.dirname(C.__file__))
    for fname in sorted(glob.glob(os.path.join(home, "config", "*.yml"))):
        with open(fname) as stream:
            says = yaml.safe_load(stream)
        (key, pars), = says.items()
        cls, more = kinds[key]
        c = cls.load_from_file(fname, *more)
        if key == "global_fit_parameters":
            pars = dict(("%s_%s" % (d, n), v) for d, g in pars.items()
                        for n, v in g.items())
        ctx.expect(sorted(c.get_pars()) == sorted(pars), "shipped-parameters",
                   fname, list(c.get_pars()), sorted(pars))
        for n, v in pars.items():
            p = c.get_par(n)
            got = dict((k, getattr(p, "_" + k)) for k in v)
            ctx.expect(got == v, "shipped-settings", fname, n, got, v)
        ctx.count("shipped")


def wl_written(ctx):
    """Files written by hand, with anchors and merged mappings."""
    rng = ctx.rng
    if ctx.case == 0:
        _shipped(ctx)
    C = E("core.config")
    Y = E("util.yaml_loader")
    kw = {"prior": float(rng.choice([1., 2.5, rng.uniform(0, 10)])),
          "prior2": float(rng.uniform(0, 10)),
          "sigma": float(rng.choice([0.5, 1e-3, 2.])), "low": 0.,
          "high": float(rng.choice([10., 1e5, rng.uniform(10, 20)])),
          "bins": int(rng.randint(1, 40)), "bins2": int(rng.randint(1, 40))}
    fname = os.path.join(ctx.tmp(), "written.yml")
    with open(fname, "w") as stream:
        stream.write(_YAML % kw)
    c = C.SpectraFitConfig.load_from_file(fname, "spec")
    ctx.expect(list(c.get_pars()) == ["z_rate", "a_rate"], "written-order",
               list(c.get_pars()))
    for n, bins, prior in (("z_rate", "bins", "prior"),
                           ("a_rate", "bins2", "prior2")):
        p = c.get_par(n)
        ctx.expect((p.get_prior(), p.get_sigma(), p.get_low(), p.get_high(),
                    p.get_bins()) == (kw[prior], kw["sigma"], kw["low"],
                                      kw["high"], kw[bins]), "written-par",
                   n, kw)
    # any nesting of mappings keeps its order through a file
    keys = ["k%d" % i for i in rng.permutation(8)]
    data = OrderedDict()
    for k in keys[:4]:
        data[k] = OrderedDict(
            (x, [None, True, 1, 2.5, "text", [1, 2]][rng.randint(6)])
            for x in [keys[i] for i in rng.permutation(8)[:5]])
    opts = [{}, {"indent": 8}, {"default_flow_style": False}][rng.randint(3)]
    with open(fname, "w") as stream:
        Y.ordered_dump(data, stream, **opts)
    with open(fname) as stream:
        back = Y.ordered_load(stream)
    ctx.expect(repr(back) == repr(data), "order-kept", opts, data, back)
    ctx.count("written")
    ctx.sig(sorted(kw.items()), keys)


def wl_add_config(ctx):
    """Parameters of spectra are collected under their spectrum's name."""
    rng = ctx.rng
    C, P = E("core.config"), E("core.parameter")
    g = C.GlobalFitConfig("g", OrderedDict())
    want = []
    for i in range(rng.randint(1, 4)):
        if rng.rand() < 0.4:
            other = _config_of(ctx, "global")
            g.add_config(other)
            for p in other.get_global_pars():
                w = (p.get_name(), "global", p)
                want = [x for x in want if x[0] != w[0]] + [w] if not any(
                    x[0] == w[0] for x in want) else \
                    [w if x[0] == w[0] else x for x in want]
        else:
            name = ["spec%d", "Te130_0n2b_%d", "spec%d_mc", "b8.v%d"][
                rng.randint(4)] % (i if rng.rand() < 0.7 else 0)
            pars = OrderedDict()
            for n in ("rate", "rate_b")[:rng.randint(1, 3)]:
                pars[n] = P.RateParameter(n, 1., None, 0., 2., 3)
            sf = C.SpectraFitConfig("sf", pars, name)
            g.add_config(sf)
            for n, p in pars.items():   # a later one takes its place
                w = (name + "_" + n, "spectra", p)
                if any(x[0] == w[0] for x in want):
                    ctx.count("replaced")
                    want = [w if x[0] == w[0] else x for x in want]
                else:
                    want.append(w)
            ctx.expect(list(sf.get_pars()) == list(pars), "config-kept")
    ctx.expect(list(g.get_pars()) == [w[0] for w in want], "collected-names",
               list(g.get_pars()), want)
    for n, t, p in want:
        ctx.expect(g.get_par(n) is p, "collected-parameter", n)
    ctx.expect([p.get_name() for p in g.get_spectra_pars()] ==
               [w[0] for w in want if w[1] == "spectra"] and
               [p.get_name() for p in g.get_global_pars()] ==
               [w[0] for w in want if w[1] == "global"], "collected-groups")
    ctx.expect(tuple(g.get_shape()) == tuple(w[2].get_bins() for w in want),
               "collected-shape")
    ctx.count("collected", len(want))
    ctx.sig([w[:2] for w in want], repr(g.dump()))
    ctx.sample("collected %s" % [w[0] for w in want])


# --------------------------------------------------- C18 pre-convolved file names
def _value(rng, kind):
    if kind == "ly":
        return float(rng.choice([200., 185., 190.5, 100., 1000., 20., 10.5,
                                 185.125, 185.25, 1200.5]))
    if kind == "rs":
        return float(rng.choice([0.05, 0.1, 0.025, 0.5, 10., 0.050125,
                                 0.05025]))
    if kind == "sc":
        return float(rng.choice([1., 1.05, 0.9, 2., 10., 100., 0.995,
                                 1.00125, 1.0005, 1.25e20, 125., 1.25e-10]))
    return float(rng.choice([0., 1., -0.1, 0.25, -20., 300., 0.001,
                             0.250125, -0.123456, 1.5e-10, -2.5e-20,
                             1e-05, 1e-10, 0.15]))


def wl_names(ctx):
    rng = ctx.rng
    P = E("core.parameter")
    # some end in the letters that label values
    bases = ["Te130_0n2b_mc", "U238Chain_mc", "data", "b8_x", "2n2b",
             "supply_mc", "mc_supply", "rarely", "events_sc", "crash_rs_x",
             "a_push"]
    base = bases[rng.randint(len(bases))]
    if base in bases[5:]:
        ctx.count("labels-in-names")
    root = ["/data/spectra", "rel/dir/", "/d/", ".", "/scale/smear",
            "shift/", "/energy_mc_old/of_radial_mc", "/energy_mc/shift",
            "radial_mc/smear/scale/", "/energy_mc/x"][rng.randint(10)]
    dims = ["energy_mc", "radial_mc"]
    kinds = {"ly": ("ResolutionParameter", "smear"),
             "rs": ("ResolutionParameter", "smear"),
             "sc": ("ScaleParameter", "scale"),
             "sh": ("ShiftParameter", "shift")}
    pars = []
    for d in dims[:rng.randint(1, 3)]:
        # one parameter per kind of value: the name holds one value of each
        used = [k for k, _, _ in pars]
        free = [k for k in ("ly" if rng.rand() < 0.5 else "rs", "sc", "sh")
                if k not in used]
        free = [k for k in free if not (k in ("ly", "rs") and (
            "ly" in used or "rs" in used))]
        for k in rng.permutation(free)[:rng.randint(1, 4)]:
            cls = kinds[k][0]
            pars.append((str(k), d, getattr(P, cls)(
                d + "_" + k, 1., None, -1e9, 1e9, 3, d)))
    seen = {}
    for rnd in range(6):
        directory = root
        filename = base + ".hdf5"
        fresh = rnd == 0 or rng.rand() < 0.5
        if not fresh:                       # from a file of an earlier round
            filename = last
        want_dir = root if root.endswith("/") else root + "/"
        vals = []
        done = []
        cur_dim = None
        for k, d, p in pars:
            v = _value(rng, k)
            vals.append((k, v))
            p.set_current_value(v)
            added = d != cur_dim
            if added:
                directory = directory if directory.endswith("/") else \
                    directory + "/"
                directory += d + "/"
                want_dir += d + "/"
                cur_dim = d
                done = []
            if not added and rng.rand() < 0.2:
                directory = directory.rstrip("/")
            if not added and rng.rand() < 0.5:      # which is the default
                directory, filename = p.get_pre_convolved(directory, filename)
            else:
                directory, filename = p.get_pre_convolved(directory, filename,
                                                          added)
            if kinds[k][1] not in done:
                want_dir += kinds[k][1] + "/"
                done.append(kinds[k][1])
            # once more over the same path: nothing is added
            again = p.get_pre_convolved(directory, filename, False)
            ctx.expect(again == (directory, filename), "idempotent",
                       again, directory, filename)
        want = base + "".join("_%.12g%s" % (v, k) for k, v in vals) + ".hdf5"
        ctx.expect(filename == want, "file-name", vals, "got", filename,
                   "want", want)
        ctx.expect(directory == want_dir, "directory", "got", directory,
                   "want", want_dir)
        last = filename
        key = tuple(vals)
        for k2, f2 in seen.items():
            ctx.expect((k2 == key) == (f2 == (directory, filename)),
                       "one-file-per-values", k2, f2, key, filename)
        seen[key] = (directory, filename)
        ctx.count("substituted" if not fresh else "appended")
        for k, _ in vals:
            ctx.count("name:" + k)
    p = P.ScaleParameter("x", 1., None, 0., 2., 3, "energy_mc")
    ctx.raises(ValueError, lambda: p.get_pre_convolved("a/energy_mc/",
                                                       "b.hdf5"),
               "unset-refused")
    ctx.raises(ValueError, lambda: p.apply_to(None), "unset-refused")
    ctx.sig(base, root, sorted(seen.items()))
    ctx.sample("%s%s" % (directory, filename))


def wl_rate(ctx):
    """Rate parameters set the number of decays."""
    rng = ctx.rng
    P = E("core.parameter")
    s = gen.spectrum(rng)
    p = P.RateParameter("rate", 10., None, 0., 100., 11)
    ctx.raises(ValueError, lambda: p.apply_to(s), "unset-refused")
    nd, data = s.get_num_decays(), s._data.copy()
    v = None
    for _ in range(6):
        if v is None or rng.rand() < 0.7:
            v = float(rng.choice([1., 10., 0.5, rng.uniform(0.1, 1e4), 1e-10,
                                  1e12]))
        if rng.rand() < 0.3:        # scaled by somebody else in between
            s.scale(float(rng.uniform(0.5, 50.)))
            ctx.count("scaled-in-between")
        if rng.rand() < 0.3:        # and given other contents
            f = rng.uniform(0.5, 2., size=data.shape)
            data, s._data = data * f, s._data * f
        p.set_current_value(v)
        out = p.apply_to(s)
        ctx.close(out._data, data * (v / nd), "rate-applied", v, nd,
                  rtol=1e-8)
        ctx.close(out.get_num_decays(), v, "rate-is-the-number-of-decays")
        ctx.count("rates")
    p.set_current_value(0.)
    out = p.apply_to(s)
    ctx.expect(out.get_num_decays() == 0. and not out._data.any(),
               "rate-zero")
    ctx.sig(data, v)
    ctx.sample("rate %s" % v)


PROPS = {
    "C16": Prop(
        "fit parameters",
        [("values", wl_values, 300, 20000), ("set_par", wl_set_par, 150,
                                             10000)],
        "random parameters of all four classes on linear, logarithmic and "
        "logarithmic-deviation scales (1 to 101 values), their values, "
        "look-ups, warnings and dictionaries, and sequences of changes; "
        "distinct by class and settings",
        ["values:linear", "values:log", "values:dev", "changed",
         "absent-values", "prior-present", "prior-absent", "prior-alone", "one-end"]),
    "C17": Prop(
        "configurations",
        [("config", wl_config, 120, 8000),
         ("add_config", wl_add_config, 100, 4000),
         ("written", wl_written, 60, 2000)],
        "random configurations of every class through dictionaries and yaml "
        "files under default, blank and given names, those that come with "
        "the package, plus malformed ones; "
        "distinct by content",
        ["kind:spectra", "kind:spectra_fit", "kind:global",
         "kind:global+spectral", "basic", "full", "collected",
         "file-replaced", "replaced", "written"],
        ["global parameters listed dimension by dimension, then spectral "
         "parameters"]),
    "C18": Prop(
        "pre-convolved names", [("names", wl_names, 150, 8000),
                                ("rate", wl_rate, 60, 3000)],
        "random chains of systematics on one or two dimensions, from fresh "
        "names and from names of other values; distinct by names",
        ["appended", "substituted", "name:ly", "name:rs", "name:sc",
         "name:sh", "rates", "labels-in-names"],
        ["values that print in at most 12 digits; base names without "
         "segments that are labelled values"]),
}
