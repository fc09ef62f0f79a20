"""Files of spectra and results."""
from collections import OrderedDict
import os

import numpy

import gen
from gen import E
from mon import Prop
from c_params import _same_par, _scale_kwargs


def _rate_config(rng, name, spec_name, results=True):
    C, P = E("core.config"), E("core.parameter")
    pars = OrderedDict()
    for n in ["rate", "rate_b", "a_rate"][:rng.randint(1, 4)]:
        _, kw = _scale_kwargs(rng)
        p = P.RateParameter(n, **kw)
        if results and rng.rand() < 0.5:
            v = p.get_values()
            p.set_best_fit(v[rng.randint(len(v))])
            p.set_penalty_term(numpy.float64(rng.uniform(0, 3)))
            p.set_current_value(v[-1])
        pars[n] = p
    return C.SpectraFitConfig(name, pars, spec_name)


def _global_config(rng, empty=False, results=True, max_cells=300):
    """Global parameters dimension by dimension, then spectral ones."""
    C, P = E("core.config"), E("core.parameter")
    pars = OrderedDict()
    cells = [max_cells]

    def add(cls, name, kind, **extra):
        _, kw = _scale_kwargs(rng)
        kw["bins"] = int(rng.choice([b for b in (1, 2, 3, 4, 5)
                                     if b <= max(1, cells[0])]))
        cells[0] //= kw["bins"]
        p = getattr(P, cls)(name, **dict(kw, **extra))
        if results and rng.rand() < 0.6:
            v = p.get_values()
            p.set_best_fit(v[rng.randint(len(v))])
            p.set_penalty_term(numpy.float64(rng.uniform(0, 3)))
            p.set_current_value(v[-1])
        pars[name] = {"par": p, "type": kind}
    if not empty:
        for d in ["energy_mc", "radial_reco"][:rng.randint(0, 3)]:
            systs = [("resolution", "ResolutionParameter"),
                     ("shift", "ShiftParameter"), ("scale", "ScaleParameter")]
            for j in rng.permutation(3)[:rng.randint(1, 3)]:
                add(systs[j][1], d + "_" + systs[j][0], "global",
                    dimension=d)
        names = ["u238_rate", "b8_rate", "rate_x"]
        for n in names[:rng.randint(0 if pars else 1, 3)]:
            add("RateParameter", n, "spectra")
    return C.GlobalFitConfig("gf%d" % rng.randint(100), pars)


def _same_spectrum(ctx, a, b, what):
    x, y = gen.snapshot(a), gen.snapshot(b)
    for k in x:
        if k == "data":
            ctx.same(y[k], x[k], what + "-contents")
        elif k == "rois":
            ctx.expect(_plain(x[k]) == _plain(y[k]), what + "-rois", x[k],
                       y[k])
        elif k == "style":
            ctx.expect(_plain(x[k]) == _plain(y[k]), what + "-style", x[k],
                       y[k])
        else:
            ctx.expect(x[k] == y[k], what + "-" + k.replace("_", "-"), x[k],
                       y[k])
    ctx.expect(a.get_config().get_name() == b.get_config().get_name(),
               what + "-config-name")
    f, g = a.get_fit_config(), b.get_fit_config()
    ctx.expect((f is None) == (g is None), what + "-fit-config", f, g)
    if f:
        ctx.expect(f.get_name() == g.get_name() and
                   list(f.get_pars()) == list(g.get_pars()) and
                   g._spectra_name == a.get_name(), what + "-fit-config",
                   f.get_name(), g.get_name(), list(g.get_pars()))
        for n in f.get_pars():
            _same_par(ctx, f.get_par(n), g.get_par(n),
                      what + "-fit-parameters")


def _plain(d):
    if isinstance(d, dict):
        return {str(k): _plain(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [_plain(v) for v in d]
    return d


DERIVED = {"b8_mc_x": "b8", "K42_mc": "K42", "Tl208_mix_smeared": "Tl208",
           "Bi214_mix": "Bi214", "B8_Solar_reco": "B8_Solar",
           "U238_reco_scaled_2.0": "U238"}   # what precedes mc, mix, reco


def _spectrum(ctx):
    rng = ctx.rng
    s = gen.spectrum(rng, num_decays=float(rng.choice(
        [1., 333.25, 1e7, rng.uniform(1e-3, 1e5)])))
    name = ["plain", "Te130_0n2b_mc_smeared", "with space", "d\u00e9sint",
            "U238-chain.v2"][rng.randint(5)]
    if rng.rand() < 0.5:
        s._name = name
    if rng.rand() < 0.2:
        s._background_name = None
        s._name = sorted(DERIVED)[rng.randint(len(DERIVED))]
    elif rng.rand() < 0.3:
        s.set_background_name("Other_mc_background")
        ctx.expect(s.get_background_name() == "Other_mc_background",
                   "background-name-set", s.get_background_name())
    if rng.rand() < 0.6:
        s.set_fit_config(_rate_config(rng, "sf%d" % rng.randint(9),
                                      s.get_name()))
    s._bipo = int(rng.randint(2))
    if rng.rand() < 0.3:
        s._raw_events = [0, 2 ** 31 + 7, 12345678901][rng.randint(3)]
    if rng.rand() < 0.5:
        s.set_style([{"color": str(rng.choice(["b", "#ff0000"])),
                      "label": "a label"}, {"color": "r"},
                     {"label": "no colour", "linestyle": "--"}, "b-", "g",
                     {"linewidth": 2.5, "alpha": 0},
                     {"color": "DarkSlateGray", "label": "Te130 2nu, %",
                      "Width": 1e-7}][rng.randint(7)])
        ctx.count("with-style")
    if rng.rand() < 0.5:
        for n, lo, hi, b in gen.geometry(s)[:rng.randint(1, 4)]:
            a = lo + (hi - lo) / b * rng.randint(b)
            s._rois[n] = {"low": a, "high": float(hi),
                          "efficiency": float(rng.uniform(0, 1))}
        ctx.count("with-rois")
    if rng.rand() < 0.3:
        s._data = numpy.where(rng.rand(*s._data.shape) < 0.1,
                              rng.choice([1e-300, 1e300, 0.1 + 0.2]),
                              s._data)
    if rng.rand() < 0.25:       # differences of spectra, negative weights
        s._data = s._data * numpy.where(rng.rand(*s._data.shape) < 0.3, -1.,
                                        1.)
        ctx.count("negative-contents")
    return s


def wl_spectra(ctx):
    rng = ctx.rng
    store = E("output.store")
    s = _spectrum(ctx)
    before = gen.snapshot(s)
    path = ctx.tmp() + "/a.hdf5"
    kw = [{}, {"append": True}, {"append": True, "overwrite": True},
          {"overwrite": True}][rng.randint(4)]
    store.dump(path, s, **kw)
    t = store.load(path)
    after = gen.snapshot(s)
    if before["background_name"] is None:
        # derived from the name when asked for
        before["background_name"] = DERIVED[s._name]
        ctx.count("background-name-derived")
    gen.same_snapshot(ctx, before, after, "input-unchanged")
    _same_spectrum(ctx, s, t, "stored")
    ctx.expect(t._location == path, "location", t._location)
    # again: nothing is lost in a second generation
    path2 = ctx.tmp() + "/b.hdf5"
    store.dump(path2, t)
    u = store.load(path2)
    _same_spectrum(ctx, t, u, "stored-again")
    ctx.expect(repr(gen.geometry(u)) == repr(gen.geometry(s)), "numbers-kept",
               gen.geometry(u), gen.geometry(s))
    # files written before there were bipo cuts, background names or fits
    h5py = __import__("h5py")
    import shutil
    lost = [k for k in ("bipo", "background_name", "fit_config_name",
                        "fit_config") if rng.rand() < 0.4]
    older = ctx.tmp() + "/c.hdf5"
    shutil.copy(path, older)
    with h5py.File(older, "a") as f:
        for k in list(lost):
            if k in f["spectrum"].attrs:
                del f["spectrum"].attrs[k]
            else:
                lost.remove(k)
    o = store.load(older)
    if any(k.startswith("fit_config") for k in lost):
        ctx.expect(o.get_fit_config() is None, "older-file-without-fit-config")
        ctx.count("older-files")
    if "bipo" in lost:
        ctx.expect(o.get_bipo() == 0, "older-file-without-bipo", o.get_bipo())
        ctx.count("older-files")
    if "background_name" in lost:
        ctx.expect(o._background_name is None,
                   "older-file-without-background-name", o._background_name)
        ctx.count("older-files")
    ctx.same(o._data, s._data, "older-file-contents")
    ctx.expect(repr(gen.geometry(o)) == repr(gen.geometry(s)) and
               o.get_name() == s.get_name() and
               o.get_num_decays() == s.get_num_decays() and
               o._raw_events == s._raw_events and o._rois == s._rois,
               "older-file", gen.geometry(o))
    # the loaded one is a working spectrum of its own
    n, lo, hi, b = gen.geometry(t)[0]
    vals = dict((m, l + 0.5 * (h - l) / k) for m, l, h, k in gen.geometry(t))
    t.fill(weight=2.5, **vals)
    s.fill(weight=2.5, **vals)
    ctx.same(t._data, s._data, "usable-after-loading")
    t.scale(t.get_num_decays() * 3.)
    s.scale(s.get_num_decays() * 3.)
    ctx.same(t._data, s._data, "usable-after-loading")
    t.rebin([1] * len(gen.geometry(t)))
    v = store.load(path)
    if before["background_name"] == v._background_name:
        gen.same_snapshot(ctx, gen.snapshot(u), gen.snapshot(v),
                          "file-unchanged")
    if s.get_fit_config():
        ctx.count("with-fit-config")
    ctx.count("spectra")
    ctx.sig(before["geometry"], before["data"], s.get_name())
    ctx.sample("%s %s %s" % (s.get_name(), before["geometry"],
                             before["num_decays"]))


def wl_files(ctx):
    """Histories of dumps into the same few files."""
    rng = ctx.rng
    store = E("output.store")
    h5py = __import__("h5py")
    M = E("fit.minimise")
    paths = [ctx.tmp() + "/%d.hdf5" % i for i in range(2)]
    model = {p: None for p in paths}    # file: {group: object}
    ops = []
    for step in range(12):
        p = paths[rng.randint(2)]
        what = ["spectrum", "spectrum", "fit_results"][rng.randint(3)]
        append = bool(rng.rand() < 0.6)
        if what == "spectrum":
            x = gen.spectrum(rng, gen.axes(rng, ndim=1))
            over = bool(rng.randint(2))
            if rng.rand() < 0.25:   # cannot be saved: has to leave all alone
                x._background_name, x._name = None, "plain"
                raw = {q: open(q, "rb").read() for q in paths
                       if os.path.exists(q)}
                ctx.raises(ValueError, lambda: store.dump(
                    p, x, append=append, overwrite=over), "no-background")
                ctx.expect(raw == {q: open(q, "rb").read() for q in paths
                                   if os.path.exists(q)},
                           "files-left-alone", p, append, over)
                ctx.count("nameless")
                continue
            ops.append((p[-6], what, append, over))
            clash = append and model[p] and what in model[p] and not over
            fn = lambda: store.dump(p, x, append=append, overwrite=over)
        else:
            cfg = _global_config(rng, max_cells=20)
            x = M.GridSearch(cfg, gen.config(gen.axes(rng, ndim=1)), "grid")
            x.set_stats(rng.uniform(0, 9., size=cfg.get_shape()))
            ops.append((p[-6], what, append))
            clash = append and model[p] and what in model[p]
            fn = lambda: store.dump_fit_results(p, x, append=append)
        ctx.log(ops[-1])
        if clash:
            ctx.raises((ValueError, RuntimeError), fn, "group-exists")
            ctx.count("clashes")
        else:
            fn()
            if not append or model[p] is None:
                model[p] = {}
            model[p][what] = x
            ctx.count("dumps")
            if append and len(model[p]) > 1:
                ctx.count("side-by-side")
        for q in paths:
            if model[q] is None:
                ctx.expect(not os.path.exists(q), "no-other-file", q)
                continue
            with h5py.File(q, "r") as f:
                ctx.expect(sorted(f.keys()) == sorted(model[q]),
                           "groups-in-file", q, sorted(f.keys()),
                           sorted(model[q]))
            if "spectrum" in model[q]:
                _same_spectrum(ctx, model[q]["spectrum"], store.load(q),
                               "latest")
            if "fit_results" in model[q]:
                r = store.load_fit_results(q)
                ctx.same(r.get_raw_stats(), model[q]["fit_results"]._stats,
                         "latest-results")
    ctx.raises((IOError, OSError), lambda: store.load(ctx.tmp() + "/none"),
               "missing-file")
    ctx.sig(ops)
    ctx.sample("%s" % ops)


def wl_old(ctx):
    """Files of the former layout and its dictionaries."""
    rng = ctx.rng
    store = E("output.store")
    h5py = __import__("h5py")
    s = gen.spectrum(rng)
    path = ctx.tmp() + "/old.hdf5"
    style = {"color": ["r", "0.75", "0"][rng.randint(3)],
             "width": int(rng.choice([0, 1, 4, 10, 100, -7])),
             "alpha": float(rng.choice([0.5, 1e-9, 1., 10., 2e15]))}
    rois = {"low": round(float(rng.uniform(-9, 9)), 3), "high": 7.5,
            "n": int(rng.choice([3, 20, 0, 1000]))}
    for d in (style, rois):
        txt = store.dict_to_string(d)
        ctx.expect(store.string_to_dict(txt) == d and
                   all(type(v) is type(d[k]) for k, v in
                       store.string_to_dict(txt).items()),
                   "old-dictionary", txt)
    ctx.raises(TypeError, lambda: store.dict_to_string({"a": [1]}),
               "old-unsupported")
    ctx.raises(TypeError, lambda: store.string_to_dict("a:1;list"),
               "old-unsupported")
    empty = bool(rng.randint(2))
    bipo = rng.rand() < 0.5
    axes = sorted(gen.geometry(s))
    data = gen.fill_array(rng, tuple(a[3] for a in axes))
    with h5py.File(path, "w") as f:
        f.attrs["name"] = s.get_name()
        f.attrs["num_decays"] = s.get_num_decays()
        f.attrs["raw_events"] = 7
        if bipo:
            f.attrs["bipo"] = 1
        for n, lo, hi, b in axes:
            f.attrs["pars:%s:low" % n] = lo
            f.attrs["pars:%s:high" % n] = hi
            f.attrs["pars:%s:bins" % n] = b
        f.attrs["style"] = "" if empty else store.dict_to_string(style)
        f.attrs["rois"] = "" if empty else store.dict_to_string(rois)
        f.create_dataset("data", data=data, compression="gzip")
    t = store.load(path)
    ctx.expect(t.get_name() == s.get_name() and t.get_num_decays() ==
               s.get_num_decays() and t._raw_events == 7 and
               t.get_bipo() == (1 if bipo else 0), "old-attributes")
    ctx.expect(gen.geometry(t) == axes, "old-axes", gen.geometry(t), axes)
    ctx.same(t._data, data, "old-contents")
    if not empty:
        ctx.expect(t.get_style() == style and t._rois == rois,
                   "old-dictionaries", t.get_style(), t._rois)
    ctx.count("old-files")
    ctx.sig(axes, data)
    ctx.sample("old file of %s" % axes)


# ------------------------------------------------------------- C27 results
def _same_global(ctx, c, d, what):
    ctx.expect(c.get_name() == d.get_name() and
               list(c.get_pars()) == list(d.get_pars()), what + "-config",
               list(c.get_pars()), list(d.get_pars()))
    for n in c.get_pars():
        _same_par(ctx, c.get_par(n), d.get_par(n), what + "-parameter")
    for f in ("get_global_pars", "get_spectra_pars"):
        ctx.expect([p.get_name() for p in getattr(c, f)()] ==
                   [p.get_name() for p in getattr(d, f)()],
                   what + "-groups")


def _grid(rng, cfg, spec, per_bin, name):
    M = E("fit.minimise")
    g = M.GridSearch(cfg, spec, name=name, per_bin=per_bin)
    shape = cfg.get_shape() + (spec.get_shape() if per_bin else ())
    g._stats = numpy.array(rng.uniform(0., 99., size=shape))
    g._penalty_terms = numpy.array(rng.uniform(0., 9., size=cfg.get_shape()))
    return g


def wl_fit_results(ctx):
    rng = ctx.rng
    store = E("output.store")
    empty = bool(rng.rand() < 0.15)
    cfg = _global_config(rng, empty)
    ax = gen.axes(rng, ndim=int(rng.randint(1, 4)))
    ax = [(n, lo, hi, int(rng.randint(1, 5))) for n, lo, hi, b in ax]
    spec = gen.config(ax, "a_config")
    per_bin = bool(rng.randint(2))
    g = _grid(rng, cfg, spec, per_bin, "some_results")
    for _ in range(rng.randint(3)):
        stats, pen = g._stats, g._penalty_terms
        g.reset_grids()
        ctx.expect(numpy.shape(g._stats) == stats.shape, "reset-shape")
        g._stats, g._penalty_terms = stats, pen
    if rng.rand() < 0.3:
        g._resets = int(rng.choice([9, 200, 70000]))
    path = ctx.tmp() + "/r.hdf5"
    store.dump_fit_results(path, g, **[{}, {"append": True},
                                       {"append": False}][rng.randint(3)])
    r = store.load_fit_results(path)
    for rnd in range(2):
        ctx.expect(r.get_name() == g.get_name(), "results-name",
                   r.get_name())
        ctx.same(r._stats, g._stats, "results-statistics")
        ctx.same(r._penalty_terms, g._penalty_terms, "results-penalties")
        ctx.expect(r._per_bin == per_bin, "results-per-bin", r._per_bin)
        ctx.expect(r.get_resets() == g.get_resets(), "results-resets")
        ctx.expect(r.get_spectra_config().get_name() == "a_config" and
                   [(n, p.get_low(), p.get_high(), p.get_bins()) for n, p in
                    ((n, r.get_spectra_config().get_par(n)) for n in
                     r.get_spectra_config().get_pars())] == ax,
                   "results-spectra-config")
        _same_global(ctx, cfg, r.get_fit_config(), "results")
        ctx.close(r.get_stats(), g.get_stats(), "results-totals")
        path = ctx.tmp() + "/again.hdf5"
        store.dump_fit_results(path, r)
        r = store.load_fit_results(path)
    r.reset_grids()
    ctx.expect(numpy.shape(r._stats) == numpy.shape(g._stats),
               "usable-after-loading")
    ctx.count("fit-results")
    ctx.count("per-bin" if per_bin else "total")
    if empty:
        ctx.count("no-parameters")
    ctx.sig(list(cfg.get_pars()), ax, g._stats)
    ctx.sample("fit results %s %s" % (list(cfg.get_pars()), ax))


def wl_limit_results(ctx):
    rng = ctx.rng
    store = E("output.store")
    R = E("fit.fit_results")
    empty = bool(rng.rand() < 0.2)
    cfg = _global_config(rng, empty, max_cells=40)
    ax = [(n, lo, hi, int(rng.randint(1, 4))) for n, lo, hi, b in
          gen.axes(rng, ndim=int(rng.randint(1, 4)))]
    spec = gen.config(ax, "a_config")
    lim = _rate_config(rng, "lim", "the_signal")
    n = lim.get_par("rate").get_bins()
    name = ["limit_name", "a.b c", "", "with/slash"][rng.randint(4)]
    res = R.LimitResults(cfg, spec, lim, name)
    np_ = len(cfg.get_pars())
    per_bin = bool(rng.rand() < 0.5)
    if rng.rand() < 0.8:
        res._penalty_terms = rng.uniform(0., 9., size=(n, np_))
    if rng.rand() < 0.8:
        res._best_fits = rng.uniform(-1., 9., size=(n, np_))
    if rng.rand() < 0.4:        # some, or all but one, exactly zero
        keep = rng.rand(n, np_) < rng.choice([0.2, 0.7])
        res._penalty_terms = numpy.where(keep, res._penalty_terms, 0.)
        res._best_fits = numpy.where(keep[::-1], res._best_fits, 0.)
        ctx.count("with-zeros")
    if rng.rand() < 0.25:       # signals so small that all is nearly zero
        res._penalty_terms = res._penalty_terms * 1e-12
        res._best_fits = res._best_fits * 1e-12
        ctx.count("tiny")
    res._stats = rng.uniform(-3., 9., size=(n,) + (
        spec.get_shape() if per_bin else ()))
    kept = {}
    if rng.rand() < 0.7:
        for i in range(n):
            if rng.rand() < 0.7:
                g = _grid(rng, cfg, spec, per_bin, "fit")
                g._resets = int(rng.choice([0, 1, 2, 300]))
                if rng.rand() < 0.2:
                    g._stats = numpy.zeros_like(g._stats)
                if rng.rand() < 0.2:
                    g._penalty_terms = numpy.zeros_like(g._penalty_terms)
                res.set_fit_result(i, g)
                kept[i] = g
        if kept:
            ctx.count("with-fits")
        if 0 < len(kept) < n:
            ctx.count("with-some-fits")
    path = ctx.tmp() + "/l.hdf5"
    store.dump_limit_results(path, res, **[{}, {"append": True},
                                           {"append": False}][rng.randint(3)])
    r = store.load_limit_results(path)
    ctx.expect(r.get_name() == name, "limit-name", r.get_name())
    ctx.same(r._stats, res._stats, "limit-statistics")
    ctx.same(r._penalty_terms, res._penalty_terms, "limit-penalties")
    ctx.same(r._best_fits, res._best_fits, "limit-best-fits")
    ctx.same(r.get_full_stats(), res.get_full_stats(), "limit-totals")
    ctx.same(r.get_scales(), res.get_scales(), "limit-scales")
    ctx.expect(r.get_spectra_config().get_name() == "a_config" and
               gen.E("core.config").SpectraConfig.dump(
                   r.get_spectra_config()) == spec.dump(),
               "limit-spectra-config")
    d = r._limit_config
    ctx.expect(d.get_name() == lim.get_name() and d._spectra_name ==
               "the_signal" and list(d.get_pars()) == list(lim.get_pars()),
               "limit-config")
    for p in lim.get_pars():
        _same_par(ctx, lim.get_par(p), d.get_par(p), "limit-config")
    ctx.expect(list(r.get_fit_config().get_pars()) == list(cfg.get_pars())
               and r.get_fit_config().get_name() == cfg.get_name(),
               "limit-fit-config")
    for i in range(n):
        x = r._fit_results[i]
        ctx.expect((x is not None) == (i in kept), "fits-in-their-place", i,
                   sorted(kept))
        if i not in kept:
            continue
        ctx.same(x._stats, kept[i]._stats, "stored-fit-statistics", i)
        ctx.same(x._penalty_terms, kept[i]._penalty_terms,
                 "stored-fit-penalties", i)
        ctx.expect(x._resets == kept[i]._resets and
                   x._per_bin == per_bin, "stored-fit-flags", i)
        for k, p in enumerate(cfg.get_pars()):
            ctx.expect(x.get_fit_config().get_par(p).get_best_fit() ==
                       res._best_fits[i, k], "stored-fit-best-fit", i, p)
    others = [r._fit_results[i] for i in sorted(kept)]
    if len(others) > 1 and np_:
        p = list(cfg.get_pars())[0]
        was = [o.get_fit_config().get_par(p).get_best_fit()
               for o in others[1:]]
        others[0].get_fit_config().get_par(p).set_best_fit(-123.)
        others[0]._stats += 1.
        ctx.expect(was == [o.get_fit_config().get_par(p).get_best_fit()
                           for o in others[1:]], "stored-fits-independent")
    # appended beside a spectrum, both stay
    s = gen.spectrum(rng, gen.axes(rng, ndim=1))
    both = ctx.tmp() + "/both.hdf5"
    store.dump(both, s)
    store.dump_limit_results(both, res, append=True)
    _same_spectrum(ctx, s, store.load(both), "beside")
    ctx.same(store.load_limit_results(both)._stats, res._stats, "beside")
    store.dump_limit_results(both, res)
    ctx.raises(Exception, lambda: store.load(both), "replaced-file")
    ctx.count("limit-results")
    ctx.count("rows" if per_bin else "numbers")
    if empty:
        ctx.count("no-parameters")
    ctx.sig(list(cfg.get_pars()), ax, res._stats)
    ctx.sample("limit results %s at %d scales" % (list(cfg.get_pars()), n))


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def wl_ndarray(ctx):
    rng = ctx.rng
    store = E("output.store")
    kw = {}
    for i in range(rng.randint(1, 7)):
        k = rng.randint(9)
        kw["a%d" % i] = [
            rng.uniform(size=(3, int(rng.randint(1, 5)))),
            rng.randint(0, 9, size=4), float(rng.uniform()),
            int(rng.randint(99)), "some text", None, bool(rng.randint(2)),
            [1.5, 2.5, float(i)], numpy.zeros((0, 3)[rng.randint(2):])][k]
        ctx.count("attribute:%d" % k)
    x = Thing(**kw)
    path = ctx.tmp() + "/x.hdf5"
    store.dump_ndarray(path, x)
    ctx.expect(set(x.__dict__) == set(kw), "object-unchanged")
    blank = {k: (numpy.zeros(1) if isinstance(v, numpy.ndarray) else "old")
             for k, v in kw.items()}
    blank["extra"] = 17
    blank["extra_array"] = numpy.ones(2)
    y = Thing(**blank)
    z = store.load_ndarray(path, y)
    ctx.expect(z is y, "the-object-itself")
    for k, v in kw.items():
        if v is None:
            ctx.expect(getattr(y, k) == "old", "missing-left-alone", k)
        elif isinstance(v, (numpy.ndarray, list)):
            ctx.same(getattr(y, k), v, "array-attribute", k)
        else:
            ctx.expect(getattr(y, k) == v, "attribute", k, getattr(y, k), v)
    ctx.expect(y.extra == 17 and (y.extra_array == 1).all(),
               "missing-left-alone")
    ctx.raises(AttributeError, lambda: store.dump_ndarray(
        ctx.tmp() + "/big.hdf5", Thing(text="x" * 70000)), "too-large")
    ctx.count("objects")
    ctx.sig(sorted((k, str(v)) for k, v in kw.items()))
    ctx.sample("object with %s" % sorted(kw))


PROPS = {
    "C26": Prop(
        "stored spectra",
        [("spectra", wl_spectra, 120, 8000), ("files", wl_files, 40, 2000),
         ("old", wl_old, 30, 1500)],
        "random spectra (axes, contents, fit configurations with and "
        "without results, regions, styles, names) through files twice, "
        "histories of dumps into shared files, and files of the former "
        "layout; distinct by contents",
        ["spectra", "with-fit-config", "with-rois", "older-files", "background-name-derived", "dumps", "clashes",
         "nameless", "side-by-side", "old-files"],
        ["hdf5 files are those of the stand-in in lib/fakes.py"]),
    "C27": Prop(
        "stored results",
        [("fit", wl_fit_results, 100, 6000),
         ("limit", wl_limit_results, 80, 5000),
         ("ndarray", wl_ndarray, 60, 3000)],
        "random fit and limit results (total and per bin, without "
        "parameters, with all, some or no fits kept) and objects of arrays; "
        "distinct by contents",
        ["fit-results", "limit-results", "with-fits", "with-some-fits",
         "per-bin", "total", "rows", "numbers", "no-parameters", "objects"],
        ["hdf5 files are those of the stand-in in lib/fakes.py"]),
}
