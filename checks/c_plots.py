"""Plots show the numbers they are made from."""
import numpy

import fakes
import gen
import py2load
from c_fit import _fit_config, _pars, _par
from gen import E
from mon import Prop


def _edges(lo, hi, bins):
    return numpy.linspace(lo, hi, bins + 1)


def _curve(ctx, hist, ax, want, kind, *what):
    """A drawn (edges, content, ...) has one value per bin of the axis."""
    _, lo, hi, bins = ax
    tol = 1e-9 * max(abs(lo), abs(hi), hi - lo)
    ctx.close(hist[0], _edges(lo, hi, bins), kind + "-edges", *what,
              rtol=1e-9, atol=tol)
    ctx.close(hist[1], want, kind + "-content", *what,
              # numpy.histogram takes differences of running sums
              atol=1e-9 + 1e-12 * numpy.abs(want).sum())


def _named(ctx, obj, kind, x=None, y=None):
    """The axes of something drawn with ROOT carry these names."""
    for axis, name in (("x", x), ("y", y)):
        if name is not None:
            title = fakes.axis_title(obj, axis)
            ctx.expect(name.lower() in title.lower(), kind + "-axis-name", axis, name, title)


def _unit(ctx, s, dim, label, kind):
    """The label names the dimension and its unit."""
    unit = {"energy": "MeV", "radial": "mm"}.get(dim.split("_")[0], "")
    ctx.expect(dim in label and unit in label, kind + "-axis-name", dim,
               label)


def _shown(ctx):
    """Whether to show the plot too (somebody presses return)."""
    py2load.PY2["raw_input"] = lambda *a: ""
    if ctx.rng.rand() < 0.75:
        return False
    ctx.count("shown")
    return True


def _spectrum(ctx, min_bins=1, ndim=None, same=None, name=None):
    rng = ctx.rng
    ax = gen.axes(rng, ndim=ndim) if same is None else same
    ax = [(n, lo, hi, max(b, min_bins)) for n, lo, hi, b in ax]
    s = gen.spectrum(rng, ax, name=name)
    if rng.rand() < 0.5:
        s.set_style({"color": str(rng.choice(["red", "b", "0.5"]))})
        if rng.rand() < 0.5:
            s._style["label"] = "styled %d" % rng.randint(100)
    elif rng.rand() < 0.3:      # no colour of its own
        s.set_style({} if rng.rand() < 0.5 else
                    {"label": "plain %d" % rng.randint(100)})
    return s, ax


def _sum(data, keep):
    return data.sum(axis=tuple(i for i in range(data.ndim) if i not in keep))


def wl_projection(ctx):
    rng = ctx.rng
    s, ax = _spectrum(ctx)
    before = gen.snapshot(s)
    data = s._data.copy()
    for _ in range(3):
        k = int(rng.randint(len(ax)))
        want = _sum(data, [k])
        kw = {} if rng.rand() < 0.5 else {"fig_num": int(rng.randint(1, 5))}
        fig = E("output.plot").plot_projection(s, ax[k][0], show_plot=_shown(ctx),
                                               **kw)
        hists = [h for a in fig.axes for h in a.hists]
        ctx.expect(len(hists) == 1, "one-histogram", len(hists))
        _curve(ctx, hists[0], ax[k], want, "projection", ax)
        labels = [str(args[0]) for a in fig.axes for n, args, _k in
                  a.called("set_xlabel")]
        _unit(ctx, s, ax[k][0], (labels or [""])[-1], "projection")
        if s.get_style().get("color"):
            ctx.expect(hists[0][2].get("color") == s.get_style()["color"],
                       "projection-style", hists[0][2])
        gen.same_snapshot(ctx, before, gen.snapshot(s), "plot-changed-input")
        kw = {} if rng.rand() < 0.5 else {"h_name": "h%d" % rng.randint(9)}
        h = E("output.plot_root").plot_projection(s, ax[k][0],
                                                  graphical=_shown(ctx), **kw)
        _curve(ctx, (_edges(h.low, h.high, h.bins), h.data[1:-1]), ax[k],
               want, "root-projection", ax)
        ctx.same(h.data[[0, -1]], [0., 0.], "root-projection-overflow")
        _named(ctx, h, "root-projection", ax[k][0])
        if kw:
            ctx.expect(h.name == kw["h_name"], "histogram-name", h.name)
        gen.same_snapshot(ctx, before, gen.snapshot(s), "plot-changed-input")
        ctx.count("projections")
    ctx.sig(ax, data)
    ctx.sample("projections of %s" % (ax,))


def wl_surface(ctx):
    rng = ctx.rng
    s, ax = _spectrum(ctx, ndim=int(rng.choice([2, 2, 3])))
    if rng.rand() < 0.1:
        s._data = numpy.zeros(s._data.shape)
        ctx.count("empty-surface")
    before = gen.snapshot(s)
    data = s._data.copy()
    for _ in range(2):
        i, j = [int(v) for v in rng.permutation(len(ax))[:2]]
        want = _sum(data, [i, j])
        if i > j:
            want = want.T                       # [bin of first, of second]
        kw = {} if rng.rand() < 0.7 else {"color_scheme": "jet"}
        fig = E("output.plot").plot_surface(s, ax[i][0], ax[j][0],
                                            show_plot=_shown(ctx), **kw)
        meshes = [(a, m) for a in fig.axes for m in a.meshes]
        ctx.expect(len(meshes) == 1, "one-mesh", len(meshes))
        a, (x, y, c, _) = meshes[0]
        labels = dict((n, str(args[0])) for n, args, _k in
                      a.called("set_xlabel", "set_ylabel"))
        # the drawing may have either dimension along x: its label decides
        first_x = labels.get("set_xlabel", "").startswith(ax[i][0])
        h, v = (i, j) if first_x else (j, i)
        ctx.expect(labels.get("set_xlabel", "").startswith(ax[h][0]) and
                   labels.get("set_ylabel", "").startswith(ax[v][0]),
                   "surface-labels", labels, ax[i], ax[j])
        _unit(ctx, s, ax[h][0], labels["set_xlabel"], "surface")
        _unit(ctx, s, ax[v][0], labels["set_ylabel"], "surface")
        for k, got in ((h, x[0]), (v, y[:, 0])):
            _, lo, hi, b = ax[k]
            ctx.close(got, _edges(lo, hi, b), "surface-edges", ax[k],
                      rtol=1e-9, atol=1e-9 * max(abs(lo), abs(hi)))
        ctx.close(c, want.T if first_x else want, "surface-content", ax[i],
                  ax[j])
        gen.same_snapshot(ctx, before, gen.snapshot(s), "plot-changed-input")
        kw = {} if rng.rand() < 0.5 else {"h_name": "h%d" % rng.randint(9)}
        t = E("output.plot_root").plot_surface(
            s, ax[i][0], ax[j][0], graphical=_shown(ctx), **kw)
        ctx.expect(t.name == kw.get("h_name", t.name), "histogram-name",
                   t.name, kw)
        ctx.expect((t.nx, t.ny) == want.shape and
                   t.x == ax[i][1:3] and t.y == ax[j][1:3],
                   "root-surface-axes", t.nx, t.ny, t.x, t.y, ax[i], ax[j])
        ctx.close(t.data[1:-1, 1:-1], want, "root-surface-content")
        _named(ctx, t, "root-surface", ax[i][0], ax[j][0])
        ctx.close(t.data.sum(), want.sum(), "root-surface-overflow")
        gen.same_snapshot(ctx, before, gen.snapshot(s), "plot-changed-input")
        ctx.count("surfaces")
        if i > j:
            ctx.count("swapped-surfaces")
    ctx.sig(ax, data)
    ctx.sample("surfaces of %s" % (ax,))


class Calculator(object):
    def __init__(self, v):
        self.v = v

    def get_chi_squared_per_bin(self):
        return self.v


def _family(ctx, typed):
    """Spectra that share one dimension, with what the plots are told."""
    rng = ctx.rng
    ax = gen.axes(rng)
    k = int(rng.randint(len(ax)))
    dim = ax[k][0]
    base = dim.rsplit("_", 1)[0]
    entries, axs = {}, []
    for i in range(int(rng.choice([1, 2, 3, 5]))):
        other = [a for a in gen.axes(rng, kinds=[0, 1, 2])
                 if not a[0].startswith(base + "_")]
        n = dim
        if typed:                       # each in its own kind of dimension
            n = base + "_" + str(rng.choice(gen.TYPES))
        mine = [(n,) + ax[k][1:]] + other[:2]
        mine = [mine[j] for j in rng.permutation(len(mine))]
        mine = [(m, lo, hi, b if m == n else min(b, 6))
                for m, lo, hi, b in mine]
        s, _ = _spectrum(ctx, same=mine, name="spec%d" % i)
        s.scale(float(rng.choice([1., 20., 300.])))
        e = {"spectra": s,
             "type": str(rng.choice(["background", "background", "signal"]))
             if rng.rand() < 0.9 else None}
        if e["type"] and rng.rand() < 0.5:      # text from elsewhere
            e["type"] = "".join(list(e["type"]))
        entries[s.get_name()] = e
        axs.append([m for m in mine if m[0] == n][0])
    return base if typed else dim, ax[k], entries, axs


def _project(s, base):
    dims = list(s.get_config().get_pars())
    k = [i for i, d in enumerate(dims)
         if d == base or d.rsplit("_", 1)[0] == base]
    return _sum(s._data, k)


def wl_spectral(ctx):
    rng = ctx.rng
    dim, ax, entries, _ = _family(ctx, False)
    plot = E("output.plot")
    want = []
    for e in entries.values():
        if rng.rand() < 0.6:
            e["label"] = "label %d" % rng.randint(1000)
        if rng.rand() < 0.4:
            e["color"] = str(rng.choice(["green", "magenta"]))
        s = e["spectra"]
        want.append((e.get("label") or s.get_style().get("label") or
                     s.get_name(),
                     e.get("color") or s.get_style().get("color"),
                     _project(s, dim)))
    curves = [c for _, _, c in want]
    back = sum([c for c, e in zip(curves, entries.values())
                if e["type"] == "background"], numpy.zeros(ax[3]))
    want.append(("Summed background", "any", back))
    want.append(("Sum", "any", sum(curves)))
    kw = {}
    if rng.rand() < 0.4:
        lim, _ = _spectrum(ctx, same=[ax], name="limit")
        kw["limit"] = lim
        want.append((lim.get_style().get("label") or "limit",
                     lim.get_style().get("color") or "any",
                     lim._data.copy()))
        ctx.count("limit-curves")
    if rng.rand() < 0.3:
        kw["log_y"] = True
    if rng.rand() < 0.3:
        kw["per_bin"] = bool(rng.randint(2))
    if rng.rand() < 0.3:
        kw["calculator"] = Calculator(rng.uniform(0., 5., size=ax[3]))
    if rng.rand() < 0.3:
        kw["title"] = "Title %d" % rng.randint(99)
        kw["text"] = ["line %d" % rng.randint(99) for _ in range(2)]
    before = [gen.snapshot(e["spectra"]) for e in entries.values()]
    fig = plot.spectral_plot(entries, dim, show_plot=_shown(ctx), **kw)
    hists = fig.axes[0].hists
    ctx.expect(len(hists) == len(want), "number-of-curves", len(hists),
               len(want))
    left = list(hists)
    for label, color, c in want:
        ok = [i for i, h in enumerate(left)
              if h[2].get("label") == label and h[1].shape == c.shape and
              numpy.allclose(h[1], c, rtol=1e-9,
                             # numpy.histogram takes differences of sums
                             atol=1e-9 + 1e-12 * abs(c).sum()) and
              (color == "any" or h[2].get("color") == color)]
        ctx.expect(ok, "curve", label, color, c,
                   [(h[2], h[1]) for h in left][:4])
        _curve(ctx, left[ok[0]], ax, c, "spectral", label)
        del left[ok[0]]
        ctx.count("curves")
    bands = fig.axes[0].bands
    if bands:
        x, lo, hi, _ = bands[0]
        ctx.close((lo + hi) / 2., back, "band-centre")
        ctx.close((hi - lo) / 2., numpy.sqrt(back), "band-width")
        e = _edges(*ax[1:])
        ctx.close(x, (e[1:] + e[:-1]) / 2., "band-positions", rtol=1e-9,
                  atol=1e-9 * max(abs(ax[1]), abs(ax[2])))
    if "calculator" in kw:
        per_bin = [h for a in fig.axes[1:] for h in a.hists]
        ctx.expect(len(per_bin) == 1, "chi-squared-panel", len(per_bin))
        _curve(ctx, per_bin[0], ax, kw["calculator"].v, "chi-squared-per-bin")
        ctx.count("chi-squared-panels")
        opts = {} if rng.rand() < 0.5 else {"h_name": "chi"}
        if rng.rand() < 0.5:
            opts["graphical"] = _shown(ctx)
        h = E("output.plot_root").plot_chi_squared_per_bin(
            kw["calculator"], ax[3], ax[1], ax[2], **opts)
        ctx.expect(h.name == opts.get("h_name", h.name), "histogram-name",
                   h.name)
        _curve(ctx, (_edges(h.low, h.high, h.bins), h.data[1:-1]), ax,
               kw["calculator"].v, "root-chi-squared-per-bin")
    if "title" in kw:
        for t in [kw["title"]] + kw["text"]:
            ctx.expect(t in fig.texts, "text", t, fig.texts)
    for b, e in zip(before, entries.values()):
        gen.same_snapshot(ctx, b, gen.snapshot(e["spectra"]),
                          "plot-changed-input")
    _refused(ctx, plot.spectral_plot, entries, dim, ax, dict(
        show_plot=_shown(ctx)))
    ctx.sig(dim, ax, *curves)
    ctx.sample("spectral plot of %d spectra in %s" % (len(curves), ax))


def _refused(ctx, fn, entries, dim, ax, kw):
    """Spectra with another axis are not drawn on this one."""
    rng = ctx.rng
    name, lo, hi, bins = ax
    how = rng.randint(3)
    ax2 = [(name, lo - 1., hi, bins), (name, lo, hi + 1., bins),
           (name, lo, hi, bins + 1)][how]
    odd = gen.spectrum(rng, [ax2], name="odd")
    more = dict(entries)
    more["odd"] = {"spectra": odd, "type": "background", "label": "odd",
                   "style": {"color": 2}}
    if rng.rand() < 0.5:                # first or last
        more = dict([("odd", more.pop("odd"))] + list(more.items()))
    ctx.raises(AssertionError, lambda: fn(more, dim, **kw), "other-axis", ax,
               ax2)
    ctx.count("refusals")


def wl_root_spectral(ctx):
    rng = ctx.rng
    base, ax, entries, _ = _family(ctx, True)
    plot = E("output.plot_root")
    want = []
    for i, e in enumerate(entries.values()):
        e["label"] = "label %d" % i
        e["style"] = {"color": int(rng.randint(1, 9))}
        want.append((e["label"], _project(e["spectra"], base)))
    curves = [c for _, c in want]
    back = sum([c for c, e in zip(curves, entries.values())
                if e["type"] == "background"], numpy.zeros(ax[3]))
    total = sum(curves)
    want += [("Background", back), ("Background + Signal", total)]
    kw = {}
    if rng.rand() < 0.4:
        lim = gen.spectrum(rng, [(base + "_mc",) + ax[1:]], name="limit")
        kw["limit"] = lim
        want.append((None, lim._data.copy()))
        ctx.count("root-limit-curves")
    if rng.rand() < 0.3:
        kw["log_y"] = True
    before = [gen.snapshot(e["spectra"]) for e in entries.values()]
    del fakes.DRAWN[:]
    plot.spectral_plot(entries, base, **kw)
    drawn = [d for d in fakes.DRAWN if isinstance(d, fakes.TH1)]
    legend = [e for d in fakes.DRAWN if isinstance(d, fakes.TLegend)
              for e in d.entries]
    ctx.expect(len(drawn) == len(want), "root-number-of-curves", len(drawn),
               len(want))
    # histograms of one name replace each other
    ctx.expect(len(set(d.name for d in drawn)) == len(drawn),
               "histogram-names", [d.name for d in drawn])
    ctx.expect(len(legend) == len(want), "root-legend", legend, len(want))
    for label, c in want:
        if label is None:               # whatever the limit is called
            objs = [o for o, n in legend if n not in
                    [w for w, _ in want if w]]
        else:
            objs = [o for o, n in legend if n == label]
        ctx.expect(len(objs) == 1, "root-legend-entry", label, legend)
        o = objs[0]
        ctx.expect(any(o is d for d in drawn), "root-not-drawn", label)
        _curve(ctx, (_edges(o.low, o.high, o.bins), o.data[1:-1]), ax, c,
               "root-spectral", label)
        if label in [e["label"] for e in entries.values()]:
            color = [e["style"]["color"] for e in entries.values()
                     if e["label"] == label][0]
            ctx.expect([c[1][0] for c in o.called("SetLineColor")][-1:] ==
                       [color], "root-color", label)
        ctx.count("root-curves")
    for b, e in zip(before, entries.values()):
        gen.same_snapshot(ctx, b, gen.snapshot(e["spectra"]),
                          "plot-changed-input")
    _refused(ctx, plot.spectral_plot, entries, base,
             (base + "_mc",) + ax[1:], {})
    del fakes.DRAWN[:]
    ctx.sig(base, ax, *curves)
    ctx.sample("ROOT spectral plot of %d spectra in %s" % (len(curves), ax))


def _line(ctx, lines, x, y, kind):
    """Exactly one of the lines goes through the points."""
    ok = [ln for ln in lines if ln[0].shape == x.shape and
          numpy.allclose(ln[0], x, rtol=1e-9, atol=1e-12 * abs(x).max()) and
          numpy.allclose(ln[1], y, rtol=1e-9, atol=1e-12)]
    ctx.expect(len(ok) == 1, kind, x, y, [ln[:2] for ln in lines][:3])
    ctx.count("lines")
    return ok[0]


def _on_grid(ctx, given, x, y, want, kind):
    """Every value is handed over with its (x, y); want[x index, y index]."""
    ctx.expect(len(given) == 1, kind + "-count", len(given))
    gx, gy, gz = given[0]
    ctx.expect(gx.shape == gy.shape == gz.shape and gz.size == want.size,
               kind + "-shape", gx.shape, gz.shape, want.shape)
    got = sorted(zip(gx.ravel(), gy.ravel(), gz.ravel()))
    ref = sorted((a, b, want[i, j]) for i, a in enumerate(x)
                 for j, b in enumerate(y))
    ctx.close(numpy.array(got), numpy.array(ref), kind, rtol=1e-9, atol=1e-9)
    ctx.count("maps-of-points")


def _saved(fig):
    return [c[1][0] for c in fig.called("savefig")]


class _Chi(object):
    def __init__(self, chi, counts):
        self._chi_squareds = numpy.array([chi, chi, counts])

    def get_chi_squareds(self):
        return self._chi_squareds


class _Analyser(object):
    """What was scanned: counts against values of a systematic."""

    def __init__(self, rng):
        self._name = "systematic %d" % rng.randint(99)
        nc, ns = int(rng.randint(2, 7)), int(rng.randint(2, 7))
        runs = int(rng.choice([1, 1, 3]))
        self._c = numpy.cumsum(rng.uniform(0.5, 5., size=nc))
        self._s = numpy.cumsum(rng.uniform(0.5, 5., size=ns)) - 3.
        self._chi = rng.uniform(0., 30., size=(nc, runs, ns))
        self._pref = rng.uniform(-3., 9., size=(nc, runs))
        self._min = rng.uniform(0., 9., size=(2, nc))
        self._penalty_values = numpy.array(
            [self._s, rng.uniform(0., 30., size=ns)])

    def get_actual_counts(self):
        return self._c

    def get_syst_values(self):
        return self._s

    def get_chi_squareds(self):
        return self._chi

    def get_preferred_values(self):
        return self._pref

    def get_minima(self):
        return self._min

    def arrays(self):
        return [v.copy() for k, v in sorted(self.__dict__.items())
                if isinstance(v, numpy.ndarray)]


def _says(ctx, fig, x, y, kind):
    """The axes carry the names of what is drawn along them."""
    for call, words in (("set_xlabel", x), ("set_ylabel", y)):
        labels = [str(args[0]).lower() for a in fig.axes
                  for _n, args, _k in a.called(call)]
        ctx.expect(labels and all(w in labels[-1] for w in words),
                   kind + "-axis-says", call, labels, words)


def wl_chi_squared(ctx):
    rng = ctx.rng
    plot = E("output.plot_chi_squared")
    n = int(rng.choice([1, 2, 6]))
    counts = numpy.cumsum(rng.uniform(0.5, 9., size=n))
    cfg = _Chi(rng.uniform(0., 30., size=n), counts)
    conv = E("calc.decay").DBIsotope(
        "Te130", 129.9062244, 127.603, 0.3408, 3.69e-14, 4.03,
        loading=float(rng.choice([0.003, 0.01])))
    kw, opt = {}, {}
    if rng.rand() < 0.5:
        opt["n_atoms"] = float(rng.choice([1e27, 3e28]))
        ctx.count("own-atoms")
    if rng.rand() < 0.5:
        opt["livetime"] = float(rng.choice([1., 3., 5.]))
    if rng.rand() < 0.4:
        kw["penalty"] = _Chi(rng.uniform(30., 60., size=n), counts)
    if rng.rand() < 0.4:
        kw["save_as"] = "plot%d" % rng.randint(99)
    how = int(rng.randint(3))
    x = counts
    if how == 1:
        kw.update(opt, effective_mass=True, converter=conv)
        x = numpy.array([conv.counts_to_eff_mass(c, **opt) for c in counts])
        ctx.count("against-mass")
    elif how == 2:
        kw.update(opt, half_life=True, converter=conv)
        x = numpy.array([1. / conv.counts_to_half_life(c, **opt)
                         for c in counts])
        ctx.count("against-half-life")
    before = [cfg._chi_squareds.copy()]
    fig = plot.chi_squared_vs_signal(cfg, **kw)
    _says(ctx, fig, [("count",), ("beta",), ("t_{1/2}",)][how], ("chi",),
          "chi-squared-line")
    lines = [ln for a in fig.axes for ln in a.lines]
    ctx.expect(len(lines) == 1 + ("penalty" in kw), "number-of-lines",
               len(lines))
    a = _line(ctx, lines, x, cfg._chi_squareds[0], "chi-squared-line")
    if "penalty" in kw:
        b = _line(ctx, lines, x, kw["penalty"]._chi_squareds[0],
                  "penalty-line")
        # told apart by what the legend calls them
        ctx.expect("no systematic" in a[3].get("label", "") and
                   "no systematic" not in b[3].get("label", "no systematic"),
                   "line-labels", a[3], b[3])
    ctx.expect(_saved(fig) == ([kw["save_as"] + ".png"] if "save_as" in kw
                               else []), "saved-as", _saved(fig), kw)
    ctx.same(cfg._chi_squareds, before[0], "plot-changed-input")
    for o in ({"half_life": True}, {"effective_mass": True}):
        ctx.raises(TypeError, lambda: plot.chi_squared_vs_signal(cfg, **o),
                   "no-converter", o)
    # scans of a systematic
    an = _Analyser(rng)
    c, s = an._c, an._s
    chi = an._chi.mean(axis=1)                      # [count, value]
    before = an.arrays()
    save = {} if rng.rand() < 0.5 else {"save_as": "out%d" % rng.randint(99)}

    def done(fig, ending):
        ctx.expect(_saved(fig) == ([save["save_as"] + ending] if save
                                   else []), "saved-as", _saved(fig), save)
        ctx.expect(an._name in fig.texts, "named", fig.texts)

    what = {}
    if rng.rand() < 0.5:
        what = {"preferred_values": bool(rng.randint(2)),
                "minima": bool(rng.randint(2))}
    fig = plot.chi_squared_map(an, **dict(what, **save))
    ax = fig.axes[0]
    _on_grid(ctx, ax.given, c, s, chi, "chi-squared-map")
    want = []
    if what.get("preferred_values", True):
        want.append((c, an._pref.mean(axis=1), "preferred-values"))
    if what.get("minima", True):
        want.append((an._min[0], an._min[1], "minima"))
    ctx.expect(len(ax.lines) == len(want), "number-of-lines", len(ax.lines),
               len(want))
    for w in want:
        _line(ctx, ax.lines, *w)
    done(fig, "_color_map.png")
    _says(ctx, fig, ("count",), ("systematic",), "chi-squared-map")
    fig = plot.chi_squared_map(an, contours=True, **save)
    _on_grid(ctx, [g for a in fig.axes for g in a.given], c, s, chi,
             "chi-squared-contours")
    done(fig, "_contour.png")
    _says(ctx, fig, ("count",), ("systematic",), "chi-squared-contours")
    fig = plot.penalty_vs_systematic(an, **save)
    lines = [ln for a in fig.axes for ln in a.lines]
    _line(ctx, lines, an._penalty_values[0], an._penalty_values[1],
          "penalty-vs-systematic")
    done(fig, ".png")
    _says(ctx, fig, ("systematic",), ("penalty",), "penalty-vs-systematic")
    none = _Chi(chi.min(axis=1) - rng.uniform(0.1, 5., size=len(c)), c)
    if rng.rand() < 0.5:            # below for some of the values only
        none._chi_squareds[0] = rng.uniform(0., 20., size=len(c))
        none._chi_squareds[0][0] = chi[0].max() - 1.
    fig = plot.turn_on(an, none, **save)
    _on_grid(ctx, [g for a in fig.axes for g in a.given], c, s,
             chi - none._chi_squareds[0][:, None], "turn-on")
    done(fig, "_turn_on.png")
    _says(ctx, fig, ("count",), ("systematic",), "turn-on")
    fig = plot.push_pull(an, **save)
    _on_grid(ctx, [g for a in fig.axes for g in a.given], c, s,
             2. * an._penalty_values[1][None, :] - chi, "push-pull")
    done(fig, "_push_pull.png")
    _says(ctx, fig, ("count",), ("systematic",), "push-pull")
    for a, b in zip(before, an.arrays()):
        ctx.same(a, b, "plot-changed-input")
    ctx.count("scans")
    ctx.sig(counts, c, s, chi)
    ctx.sample("chi squared of %d counts; scan %s" % (n, chi.shape))


def _graph(ctx, g, x, y, kind, xname=None, yname=None):
    _named(ctx, g, kind, xname, yname)
    gx, gy = g.xy()
    ctx.close(gx, x, kind + "-x")
    ctx.close(gy, y, kind + "-y")
    ctx.count("graphs")


def wl_limit_graphs(ctx):
    rng = ctx.rng
    R, C, P = E("fit.fit_results"), E("core.config"), E("core.parameter")
    plot = E("output.plot_root")
    cfg = _fit_config(rng, npar=int(rng.randint(1, 4)))
    for p in _pars(cfg):
        if p.get_sigma() is None:
            p.set_par(sigma=2.)
        elif rng.rand() < 0.1:
            p.set_par(sigma=float(rng.choice([1e-4, 1e5])))
    n = int(rng.choice([1, 2, 5, 9]))
    low = float(rng.choice([0., 1., 0.3]))
    rate = P.RateParameter("rate", low, None, low, low + 9., n)
    lim = C.SpectraFitConfig("lim", {"rate": rate}, "sig")
    res = R.LimitResults(cfg, gen.config(gen.axes(rng)), lim)
    stats = rng.uniform(0., 9., size=n)
    best = rng.uniform(-3., 30., size=(n, len(cfg.get_pars())))
    pen = rng.uniform(0., 5., size=best.shape)
    for i in range(n):
        res.set_limit_stat(i, stats[i])
        for k, p in enumerate(cfg.get_pars()):
            res.set_best_fit(i, best[i, k], p)
            res.set_penalty_term(i, pen[i, k], p)
    x = numpy.linspace(low, low + 9., n) if n > 1 else res.get_scales()
    for _ in range(2):
        _graph(ctx, plot.plot_stats_vs_scale(res, graphical=_shown(ctx)), x,
               stats + pen.sum(axis=1), "stats-vs-scale", "decays",
               "statistic")
        for k, (name, p) in enumerate(zip(cfg.get_pars(), _pars(cfg))):
            _graph(ctx, plot.plot_best_fit_vs_scale(res, name,
                                                    graphical=_shown(ctx)),
                   x, best[:, k], "best-fit-vs-scale", "decays", name)
            _graph(ctx, plot.plot_sigma_best_fit_vs_scale(
                res, name, graphical=_shown(ctx)), x,
                (best[:, k] - p.get_prior()) / p.get_sigma(),
                "sigma-vs-scale", "decays", name)
            _graph(ctx, plot.plot_penalty_term_vs_scale(
                res, name, graphical=_shown(ctx)), x, pen[:, k],
                "penalty-vs-scale", "decays", "penalty")
        ctx.same(res._best_fits, best, "results-changed")
        ctx.same(res._penalty_terms, pen, "results-changed")
        ctx.same(res._stats, stats, "results-changed")
    # counts against chi squared, half life and effective mass
    root = E("output.plot_chi_squared_root")

    class Config(object):
        _chi_squareds = [stats, None, x + 1.]
    _graph(ctx, root.chi_squared_vs_signal(Config()), x + 1., stats,
           "chi-squared-vs-signal", "counts", "chi")
    conv = E("calc.decay").DBIsotope(
        "Te130", 129.9062244, 127.603, 0.3408, 3.69e-14, 4.03,
        loading=float(rng.choice([0.003, 0.01])))
    _graph(ctx, root.chi_squared_vs_half_life(Config(), conv),
           [1. / conv.counts_to_half_life(v) for v in x + 1.], stats,
           "chi-squared-vs-half-life", "t_{1/2}", "chi")
    _graph(ctx, root.chi_squared_vs_mass(Config(), conv),
           [conv.counts_to_eff_mass(v) for v in x + 1.], stats,
           "chi-squared-vs-mass", "beta", "chi")
    ctx.sig(list(cfg.get_pars()), x, stats, best)
    ctx.sample("limit graphs %d scales %s" % (n, list(cfg.get_pars())))


def wl_fit_graphs(ctx):
    rng = ctx.rng
    M, plot = E("fit.minimise"), E("output.plot_root")
    cfg = _fit_config(rng, npar=int(rng.randint(1, 4)), max_cells=100)
    names, pars = list(cfg.get_pars()), _pars(cfg)
    grids = [numpy.array(p.get_values()) for p in pars]
    shape = tuple(len(v) for v in grids)
    per_bin = bool(rng.randint(2))
    ndim = int(rng.choice([1, 2]))
    ax = [(n, lo, hi, int(rng.randint(2, 6))) for n, lo, hi, b in
          gen.axes(rng, ndim=ndim)]
    spec = gen.config(ax, "spec")
    sshape = tuple(a[3] for a in ax)
    g = M.GridSearch(cfg, spec, name="grid", per_bin=per_bin)
    raw = rng.uniform(0., 9., size=shape + (sshape if per_bin else ()))
    pen = rng.uniform(0., 9., size=shape)
    g.set_stats(raw.copy())
    g.set_penalty_terms(pen.copy())
    tot = raw.reshape(shape + (-1,)).sum(axis=-1)

    def others(skip, pt):
        return dict((n, grids[i][pt[i]]) for i, n in enumerate(names)
                    if n not in skip)

    for _ in range(3):
        pt = tuple(int(rng.randint(b)) for b in shape)
        k = int(rng.randint(len(names)))
        at = pt[:k] + (slice(None),) + pt[k + 1:]
        _graph(ctx, plot.plot_raw_stats_vs_par_scale(
            g, names[k], graphical=_shown(ctx), **others([names[k]], pt)),
            grids[k], tot[at], "raw-stats-vs-par", names[k],
            "statistic")
        if len(names) == 1:
            _graph(ctx, plot.plot_stats_vs_par_scale(
                g, names[0], graphical=_shown(ctx)), grids[0], tot + pen,
                "stats-vs-par", names[0], "statistic")
            _graph(ctx, plot.plot_penalty_term_vs_par_scale(
                g, names[0], graphical=_shown(ctx)), grids[0], pen,
                "penalty-vs-par", names[0], "penalty")
        else:
            i, j = [int(v) for v in rng.permutation(len(names))[:2]]
            at = tuple(slice(None) if n in (i, j) else pt[n]
                       for n in range(len(names)))
            kw = others([names[i], names[j]], pt)
            for fn, ref, kind in (
                    (plot.plot_raw_stats_vs_pars, tot, "raw-stats-vs-pars"),
                    (plot.plot_stats_vs_pars, tot + pen, "stats-vs-pars")):
                want = ref[at] if i < j else ref[at].T
                h = fn(g, names[i], names[j], graphical=_shown(ctx), **kw)
                ctx.expect((h.nx, h.ny) == want.shape and
                           h.x == (pars[i].get_low(), pars[i].get_high()) and
                           h.y == (pars[j].get_low(), pars[j].get_high()),
                           kind + "-axes", h.nx, h.ny, h.x, h.y, names[i],
                           names[j])
                ctx.close(h.data[1:-1, 1:-1], want, kind)
                _named(ctx, h, kind, names[i], names[j])
                ctx.close(h.data.sum(), want.sum(), kind + "-overflow")
                ctx.count("maps")
                if i > j:
                    ctx.count("swapped-maps")
        if per_bin:
            fitted = bool(rng.randint(2))
            if fitted:
                for n, p, v in zip(names, grids, pt):
                    cfg.get_par(n).set_best_fit(p[v])
                    cfg.get_par(n).set_penalty_term(0.)
                kw = {}
            else:
                kw = dict(others([], pt), min_chisq=False)
            if ndim == 1:
                h = plot.plot_per_bin(g, graphical=_shown(ctx), x_dim=ax[0][0],
                                      **kw)
                _curve(ctx, (_edges(h.low, h.high, h.bins), h.data[1:-1]),
                       ax[0], raw[pt], "per-bin")
                _named(ctx, h, "per-bin", ax[0][0])
            else:
                i, j = [int(v) for v in rng.permutation(2)]
                h = plot.plot_per_bin(g, graphical=_shown(ctx), x_dim=ax[i][0],
                                      y_dim=ax[j][0], **kw)
                want = raw[pt] if i < j else raw[pt].T
                ctx.expect((h.nx, h.ny) == want.shape and
                           h.x == ax[i][1:3] and h.y == ax[j][1:3],
                           "per-bin-axes", h.nx, h.ny, ax)
                ctx.close(h.data[1:-1, 1:-1], want, "per-bin-map")
                _named(ctx, h, "per-bin-map", ax[i][0], ax[j][0])
            ctx.count("per-bin-plots")
            ctx.count("per-bin-at-best-fit" if fitted else "per-bin-at-values")
        ctx.same(g._stats, raw, "results-changed")
        ctx.same(g._penalty_terms, pen, "results-changed")
    ctx.sig(names, ax, raw)
    ctx.sample("fit graphs of %s in %s" % (names, ax))


PROPS = {
    "C33": Prop(
        "plots show the numbers they are made from",
        [("projection", wl_projection, 40, 1500),
         ("surface", wl_surface, 40, 1500),
         ("spectral", wl_spectral, 40, 1500),
         ("root-spectral", wl_root_spectral, 40, 1500),
         ("limit-graphs", wl_limit_graphs, 30, 1000),
         ("fit-graphs", wl_fit_graphs, 40, 1500),
         ("chi-squared", wl_chi_squared, 40, 1500)],
        "what is handed to matplotlib or ROOT for drawing is the "
        "corresponding sum over the contents of the spectra or the stored "
        "results, on the axis of its dimension; nothing plotted changes",
        ["projections", "surfaces", "swapped-surfaces", "empty-surface",
         "curves", "limit-curves", "chi-squared-panels", "refusals",
         "root-curves", "root-limit-curves", "graphs", "maps",
         "swapped-maps", "lines", "maps-of-points", "own-atoms",
         "against-mass", "against-half-life", "scans", "per-bin-at-best-fit", "per-bin-at-values"],
        ["matplotlib and ROOT are replaced by recording stand-ins"]),
}
