"""Histograms: filling, projecting, shrinking, rebinning, scaling, adding."""
import copy
import itertools

import numpy
from scipy.interpolate import InterpolatedUnivariateSpline

import gen
from gen import E
from mon import Prop


def _value(rng, low, high, bins):
    """A value for one axis and the class it belongs to."""
    w = (high - low) / bins
    c = rng.randint(12)
    k = int(rng.randint(0, bins + 1))
    if c < 4:
        return rng.uniform(low, high), "inside"
    if c == 4 and rng.rand() < 0.5:      # near, but clearly on one side
        e = gen.edge(low, high, bins, k, 0)
        return float(e + rng.choice([-1., 1.]) * w *
                     10. ** -rng.uniform(3., 8.)), "near-edge"
    if c == 4:
        return gen.edge(low, high, bins, k, rng.randint(4)), "edge"
    if c == 5:
        e = gen.edge(low, high, bins, k, 0)
        return float(numpy.nextafter(e, -1e300)), "below-edge"
    if c == 6:
        e = gen.edge(low, high, bins, k, 0)
        return float(numpy.nextafter(e, 1e300)), "above-edge"
    if c == 7:
        return low, "low"
    if c == 8:
        return float(numpy.nextafter(high, -1e300)), "last"
    if c == 9:
        return low + (min(k, bins - 1) + 0.5) * w, "centre"
    if c == 10:
        return high, "high"
    return float(rng.choice([low - w, high + w, low - 1e-6 * w, 1e30, -1e30,
                             float("nan"), float("inf"),
                             -float("inf")])), "outside"


# ------------------------------------------------------------------ C01 fill
def wl_fill(ctx):
    rng = ctx.rng
    s = gen.spectrum(rng)
    if rng.rand() < 0.5:
        s._data = numpy.zeros(s._data.shape)
    total = s.sum()
    accepted = 0
    for step in range(40):
        geo = gen.geometry(s)
        before = gen.snapshot(s)
        kwargs, classes = {}, []
        for n, lo, hi, b in geo:
            v, c = _value(rng, lo, hi, b)
            if rng.rand() < 0.6 and c in ("high", "outside"):
                v, c = rng.uniform(lo, hi), "inside"
            kwargs[n] = v
            classes.append(c)
        mode = rng.randint(14)
        weight = [None, 1.0, 2.5, 0., 1e-3, 7, -1.5, float(rng.rand()),
                  float(rng.uniform(1e3, 1e9)), 1e-17][rng.randint(10)]
        extra = None
        if mode == 0:
            extra = "missing"
            del kwargs[geo[rng.randint(len(geo))][0]]
        elif mode == 1:
            extra = "unknown"
            kwargs["nothing_mc"] = 1.
        items = list(kwargs.items())
        rng.shuffle(items)
        call = dict(items)
        for k in call:                      # numpy scalars are values too
            if rng.rand() < 0.2:
                call[k] = numpy.float64(call[k])
            elif rng.rand() < 0.3:
                call[k] = gen.whole(call[k])
        cells = None
        if extra is None:
            cells = [gen.candidates(float(call[n]), lo, hi, b)
                     for n, lo, hi, b in geo]
        ctx.log("fill", weight, call)

        def do():
            if weight is None:
                s.fill(**call)
            else:
                s.fill(weight, **call) if rng.rand() < 0.5 else \
                    s.fill(weight=weight, **call)
        if extra or any(c is None for c in cells):
            if extra:
                ctx.raises((Exception,), do, "bad-names-rejected", extra)
            else:
                ctx.raises((ValueError,), do, "out-of-range-rejected", call,
                           geo)
            gen.same_snapshot(ctx, before, gen.snapshot(s),
                              "rejected-fill-changes-nothing", call)
            ctx.count("rejected")
            continue
        do()
        w = 1.0 if weight is None else weight
        accepted += 1
        ctx.count("accepted")
        for c in classes:
            ctx.count("value:" + c)
        after = gen.snapshot(s)
        changed = numpy.argwhere(after["data"] != before["data"])
        if w == 0:
            ctx.expect(len(changed) == 0, "zero-weight", changed)
        elif len(changed) == 0 and any(
                before["data"][i] + w == before["data"][i]
                for i in itertools.product(*[sorted(c) for c in cells])):
            ctx.count("weight-below-rounding")
        else:
            ctx.expect(len(changed) == 1, "exactly-one-bin", call, geo,
                       "changed", changed)
            cell = tuple(int(i) for i in changed[0])
            ctx.expect(all(i in c for i, c in zip(cell, cells)),
                       "the-bin-of-the-value", call, geo, "filled", cell,
                       "expected", cells)
            ctx.expect(after["data"][cell] == before["data"][cell] + w,
                       "adds-the-weight", w, before["data"][cell],
                       after["data"][cell])
        total += w
        after["data"] = before["data"]
        gen.same_snapshot(ctx, before, after, "fill-touches-only-counts")
        if rng.rand() < 0.06:              # keep filling another binning
            _reshape(ctx, s)
            total = s.sum()
    ctx.close(s.sum(), total, "total-is-sum-of-weights", rtol=1e-9)
    ctx.sig(gen.geometry(s), s._data)
    ctx.sample("%d accepted fills into %s" % (accepted, gen.geometry(s)))


def _reshape(ctx, s):
    rng = ctx.rng
    geo = gen.geometry(s)
    if rng.rand() < 0.5:
        s.rebin(tuple(int(rng.choice(gen.divisors(b)))
                      for _, _, _, b in geo))
        ctx.count("rebinned")
    else:
        n, lo, hi, b = geo[rng.randint(len(geo))]
        i = rng.randint(0, b)
        j = rng.randint(i + 1, b + 1)
        s.shrink(**{n + "_low": gen.edge(lo, hi, b, i, 0),
                    n + "_high": gen.edge(lo, hi, b, j, 0)})
        ctx.count("shrunk")


def _signed(ctx, s, mixed=False):
    """Some spectra, e.g. residuals, hold negative contents: all of them,
    where ratios of totals are asked for, or some."""
    if ctx.rng.rand() < 0.1:
        d = s._data
        s._data = numpy.where(ctx.rng.rand(*d.shape) < 0.3, d, -d) \
            if mixed else -d
        ctx.count("negative-contents")


# ----------------------------------------------------------- C02 projections
def wl_project(ctx):
    rng = ctx.rng
    s = gen.spectrum(rng, gen.axes(rng, ndim=int(rng.choice([4, 5])))
                     if rng.rand() < 0.15 else None)
    if rng.rand() < 0.2:        # e.g. residuals
        s._data = s._data - s._data.mean()
        ctx.count("either-sign")
    _projections(ctx, s)
    for _ in range(2):      # nothing read before may be read again
        c = rng.randint(4)
        geo = gen.geometry(s)
        if c == 0:
            s.fill(weight=float(rng.uniform(1., 50.)),
                   **dict((n, lo + (rng.randint(b) + 0.5) * (hi - lo) / b)
                          for n, lo, hi, b in geo))
        elif c == 1:
            s.scale(s.get_num_decays() * float(rng.uniform(0.2, 5.)))
        elif c == 2:
            s._data *= rng.poisson(3., size=s._data.shape)
        else:
            _reshape(ctx, s)
        ctx.log("changed", c)
        ctx.count("changed:%d" % c)
        _projections(ctx, s)
    ctx.sig(gen.geometry(s), s._data)
    ctx.sample("projections of %s" % (gen.geometry(s),))


def _projections(ctx, s):
    rng = ctx.rng
    geo = gen.geometry(s)
    dims = [g[0] for g in geo]
    data = s.get_data().copy()
    before = gen.snapshot(s)
    ctx.close(s.sum(), float(data.sum()), "sum", rtol=1e-9,
              atol=1e-9 * (1. + numpy.abs(data).sum()))
    for i, d in enumerate(dims):
        want = numpy.array([data.take(j, axis=i).sum()
                            for j in range(data.shape[i])])
        got = s.project(d)
        ctx.close(got, want, "project", d, geo, rtol=1e-9,
                  atol=1e-9 * (1. + numpy.abs(data).sum()))
        got[...] = -1.
        gen.same_snapshot(ctx, before, gen.snapshot(s),
                          "projection-is-a-copy", d)
    for _ in range(4):
        k = rng.randint(1, len(dims) + 1)
        sel = [dims[i] for i in rng.permutation(len(dims))[:k]]
        drop = tuple(i for i, d in enumerate(dims) if d not in sel)
        want = numpy.apply_over_axes(numpy.sum, data, drop).reshape(
            [data.shape[i] for i, d in enumerate(dims) if d in sel]) \
            if drop else data
        got = s.nd_project(list(sel))
        ctx.close(got, want, "nd-project", sel, geo)
        ctx.close(got.sum(), data.sum(), "nd-project-conserves", sel,
                  rtol=1e-9, atol=1e-9 * (1. + numpy.abs(data).sum()))
        got[...] = -1.
        gen.same_snapshot(ctx, before, gen.snapshot(s),
                          "nd-projection-is-a-copy", sel)
        ctx.count("nd-project:%d-of-%d" % (k, len(dims)))
    if len(dims) > 1:
        i, j = [int(x) for x in rng.permutation(len(dims))[:2]]
        drop = tuple(k for k in range(len(dims)) if k not in (i, j))
        want = data.sum(axis=drop) if drop else data
        got = s.surface(dims[i], dims[j])
        ctx.close(got, want, "surface", dims[i], dims[j], geo)
        got[...] = -1.
        gen.same_snapshot(ctx, before, gen.snapshot(s), "surface-is-a-copy")
        ctx.count("surface")
    bad = "nothing_reco"
    ctx.raises((IndexError,), lambda: s.project(bad), "unknown-dimension")
    ctx.raises((IndexError,), lambda: s.nd_project([dims[0], bad]),
               "unknown-dimension")
    d = int(rng.randint(len(dims)))
    if data.shape[d] >= 5:
        k = int(rng.choice([1, 2, 3, 4, 5]))
        k = min(k, data.shape[d] - 1)
        f = s.interpolate1d(dims[d], k=k)
        name, lo, hi, b = geo[d]
        w = (hi - lo) / b
        x = lo + (numpy.arange(b) + 0.5) * w
        y = numpy.array([data.take(j, axis=d).sum()
                         for j in range(data.shape[d])])
        ctx.close(f(x), y, "interpolation-through-the-bin-centres",
                  rtol=1e-6, atol=1e-6 * (1. + abs(y).max()))
        mid = 0.5 * (x[1:] + x[:-1])
        ctx.close(f(mid), InterpolatedUnivariateSpline(x, y, k=k)(mid),
                  "interpolation-between-the-bin-centres", k,
                  rtol=1e-6, atol=1e-6 * (1. + abs(y).max()))
        ctx.count("interpolated")
        ctx.count("degree:%d" % k)
    gen.same_snapshot(ctx, before, gen.snapshot(s), "reading-changes-nothing")


# ------------------------------------------------- C03 shrink / cut / roi
def _inside(rng):
    """A position in a bin; 1% from the edges counts as on the edge."""
    return rng.uniform(*[(0.015, 0.985), (0.015, 0.05),
                         (0.95, 0.985)][rng.randint(3)])


def _window(rng, lo, hi, b):
    """Bounds to ask for: (low or None, high or None, first, last, class)."""
    w = (hi - lo) / b
    i = int(rng.randint(0, b))
    j = int(rng.randint(i + 1, b + 1))
    low = high = None
    cls = []
    if rng.rand() < 0.85:
        if rng.rand() < 0.6:
            low = gen.edge(lo, hi, b, i, rng.randint(4))
            cls.append("low-edge")
        else:
            low = lo + (i + _inside(rng)) * w
            cls.append("low-inside")
    else:
        i = 0
    if rng.rand() < 0.85 or low is None:
        if rng.rand() < 0.6:
            high = gen.edge(lo, hi, b, j, rng.randint(4))
            cls.append("high-edge")
        else:
            f = _inside(rng)
            if j - 1 == i and low is not None and cls[0] == "low-inside":
                f = max(rng.uniform((low - lo) / w - i, 0.985), 0.015)
            high = lo + (j - 1 + f) * w
            cls.append("high-inside")
    else:
        j = b
    if low is not None and high is not None and not low < high:
        high = gen.edge(lo, hi, b, j, 0)
    return low, high, i, j, cls


def _geometry(ctx, s, kind):
    """What the axes of a spectrum report is one consistent story."""
    cfg = s.get_config()
    ctx.expect(tuple(cfg.get_shape()) == s.get_data().shape, kind + "-shape",
               cfg.get_shape(), s.get_data().shape)
    for n, lo, hi, b in gen.geometry(s):
        p = cfg.get_par(n)
        w = (hi - lo) / b
        tol = 1e-7 * w + 1e-12 * max(abs(lo), abs(hi))
        ctx.close(p.get_width(), w, kind + "-width", n, (lo, hi, b),
                  rtol=1e-9, atol=0.)
        edges = lo + numpy.arange(b + 1) * w
        ctx.close(p.get_bin_boundaries(), edges, kind + "-boundaries", n,
                  rtol=0., atol=tol)
        ctx.close(p.get_bin_centres(), 0.5 * (edges[1:] + edges[:-1]),
                  kind + "-centres", n, rtol=0., atol=tol)
        k = int(ctx.rng.randint(b))
        ctx.close(p.get_bin_centre(k), edges[k] + 0.5 * w, kind + "-centre",
                  n, rtol=0., atol=tol)
        ctx.expect(p.get_bin(lo + (k + 0.5) * w) == k, kind + "-bin", n, k)
        ctx.close(p.round(edges[k] + 0.4 * w), edges[k], kind + "-round", n,
                  rtol=0., atol=tol)


def _after_shrink(ctx, s, before, sel, kind):
    """sel: {name: (first bin, last bin)} of the old binning."""
    data = before["data"]
    sl = []
    for (n, lo, hi, b), (n2, lo2, hi2, b2) in zip(before["geometry"],
                                                  gen.geometry(s)):
        i, j = sel.get(n, (0, b))
        w = (hi - lo) / b
        ctx.expect(n == n2, kind + "-keeps-dimensions", n, n2)
        ctx.expect(b2 == j - i, kind + "-number-of-bins", n, "bins", b2,
                   "expected", j - i, "of", (lo, hi, b))
        ctx.close(lo2, lo + i * w, kind + "-low", n, atol=1e-6 * w)
        ctx.close(hi2, lo + j * w, kind + "-high", n, atol=1e-6 * w)
        sl.append(slice(i, j))
    ctx.same(s.get_data(), data[tuple(sl)], kind + "-keeps-the-counts", sel)
    _geometry(ctx, s, kind)


def _reject_shrink(ctx, s):
    rng = ctx.rng
    before = gen.snapshot(s)
    n, lo, hi, b = before["geometry"][rng.randint(len(before["geometry"]))]
    w = (hi - lo) / b
    span = max(abs(lo), abs(hi), hi - lo)
    c = rng.randint(6)
    good = {}
    if len(before["geometry"]) > 1:     # a valid request for another axis
        m = [g for g in before["geometry"] if g[0] != n][0]
        good = {m[0] + "_low": gen.edge(m[1], m[2], m[3], m[3] - 1, 0)}
    if c == 0:
        bad, exc = {n + "_low": lo - max(w, 0.01 * span)}, ValueError
    elif c == 1:
        bad, exc = {n + "_high": hi + max(w, 0.01 * span)}, ValueError
    elif c == 2:
        bad, exc = {"nothing_mc_low": lo}, IndexError
    elif c == 3:
        bad, exc = {n + "_middle": lo}, IndexError
    elif c == 4:
        i = int(rng.randint(b))         # nothing lies between the bounds
        j = int(rng.randint(i + 1))
        bad, exc = {n + "_low": lo + i * w, n + "_high": lo + j * w}, \
            ValueError
        if rng.rand() < 0.5 and i > j + 1:
            bad[n + "_low"] -= 0.3 * w
            bad[n + "_high"] += 0.3 * w
        ctx.count("nothing-between")
    else:
        bad, exc = {n: lo}, IndexError
    items = list(good.items()) + list(bad.items())
    if rng.rand() < 0.5:
        items.reverse()
    call = dict(items)
    fn = s.cut if rng.rand() < 0.3 else s.shrink
    ctx.raises((exc,), lambda: fn(**call), "invalid-shrink-rejected", call,
               before["geometry"])
    gen.same_snapshot(ctx, before, gen.snapshot(s),
                      "rejected-shrink-changes-nothing", call)
    ctx.count("rejected")


def wl_shrink(ctx):
    rng = ctx.rng
    s = gen.spectrum(rng)
    if rng.rand() < 0.1:                # bins narrow against their position
        lo, b = float(rng.choice([5000., -6000., 1234.5])), int(
            rng.choice([50, 300]))
        s = gen.spectrum(rng, [
            ("radial_mc", lo, lo + b * float(rng.choice([0.03, 1., 0.5])),
             b)])
        ctx.count("narrow-bins")
    if rng.rand() < 0.05:
        s._data[...] = 0.
    _signed(ctx, s)
    geo0 = gen.geometry(s)
    for step in range(int(rng.randint(1, 5))):
        if rng.rand() < 0.4:
            _reject_shrink(ctx, s)
        before = gen.snapshot(s)
        kind = ["shrink", "cut", "roi"][rng.randint(3)]
        call, sel = {}, {}
        geo = before["geometry"]
        which = [geo[i] for i in rng.permutation(len(geo))
                 [:rng.randint(1, len(geo) + 1)]]
        if kind == "roi":
            which = which[:1]
        for n, lo, hi, b in which:
            low, high, i, j, cls = _window(rng, lo, hi, b)
            if kind == "roi":
                if low is None:
                    low, i = lo, 0
                if high is None:
                    high, j = hi, b
            # rounding may put a bound of the axis just outside of it
            if low is not None and i == 0 and rng.rand() < 0.3:
                low = lo - rng.uniform(0., 0.9) * 1e-5 * abs(lo)
                ctx.count("just-outside")
            if high is not None and j == b and rng.rand() < 0.3:
                high = hi + rng.uniform(0., 0.9) * 1e-5 * abs(hi)
                ctx.count("just-outside")
            if low is not None:
                call[n + "_low"] = low
            if high is not None:
                call[n + "_high"] = high
            sel[n] = (i, j)
            for c in cls:
                ctx.count(c)
        if rng.rand() < 0.3:
            call = dict((key, gen.whole(v)) for key, v in call.items())
        ctx.log(kind, call, geo)
        if kind == "roi":
            n = which[0][0]
            s.shrink_to_roi(call[n + "_low"], call[n + "_high"], n)
        else:
            getattr(s, kind)(**call)
        _after_shrink(ctx, s, before, sel, kind)
        full, part = before["data"].sum(), s.get_data().sum()
        if kind == "cut" and full != 0:
            ctx.close(s.get_num_decays(),
                      before["num_decays"] * part / full,
                      "cut-scales-the-decays", rtol=1e-9)
        else:
            ctx.expect(s.get_num_decays() == before["num_decays"],
                       "shrink-keeps-the-decays", kind, s.get_num_decays())
        if kind == "roi":
            roi = s.get_roi(n)
            name, lo2, hi2, b2 = [g for g in gen.geometry(s)
                                  if g[0] == n][0]
            ctx.expect(roi["low"] == lo2 and roi["high"] == hi2,
                       "roi-bounds", roi, lo2, hi2)
            ctx.close(roi["efficiency"], part / full if full else 0.,
                      "roi-efficiency")
            for m in before["rois"]:
                if m != n:
                    ctx.expect(s.get_roi(m) == before["rois"][m],
                               "other-rois-kept", m)
        else:
            ctx.expect(s._rois == before["rois"], "shrink-keeps-rois")
        ctx.expect(s._raw_events == before["raw_events"] and
                   s.get_name() == before["name"], "shrink-keeps-identity")
        ctx.count(kind)
        if s.get_num_decays() > 0. and rng.rand() < 0.3:
            d, nd = s.get_data().copy(), s.get_num_decays()
            new = float(rng.uniform(0.5, 2.) * nd)
            s.scale(new)
            ctx.close(s.get_data(), d * (new / nd),
                      "scales-by-the-full-spectrum")
    ctx.sig(geo0, gen.geometry(s), s._data)
    ctx.sample("%s -> %s" % (geo0, gen.geometry(s)))


# ----------------------------------------------------------------- C04 rebin
def wl_rebin(ctx):
    rng = ctx.rng
    s = gen.spectrum(rng)
    _signed(ctx, s, mixed=True)
    geo0 = gen.geometry(s)
    for step in range(4):
        before = gen.snapshot(s)
        geo = before["geometry"]
        if rng.rand() < 0.35:
            new = [int(rng.choice(gen.divisors(b))) for _, _, _, b in geo]
            k = int(rng.randint(len(geo)))
            b = geo[k][3]
            bad = [x for x in range(1, b + 5) if b % x] + [-1, -b]
            if bad and rng.rand() < 0.7:
                new[k] = int(rng.choice(bad))
            elif rng.rand() < 0.5:
                new = new + [1]
            else:
                new = new[:-1]
            ctx.raises((ValueError,), lambda: s.rebin(tuple(new)),
                       "invalid-rebin-rejected", new, geo)
            gen.same_snapshot(ctx, before, gen.snapshot(s),
                              "rejected-rebin-changes-nothing", new, geo)
            ctx.count("rejected")
            continue
        new = tuple(int(rng.choice(gen.divisors(b))) for _, _, _, b in geo)
        ctx.log("rebin", new, geo)
        s.rebin(new if rng.rand() < 0.5 else list(new))
        ctx.close(s.get_data(), gen.block_sum(before["data"], new),
                  "merges-neighbours", new, geo)
        ctx.expect([g[:3] for g in gen.geometry(s)] == [g[:3] for g in geo],
                   "keeps-the-bounds")
        ctx.expect(tuple(g[3] for g in gen.geometry(s)) == new,
                   "config-follows", gen.geometry(s), new)
        _geometry(ctx, s, "rebin")
        after = gen.snapshot(s)
        after["data"], after["geometry"] = before["data"], geo
        gen.same_snapshot(ctx, before, after, "rebin-keeps-identity")
        ctx.count("rebin")
        if new != tuple(g[3] for g in geo):
            ctx.count("coarser")
    ctx.sig(geo0, gen.geometry(s), s._data)
    ctx.sample("%s -> %s" % (geo0, gen.geometry(s)))


# ----------------------------------------------------------------- C05 scale
def wl_scale(ctx):
    rng = ctx.rng
    s = gen.spectrum(rng)
    _signed(ctx, s)
    if rng.rand() < 0.3:
        n, lo, hi, b = gen.geometry(s)[0]
        s.shrink_to_roi(lo, hi, n)
        ctx.count("with-region")
    d0, n0 = s.get_data().copy(), s.get_num_decays()
    before = gen.snapshot(s)
    geo = before["geometry"]
    seq = []
    other = copy.deepcopy(s)
    ob = gen.snapshot(other)
    for step in range(int(rng.randint(1, 7))):
        n = [lambda: float(rng.uniform(0.01, 10.)),
             lambda: int(rng.randint(1, 1000)),
             lambda: float(10. ** rng.randint(-12, 20)),
             lambda: s.get_num_decays() * (1. + [0., 1e-6, -3e-7][
                     rng.randint(3)]),
             lambda: numpy.float64(rng.uniform(1, 1e6)),
             lambda: 3, lambda: numpy.int64(7)][rng.randint(7)]()
        seq.append(n)
        ctx.log("scale", n)
        s.scale(n)
        ctx.close(s.get_data(), d0 * (float(n) / n0), "linear-in-the-decays",
                  seq, rtol=1e-9, atol=0.)
        ctx.expect(s.get_num_decays() == float(n) and
                   isinstance(s.get_num_decays(), float),
                   "represents-the-decays", s.get_num_decays(), n)
        after = gen.snapshot(s)
        after["data"], after["num_decays"] = before["data"], n0
        gen.same_snapshot(ctx, before, after, "scale-keeps-everything-else")
        ctx.count("scale")
        if rng.rand() < 0.2:
            i = geo[rng.randint(len(geo))]
            v = dict((g[0], g[1] + 0.5 * (g[2] - g[1])) for g in geo)
            w = float(rng.uniform(0.1, 5.))
            s.fill(w, **v)
            d0 = s.get_data().copy()
            n0 = s.get_num_decays()
            before = gen.snapshot(s)
            ctx.count("fill-between")
    if rng.rand() < 0.2:
        s.scale(0.)
        ctx.same(s.get_data(), numpy.zeros(d0.shape), "scale-to-nothing")
        ctx.expect(s.get_num_decays() == 0., "represents-the-decays", 0.)
    gen.same_snapshot(ctx, ob, gen.snapshot(other), "copies-are-independent")
    ctx.sig(geo, d0, seq)
    ctx.sample("scale %s of %s" % (seq, geo))


# ------------------------------------------------------------------- C06 add
def _partner(rng, geo, permute=True, retype=True):
    order = rng.permutation(len(geo)) if permute else range(len(geo))
    ax, perm = [], []
    for i in order:
        n, lo, hi, b = geo[i]
        if retype and rng.rand() < 0.4:
            n = n.rsplit("_", 1)[0] + "_" + str(rng.choice(gen.TYPES))
        ax.append((n, lo, hi, b))
        perm.append(int(i))
    return ax, perm


def wl_add(ctx):
    rng = ctx.rng
    ax = gen.axes(rng)
    if rng.rand() < 0.4 and len(ax) > 1:      # equal sizes: order matters
        b = ax[0][3]
        ax = [(n, lo, hi, b) for n, lo, hi, _ in ax]
    a = gen.spectrum(rng, ax)
    for step in range(4):
        before = gen.snapshot(a)
        geo = before["geometry"]
        if rng.rand() < 0.35:
            bx, perm = _partner(rng, geo, permute=rng.rand() < 0.3)
            k = int(rng.randint(len(bx)))
            n, lo, hi, b = bx[k]
            c = rng.randint(6)
            span = max(abs(lo), abs(hi), hi - lo)
            off = float(rng.choice([0.05, 0.004, -0.004, 2e-4,
                                    -2e-4])) * span
            if c == 0:
                bx[k] = (n, lo, hi + off, b)
            elif c == 1:
                bx[k] = (n, lo - off, hi, b)
            elif c == 2:
                bx[k] = (n, lo, hi, b + 1)
            elif c == 3:
                bx[k] = ("other_mc", lo, hi, b)
            elif c == 4 and len(geo) > 1:
                # the same shape, but bins of other dimensions
                g = list(geo)
                bins = [x[3] for x in g]
                bx = [x[:3] + (y,) for x, y in
                      zip(g[1:] + g[:1], bins)]
                if len(set(bins)) > 1:
                    ctx.count("same-shape-rejected")
                else:
                    bx[0] = bx[0][:3] + (bx[0][3] + 1,)
            else:
                bx.append(("extra_mc", 0., 1., 2))
            other = gen.spectrum(rng, bx)
            ob = gen.snapshot(other)
            ctx.raises((ValueError, IndexError), lambda: a.add(other),
                       "incompatible-rejected", geo, bx)
            gen.same_snapshot(ctx, before, gen.snapshot(a),
                              "rejected-add-changes-nothing", geo, bx)
            gen.same_snapshot(ctx, ob, gen.snapshot(other),
                              "rejected-add-changes-nothing", geo, bx)
            ctx.count("rejected")
            continue
        bx, perm = _partner(rng, geo)
        other = gen.spectrum(rng, bx)
        if rng.rand() < 0.15:           # contents without known decays
            other._num_decays = 0.
            ctx.count("no-decays")
        for x in (a, other):
            if rng.rand() < 0.3:
                m = gen.geometry(x)[rng.randint(len(bx))]
                x._rois[m[0]] = {"low": m[1], "high": m[2],
                                 "efficiency": rng.rand()}
        before = gen.snapshot(a)
        if rng.rand() < 0.1:
            other = a
            perm = list(range(len(geo)))
        ob = gen.snapshot(other)
        try:
            a.add(other)
        except ValueError:
            # transposing can make the shapes differ, which is rejected
            ctx.expect(ob["data"].shape != before["data"].shape,
                       "compatible-accepted", geo, bx)
            gen.same_snapshot(ctx, before, gen.snapshot(a),
                              "rejected-add-changes-nothing", geo, bx)
            ctx.count("reordered-rejected")
            continue
        inv = numpy.argsort(perm)
        want = before["data"] + ob["data"].transpose(inv)
        ctx.same(a.get_data(), want, "adds-bin-by-bin", geo, bx)
        ctx.expect(a.get_num_decays() == before["num_decays"] +
                   ob["num_decays"], "adds-decays", a.get_num_decays())
        ctx.expect(a._raw_events == before["raw_events"] + ob["raw_events"],
                   "adds-raw-events", a._raw_events)
        ctx.expect(gen.geometry(a) == geo, "add-keeps-the-binning")
        after = gen.snapshot(a)
        for key in ("data", "num_decays", "raw_events"):
            after[key] = before[key]
        gen.same_snapshot(ctx, before, after, "add-keeps-identity")
        if other is not a:
            gen.same_snapshot(ctx, ob, gen.snapshot(other),
                              "add-leaves-its-argument")
            other._data += 1.
            ctx.same(a.get_data(), want, "sum-is-independent")
        ctx.count("added")
        if perm != sorted(perm):
            ctx.count("reordered")
    ctx.sig(gen.geometry(a), a._data)
    ctx.sample("sums on %s" % (gen.geometry(a),))


# -------------------------------------------------------------- C07 binning
def wl_axis(ctx):
    rng = ctx.rng
    P = E("core.parameter").SpectraParameter
    ax = gen.axes(rng)
    cfg = gen.config(ax, "cfg")
    names = [a[0] for a in ax]
    for rnd in range(3):
        ctx.expect(list(cfg.get_pars()) == names, "order", cfg.get_pars())
        ctx.expect(tuple(cfg.get_shape()) == tuple(a[3] for a in ax),
                   "shape", cfg.get_shape(), ax)
        for i, (n, lo, hi, b) in enumerate(ax):
            p = cfg.get_par(n)
            ctx.expect(cfg.get_index(n) == i and
                       cfg.get_par_by_index(i) is p and p.get_name() == n,
                       "index", n, i)
            ctx.expect(cfg.get_dim(n) == n.rsplit("_", 1)[0] and
                       cfg.get_dim_type(n.rsplit("_", 1)[0]) ==
                       n.rsplit("_", 1)[1], "dimension-and-type", n)
            ctx.expect((p.get_low(), p.get_high(), p.get_bins()) ==
                       (lo, hi, b), "bounds", n, (lo, hi, b))
            for quantity, unit in (("energy", "MeV"), ("radial", "mm")):
                q = P(n.replace(n.split("_")[0], quantity, 1), lo, hi, b)
                ctx.expect(q.get_unit() == unit, "unit", quantity,
                           q.get_unit())
            ctx.expect(P("radial3_mc", lo, hi, b).get_unit() not in
                       ("mm", "MeV"), "unit", "of the cubed radius")
            ctx.expect(p.get_type() == "spectra", "type", p.get_type())
            plain = E("core.parameter").Parameter(
                "any", n, gen.whole(lo), gen.whole(hi), b)
            if hi - lo > 3.:        # whole numbers on whole axes
                x = int(numpy.ceil(lo)) + int(rng.randint(0, 2))
                for q in (p, plain):
                    ctx.expect(q.get_bin(x) in gen.candidates(
                        float(x), lo, hi, b), "bin-of-whole-number", n, x,
                        (lo, hi, b), q.get_bin(x))
                ctx.count("whole-numbers")
            k = int(rng.randint(b))
            ctx.expect(plain.get_bin(lo + (hi - lo) * (k + rng.uniform(
                0.01, 0.99)) / b) == k, "bin-of-plain-parameter", n, k)
            w = (hi - lo) / b
            tol = 1e-7 * w + 1e-12 * max(abs(lo), abs(hi))
            ctx.close(p.get_width(), w, "width", rtol=1e-12, atol=0.)
            edges = numpy.array([lo + (hi - lo) * k / float(b)
                                 for k in range(b + 1)])
            ctx.close(p.get_bin_boundaries(), edges, "boundaries", n,
                      rtol=0., atol=tol)
            ctx.close(p.get_bin_centres(), 0.5 * (edges[1:] + edges[:-1]),
                      "centres", n, (lo, hi, b), rtol=0., atol=tol)
            k = int(rng.randint(b))
            ctx.close(p.get_bin_centre(k), 0.5 * (edges[k] + edges[k + 1]),
                      "centre", rtol=0., atol=tol)
            ctx.close(p.get_bin_centre(numpy.int64(k)),
                      0.5 * (edges[k] + edges[k + 1]), "centre", rtol=0.,
                      atol=tol)
            ctx.raises((ValueError,), lambda: p.get_bin_centre(-1),
                       "centre-out-of-range")
            ctx.raises((ValueError,), lambda: p.get_bin_centre(b),
                       "centre-out-of-range")
            ctx.raises((TypeError,), lambda: p.get_bin_centre(float(k)),
                       "centre-needs-an-integer")
            for _ in range(6):
                x, c = _value(rng, lo, hi, b)
                if x != x:
                    continue
                if x < lo or x > hi:
                    ctx.raises((ValueError,), lambda: p.get_bin(x),
                               "bin-out-of-range", x, (lo, hi, b))
                else:
                    got = p.get_bin(x)
                    want = [b - 1] if x == hi else \
                        gen.candidates(x, lo, hi, b)
                    if x == hi:
                        ctx.count("upper-bound")
                    ctx.expect(got in want, "bin-of-value", x, (lo, hi, b),
                               got, want)
                    ctx.count("bin-of-value")
            k = int(rng.randint(b + 1))
            f = float(rng.uniform(-0.45, 0.45))
            ctx.close(p.round(edges[k] + f * w), edges[k],
                      "rounds-to-the-nearest-edge", (lo, hi, b), k, f,
                      rtol=0., atol=tol)
            ctx.close(p.round(edges[k]), edges[k],
                      "rounds-to-the-nearest-edge", rtol=0., atol=tol)
        ctx.raises((IndexError,), lambda: cfg.get_index("nothing_mc"),
                   "unknown-index")
        ctx.expect(sorted(cfg.get_dims()) ==
                   sorted(n.rsplit("_", 1)[0] for n in names), "dims")
        # change an axis and look again
        k = int(rng.randint(len(ax)))
        lo, hi, b = gen.axis(rng)
        kw = {"low": lo, "high": hi, "bins": b}
        for key in list(kw):
            if rng.rand() < 0.2 and key == "bins":
                del kw[key]
                b = ax[k][3]
        if rng.rand() < 0.5:
            kw = dict((key, gen.whole(v)) for key, v in kw.items())
        cfg.get_par(ax[k][0]).set_par(**kw)
        ax[k] = (ax[k][0], lo, hi, b)
        # and through the operations of a spectrum with these axes
        if numpy.prod([a[3] for a in ax]) < 20000:
            s = E("core.spectra").Spectra("y", 1., cfg)
            _geometry(ctx, s, "new")
            _reshape(ctx, s)
            _geometry(ctx, s, "reshaped")
            ctx.expect([(n, cfg.get_par(n).get_low(), cfg.get_par(
                n).get_high(), cfg.get_par(n).get_bins())
                for n in cfg.get_pars()] == ax, "config-given-unchanged", ax)
            ctx.count("reshaped")
        ctx.raises((TypeError,),
                   lambda: cfg.get_par(ax[k][0]).set_par(width=1.),
                   "unknown-property")
        ctx.count("axis-changed")
    # adding a dimension
    cfg.add_par(P("added_mc", 0., 1., 4))
    ctx.expect(cfg.get_index("added_mc") == len(ax) and
               tuple(cfg.get_shape()) == tuple(a[3] for a in ax) + (4,),
               "add-par")
    s = E("core.spectra").Spectra("x", 1., cfg)
    ctx.expect(s.get_data().shape == tuple(cfg.get_shape()) and
               not s.get_data().any(), "new-spectrum-is-empty")
    ctx.sig(ax)
    ctx.sample("axes %s" % (ax,))


# ------------------------------------------------------------ C08 histories
class Ref(object):
    """Plain-array model of a spectrum."""

    def __init__(self, s):
        self.data = s.get_data().copy()
        self.geo = gen.geometry(s)
        self.nd = s.get_num_decays()
        self.raw = s._raw_events
        self.rois = copy.deepcopy(s._rois)
        self.identity = (s.get_name(), s.get_bipo(), s.get_style(),
                         s._background_name)

    def check(self, ctx, s, op):
        ctx.expect(s.get_data().shape == tuple(s.get_config().get_shape()),
                   "shape-follows-config", op)
        ctx.close(s.get_data(), self.data, "counts-follow-history", op,
                  rtol=1e-8, atol=1e-300)
        for g, h in zip(gen.geometry(s), self.geo):
            w = (h[2] - h[1]) / h[3]
            ctx.expect(g[0] == h[0] and g[3] == h[3] and
                       abs(g[1] - h[1]) < 1e-5 * w and
                       abs(g[2] - h[2]) < 1e-5 * w,
                       "binning-follows-history", op, g, h)
        ctx.close(s.get_num_decays(), self.nd, "decays-follow-history", op,
                  rtol=1e-9, atol=0.)
        ctx.expect(s._raw_events == self.raw, "raw-events-follow-history",
                   op, s._raw_events, self.raw)
        ctx.expect(self.identity == (s.get_name(), s.get_bipo(),
                                     s.get_style(), s._background_name),
                   "identity-kept", op)
        ctx.expect(sorted(s._rois) == sorted(self.rois), "rois-follow-history",
                   op, s._rois, self.rois)
        for n, (lo, hi, eff) in self.rois.items():
            got = s.get_roi(n)
            ctx.close([got["low"], got["high"], got["efficiency"]],
                      [lo, hi, eff], "roi-follows-history", op, n, rtol=1e-6,
                      atol=1e-6 * max(1e-3, abs(lo), abs(hi)))
        _geometry(ctx, s, "history")


def wl_history(ctx):
    rng = ctx.rng
    ax = gen.axes(rng)
    pool = [gen.spectrum(rng, ax) for _ in range(2)]
    if rng.rand() < 0.5:        # another one made with the same config
        s = E("core.spectra").Spectra("again", 5., pool[0].get_config())
        s._data = gen.fill_array(rng, s._data.shape)
        pool[1] = s
        ctx.count("same-config")
    refs = [Ref(s) for s in pool]
    ops = []
    for step in range(25):
        i = int(rng.randint(len(pool)))
        s, r = pool[i], refs[i]
        op = str(rng.choice(["fill", "fill", "scale", "add", "rebin",
                             "shrink", "cut", "roi", "copy", "read"]))
        if op == "fill":
            v = dict((n, float(lo + (rng.randint(b) + rng.uniform(.1, .9)) *
                               (hi - lo) / b)) for n, lo, hi, b in r.geo)
            w = float(rng.randint(1, 5))
            s.fill(w, **v)
            cell = tuple(int((v[n] - lo) / ((hi - lo) / b))
                         for n, lo, hi, b in r.geo)
            r.data[cell] += w
        elif op == "scale":
            n = float(rng.choice([rng.uniform(1, 1000), 1e-9, 3e-9]))
            s.scale(n)
            r.data = r.data * (n / r.nd)
            r.nd = n
        elif op == "add":
            j = int(rng.randint(len(pool)))
            same = len(r.geo) == len(refs[j].geo) and all(
                g[3] == h[3] and numpy.isclose(g[1], h[1], 1e-6, 1e-9) and
                numpy.isclose(g[2], h[2], 1e-6, 1e-9)
                for g, h in zip(r.geo, refs[j].geo))
            if same:
                s.add(pool[j])
                r.data = r.data + refs[j].data
                r.nd = r.nd + refs[j].nd
                r.raw = r.raw + refs[j].raw
            else:
                far = r.data.shape != refs[j].data.shape
                if not far:
                    continue        # nearly equal bounds: either is fine
                ctx.raises((ValueError, IndexError),
                           lambda: s.add(pool[j]), "incompatible-add")
                op = "add-rejected"
        elif op == "rebin":
            new = tuple(int(rng.choice(gen.divisors(g[3])[-3:]))
                        for g in r.geo)
            s.rebin(new)
            r.data = gen.block_sum(r.data, new)
            r.geo = [g[:3] + (b,) for g, b in zip(r.geo, new)]
        elif op in ("shrink", "cut", "roi"):
            k = int(rng.randint(len(r.geo)))
            n, lo, hi, b = r.geo[k]
            if b < 2:
                continue
            a = int(rng.randint(0, max(1, b // 4) + 1))
            z = int(rng.randint(b - max(1, b // 4), b + 1))
            if z <= a:
                continue
            w = (hi - lo) / b
            lo2, hi2 = lo + a * w, lo + z * w
            if op == "roi":
                s.shrink_to_roi(lo2, hi2, n)
            else:
                getattr(s, op)(**{n + "_low": lo2, n + "_high": hi2})
            full = r.data.sum()
            r.data = r.data.take(range(a, z), axis=k).copy()
            if op == "roi":
                r.rois[n] = (lo2, hi2, r.data.sum() / full if full else 0.)
            if op == "cut" and full > 0:
                r.nd = r.nd * (r.data.sum() / full)
            r.geo[k] = (n, lo2, hi2, z - a)
            if not r.nd > 0.:
                break
        elif op == "copy":
            if len(pool) < 4:
                pool.append(copy.deepcopy(s))
                refs.append(copy.deepcopy(r))
        else:
            # a working copy, as fits and convolutions make
            w = copy.copy(s)
            w._config = copy.deepcopy(s._config)
            n, lo, hi, b = r.geo[rng.randint(len(r.geo))]
            todo = str(rng.choice(["scale", "rebin", "shrink", "cut"]))
            if todo == "scale":
                w.scale(float(rng.uniform(2., 50.)) * r.nd)
            elif todo == "rebin":
                w.rebin(tuple(gen.divisors(g[3])[0] for g in r.geo))
            else:
                getattr(w, todo)(**{n + "_low": lo, n + "_high": hi -
                                    (hi - lo) / b * (b // 3)})
            if todo == "scale":
                w.scale(r.nd * 3.)
            ctx.count("working-copies")
            for n in s.get_config().get_pars():
                s.project(n)[...] = -5.
            s.nd_project(list(s.get_config().get_pars()))[...] = -5.
        ops.append(op)
        ctx.log(op, i)
        ctx.count("op:" + op)
        for q, (t, m) in enumerate(zip(pool, refs)):
            m.check(ctx, t, "%s of %d, looking at %d" % (op, i, q))
    ctx.sig(ops, pool[0]._data)
    ctx.sample("ops %s on %s" % (ops, ax))


PROPS = {
    "C01": Prop(
        "fill", [("fill", wl_fill, 400, 40000)],
        "random fill histories over 1-3 dimensional histograms, values "
        "drawn inside bins, on and one ulp around edges, at and beyond the "
        "bounds, non-finite, with names missing or unknown, and re-binnings "
        "in between; a case is non-trivial when its history ran to the end "
        "(distinct by final binning and content)",
        ["accepted", "rejected", "value:edge", "value:last", "rebinned",
         "shrunk", "check:bad-names-rejected",
         "check:out-of-range-rejected"],
        ["values within 1e-9 bin widths of an edge may go either side"]),
    "C02": Prop(
        "projections", [("project", wl_project, 500, 40000)],
        "random 1-3 dimensional spectra, every single projection, random "
        "subsets in random order, surfaces, sums and spline interpolation "
        "compared with sums over cells; distinct by binning and content",
        ["surface", "nd-project:2-of-3", "nd-project:3-of-3", "interpolated",
         "check:unknown-dimension"]),
    "C03": Prop(
        "shrink", [("shrink", wl_shrink, 600, 60000)],
        "sequences of shrink / cut / shrink_to_roi with bounds on edges (in "
        "several floating point spellings) and inside bins, plus requests "
        "that must be rejected; distinct by binning and content",
        ["shrink", "cut", "roi", "rejected", "low-edge", "low-inside",
         "high-edge", "high-inside", "narrow-bins", "just-outside",
         "nothing-between"],
        ["bounds within 1.5% of an edge but not on it are not asked for"]),
    "C04": Prop(
        "rebin", [("rebin", wl_rebin, 600, 60000)],
        "sequences of rebinnings to random divisors, interleaved with "
        "requests that must be rejected; distinct by binning and content",
        ["rebin", "coarser", "rejected"]),
    "C05": Prop(
        "scale", [("scale", wl_scale, 600, 60000)],
        "sequences of rescalings over 28 orders of magnitude with fills in "
        "between; distinct by binning, content and sequence",
        ["scale", "fill-between", "check:scale-to-nothing"]),
    "C06": Prop(
        "add", [("add", wl_add, 600, 60000)],
        "sums of spectra with permuted dimensions and different dimension "
        "types, with themselves, and with incompatible partners; distinct "
        "by binning and content",
        ["added", "rejected", "reordered", "same-shape-rejected"]),
    "C07": Prop(
        "binning", [("axis", wl_axis, 500, 40000)],
        "random axes (nice, negative, offset, unrepresentable widths), "
        "queried and changed; distinct by final axes",
        ["bin-of-value", "upper-bound", "axis-changed", "reshaped", "check:rounds-to-the-nearest-edge"]),
    "C08": Prop(
        "histories", [("history", wl_history, 250, 20000)],
        "interleaved operation histories over a pool of up to four spectra, "
        "each step compared with a plain-array model of every spectrum of "
        "the pool; distinct by operation sequence and content",
        ["op:fill", "op:scale", "op:add", "op:rebin", "op:shrink", "op:cut",
         "op:roi", "op:copy", "op:add-rejected", "same-config",
         "working-copies"]),
}
