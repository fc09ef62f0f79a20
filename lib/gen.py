"""Input generators shared by the checks."""
from collections import OrderedDict
from fractions import Fraction
import copy

import numpy


def E(name):
    """Import a module of the code under test."""
    import importlib
    return importlib.import_module("echidna." + name)


DIMS = ["energy", "radial", "radial3", "zradial3", "time", "impact",
        "impact_time_low"]
TYPES = ["mc", "reco", "truth"]


def axis(rng, max_bins=40, kind=None):
    """(low, high, bins): nice, offset, tiny, huge and awkward axes."""
    if kind is None:
        kind = rng.randint(7)
        if rng.rand() < 0.06:             # rare: scales far from one
            kind = rng.randint(7, 9)
    bins = int(rng.choice([1, 2, 3, 5, 7, 8, 10, 12, 16, 20, 25, 30, 32, 36,
                           40, 60, 64, 100]))
    bins = max(1, min(bins, max_bins))
    if max_bins >= 100 and rng.rand() < 0.03:
        bins = int(rng.choice([250, 500, 1000, 1024]))
    if kind == 7:
        low = 0. if rng.rand() < 0.5 else float(rng.randint(1, 9)) * 1e-4
        high = low + float(rng.randint(1, 90)) * 1e-4
    elif kind == 8:
        low = 0. if rng.rand() < 0.5 else float(rng.randint(1, 9)) * 1e4
        high = low + float(rng.randint(1, 90)) * 1e4
    elif kind == 0:
        low, high = 0., 10.
    elif kind == 1:
        low, high = 0., float(rng.choice([1, 6, 6000, 15000]))
    elif kind == 2:
        low = float(rng.randint(-50, 50)) / 10.
        high = low + float(rng.randint(1, 80)) / 10.
    elif kind == 3:                       # negative region
        low, high = -1., 1.
    elif kind == 4:                       # width not representable
        low = float(rng.randint(0, 30)) * 0.1
        high = low + bins * 0.1
    elif kind == 5:
        low = rng.uniform(-3., 3.)
        high = low + rng.uniform(0.01, 9.)
    else:
        low = float(rng.randint(1, 20)) * 100.
        high = low + float(rng.randint(1, 9)) * bins
    return low, high, bins


def names(rng, ndim, types=TYPES):
    dims = [DIMS[i] for i in rng.permutation(len(DIMS))[:ndim]]
    return [d + "_" + str(rng.choice(types)) for d in dims]


def config(axes, name="config"):
    """SpectraConfig from [(name, low, high, bins)]."""
    P = E("core.parameter").SpectraParameter
    return E("core.config").SpectraConfig(name, OrderedDict(
        (n, P(n, lo, hi, b) if b % 2 else P(n, whole(lo), whole(hi), b))
        for n, lo, hi, b in axes))


def whole(x):
    """The int of a whole number, as users write them."""
    return int(x) if abs(x) < 1e15 and x == int(x) else x


def axes(rng, ndim=None, max_cells=3000, kinds=None):
    ndim = ndim or (int(rng.choice([1, 1, 2, 2, 3])) if rng.rand() < 0.98
                    else 4)
    cap = {1: 100, 2: 40, 3: 14, 4: 6, 5: 4}[ndim]
    return [(n,) + axis(rng, cap, None if kinds is None else
                        int(rng.choice(kinds)))
            for n in names(rng, ndim)]


def fill_array(rng, shape, kind=None):
    kind = rng.randint(5) if kind is None else kind
    if kind == 0:
        return rng.randint(0, 50, size=shape).astype(float)
    if kind == 1:
        return rng.uniform(0., 10., size=shape)
    if kind == 2:
        return rng.poisson(0.4, size=shape).astype(float)
    if kind == 3:
        return numpy.exp(rng.normal(0., 3., size=shape))
    d = numpy.zeros(shape)
    n = max(1, int(d.size * 0.1))
    d.ravel()[rng.choice(d.size, n, replace=False)] = rng.uniform(1, 100, n)
    return d


def spectrum(rng, ax=None, name=None, num_decays=None, data=None,
             background_name=None):
    ax = ax if ax is not None else axes(rng)
    name = name or "bkg%d" % rng.randint(1000)
    nd = num_decays if num_decays is not None else \
        float(rng.choice([1., 10., 250., 1234.5, 1e6, 0.37]))
    if nd == int(nd) and rng.rand() < 0.5:
        nd = int(nd)
    s = E("core.spectra").Spectra(
        name, nd, config(ax, name + "_config"),
        background_name=background_name or name + "_background")
    s._data = (fill_array(rng, s._data.shape) if data is None
               else numpy.array(data, dtype=float))
    s._raw_events = int(rng.randint(0, 10000))
    return s


def geometry(s):
    """[(name, low, high, bins)] as reported by the spectrum."""
    cfg = s.get_config()
    return [(n, cfg.get_par(n).get_low(), cfg.get_par(n).get_high(),
             cfg.get_par(n).get_bins()) for n in cfg.get_pars()]


def snapshot(s):
    """Everything observable about a spectrum, deeply copied."""
    return {
        "data": numpy.array(s.get_data(), copy=True),
        "geometry": geometry(s),
        "num_decays": s.get_num_decays(),
        "raw_events": s._raw_events,
        "rois": copy.deepcopy(s._rois),
        "name": s.get_name(),
        "background_name": s._background_name,
        "bipo": s.get_bipo(),
        "style": copy.deepcopy(s.get_style()),
    }


def same_snapshot(ctx, a, b, kind, *what):
    for k in a:
        if k == "data":
            ctx.same(b[k], a[k], kind, "data", *what)
        elif k == "geometry":           # up to the rounding of edges
            ctx.expect(len(a[k]) == len(b[k]) and all(
                x[0] == y[0] and x[3] == y[3] and max(
                    abs(x[1] - y[1]), abs(x[2] - y[2])) <=
                1e-12 * max(abs(x[1]), abs(x[2]))
                for x, y in zip(a[k], b[k])), kind, k, "was", a[k], "is",
                b[k], *what)
        else:
            ctx.expect(a[k] == b[k], kind, k, "was", a[k], "is", b[k], *what)


def candidates(value, low, high, bins, tol=1e-9):
    """Acceptable bins of a value: the exact one, plus the neighbour when the
    value is within rounding of the edge between them; None if out of range."""
    if not (low <= value < high):
        return None
    t = (Fraction(value) - Fraction(low)) / \
        (Fraction(high) - Fraction(low)) * bins
    k = t.numerator // t.denominator
    frac = float(t - k)
    res = {k}
    scale = tol * max(1., abs(low) / (high - low) * bins * 1e-3)
    if frac < scale:
        res.add(k - 1)
    if frac > 1. - scale:
        res.add(k + 1)
    return sorted(set(min(max(r, 0), bins - 1) for r in res))


def edge(low, high, bins, k, how):
    """Edge k of an axis, in one of several floating point spellings."""
    if how == 0:
        return float(numpy.linspace(low, high, bins + 1)[k])
    if how == 1:
        return low + k * ((high - low) / float(bins))
    if how == 2:
        e = low + k * ((high - low) / float(bins))
        return float("%.12g" % e)
    e = low
    for _ in range(k):
        e += (high - low) / float(bins)
    return e


def block_sum(data, new_shape):
    out = data
    for ax, n in enumerate(new_shape):
        f = out.shape[ax] // n
        parts = [out.take(range(i, out.shape[ax], f), axis=ax)
                 for i in range(f)]
        acc = numpy.zeros(parts[0].shape)
        for p in parts:
            acc = acc + p
        out = acc
    return out


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]
