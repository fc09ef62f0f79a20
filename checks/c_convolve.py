"""Convolutions: smearing, shifting and scaling a dimension of a spectrum."""
import copy
import math

import numpy
from scipy import stats as sps
from scipy.interpolate import InterpolatedUnivariateSpline

import gen
from gen import E
from mon import Prop

OTHER = ["radial_mc", "zradial3_mc", "time_mc"]


def _axes(rng, dim, lo, hi, bins, n_other=None, cap=4):
    """The named axis at a random position among up to two others."""
    n_other = rng.randint(3) if n_other is None else n_other
    names = [n for n in OTHER if n != dim]
    rng.shuffle(names)
    ax = []
    for n in names[:n_other]:
        b = int(rng.randint(1, cap + 1))
        l0 = float(rng.choice([0., -1., 2.5]))
        ax.append((n, l0, l0 + b * float(rng.choice([0.5, 1., 0.7])), b))
    ax.insert(rng.randint(len(ax) + 1), (dim, lo, hi, bins))
    return ax


def _along(a, axis):
    """(bins, rest) view: the axis first, everything else flattened."""
    a = numpy.moveaxis(numpy.asarray(a, dtype=float), axis, 0)
    return a.reshape(a.shape[0], -1)


def _one_hot(s, axis, j, rest, value):
    """Fills bin j of the axis (one flattened cell of the rest)."""
    shape = list(s._data.shape)
    shape.insert(0, shape.pop(axis))
    d = numpy.zeros(shape)
    d.reshape(shape[0], -1)[j, rest] = value
    s._data = numpy.moveaxis(d, 0, axis).copy()


def _some_roi(rng, s):
    """Spectra that were shrunk to a region of interest remember it."""
    if rng.rand() < 0.4:
        g = gen.geometry(s)
        n, lo, hi, _ = g[rng.randint(len(g))]
        s._rois = {n: {"low": lo, "high": hi, "efficiency": rng.rand()}}


# ------------------------------------------------------- C09 weighted smearing
def _smearer(ctx, lo, hi, bins, kind=None):
    """(description, smearer, sigma(m), pdf(x, m), default dimension)."""
    rng = ctx.rng
    sm = E("core.smear")
    w = (hi - lo) / bins
    kind = kind or ["ly-gauss", "ly-poisson", "res-gauss", "res-poisson",
                    "radial"][rng.randint(5)]
    if kind == "radial":
        s = sm.RadialSmear()
    elif kind.startswith("ly"):
        s = sm.EnergySmearLY(poisson=kind.endswith("poisson"))
    else:
        s = sm.EnergySmearRes(poisson=kind.endswith("poisson"))
    return kind, s


def _resolution(ctx, kind, lo, hi, bins):
    """A resolution for which the widths are resolvable on this axis."""
    rng = ctx.rng
    w = (hi - lo) / bins
    f = float(rng.choice([0.3, 0.8, 1.5, 3.]))          # sigma in bin widths
    mid = 0.5 * (lo + hi)
    if kind == "radial":
        return float("%.4g" % (f * w))
    if kind.startswith("ly"):
        ly = float("%.5g" % (mid / (f * w) ** 2)) + 0.037
        return max(ly, 5.037)
    return min(0.9, float("%.4g" % (f * w / math.sqrt(mid))))


def _sigma(kind, res, m):
    if kind == "radial":
        return res
    if kind.startswith("ly"):
        return math.sqrt(m / res)
    return res * math.sqrt(m)


def _pdf(kind, res, x, m):
    """Weight of content moving from mean m to x; None: not decidable."""
    if kind.endswith("poisson"):
        ly = res if kind.startswith("ly") else 1. / res ** 2
        n = x * ly
        if abs(n - round(n)) < 1e-6 * max(1., n):
            return None
        n = math.floor(n)
        lam = m * ly
        return math.exp(n * math.log(lam) - lam - math.lgamma(n + 1.))
    s = _sigma(kind, res, m)
    return math.exp(-0.5 * ((x - m) / s) ** 2) / (s * math.sqrt(2 * math.pi))


def _windows(lo, w, bins, m, half):
    """Bin windows from the centre nearest m - half to that nearest m + half;
    ties and rounding at the top leave alternatives."""
    def near(x):
        t = (x - lo) / w - 0.5
        r = {int(math.floor(t + 0.5))}
        for d in (-1e-6, 1e-6):
            r.add(int(math.floor(t + d + 0.5)))
        return r
    first = {max(0, i) for i in near(m - half)}
    last = {min(bins - 1, i + e) for i in near(m + half) for e in (0, 1)}
    return [(a, b) for a in sorted(first) for b in sorted(last)]


def _check_kernel(ctx, kind, res, lo, hi, bins, j, nsig, col):
    """col: fraction of the content of bin j found in every bin."""
    w = (hi - lo) / bins
    c = lo + (numpy.arange(bins) + 0.5) * w
    half = nsig * _sigma(kind, res, c[j])
    best = None
    for a, b in _windows(lo, w, bins, c[j], half):
        k = numpy.zeros(bins)
        for i in range(a, b + 1):
            p = _pdf(kind, res, c[i], c[j])
            if p is None:
                return False
            k[i] = p
        if not k.sum() > 0:
            return False
        k /= k.sum()
        d = numpy.abs(k - col).max()
        best = d if best is None else min(best, d)
    ctx.expect(best < 1e-8, "kernel", kind, "resolution", res, "bin", j, "of",
               (lo, hi, bins), "num_sigma", nsig, "off by", best, "got", col)
    return True


def wl_weighted(ctx):
    rng = ctx.rng
    bins = int(rng.randint(2, 15))
    dim_kind = ["ly-gauss", "ly-poisson", "res-gauss", "res-poisson",
                "radial"][rng.randint(5)]
    w = float(rng.choice([0.1, 0.25, 0.5, 0.37]))
    lo = float(rng.choice([0., 0., 0.5, 2.]))
    if dim_kind == "radial":
        w, lo = w * 1000., float(rng.choice([0., 500., -1000.]))
    hi = lo + bins * w
    kind, sm = _smearer(ctx, lo, hi, bins, dim_kind)
    default = "radial_mc" if kind == "radial" else "energy_mc"
    dim = default if rng.rand() < 0.6 else \
        ("radial" if kind == "radial" else "energy") + "_reco"
    others = [n for n in OTHER if n != dim and not (
        kind == "radial" and n.startswith("radial"))]
    ax = _axes(rng, dim, lo, hi, bins)
    ax = [a for a in ax if a[0] == dim or a[0] in others]
    s = gen.spectrum(rng, ax)
    _some_roi(rng, s)
    axis = [a[0] for a in ax].index(dim)
    nrest = int(numpy.prod(s._data.shape)) // bins
    ctx.count("kind:" + kind)

    def smear(spec):
        if dim == default and rng.rand() < 0.5:
            return sm.weighted_smear(spec)
        return sm.weighted_smear(spec, dim) if rng.rand() < 0.5 else \
            sm.weighted_smear(spec, par=dim)
    for rnd in range(2):                  # one smearer, two resolutions
        res = _resolution(ctx, kind, lo, hi, bins)
        sm.set_resolution(gen.whole(res) if rng.rand() < 0.3 else res)
        ctx.expect(sm.get_resolution() == res, "resolution-kept")
        nsig = 5.
        if rng.rand() < 0.4:
            nsig = float(rng.choice([0.4, 1., 2.5, 4., 7.]))
        sm.set_num_sigma(gen.whole(nsig) if rng.rand() < 0.3 else nsig)
        ctx.log(kind, dim, "res", res, "nsig", nsig, ax)
        # the kernel, one source bin at a time
        K = numpy.zeros((bins, bins))
        t = copy.deepcopy(s)
        for j in range(bins):
            rest = rng.randint(nrest)
            amount = float(rng.choice([1., 3., 250.5]))
            _one_hot(t, axis, j, rest, amount)
            out = _along(smear(t)._data, axis)
            ctx.expect(not numpy.delete(out, rest, axis=1).any(),
                       "other-dimensions-untouched", kind, ax)
            K[:, j] = out[:, rest] / amount
            if _check_kernel(ctx, kind, res, lo, hi, bins, j, nsig, K[:, j]):
                ctx.count("kernels")
                if (K[:, j] > 0).sum() > 1:
                    ctx.count("kernels-spread")
            ctx.close(K[:, j].sum(), 1., "content-conserved", kind, j)
        # any content is smeared with it
        for trial in range(2):
            s._data = gen.fill_array(rng, s._data.shape)
            if rng.rand() < 0.3:
                s._data = -s._data if rng.rand() < 0.3 else \
                    s._data * 1e-3
            before = gen.snapshot(s)
            out = smear(s)
            gen.same_snapshot(ctx, before, gen.snapshot(s), "input-unchanged")
            ctx.close(_along(out._data, axis),
                      K.dot(_along(s._data, axis)), "linear",
                      kind, ax, rtol=1e-8,
                      atol=1e-9 * (1 + abs(s._data).max()))
            ctx.close(out.sum(), s.sum(), "total-conserved", rtol=1e-9)
            ctx.expect(gen.geometry(out) == gen.geometry(s), "same-binning")
            ctx.expect(out.get_num_decays() == s.get_num_decays() and
                       out._raw_events == s._raw_events and
                       out._rois == s._rois, "bookkeeping-kept",
                       out.get_num_decays(), out._raw_events)
            ctx.expect(out.get_name().startswith(s.get_name() + "_"),
                       "name-tells-the-smearing", out.get_name())
    ctx.raises(IndexError, lambda: sm.weighted_smear(s, "nothing_mc"),
               "unknown-dimension")
    ctx.sig(kind, dim, ax, res, nsig)
    ctx.sample("%s %s %s res=%s nsig=%s" % (kind, dim, ax, res, nsig))


def wl_resolution(ctx):
    rng = ctx.rng
    sm = E("core.smear")
    s = sm.EnergySmearLY()
    for _ in range(6):
        new = float(rng.choice([150., 190., 120., rng.uniform(1., 199.)]))
        cur = float(new + rng.choice([1., 10., 33., 1000., 1e-4]))
        if rng.rand() < 0.3:
            new, cur = int(new), int(cur) + 1
        want = 1. / (1. / float(new) - 1. / float(cur))
        ctx.close(s.calc_smear_ly(new, cur_ly=cur), want, "ly-to-reach", new,
                  cur, rtol=1e-8)
        s.set_resolution(cur)
        ctx.close(s.calc_smear_ly(new), want, "ly-to-reach", rtol=1e-8)
        ctx.raises(ValueError, lambda: s.calc_smear_ly(cur, cur_ly=new),
                   "cannot-unsmear")
        e = float(rng.uniform(0., 10.))
        ctx.close(s.get_sigma(e), math.sqrt(e / cur), "sigma-ly")
        ctx.count("ly")
    for r in (sm.EnergySmearRes(), sm.RadialSmear()):
        for _ in range(4):
            scale = 1. if isinstance(r, sm.EnergySmearRes) else 100.
            cur = float(rng.uniform(0.01, 0.4)) * scale
            new = cur + float(rng.choice([rng.uniform(0., 0.5), 1e-4])) * \
                scale
            want = math.sqrt(new * new - cur * cur)
            ctx.close(r.calc_smear_resoluton(new, cur_res=cur), want,
                      "resolution-to-reach", rtol=1e-8)
            r.set_resolution(cur)
            ctx.close(r.calc_smear_resoluton(new), want,
                      "resolution-to-reach", rtol=1e-8)
            ctx.raises(ValueError, lambda: r.calc_smear_resoluton(
                0.9 * cur, cur_res=cur), "cannot-unsmear")
            e = float(rng.uniform(0.01, 10.))
            if scale == 1.:
                ctx.close(r.get_sigma(e), cur * math.sqrt(e), "sigma-res")
            else:
                ctx.close(r.get_sigma(), cur, "sigma-radial")
            ctx.count("res")
    for obj, bad in ((s, [0., -1., -200]), (r, [0., -5.]),
                     (sm.EnergySmearRes(), [0., -0.1, 1., 5., 200])):
        for b in bad:
            old = getattr(obj, "get_resolution", None)
            try:
                before = obj.get_resolution()
            except AttributeError:
                before = None
            ctx.raises(ValueError, lambda: obj.set_resolution(b),
                       "bad-resolution", type(obj).__name__, b)
            if before is not None:
                ctx.expect(obj.get_resolution() == before,
                           "rejected-changes-nothing")
        n = obj.get_num_sigma()
        for b in (0, 0., -1., -1e-9):
            ctx.raises(ValueError, lambda: obj.set_num_sigma(b),
                       "bad-num-sigma", b)
        ctx.expect(obj.get_num_sigma() == n, "rejected-changes-nothing")
        ctx.expect(n == 5., "default-num-sigma")
        m, sg, ns = rng.uniform(0, 5), rng.uniform(0.1, 2), \
            float(rng.choice([rng.uniform(1, 6), rng.uniform(6, 40), 0.01]))
        obj.set_num_sigma(ns)
        ctx.close(obj.get_bounds(m, sg), (m - ns * sg, m + ns * sg), "bounds")
        x = rng.uniform(-1, 6)
        ctx.close(obj.calc_gaussian(x, m, sg),
                  float(sps.norm.pdf(x, m, sg)), "gaussian")
        ctx.sig(m, sg, ns)
    ctx.sample("resolution arithmetic")


# --------------------------------------------------------- C10 random smearing
def wl_random(ctx):
    rng = ctx.rng
    bins = int(rng.randint(3, 13))
    kind = ["ly-gauss", "ly-poisson", "res-gauss", "res-poisson",
            "radial"][rng.randint(5)]
    w = float(rng.choice([0.1, 0.25, 0.37]))
    lo = float(rng.choice([0., 0., 0.5]))
    if kind == "radial":
        w, lo = w * 1000., float(rng.choice([0., 500.]))
    hi = lo + bins * w
    kind, sm = _smearer(ctx, lo, hi, bins, kind)
    res = _resolution(ctx, kind, lo, hi, bins)
    sm.set_resolution(res)
    numpy.random.seed(rng.randint(2 ** 31))
    dim = "radial_mc" if kind == "radial" else "energy_mc"
    ax = [a for a in _axes(rng, dim, lo, hi, bins, cap=3)
          if a[0] == dim or not a[0].startswith("radial")]
    s = gen.spectrum(rng, ax)
    _some_roi(rng, s)
    axis = [a[0] for a in ax].index(dim)
    nrest = int(numpy.prod(s._data.shape)) // bins
    # accounting: columns keep to themselves, nothing is created
    s._data = rng.poisson(2., size=s._data.shape).astype(float)
    fractions = rng.rand() < 0.3
    if fractions:
        s._data = s._data + rng.choice([0.25, 0.75])
    before = gen.snapshot(s)
    out = sm.random_smear(s, dim) if rng.rand() < 0.5 else sm.random_smear(s)
    gen.same_snapshot(ctx, before, gen.snapshot(s), "input-unchanged")
    ctx.expect((out._data == numpy.floor(out._data)).all() and
               (out._data >= 0).all(), "whole-events")
    whole = numpy.floor(_along(s._data, axis)).sum(axis=0)
    have = _along(out._data, axis).sum(axis=0)
    ctx.expect((have <= whole).all(), "no-event-created", have, whole)
    edge_loss = abs(s._data).sum()
    ctx.expect(gen.geometry(out) == gen.geometry(s), "same-binning")
    ctx.expect(out.get_num_decays() == s.get_num_decays() and
               out._raw_events == s._raw_events and out._rois == s._rois,
               "bookkeeping-kept")
    ctx.expect(out.get_name().startswith(s.get_name() + "_"),
               "name-tells-the-smearing", out.get_name())
    if have.sum() == whole.sum():
        ctx.count("nothing-lost")
    # a resolution far below the bin width: every event stays in its bin,
    # so away from the ends of the axis nothing may be lost or gained
    if kind.endswith("poisson"):
        # whole photons: the chance to leave the bin is below 1e-10
        fine = 0.05 * w / math.sqrt(hi)
        sm.set_resolution(1. / fine ** 2 + 0.37 if kind.startswith("ly")
                          else fine)
    elif kind == "radial":
        sm.set_resolution(0.05 * w)
    else:
        sm.set_resolution((w * 0.05) ** -2 * hi if kind.startswith("ly")
                          else 0.05 * w / math.sqrt(hi))
    s._data = rng.choice([0., 1., 1., 2., 5.], size=s._data.shape)
    if rng.rand() < 0.5:
        s._data = s._data + rng.choice([0., 0.5, 0.999], size=s._data.shape)
    if rng.rand() < 0.5:
        s._data.ravel()[rng.randint(s._data.size)] = 2500.
    out = sm.random_smear(s, dim)
    ctx.same(out._data, numpy.floor(s._data), "every-event-smeared-once", kind)
    ctx.count("narrow:" + kind)
    if kind == "res-poisson" and rng.rand() < 0.5:
        res = float(rng.choice([0.4511, 0.3823, 0.7013]))
    elif kind == "ly-poisson" and rng.rand() < 0.5:
        res = float(rng.choice([4.9317, 2.6173, 6.8191]))
    sm.set_resolution(res)
    # distribution: many events of one bin
    n = 3000
    j = int(rng.randint(bins))
    rest = int(rng.randint(nrest))
    _one_hot(s, axis, j, rest, float(n))
    out = _along(sm.random_smear(s, dim)._data, axis)
    ctx.expect(not numpy.delete(out, rest, axis=1).any(),
               "other-dimensions-untouched")
    got = out[:, rest]
    m = lo + (j + 0.5) * w
    edges = lo + numpy.arange(bins + 1) * w
    if kind.endswith("poisson"):
        ly = res if kind.startswith("ly") else 1. / res ** 2
        ks = numpy.arange(0, int(hi * ly * 2 + 50))
        p = sps.poisson.pmf(ks, m * ly)
        x = ks / ly
        pos = (x - lo) / w
        # photons on an edge may be counted on either side
        # (no photons on an axis from zero is exact)
        amb = p[(numpy.abs(pos - numpy.round(pos)) < 1e-7) &
                ((ks > 0) | (lo != 0.))].sum()
        probs = numpy.array([p[(pos >= i) & (pos < i + 1)].sum()
                             for i in range(bins)])
    else:
        sg = _sigma(kind, res, m)
        probs = numpy.diff(sps.norm.cdf(edges, m, sg))
        # negative values are folded back
        probs = probs + numpy.diff(sps.norm.cdf(edges, -m, sg)) \
            if lo >= 0 else probs
        amb = 0.
    if amb < 1e-6:
        tol = 7. * numpy.sqrt(n * probs * (1 - probs)) + 5.
        bad = numpy.abs(got - n * probs) > tol
        ctx.expect(not bad.any(), "distribution", kind, "res", res, "bin", j,
                   "got", got, "want", n * probs)
        ctx.count("distributions")
        ctx.count("kind:" + kind)
    ctx.raises(IndexError, lambda: sm.random_smear(s, "nothing_mc"),
               "unknown-dimension")
    ctx.sig(kind, ax, res, got)
    ctx.sample("%s %s res=%s bin=%d -> %s" % (kind, ax, res, j, got))


# -------------------------------------------------------------------- C11 shift
def _conv_axis(rng, scale=False):
    bins = int(rng.choice([5, 6, 8, 10, 13, 20, 30]))
    w = float(rng.choice([0.1, 0.25, 0.5, 1., 0.3, 100.]))
    lo = float(rng.choice([0., 0., 1., 2.5] + ([] if scale else [-3., -0.7])))
    return lo, lo + bins * w, bins, w


def _shift_like(ctx, s, out, axis, dim, where, kwargs, kind):
    """Check an interpolated move: where[i] is the old position whose content
    appears at the centre of bin i (None: outside)."""
    par = s.get_config().get_par(dim)
    lo, hi, bins = par.get_low(), par.get_high(), par.get_bins()
    w = (hi - lo) / bins
    c = lo + (numpy.arange(bins) + 0.5) * w
    old = _along(s._data, axis)
    new = _along(out._data, axis)
    spline = InterpolatedUnivariateSpline(c, old.sum(axis=1),
                                          k=kwargs.get("k", 3))
    want = numpy.zeros(bins)
    near = numpy.zeros(bins)            # how far the 1e-6 tweak can move it
    for i in range(bins):
        if where[i] is None:
            continue
        x = min(max(where[i], c[0]), c[-1])
        # in the upper half of the last bin the position may be the last
        # centre or, against rounding, a touch below it
        y = float(spline(x))
        near[i] = abs(y - float(spline(max(c[0], x - 1.1e-6)))) + \
            (0. if abs(y) > 1e-9 * old.max() else abs(y))
        if x == c[-1]:
            x -= 1e-6
            y = float(spline(x))
        j = min(bins - 1, max(0, int((x - lo) / w)))
        j2 = j - 1 if c[j] > x else j + 1
        sums = [old[j].sum()]
        if 0 <= j2 < bins:
            sums.append(old[j2].sum())
        if max(sums) <= 0:
            continue
        want[i] = max(0., y)
    if not want.sum() > 1e-9 * old.max():
        return False        # nothing left but the spline's rounding
    got = new.sum(axis=1)
    f = old.sum() / want.sum()
    tol = f * near + 1e-9 * abs(old).sum() + \
        got * (near.sum() / want.sum())
    ctx.expect((numpy.abs(got - want * f) <= tol).all(), kind + "-projection",
               "got", got, "want", want * f, "old", old.sum(axis=1), where)
    ctx.close(new.sum(), old.sum(), kind + "-total-kept", rtol=1e-9)
    # every slice is shaped like its neighbours in the old spectrum
    for i in range(bins):
        if where[i] is None or got[i] <= 1e-12 * old.sum():
            if where[i] is None:
                ctx.expect(not new[i].any(), kind + "-outside-empty", i)
            continue
        x = min(max(where[i], c[0]), c[-1])
        t = (x - c[0]) / w
        js = sorted({min(bins - 1, max(0, int(math.floor(t + d))))
                     for d in (-2e-6 / w - 1e-9, 0., 1., 1 - 2e-6 / w - 1e-9)})
        shapes = [old[j] / old[j].sum() for j in js if old[j].sum() > 0]
        if not shapes:
            continue
        shape = new[i] / got[i]
        lo_s, hi_s = numpy.min(shapes, axis=0), numpy.max(shapes, axis=0)
        ctx.expect(((shape >= lo_s - 1e-7) & (shape <= hi_s + 1e-7)).all(),
                   kind + "-slice-shape", i, shape, lo_s, hi_s)
        if len(shapes) == 2 and new.shape[1] > 1:
            # a mixture of the two, nearer to the nearer one
            d = shapes[1] - shapes[0]
            if abs(d).max() > 1e-3 and js[1] == js[0] + 1:
                k = abs(d).argmax()
                a = (shape[k] - shapes[0][k]) / d[k]
                ctx.close(shape, shapes[0] + a * d, kind + "-slice-mixture",
                          rtol=1e-6, atol=1e-7)
                if c[js[0]] < x < c[js[1]]:
                    _mix(ctx, spline, c, js, x, w, a, kind)
    return True


def _mix(ctx, spline, c, js, x, w, a, kind):
    """The share of the upper neighbour: areas under the interpolation over
    the two parts of the window one bin wide around x (trapezoids)."""
    e = 0.5 * (c[js[0]] + c[js[1]])
    l, h = x - 0.5 * w, x + 0.5 * w
    # the part on this side of the edge stays within the outermost centres
    if x < e:
        l = max(l, c[0])
    elif h > c[-1]:
        h = c[-1] - 1e-6
    fl, fe, fh = float(spline(l)), float(spline(e)), float(spline(h))
    a_low = abs(0.5 * (e - l) * (fl + fe))
    a_high = abs(0.5 * (h - e) * (fe + fh))
    if a_low + a_high > 1e-9 and abs(a_low) + abs(a_high) > 0:
        ctx.close(a, a_high / (a_low + a_high), kind + "-share", rtol=1e-5,
                  atol=1e-5)
        ctx.count("shares")


def _conv_data(rng, shape, axis):
    k = rng.randint(6)
    if k == 5:                                   # rising or falling steeply
        d = numpy.moveaxis(rng.uniform(0.5, 5., size=shape), axis, 0).copy()
        n = len(d)
        steps = rng.choice([0.02, 0.3, 3., 2e3, 1e5], size=n,
                           p=[0.3, 0.3, 0.2, 0.1, 0.1])
        prof = numpy.cumprod(steps)
        prof = numpy.clip(prof / prof.max(), 1e-6, 1.) * 1e3
        d *= prof.reshape([n] + [1] * (d.ndim - 1))
        return numpy.moveaxis(d, 0, axis).copy()
    if k == 0:                                   # smooth bump
        n = shape[axis]
        x = numpy.arange(n)
        prof = 5. + 100. * numpy.exp(
            -0.5 * ((x - rng.uniform(0, n)) / (0.2 * n + 1)) ** 2)
        rest = rng.uniform(0.2, 1., size=[1 if i == axis else v
                                          for i, v in enumerate(shape)])
        sh = [1] * len(shape)
        sh[axis] = n
        return prof.reshape(sh) * rest
    if k == 1:
        return rng.uniform(0.5, 5., size=shape)
    if k == 2:                                   # sparse
        d = rng.poisson(0.7, size=shape).astype(float)
        d.ravel()[0] += 1
        return d
    if k == 3:
        d = rng.uniform(0.5, 5., size=shape)
        d = numpy.moveaxis(d, axis, 0)
        d[rng.randint(len(d))] = 0.
        return numpy.moveaxis(d, 0, axis).copy()
    return rng.randint(0, 50, size=shape).astype(float) + 1.


def _new_contents(ctx, s, axis):
    """Now and then the same spectrum holds something else."""
    c = ctx.rng.randint(8)
    if c == 0:
        s._data = _conv_data(ctx.rng, s._data.shape, axis)
    elif c == 1:
        s._data *= numpy.moveaxis(s._data, axis, 0)[::-1].sum() + 2.
    elif c == 2:
        s._data[...] = _conv_data(ctx.rng, s._data.shape, axis)
    if c < 3:
        ctx.count("contents-changed")


def wl_shift(ctx):
    rng = ctx.rng
    lo, hi, bins, w = _conv_axis(rng)
    dim = "energy_mc" if rng.rand() < 0.7 else "energy_reco"
    ax = _axes(rng, dim, lo, hi, bins)
    s = gen.spectrum(rng, ax)
    _some_roi(rng, s)
    axis = [a[0] for a in ax].index(dim)
    s._data = _conv_data(rng, s._data.shape, axis)
    if rng.rand() < 0.25:               # a rare background
        s._data = s._data * 1e-6
    sh = E("core.shift").Shift()
    ctx.expect(sh.get_shift() == 0., "default-shift")
    old = _along(s._data, axis)
    c = lo + (numpy.arange(bins) + 0.5) * w
    for step in range(4):
        _new_contents(ctx, s, axis)
        old = _along(s._data, axis)
        before = gen.snapshot(s)
        whole = rng.rand() < 0.5
        n = int(rng.randint(-bins - 1, bins + 2))
        if whole:
            how = rng.randint(3)
            v = n * w if how == 0 else \
                float("%.12g" % (n * w)) if how == 1 else \
                sum([w if n > 0 else -w] * abs(n))
            sh.set_shift(gen.whole(v) if rng.rand() < 0.3 else v)
            fn = sh.shift if rng.rand() < 0.7 else sh.shift_by_bin
            ctx.log("shift by bins", n, v, ax)
            out = fn(s, dim)
            want = numpy.zeros(old.shape)
            for i in range(bins):
                if 0 <= i - n < bins and old[i - n].sum() > 0:
                    want[i] = old[i - n]
            ctx.same(_along(out._data, axis), want, "whole-bin-shift", n, v,
                     ax)
            ctx.count("whole-bins")
            ctx.count("whole-bins:" + ("up" if n > 0 else "down" if n < 0
                                       else "none"))
        else:
            frac = float(rng.choice([rng.uniform(0.05, 0.45),
                                     rng.uniform(0.55, 0.95),
                                     4e-4, 1 - 4e-4]))
            if rng.rand() < 0.6:
                n = int(rng.randint(-2, 3))
            v = (n + frac) * w
            sh.set_shift(gen.whole(v) if rng.rand() < 0.3 else v)
            ctx.raises(ValueError, lambda: sh.shift_by_bin(s, dim),
                       "not-whole-bins-refused", v, w)
            kwargs = {"k": int(rng.choice([1, 2, 3, 4]))} \
                if rng.rand() < 0.3 else {}
            ctx.log("shift", v, kwargs, ax)
            out = sh.shift(s, dim, **kwargs)
            where = [x - v if lo <= x - v < hi else None for x in c]
            if all(x is None for x in where):
                ctx.expect(not out._data.any(), "shifted-out-empty", v, ax)
                ctx.count("shifted-out")
            elif _shift_like(ctx, s, out, axis, dim, where, kwargs, "shift"):
                ctx.count("interpolated")
                ctx.count("interpolated:" + ("up" if v > 0 else "down"))
        ctx.expect(sh.get_shift() == v, "shift-kept")
        gen.same_snapshot(ctx, before, gen.snapshot(s), "input-unchanged")
        ctx.expect(out.get_num_decays() == s.get_num_decays() and
                   out._raw_events == s._raw_events and out._rois == s._rois,
                   "bookkeeping-kept", out.get_num_decays())
        ctx.expect(gen.geometry(out) == gen.geometry(s), "same-binning")
        ctx.expect(out.get_name() != s.get_name() and
                   out.get_name().startswith(s.get_name()),
                   "name-tells-the-shift", out.get_name())
        ctx.expect((out._data >= 0).all(), "no-negative-content")
    # a background subtracted spectrum has negative cells
    cells = _along(s._data, axis)
    if cells.shape[1] > 1 and rng.rand() < 0.5:
        d = numpy.moveaxis(rng.uniform(5., 9., size=s._data.shape), axis, 0)
        d = d.reshape(bins, -1)
        d[:, rng.randint(d.shape[1])] -= 9.5
        moved = numpy.moveaxis(s._data, axis, 0)
        s._data = numpy.moveaxis(d.reshape(moved.shape), 0, axis).copy()
        n = int(rng.randint(-2, 3))
        sh.set_shift(n * w)
        want = numpy.zeros(d.shape)
        want[max(0, n):bins + min(0, n)] = d[max(0, -n):bins - max(0, n)]
        want[want.sum(axis=1) <= 0] = 0.
        ctx.same(_along(sh.shift(s, dim)._data, axis), want,
                 "whole-bin-shift", "of signed content", n, ax)
        ctx.count("whole-bins:signed")
    ctx.sig(ax, s._data)
    ctx.sample("shift %s of %s" % (v, ax))


# -------------------------------------------------------------------- C12 scale
def wl_scale_dim(ctx):
    rng = ctx.rng
    lo, hi, bins, w = _conv_axis(rng, scale=True)
    dim = "energy_mc" if rng.rand() < 0.7 else "energy_reco"
    ax = _axes(rng, dim, lo, hi, bins)
    s = gen.spectrum(rng, ax)
    _some_roi(rng, s)
    axis = [a[0] for a in ax].index(dim)
    s._data = _conv_data(rng, s._data.shape, axis)
    if rng.rand() < 0.25:               # a rare background
        s._data = s._data * 1e-6
    sc = E("core.scale").Scale()
    c = lo + (numpy.arange(bins) + 0.5) * w
    for bad in (0., -1., -1e-3, 0):
        ctx.raises(ValueError, lambda: sc.set_scale_factor(bad),
                   "bad-factor-refused", bad)
    ctx.expect(sc.get_scale_factor() == 1., "rejected-changes-nothing")
    for v in (1e-6, 2.5e5, 1, 1.):
        sc.set_scale_factor(v)
        ctx.expect(sc.get_scale_factor() == v, "any-positive-factor", v)
    for step in range(4):
        _new_contents(ctx, s, axis)
        before = gen.snapshot(s)
        f = float(rng.choice([1., 1.01, 0.99, 1.1, 0.8, 1.37, 2., 0.5,
                              rng.uniform(0.7, 1.4)]))
        r = c / f
        t = (r - lo) / w
        # a position on a bin edge or centre, or on the bounds, is rounding
        # luck: leave those factors out, except for the identity
        if f != 1. and (numpy.abs(t - numpy.round(t)).min() < 1e-6 or
                        numpy.abs(t * 2 - numpy.round(t * 2)).min() < 1e-6):
            f *= 1.0037
            r = c / f
            t = (r - lo) / w
            if numpy.abs(t * 2 - numpy.round(t * 2)).min() < 1e-6:
                continue
        sc.set_scale_factor(f)
        ctx.expect(sc.get_scale_factor() == f, "factor-kept")
        kwargs = {"k": int(rng.choice([1, 2, 3, 4]))} \
            if rng.rand() < 0.3 else {}
        ctx.log("scale", f, kwargs, ax)
        out = sc.scale(s, dim, **kwargs)
        where = [x if lo <= x < hi else None for x in r]
        if f == 1.:
            got, old = _along(out._data, axis), _along(s._data, axis)
            ctx.close(got.sum(axis=1), old.sum(axis=1), "unit-factor",
                      rtol=1e-6 + 1e-5 / w,
                      atol=(1e-9 + 1e-5 / w) * old.sum(axis=1).max())
            ctx.count("unit-factor")
        elif all(x is None for x in where):
            ctx.expect(not out._data.any(), "scaled-out-empty", f, ax)
        elif _shift_like(ctx, s, out, axis, dim, where, kwargs, "scale"):
            ctx.count("interpolated")
            ctx.count("interpolated:" + ("up" if f > 1. else "down"))
        gen.same_snapshot(ctx, before, gen.snapshot(s), "input-unchanged")
        ctx.expect(out.get_num_decays() == s.get_num_decays() and
                   out._raw_events == s._raw_events and out._rois == s._rois,
                   "bookkeeping-kept", out.get_num_decays())
        ctx.expect(gen.geometry(out) == gen.geometry(s), "same-binning")
        ctx.expect(out.get_name() != s.get_name() and
                   out.get_name().startswith(s.get_name()),
                   "name-tells-the-factor", out.get_name())
        ctx.expect((out._data >= 0).all(), "no-negative-content")
    ctx.sig(ax, s._data)
    ctx.sample("scale %s of %s" % (f, ax))


# ------------------------------------------------------------------- C13 purity
def _transforms(rng, dim, w):
    """(name, function of a spectrum) for every convolution."""
    sm, sh, sc = E("core.smear"), E("core.shift").Shift(), \
        E("core.scale").Scale()
    P = E("core.parameter")
    res = []
    for poisson in (True, False):
        a = sm.EnergySmearLY(poisson=poisson)
        a.set_resolution(float(rng.choice([50.3, 200.3])))
        b = sm.EnergySmearRes(poisson=poisson)
        b.set_resolution(float(rng.choice([0.05, 0.1])))
        for n, x in (("ly", a), ("res", b)):
            res.append(("%s-%s" % (n, poisson),
                        lambda s, x=x: x.weighted_smear(s, dim)))
            res.append(("random-%s-%s" % (n, poisson),
                        lambda s, x=x: x.random_smear(s, dim)))
    r = sm.RadialSmear()
    r.set_resolution(1.5 * w)
    res.append(("radial", lambda s: r.weighted_smear(s, dim)))
    res.append(("random-radial", lambda s: r.random_smear(s, dim)))
    v = float(rng.choice([0., w, -2 * w, 0.3 * w, -0.7 * w]))
    sh.set_shift(v)
    res.append(("shift", lambda s: sh.shift(s, dim)))
    f = float(rng.choice([1., 1.03, 0.9]))
    sc.set_scale_factor(f)
    res.append(("scale", lambda s: sc.scale(s, dim)))
    for cls, val in (("ResolutionParameter", 200.), ("ResolutionParameter",
                                                     0.1),
                     ("ScaleParameter", f), ("ShiftParameter", v)):
        p = getattr(P, cls)("par", val, None, 0.5 * val - 1, 1.5 * val + 1,
                            10, dim)
        p.set_current_value(val)
        res.append((cls, p.apply_to))
    return res


def _disturb(ctx, rng, s, dim):
    """Change everything about a spectrum through its own operations."""
    geo = gen.geometry(s)
    for roi in s._rois.values():
        roi["efficiency"] = -1.
    s.fill(weight=12.5, **dict((n, lo + 0.5 * (hi - lo) / b)
                               for n, lo, hi, b in geo))
    s.scale(s.get_num_decays() * 3.)
    lo, hi = [(g[1], g[2]) for g in geo if g[0] == dim][0]
    s.shrink_to_roi(lo, hi, dim)
    s._rois[dim]["efficiency"] = -5
    s.rebin([1 if g[3] == 1 else (g[3] // min(
        d for d in gen.divisors(g[3]) if d > 1)) for g in geo])
    n = geo[rng.randint(len(geo))][0]
    g = [g for g in gen.geometry(s) if g[0] == n][0]
    s.shrink(**{n + "_high": g[1] + (g[2] - g[1]) / g[3] * max(1, g[3] // 2)})
    s._raw_events += 7


def wl_purity(ctx):
    rng = ctx.rng
    bins, w = int(rng.choice([4, 6, 8])), 0.5
    lo = float(rng.choice([0., 0.5]))
    dim = "energy_mc"
    ax = _axes(rng, dim, lo, lo + bins * w, bins, cap=2)
    for name, fn in _transforms(rng, dim, w):
        s = gen.spectrum(rng, ax)
        s._data = rng.poisson(3., size=s._data.shape) + 1.
        n = [a for a in ax if a[0] == dim][0]
        s.set_style({"color": "b"})
        if rng.rand() < 0.5:
            s._rois = {dim: {"low": 0., "high": 1., "efficiency": 0.5}}
        before = gen.snapshot(s)
        out = fn(s)
        ctx.expect(out is not s, "a-new-spectrum", name)
        gen.same_snapshot(ctx, before, gen.snapshot(s), "input-unchanged",
                          name)
        ctx.expect(out._background_name == s._background_name and
                   out.get_bipo() == s.get_bipo() and
                   out.get_style() == s.get_style(), "identity-kept", name)
        ctx.count("transform:" + name.split("-")[0])
        first, second = (out, s) if rng.rand() < 0.5 else (s, out)
        other = gen.snapshot(second)
        _disturb(ctx, rng, first, dim)
        gen.same_snapshot(ctx, other, gen.snapshot(second),
                          "result-independent-of-input", name)
        _disturb(ctx, rng, second, dim)
        # the same transform of the same content gives the same again
        if not name.startswith("random"):
            t = gen.spectrum(rng, ax)
            t._data = before["data"].copy()
            ctx.same(fn(t)._data, other["data"] if second is out else
                     fn(_restore(s, before, ax))._data, "repeatable", name)
        ctx.sig(name, ax, before["data"])
    ctx.sample("transforms of %s" % ax)


def wl_applied(ctx):
    """A parameter of a fit does what the convolution it stands for does."""
    rng = ctx.rng
    sm, P = E("core.smear"), E("core.parameter")
    bins, w = int(rng.choice([5, 8, 12])), 0.5
    lo = float(rng.choice([0., 0.5]))
    dims = [["energy_mc"], ["energy_reco"], ["energy_mc", "energy_reco"]][
        rng.randint(3)]
    if len(dims) == 1:
        dims.append(["radial_mc", "time_truth"][rng.randint(2)])
    ax = [(d, lo, lo + bins * w, bins) if d.startswith("energy") else
          (d, 0., 4., 4) for d in dims]
    ax = [ax[i] for i in rng.permutation(len(ax))]
    dim = dims[0]
    s = gen.spectrum(rng, ax)
    for cls, values in (
            ("ResolutionParameter", [0.05, 0.5, 0.9, 10.5, 72.5, 200.,
                                     float(rng.uniform(0.03, 0.9)),
                                     float(rng.uniform(11., 400.))]),
            ("ScaleParameter", [1., 1.03, 0.9, 2.,
                                float(rng.uniform(0.8, 1.3))]),
            ("ShiftParameter", [0., w, -2. * w, 0.3 * w,
                                float(rng.uniform(-1.2, 1.2)) * w])):
        p = getattr(P, cls)("par", values[0], None, -99., 999., 10, dim)
        todo = [values[i] for i in rng.permutation(len(values))[:3]]
        if rng.rand() < 0.5:
            todo.append(todo[-1])       # again, of other contents
        for k, v in enumerate(todo):
            if k == 3:
                s._data = s._data * rng.uniform(0.5, 2., size=s._data.shape)
                ctx.count("applied-to-changed-contents")
            p.set_current_value(v)
            got = p.apply_to(s)
            if cls == "ResolutionParameter":
                # documented to be photons per MeV above ten
                x = sm.EnergySmearLY() if v > 10. else sm.EnergySmearRes()
                x.set_resolution(v)
                want = x.weighted_smear(s, dim)
                ctx.count("as-light-yield" if v > 10. else "as-resolution")
            elif cls == "ScaleParameter":
                x = E("core.scale").Scale()
                x.set_scale_factor(v)
                want = x.scale(s, dim)
            else:
                x = E("core.shift").Shift()
                x.set_shift(v)
                want = x.shift(s, dim)
            ctx.close(got._data, want._data, "like-the-convolution", cls, v,
                      ax)
            ctx.expect(gen.geometry(got) == gen.geometry(want) and
                       got.get_num_decays() == want.get_num_decays(),
                       "like-the-convolution", cls, v)
            ctx.count("applied:" + cls)
    ctx.sig(ax, s._data)
    ctx.sample("parameters of %s on %s" % (dim, ax))


def _restore(s, snap, ax):
    t = copy.copy(s)
    t._config = gen.config(ax, "again")
    t._data = snap["data"].copy()
    t._num_decays = snap["num_decays"]
    t._rois = {}
    return t


PROPS = {
    "C09": Prop(
        "weighted smear",
        [("weighted", wl_weighted, 90, 6000),
         ("resolution", wl_resolution, 100, 2000)],
        "every smearer (light yield and resolution, gaussian and poisson, "
        "radial), reused with two resolutions and window widths on random "
        "axes and ranks; the kernel of every source bin is measured with "
        "one-bin spectra and compared with the formula, then random contents "
        "with the measured kernel; distinct by smearer, axes and resolution",
        ["kernels", "kernels-spread", "kind:ly-gauss", "kind:ly-poisson",
         "kind:res-gauss", "kind:res-poisson", "kind:radial", "ly", "res"],
        ["windows: either neighbour when a window edge is within 1e-6 bins "
         "of a tie, and one more bin at the top"]),
    "C10": Prop(
        "random smear", [("random", wl_random, 60, 6000)],
        "every smearer on random axes: event accounting of poisson contents "
        "and the distribution of 3000 events of one bin; distinct by "
        "smearer, axes, resolution and outcome",
        ["distributions", "kind:ly-gauss", "kind:ly-poisson",
         "kind:res-gauss", "kind:res-poisson", "kind:radial"],
        ["distributions judged at 7 standard deviations + 5 events"]),
    "C11": Prop(
        "shift", [("shift", wl_shift, 250, 15000)],
        "shifts by whole bins (three floating point spellings, both "
        "directions, beyond the axis) and by fractions of bins of random "
        "spectra, with linear to quartic interpolation; distinct by axes and "
        "content",
        ["whole-bins:up", "whole-bins:down", "whole-bins:none",
         "whole-bins:signed",
         "interpolated:up", "interpolated:down", "shifted-out", "shares",
         "check:not-whole-bins-refused"],
        ["shifts by half bins, where rounding decides, are not asked for"]),
    "C12": Prop(
        "scale", [("scale", wl_scale_dim, 250, 15000)],
        "scale factors from 0.5 to 2 and the identity on random spectra with "
        "linear to quartic interpolation; distinct by axes and content",
        ["interpolated:up", "interpolated:down", "unit-factor", "shares",
         "check:bad-factor-refused"],
        ["factors that put a bin centre within 1e-6 bins of an edge or a "
         "centre are not asked for"]),
    "C13": Prop(
        "purity of transforms", [("purity", wl_purity, 60, 3000),
                                 ("applied", wl_applied, 60, 3000)],
        "every convolution (smearers, shift, scale and the fit parameters "
        "that apply them) of random spectra; the input is compared before "
        "and after, then input and result are disturbed one at a time; "
        "distinct by transform, axes and content",
        ["transform:ly", "transform:random", "transform:shift",
         "transform:scale", "transform:ResolutionParameter",
         "transform:ScaleParameter", "transform:ShiftParameter",
         "as-light-yield", "as-resolution", "applied:ScaleParameter",
         "applied:ShiftParameter"]),
}
