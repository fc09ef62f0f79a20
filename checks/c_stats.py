"""Test statistics and penalty terms."""
import math

import numpy

import gen
from gen import E
from mon import Prop

EPS = 1e-34


def _chi(o, e):
    e = max(e, EPS)
    return 2. * (e if o < EPS else e - o + o * math.log(o / e))


def _neyman(o, e):
    o = max(o, EPS)
    return o if e < EPS else (e - o) ** 2 / o


def _pearson(o, e):
    e = max(e, EPS)
    return e if o < EPS else (o - e) ** 2 / e


STATS = {
    "BakerCousinsChi": _chi,
    "BakerCousinsChiUp": lambda o, e: 0. if o > e else _chi(o, e),
    "BakerCousinsLL": lambda o, e: 0.5 * _chi(o, e),
    "Neyman": _neyman,
    "Pearson": _pearson,
    "ExtendedLL": lambda o, e: e - o * math.log(max(e, EPS)),
}
NAMES = sorted(STATS)


def _counts(rng, n):
    k = rng.randint(6)
    if k == 0:
        return rng.poisson(5., size=n).astype(float)
    if k == 1:
        return rng.poisson(0.5, size=n).astype(float)
    if k == 2:
        return rng.uniform(0., 100., size=n)
    if k == 3:
        return numpy.exp(rng.normal(0., 6., size=n))
    if k == 4:
        a = rng.uniform(0.1, 20., size=n)
        a[rng.rand(n) < 0.4] = 0.
        return a
    return rng.uniform(1e3, 1e6, size=n)


def _arrays(rng):
    n = int(rng.choice([1, 2, 3, 10, 40]))
    o, e = _counts(rng, n), _counts(rng, n)
    if rng.rand() < 0.3:
        e = o * rng.uniform(0.5, 2., size=n)
    if rng.rand() < 0.1:
        e = o.copy()
    return o, e


def wl_formula(ctx):
    rng = ctx.rng
    ts = E("fit.test_statistic")
    o, e = _arrays(rng)
    for name in NAMES:
        f = STATS[name]
        want = [f(a, b) for a, b in zip(o.tolist(), e.tolist())]
        total = getattr(ts, name)()
        scale = sum(abs(x) for x in want) + (
            float(o.sum() + e.sum()) if name != "Neyman" else 0.)
        if name == "ExtendedLL":
            scale += abs(float((o * numpy.log(numpy.maximum(e, EPS))).sum()))
        got = total.compute_statistic(o.copy(), e.copy())
        ctx.expect(numpy.ndim(got) == 0, "total-is-a-number", name)
        ctx.close(got, math.fsum(want), "total", name, o, e, rtol=1e-9,
                  atol=1e-10 * scale + 1e-30)
        per_bin = getattr(ts, name)(per_bin=True)
        if name == "BakerCousinsChiUp" and (o > e).any():
            ctx.count("excess-per-bin-left-to-chiup")
        else:
            got = per_bin.compute_statistic(o.copy(), e.copy())
            ctx.expect(numpy.shape(got) == o.shape, "one-value-per-bin", name,
                       numpy.shape(got))
            tol = 1e-9 * numpy.abs(want) + 1e-11 * (o + e) + 1e-30
            ctx.expect((numpy.abs(got - numpy.array(want)) <= tol).all(),
                       "per-bin", name, "got", got, "want", want)
            ctx.count("per-bin:" + name)
        if name != "ExtendedLL":
            ctx.expect((numpy.asarray(got) >= -1e-9 * scale).all(),
                       "not-negative", name, got)
        ctx.count("total:" + name)
        if (o == 0).any() and (e > 0).any():
            ctx.count("empty-observed")
        if (e == 0).any():
            ctx.count("empty-expected")
        # wrong shapes
        for a, b, exc in ((o.reshape(1, -1), e, TypeError),
                          (o, e.reshape(-1, 1), TypeError),
                          (numpy.append(o, 1.), e, ValueError),
                          (o, numpy.append(e, 1.), ValueError)):
            for t in (total, per_bin):
                ctx.raises(exc, lambda: t.compute_statistic(a.copy(),
                                                            b.copy()),
                           "shape-refused", name)
    ctx.sig(o, e)
    ctx.sample("observed %s expected %s" % (o, e))


def wl_consistency(ctx):
    """Additivity and order: splitting or permuting the bins changes
    nothing; read-only inputs of non-empty bins are enough."""
    rng = ctx.rng
    ts = E("fit.test_statistic")
    n = int(rng.randint(2, 30))
    o, e = rng.uniform(0.5, 50., size=n), rng.uniform(0.5, 50., size=n)
    p = rng.permutation(n)
    k = int(rng.randint(1, n))
    o.flags.writeable = e.flags.writeable = False
    for name in NAMES:
        t = getattr(ts, name)()
        whole = t.compute_statistic(o, e)
        ctx.close(t.compute_statistic(o[p], e[p]), whole, "order-free", name,
                  rtol=1e-9, atol=1e-9 * o.sum())
        ctx.close(t.compute_statistic(o[:k], e[:k]) +
                  t.compute_statistic(o[k:], e[k:]), whole, "additive", name,
                  rtol=1e-9, atol=1e-9 * o.sum())
        ctx.close(t.compute_statistic(o, e), whole, "repeatable", name,
                  rtol=0, atol=0)
        ctx.count("consistent:" + name)
    ctx.sig(o, e)
    ctx.sample("%d bins, split at %d" % (n, k))


def wl_chiup(ctx):
    """Per-bin upward statistic with an excess in some bin."""
    rng = ctx.rng
    ts = E("fit.test_statistic")
    o, e = _arrays(rng)
    o[rng.randint(len(o))] = e.max() + rng.uniform(0.5, 5.)
    want = numpy.array([STATS["BakerCousinsChiUp"](a, b)
                        for a, b in zip(o.tolist(), e.tolist())])
    ctx.count("excess-per-bin")
    ctx.sig(o, e)
    try:
        got = ts.BakerCousinsChiUp(per_bin=True).compute_statistic(
            o.copy(), e.copy())
    except ValueError as x:
        if "do not match" in str(x):
            ctx.fail("per-bin-refuses-excess", str(x), o, e)
        raise
    # an excess lost in the rounding of the total goes unnoticed
    total = float(want.sum())
    if numpy.allclose(numpy.sum(got), total):
        return
    ctx.close(got, want, "per-bin-excess", o, e, rtol=1e-8)


def wl_inputs(ctx):
    """The arrays a statistic is given are the caller's."""
    rng = ctx.rng
    ts = E("fit.test_statistic")
    name = NAMES[ctx.case % len(NAMES)]
    o, e = _arrays(rng)
    for a in (o, e):
        if rng.rand() < 0.6:
            a[rng.randint(len(a))] = 0.
    per_bin = bool(rng.randint(2))
    if name == "BakerCousinsChiUp" and (o > e).any():
        per_bin = False
    o2, e2 = o.copy(), e.copy()
    getattr(ts, name)(per_bin=per_bin).compute_statistic(o2, e2)
    ctx.count("inputs:" + name)
    ctx.sig(name, o, e)
    for which, a, b in (("observed", o, o2), ("expected", e, e2)):
        floored = numpy.where(a < EPS, EPS, a)
        if (a != b).any() and (b == floored).all():
            ctx.fail("floors-empty-%s-%s" % (which, name), a, b)
        ctx.same(b, a, "inputs-unchanged", name, which)


def wl_integers(ctx):
    """Integer counts mean the same as floating point counts."""
    rng = ctx.rng
    ts = E("fit.test_statistic")
    name = NAMES[ctx.case % len(NAMES)]
    n = int(rng.randint(1, 20))
    o, e = rng.randint(0, 20, size=n), rng.randint(0, 20, size=n)
    want = math.fsum(STATS[name](float(a), float(b)) for a, b in zip(o, e))
    ctx.count("integers:" + name)
    ctx.sig(name, o, e)
    got = getattr(ts, name)().compute_statistic(o.copy(), e.copy())
    ctx.count("checks")
    if not numpy.allclose(got, want, rtol=1e-9, atol=1e-9):
        ctx.fail("integer-arithmetic-%s" % name, "got", got, "want", want, o,
                 e)


def wl_penalty(ctx):
    rng = ctx.rng
    ts = E("fit.test_statistic")
    for _ in range(10):
        prior = float(rng.uniform(-10., 100.))
        sigma = float(rng.choice([1., 0.1, rng.uniform(0.01, 50.)]))
        pull = float(rng.choice([0., 1., -1., rng.uniform(-8., 8.)]))
        cur = prior + pull * sigma
        pull = (cur - prior) / sigma
        for name in NAMES:
            f = 0.5 if name == "BakerCousinsLL" else 1.
            for per_bin in (False, True):
                t = getattr(ts, name)(per_bin=per_bin)
                ctx.close(t.get_penalty_term(cur, prior, sigma),
                          f * pull * pull, "penalty", name, cur, prior, sigma)
                ctx.close(t.get_penalty_term(2 * prior - cur, prior, sigma),
                          f * pull * pull, "penalty-symmetric", name,
                          rtol=1e-6)
            ctx.close(t.get_penalty_term(prior, prior, sigma), 0.,
                      "no-penalty-at-prior", name)
            ctx.count("penalty:" + name)
        ctx.sig(cur, prior, sigma)
    # penalties of a parameter and of the statistic in use agree
    ctx.sample("penalty of %s at prior %s sigma %s" % (cur, prior, sigma))


PROPS = {
    "C14": Prop(
        "test statistics",
        [("formula", wl_formula, 150, 15000),
         ("consistency", wl_consistency, 100, 5000),
         ("chiup", wl_chiup, 30, 1500),
         ("inputs", wl_inputs, 120, 6000),
         ("integers", wl_integers, 60, 1500)],
        "random observed / expected arrays with empty bins, tiny and huge "
        "counts and equal contents, every statistic, total and per bin; "
        "distinct by contents",
        ["total:" + n for n in NAMES] + ["empty-observed", "empty-expected"] +
        ["inputs:" + n for n in NAMES] + ["integers:" + n for n in NAMES] +
        ["excess-per-bin", "check:shape-refused"],
        ["counts below 1e-34 are treated as that limit, as documented"]),
    "C15": Prop(
        "penalties", [("penalty", wl_penalty, 100, 5000)],
        "random current values, priors and sigmas for every statistic; "
        "distinct by values",
        ["penalty:" + n for n in NAMES]),
}
