"""Spectra filled from root files and ntuples (C28, C29)."""
import copy
import os

import numpy

import gen
from gen import E
from mon import Prop

import fakes

AV = 5997.          # mm, default outer radius

DIMS = ["energy_mc", "energy_truth", "energy_reco", "radial_mc",
        "radial_reco", "radial3_mc", "radial3_reco", "zradial3_mc",
        "zradial3_reco"]
RANGES = {"energy": [(0., 10.), (1., 4.), (0.5, 3.)],
          "radial": [(0., 6000.), (500., 4000.)],
          "radial3": [(0., 1.), (0.1, 2.)],
          "zradial3": [(-1., 1.), (-0.5, 2.)]}
CLASSES = {"energy_mc": "EnergyExtractMC", "energy_truth":
           "EnergyExtractTruth", "energy_reco": "EnergyExtractReco",
           "radial_mc": "RadialExtractMC", "radial_reco": "RadialExtractReco",
           "radial3_mc": "Radial3ExtractMC",
           "radial3_reco": "Radial3ExtractReco",
           "zradial3_mc": "ZRadial3ExtractMC",
           "zradial3_reco": "ZRadial3ExtractReco"}


def _split(dim):
    return dim.rsplit("_", 1)


def _mag(p):
    return float(numpy.sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2))


def _position(rng):
    k = rng.randint(8)
    if k == 0:
        return (float(rng.randint(-40, 40)) * 100., 0., 0.)
    if k == 1:
        return (float(rng.randint(1, 40)) * 100., 3., 0.)
    r = rng.uniform(0., 1.) ** (1. / 3.) * float(rng.choice([2000., 6500.]))
    v = rng.normal(size=3)
    v *= r / max(1e-9, _mag(v))
    return tuple(float(c) for c in v)


def _of_position(what, pos, outer):
    """The radial quantities of a position, straight from their names."""
    r = _mag(pos)
    if what == "radial":
        return r
    r3 = (r / outer) ** 3
    if what == "zradial3" and pos[2] < 0.:
        return -r3
    return r3


class Settings(object):
    """Random set-up of a file to read and a configuration to fill."""

    def __init__(self, rng, ntuple):
        self.external = rng.rand() < 0.25
        pool = list(DIMS)
        if self.external:      # no mc positions for external backgrounds
            pool = [d for d in DIMS if d.startswith("energy")
                    or d.endswith("reco")]
        n = int(rng.choice([1, 2, 2, 3]))
        dims, kinds = [], set()
        style = rng.randint(3)
        for i in rng.permutation(len(pool)):
            what, kind = _split(pool[i])
            if style == 0 and kind != "reco":
                continue
            if style == 1 and kind == "reco":
                continue
            if what in kinds and rng.rand() < 0.7:
                continue
            kinds.add(what)
            dims.append(pool[i])
            if len(dims) == n:
                break
        self.dims = dims or ["energy_reco"]
        self.axes = []
        for d in self.dims:
            lo, hi = RANGES[_split(d)[0]][rng.randint(
                len(RANGES[_split(d)[0]]))]
            self.axes.append((d, lo, hi, int(rng.choice([1, 2, 3, 5, 8]))))
        self.fv = None if rng.rand() < 0.4 else float(
            rng.choice([3500., 2000., 5500., 1.]))
        self.outer = None if rng.rand() < 0.5 else float(
            rng.choice([6000., 3000., 1500.]))
        self.bipo = rng.rand() < 0.4
        # positions may only be missing or doubtful where nothing cuts on them
        self.loose = self.fv is None

    def variant(self, rng):
        """The same dimensions with cuts of its own, for a further file."""
        v = copy.copy(self)
        if rng.rand() < 0.5:
            return v
        v.bipo = rng.rand() < 0.5
        if not self.external:
            v.fv = None if rng.rand() < 0.4 else float(
                rng.choice([3000., 2000., 5500.]))
            v.loose = v.fv is None
        return v

    def kwargs(self):
        kw = {}
        if self.fv is not None:
            kw["fv_radius"] = self.fv
        if self.external:
            kw["external"] = True
        if self.outer is not None:
            kw["outer_radius"] = self.outer
        return kw

    def config(self, ctx, rng, count):
        """The configuration as an object or in a yaml file."""
        cfg = gen.config(self.axes, "cfg")
        if rng.rand() < 0.6:
            return cfg
        path = os.path.join(ctx.tmp(), "cfg%d.yml" % rng.randint(10 ** 6))
        with open(path, "w") as f:
            f.write("parameters:\n")
            for n, lo, hi, b in self.axes:
                f.write("    %s:\n        low: %r\n        high: %r\n"
                        "        bins: %d\n" % (n, lo, hi, b))
        ctx.count("config-files")
        return path

    def clear_bins(self, values):
        """No value is so close to an edge that rounding decides its bin."""
        for d, lo, hi, b in self.axes:
            v = values.get(d)
            if v is None:
                continue
            for bound in (lo, hi):
                if v != bound and abs(v - bound) < 1e-6 * (hi - lo):
                    return False
            c = gen.candidates(v, lo, hi, b)
            if c is not None and len(c) > 1:
                return False
        return True

    def clear_fv(self, positions):
        return self.fv is None or all(abs(_mag(p) - self.fv) > 1e-3
                                      for p in positions if p is not None)

    def empty(self):
        return numpy.zeros([a[3] for a in self.axes])

    def put(self, data, values):
        idx = []
        for d, lo, hi, b in self.axes:
            c = gen.candidates(values[d], lo, hi, b)
            if c is None:
                return 0
            idx.append(c[0])
        data[tuple(idx)] += 1.
        return 1


# ------------------------------------------------------------------ C28 root
def _ds(rng, s):
    """A data structure entry."""
    mc = {"particles": [_position(rng)
                        for _ in range(int(rng.choice([0, 1, 1, 1, 1, 2])))],
          "quenched": float(rng.uniform(0., 11.)),
          "edep": float(rng.uniform(0., 11.))}
    if rng.rand() < 0.1:        # hardly or nothing seen of the energy
        mc["quenched"] = float(rng.choice([0., 1e-4, 0.3]))
    if s.external and s.fv is not None:
        n_ev = int(rng.choice([0, 1, 1]))
    else:
        n_ev = int(rng.choice([0, 1, 1, 1, 2, 3]))
    evs = []
    for _ in range(n_ev):
        if rng.rand() < 0.15 and not (s.external and s.fv is not None):
            evs.append({"vertex": None})
            continue
        ce = rng.rand() < 0.85
        # validity means nothing for a fit without the quantity
        v = {"contains_energy": ce, "valid_energy": rng.rand() < 0.85,
             "energy": float(rng.uniform(0., 11.)),
             "contains_position": True, "valid_position": True,
             "pos": _position(rng)}
        if rng.rand() < 0.2:
            # cuts on positions that are not there, or not valid, are left out
            if s.fv is None:
                v["contains_position"] = rng.rand() < 0.5
                v["valid_position"] = not v["contains_position"] and \
                    rng.rand() < 0.5
            elif not any(d == "energy_reco" for d in s.dims) and \
                    not s.external:
                v["valid_position"] = False
        evs.append({"vertex": v})
    return {"mc": mc, "evs": evs}


def _root_value(dim, mc, ev, s):
    """(valid, value) of a dimension for an event, from the documentation."""
    what, kind = _split(dim)
    if kind == "reco":
        v = ev["vertex"]
        if v is None:
            return False, None
        if what == "energy":
            if not (v["contains_energy"] and v["valid_energy"]):
                return False, None
        elif not (v["contains_position"] and v["valid_position"]):
            return False, None
        if s.fv is not None and not _mag(v["pos"]) < s.fv:
            return False, None
        if what == "energy":
            return True, v["energy"]
        return True, _of_position(what, v["pos"], s.outer or AV)
    if not mc["particles"]:
        return False, None
    if s.fv is not None and not s.external and \
            not _mag(mc["particles"][0]) < s.fv:
        return False, None
    if what == "energy":
        return True, mc["quenched"] if kind == "mc" else mc["edep"]
    return True, _of_position(what, mc["particles"][0], s.outer or AV)


def _root_events(ds, s):
    """The events of an entry that count: list of {dimension: value}."""
    kinds = set(_split(d)[1] for d in s.dims)
    if s.bipo and len(ds["evs"]) != 1:
        return []
    res = []
    if "reco" in kinds:
        candidates = ds["evs"]
    else:
        candidates = [None]
    for ev in candidates:
        values = {}
        for d in s.dims:
            if _split(d)[1] != "reco" and s.external:
                # the positions of externals are reconstructed ones
                if not ds["evs"]:
                    break
                if s.fv is not None and not \
                        _mag(ds["evs"][0]["vertex"]["pos"]) < s.fv:
                    break
            ok, values[d] = _root_value(d, ds["mc"], ev, s)
            if not ok:
                break
        else:
            res.append(values)
    return res


def _all_values(ds, s):
    res = [{d: _root_value(d, ds["mc"], None, _NoCuts(s))[1]
            for d in s.dims if _split(d)[1] != "reco"}]
    for ev in ds["evs"]:
        if ev["vertex"] is not None:
            res.append({d: _root_value(d, ds["mc"], ev, _NoCuts(s))[1]
                        for d in s.dims if _split(d)[1] == "reco"})
    return res


class _NoCuts(object):
    fv = None
    external = False

    def __init__(self, s):
        self.outer = s.outer


def _root_file(rng, s, n):
    res = []
    while len(res) < n:
        ds = _ds(rng, s)
        pos = ds["mc"]["particles"] + [
            e["vertex"]["pos"] for e in ds["evs"] if e["vertex"]]
        if s.clear_fv(pos) and all(s.clear_bins(v)
                                   for v in _all_values(ds, s)):
            res.append(ds)
    return res


def _check(ctx, s, spec, want, filled, decays, name, what, flag):
    ctx.expect(spec.get_name() == name, "name", spec.get_name(), what)
    ctx.expect(spec.get_num_decays() == decays, "num-decays",
               spec.get_num_decays(), "entries", decays, what)
    ctx.expect(spec._raw_events == filled, "raw-events", spec._raw_events,
               "events that passed", filled, what)
    ctx.expect(bool(spec.get_bipo()) == bool(flag), "bipo-flag",
               spec.get_bipo(), what)
    ctx.same(spec.get_data(), want, "contents", what, "dims", s.dims,
             "cuts", s.kwargs())
    ctx.count("events", filled)


def _options(rng, s):
    """The cuts; that there is no bipo cut is said or left to the default."""
    kw = dict(s.kwargs())
    if s.fv is None and rng.rand() < 0.3:
        kw["fv_radius"] = None
    if not s.external and rng.rand() < 0.3:
        kw["external"] = False
    if s.bipo or rng.rand() < 0.5:
        kw["bipo"] = s.bipo
    return kw


def _size(rng, usual):
    """Entries of a file, sometimes more than fit into a byte."""
    return 600 if rng.rand() < 0.02 else int(rng.choice(usual))


def _not_required(rng, s):
    extra = {}
    if rng.rand() < 0.3:
        extra["spectrum_name"] = "another"
    if rng.rand() < 0.3:
        extra["config"] = gen.config([(n, lo, hi + 1., b + 1) for
                                      n, lo, hi, b in s.axes], "another")
    return extra


def wl_root(ctx):
    rng = ctx.rng
    F = E("core.fill_spectrum")
    s = Settings(rng, False)
    files, tables, sets = [], [], []
    for k in range(int(rng.choice([1, 1, 2, 3]))):
        name = "/data/run_%d_%d.root" % (ctx.case, k)
        sets.append(s if not k else s.variant(rng))
        fakes.ROOT_FILES[name] = _root_file(
            rng, sets[-1], _size(rng, [0, 1, 5, 20, 40]))
        files.append(name)
        tables.append(fakes.ROOT_FILES[name])
    cfg = s.config(ctx, rng, None)
    kinds = set(_split(d)[1] for d in s.dims)
    ctx.count("mixed" if "reco" in kinds and len(kinds) > 1 else
              "reco-only" if "reco" in kinds else "mc-only")
    ctx.sample("dims %s, %d files of %s entries, cuts %s, bipo %s" % (
        s.axes, len(files), [len(t) for t in tables], s.kwargs(), s.bipo))
    want, filled, decays = s.empty(), 0, 0
    spec = None
    import json
    before = json.dumps(tables)
    flag = False
    for f, t, s in zip(files, tables, sets):
        flag = flag or s.bipo
        if spec is None:
            spec = F.fill_from_root(f, spectrum_name="te130", config=cfg,
                                    **_options(rng, s))
        else:
            # name and configuration are those of the spectrum appended to
            extra = _not_required(rng, s)
            other = F.fill_from_root(f, spectrum=spec,
                                     **dict(_options(rng, s), **extra))
            ctx.expect(other is spec, "appends", "another spectrum returned")
            ctx.count("appended")
        for ds in t:
            evs = _root_events(ds, s)
            n = sum(s.put(want, v) for v in evs)
            ctx.count("entries")
            ctx.count("rejected" if not n else "accepted")
            if len(ds["evs"]) > 1:
                ctx.count("several-triggers")
            filled += n
        decays += len(t)
        _check(ctx, s, spec, want, filled, decays, "te130", f, flag)
    ctx.expect(json.dumps(tables) == before, "reads-only", "file changed")
    if s.external:
        ctx.count("external")
    if s.fv is not None:
        ctx.count("fiducial-cut")
    if s.bipo:
        ctx.count("bipo")
    ctx.sig(s.axes, str(s.kwargs()), s.bipo, spec.get_data())
    for f in files:
        del fakes.ROOT_FILES[f]


def _spec_case(rng, ntuple):
    """One extractor with explicit choice of the position to cut on."""
    s = Settings(rng, ntuple)
    dim = DIMS[rng.randint(len(DIMS))]
    what, kind = _split(dim)
    s.dims = [dim]
    s.external = what == "energy" and rng.rand() < 0.2 or \
        kind == "reco" and rng.rand() < 0.2
    other = rng.rand() < 0.5 and not (s.external and kind == "reco")
    kw = {"fv_radius": s.fv, "external": s.external}
    kw["mc_pos" if kind == "reco" else "reco_pos"] = other
    if what in ("radial3", "zradial3"):
        kw["outer_radius"] = s.outer
    return s, dim, kw, other


def wl_root_extractors(ctx):
    rng = ctx.rng
    X = E("core.dsextract")
    s, dim, kw, other = _spec_case(rng, False)
    what, kind = _split(dim)
    ex = getattr(X, CLASSES[dim])(**kw)
    ctx.expect(ex._name == dim, "extractor-name", ex._name, dim)
    ctx.sig(dim, str(sorted(kw.items(), key=str)), ctx.case)
    ctx.sample("%s %s" % (CLASSES[dim], kw))
    n = 0
    while n < 12:
        ds = _ds(rng, s)
        if other and kind == "reco" and not ds["mc"]["particles"]:
            continue
        swap = kind != "reco" and s.fv is not None and (
            other or s.external)
        if swap and any(e["vertex"] is None for e in ds["evs"]):
            continue
        if swap and len(ds["evs"]) > 1:
            if ds["mc"]["particles"]:
                # which of the positions to use?
                ctx.raises(ValueError, lambda: ex.get_valid_root(
                    fakes.MC(ds["mc"]), fakes.DS(ds)), "ambiguous-position",
                    dim)
                ctx.count("ambiguous")
            n += 1
            continue
        pos = ds["mc"]["particles"] + [
            e["vertex"]["pos"] for e in ds["evs"] if e["vertex"]]
        if not s.clear_fv(pos):
            continue
        n += 1
        cut = _NoCuts(s)
        for ev in (ds["evs"] if kind == "reco" else [None]):
            ok, value = _root_value(dim, ds["mc"], ev, cut)
            if ok and s.external and kind != "reco":
                ok = bool(ds["evs"])
            if ok and s.fv is not None:
                if kind == "reco":
                    p = ds["mc"]["particles"][0] if other else \
                        ev["vertex"]["pos"]
                elif other or s.external:
                    p = ds["evs"][0]["vertex"]["pos"] if ds["evs"] else None
                else:
                    p = ds["mc"]["particles"][0]
                ok = p is not None and _mag(p) < s.fv
            obj = fakes.MC(ds["mc"]) if ev is None else fakes.EV(ev)
            got = ex.get_valid_root(obj, fakes.DS(ds))
            ctx.expect(bool(got) == bool(ok), "valid", dim, kw, "got", got,
                       "entry", ds)
            ctx.count("valid" if ok else "invalid")
            if ok:
                ctx.close(ex.get_value_root(obj), value, "value", dim, ds,
                          rtol=1e-12)
    _refusals(ctx, rng, X)


def _refusals(ctx, rng, X):
    for dim in DIMS:
        what, kind = _split(dim)
        cls = getattr(X, CLASSES[dim])
        if kind == "reco":
            ctx.raises(ValueError, lambda: cls(external=True, mc_pos=True),
                       "external-mc-position", dim)
        elif what != "energy":
            ctx.raises(ValueError, lambda: cls(external=True),
                       "external-mc-position", dim)
            ctx.raises(ValueError, lambda: X.function_factory(
                dim, external=True), "external-mc-position", dim)
        ex = X.function_factory(dim, fv_radius=1234.)
        ctx.expect(type(ex) is cls, "factory", dim, type(ex))
        ctx.expect(ex._fv_radius == 1234., "factory", dim, ex._fv_radius)
    for bad in ("energy", "energy_x", "radial_truth", "", "radial4_mc"):
        ctx.raises(IndexError, lambda: X.function_factory(bad), "unknown",
                   bad)
    ctx.count("refusals")


def wl_fill_refusals(ctx):
    rng = ctx.rng
    F = E("core.fill_spectrum")
    s = Settings(rng, False)
    s.external = False
    fakes.ROOT_FILES["r"] = _root_file(rng, s, 5)
    fakes.NTUPLES["n"] = _rows(rng, s, 5)
    cfg = gen.config(s.axes, "cfg")
    for fill, f in ((F.fill_from_root, "r"), (F.fill_from_ntuple, "n")):
        ctx.raises(ValueError, lambda: fill(f, config=cfg), "no-name")
        ctx.raises(ValueError, lambda: fill(f, spectrum_name="x"),
                   "no-config")
        bad = gen.config([("energy_mc", 0., 1., 2), ("energy_foo", 0., 1., 2)],
                         "c")
        ctx.raises(IndexError, lambda: fill(f, spectrum_name="x",
                                            config=bad), "unknown-type")
        bad = gen.config([("height_mc", 0., 1., 2)], "c")
        ctx.raises(IndexError, lambda: fill(f, spectrum_name="x",
                                            config=bad), "unknown-dimension")
        ctx.count("refused-fills")
    ctx.sig(ctx.case)
    ctx.sample("refusals with %s" % s.axes)
    fakes.ROOT_FILES.clear()
    fakes.NTUPLES.clear()


# ---------------------------------------------------------------- C29 ntuples
def _row(rng, ev_index):
    mc, reco = _position(rng), _position(rng)
    return {"evIndex": ev_index, "mc": int(rng.rand() < 0.85),
            "scintFit": int(rng.rand() < 0.85) if rng.rand() < 0.95 else
            -1,
            "energy": float(rng.choice([rng.uniform(0., 11.), 0., -1.,
                                        rng.uniform(0.5, 4.)])),
            "mcEdepQuenched": float(
                rng.uniform(0., 11.) if rng.rand() < 0.9 else
                rng.choice([0., 1e-4, 0.3])),
            "mcEdep": float(rng.uniform(0., 11.)),
            "posx": reco[0], "posy": reco[1], "posz": reco[2],
            "mcPosx": mc[0], "mcPosy": mc[1], "mcPosz": mc[2]}


def _pos(row, kind):
    p = "pos" if kind == "reco" else "mcPos"
    return tuple(row[p + c] for c in "xyz")


def _row_value(dim, row, s, position=None):
    what, kind = _split(dim)
    if kind == "reco":
        if row["scintFit"] != 1 or (what == "energy" and
                                    not row["energy"] > 0):
            return False, None
    elif row["mc"] != 1:
        return False, None
    if s.external and kind != "reco" and row["scintFit"] != 1:
        return False, None
    if s.fv is not None:
        use = position or ("reco" if s.external else kind)
        if use == "reco" and row["scintFit"] != 1:
            return False, None
        if not _mag(_pos(row, use)) < s.fv:
            return False, None
    if what == "energy":
        return True, {"reco": row["energy"], "mc": row["mcEdepQuenched"],
                      "truth": row["mcEdep"]}[kind]
    return True, _of_position(what, _pos(row, kind), s.outer or AV)


def _row_events(row, s):
    values = {}
    for d in s.dims:
        ok, values[d] = _row_value(d, row, s)
        if not ok:
            return []
    return [values]


def _rows(rng, s, n):
    res = []
    nxt = 0
    while len(res) < n:
        # events of 0 (evIndex -1), 1 or more triggers
        k = int(rng.choice([0, 1, 1, 1, 2, 3]))
        for i in ([-1] if k == 0 else range(k)):
            for _ in range(1000):
                row = _row(rng, i)
                free = _NoCuts(s)
                vals = {}
                for d in s.dims:
                    r = dict(row, scintFit=1, mc=1)
                    if d == "energy_reco":
                        r["energy"] = max(r["energy"], 1e-3)
                    vals[d] = _row_value(d, r, free)[1]
                if s.clear_bins(vals) and s.clear_fv(
                        [_pos(row, "mc"), _pos(row, "reco")]):
                    break
            res.append(row)
    if rng.rand() < 0.3 and res:           # cut in the middle of an event
        res = res[:n]
    return res


def wl_ntuple(ctx):
    rng = ctx.rng
    F = E("core.fill_spectrum")
    s = Settings(rng, True)
    files, tables, sets = [], [], []
    for k in range(int(rng.choice([1, 1, 2, 3]))):
        name = "/data/nt_%d_%d.ntuple.root" % (ctx.case, k)
        sets.append(s if not k else s.variant(rng))
        fakes.NTUPLES[name] = _rows(rng, sets[-1],
                                    _size(rng, [0, 1, 5, 30, 60]))
        files.append(name)
        tables.append(fakes.NTUPLES[name])
    cfg = s.config(ctx, rng, None)
    ctx.sample("dims %s, %d files of %s rows, cuts %s, bipo %s" % (
        s.axes, len(files), [len(t) for t in tables], s.kwargs(), s.bipo))
    want, filled, decays = s.empty(), 0, 0
    spec = None
    flag = False
    for f, t, s in zip(files, tables, sets):
        flag = flag or s.bipo
        if spec is None:
            spec = F.fill_from_ntuple(f, spectrum_name="te130", config=cfg,
                                      **_options(rng, s))
        else:
            # name and configuration are those of the spectrum appended to
            extra = _not_required(rng, s)
            other = F.fill_from_ntuple(f, spectrum=spec,
                                       **dict(_options(rng, s), **extra))
            ctx.expect(other is spec, "appends", "another spectrum returned")
            ctx.count("appended")
        for i, row in enumerate(t):
            if s.bipo:
                # only events with exactly one trigger survive
                alone = row["evIndex"] == 0 and (
                    i + 1 == len(t) or t[i + 1]["evIndex"] < 1)
                if not alone:
                    ctx.count("bipo-cut")
                    continue
            n = sum(s.put(want, v) for v in _row_events(row, s))
            ctx.count("rejected" if not n else "accepted")
            if n and s.bipo and i + 1 == len(t):
                ctx.count("bipo-last")
            filled += n
            ctx.count("rows")
        decays += len(t)
        _check(ctx, s, spec, want, filled, decays, "te130", f, flag)
    if s.external:
        ctx.count("external")
    if s.fv is not None:
        ctx.count("fiducial-cut")
    if s.bipo:
        ctx.count("bipo")
    ctx.sig(s.axes, str(s.kwargs()), s.bipo, spec.get_data())
    for f in files:
        del fakes.NTUPLES[f]


class _Entry(object):
    def __init__(self, row):
        self.__dict__.update(row)


def wl_ntuple_extractors(ctx):
    rng = ctx.rng
    X = E("core.dsextract")
    s, dim, kw, other = _spec_case(rng, True)
    what, kind = _split(dim)
    ex = getattr(X, CLASSES[dim])(**kw)
    ctx.sig(dim, str(sorted(kw.items(), key=str)), ctx.case)
    ctx.sample("%s %s" % (CLASSES[dim], kw))
    use = kind if kind == "reco" else "mc"
    if other:
        use = "mc" if kind == "reco" else "reco"
    if s.external:
        use = "reco"
    n = 0
    while n < 15:
        row = _row(rng, 0)
        if not s.clear_fv([_pos(row, "mc"), _pos(row, "reco")]):
            continue
        n += 1
        ok, value = _row_value(dim, row, s, use)
        got = ex.get_valid_ntuple(_Entry(row))
        ctx.expect(bool(got) == bool(ok), "valid", dim, kw, "got", got,
                   "row", row)
        ctx.count("valid" if ok else "invalid")
        if ok:
            ctx.close(ex.get_value_ntuple(_Entry(row)), value, "value", dim,
                      row, rtol=1e-12)


PROPS = {
    "C28": Prop(
        "root files",
        [("root", wl_root, 300, 15000),
         ("extractors", wl_root_extractors, 150, 8000),
         ("refusals", wl_fill_refusals, 30, 1000)],
        "random root files (events of 0-3 triggers, missing and invalid "
        "fits, 0-2 particles) into random configurations of mc, truth and "
        "reco dimensions, with fiducial, external and bipo cuts, appended or "
        "not; every extractor class with either position; distinct by "
        "settings and contents",
        ["entries", "accepted", "rejected", "mixed", "reco-only", "mc-only",
         "external", "fiducial-cut", "bipo", "appended", "several-triggers",
         "valid", "invalid", "ambiguous", "refused-fills", "config-files"],
        ["root files are those of the stand-in in lib/fakes.py"]),
    "C29": Prop(
        "ntuples",
        [("ntuple", wl_ntuple, 300, 15000),
         ("extractors", wl_ntuple_extractors, 150, 8000)],
        "random ntuples (events of 0-3 triggers, failed fits) into random "
        "configurations of mc, truth and reco dimensions, with fiducial, "
        "external and bipo cuts, appended or not; every extractor class with "
        "either position; distinct by settings and contents",
        ["rows", "accepted", "rejected", "external", "fiducial-cut", "bipo",
         "bipo-cut", "bipo-last", "appended", "valid", "invalid",
         "config-files"],
        ["ntuples are those of the stand-in in lib/fakes.py"]),
}
