"""Command line tools (C31)."""
from collections import OrderedDict
import copy
import hashlib
import logging
import os
import sys

import numpy

import fakes
import gen
import py2load
from gen import E
from mon import Prop, Violation
import c_extract
from c_fit import Scene
from c_limit import Case
from c_store import _same_spectrum


def _tree(root):
    res = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                res[os.path.relpath(p, root)] = hashlib.sha1(
                    h.read()).hexdigest()
    return res


class _Logs(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelname, record.getMessage()))


class Run(object):
    """One run of a script in a scratch directory, observed from outside."""

    def __init__(self, ctx, script, argv, cwd, seed=None):
        root = os.path.join(py2load.REPO, "echidna", "scripts")
        util, settings = E("utilities"), E("settings")
        logs = _Logs()
        top = logging.getLogger()
        old = (top.level, list(top.handlers), logging.root.manager.disable,
               dict(settings.user_profile), util.logger_set,
               py2load.PY2["raw_input"])
        before = _tree(ctx.tmp())
        os.chdir(cwd)
        reseed = numpy.random.seed
        if seed is not None:
            reseed(seed)    # and whenever the script asks for a new seed
            numpy.random.seed = lambda *a: reseed(*(a or (seed,)))
        self.error = self.code = None
        try:
            logdir = os.path.join(ctx.tmp(), "logs")
            if not os.path.isdir(logdir):
                os.mkdir(logdir)
            settings.user_profile["log_save_path"] = logdir + "/"
            util.logger_set = True
            py2load.PY2["raw_input"] = lambda *a: ""
            for h in old[1]:
                top.removeHandler(h)
            top.addHandler(logs)
            top.setLevel(logging.DEBUG)
            logging.disable(logging.NOTSET)
            self.module = py2load.run_script(os.path.join(root, script),
                                             argv)
        except SystemExit as e:
            self.code = e.code
        except Violation:
            raise
        except Exception as e:
            self.error = e
        finally:
            numpy.random.seed = reseed
            logging.captureWarnings(False)
            for h in list(top.handlers):
                top.removeHandler(h)
            for h in old[1]:
                top.addHandler(h)
            top.setLevel(old[0])
            logging.disable(old[2])
            settings.user_profile.update(old[3])
            util.logger_set = old[4]
            py2load.PY2["raw_input"] = old[5]
            os.chdir(ctx.tmp())
        self.logs = logs.lines
        after = _tree(ctx.tmp())
        self.new = sorted(set(after) - set(before))
        self.changed = sorted(k for k in before if after.get(k) != before[k])
        self.what = "%s %s: code %s, error %r, errors logged %s" % (
            script, " ".join(argv), self.code, self.error,
            [m for l, m in self.logs if l in ("ERROR", "CRITICAL")])
        ctx.log(self.what, "wrote", self.new)
        ctx.count("runs")

    def failed(self):
        return self.error is not None or self.code not in (None, 0) or any(
            l in ("ERROR", "CRITICAL") for l, _ in self.logs)


def _wrote(ctx, run, files, replaced=()):
    """The run succeeded and wrote exactly these files (relative paths)."""
    ctx.expect(not run.failed(), "script-succeeds", run.what)
    ctx.expect(run.new == sorted(set(files) - set(replaced)),
               "files-written", run.new, "want", sorted(files), run.what)
    ctx.expect(run.changed == sorted(replaced), "inputs-left-alone",
               run.changed, run.what)


def _refused(ctx, run):
    ctx.expect(run.failed(), "script-refuses", run.what)
    ctx.expect(not run.new and not run.changed, "refusal-writes-nothing",
               run.new, run.changed, run.what)
    ctx.count("refusals")


class Where(object):
    """Spellings of the path of an input file."""

    def __init__(self, ctx, name):
        rng = ctx.rng
        base = os.path.realpath(ctx.tmp())
        self.sub = ["", "in", "v1.0/in"][rng.randint(3)]
        os.makedirs(os.path.join(base, "work"), exist_ok=True)
        style = rng.randint(3)
        if style == 0:                      # beside the working directory
            self.dir = os.path.join(base, self.sub)
            self.arg = os.path.join(self.dir, name)
        elif style == 1:                    # below it
            self.dir = os.path.join(base, "work", self.sub or "in")
            self.arg = os.path.join(self.sub or "in", name)
        else:                               # in it
            self.dir = os.path.join(base, "work")
            self.arg = name
            ctx.count("bare-file-names")
        os.makedirs(self.dir, exist_ok=True)
        self.path = os.path.join(self.dir, name)
        self.cwd = os.path.join(base, "work")
        self.base = base

    def rel(self, name, directory=None):
        return os.path.relpath(os.path.join(directory or self.dir, name),
                               self.base)


STEMS = ["te130_mc", "b8.v2", "U238", "x_0.1_y"]


def _axes(rng):
    ax = []
    if rng.rand() < 0.85:
        ax.append(("energy_" + str(rng.choice(["mc", "reco"])),
                   float(rng.choice([0., 1.])), float(rng.choice([5., 3.])),
                   int(rng.choice([8, 12, 20]))))
    if rng.rand() < 0.6:
        ax.append(("radial_" + str(rng.choice(["mc", "reco"])), 0.,
                   float(rng.choice([600., 6000.])),
                   int(rng.choice([4, 6, 10]))))
    if not ax or rng.rand() < 0.3:
        ax.append(("time_mc", 0., 1., int(rng.choice([4, 5]))))
    return [ax[i] for i in rng.permutation(len(ax))]


def _spectrum(rng, ax, whole=False):
    shape = [a[3] for a in ax]
    data = rng.poisson(1.5, size=shape).astype(float) if whole or \
        rng.rand() < 0.5 else None
    s = gen.spectrum(rng, ax, name="s%d_mc" % rng.randint(99), data=data)
    if rng.rand() < 0.4:
        s.set_style({"color": "red", "label": "l"})
    s._bipo = int(rng.randint(2))
    return s


def wl_convert(ctx):
    rng = ctx.rng
    store = E("output.store")
    tool = ["rebin", "shrink", "scaled", "shifted", "smeared",
            "smeared_energy"][ctx.case % 6]
    random = tool.startswith("smeared") and rng.rand() < 0.5
    ax = _axes(rng)
    s = _spectrum(rng, ax, random)
    stem = STEMS[rng.randint(len(STEMS))]
    w = Where(ctx, stem + ".hdf5")
    store.dump(w.path, s)
    x = store.load(w.path)
    seed = int(rng.randint(10 ** 6))
    pars = [a[0] for a in ax]
    out = None
    dest = None
    if tool in ("rebin", "shrink") and rng.rand() < 0.5:
        out = os.path.join(w.cwd, "out_%d.h5" % rng.randint(9))
    if tool in ("scaled", "smeared_energy") and rng.rand() < 0.5:
        dest = os.path.join(w.base, "dest.d")
        os.mkdir(dest)
    darg = [] if dest is None else ["-d", dest + ("/" if rng.rand() < 0.5
                                                  else "")]
    if tool == "rebin":
        new = [int(rng.choice(gen.divisors(a[3]))) for a in ax]
        x.rebin(new)
        argv = ["-i", w.arg, "-b"] + [str(n) for n in new]
        ctx.expect(x._data.shape == tuple(new), "rebinned")
        name = w.rel(stem + "_rebin.hdf5")
        script = "rebin.py"
    elif tool == "shrink":
        k = int(rng.randint(1, len(ax) + 1))
        pick = [ax[i] for i in rng.permutation(len(ax))[:k]]
        low, up, kw = [], [], {}
        sides = ["lu", "l", "u"][rng.randint(3)]
        for n, lo, hi, b in pick:
            i = int(rng.randint(b))
            j = int(rng.randint(i + 1, b + 1))
            width = (hi - lo) / b
            if "l" in sides:
                low.append(repr(lo + i * width))
                kw[n + "_low"] = float(low[-1])
            if "u" in sides:
                up.append(repr(lo + j * width))
                kw[n + "_high"] = float(up[-1])
        x.shrink(**kw)
        argv = ["-i", w.arg, "-p"] + [p[0] for p in pick] + \
            (["-l"] + low if low else []) + (["-u"] + up if up else [])
        name = w.rel(stem + "_shrunk.hdf5")
        script = "dump_shrink.py"
        ctx.count("bounds:" + sides)
    elif tool == "scaled":
        f = float(rng.choice([1.1, 0.95, 2., 1.25, 1.0234567, 10., 0.9999999,
                              100., 5e-10,
                              round(rng.uniform(0.9, 1.2), 7)]))
        par = str(rng.choice(pars))
        c = E("core.scale").Scale()
        c.set_scale_factor(f)
        x = c.scale(x, par)
        argv = ["-p", par, "-f", w.arg, "-s", repr(f)] + darg
        name = w.rel(stem + "_%ssc.hdf5" % (
            repr(f)[:-2] if repr(f).endswith(".0") else repr(f)), dest)
        script = "dump_scaled.py"
    elif tool == "shifted":
        par = ax[rng.randint(len(ax))]
        f = (par[2] - par[1]) / par[3] * float(rng.choice(
            [1., -1., 0.4] if par[3] > 5 else [1., -1.]))
        f = float("%.6g" % f)
        c = E("core.shift").Shift()
        c.set_shift(f)
        x = c.shift(x, par[0])
        argv = ["-d", par[0], "-f", w.arg, "--shift=%r" % f]
        name = w.rel(stem + "_shifted.hdf5")
        script = "dump_shifted.py"
    else:
        sm = E("core.smear")
        method = "random" if random else "weight"
        res = float(rng.choice([0.05, 0.1, 0.5, 0.75])) if rng.rand() < 0.5 else None
        ly = float(rng.choice([150., 300., 72.5]))
        gaus = bool(rng.rand() < 0.5)
        radial = None
        if tool == "smeared":
            script = "dump_smeared.py"
            e = sm.EnergySmearLY() if res is None else sm.EnergySmearRes()
            if res:
                e.set_resolution(res)
            radial = sm.RadialSmear()
            argv = ([] if res is None else ["-r", repr(res)]) + [w.arg]
            name = w.rel(stem + "_smeared.hdf5")
        else:
            script = "dump_smeared_energy.py"
            cls = sm.EnergySmearLY if res is None else sm.EnergySmearRes
            e = cls(poisson=not gaus)
            e.set_resolution(ly if res is None else res)
            argv = (["-l", repr(ly)] if res is None or rng.rand() < 0.3
                    else []) + ([] if res is None else ["-r", repr(res)]) + \
                (["-g"] if gaus else []) + darg + [w.arg]
            name = w.rel(stem + ("_%sly.hdf5" % ("%g" % ly) if res is None
                                 else "_%srs.hdf5" % res), dest)
        if random or rng.rand() < 0.5:
            argv = ["-m", method] + argv
        steps = []
        for p in pars:
            c = e if p.startswith("energy") else radial \
                if p.startswith("radial") else None
            if c is not None:
                steps.append((getattr(c, "random_smear" if random else
                                      "weighted_smear"), p))
        smears = len(steps)
        # the draws of two random smears may come in either order
        xs = []
        for order in ([steps, steps[::-1]] if random else [steps]):
            for again in ((False, True) if random else (False,)):
                y = copy.deepcopy(x)
                numpy.random.seed(seed)
                for f, p in order:
                    if again:
                        numpy.random.seed(seed)
                    y = f(y, par=p)
                xs.append(y)
        ctx.count("smear:" + method)
        if not smears:
            ctx.count("nothing-to-smear")
    if not tool.startswith("smeared"):
        xs = [x]
    if out:
        argv = ["-o", out] + argv if rng.rand() < 0.5 else argv + ["-o", out]
        name = os.path.relpath(out, w.base)
        ctx.count("output-given")
    if dest:
        ctx.count("destination-given")
    replaced = []
    if rng.rand() < 0.3:                # the output of an earlier run
        was = gen.spectrum(rng, [("time_reco", 0., 2., 3)], name="old_mc")
        store.dump(os.path.join(w.base, name), was)
        replaced = [name]
        ctx.count("output-replaced")
    run = Run(ctx, script, argv, w.cwd, seed)
    _wrote(ctx, run, [name], replaced)
    got = store.load(os.path.join(w.base, name))
    for x in xs[1:]:
        if got._data.shape == x._data.shape and numpy.allclose(
                got._data, x._data, rtol=1e-9, atol=0):
            break
    else:
        x = xs[0]
    _same_spectrum(ctx, x, got, "result")
    ctx.count("tool:" + tool)
    ctx.sig(tool, argv[:-1], s._data)
    ctx.sample("%s of %s" % (" ".join(argv), ax))


def wl_refusals(ctx):
    rng = ctx.rng
    store = E("output.store")
    ax = [("energy_mc", 0., 5., 10), ("radial_mc", 0., 600., 6)]
    s = _spectrum(rng, ax)
    w = Where(ctx, "te130.hdf5")
    store.dump(w.path, s)
    a = w.arg
    nodir = os.path.join(w.base, "nowhere")
    cases = [
        ("rebin.py", ["-i", a, "-b", "3", "6"]),        # does not divide
        ("rebin.py", ["-i", a, "-b", "5"]),
        ("rebin.py", ["-i", a, "-b", "5", "3", "2"]),
        ("rebin.py", ["-i", a + "x.hdf5", "-b", "5", "6"]),
        ("dump_shrink.py", ["-p", "energy_mc", "-l", "1."]),
        ("dump_shrink.py", ["-i", a, "-l", "1."]),
        ("dump_shrink.py", ["-i", a, "-p", "energy_mc"]),
        ("dump_shrink.py", ["-i", a, "-p", "energy_mc", "radial_mc", "-l",
                            "1."]),
        ("dump_shrink.py", ["-i", a, "-p", "energy_mc", "radial_mc", "-u",
                            "1."]),
        ("dump_shrink.py", ["-i", a, "-p", "energy_mc", "-l", "1.", "-u",
                            "2.", "3."]),
        ("dump_shrink.py", ["-i", a, "-p", "energy_reco", "-l", "1."]),
        ("dump_shrink.py", ["-i", a, "-p", "energy_mc", "-u", "7."]),
        ("dump_scaled.py", ["-p", "energy_mc", "-s", "1.1"]),
        ("dump_scaled.py", ["-p", "energy_mc", "-f", a]),
        ("dump_scaled.py", ["-f", a, "-s", "1.1"]),
        ("dump_scaled.py", ["-p", "energy_mc", "-f", a, "-s", "-1.1"]),
        ("dump_scaled.py", ["-p", "energy_mc", "-f", a, "-s", "1.1", "-d",
                            nodir]),
        ("dump_scaled.py", ["-p", "time_mc", "-f", a, "-s", "1.1"]),
        ("dump_shifted.py", ["-d", "energy_mc", "-s", "1."]),
        ("dump_shifted.py", ["-d", "energy_mc", "-f", a]),
        ("dump_shifted.py", ["-f", a, "-s", "1."]),
        ("dump_shifted.py", ["-f", a, "-s", "1.", "-d", "time_mc"]),
        ("dump_smeared.py", ["-m", "magic", a]),
        ("dump_smeared.py", []),
        ("dump_smeared.py", ["-r", "0.05", a + "x.hdf5"]),
        ("dump_smeared_energy.py", ["-m", "magic", a]),
        ("dump_smeared_energy.py", ["-d", nodir, a]),
        ("dump_smeared_energy.py", ["-l", "-5.", a]),
        ("combine_hdf5.py", []),
        ("combine_hdf5.py", ["-f", a]),
        ("combine_hdf5.py", ["-f", a, a + "x.hdf5"]),
    ]
    script, argv = cases[ctx.case % len(cases)]
    _refused(ctx, Run(ctx, script, argv, w.cwd))
    ctx.same(store.load(w.path)._data, s._data, "input-intact")
    ctx.sig(script, ctx.case % len(cases), w.arg)
    ctx.sample("%s %s" % (script, argv))


def wl_combine(ctx):
    rng = ctx.rng
    store = E("output.store")
    ax = _axes(rng)
    n = int(rng.choice([2, 2, 3, 5]))
    specs, args = [], []
    total, decays, events = 0., 0., 0
    w = None
    for i in range(n):
        s = _spectrum(rng, ax)
        w = Where(ctx, "f%d.hdf5" % i)
        store.dump(w.path, s)
        specs.append(s)
        args.append(w.arg)
        names = [a[0] for a in ax]
        total = total + s._data
        decays += s.get_num_decays()
        events += s._raw_events
    if ctx.case % 3 == 2:  # a file may be named more than once
        i = int(rng.randint(n))
        where = int(rng.randint(1, n + 1))
        args.insert(where, args[i])
        total = total + specs[i]._data
        decays += specs[i].get_num_decays()
        events += specs[i]._raw_events
        ctx.count("named-twice")
    run = Run(ctx, "combine_hdf5.py", ["-f"] + args, w.cwd)
    _wrote(ctx, run, ["work/combined.hdf5"])
    got = store.load(os.path.join(w.cwd, "combined.hdf5"))
    ctx.expect([g[0] for g in gen.geometry(got)] ==
               names, "dimensions", gen.geometry(got))
    ctx.close(got._data, total, "sum", rtol=1e-12)
    ctx.close(got.get_num_decays(), decays, "decays", rtol=1e-12)
    ctx.expect(got._raw_events == events, "raw-events", got._raw_events,
               events)
    ctx.expect(got.get_name() == specs[0].get_name(), "name")
    # spectra that do not match are refused
    bad = [list(a) for a in ax]
    bad[0][3] += 1
    s = gen.spectrum(rng, [tuple(b) for b in bad])
    store.dump(os.path.join(w.cwd, "bad.hdf5"), s)
    os.remove(os.path.join(w.cwd, "combined.hdf5"))
    _refused(ctx, Run(ctx, "combine_hdf5.py",
                      ["-f"] + args + ["bad.hdf5"], w.cwd))
    ctx.count("combined", n)
    ctx.sig(ax, total)
    ctx.sample("%d files of %s" % (n, ax))


def wl_extract(ctx):
    """Spectra from root files and ntuples."""
    rng = ctx.rng
    store = E("output.store")
    kind = ["root", "ntuple", "multi"][ctx.case % 3]
    s = c_extract.Settings(rng, kind != "root")
    while s.external:
        s = c_extract.Settings(rng, kind != "root")
    if not any(c_extract._split(d)[0] == "radial3" for d in s.dims):
        s.outer = None
    base = os.path.realpath(ctx.tmp())
    cwd = os.path.join(base, "work")
    data = os.path.join(base, ["data_in", "te130_mc_v2", "u238.mc"][
        rng.randint(3)])
    os.makedirs(cwd)
    os.makedirs(data)
    cfg = os.path.join(base, "cfg.yml")
    with open(cfg, "w") as f:
        f.write("parameters:\n")
        for n, lo, hi, b in s.axes:
            f.write("    %s:\n        low: %r\n        high: %r\n"
                    "        bins: %d\n" % (n, lo, hi, b))
    names = ["run_%s%s.root" % (c, rng.choice(["", "_mc"]))
             for c in "abc"[:rng.randint(1, 4)]]
    tables = {}
    reg = fakes.ROOT_FILES if kind == "root" else fakes.NTUPLES
    slash = kind == "multi" and rng.rand() < 0.5
    for n in names:
        open(os.path.join(data, n), "w").close()
        k = int(rng.choice([0, 3, 20, 40]))
        t = c_extract._root_file(rng, s, k) if kind == "root" else \
            c_extract._rows(rng, s, k)
        tables[n] = t
        for p in (data + "/" + n, data + "//" + n):
            reg[p] = t

    def want(which):
        arr, decays = s.empty(), 0
        for n in which:
            t = tables[n]
            decays += len(t)
            if kind == "root":
                for ds in t:
                    for v in c_extract._root_events(ds, s):
                        s.put(arr, v)
            else:
                for i, row in enumerate(t):
                    if s.bipo and not (row["evIndex"] == 0 and (
                            i + 1 == len(t) or t[i + 1]["evIndex"] < 1)):
                        continue
                    for v in c_extract._row_events(row, s):
                        s.put(arr, v)
        return arr, decays
    argv = ["-c", cfg]
    if s.bipo or rng.rand() < 0.3:
        argv.append("--bipo" if s.bipo else "--no-bipo")
    if s.fv is not None:
        argv += ["-v", repr(s.fv)]
    if s.outer is not None:
        argv += ["-o", repr(s.outer)]
    dest = cwd
    if rng.rand() < 0.6:
        dest = os.path.join(base, "dest")
        os.mkdir(dest)
        argv += ["-s", dest + ("/" if rng.rand() < 0.5 else "")]
        ctx.count("destination-given")
    rel = os.path.relpath(dest, base)
    expect = {}
    if kind == "multi":
        script = "multi_ntuple_spectrum.py"
        name = os.path.basename(data)
        if rng.rand() < 0.5:
            name = "b8"
            argv += ["-n", name]
        argv += ["-p", data + ("/" if slash else "")]
        expect[rel + "/" + name + ".hdf5"] = (name, names)
    else:
        script = "dump_spectra_%s.py" % kind
        suffix = "_mc" if kind == "ntuple" else ""
        if rng.rand() < 0.4:
            lst = os.path.join(base, "list.txt")
            with open(lst, "w") as f:
                sep = "\t" if rng.rand() < 0.3 else "\n"
                f.write(sep.join(data + "/" + n for n in names) + "\n")
            argv += ["-r", lst]
            some = names
            ctx.count("lists-of-files")
        else:
            some = [names[0]]
            argv += ["-f", data + "/" + names[0]]
        for n in some:
            expect[rel + "/" + n + ".hdf5"] = (n + suffix, [n])
    run = Run(ctx, script, argv, cwd)
    _wrote(ctx, run, [os.path.normpath(p) for p in expect])
    for p, (name, which) in expect.items():
        got = store.load(os.path.join(base, p))
        arr, decays = want(which)
        ctx.same(got._data, arr, "contents", run.what)
        ctx.expect(got.get_num_decays() == decays, "decays",
                   got.get_num_decays(), decays)
        ctx.expect(got.get_name() == name, "name", got.get_name(), name)
        if kind == "multi":
            bg = [name.split(k)[0][:-1] for k in ("mc", "mix", "reco")
                  if k in name]
            ctx.expect(got.get_background_name() == (bg + [name])[0],
                       "background-name", got.get_background_name(), name)
        ctx.expect(bool(got.get_bipo()) == bool(s.bipo), "bipo-flag")
        ctx.expect(gen.geometry(got) == [tuple(a) for a in s.axes],
                   "geometry", gen.geometry(got))
        ctx.count("events", int(arr.sum()))
    # an outer radius without a radial3 dimension is refused
    if not any(c_extract._split(d)[0] == "radial3" for d in s.dims):
        _refused(ctx, Run(ctx, script, argv + ["-o", "6000."], cwd))
    ctx.count("tool:" + kind)
    ctx.sig(kind, s.axes, str(tables))
    ctx.sample("%s %s" % (script, argv))
    fakes.ROOT_FILES.clear()
    fakes.NTUPLES.clear()


# ------------------------------------------------------- limits end to end
SIGNALS = {"Xe136_0n2b_n1": 2.6e24, "Xe136_0n2b_n2": 1.0e24,
           "Xe136_0n2b_n3": 4.5e23, "Xe136_0n2b_n7": 1.1e22}


class _KlzCase(Case):
    """The model of c_limit.Case on plain data, without building a fit."""

    def __init__(self, sc, signal):
        self.sc = sc
        sc.signal = signal
        r = signal["rate"]
        self.scales = numpy.linspace(r["low"], r["high"], r["bins"])
        self.cache = {}
        from c_limit import _model
        self.grids = [_model(sc, {}, 0. if v < 1e-8 else v)
                      for v in self.scales]
        self.zero = _model(sc, {}, 0.)


def _split(ctx, specs, key, put, conf, argv):
    """Spectra in the configuration, as arguments or in both."""
    rng = ctx.rng
    mode = rng.rand()
    args = [s for s in specs if mode < 0.45 and (mode < 0.15 or
                                                 rng.rand() < 0.5)]
    rest = [s for s in specs if not any(s is a for a in args)]
    paths = {s["name"]: put(s) for s in specs}
    named = [paths[s["name"]] for s in rest]
    if args and rng.rand() < 0.3:       # named twice, used once
        named.insert(rng.randint(len(named) + 1),
                     paths[args[rng.randint(len(args))]["name"]])
        ctx.count("in-both-places")
    if named:
        conf[key] = named
    if args:
        argv += ["--" + key] + [paths[s["name"]] for s in args]
        ctx.count("spectra-as-arguments")
    return args + rest


def _spoil(rng, conf, argv):
    """A configuration from which no limit can be set."""
    argv = list(argv)
    how = rng.randint(6)
    if how == 0:
        del conf["data"]
    elif how == 1:
        conf.pop("signals", None)
        if "--signals" in argv:
            i = argv.index("--signals") + 1
            while i < len(argv) and not argv[i].startswith("-"):
                del argv[i]
            del argv[i - 1]
    elif how == 2:
        conf["roi"] = [["energy", 0., 1.]]
    elif how == 3:
        conf["fixed"] = [conf["data"]]
    elif how == 4:
        conf["floating"] = {conf["data"]: 1.}
    else:
        argv[1] += ".none"
    return conf, argv


def wl_majoron(ctx):
    import yaml
    rng = ctx.rng
    store, out, L = E("output.store"), E("output"), E("limit.limit")
    everything = bool(rng.rand() < 0.2)     # no region of interest
    sc = Scene(rng, nfloat=int(rng.choice([0, 1, 1, 2])), nglobal=0,
               signal=False, fixed=bool(rng.rand() < 0.8), whole=True,
               trim=not everything)
    if not sc.floats and not sc.fixed:
        return
    sc.stat = "BakerCousinsChi"
    sc.single_bin = False
    sc.per_bin = bool(rng.rand() < 0.3)
    base = os.path.realpath(ctx.tmp())
    os.makedirs(base + "/work")
    os.makedirs(base + "/dest")
    sensitivity = bool(sc.fixed) and rng.rand() < 0.3
    error = [None, None, "upper", "lower"][rng.randint(4)]
    if sensitivity:
        error = None
        types = dict(a[0].rsplit("_", 1) for a in sc.data["axes"])
        for s in sc.fixed + sc.floats:
            s["axes"] = [(d + "_" + types[d], lo, hi, b) for (n, lo, hi, b),
                         d in zip(s["axes"], sc.dims)]
        for s in sc.floats:     # binned like the data, and with a rate
            s.update({k: v for k, v in sc._spec(
                rng, s["name"], types, 1).items()})
            s.setdefault("rate", dict(prior=20., low=0., high=40., bins=3,
                                      sigma=5.))
        for s in sc.fixed + sc.floats:      # added to the data
            s["perm"] = sorted(s["perm"])
        sc.data["data"] = numpy.zeros_like(sc.data["data"])
    signals = []
    for name in sorted(SIGNALS)[:rng.randint(1, 4)]:
        g = sc._spec(rng, name, sc._types(rng), 1)
        low = float(rng.choice([0., 1.]))
        g["rate"] = dict(prior=low, low=low, high=low + float(rng.choice(
            [60., 300., 2000.])), sigma=None, bins=int(rng.choice(
                [3, 6, 11])))
        signals.append(g)
    files = {}

    def put(s):
        p = "%s/%s.hdf5" % (base, s["name"])
        store.dump(p, sc.make(s))
        files[s["name"]] = p
        return p
    conf = OrderedDict(name="klz", data=put(sc.data))
    if everything:
        ctx.count("no-region")
    else:
        conf["roi"] = {d: tuple(v) for d, v in sc.roi().items()}
    if sc.fixed:
        conf["fixed"] = {put(s): v for s, v in zip(sc.fixed, sc.fixed_norm)}
    argv = ["--from_file", base + "/klz.yml", "-s", base + "/dest"]
    # spectra given on the command line come first
    sc.floats = _split(ctx, sc.floats, "floating", put, conf, argv)
    signals = _split(ctx, signals, "signals", put, conf, argv)
    keep = bool(rng.rand() < 0.5)
    if keep or rng.rand() < 0.5:
        conf["store_summary"] = keep
    if sc.per_bin or rng.rand() < 0.5:
        conf["per_bin"] = sc.per_bin
    yml = base + "/klz.yml"
    with open(yml, "w") as f:
        yaml.dump(dict(conf), f)
    if sensitivity:
        argv.append("--sensitivity")
        ctx.count("sensitivity")
    if error:
        argv.append("--%s_bound" % error)
        ctx.count("plot-grab-errors")
    # the model sees the same spectra, moved by the errors
    pixel = numpy.sqrt(3 * (4 * 0.005) ** 2)
    sign = {"upper": -1., "lower": 1., None: 0.}[error]
    for s in [sc.data] + sc.fixed + sc.floats:
        s["data"] = s["data"] * 10. ** (sign * pixel)
    for g in signals:
        g["data"] = g["data"] * 10. ** (-sign * pixel)
    if sensitivity:
        sc.data["data"] = sum(s["data"] * v / s["num_decays"] for s, v in
                              zip(sc.fixed, sc.fixed_norm)) + \
            sum([s["data"] * s["rate"]["prior"] / s["num_decays"]
                 for s in sc.floats])
    models = [_KlzCase(sc, g) for g in signals]
    for m, g in zip(models, signals):
        sc.signal = g
        if not m.clear():
            ctx.count("left-to-rounding")
            return
    wants = []
    for m, g in zip(models, signals):
        sc.signal = g
        full = numpy.array(m.full())
        raw = numpy.array([numpy.sum(x) for x in m.stats()])
        if numpy.abs(full - 2.71).min() < 1e-6 * (1. + numpy.abs(
                full).max()):
            ctx.count("left-to-rounding")
            return
        start = int(numpy.argmin(raw))
        above = [i for i in range(start, len(full)) if full[i] > 2.71]
        wants.append(m.scales[above[0]] if above else None)
        if not above:
            break
    # observe
    got = []
    real, load, old = L.Limit.get_limit, yaml.load, out.__default_save_path__

    def get_limit(self, *a, **k):
        try:
            v = real(self, *a, **k)
        except E("errors.custom_errors").LimitError:
            got.append((self._signal.get_name(), None))
            raise
        got.append((self._signal.get_name(), float(v)))
        return v
    L.Limit.get_limit = get_limit
    # the default loader of the yaml versions the script was written for
    yaml.load = lambda f, Loader=yaml.UnsafeLoader: load(f, Loader)
    spoilt = None
    try:
        run = Run(ctx, "klz_majoron_limits.py", argv, base + "/work")
        if rng.rand() < 0.3:
            seen, text = list(got), open(yml).read()
            spoilt = _spoil(rng, dict(conf), argv)
            with open(yml, "w") as f:
                yaml.dump(spoilt[0], f)
            bad = Run(ctx, "klz_majoron_limits.py", spoilt[1],
                      base + "/work")
            ctx.expect(bad.failed(), "script-refuses", spoilt, bad.what)
            ctx.expect(got == seen, "refusal-sets-no-limit", got, spoilt)
            ctx.expect(not [f for f in bad.new if not f.startswith("logs/")],
                       "refusal-writes-nothing", bad.new, spoilt)
            ctx.count("refusals")
            with open(yml, "w") as f:
                f.write(text)
    finally:
        L.Limit.get_limit = real
        yaml.load = load
        out.__default_save_path__ = old
    ctx.log("limits", got, "wanted", wants)
    failed = wants and wants[-1] is None
    if failed:
        ctx.expect(run.error is not None, "no-limit-reported", run.what)
        ctx.count("no-limit")
    else:
        ctx.expect(run.error is None and not run.code, "script-succeeds",
                   run.what, "limits", got)
    ctx.expect([n for n, _ in got] == [g["name"] for g in
                                       signals[:len(wants)]],
               "every-signal-once", got, wants)
    text = "\n".join(m for _, m in run.logs)
    for (name, v), want, g in zip(got, wants, signals):
        if want is None:
            continue
        ctx.close(v, want, "limit", name, wants)
        # events and half life of the limit
        events = g["data"] * (want / g["num_decays"])
        events = sc.cut(g, events).sum()
        ctx.expect("Signal: %s\n" % name in text and
                   "limit scaling of %.4g\n" % want in text,
                   "limit-reported", name, want)
        ctx.expect("equivalent to %.4f events" % events in text or
                   _near_text(text, "equivalent to ", events),
                   "events-reported", name, events,
                   [l for l in text.split("\n") if "equivalent to" in l])
        n_atoms = 125. * 1e3 / 135.907219 * 6.02214129e23
        half = numpy.log(2.) * n_atoms * (112.3 / 365.25) / want
        ctx.expect(_near_text(text, "limit half life of ", half, 1e-3),
                   "half-life-reported", name, half, text[-300:])
        ctx.expect("KamLAND-Zen equivalent limit: %.4g y"
                   % SIGNALS[name] in text, "published-limit-reported")
        ctx.count("limits")
        if len(signals) > 1:
            ctx.count("several-signals")
    if keep:
        for name, v in got:
            mine = [f for f in run.new if os.path.basename(f).startswith(
                name + "_limit_results") and f.startswith("dest/")]
            ctx.expect(mine, "summary-stored", name, run.new)
            ctx.count("summaries")
    else:
        ctx.expect(v is None or not [f for f in run.new if not f.startswith(
            "logs/") and not f.startswith("dest/")], "no-other-files",
            run.new)
    ctx.expect(not run.changed, "inputs-left-alone", run.changed)
    ctx.sig(sc.describe(), str(conf), error)
    ctx.sample("%s, %d signals, %s" % (sc.describe(), len(signals), argv))


def _near_text(text, lead, value, rtol=1e-6):
    """Some number after `lead` in the text is close to value."""
    for part in text.split(lead)[1:]:
        try:
            v = float(part.split()[0])
        except ValueError:
            continue
        if v == value or abs(v - value) <= max(rtol * abs(value), 6e-5):
            return True
    return False


def wl_summary(ctx):
    """plot_summary on the stored results of a limit."""
    rng = ctx.rng
    c = Case(ctx, nfloat=1, nglobal=0, per_bin=False)
    out = E("output")
    base = os.path.realpath(ctx.tmp())
    old, out.__default_save_path__ = out.__default_save_path__, base
    try:
        try:
            c.limit.get_limit(limit_fname=base + "/res.hdf5")
        except E("errors.custom_errors").LimitError:
            pass
    finally:
        out.__default_save_path__ = old
    os.mkdir(base + "/work")
    run = Run(ctx, "plot_summary.py", ["-f", base + "/res.hdf5"],
              base + "/work")
    ctx.expect(not run.failed(), "plot-summary", run.what)
    ctx.count("summary-plots")
    ctx.sig(rng.rand())


def wl_tutorial(ctx):
    seed = int(ctx.rng.randint(10 ** 6))
    base = os.path.realpath(ctx.tmp())
    run = Run(ctx, "tutorials/getting_started.py", [], base, seed)
    ctx.expect(not run.failed(), "script-succeeds", run.what)
    ctx.expect(not run.new, "files-written", run.new)
    m = run.module
    s, t = m.spectrum, m.smeared_spectrum
    # 1000 tries at 90%, nearly all within five sigma and 3500 of 5997 mm
    n = m.spectrum.sum()
    ctx.expect(n == round(n) and 400 < n < 640, "tutorial-events", n)
    ctx.expect(gen.geometry(s)[1][2] == 3500., "tutorial-shrunk",
               gen.geometry(s))
    e = dict((g[0], g) for g in gen.geometry(t))["energy_mc"]
    ctx.expect(e[1] <= 2.425 + 1e-9 and e[2] >= 2.7 and
               t._data.shape[0] * 5 == m.old_shape[0], "tutorial-rebinned", e)
    ctx.close(t.get_num_decays(), 104.25, "tutorial-scaled")
    inside = t.sum() / 104.25 * 1000. / n
    ctx.expect(0.5 < inside < 0.9, "tutorial-fraction", inside)
    ctx.count("tutorials")
    ctx.sig(seed)


def wl_paths(ctx):
    """Files named in arguments: all of them there, as they were given."""
    rng = ctx.rng
    import argparse
    z = E("scripts.zero_nu_limit")
    base = ctx.tmp()
    good = []
    for i in range(3):
        good.append("%s/%d.hdf5" % (base, i))
        open(good[-1], "w").close()
    os.mkdir(base + "/folder.hdf5")
    bad = [base + "/none.hdf5", base + "/folder.hdf5",
           base + "/folder.hdf5/x", ""][rng.randint(4)]
    many = bool(rng.randint(2))
    spoil = bool(rng.randint(2))
    args = [good[i] for i in rng.permutation(3)[:rng.randint(1, 4)]] \
        if many else [good[rng.randint(3)]]
    if spoil:
        if many:
            args.insert(rng.randint(len(args) + 1), bad)
        else:
            args = [bad]
    parser = argparse.ArgumentParser()
    kw = {"nargs": "+"} if many else {}
    parser.add_argument("-s", "--signal", action=z.ReadableDir, **kw)
    ctx.log(args, many, spoil)
    if spoil:
        ctx.raises(argparse.ArgumentTypeError,
                   lambda: parser.parse_args(["-s"] + args), "unreadable",
                   args)
        ctx.count("unreadable-arguments")
    else:
        got = parser.parse_args(["-s"] + args).signal
        ctx.expect(got == (args if many else args[0]), "as-given", got, args)
        ctx.count("readable-arguments")
    ctx.sig(args, many)


PROPS = {
    "C31": Prop(
        "command line tools",
        [("convert", wl_convert, 90, 6000),
         ("refusals", wl_refusals, 60, 600),
         ("combine", wl_combine, 15, 1200),
         ("extract", wl_extract, 60, 4000),
         ("majoron", wl_majoron, 25, 2500),
         ("paths", wl_paths, 20, 300),
         ("summary", wl_summary, 1, 2),
         ("tutorial", wl_tutorial, 1, 8)],
        "every script on random spectra, root files, ntuples and limit "
        "configurations with random options and spellings of paths; distinct "
        "by arguments and contents",
        ["runs", "refusals", "tool:rebin", "tool:shrink", "tool:scaled",
         "tool:shifted", "tool:smeared", "tool:smeared_energy", "tool:root",
         "tool:ntuple", "tool:multi", "smear:random", "smear:weight",
         "combined", "named-twice", "limits", "several-signals", "bare-file-names",
         "lists-of-files", "tutorials", "output-replaced", "no-region",
         "spectra-as-arguments", "in-both-places",
         "readable-arguments", "unreadable-arguments"],
        ["scripts run as __main__ in the process of the check, in a scratch "
         "directory"]),
}
