"""Stand-ins for third-party packages that are not installed here.

* h5py: a small disk-backed implementation of the part of the h5py 2.x API
  (Python 2 era: ``Dataset.value``) that echidna uses, with the same failures
  (existing group, attributes h5py cannot represent, missing keys, read-only
  files).  State is really written to and re-read from the file.
* ROOT / rat: the PyROOT surface used by fill_spectrum / dsextract, reading
  events from an in-memory registry keyed by file name.
* colorlog, matplotlib: minimal stand-ins, matplotlib records its calls.
"""
import logging
import os
import pickle
import posixpath
import sys
import types

import numpy


# ------------------------------------------------------------------- h5py
class _Attrs(object):
    def __init__(self, node, file_):
        self._n = node["attrs"]
        self._f = file_

    def __setitem__(self, k, v):
        self._f._check_writable()
        if v is None:
            raise TypeError("Object dtype dtype('O') has no native HDF5 "
                            "equivalent")
        if isinstance(v, (str, bytes)):
            val = v
            if isinstance(v, str) and "\x00" in v:
                raise ValueError("VLEN strings do not support embedded NULLs")
        elif isinstance(v, (bool, numpy.bool_)):
            val = numpy.bool_(v)
        elif isinstance(v, (int, numpy.integer)):
            val = numpy.int64(v)
        elif isinstance(v, (float, numpy.floating)):
            val = numpy.float64(v)
        else:
            val = numpy.array(v)
            if val.dtype.kind in "OU":
                if val.dtype.kind == "U":
                    val = val.astype("S")
                else:
                    raise TypeError("Object dtype dtype('O') has no native "
                                    "HDF5 equivalent")
        size = len(val) if isinstance(val, (str, bytes)) else \
            numpy.asarray(val).nbytes
        if not isinstance(val, (str, bytes)) and size > 65000:
            raise RuntimeError("Unable to create attribute (object header "
                               "message is too large)")
        self._n[k] = val

    def __getitem__(self, k):
        if k not in self._n:
            raise KeyError("Can't open attribute (Can't locate attribute: "
                           "'%s')" % k)
        v = self._n[k]
        return v.copy() if isinstance(v, numpy.ndarray) else v

    def __delitem__(self, k):
        del self._n[k]

    def __contains__(self, k):
        return k in self._n

    def __iter__(self):
        return iter(sorted(self._n))

    def __len__(self):
        return len(self._n)

    def keys(self):
        return sorted(self._n)

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def iteritems(self):
        return iter(self.items())

    def get(self, k, default=None):
        return self[k] if k in self._n else default

    def create(self, k, data):
        self[k] = data

    modify = create


class _Dataset(object):
    def __init__(self, node, file_, name=""):
        self._node = node
        self._f = file_
        self.name = name
        self.attrs = _Attrs(node, file_)

    @property
    def value(self):
        self._f._check_open()
        v = self._node["data"]
        return v.copy() if isinstance(v, numpy.ndarray) else v

    @property
    def shape(self):
        return numpy.shape(self._node["data"])

    @property
    def dtype(self):
        return numpy.asarray(self._node["data"]).dtype

    def __len__(self):
        return len(self._node["data"])

    def __getitem__(self, k):
        self._f._check_open()
        v = numpy.asarray(self._node["data"])
        if k == ():
            return self.value
        return v[k].copy() if hasattr(v[k], "copy") else v[k]

    def __setitem__(self, k, v):
        self._f._check_writable()
        self._node["data"][k] = v

    def __array__(self, dtype=None, copy=None):
        return numpy.array(self._node["data"], dtype=dtype)


def _new_group():
    return {"type": "group", "attrs": {}, "children": {}}


class _Group(object):
    def __init__(self, node, file_, name="/"):
        self._node = node
        self._file = file_
        self.name = name

    @property
    def attrs(self):
        return _Attrs(self._node, self._file)

    def _split(self, path):
        return [p for p in path.split("/") if p]

    def _wrap(self, node, name):
        if node["type"] == "group":
            return _Group(node, self._file, name)
        return _Dataset(node, self._file, name)

    def _start(self, path):
        return self._file._root if path.startswith("/") else self._node

    def __getitem__(self, path):
        self._file._check_open()
        node = self._start(path)
        for p in self._split(path):
            if node["type"] != "group" or p not in node["children"]:
                raise KeyError("Unable to open object (Object '%s' doesn't "
                               "exist)" % p)
            node = node["children"][p]
        return self._wrap(node, posixpath.join(self.name, path))

    def __contains__(self, path):
        try:
            self[path]
            return True
        except KeyError:
            return False

    def get(self, path, default=None):
        try:
            return self[path]
        except KeyError:
            return default

    def __delitem__(self, path):
        self._file._check_writable()
        parts = self._split(path)
        node = self._start(path)
        for p in parts[:-1]:
            node = node["children"][p]
        if parts[-1] not in node["children"]:
            raise KeyError("Couldn't delete link (name doesn't exist)")
        del node["children"][parts[-1]]

    def __iter__(self):
        return iter(sorted(self._node["children"]))

    def __len__(self):
        return len(self._node["children"])

    def keys(self):
        self._file._check_open()
        return sorted(self._node["children"])

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def iteritems(self):
        return iter(self.items())

    def create_group(self, path):
        self._file._check_writable()
        node = self._start(path)
        parts = self._split(path)
        for p in parts[:-1]:
            node = node["children"].setdefault(p, _new_group())
        if parts[-1] in node["children"]:
            raise ValueError("Unable to create group (Name already exists)")
        node["children"][parts[-1]] = _new_group()
        return self._wrap(node["children"][parts[-1]],
                          posixpath.join(self.name, path))

    def require_group(self, path):
        if path in self:
            return self[path]
        return self.create_group(path)

    def create_dataset(self, path, shape=None, dtype=None, data=None,
                       compression=None, **kw):
        self._file._check_writable()
        if data is None and shape is not None:
            data = numpy.zeros(shape, dtype or float)
        arr = numpy.array(data, dtype=dtype)
        if not (compression is None or compression in
                ("gzip", "lzf", "szip") or
                (isinstance(compression, int) and
                 0 <= compression <= 9)):
            raise ValueError("Compression filter %r is unavailable" %
                             (compression,))
        if arr.dtype.kind == "O":
            raise TypeError("Object dtype dtype('O') has no native HDF5 "
                            "equivalent")
        if arr.dtype.kind == "U":
            raise TypeError("No conversion path for dtype %r" % arr.dtype)
        if arr.shape == () and compression is not None:
            raise TypeError("Scalar datasets don't support chunk/filter "
                            "options")
        node = self._start(path)
        parts = self._split(path)
        for p in parts[:-1]:
            node = node["children"].setdefault(p, _new_group())
        if parts[-1] in node["children"]:
            raise ValueError("Unable to create dataset (name already exists)")
        node["children"][parts[-1]] = {"type": "dataset", "attrs": {},
                                       "data": arr if arr.shape else arr[()]}
        return self._wrap(node["children"][parts[-1]],
                          posixpath.join(self.name, path))


_MAGIC = b"\x89FAKEHDF\r\n\x1a\n"
STATS = {"opens": 0, "writes": 0, "reads": 0}


class _File(_Group):
    def __init__(self, name, mode="a", **kw):
        STATS["opens"] += 1
        self._path = name
        self.filename = name
        self.mode = mode
        self._open = True
        exists = os.path.exists(name)
        if mode in ("r", "r+"):
            if not exists:
                raise IOError("Unable to open file (unable to open file: "
                              "name = '%s', errno = 2)" % name)
            root = self._read(name)
            STATS["reads"] += 1
        elif mode == "w":
            if os.path.isdir(name) or \
                    not os.path.isdir(os.path.dirname(name) or "."):
                raise IOError("Unable to create file '%s'" % name)
            root = _new_group()
        elif mode in ("w-", "x"):
            if exists:
                raise IOError("Unable to create file (file exists)")
            root = _new_group()
        elif mode == "a":
            if not exists and \
                    not os.path.isdir(os.path.dirname(name) or "."):
                raise IOError("Unable to create file '%s'" % name)
            root = self._read(name) if exists else _new_group()
        else:
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        self._root = root
        super(_File, self).__init__(root, self, "/")
        if mode != "r":
            self.flush()

    @staticmethod
    def _read(name):
        with open(name, "rb") as f:
            blob = f.read()
        if not blob.startswith(_MAGIC):
            raise IOError("Unable to open file (file signature not found)")
        return pickle.loads(blob[len(_MAGIC):])

    def _check_open(self):
        if not self._open:
            raise ValueError("Not a location (invalid object ID)")

    def _check_writable(self):
        self._check_open()
        if self.mode == "r":
            raise ValueError("Unable to modify (no write intent on file)")

    def flush(self):
        self._check_open()
        if self.mode != "r":
            STATS["writes"] += 1
            with open(self._path, "wb") as f:
                f.write(_MAGIC + pickle.dumps(self._root, 4))

    def close(self):
        if self._open:
            self.flush()
            self._open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _h5py():
    m = types.ModuleType("h5py")
    m.File = _File
    m.Group = _Group
    m.Dataset = _Dataset
    m.__version__ = "2.5.0"
    return m


# --------------------------------------------------------------- ROOT / rat
class Vec3(object):
    def __init__(self, x, y, z):
        self._v = (float(x), float(y), float(z))

    def Mag(self):
        return float(numpy.sqrt(sum(c * c for c in self._v)))

    def X(self):
        return self._v[0]

    def Y(self):
        return self._v[1]

    def Z(self):
        return self._v[2]

    x, y, z = Px, Py, Pz = X, Y, Z

    def Mag2(self):
        return sum(c * c for c in self._v)

    def Perp(self):
        return float(numpy.hypot(*self._v[:2]))

    def __getitem__(self, i):
        return self._v[i]

    __call__ = __getitem__


class Vertex(object):
    def __init__(self, d):
        self._d = d

    def ContainsEnergy(self):
        return self._d["contains_energy"]

    def ValidEnergy(self):
        return self._d["valid_energy"]

    def GetEnergy(self):
        if not self._d["contains_energy"]:
            raise RuntimeError("FitVertex::NoValueError: energy")
        return self._d["energy"]

    def ContainsPosition(self):
        return self._d["contains_position"]

    def ValidPosition(self):
        return self._d["valid_position"]

    def GetPosition(self):
        if not self._d["contains_position"]:
            raise RuntimeError("FitVertex::NoValueError: position")
        return Vec3(*self._d["pos"])


class EV(object):
    def __init__(self, d):
        self._d = d

    def DefaultFitVertexExists(self):
        return self._d["vertex"] is not None

    def GetDefaultFitVertex(self):
        if self._d["vertex"] is None:
            raise RuntimeError("DefaultFitVertex does not exist")
        return Vertex(self._d["vertex"])


class _Particle(object):
    def __init__(self, pos):
        self._p = pos

    def GetPosition(self):
        return Vec3(*self._p)


class MC(object):
    def __init__(self, d):
        self._d = d

    def GetMCParticleCount(self):
        return len(self._d["particles"])

    def GetMCParticle(self, i):
        return _Particle(self._d["particles"][i])

    def GetScintQuenchedEnergyDeposit(self):
        return self._d["quenched"]

    def GetScintEnergyDeposit(self):
        return self._d["edep"]


class DS(object):
    def __init__(self, d):
        self._d = d

    def GetMC(self):
        return MC(self._d["mc"])

    def GetEVCount(self):
        return len(self._d["evs"])

    def GetEV(self, i):
        if i < 0 or i >= len(self._d["evs"]):
            raise RuntimeError("EV index out of range")
        return EV(self._d["evs"][i])


ROOT_FILES = {}     # file name -> list of ds dictionaries
NTUPLES = {}        # file name -> list of {branch: value}


class DSReader(object):
    def __init__(self, filename):
        self._e = ROOT_FILES[filename]

    def GetEntryCount(self):
        return len(self._e)

    def GetEntry(self, i):
        return DS(self._e[i])


class TChain(object):
    """Iterating yields the chain itself, positioned on the next entry (the
    PyROOT behaviour)."""

    def __init__(self, name="", title=""):
        self._rows = []
        self._cur = None
        self._tree = name

    def Add(self, filename, *a):
        if self._tree not in ("", "output"):    # the tree rat writes
            return 0
        self._rows += NTUPLES[filename]
        return 1

    def GetEntries(self):
        return len(self._rows)

    def GetEntry(self, i):
        if 0 <= i < len(self._rows):
            self._cur = self._rows[i]
            return 1
        return 0

    def LoadTree(self, i):
        return i if 0 <= i < len(self._rows) else -2

    def __iter__(self):
        for i in range(len(self._rows)):
            self._cur = self._rows[i]
            yield self

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        cur = self.__dict__.get("_cur")
        if cur is None or name not in cur:
            raise AttributeError("'TChain' object has no attribute '%s'"
                                 % name)
        return cur[name]


class _Permissive(types.ModuleType):
    """Any attribute exists (for modules only imported for plotting)."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Anything(self.__name__ + "." + name)


class _Anything(object):
    def __init__(self, name="x"):
        self.__dict__["_nm"] = name

    def __call__(self, *a, **k):
        return _Anything(self._nm + "()")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Anything(self._nm + "." + n)

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __iter__(self):
        return iter((_Anything(), _Anything()))

    def __getitem__(self, k):
        return _Anything(self._nm + "[]")


# ------------------------------------------------- recording plot stand-ins
class _Recorder(_Anything):
    """Remembers every call made on it."""

    def __init__(self, name="x"):
        _Anything.__init__(self, name)
        self.__dict__["calls"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def call(*a, **k):
            self.calls.append((n, a, k))
            return _Anything(self._nm + "." + n + "()")
        return call

    def called(self, *names):
        return [c for c in self.calls if c[0] in names]


class Axes(_Recorder):
    """The part of matplotlib's Axes whose input is the point of a plot."""

    def __init__(self):
        _Recorder.__init__(self, "Axes")
        self.hists, self.meshes, self.bands = [], [], []
        self.given, self.lines = [], []
        for n in ("xaxis", "yaxis", "zaxis"):
            setattr(self, n, _Recorder(n))

    def hist(self, x, bins=10, range=None, weights=None, **kw):
        x = numpy.asarray(x, dtype=float)
        w = numpy.ones(x.shape) if weights is None else \
            numpy.array(weights, dtype=float)
        if w.shape != x.shape:
            raise ValueError("weights should have the same shape as x")
        e = numpy.asarray(bins)
        if e.ndim == 1 and (numpy.diff(e) <= 0).any():
            raise ValueError("bins must increase monotonically")
        # contents per bin; what lies outside is not drawn
        content, edges = numpy.histogram(x, bins, range, weights=w)
        self.hists.append((edges, content, kw))
        return content, edges, _Anything("patches")

    def pcolormesh(self, *args, **kw):
        if len(args) == 1:
            c = numpy.asarray(args[0])
            x, y = numpy.meshgrid(numpy.arange(c.shape[1] + 1),
                                  numpy.arange(c.shape[0] + 1))
        else:
            x, y, c = [numpy.array(v, dtype=float) for v in args]
        if x.ndim == 1 and y.ndim == 1:
            x, y = numpy.meshgrid(x, y)
        if x.shape != y.shape or c.ndim != 2:
            raise TypeError("Incompatible X, Y inputs to pcolormesh")
        self.given.append((x, y, c))
        if x.shape == c.shape:          # the last row and column are dropped
            c = c[:-1, :-1]
        elif x.shape != (c.shape[0] + 1, c.shape[1] + 1):
            raise TypeError("Dimensions of C %s are incompatible with X and "
                            "Y %s" % (c.shape, x.shape))
        self.meshes.append((x, y, c, kw))
        return _Anything("mesh")

    def fill_between(self, x, y1, y2=0, **kw):
        self.bands.append((numpy.array(x), numpy.array(y1), numpy.array(y2),
                           kw))
        return _Anything("band")

    def plot(self, *args, **kw):
        args = list(args)
        while args:                     # x, y, format, or any part of it
            xy = []
            while args and not isinstance(args[0], str) and len(xy) < 2:
                xy.append(numpy.array(args.pop(0), dtype=float).ravel())
            if len(xy) == 1:
                xy.insert(0, numpy.arange(float(len(xy[0]))))
            if len(xy[0]) != len(xy[1]):
                raise ValueError("x and y must have same first dimension")
            fmt = args.pop(0) if args and isinstance(args[0], str) else ""
            self.lines.append((xy[0], xy[1], fmt, kw))
        return [_Anything("line")]

    def plot_surface(self, x, y, z, *a, **kw):
        x, y, z = numpy.broadcast_arrays(x, y, z)
        self.given.append((x, y, z))
        return _Anything("surface")

    def set(self, **kw):
        for k, v in kw.items():
            self.calls.append(("set_" + k, (v,), {}))

    def get_xticklabels(self, *a, **k):
        return []

    get_yticklabels = get_zticklabels = get_xticklabels

    def get_position(self):
        b = _Recorder("box")
        b.__dict__.update(x0=0., y0=0., x1=1., y1=1., width=1., height=1.)
        return b


class Figure(_Recorder):
    def __init__(self):
        _Recorder.__init__(self, "Figure")
        self.axes, self.texts = [], []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    add_axes = add_subplot

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    def text(self, x, y, s, *a, **k):
        self.texts.append(str(s))


def _pyplot(m):
    current = [Figure()]

    def figure(*a, **k):
        current[0] = Figure()
        return current[0]

    def axes_call(name, to=None):
        def call(*a, **k):
            return getattr(current[0].gca(), to or name)(*a, **k)
        return call

    def subplots(nrows=1, ncols=1, *a, **k):
        f = figure()
        if nrows * ncols == 1:
            return f, f.add_subplot(111)
        axes = numpy.empty(nrows * ncols, dtype=object)
        for i in range(len(axes)):
            axes[i] = f.add_subplot(nrows, ncols, i + 1)
        if 1 not in (nrows, ncols):
            axes = axes.reshape(nrows, ncols)
        return f, axes

    m.figure = figure
    m.gcf = lambda: current[0]
    m.gca = lambda: current[0].gca()
    m.subplot = lambda *a, **k: current[0].add_subplot(*a, **k)
    m.subplots = subplots
    m.figtext = lambda *a, **k: current[0].text(*a, **k)
    for n in ("hist", "pcolormesh", "fill_between", "plot", "legend",
              "errorbar", "axhline", "axvline"):
        setattr(m, n, axes_call(n))
    for n, t in (("xlabel", "set_xlabel"), ("ylabel", "set_ylabel"),
                 ("xlim", "set_xlim"), ("ylim", "set_ylim"),
                 ("title", "set_title")):
        setattr(m, n, axes_call(n, t))
    m.savefig = lambda *a, **k: current[0].savefig(*a, **k)
    m.shown = []
    m.show = lambda *a, **k: m.shown.append(current[0])


#: objects drawn with ROOT, and legends, since the list was last emptied
DRAWN = []


class _Drawable(_Recorder):
    def Draw(self, *a):
        DRAWN.append(self)

    def _axis(self, n):
        if n not in self.__dict__:
            span = self._span(n) if isinstance(self, (TH1, TH2)) and \
                n != "zaxis" else None
            self.__dict__[n] = _HistAxis(n, *span) if span else _Recorder(n)
        return self.__dict__[n]

    def GetXaxis(self):
        return self._axis("xaxis")

    def GetYaxis(self):
        return self._axis("yaxis")

    def GetZaxis(self):
        return self._axis("zaxis")


def axis_title(obj, axis):
    """What is written along an axis ("x" or "y") of something drawn: the
    last title set, or the field of the title it was made with."""
    axis_ = obj.__dict__.get(axis + "axis")
    if axis_ is not None and axis_.called("SetTitle"):
        return str(axis_.called("SetTitle")[-1][1][0])
    fields = getattr(obj, "title", "").split(";") \
        if "title" in obj.__dict__ else []
    return (fields + ["", "", ""])[1 + "xy".index(axis)]


def _whole(n):
    if isinstance(n, (bool, float, numpy.floating)):
        raise TypeError("integer argument expected, got float")
    return int(n)


def _find_bin(x, low, high, bins):
    if x < low:
        return 0
    if not x < high:
        return bins + 1
    return 1 + int(bins * (x - low) / (high - low))


class _HistAxis(_Recorder):
    """The axis of a histogram, which knows its bins."""

    def __init__(self, name, low, high, bins):
        _Recorder.__init__(self, name)
        self.__dict__["_bins"] = (low, high, bins)

    def FindBin(self, x):
        return _find_bin(x, *self._bins)

    FindFixBin = FindBin

    def GetNbins(self):
        return self._bins[2]

    def GetXmin(self):
        return self._bins[0]

    def GetXmax(self):
        return self._bins[1]

    def GetBinWidth(self, i):
        return (self._bins[1] - self._bins[0]) / self._bins[2]

    def GetBinLowEdge(self, i):
        return self._bins[0] + (i - 1) * self.GetBinWidth(i)

    def GetBinCenter(self, i):
        return self._bins[0] + (i - 0.5) * self.GetBinWidth(i)


class TH1(_Drawable):
    def __init__(self, name, title, bins, low, high):
        _Drawable.__init__(self, "TH1")
        self.name, self.title = str(name), str(title)
        self.bins, self.low, self.high = _whole(bins), float(low), float(high)
        self.data = numpy.zeros(self.bins + 2)

    def SetBinContent(self, i, v):
        self.data[min(max(_whole(i), 0), self.bins + 1)] = float(v)

    def GetBinContent(self, i):
        return self.data[min(max(_whole(i), 0), self.bins + 1)]

    def AddBinContent(self, i, w=1.):
        self.data[_whole(i)] += w

    def FindBin(self, x):
        return _find_bin(x, self.low, self.high, self.bins)

    FindFixBin = FindBin

    def _span(self, n):
        return self.low, self.high, self.bins

    def Fill(self, x, w=1.):
        self.data[self.FindBin(x)] += w

    def GetNbinsX(self):
        return self.bins

    def GetName(self):
        return self.name

    def Add(self, other, c=1.):
        self.data = self.data + c * other.data

    def Scale(self, c):
        self.data = self.data * c

    def Integral(self):
        return self.data[1:-1].sum()

    def Clone(self, name=None):
        h = TH1(name or self.name, self.title, self.bins, self.low, self.high)
        h.data = self.data.copy()
        return h


class TH2(_Drawable):
    def __init__(self, name, title, nx, xlow, xhigh, ny, ylow, yhigh):
        _Drawable.__init__(self, "TH2")
        self.name, self.title = str(name), str(title)
        self.nx, self.ny = _whole(nx), _whole(ny)
        self.x = (float(xlow), float(xhigh))
        self.y = (float(ylow), float(yhigh))
        self.data = numpy.zeros((self.nx + 2, self.ny + 2))

    def _span(self, n):
        return self.x + (self.nx,) if n == "xaxis" else self.y + (self.ny,)

    def _cell(self, i, j):
        return (min(max(_whole(i), 0), self.nx + 1),
                min(max(_whole(j), 0), self.ny + 1))

    def GetBin(self, i, j):
        i, j = self._cell(i, j)
        return i + (self.nx + 2) * j

    def FindBin(self, x, y):
        return self.GetBin(_find_bin(x, *self._span("xaxis")),
                           _find_bin(y, *self._span("yaxis")))

    FindFixBin = FindBin

    def SetBinContent(self, i, j, *v):
        if not v:                       # the number of the cell, the value
            j, i, v = _whole(i) // (self.nx + 2), i % (self.nx + 2), (j,)
        self.data[self._cell(i, j)] = float(v[0])

    def GetBinContent(self, i, j=None):
        if j is None:
            j, i = i // (self.nx + 2), i % (self.nx + 2)
        return self.data[i, j]

    def Fill(self, x, y, w=1.):
        self.data[_find_bin(x, *self._span("xaxis")),
                  _find_bin(y, *self._span("yaxis"))] += w

    def GetNbinsX(self):
        return self.nx

    def GetNbinsY(self):
        return self.ny

    def GetName(self):
        return self.name

    def Scale(self, c):
        self.data = self.data * c


class TGraph(_Drawable):
    def __init__(self, n=0, x=None, y=None):
        _Drawable.__init__(self, "TGraph")
        n = _whole(n)
        if x is None and y is None:     # all at zero until they are set
            x = y = numpy.zeros(n)
        x, y = [numpy.array(v, dtype=float).ravel() for v in (x, y)]
        if len(x) < n or len(y) < n:
            raise TypeError("buffer too small")
        self.points = {i: (x[i], y[i]) for i in range(n)}

    def AddPoint(self, x, y):
        self.points[len(self.points)] = (float(x), float(y))

    def SetPoint(self, i, x, y):
        self.points[_whole(i)] = (float(x), float(y))

    def GetN(self):
        return len(self.points)

    def xy(self):
        p = [self.points[i] for i in sorted(self.points)]
        return numpy.array(p).reshape(-1, 2).T


class TLegend(_Drawable):
    def __init__(self, *a):
        _Drawable.__init__(self, "TLegend")
        self.entries = []

    def AddEntry(self, obj, label="", opt=""):
        self.entries.append((obj, str(label)))


class TCanvas(_Drawable):
    def __init__(self, *a):
        _Drawable.__init__(self, "TCanvas")


def _root():
    m = _Permissive("ROOT")
    m.TChain = TChain
    m.TObject = object
    rat = types.ModuleType("ROOT.RAT")
    du = types.ModuleType("ROOT.RAT.DU")
    du.DSReader = DSReader
    rat.DU = du
    m.RAT = rat
    m.TH1D = m.TH1F = m.TH1I = TH1
    m.TH2D = m.TH2F = TH2
    m.TGraph, m.TLegend, m.TCanvas = TGraph, TLegend, TCanvas
    for i, n in enumerate(("kWhite", "kBlack", "kRed", "kGreen", "kBlue",
                           "kYellow", "kMagenta", "kCyan")):
        setattr(m, n, i)
    m.kGray = 920
    return m


def install():
    for name, make in (("h5py", _h5py), ("ROOT", _root)):
        if name not in sys.modules:
            sys.modules[name] = make()
    if "rat" not in sys.modules:
        sys.modules["rat"] = types.ModuleType("rat")
    try:
        import colorlog  # noqa: F401
    except ImportError:
        m = types.ModuleType("colorlog")

        class ColoredFormatter(logging.Formatter):
            def __init__(self, fmt=None, datefmt=None, **kw):
                fmt = (fmt or "%(message)s").replace("%(log_color)s", "")
                for k in ("reset", "bold_red", "white", "blue"):
                    fmt = fmt.replace("%%(%s)s" % k, "")
                logging.Formatter.__init__(self, fmt, datefmt)
        m.ColoredFormatter = ColoredFormatter
        sys.modules["colorlog"] = m
    try:
        import matplotlib  # noqa: F401
    except ImportError:
        for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.colors",
                  "matplotlib.ticker", "matplotlib.colorbar",
                  "mpl_toolkits", "mpl_toolkits.mplot3d"):
            mod = _Permissive(n)
            mod.__path__ = []
            sys.modules[n] = mod
        for n in list(sys.modules):
            if n.startswith("matplotlib.") or n.startswith("mpl_toolkits."):
                parent, child = n.rsplit(".", 1)
                setattr(sys.modules[parent], child, sys.modules[n])
        _pyplot(sys.modules["matplotlib.pyplot"])

        def axes3d(fig=None, *a, **k):
            return fig.add_subplot()
        sys.modules["mpl_toolkits.mplot3d"].Axes3D = axes3d
