"""The simulated world around pygeode: data sources, memory limit, allocator,
faults.  Every seam is owned by a World object built from the scenario."""
import os, sys, threading, warnings
import numpy as np
from core import SimFault, HarnessError, Invalid
import model as M

_real_empty = np.empty
pygeode = None


def load():
    """Import the code under test (from the current working tree of /repo)."""
    global pygeode
    import ctypes_seam
    ctypes_seam.install()
    import pygeode as pg
    import pygeode.formats  # noqa
    pygeode = pg
    return pg


# ---------------------------------------------------------------- axes
EXTRA = {}        # further kinds of axes, registered by properties


def mkaxis(a):
    pg = pygeode
    if a["c"] in EXTRA:
        return EXTRA[a["c"]](a)
    c, v = a["c"], a["v"]
    kw = {}
    if a.get("n") and c != "nam":
        kw["name"] = a["n"]
    if c == "lat":
        if "w" in a:
            kw["weights"] = np.array(a["w"], float)
        return pg.Lat(np.array(v, float), **kw)
    if c == "lon":
        if "w" in a:
            kw["weights"] = np.array(a["w"], float)
        return pg.Lon(np.array(v, float), **kw)
    if c == "pres":
        return pg.Pres(np.array(v, float), **kw)
    if c == "hgt":
        return pg.Height(np.array(v, float), **kw)
    if c == "nam":
        if "w" in a:
            kw["weights"] = np.array(a["w"], float)
        return pg.NamedAxis(np.array(v, float), a["n"], **kw)
    if c in M.TIME:
        cls = {"std": pg.StandardTime, "m365": pg.ModelTime365, "m360": pg.ModelTime360}[c]
        return cls(np.array(v, float), units=a.get("u", "days"),
                   startdate={"year": a["y"], "month": a["m"], "day": a["d"]}, **kw)
    if c == "lag":
        return pg.timeutils.Lag(np.array(v, float), name="lag", units=a.get("u", "days"), startdate={"day": 0})
    raise HarnessError("axis class %r" % c)


def axcls(c):
    pg = pygeode
    return {"lat": pg.Lat, "lon": pg.Lon, "pres": pg.Pres, "hgt": pg.Height, "nam": pg.NamedAxis,
            "std": pg.StandardTime, "m365": pg.ModelTime365, "m360": pg.ModelTime360,
            "yax": pg.YAxis, "xax": pg.XAxis, "lag": pg.timeutils.Lag}[c]


def axis_coord(ax):
    """Canonical coordinates of a pygeode axis (dates converted independently
    of the axis' own reference date, from its calendar fields)."""
    from pygeode.timeaxis import CalendarTime
    if isinstance(ax, CalendarTime) and type(ax).__name__ not in ("Lag", "Yearless"):
        c = {"StandardTime": "std", "ModelTime365": "m365", "ModelTime360": "m360"}.get(type(ax).__name__)
        if c is None:
            return [float(v) for v in ax.values]
        aux = ax.auxarrays
        n = len(ax.values)
        z = np.zeros(n, int)
        f = lambda k: np.asarray(aux.get(k, z))
        return [M.to_days(c, int(y), int(m), int(d)) * 86400.0 + int(h) * 3600 + int(mi) * 60 + float(s)
                for y, m, d, h, mi, s in zip(f("year"), f("month"), f("day"), f("hour"), f("minute"), f("second"))]
    return [float(v) for v in ax.values]


# ---------------------------------------------------------------- data
def mkdata(src):
    """The stored values of a source, from its seed."""
    if "data" in src:
        return src["data"]
    shape = tuple(len(a["v"]) for a in src["axes"])
    r = np.random.RandomState(src["seed"] % (2 ** 31))
    style = src.get("style", "normal")
    n = int(np.prod(shape)) if shape else 1
    if style == "normal":
        x = r.normal(size=n)
    elif style == "grid":          # small integers: many ties
        x = r.randint(-4, 5, size=n).astype(float)
    elif style == "pos":
        x = r.uniform(0.5, 4.0, size=n)
    elif style == "big":
        x = r.normal(size=n) * 10.0 + 280.0
    elif style == "svd":           # a matrix with chosen singular values (see P05)
        d = src["svd"]
        rec = d["rec"]
        spc = [i for i in range(len(shape)) if i not in rec]
        nt, nx = int(np.prod([shape[i] for i in rec])), int(np.prod([shape[i] for i in spc]))
        live = [i for i in range(nx) if i not in d.get("zero", ())]       # (the others hold zero throughout)
        k = min(len(d["s"]), nt, len(live))
        if k == 0:
            raise Invalid("nothing but zeros")
        u = np.linalg.qr(np.random.RandomState(d["useed"]).normal(size=(nt, k)))[0]
        v = np.zeros((nx, k))
        v[live] = np.linalg.qr(r.normal(size=(len(live), k)))[0]
        x = np.dot(u * np.array(d["s"][:k]), v.T).reshape([shape[i] for i in list(rec) + spc])
        return np.ascontiguousarray(x.transpose(np.argsort(list(rec) + spc))).astype(src.get("dtype", "f8"))
    elif style == "cnt":          # integers whose squares and sums exceed the small types
        x = r.randint(0 if src["dtype"][0] == "u" else -100, 101, size=n)
    elif style == "int":          # the whole range of an integer type
        dt = np.dtype(src["dtype"])
        x = np.frombuffer(r.bytes(n * dt.itemsize), dt).copy()
        m = min(n, 2)
        x[:m] = [np.iinfo(dt).max, np.iinfo(dt).min][:m]
        if dt.itemsize == 8:
            x[:] = x // 4096
        return x.reshape(shape)
    elif style == "flat":         # one value everywhere
        x = np.full(n, round(r.uniform(0.1, 9.0), 1))
    else:
        raise Invalid(style)
    nan = src.get("nan", 0.0)
    if nan:
        x[r.uniform(size=n) < nan] = np.nan
    return x.reshape(shape).astype(src.get("dtype", "f8"))


class FaultPlan(object):
    """Which source reads fail, by global read number. Kinds name exceptions."""
    def __init__(self, faults=None):
        self.faults = dict((int(k), v) for k, v in (faults or {}).items())
        self.n = 0
        self.fired = 0
        self.enabled = True


def _mk(base):
    return type("Sim" + base.__name__, (SimFault, base), {})


FAULTS = {"IOError": _mk(IOError), "StopIteration": _mk(StopIteration), "MemoryError": _mk(MemoryError),
          "ValueError": _mk(ValueError), "KeyError": _mk(KeyError), "IndexError": _mk(IndexError), "AttributeError": _mk(AttributeError),
          "RuntimeError": _mk(RuntimeError), "GeneratorExit": _mk(GeneratorExit), "AssertionError": _mk(AssertionError),
          "EOFError": _mk(EOFError), "TypeError": _mk(TypeError), "OSError": _mk(OSError), "ZeroDivisionError": _mk(ZeroDivisionError),
          "NotImplementedError": _mk(NotImplementedError), "RuntimeWarning": _mk(RuntimeWarning)}


FAULTS_BASE = {"KeyboardInterrupt": _mk(KeyboardInterrupt)}


class World(object):
    on_read = None            # observer of every read, set by a property

    def __init__(self, ctx, faults=None, dirty=True):
        self.ctx = ctx
        self.plan = FaultPlan(faults)
        self.reads = []           # (source name, index tuple lists, n values)
        self.yield_point = None   # set by the thread scheduler
        self.sources = []
        self.dirty = dirty
        self._dirt = 0

    # ---- memory limit
    def limit(self, n):
        import pygeode
        pygeode.MAX_ARRAY_SIZE = int(n)
        self.cur_limit = int(n)
        self.ctx.log("limit", int(n))

    # ---- allocator: uninitialised memory holds garbage, as it may in reality
    def install_allocator(self):
        if not self.dirty:
            return
        w = self

        def empty(shape, dtype=float, *a, **k):
            out = _real_empty(shape, dtype, *a, **k)
            w._dirt += 1
            try:
                if out.dtype.kind == "f":
                    out.fill((1e30, np.nan, -7.25, np.inf, 0.0)[w._dirt % 5])
                elif out.dtype.kind in "iu":
                    out.fill((101, 7, 0, 55)[w._dirt % 4])
                elif out.dtype.kind == "b":
                    out.fill(bool(w._dirt % 2))
                elif out.dtype.kind == "c":
                    out.fill((1e30 + 1j, np.nan)[w._dirt % 2])
            except Exception:
                pass
            return out
        np.empty = empty

    def uninstall(self):
        np.empty = _real_empty

    # ---- every read of every source passes through here
    def read(self, src, idx):
        n = 1
        for i in idx:
            n *= len(i)
        k = self.plan.n
        self.plan.n += 1
        self.reads.append((src.simname, idx, n))
        if World.on_read is not None:
            World.on_read(self, src.simname, idx, n)
        if self.yield_point is not None:
            self.yield_point("read:" + src.simname)
        self.ctx.log("read", k, src.simname, [(int(i[0]), int(i[-1]), len(i)) if len(i) else () for i in idx])
        if self.plan.enabled and k in self.plan.faults:
            kind = self.plan.faults.pop(k)
            self.plan.fired += 1
            self.ctx.fault("read:" + kind)
            raise (FAULTS.get(kind) or FAULTS_BASE[kind])("injected failure of read %d of %s" % (k, src.simname))

    # ---- sources
    def source(self, src, name):
        """src: {"axes", "seed", "mode": values|getvalues|getview, "dtype", "style", "nan", "alias"}"""
        import pygeode
        from pygeode.var import Var
        w = self
        data = mkdata(src)
        axes = [mkaxis(a) for a in src["axes"]]
        mode = src.get("mode", "getview")
        if mode == "values":
            class SimValues(Var):      # (a subclass: python gives operators of subclasses precedence)
                pass
            v = SimValues(axes, values=data.copy(), name=name, atts={"note": name})
            v.simname = name
            v.master, v.pristine = v.values, data.copy()
        else:
            class SimSource(Var):
                def __init__(self):
                    Var.__init__(self, axes, dtype=data.dtype, name=name, atts={"note": name})
                    self.simname = name
                    self.master = data.copy()
                    self.pristine = data.copy()

                def _get(self, idx):
                    w.read(self, idx)
                    if src.get("alias"):     # hand out (a view of) the stored array itself
                        sl = []
                        for i in idx:
                            i = np.asarray(i)
                            if len(i) > 1 and np.all(np.diff(i) == i[1] - i[0]) and i[1] > i[0]:
                                sl.append(slice(int(i[0]), int(i[-1]) + 1, int(i[1] - i[0])))
                            elif len(i) == 1:
                                sl.append(slice(int(i[0]), int(i[0]) + 1))
                            else:
                                return self.master[np.ix_(*idx)]
                        return self.master[tuple(sl)]
                    if not idx:
                        return self.master.copy()
                    return np.array(self.master[np.ix_(*idx)])
            if mode == "getvalues":
                def getvalues(self, start, count):
                    return self._get([list(range(int(s), int(s) + int(c))) for s, c in zip(start, count)])
                SimSource.getvalues = getvalues
            else:
                def getview(self, view, pbar):
                    out = self._get([[int(k) for k in i] for i in view.integer_indices])
                    pbar.update(100)
                    return out
                SimSource.getview = getview
            v = SimSource()
        v.axes_then = [np.array(ax.values, copy=True) for ax in v.axes]
        self.sources.append((v, src))
        return v

    def check_sources_intact(self, kind="input-modified"):
        for v, src in self.sources:
            a, b = np.asarray(v.master), v.pristine
            same = a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) if a.dtype.kind == "f" else a == b))
            self.ctx.check(same, kind, "stored data of %s changed" % v.simname)
            for ax, then in zip(v.axes, v.axes_then):
                self.ctx.check(ax.values.shape == then.shape and bool(np.all(ax.values == then)), kind, "axis %s of %s changed" % (ax.name, v.simname))
