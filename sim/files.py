"""The simulated disk: faults below the real netCDF and HDF5 libraries.

native/simio.c is preloaded; this is its control panel.  A fault plan is a list
of [operation, n, kind, argument]: the n-th such call (counted from the moment
the plan was armed) on a file of this run fails that way.
"""
import ctypes, os, gc
import numpy as np
from core import *
import model as M

CLS = {"open": 0, "read": 1, "write": 2, "trunc": 3, "sync": 4, "close": 5, "rename": 6}
KIND = {"EIO": 1, "ENOSPC": 2, "SHORT": 3, "EINTR": 4, "CRASH": 5, "EMFILE": 6, "EACCES": 7, "FULL": 8, "TORNCRASH": 9, "EDQUOT": 10}

_S = ctypes.CDLL(None)
try:
    _S.simio_present()
except AttributeError:
    _S = None


class Disk(object):
    def __init__(self, ctx):
        if _S is None:
            raise HarnessError("simio is not preloaded")
        _S.simio_fdpath.restype = ctypes.c_char_p
        _S.simio_count.restype = _S.simio_fired.restype = ctypes.c_long
        self.ctx = ctx
        self.dir = os.environ["VERIF_SCRATCH"]
        _S.simio_prefix(self.dir.encode())
        _S.simio_reset()
        _S.simio_arm(1)
        self.fired = {}

    def arm(self, faults=(), full=None):
        """Apply a fault plan from here on."""
        self.settle()
        self.swallowed = False
        _S.simio_reset()
        for op, n, kind, arg in faults or ():
            _S.simio_plan(CLS[op], ctypes.c_long(int(n)), KIND[kind], ctypes.c_long(int(arg or 0)))
        if full is not None:
            _S.simio_budget(ctypes.c_long(int(full)))
        _S.simio_arm(1)

    def nfired(self):
        return sum(_S.simio_fired(k) for n, k in KIND.items() if n not in ("SHORT", "EINTR"))

    def settle(self):
        """Record what fired; no further faults."""
        n = 0
        for k, i in KIND.items():
            f = _S.simio_fired(i)
            if f:
                n += f
                self.ctx.faults["disk:" + k] = self.ctx.faults.get("disk:" + k, 0) + f
                self.ctx.log("fired", k, f)
        c = self.counts()
        _S.simio_reset()
        return n, c

    def counts(self):
        return dict((k, _S.simio_count(i)) for k, i in CLS.items())

    def openfds(self):
        return [(_S.simio_fdpath(i) or b"").decode() for i in range(4096) if _S.simio_fdpath(i)]


# ---------------------------------------------------------------- netcdf library calls
class LibProxy(object):
    """Counts the calls made into libnetcdf (through ctypes) and fails the planned
    ones with an error code of the library (the call itself is not made, except
    for nc_close, which then still releases the file, as the library does)."""
    def __init__(self, ctx):
        self.ctx, self.n, self.plan, self.fired, self.seen, self.record = ctx, 0, {}, 0, [], False

    def __call__(self, lib, name, f, a):
        if lib != "libnetcdf" or not name.startswith("nc_") or name == "nc_strerror":
            return f(*a)
        k = self.n
        self.n += 1
        if self.record:
            self.seen.append(name)
        if k in self.plan:
            code = self.plan.pop(k)
            self.fired += 1
            self.ctx.faults["libnetcdf:%d" % code] = self.ctx.faults.get("libnetcdf:%d" % code, 0) + 1
            self.ctx.log("libfault", k, name, code)
            if name == "nc_close":
                f(*a)
            return code
        return f(*a)


def proxy_lib(ctx):
    """Put the proxy between the code under test and libnetcdf (run processes are private, nothing to restore)."""
    import ctypes_seam
    p = ctypes_seam.intercept = LibProxy(ctx)
    return p


def tame_netcdf4(disk):
    """The netCDF4 package closes an HDF5 file a second time when the first attempt
    failed and the object is freed, which crashes inside the library: keep it from that.
    It also sees errors of the disk that the library doesn't report (when closing
    classic files): note those in disk.swallowed."""
    import netCDF4

    real = netCDF4.Dataset

    class Dataset(real):
        def __exit__(self, *a):
            self.close()

        def close(self):
            hdf = self.data_model.startswith("NETCDF4")
            n = disk.nfired()
            try:
                real.close(self)
                if disk.nfired() > n:
                    disk.swallowed = True
            except BaseException:
                if hdf:
                    real._isopen.__set__(self, 0)
                raise
    netCDF4.Dataset = Dataset
    return real


class VarProxy(object):
    """A variable of the netCDF4 package whose reads fail as planned (plan: number of the read -> None)."""
    def __init__(self, v, seam):
        self.__dict__.update(_v=v, _seam=seam)

    def __getattr__(self, k):
        return getattr(self._v, k)

    def __getitem__(self, i):
        s = self._seam
        k = s.n
        s.n += 1
        if k in s.plan:
            s.plan.pop(k)
            s.ctx.faults["netCDF4:read"] = s.ctx.faults.get("netCDF4:read", 0) + 1
            s.ctx.log("nc4fault", k)
            raise (RuntimeError if k % 2 else OSError)("NetCDF: HDF error")
        return self._v[i]


class Nc4Seam(object):
    """Stands between pygeode and the netCDF4 package's variables."""
    def __init__(self, ctx):
        import netCDF4
        self.ctx, self.n, self.plan = ctx, 0, {}
        seam, real = self, netCDF4.Dataset

        class ReadDataset(real):
            @property
            def variables(self):
                return dict((k, VarProxy(v, seam)) for k, v in real.variables.__get__(self).items())

        def Dataset(filename, mode="r", *a, **k):
            return (ReadDataset if mode == "r" else real)(filename, mode, *a, **k)
        netCDF4.Dataset = Dataset


# ---------------------------------------------------------------- independent reader
def raw(path):
    """Contents of a netCDF file through the netCDF4 package alone."""
    import netCDF4
    out = {"vars": {}, "dims": {}, "atts": {}}

    def grab(f, out):
        for k, d in f.dimensions.items():
            out["dims"][k] = len(d)
        for k in f.ncattrs():
            out["atts"][k] = f.getncattr(k)
        for k, v in f.variables.items():
            atts = dict((a, v.getncattr(a)) for a in v.ncattrs())
            if set(atts) & set(("_FillValue", "missing_value", "scale_factor", "add_offset")) and np.dtype(v.dtype).kind in "fiu":
                v.set_auto_maskandscale(True)
                v.set_always_mask(True)
                x = v[...]
                x = np.ma.filled(np.ma.asarray(x).astype(float), np.nan)
            else:
                x = None
            v.set_auto_maskandscale(False)
            out["vars"][k] = {"dims": list(v.dimensions), "atts": atts, "x": np.asarray(v[...]) if x is None else x, "raw": np.asarray(v[...]), "dtype": v.dtype}
    f = netCDF4.Dataset(path, "r")
    try:
        grab(f, out)
        out["groups"] = {}
        for g in f.groups:
            o = out["groups"][g] = {"vars": {}, "dims": {}, "atts": {}}
            grab(f.groups[g], o)
    finally:
        f.close()
    return out


def att_equal(got, want):
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    try:
        g, w = np.asarray(got), np.asarray(want)
        if w.size == 1 and g.size == 1:
            return float(g.reshape(-1)[0]) == float(w.reshape(-1)[0])
        return g.shape == w.shape and bool(np.all(g == w))
    except Exception:
        return False
