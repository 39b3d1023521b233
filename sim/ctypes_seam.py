"""Every call the code under test makes into a C library through ctypes passes
here: such a call releases the interpreter lock, so other threads may run
before, during and after it. Without a hook nothing changes. (Calls that keep
the interpreter lock - ctypes.PyDLL - are left alone.)"""
import ctypes

hook = None               # hook(library, function, "enter" | "leave")
intercept = None          # intercept(library, function, call, arguments): makes the call, or not

_CDLL = ctypes.CDLL


def _wrap(base, lib):
    class F(base):
        _flags_ = base._flags_
        _restype_ = base._restype_

        def __call__(self, *a):
            if intercept is not None:
                return intercept(lib, getattr(self, "__name__", "?"), lambda *b: base.__call__(self, *b), a)
            if hook is None:
                return base.__call__(self, *a)
            name = getattr(self, "__name__", "?")
            hook(lib, name, "enter")
            try:
                return base.__call__(self, *a)
            finally:
                hook(lib, name, "leave")
    return F


class CDLL(_CDLL):
    def __init__(self, name, *a, **k):
        _CDLL.__init__(self, name, *a, **k)
        if name and "netcdf" in str(name):
            self._FuncPtr = _wrap(self._FuncPtr, "libnetcdf")


def install():
    ctypes.CDLL = CDLL
    ctypes.cdll = ctypes.LibraryLoader(CDLL)
