"""Reference model: labelled in-memory arrays and plain-numpy operations.

Deliberately trivial, and independent of the code under test: no laziness, no
views, no chunks.  An axis is a dict {"c": class, "v": [numbers], "n": name?, ...}.
"""
import datetime, math
import numpy as np
from core import Invalid

TIME = ("std", "m365", "m360")
NAMES = {"lat": "lat", "lon": "lon", "pres": "pres", "hgt": "z", "std": "time", "m365": "time", "m360": "time",
         "yax": "yaxis", "xax": "xaxis", "lag": "lag"}
CUM365 = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
_SEC = {"days": 86400.0, "hours": 3600.0, "minutes": 60.0, "seconds": 1.0}


def to_days(c, y, m, d):
    """Whole days since year 1 of the calendar."""
    if c == "std":
        return datetime.date(y, m, d).toordinal()
    if c == "m365":
        return (y - 1) * 365 + CUM365[m - 1] + d
    return (y - 1) * 360 + (m - 1) * 30 + d


def from_days(c, n):
    if c == "std":
        x = datetime.date.fromordinal(n)
        return x.year, x.month, x.day
    if c == "m365":
        n -= 1
        y, r = divmod(n, 365)
        m = max(k for k in range(12) if CUM365[k] <= r)
        return y + 1, m + 1, r - CUM365[m] + 1
    n -= 1
    y, r = divmod(n, 360)
    return y + 1, r // 30 + 1, r % 30 + 1


def doy(c, y, m, d):
    return to_days(c, y, m, d) - to_days(c, y, 1, 1) + 1


def axname(a):
    return a.get("n") or NAMES[a["c"]]


def axcoord(a):
    """Canonical coordinate values, comparable between axes of one class."""
    if a["c"] in TIME:
        base = to_days(a["c"], a["y"], a["m"], a["d"]) * 86400.0
        return [base + v * _SEC[a.get("u", "days")] for v in a["v"]]
    return [float(v) for v in a["v"]]


def axdates(a):
    """(year, month, day, hour, minute, second) of every step."""
    out = []
    for s in axcoord(a):
        s = int(round(s))
        n, r = divmod(s, 86400)
        out.append(from_days(a["c"], n) + (r // 3600, r % 3600 // 60, r % 60))
    return out


def axkey(a):
    """Identity of the axis class; axes with equal keys may be aligned."""
    return (a["c"], a.get("n") if a["c"] in ("nam",) else None)


def axtake(a, idx):
    b = dict(a)
    b["v"] = [a["v"][i] for i in idx]
    for k in ("w", "t"):
        if k in b:
            b[k] = [a[k][i] for i in idx]
    return b


class LA(object):
    """Labelled array."""
    def __init__(self, axes, arr):
        self.axes = list(axes)
        self.arr = np.asarray(arr)
        if self.arr.shape != tuple(len(a["v"]) for a in self.axes):
            raise Invalid("model shape %s vs %s" % (self.arr.shape, [len(a["v"]) for a in self.axes]))

    @property
    def shape(self):
        return self.arr.shape

    def keys(self):
        return [axkey(a) for a in self.axes]

    def which(self, key):
        for i, a in enumerate(self.axes):
            if axkey(a) == key:
                return i
        return -1


def ctol(w):
    """Tolerance for coordinate equality (calendar coordinates are seconds)."""
    return 0.5 if abs(w) > 1e8 else 1e-6 * max(1.0, abs(w))


def common(c1, c2):
    """Is every value of c1 in c2 (exactly once)?  -> indices or None"""
    idx = []
    for v in c1:
        hit = [j for j, w in enumerate(c2) if abs(v - w) <= ctol(w) * 0.5]
        if len(hit) != 1:
            return None
        idx.append(hit[0])
    return idx


def same(c1, c2):
    return len(c1) == len(c2) and all(abs(x - y) <= ctol(y) for x, y in zip(c1, c2))


def aligned_axes(las):
    """Axes of an operation on several arrays: matching axes are restricted to
    the smaller one's coordinates (which the larger must contain)."""
    out = []
    for la in las:
        for a in la.axes:
            for k, o in enumerate(out):
                if axkey(o) == axkey(a):
                    if common(axcoord(a), axcoord(o)) is not None:
                        out[k] = a          # (equal sets: the later operand's order)
                    elif common(axcoord(o), axcoord(a)) is not None:
                        pass
                    else:
                        raise Invalid("axes overlap only partly")
                    break
            else:
                out.append(a)
    for la in las:   # an operand that has every axis fixes the order
        ks = la.keys()
        if len(ks) == len(out) and all(axkey(o) in ks for o in out):
            if all(same(axcoord(la.axes[ks.index(axkey(o))]), axcoord(o)) for o in out):
                return list(la.axes)
    return out


def conform(la, axes):
    """Array of la arranged on the given axes (size 1 where it has no such axis)."""
    arr = la.arr
    order, idx = [], []
    for a in axes:
        i = la.which(axkey(a))
        order.append(i)
        if i >= 0:
            m = common(axcoord(a), axcoord(la.axes[i]))
            if m is None:
                raise Invalid("no such coordinates")
            arr = np.take(arr, m, axis=i)
    if sorted(i for i in order if i >= 0) != list(range(len(la.axes))):
        raise Invalid("axis lost")
    arr = arr.transpose([i for i in order if i >= 0])
    shape, k = [], 0
    for i in order:
        if i >= 0:
            shape.append(arr.shape[k]); k += 1
        else:
            shape.append(1)
    return arr.reshape(shape)
