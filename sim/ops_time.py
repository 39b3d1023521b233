"""Calendar aggregations: model and real construction."""
import numpy as np
from core import Invalid
import model as M
from model import LA
from gen import op, Op

FLD = ("year", "month", "day", "hour", "minute", "second")
KINDS = {"clim": FLD[1:], "daily": FLD[:3], "monthly": FLD[:2], "yearly": FLD[:1], "diurnal": FLD[3:], "seasonal": ("year", "season")}
REAL = {("clim", "mean"): "climatology", ("clim", "nanmean"): "nanclimatology", ("clim", "stdev"): "climstdev", ("clim", "nanstdev"): "climnanstdev", ("clim", "count"): "climcount"}
STATS = ("mean", "nanmean", "stdev", "nanstdev", "count")


def real_name(k, s):
    return REAL.get((k, s)) or k + s


def tindex(la):
    for i, a in enumerate(la.axes):
        if a["c"] in M.TIME:
            return i
    raise Invalid("no time")


def seasons(a):
    """(season-aligned year, season 1-4) by day of year"""
    out = []
    for y, m, d, h, mi, s in M.axdates(a):
        if a["c"] == "m360":
            raise Invalid("no seasons on this calendar")
        if a["c"] == "std" and ((m in (2, 5, 8, 11) and d >= 27) or (m in (3, 6, 9, 12) and d <= 2)):
            raise Invalid("leap-year boundary of a season")
        q = {12: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 2, 6: 3, 7: 3, 8: 3, 9: 4, 10: 4, 11: 4}[m]
        out.append((y + (1 if m == 12 else 0), q))
    return out


def groups(kind, a):
    """sorted group keys and the group number of each step"""
    if kind == "seasonal":
        ks = seasons(a)
    else:
        ks = [tuple(t[FLD.index(f)] for f in KINDS[kind]) for t in M.axdates(a)]
    u = sorted(set(ks))
    return u, [u.index(k) for k in ks]


def agg(stat, arr, ti, g, n):
    x = np.moveaxis(arr.astype(float), ti, 0)
    out = np.full((n,) + x.shape[1:], np.nan)
    g = np.asarray(g)
    for k in range(n):
        z = x[g == k]
        ok = ~np.isnan(z)
        c = ok.sum(0)
        with np.errstate(all="ignore"):
            if stat == "count":
                out[k] = c
            elif stat == "mean":
                out[k] = z.mean(0)
            elif stat == "nanmean":
                out[k] = np.where(c > 0, np.where(ok, z, 0).sum(0) / c, np.nan)
            elif stat == "stdev":
                out[k] = np.sqrt(((z - z.mean(0)) ** 2).sum(0) / (len(z) - 1)) if len(z) > 1 else np.nan
            elif stat == "nanstdev":
                mu = np.where(ok, z, 0).sum(0) / c
                v = (np.where(ok, z - mu, 0) ** 2).sum(0) / (c - 1)
                out[k] = np.where(c > 1, np.sqrt(np.where(c > 1, v, 0)), np.nan)
    return np.moveaxis(out, 0, ti)


def grp_axis(kind, a, u):
    return {"c": "grp", "base": a["c"], "f": list(KINDS[kind]), "t": [list(k) for k in u], "v": list(range(len(u)))}


@op
class Agg(Op):
    name = "agg"

    def gen(self, rng, las):
        la = las[0]
        a = la.axes[tindex(la)]
        k = rng.pick(sorted(KINDS))
        return {"k": k, "s": rng.pick(STATS), "how": rng.randrange(2)}

    def model(self, p, las):
        la = las[0]
        ti = tindex(la)
        a = la.axes[ti]
        if len(set(M.axcoord(a))) < len(a["v"]):
            raise Invalid("repeated dates")
        u, g = groups(p["k"], a)
        axes = list(la.axes)
        axes[ti] = grp_axis(p["k"], a, u)
        return LA(axes, agg(p["s"], la.arr, ti, g, len(u)))

    def build(self, p, v, W):
        import pygeode
        n = real_name(p["k"], p["s"])
        return getattr(v[0], n)() if p["how"] else getattr(pygeode, n)(v[0])


def fit(arr, ti, a):
    """Per-calendar-date least-squares lines: seconds since the reference date of the axis."""
    if np.isinf(arr).any():
        raise Invalid("infinite values")
    u, g = groups("clim", a)
    secs = np.array(M.axcoord(a)) - M.to_days(a["c"], a["y"], a["m"], a["d"]) * 86400.0
    x = np.moveaxis(arr.astype(float), ti, 0)
    A = np.full((len(u),) + x.shape[1:], np.nan)
    B = A.copy()
    g = np.asarray(g)
    for k in range(len(u)):
        t, z = secs[g == k], x[g == k]
        if len(t) < 2:
            raise Invalid("a line through one point")
        tm = t.mean()
        d = (t - tm).reshape([-1] + [1] * (z.ndim - 1))
        A[k] = (d * (z - z.mean(0))).sum(0) / (d ** 2).sum()
        B[k] = z.mean(0) - A[k] * tm
    return u, g, secs, A, B


@op
class Trend(Op):
    """climtrend: coefficients on an extra axis"""
    name = "trend"

    def model(self, p, las):
        la = las[0]
        ti = tindex(la)
        a = la.axes[ti]
        if len(set(M.axcoord(a))) < len(a["v"]):
            raise Invalid("repeated dates")
        u, g, secs, A, B = fit(la.arr, ti, a)
        axes = list(la.axes)
        axes[ti] = grp_axis("clim", a, u)
        return LA(axes + [{"c": "coef", "v": [0, 1]}], np.stack([np.moveaxis(B, 0, ti), np.moveaxis(A, 0, ti)], -1))

    def build(self, p, v, W):
        import pygeode
        return pygeode.climtrend(v[0])


@op
class Detrend(Op):
    """removing the fitted trend, the trend itself, and the two together"""
    name = "detrend"

    def gen(self, rng, las):
        return {"out": rng.pick(["resid", "line", "both", "lazyline"])}

    def model(self, p, las):
        la = las[0]
        ti = tindex(la)
        a = la.axes[ti]
        if len(set(M.axcoord(a))) < len(a["v"]):
            raise Invalid("repeated dates")
        if not all(x <= y for x, y in zip(M.axcoord(a), M.axcoord(a)[1:])):
            raise Invalid("unsorted")
        u, g, secs, A, B = fit(la.arr, ti, a)
        line = np.moveaxis(A[g] * secs.reshape([-1] + [1] * (A.ndim - 1)) + B[g], 0, ti)
        if p["out"] == "resid":
            return LA(la.axes, la.arr - line)
        if p["out"] in ("line", "lazyline"):
            return LA(la.axes, line)
        return LA(la.axes, la.arr + 0.0 * line)

    def build(self, p, v, W):
        import pygeode
        if p["out"] == "lazyline":
            return pygeode.from_trend(v[0].getaxis(pygeode.timeaxis.Time), pygeode.climtrend(v[0]))
        r, c = pygeode.climat.detrend(v[0], return_clim=True)
        if p["out"] == "resid":
            return r
        if p["out"] == "line":
            return c
        return r + c


@op
class Anomaly(Op):
    """x minus an aggregate of x, aligned by the shared calendar fields"""
    name = "anom"

    def gen(self, rng, las):
        return {"k": rng.pick(["clim", "daily", "monthly", "yearly", "diurnal"]), "s": rng.pick(["mean", "nanmean"])}

    def model(self, p, las):
        la = las[0]
        ti = tindex(la)
        a = la.axes[ti]
        c = M.axcoord(a)
        if len(set(c)) < len(c):
            raise Invalid("repeated dates")
        if any(x > y for x, y in zip(c, c[1:])):
            raise Invalid("unsorted")
        u, g = groups(p["k"], a)
        x = agg(p["s"], la.arr, ti, g, len(u))
        return LA(la.axes, la.arr - np.take(x, g, axis=ti))

    def build(self, p, v, W):
        return v[0] - getattr(v[0], real_name(p["k"], p["s"]))()


def gen_time(rng, nmax=24):
    """A time axis built from calendar dates: years x days x hours, with gaps."""
    c = rng.pick(["std", "std", "m365", "m365", "m360"])
    style = rng.randrange(5)
    y0 = rng.pick([1979, 1999, 2003])
    if style == 0:        # same dates in several years
        ny, days, hours = rng.randint(2, 5), rng.randint(1, 5), rng.pick([[0], [0], [0, 12]])
    elif style == 1:      # consecutive days
        ny, days, hours = 1, rng.randint(2, 20), [0]
    elif style == 2:      # sub-daily
        ny, days, hours = 1, rng.randint(1, 4), rng.pick([[0, 6, 12, 18], [0, 6, 12, 18], [1, 5, 20]])
    elif style == 3:      # months
        ny, days, hours = rng.randint(1, 3), 12, [0]
    else:
        ny, days, hours = rng.randint(1, 3), rng.randint(2, 8), rng.pick([[0], [3, 15]])
    if style == 1 or style == 2:
        m, d = rng.randint(1, 12), rng.randint(1, 28)
        base = M.to_days(c, y0, m, d)
        dd = [base + k for k in range(days)]
    elif style == 3:
        d = rng.pick([1, 1, 15])
        dd = [M.to_days(c, y0 + y, m, d) for y in range(ny) for m in range(1, 13)]
    else:
        md = sorted(set((rng.randint(1, 12), rng.pick([1, 2, 14, 15, 28, rng.randint(1, 28)])) for _ in range(days)))
        dd = [M.to_days(c, y0 + y, m, d) for y in range(ny) for m, d in md]
    pts = [d * 24 + h for d in dd for h in hours]
    if rng.chance(0.35) and len(pts) > 2:
        pts = [x for x in pts if rng.chance(0.8)] or pts
    pts = pts[:nmax]
    if rng.chance(0.4):
        off = 0
        y, m, d = M.from_days(c, pts[0] // 24)
    else:
        y, m, d = rng.pick([(y0, 1, 1), (y0 - 1, 6, 15), (y0 + 1, 1, 1)])
    ref = M.to_days(c, y, m, d) * 24
    u = rng.pick(["days", "days", "hours"])
    a = {"c": c, "y": y, "m": m, "d": d, "u": u, "v": [(x - ref) / (24.0 if u == "days" else 1.0) for x in pts]}
    if rng.chance(0.15):
        v = list(a["v"])
        rng.shuffle(v)
        a["v"] = v
    return a
