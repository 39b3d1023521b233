"""Concatenation, splitting and joining, ensembles, flattening, composites, calendar coercion."""
import numpy as np
from core import Invalid
import model as M
from model import LA
from gen import op, Op
from ops_nbhd import pick_axis, along
from ops_time import FLD

M.NAMES.update({"ens": "ensemble", "event": "event", "offset": "offset", "yearless": "time"})


def segments(rng, n):
    """A division of range(n) into pieces, in some order."""
    k = rng.randint(1, min(4, n))
    cuts = [0] + sorted(rng.sample(range(1, n), k - 1)) + [n] if n > 1 else [0, 1]
    parts = [[a, b] for a, b in zip(cuts, cuts[1:])]
    if rng.chance(0.35):
        rng.shuffle(parts)
    return parts


@op
class Cat(Op):
    """slice into pieces, concatenate them"""
    name = "cat"

    def gen(self, rng, las):
        i = pick_axis(rng, las[0], 2)
        if i is None:
            return None
        return {"ax": i, "parts": segments(rng, len(las[0].axes[i]["v"])), "how": rng.randrange(4)}

    def model(self, p, las):
        la, i = las[0], p["ax"]
        if i >= len(la.axes) or la.axes[i]["c"] in ("grp", "coef", "event", "offset", "yearless", "ens", "lag"):
            raise Invalid("axis")
        n = len(la.axes[i]["v"])
        idx = []
        for a, b in p["parts"]:
            if not 0 <= a < b <= n:
                raise Invalid("parts")
            idx += list(range(a, b))
        if len(set(idx)) < len(idx) or not idx:
            raise Invalid("parts overlap")
        c = M.axcoord(la.axes[i])
        if len(set(c)) < len(c):
            raise Invalid("repeated coordinates")
        return LA(la.axes[:i] + [M.axtake(la.axes[i], idx)] + la.axes[i + 1:], np.take(la.arr, idx, axis=i))

    def build(self, p, v, W):
        import pygeode
        i = p["ax"]
        segs = [v[0].slice[tuple([slice(None)] * i + [slice(a, b)])] for a, b in p["parts"]]
        return cat(segs, i, p["how"])


def cat(segs, i, how):
    import pygeode
    from pygeode.concat import concat
    if how == 0:
        return concat(segs)
    if how == 1:
        return concat(*segs)
    if how == 2:
        return concat(segs, iaxis=i)
    nm = segs[0].name or "q"
    d = pygeode.dataset.concat([pygeode.asdataset([s.rename(nm)]) for s in segs])
    return d[nm]


@op
class CatN(Op):
    """concatenate separately read variables (axes given by their coordinates)"""
    name = "catn"
    nargs = 0          # any number

    def model(self, p, las):
        i = p["ax"]
        a0 = las[0].axes
        for la in las[1:]:
            if len(la.axes) != len(a0):
                raise Invalid("rank")
            for j, (x, y) in enumerate(zip(a0, la.axes)):
                if M.axkey(x) != M.axkey(y) or j != i and (M.axcoord(x) != M.axcoord(y) or x.get("w") != y.get("w")):
                    raise Invalid("axes differ")
        c = [M.axcoord(la.axes[i]) for la in las]
        allc = sum(c, [])
        if len(set(allc)) < len(allc):
            raise Invalid("repeated coordinates")
        ax = dict(a0[i])
        if len(set("w" in la.axes[i] for la in las)) > 1:
            raise Invalid("weights on some only")
        if "w" in ax:
            ax["w"] = sum([list(la.axes[i]["w"]) for la in las], [])
        if ax["c"] in M.TIME:
            base = M.to_days(ax["c"], ax["y"], ax["m"], ax["d"]) * 86400.0
            s = M._SEC[ax.get("u", "days")]
            ax["v"] = [(x - base) / s for x in allc]
        else:
            ax["v"] = allc
        dt = np.result_type(*[la.arr.dtype for la in las])
        return LA(a0[:i] + [ax] + a0[i + 1:], np.concatenate([la.arr.astype(dt) for la in las], i))

    def build(self, p, v, W):
        return cat(v, p["ax"], p["how"])


@op
class Degenerate(Op):
    """concatenating variables on equal axes adds an axis; an ensemble likewise (in front)"""
    name = "stackn"
    nargs = 0

    def model(self, p, las):
        a0 = las[0].axes
        for la in las:
            if [M.axkey(a) for a in la.axes] != [M.axkey(a) for a in a0] or any(M.axcoord(x) != M.axcoord(y) for x, y in zip(a0, la.axes)):
                raise Invalid("axes differ")
        if any(a["c"] in ("ens",) or a.get("n") == "concat" for a in a0) or len(las) < 2:
            raise Invalid("already")
        dt = np.result_type(*[la.arr.dtype for la in las])
        if p["kind"] == "ens":
            return LA([{"c": "ens", "v": [float(k) for k in range(len(las))]}] + a0, np.stack([la.arr.astype(dt) for la in las], 0))
        return LA(a0 + [{"c": "nam", "n": "concat", "v": [float(k) for k in range(len(las))]}], np.stack([la.arr.astype(dt) for la in las], -1))

    def build(self, p, v, W):
        import pygeode
        from pygeode.concat import concat
        if p["kind"] == "ens":
            v = [x.rename("q") for x in v]
            if p.get("how"):
                return pygeode.ensemble(*[pygeode.asdataset([x]) for x in v])["q"]
            return pygeode.ensemble(*v)
        return concat(list(v))


def _time(la, p):
    i = p["ax"]
    if i >= len(la.axes) or la.axes[i]["c"] not in M.TIME:
        raise Invalid("time")
    c = M.axcoord(la.axes[i])
    if len(set(c)) < len(c):
        raise Invalid("repeated dates")
    return i, la.axes[i]


@op
class Split(Op):
    """time -> (year, day of year), missing combinations are NaN; optionally joined again"""
    name = "split"

    def gen(self, rng, las):
        i = pick_axis(rng, las[0], 1, lambda a: a["c"] in M.TIME)
        if i is None:
            return None
        return {"ax": i, "join": rng.chance(0.4), "byname": rng.chance(0.5), "move": rng.randrange(len(las[0].axes))}

    def model(self, p, las):
        la = las[0]
        i, a = _time(la, p)
        if any(b.get("n") in ("year", "day") for b in la.axes):
            raise Invalid("already")
        t = M.axdates(a)
        if a["c"] == "std" and any(x[1:3] == (2, 29) for x in t):
            raise Invalid("no such day in every year")
        ys = sorted(set(x[0] for x in t))
        ds = sorted(set(x[1:] for x in t))
        x = np.moveaxis(la.arr.astype(float), i, 0)
        out = np.full((len(ys), len(ds)) + x.shape[1:], np.nan)
        for k, d in enumerate(t):
            out[ys.index(d[0]), ds.index(d[1:])] = x[k]
        if p["join"]:
            base = M.to_days(a["c"], a["y"], a["m"], a["d"]) * 86400.0
            s = M._SEC[a.get("u", "days")]
            v = [(M.to_days(a["c"], y, d[0], d[1]) * 86400.0 + d[2] * 3600 + d[3] * 60 + d[4] - base) / s for y in ys for d in ds]
            return LA(la.axes[:i] + [dict(a, v=v)] + la.axes[i + 1:], np.moveaxis(out.reshape((-1,) + x.shape[1:]), 0, i))
        out = np.moveaxis(out, [0, 1], [i, i + 1])
        yax = {"c": "nam", "n": "year", "v": [float(y) for y in ys]}
        dax = {"c": "grp", "base": a["c"], "f": list(FLD[1:]), "t": [list(d) for d in ds], "v": list(range(len(ds))), "n": "day"}
        return LA(la.axes[:i] + [yax, dax] + la.axes[i + 1:], out)

    def build(self, p, v, W):
        from pygeode.timeutils import splittimeaxis, jointimeaxes
        import pygeode.timeutils
        r = splittimeaxis(v[0], v[0].axes[p["ax"]].name if p["byname"] else p["ax"])
        if not p["join"]:
            return r
        if p["byname"]:        # the day axis need not follow the year axis
            names = [a.name for a in r.axes if a.name != "day"]
            if len(set(names)) == len(names):
                k = max(p.get("move", 0), names.index("year"))
                r = r.transpose(*(names[:k + 1] + ["day"] + names[k + 1:]))
        return jointimeaxes(r) if p["byname"] else jointimeaxes(r, p["ax"], p["ax"] + 1)


@op
class Flatten(Op):
    """merge an axis with the one outside it"""
    name = "flat"

    def gen(self, rng, las):
        if len(las[0].axes) < 2:
            return None
        return {"in": rng.randrange(1, len(las[0].axes)), "nax": rng.chance(0.7)}

    def model(self, p, las):
        la, i = las[0], p["in"]
        if i >= len(la.axes) or i < 1 or any(a["c"] in ("grp", "coef", "event", "yearless") for a in la.axes) or any(a.get("n") == "flat" for a in la.axes):
            raise Invalid("axis")
        o = la.axes[i - 1]
        n, m = len(o["v"]), len(la.axes[i]["v"])
        if p["nax"]:
            ax = {"c": "nam", "n": "flat", "v": [float(k) for k in range(n * m)]}
        else:
            if o["c"] != "nam" or la.axes[i]["c"] in M.TIME + ("lag",):
                raise Invalid("needs an axis")
            ax = {"c": "nam", "n": o["n"], "v": [float(k * m + x) for k in range(n) for x in la.axes[i]["v"]]}
            if len(set(ax["v"])) < len(ax["v"]):
                raise Invalid("repeated")
        return LA(la.axes[:i - 1] + [ax] + la.axes[i + 1:], la.arr.reshape(la.shape[:i - 1] + (n * m,) + la.shape[i + 1:]))

    def build(self, p, v, W):
        import pygeode
        from pygeode.composite import flatten
        n = len(v[0].axes[p["in"] - 1]) * len(v[0].axes[p["in"]])
        return flatten(v[0], p["in"], pygeode.NamedAxis(np.arange(float(n)), "flat")) if p["nax"] else flatten(v[0], p["in"])


@op
class Composite(Op):
    """pieces around key indices of an axis; NaN outside the record or the event"""
    name = "comp"

    def gen(self, rng, las):
        i = pick_axis(rng, las[0], 2, lambda a: a["c"] in M.TIME) if rng.chance(0.6) else pick_axis(rng, las[0], 2)
        if i is None:
            return None
        n = len(las[0].axes[i]["v"])
        ev = sorted(rng.sample(range(n), rng.randint(1, min(4, n))))
        def ln():
            return rng.randint(1, 6)
        el = [ln() for _ in ev] if rng.chance(0.4) else ln()
        eo = [rng.randrange(-1, 5) for _ in ev] if rng.chance(0.3) else rng.pick([0, 0, 1, 2, 3, -1, -2])
        p = {"ax": i, "ev": ev, "el": el, "eo": eo}
        if rng.chance(0.3):
            p["flat"] = rng.pick([1, 2])
        return p

    def model(self, p, las):
        la, i = las[0], p["ax"]
        if i >= len(la.axes) or la.axes[i]["c"] in ("grp", "coef", "event", "offset", "yearless", "lag", "ens") or any(a["c"] in ("event", "offset", "yearless", "grp") for a in la.axes):
            raise Invalid("axis")
        a = la.axes[i]
        n, k = len(a["v"]), len(p["ev"])
        if not k or any(not 0 <= e < n for e in p["ev"]) or la.arr.dtype.kind != "f" or n < 2:
            raise Invalid("events")
        EL = p["el"] if isinstance(p["el"], list) else [p["el"]] * k
        EO = p["eo"] if isinstance(p["eo"], list) else [p["eo"]] * k
        if len(EL) != k or len(EO) != k or min(EL) < 1:
            raise Invalid("lengths")
        mo = max(EO)
        ml = max(l - o + mo for l, o in zip(EL, EO))
        if ml < 1:
            raise Invalid("lengths")
        x = np.moveaxis(la.arr.astype(float), i, 0)
        out = np.full((k, ml) + x.shape[1:], np.nan)
        for e in range(k):
            for j in range(ml):
                off = j - mo
                t = p["ev"][e] + off
                if -EO[e] <= off < EL[e] - EO[e] and 0 <= t < n:
                    out[e, j] = x[t]
        if a["c"] in M.TIME:
            c = M.axcoord(a)
            if any(y <= z for z, y in zip(c, c[1:])):
                raise Invalid("unsorted")
            d = min(y - z for z, y in zip(c, c[1:])) / M._SEC[a.get("u", "days")]
            oax = {"c": "yearless", "u": a.get("u", "days"), "v": [d * (j - mo) for j in range(ml)]}
        else:
            oax = {"c": "offset", "v": [float(j - mo) for j in range(ml)]}
        if p.get("flat"):
            if any(b.get("n") == "flat" for b in la.axes):
                raise Invalid("already")
            return LA(la.axes[:i] + [{"c": "nam", "n": "flat", "v": [float(j) for j in range(k * ml)]}] + la.axes[i + 1:], np.moveaxis(out.reshape((k * ml,) + x.shape[1:]), 0, i))
        return LA(la.axes[:i] + [{"c": "event", "v": [float(e + 1) for e in range(k)]}, oax] + la.axes[i + 1:], np.moveaxis(out, [0, 1], [i, i + 1]))

    def build(self, p, v, W):
        import pygeode
        from pygeode.composite import composite, flatten
        x = v[0]
        r = composite(x, **{"li_" + x.axes[p["ax"]].name: list(p["ev"]), "evlen": p["el"], "evoff": p["eo"]})
        if not p.get("flat"):
            return r
        n = len(r.axes[p["ax"]]) * len(r.axes[p["ax"] + 1])
        ax = pygeode.NamedAxis(np.arange(float(n)), "flat")
        return flatten(r, naxis=ax) if p["flat"] == 2 else flatten(r, p["ax"] + 1, ax)


@op
class RemoveLeap(Op):
    """standard calendar -> 365-day calendar without 29 February"""
    name = "rly"

    def gen(self, rng, las):
        i = pick_axis(rng, las[0], 1, lambda a: a["c"] == "std")
        return None if i is None else {"ax": i}

    def model(self, p, las):
        la = las[0]
        i, a = _time(la, p)
        if a["c"] != "std":
            raise Invalid("calendar")
        c = M.axcoord(a)
        if any(y <= z for z, y in zip(c, c[1:])):
            raise Invalid("unsorted")
        t = M.axdates(a)
        keep = [k for k, x in enumerate(t) if x[1:3] != (2, 29)]
        if not keep:
            raise Invalid("nothing left")
        y0 = t[keep[0]][0]
        base = M.to_days("m365", y0, 1, 1) * 86400.0
        v = [(M.to_days("m365", *t[k][:3]) * 86400.0 + t[k][3] * 3600 + t[k][4] * 60 + t[k][5] - base) / 86400.0 for k in keep]
        return LA(la.axes[:i] + [{"c": "m365", "y": y0, "m": 1, "d": 1, "u": "days", "v": v}] + la.axes[i + 1:], np.take(la.arr, keep, axis=i))

    def build(self, p, v, W):
        from pygeode.timeutils import removeleapyears
        return removeleapyears(v[0])


CATOPS = ["cat", "cat", "split", "flat", "comp", "rly", "lag"]
