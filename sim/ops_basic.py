"""Elementwise and reshaping operations: model and real construction."""
import math
import numpy as np
from core import Invalid
import model as M
from model import LA
from gen import op, Op, gen_axis, gen_slice, idx_of, py_of, py_slices

UN = {  # name -> (numpy function, exact under IEEE regardless of code path, continuous)
    "neg": (np.negative, True), "abs": (np.abs, True), "sign": (np.sign, True), "sqrt": (np.sqrt, True),
    "exp": (np.exp, False), "log": (np.log, False), "log10": (np.log10, False), "sin": (np.sin, False), "cos": (np.cos, False), "tanh": (np.tanh, False),
    "sinh": (np.sinh, False), "cosh": (np.cosh, False), "arctan": (np.arctan, False), "arcsinh": (np.arcsinh, False),
    "sind": (lambda x: np.sin(x * math.pi / 180.), False), "cosd": (lambda x: np.cos(x * math.pi / 180.), False),
    "arctand": (lambda x: np.arctan(x) * 180. / math.pi, False), "tand": (lambda x: np.tan(x * math.pi / 180.), False),
    "nan_to_num": (np.nan_to_num, True), "arcsin": (np.arcsin, False), "arccos": (np.arccos, False), "tan": (np.tan, False),
    "arccosh": (np.arccosh, False), "arctanh": (np.arctanh, False), "arccosd": (lambda x: np.arccos(x) * 180. / math.pi, False),
    "arcsind": (lambda x: np.arcsin(x) * 180. / math.pi, False),
}
DISC = ("sign",)          # need exact inputs
BIN = {"add": (np.add, True), "sub": (np.subtract, True), "mul": (np.multiply, True), "div": (np.true_divide, True),
       "min": (np.minimum, True), "max": (np.maximum, True), "pow2": (None, True), "mod": (np.mod, True),
       "lt": (np.less, True), "le": (np.less_equal, True), "gt": (np.greater, True), "ge": (np.greater_equal, True),
       "eq": (np.equal, True), "ne": (np.not_equal, True), "arctan2": (np.arctan2, False), "arctand2": (lambda a, b: np.arctan2(a, b) * 180. / math.pi, False)}
CMP = ("lt", "le", "gt", "ge", "eq", "ne")


def flt(x):
    return x.astype(float) if x.dtype.kind == "b" else x


def mk(la_axes, arr):
    r = LA(la_axes, arr)
    return r


@op
class Unary(Op):
    name = "un"

    def gen(self, rng, las):
        return {"f": rng.pick(sorted(UN))}

    def model(self, p, las):
        return LA(las[0].axes, UN[p["f"]][0](flt(las[0].arr)))

    def build(self, p, v, W):
        f = p["f"]
        x = v[0]
        if x.dtype.kind == "b":
            x = x.as_type("d")
        if f == "neg":
            return -x
        if f == "abs":
            return abs(x)
        import pygeode
        if p.get("m"):
            return getattr(x, f)() if hasattr(type(x), f) else getattr(pygeode.ufunc, f)(x)
        return getattr(pygeode.ufunc, f)(x)


def binmodel(f, a, b):
    if f == "pow2":
        return np.power(flt(a), 2)
    if f in ("add", "sub", "mul", "div", "mod", "arctan2", "arctand2"):
        a, b = flt(a), flt(b)
    return BIN[f][0](a, b)


def binbuild(f, a, b):
    import pygeode
    fb = lambda x: x.as_type("d") if hasattr(x, "axes") and x.dtype.kind == "b" else x
    if f in ("add", "sub", "mul", "div", "mod", "pow2", "arctan2", "arctand2"):
        a, b = fb(a), fb(b)
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "min": lambda: pygeode.minimum(a, b),
            "max": lambda: pygeode.maximum(a, b), "pow2": lambda: a ** 2, "mod": lambda: a % b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b,
            "ge": lambda: a >= b, "eq": lambda: a == b, "ne": lambda: a != b, "arctan2": lambda: pygeode.arctan2(a, b),
            "arctand2": lambda: pygeode.arctand2(a, b)}[f]()


@op
class Scalar(Op):
    """var (op) number and number (op) var"""
    name = "sc"

    def gen(self, rng, las):
        f = rng.pick(["add", "sub", "mul", "div", "min", "max", "pow2", "lt", "ge", "eq", "add", "mul", "mod"])
        c = rng.pick([2, -1, 3, 0.5, -2.5, 1.25])
        side = 0 if f in ("pow2", "div") and rng.chance(0.7) else rng.randrange(2)
        if f == "mod":
            c, side = 3, 0
        if f in ("min", "max", "pow2"):
            side = 0
        return {"f": f, "c": c, "side": side}

    def model(self, p, las):
        a = las[0].arr
        if p["f"] in ("min", "max"):
            a = flt(a)
        if p["side"]:
            return LA(las[0].axes, binmodel(p["f"], np.asarray(p["c"]), a))
        return LA(las[0].axes, binmodel(p["f"], a, np.asarray(p["c"])))

    def build(self, p, v, W):
        x = v[0]
        if p["f"] in ("min", "max") and x.dtype.kind == "b":
            x = x.as_type("d")
        return binbuild(p["f"], p["c"], x) if p["side"] else binbuild(p["f"], x, p["c"])


@op
class Binary(Op):
    name = "bin"
    nargs = 2

    def gen(self, rng, las):
        return {"f": rng.pick(sorted(set(BIN) - {"pow2"}) + ["add", "sub", "mul"] * 3)}

    def model(self, p, las):
        check_weights(las)
        ax = M.aligned_axes(las)
        return LA(ax, np.broadcast_to(binmodel(p["f"], M.conform(las[0], ax), M.conform(las[1], ax)), tuple(len(a["v"]) for a in ax)))

    def build(self, p, v, W):
        r = binbuild(p["f"], v[0], v[1])
        if p["f"] in CMP and len(r.axes) > 1:
            # python lets the operand whose class is derived from the other's go first,
            # which only affects the order of the axes: undo it
            from pygeode.tools import combine_axes
            want = combine_axes(v)
            if [a.name for a in want] != [a.name for a in r.axes] and sorted(a.name for a in want) == sorted(a.name for a in r.axes):
                r = r.transpose(*[a.name for a in want])
        return r


def check_weights(las):
    seen = {}
    for la in las:
        for a in la.axes:
            if "w" in a or a["c"] == "lat":
                k = M.axkey(a)
                w = dict(zip([round(x, 6) for x in a["v"]], a.get("w") or [None] * len(a["v"])))
                if k in seen:
                    for x in w:
                        if x in seen[k] and seen[k][x] != w[x]:
                            raise Invalid("different weights on one axis")
                    seen[k].update(w)
                else:
                    seen[k] = dict(w)


@op
class Multi(Op):
    name = "multi"
    nargs = 3

    def gen(self, rng, las):
        return {"f": rng.pick(["vsum", "vprod"])}

    def model(self, p, las):
        check_weights(las)
        ax = M.aligned_axes(las)
        xs = [M.conform(l, ax) for l in las]
        if p["f"] == "vsum":
            r = flt(xs[0])
            for x in xs[1:]:
                r = r + flt(x)
        else:
            r = flt(xs[0])
            for x in xs[1:]:
                r = r * flt(x)
        return LA(ax, np.broadcast_to(r, tuple(len(a["v"]) for a in ax)))

    def build(self, p, v, W):
        import pygeode
        v = [x.as_type("d") if x.dtype.kind == "b" else x for x in v]
        return getattr(pygeode, p["f"])(*v)


@op
class Clip(Op):
    name = "clip"

    def gen(self, rng, las):
        return {"lo": rng.pick([-1.0, -0.5, 0.0]), "hi": rng.pick([0.25, 1.0, 300.0]), "how": rng.randrange(2)}

    def model(self, p, las):
        return LA(las[0].axes, np.clip(flt(las[0].arr), p["lo"], p["hi"]))

    def build(self, p, v, W):
        import pygeode
        x = v[0].as_type("d") if v[0].dtype.kind == "b" else v[0]
        return x.map(np.clip, p["lo"], p["hi"]) if p["how"] else pygeode.clip(x, p["lo"], p["hi"])


@op
class Slice(Op):
    name = "slice"

    def gen(self, rng, las):
        la = las[0]
        if not la.axes:
            return None
        return {"sl": [gen_slice(rng, len(a["v"])) for a in la.axes], "form": rng.randrange(4)}

    def model(self, p, las):
        la = las[0]
        if len(p["sl"]) != len(la.axes):
            raise Invalid("rank")
        arr, axes = la.arr, []
        for i, (s, a) in enumerate(zip(p["sl"], la.axes)):
            ix = idx_of(s, len(a["v"]))
            if not ix:
                raise Invalid("empty")
            arr = np.take(arr, ix, axis=i)
            axes.append(M.axtake(a, ix))
        return LA(axes, arr)

    def build(self, p, v, W):
        return v[0].slice[py_slices(p)]


@op
class Select(Op):
    """Keyword selection by coordinate value, list or index, with complement."""
    name = "sel"

    def gen(self, rng, las):
        la = las[0]
        c = [i for i, a in enumerate(la.axes) if a["c"] not in M.TIME and len(a["v"]) >= 2]
        if not c:
            return None
        i = rng.pick(c)
        a = la.axes[i]
        how = rng.pick(["range", "near", "list", "nrange", "irange", "istride", "ilist", "nilist"])
        L = len(a["v"])
        p = {"ax": i, "how": how}
        if how in ("range", "nrange"):
            x, y = rng.pick(a["v"]), rng.pick(a["v"])
            p["v"] = [min(x, y) - 0.001, max(x, y) + 0.001]
            if rng.chance(0.3):
                p["v"] = p["v"][::-1]
        elif how == "near":
            p["v"] = rng.pick(a["v"]) + 0.01
        elif how == "list":
            p["v"] = [x + 0.01 for x in rng.sample(a["v"], rng.randint(1, L))]
        elif how == "irange":
            lo = rng.randrange(L)
            p["v"] = [lo, rng.randint(lo + 1, L)]
        elif how == "istride":
            p["v"] = [rng.randrange(L), L, 2]
        else:
            p["v"] = rng.sample(range(L), rng.randint(1, L))
        return p

    def model(self, p, las):
        la = las[0]
        if p["ax"] >= len(la.axes):
            raise Invalid("axis")
        a = la.axes[p["ax"]]
        v = np.array(a["v"])
        L = len(v)
        how = p["how"]
        keep = np.zeros(L, bool)
        if how in ("range", "nrange"):
            keep = (v >= min(p["v"])) & (v <= max(p["v"]))
        elif how == "near":
            keep[np.argmin(np.abs(v - p["v"]))] = True
        elif how == "list":
            for x in p["v"]:
                keep[np.argmin(np.abs(v - x))] = True
        elif how in ("irange", "istride"):
            keep[slice(*p["v"])] = True
        else:
            if any(k >= L for k in p["v"]):
                raise Invalid("index")
            keep[p["v"]] = True
        if how.startswith("n") and how != "near":
            keep = ~keep
        ix = [int(k) for k in np.flatnonzero(keep)]
        if not ix:
            raise Invalid("empty")
        axes = list(la.axes)
        axes[p["ax"]] = M.axtake(a, ix)
        return LA(axes, np.take(la.arr, ix, axis=p["ax"]))

    def build(self, p, v, W):
        nm = v[0].axes[p["ax"]].name
        pre = {"range": "", "near": "", "list": "l_", "nrange": "n_", "irange": "i_", "istride": "i_", "ilist": "li_", "nilist": "nil_"}[p["how"]]
        x = p["v"]
        if isinstance(x, list) and p["how"] not in ("list", "ilist", "nilist"):
            x = tuple(x)
        return v[0](**{pre + nm: x})


MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
AUX = ("year", "month", "day", "hour")


def date_str(c, f, t):
    """(text, seconds since year 1) of a date in one of the forms that are understood"""
    y, m, d, h, mi, s = t
    if f == 0:
        x, t = "%d %s %d" % (d, MON[m - 1], y), (y, m, d, 0, 0, 0)
    elif f == 1:
        x, t = "%02d:%02d %d %s %d" % (h, mi, d, MON[m - 1].upper(), y), (y, m, d, h, mi, 0)
    elif f == 2:
        x = "%02d:%02d:%02d %d %s %d" % (h, mi, s, d, MON[m - 1].lower(), y)
    elif f == 3:
        x, t = "%d-%02d-%02d" % (y, m, d), (y, m, d, 0, 0, 0)
    elif f == 4:
        x, t = "%d-%02d-%02dT%02d:%02d" % (y, m, d, h, mi), (y, m, d, h, mi, 0)
    elif f == 5:
        x = "%d-%02d-%02dT%02d:%02d:%02d" % (y, m, d, h, mi, s)
    elif f == 6:
        x, t = "%d-%02d" % (y, m), (y, m, 1, 0, 0, 0)
    elif f == 7:
        x, t = "%d" % y, (y, 1, 1, 0, 0, 0)
    else:
        x, t = "%d-%03dT%02d:%02d" % (y, M.doy(c, y, m, d), h, mi), (y, m, d, h, mi, 0)
    return x, M.to_days(c, *t[:3]) * 86400.0 + t[3] * 3600 + t[4] * 60 + t[5]


def nearest(c, x):
    d = np.abs(np.array(c) - x)
    k = int(np.argmin(d))
    if len(d) > 1 and np.sort(d)[1] - d[k] < 1e-6 * max(1.0, abs(x)) * (1e-3 if abs(x) > 1e8 else 1):
        raise Invalid("equally near")
    return k


@op
class Selects(Op):
    """Several keyword selections at once, dates as text, calendar fields, complements, with squeezing."""
    name = "sels"

    def gen(self, rng, las):
        la = las[0]
        if not la.axes:
            return None
        subs = []
        for i in [rng.randrange(len(la.axes)) for _ in range(rng.pick([1, 2, 2, 3]))]:
            a = la.axes[i]
            L = len(a["v"])
            q = {"ax": i, "n": rng.chance(0.2)}
            if a["c"] in M.TIME and rng.chance(0.45):
                q["f"] = rng.pick(AUX)
                f = [t[("year", "month", "day", "hour").index(q["f"])] for t in M.axdates(a)]
            else:
                f = None
            how = q["how"] = rng.pick(["one", "list", "range"])
            k = {"one": 1, "list": rng.randint(1, 3), "range": 2}[how]
            if f:
                q["v"] = [rng.pick(f) for _ in range(k)]
            elif a["c"] in M.TIME:
                v = []
                for _ in range(k):
                    t = rng.pick(M.axdates(a))
                    x = rng.randrange(9)
                    if rng.chance(0.3):
                        t = t[:3] + ((t[3] + rng.pick([1, 5, 7])) % 24, rng.pick([0, 20]), rng.pick([0, 0, 7]))
                    v.append([x, list(t)])
                q["v"] = v
            else:
                v = [rng.pick(a["v"]) for _ in range(k)]
                if how == "range":
                    v = [min(v) - 0.001, max(v) + 0.001]
                q["v"] = v
            if how == "range" and rng.chance(0.3):
                q["v"] = q["v"][::-1]
            q["sq"] = rng.chance(0.2)
            subs.append(q)
        if len(set(self.key(q, "a%d" % q["ax"]) for q in subs)) < len(subs):
            return None
        return {"subs": subs}

    @staticmethod
    def key(q, nm, sq=False):
        pre = ("n" if q["n"] else "") + ("l" if q["how"] == "list" else "") + ("s" if sq else "")
        return (pre + "_" if pre else "") + (q.get("f") or nm)

    def mask(self, q, a):
        L = len(a["v"])
        keep = np.zeros(L, bool)
        if q.get("f"):
            if a["c"] not in M.TIME:
                raise Invalid("no such field")
            v = np.array([t[AUX.index(q["f"])] for t in M.axdates(a)])
            if q["how"] == "range":
                keep = (v >= min(q["v"])) & (v <= max(q["v"]))
            else:
                keep = np.isin(v, q["v"])
        else:
            if a["c"] in M.TIME:
                c = M.axcoord(a)
                x = [date_str(a["c"], f, t)[1] for f, t in q["v"]]
                eps = 0.01
            else:
                c, x, eps = list(a["v"]), q["v"], 0.0
            if q["how"] == "range":
                keep = (np.array(c) >= min(x) - eps) & (np.array(c) <= max(x) + eps)
            else:
                for y in x:
                    keep[nearest(c, y)] = True
        return ~keep if q["n"] else keep

    def squeezed(self, p, la):
        """the axes to drop: those of which one point is left, where asked for"""
        masks = {}
        for q in p["subs"]:
            if q["ax"] >= len(la.axes):
                raise Invalid("axis")
            m = self.mask(q, la.axes[q["ax"]])
            masks[q["ax"]] = masks.get(q["ax"], True) & m
        idx = [[int(k) for k in np.flatnonzero(masks[i])] if i in masks else list(range(len(a["v"]))) for i, a in enumerate(la.axes)]
        if any(not ix for ix in idx):
            raise Invalid("empty")
        return idx, sorted(set(q["ax"] for q in p["subs"] if q["sq"] and not q.get("f") and len(idx[q["ax"]]) == 1))

    def model(self, p, las):
        la = las[0]
        idx, drop = self.squeezed(p, la)
        if len(drop) == len(la.axes):
            raise Invalid("nothing left")
        arr, axes = la.arr, []
        for i, (ix, a) in enumerate(zip(idx, la.axes)):
            arr = np.take(arr, ix, axis=i)
            axes.append(M.axtake(a, ix))
        axes = [a for i, a in enumerate(axes) if i not in drop]
        p["drop"] = drop
        return LA(axes, arr.reshape([len(a["v"]) for a in axes]))

    def build(self, p, v, W):
        kw = {}
        for q in p["subs"]:
            ax = v[0].axes[q["ax"]]
            cal = {"StandardTime": "std", "ModelTime365": "m365", "ModelTime360": "m360"}.get(type(ax).__name__)
            x = q["v"] if q.get("f") or cal is None else [date_str(cal, f, t)[0] for f, t in q["v"]]
            x = x[0] if q["how"] == "one" else list(x) if q["how"] == "list" else tuple(x)
            k = self.key(q, ax.name, q["ax"] in p["drop"] and not q.get("f"))
            if k in kw:
                raise Invalid("the same keyword twice")
            kw[k] = x
        return v[0](**kw)

@op
class Transpose(Op):
    name = "tr"

    def gen(self, rng, las):
        n = len(las[0].axes)
        if n < 2:
            return None
        o = list(range(n))
        rng.shuffle(o)
        return {"o": o[: rng.randint(1, n)]}

    def full(self, p, n):
        if any(k >= n for k in p["o"]):
            raise Invalid("rank")
        return p["o"] + [k for k in range(n) if k not in p["o"]]

    def model(self, p, las):
        la = las[0]
        o = self.full(p, len(la.axes))
        return LA([la.axes[k] for k in o], la.arr.transpose(o))

    def build(self, p, v, W):
        return v[0].transpose(*p["o"])


@op
class Sorted(Op):
    name = "sort"

    def gen(self, rng, las):
        n = len(las[0].axes)
        if not n:
            return None
        return {"o": [[k, rng.pick([1, -1])] for k in rng.subset(range(n), 1)]}

    def model(self, p, las):
        la = las[0]
        arr, axes = la.arr, list(la.axes)
        for k, d in p["o"]:
            if k >= len(axes):
                raise Invalid("rank")
            c = M.axcoord(axes[k])
            ix = sorted(range(len(c)), key=lambda i: c[i])[::d]
            axes[k] = M.axtake(axes[k], ix)
            arr = np.take(arr, ix, axis=k)
        return LA(axes, arr)

    def build(self, p, v, W):
        return v[0].sorted(**dict((v[0].axes[k].name, d) for k, d in p["o"]))


@op
class Squeeze(Op):
    name = "sq"

    def gen(self, rng, las):
        la = las[0]
        one = [i for i, a in enumerate(la.axes) if len(a["v"]) == 1]
        if one and rng.chance(0.5):
            return {"how": "all"} if rng.chance(0.4) else {"how": "named", "ax": rng.subset(one, 1)}
        c = [i for i, a in enumerate(la.axes) if a["c"] not in M.TIME]
        if not c:
            return None
        i = rng.pick(c)
        return {"how": rng.pick(["kw", "s_"]), "ax": [i], "v": rng.pick(la.axes[i]["v"])}

    def model(self, p, las):
        la = las[0]
        arr = la.arr
        if p["how"] == "all":
            drop = [i for i, a in enumerate(la.axes) if len(a["v"]) == 1]
        elif p["how"] == "named":
            drop = p["ax"]
            if any(i >= len(la.axes) or len(la.axes[i]["v"]) != 1 for i in drop):
                raise Invalid("not degenerate")
        else:
            i = p["ax"][0]
            if i >= len(la.axes) or p["v"] not in la.axes[i]["v"]:
                raise Invalid("no such value")
            arr = np.take(arr, [la.axes[i]["v"].index(p["v"])], axis=i)
            if p["how"] == "s_":
                drop = [i]
            else:                 # squeeze(lat=..) also drops every other degenerate axis
                drop = sorted(set([i] + [j for j, a in enumerate(la.axes) if len(a["v"]) == 1]))
        axes = [a for i, a in enumerate(la.axes) if i not in drop]
        return LA(axes, arr.reshape([len(a["v"]) for a in axes]))

    def build(self, p, v, W):
        if p["how"] == "all":
            return v[0].squeeze()
        if p["how"] == "named":
            return v[0].squeeze(*[v[0].axes[i].name for i in p["ax"]])
        nm = v[0].axes[p["ax"][0]].name
        if p["how"] == "kw":
            return v[0].squeeze(**{nm: p["v"]})
        return v[0](**{"s_" + nm: p["v"]})


@op
class Extend(Op):
    name = "ext"

    def gen(self, rng, las):
        la = las[0]
        have = set(la.keys())
        c = [x for x in ("lat", "lon", "pres", "hgt", "nam:x", "nam:y") if (x.split(":")[0], x.split(":")[1] if ":" in x else None) not in have]
        if not c or la.arr.size > 300:
            return None
        k = rng.pick([1, 1, 2])
        if len(c) < k:
            return None
        ax = [gen_axis(rng, x.split(":")[0], rng.pick([1, 2, 3]), x.split(":")[1] if ":" in x else None) for x in rng.sample(c, k)]
        return {"pos": rng.randint(0, len(la.axes)), "ax": ax}

    def model(self, p, las):
        la = las[0]
        if p["pos"] > len(la.axes):
            raise Invalid("pos")
        axes = la.axes[:p["pos"]] + p["ax"] + la.axes[p["pos"]:]
        if len(set(M.axkey(a) for a in axes)) < len(axes):
            raise Invalid("dup")
        sh = la.arr.shape[:p["pos"]] + (1,) * len(p["ax"]) + la.arr.shape[p["pos"]:]
        return LA(axes, np.broadcast_to(la.arr.reshape(sh), tuple(len(a["v"]) for a in axes)))

    def build(self, p, v, W):
        import world
        return v[0].extend(p["pos"], *[world.mkaxis(a) for a in p["ax"]])


@op
class Rename(Op):
    name = "ren"

    def gen(self, rng, las):
        c = [i for i, a in enumerate(las[0].axes) if a["c"] != "nam"]
        if not c:
            return None
        return {"how": rng.pick(["var", "axis"]), "ax": rng.pick(c)}

    def model(self, p, las):
        axes = list(las[0].axes)
        if p["ax"] >= len(axes) or axes[p["ax"]]["c"] == "nam":
            raise Invalid("axis")
        if p["how"] == "axis":
            axes[p["ax"]] = dict(axes[p["ax"]], n="renamed")
            if sum(1 for a in axes if a.get("n") == "renamed") > 1:
                raise Invalid("dup")
        return LA(axes, las[0].arr)

    def build(self, p, v, W):
        if p["how"] == "var":
            return v[0].rename("newname")
        return v[0].rename_axes(**{v[0].axes[p["ax"]].name: "renamed"})


@op
class ReplaceAxes(Op):
    name = "repl"

    def gen(self, rng, las):
        c = [i for i, a in enumerate(las[0].axes) if a["c"] in ("pres", "hgt", "lon", "lat")]
        if not c or ("nam", "qdim") in las[0].keys():
            return None
        i = rng.pick(c)
        n = len(las[0].axes[i]["v"])
        return {"ax": i, "new": {"c": "nam", "n": "qdim", "v": [float(3 * k) for k in range(n)][::rng.pick([1, -1])]}}

    def model(self, p, las):
        axes = list(las[0].axes)
        if p["ax"] >= len(axes) or len(axes[p["ax"]]["v"]) != len(p["new"]["v"]):
            raise Invalid("axis")
        axes[p["ax"]] = p["new"]
        if len(set(map(M.axkey, axes))) < len(axes):
            raise Invalid("dup")
        return LA(axes, las[0].arr)

    def build(self, p, v, W):
        import world
        return v[0].replace_axes(keep_old_name=False, **{v[0].axes[p["ax"]].name: world.mkaxis(p["new"])})


@op
class Fill(Op):
    name = "fill"

    def gen(self, rng, las):
        return {"how": rng.pick(["fill", "unfill"]), "v": rng.pick([0.0, 1.0, -1.0, -999.0])}

    def model(self, p, las):
        a = flt(las[0].arr).copy()
        if p["how"] == "fill":
            a = np.where(np.isnan(a), p["v"], a)
        else:
            a = np.where(a == p["v"], np.nan, a)
        return LA(las[0].axes, a)

    def build(self, p, v, W):
        x = v[0].as_type("d") if v[0].dtype.kind == "b" else v[0]
        return x.fill(p["v"]) if p["how"] == "fill" else x.unfill(p["v"])


@op
class Cast(Op):
    name = "cast"

    def gen(self, rng, las):
        return {"t": rng.pick(["f8", "i8"])}

    def model(self, p, las):
        a = flt(las[0].arr)
        if p["t"] == "i8":
            if not np.all(np.isfinite(a)) or np.any(np.abs(a) > 1e15):
                raise Invalid("not representable")
            a = np.trunc(a) + 0.0      # (integers have no signed zero)
        return LA(las[0].axes, a)

    def build(self, p, v, W):
        x = v[0].as_type(p["t"])
        return x.as_type("f8")


BASIC = ["un", "sc", "bin", "bin", "multi", "clip", "slice", "slice", "sel", "sels", "tr", "tr", "sort", "sq", "ext", "ren", "repl", "fill", "cast"]


def node_exact(nodes, k, srcs, memo=None):
    """Bit-exact under IEEE arithmetic whatever code path numpy takes."""
    nd = nodes[k]
    if nd["op"] == "src":
        return True
    if not all(node_exact(nodes, a, srcs) for a in nd["a"]):
        return False
    if nd["op"] == "un":
        return UN[nd["p"]["f"]][1]
    if nd["op"] in ("bin", "sc"):
        return BIN[nd["p"]["f"]][1]
    return nd["op"] in ("clip", "slice", "sel", "sels", "tr", "sort", "sq", "ext", "ren", "repl", "fill", "cast", "cat", "catn", "stackn", "split", "flat", "comp", "rly", "lag")


def needs_exact(nd):
    """Discontinuous in its inputs: only applied to bit-exact ones."""
    if nd["op"] == "un":
        return nd["p"]["f"] in ("sign", "log", "log10", "tan", "tand", "nan_to_num", "sqrt", "arcsin", "arccos", "arcsind", "arccosd", "arccosh", "arctanh", "exp", "sinh", "cosh")
    if nd["op"] in ("bin", "sc"):
        return nd["p"]["f"] in CMP + ("div", "mod", "arctan2", "arctand2")
    return nd["op"] in ("cast", "fill")


def legal(sc):
    """Numerically well-posed: every discontinuous op has bit-exact inputs, and
    single-precision sources only go through exact operations on small integers."""
    for k, nd in enumerate(sc["nodes"]):
        if nd["op"] != "src" and needs_exact(nd) and not all(node_exact(sc["nodes"], a, sc["srcs"]) for a in nd["a"]):
            return False
    return True


def magnitude(vals, sc, k):
    """Largest finite magnitude among a node and its ancestors."""
    seen, todo = set(), [k]
    m = 1.0
    while todo:
        j = todo.pop()
        if j in seen:
            continue
        seen.add(j)
        a = vals[j].arr
        if a.dtype.kind == "f" and a.size:
            f = np.abs(a[np.isfinite(a)])
            if f.size:
                m = max(m, float(f.max()))
        todo.extend(sc["nodes"][j].get("a", []))
    return m


def grow(prog, n, ops=BASIC):
    """Add up to n operations on random earlier nodes (recent ones favoured)."""
    rng = prog.rng
    added = 0
    for _ in range(n * 4):
        if added >= n:
            break
        nm = rng.pick(ops)
        import gen
        o = gen.OPS[nm]
        m = len(prog.nodes)
        args = []
        for i in range(o.nargs):
            args.append(m - 1 - min(m - 1, int(rng.expovariate(0.7))))
        if o.nargs > 1:
            rng.shuffle(args)
        k = prog.try_op(nm, args)
        if k is None:
            continue
        nd = prog.nodes[k]
        if (needs_exact(nd) and not all(node_exact(prog.nodes, a, prog.srcs) for a in nd["a"])) or prog.vals[k].arr.size > 1500 or magnitude(prog.vals, {"nodes": prog.nodes}, k) > 1e9:
            prog.nodes.pop(); prog.vals.pop()
            continue
        added += 1
    return added


def related_axes(rng, axes):
    """Axes for another operand: a subset / reordering / sub-sampling of these."""
    ax = [a for a in axes if rng.chance(0.75)] or [rng.pick(axes)]
    out = []
    for a in ax:
        L = len(a["v"])
        x = rng.randrange(5)
        if x == 0 and L > 1:
            a = M.axtake(a, list(range(L))[::-1])
        elif x == 1 and L > 1:
            a = M.axtake(a, sorted(rng.sample(range(L), rng.randint(1, L))))
        elif x == 2 and a["c"] in M.TIME and a.get("u", "days") == "days":
            a = dict(a)            # the same dates, counted from another reference
            base = M.to_days(a["c"], a["y"], a["m"], a["d"])
            ny, nm_, nd_ = a["y"] - 1, 1, 1
            off = base - M.to_days(a["c"], ny, nm_, nd_)
            a.update(y=ny, m=nm_, d=nd_, v=[v + off for v in a["v"]])
        out.append(a)
    if rng.chance(0.5):
        rng.shuffle(out)
    return out
