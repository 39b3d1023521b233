"""Operations whose value at a point depends on other points along an axis:
smoothing, Fourier smoothing, derivatives, differences, integrals, cumulative
sums, interpolation, lags.  Models are whole-array definitions."""
import math
import numpy as np
from core import Invalid
import model as M
from model import LA
from gen import op, Op, gen_axis
import gen


def coords(a):
    """Values of an axis as pygeode differentiates with respect to them."""
    return np.array(a["v"], float)


def pick_axis(rng, la, nmin=2, ok=lambda a: True):
    c = [i for i, a in enumerate(la.axes) if len(a["v"]) >= nmin and ok(a)]
    return rng.pick(c) if c else None


def along(p, la, nmin=1):
    if p["ax"] >= len(la.axes) or len(la.axes[p["ax"]]["v"]) < nmin:
        raise Invalid("axis")
    if la.arr.dtype.kind != "f":
        raise Invalid("dtype")
    return p["ax"]


def axid(p, v):
    """Identify the axis in one of the ways the API offers."""
    i = p["ax"]
    a = v.axes[i]
    how = p.get("id", 0)
    if how == 1:
        return i
    if how == 2:
        if sum(isinstance(b, a.__class__) for b in v.axes) == 1:
            return a.__class__
    return a.name


def shp(n, i, nd):
    return [n if j == i else 1 for j in range(nd)]


@op
class Smooth(Op):
    name = "smooth"

    def gen(self, rng, las):
        i = pick_axis(rng, las[0], 3)
        if i is None:
            return None
        n = len(las[0].axes[i]["v"])
        k = rng.randint(1, n)
        if rng.chance(0.4):
            ker = k
        else:
            ker = [rng.pick([1.0, 2.0, 0.5, 3.0]) for _ in range(k)]
        return {"ax": i, "k": ker, "fft": rng.chance(0.5), "id": rng.randrange(3)}

    def model(self, p, las):
        la = las[0]
        i = along(p, la, 1)
        if not np.all(np.isfinite(la.arr)):
            raise Invalid("missing values under a transform")
        ker = np.hanning(p["k"]) if isinstance(p["k"], int) else np.array(p["k"], float)
        if len(ker) <= 2:
            return LA(la.axes, la.arr)
        n = len(la.axes[i]["v"])
        if len(ker) > n:
            raise Invalid("kernel longer than the axis")
        s = ker.sum()
        if s == 0:
            raise Invalid("kernel")
        ker = ker / s
        L = len(ker)
        x = np.moveaxis(la.arr.astype(float), i, 0)
        out = np.zeros_like(x)
        c = L - 1 - L // 2      # 'same' part of a convolution with the kernel, output t reads t - (j - c)
        c = (L - 1) // 2
        for t in range(n):
            for j in range(L):
                q = t - j + c
                if q < 0:
                    q = -q - 1
                if q >= n:
                    q = 2 * n - 1 - q
                out[t] += ker[j] * x[q]
        return LA(la.axes, np.moveaxis(out, 0, i))

    def build(self, p, v, W):
        return v[0].smooth(axid(p, v[0]), p["k"], fft=p["fft"])


@op
class FFTSmooth(Op):
    name = "fftsm"

    def gen(self, rng, las):
        i = pick_axis(rng, las[0], 2)
        if i is None:
            return None
        return {"ax": i, "h": rng.randint(1, len(las[0].axes[i]["v"]) // 2 + 1), "id": rng.randrange(3)}

    def model(self, p, las):
        la = las[0]
        i = along(p, la, 2)
        if not np.all(np.isfinite(la.arr)):
            raise Invalid("missing values under a transform")
        n = len(la.axes[i]["v"])
        x = np.moveaxis(la.arr.astype(float), i, 0)
        # explicit sum of the retained harmonics
        t = np.arange(n)
        out = np.zeros_like(x)
        for h in range(0, min(p["h"], n // 2 + 1)):
            w = np.exp(-2j * np.pi * h * t / n)
            c = np.tensordot(w, x, (0, 0)) / n
            f = 1.0 if h == 0 or 2 * h == n else 2.0
            out += f * np.real(np.multiply.outer(np.conj(w), c))
        return LA(la.axes, np.moveaxis(out, 0, i))

    def build(self, p, v, W):
        return v[0].fft_smooth(axid(p, v[0]), p["h"])


def gen_dx(rng, la, i):
    """None (the axis), or a coordinate field on (some of) the variable's axes."""
    if rng.chance(0.5):
        return None
    a = la.axes[i]
    n = len(a["v"])
    others = [b for j, b in enumerate(la.axes) if j != i and rng.chance(0.4)]
    axes = [a] + others
    if rng.chance(0.5):
        rng.shuffle(axes)
    return {"axes": axes, "seed": rng.randrange(1 << 30), "mono": rng.pick([1, -1]), "mode": rng.pick(["getview", "values"])}


def dx_data(d, key):
    """Strictly monotonic along the axis with the given key."""
    r = np.random.RandomState(d["seed"] % (2 ** 31))
    shape = tuple(len(a["v"]) for a in d["axes"])
    k = [M.axkey(a) for a in d["axes"]].index(key)
    x = r.uniform(0.5, 1.5, size=shape)
    x = d["mono"] * np.cumsum(x, axis=k)
    n = shape[k]
    for j in d.get("dips", ()):        # points out of order
        if 2 <= j < n - 2:
            sl = tuple([slice(None)] * k + [j])
            x[sl] += np.where(r.uniform(size=x[sl].shape) < 0.6, r.uniform(-2.5, 2.5, size=x[sl].shape), 0.0)
    if d.get("nan"):                   # unknown coordinates
        x[r.uniform(size=shape) < d["nan"]] = np.nan
        if d.get("nancol") and len(shape) > 1:       # nothing known along the first lines
            y = np.moveaxis(x, k, -1)
            y[(0,) * (y.ndim - 1)] = np.nan
            if y.ndim > 2:
                y[0] = np.nan
    return x


def dx_model(p, la, i):
    """Coordinate array broadcast to la's shape."""
    d = p.get("dx")
    if d is None:
        c = coords(la.axes[i])
        if len(set(c.tolist())) < len(c):
            raise Invalid("repeated coordinates")
        return np.broadcast_to(c.reshape(shp(len(c), i, len(la.axes))), la.shape)
    key = M.axkey(la.axes[i])
    for a in d["axes"]:
        k = la.which(M.axkey(a))
        if k < 0 or not M.same(M.axcoord(a), M.axcoord(la.axes[k])):
            raise Invalid("dx axes")
    if key not in [M.axkey(a) for a in d["axes"]]:
        raise Invalid("dx axis")
    return np.broadcast_to(M.conform(LA(d["axes"], dx_data(d, key)), la.axes), la.shape)


def dx_var(p, v, W):
    d = p.get("dx")
    if d is None:
        return None
    import world
    key = None
    i = p["ax"]
    # the coordinate that varies monotonically is the one of the differentiated axis
    for a in d["axes"]:
        if (a.get("n") or M.axname(a)) == v.axes[i].name:
            key = M.axkey(a)
    if key is None:
        raise Invalid("dx axis renamed")
    src = {"axes": d["axes"], "seed": d["seed"], "mode": d["mode"], "style": "normal"}
    data = dx_data(d, key)
    old = world.mkdata
    world.mkdata = lambda s: data
    try:
        return W.source(src, "dx")
    finally:
        world.mkdata = old


@op
class Deriv(Op):
    name = "deriv"

    def gen(self, rng, las):
        i = pick_axis(rng, las[0], 2)
        if i is None:
            return None
        n = len(las[0].axes[i]["v"])
        return {"ax": i, "df": rng.pick(["centre", "left", "right"] + (["2"] if n >= 3 else [])), "dx": gen_dx(rng, las[0], i), "id": rng.randrange(3)}

    def model(self, p, las):
        la = las[0]
        i = along(p, la, 3 if p["df"] == "2" else 2)
        X = np.moveaxis(dx_model(p, la, i), i, 0)
        x = np.moveaxis(la.arr.astype(float), i, 0)
        n = x.shape[0]
        out = np.empty_like(x)
        for t in range(n):
            if p["df"] == "2":
                c = t
                l, r = (t - 1, t + 1)
                if t == 0:
                    l = 2
                if t == n - 1:
                    r = n - 3
                Xl, Xc, Xr = X[l], X[c], X[r]
                # quadratic through the three points
                out[t] = 2.0 * (x[l] / ((Xl - Xc) * (Xl - Xr)) + x[c] / ((Xc - Xl) * (Xc - Xr)) + x[r] / ((Xr - Xl) * (Xr - Xc)))
                continue
            l, r = {"centre": (t - 1, t + 1), "left": (t - 1, t), "right": (t, t + 1)}[p["df"]]
            if l < 0:
                l, r = 0, 1
            if r >= n:
                l, r = n - 2, n - 1
            out[t] = (x[r] - x[l]) / (X[r] - X[l])
        return LA(la.axes, np.moveaxis(out, 0, i))

    def build(self, p, v, W):
        return v[0].deriv(axid(p, v[0]), dx=dx_var(p, v[0], W), df=p["df"])


@op
class Diff(Op):
    name = "diff"

    def gen(self, rng, las):
        i = pick_axis(rng, las[0], 2)
        if i is None:
            return None
        n = len(las[0].axes[i]["v"])
        return {"ax": i, "n": rng.randint(1, min(3, n - 1)), "id": rng.randrange(3)}

    def model(self, p, las):
        la = las[0]
        i = along(p, la, p["n"] + 1)
        axes = list(la.axes)
        axes[i] = M.axtake(axes[i], range(len(axes[i]["v"]) - p["n"]))
        return LA(axes, np.diff(la.arr, n=p["n"], axis=i))

    def build(self, p, v, W):
        return v[0].diff(axid(p, v[0]), p["n"])


@op
class Integrate(Op):
    name = "integ"

    def gen(self, rng, las):
        la = las[0]
        i = pick_axis(rng, la, 2)
        if i is None:
            return None
        t = rng.pick(["trapz", "trapz", "rectl", "rectr", "cumsum"])
        p = {"ax": i, "t": t, "o": rng.pick([1, -1]), "id": rng.randrange(3)}
        if t != "cumsum":
            p["dx"] = gen_dx(rng, la, i)
        k = rng.randrange(3)
        if k == 1:
            p["v0"] = rng.pick([0.0, 2.5, -1.0])
        elif k == 2:
            ax = [a for j, a in enumerate(la.axes) if j != i and rng.chance(0.6)]
            if ax:
                p["v0"] = {"axes": ax, "seed": rng.randrange(1 << 30), "mode": rng.pick(["getview", "values"])}
        return p

    def model(self, p, las):
        la = las[0]
        i = along(p, la, 2)
        x = np.moveaxis(la.arr.astype(float), i, 0)
        v0 = p.get("v0", 0.0)
        if isinstance(v0, dict):
            for a in v0["axes"]:
                k = la.which(M.axkey(a))
                if k < 0 or k == i or not M.same(M.axcoord(a), M.axcoord(la.axes[k])):
                    raise Invalid("v0")
            import world
            v0 = np.moveaxis(np.broadcast_to(M.conform(LA(v0["axes"], world.mkdata(v0)), la.axes), [1 if j == i else s for j, s in enumerate(la.shape)]), i, 0)[0]
        n = x.shape[0]
        out = np.empty_like(x)
        if p["t"] == "cumsum":
            acc = np.zeros(x.shape[1:]) + v0
            for t in (range(n) if p["o"] == 1 else range(n - 1, -1, -1)):
                acc = acc + x[t]
                out[t] = acc
        else:
            X = np.moveaxis(dx_model(p, la, i), i, 0)
            d = X[1:] - X[:-1]
            pc = d * {"trapz": 0.5 * (x[1:] + x[:-1]), "rectl": x[:-1], "rectr": x[1:]}[p["t"]]
            acc = np.zeros(x.shape[1:]) + v0
            if p["o"] == 1:
                out[0] = acc
                for t in range(1, n):
                    acc = acc + pc[t - 1]
                    out[t] = acc
            else:
                out[n - 1] = acc
                for t in range(n - 2, -1, -1):
                    acc = acc + pc[t]
                    out[t] = acc
        return LA(la.axes, np.moveaxis(out, 0, i))

    def build(self, p, v, W):
        kw = {}
        v0 = p.get("v0")
        if isinstance(v0, dict):
            kw["v0"] = W.source(v0, "v0")
        elif v0 is not None:
            kw["v0"] = v0
        if p["t"] == "cumsum":
            return v[0].cumsum(axid(p, v[0]), order=p["o"], **kw)
        return v[0].integrate(axid(p, v[0]), dx=dx_var(p, v[0], W), order=p["o"], type=p["t"], **kw)


def spline(xs, ys, xo, kind):
    """One line of finite points, increasing xs."""
    if kind == "linear":
        return np.interp(xo, xs, ys)
    if kind == "polynomial":
        out = np.zeros(len(xo))
        for k in range(len(xs)):
            w = np.ones(len(xo))
            for j in range(len(xs)):
                if j != k:
                    w = w * (xo - xs[j]) / (xs[k] - xs[j])
            out += w * ys[k]
        return out
    n = len(xs)
    if kind == "akima":
        m = np.diff(ys) / np.diff(xs)
        m = np.concatenate([[3 * m[0] - 2 * m[1], 2 * m[0] - m[1]], m, [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]])
        d = np.abs(np.diff(m))
        if np.any((d > 0) & (d < 1e-7 * np.max(np.abs(m)))):
            raise Invalid("ill-conditioned")
        out = np.empty(len(xo))
        for q, x in enumerate(xo):
            k = min(max(int(np.searchsorted(xs, x, side="right")) - 1, 0), n - 2)
            h, mk = xs[k + 1] - xs[k], m[k + 2]
            ne, ne1 = d[k] + d[k + 2], d[k + 1] + d[k + 3]
            if ne == 0:
                b, c2, c3 = mk, 0.0, 0.0
            else:
                b = ((ne - d[k]) * m[k + 1] + d[k] * mk) / ne
                t = mk if ne1 == 0 else ((ne1 - d[k + 1]) * mk + d[k + 1] * m[k + 3]) / ne1
                c2, c3 = (3 * mk - 2 * b - t) / h, (b + t - 2 * mk) / h ** 2
            z = x - xs[k]
            out[q] = ys[k] + z * (b + z * (c2 + z * c3))
        return out
    # natural cubic spline, by its defining linear system
    h = np.diff(xs)
    A = np.zeros((n, n))
    b = np.zeros(n)
    A[0, 0] = A[-1, -1] = 1.0
    for k in range(1, n - 1):
        A[k, k - 1], A[k, k], A[k, k + 1] = h[k - 1], 2 * (h[k - 1] + h[k]), h[k]
        b[k] = 6 * ((ys[k + 1] - ys[k]) / h[k] - (ys[k] - ys[k - 1]) / h[k - 1])
    m = np.linalg.solve(A, b)
    out = np.empty(len(xo))
    for q, x in enumerate(xo):
        k = min(max(int(np.searchsorted(xs, x, side="right")) - 1, 0), n - 2)
        t0, t1 = xs[k + 1] - x, x - xs[k]
        out[q] = (m[k] * t0 ** 3 + m[k + 1] * t1 ** 3) / (6 * h[k]) + (ys[k] / h[k] - m[k] * h[k] / 6) * t0 + (ys[k + 1] / h[k] - m[k + 1] * h[k] / 6) * t1
    return out


MINPTS = {"linear": 2, "polynomial": 3, "cspline": 3, "akima": 5}


def outx_data(o, out):
    r = np.random.RandomState(o["seed"] % (2 ** 31))
    return r.uniform(o["lo"], o["hi"], size=tuple(len(a["v"]) for a in o["axes"]))


@op
class Interp(Op):
    name = "interp"

    def gen(self, rng, las):
        la = las[0]
        i = pick_axis(rng, la, 2, lambda a: a["c"] != "lag")
        if i is None:
            return None
        a = la.axes[i]
        n = len(a["v"])
        kind = rng.pick(["linear", "linear", "cspline", "cspline"] + (["akima", "akima"] if n >= 5 else []) + (["polynomial"] if n <= 6 else []))
        lo, hi = min(a["v"]), max(a["v"])
        c = coords(a)
        if not (np.all(np.diff(c) > 0) or np.all(np.diff(c) < 0)):
            return None
        m = rng.randint(1, 7)
        same = rng.chance(0.5)
        oc = "nam" if not same else a["c"]
        span = hi - lo
        vals = sorted(set(round(rng.uniform(lo - 0.15 * span, hi + 0.15 * span), 3) for _ in range(m)) | (set([rng.pick(a["v"])]) if rng.chance(0.5) else set()))
        if oc == "lat":
            vals = [v for v in vals if -90 <= v <= 90]
        if oc == "pres":
            vals = [v for v in vals if v > 0]
        if oc in M.TIME:
            vals = sorted(set(rng.pick([round(v), round(v * 4) / 4]) for v in vals))
        if not vals:
            return None
        if rng.chance(0.3):
            vals = vals[::-1]
        out = {"c": oc, "v": vals}
        if oc == "nam":
            if "out" in [M.axname(x) for x in la.axes]:
                return None
            out["n"] = "out"
            if same and a["c"] == "nam":
                out["n"] = a["n"]
        if oc in M.TIME:
            out.update((k, a[k]) for k in ("u", "y", "m", "d") if k in a)
        p = {"ax": i, "kind": kind, "out": out, "id": rng.randrange(3), "tr": rng.chance(0.6)}
        if rng.chance(0.4):
            p["below"] = rng.pick([0.0, 1.5])
        if rng.chance(0.4):
            p["above"] = rng.pick([0.0, -0.5])
        if rng.chance(0.35):     # interpolate from a coordinate field
            others = [b for j, b in enumerate(la.axes) if j != i and rng.chance(0.5)]
            p["inx"] = {"axes": others + [a] if rng.chance(0.5) else [a] + others, "seed": rng.randrange(1 << 30), "mono": rng.pick([1, -1]), "mode": rng.pick(["getview", "values"])}
            w = sorted(round(rng.uniform(-0.5, n + 0.5), 3) * 1.0 for _ in vals)
            if len(set(w)) < len(w):
                return None
            p["out"]["v"] = [p["inx"]["mono"] * x for x in w] if oc not in ("lat", "pres") + M.TIME else vals
            if rng.chance(0.4):
                p["inx"]["nan"] = rng.pick([0.1, 0.3, 0.6])
                p["inx"]["nancol"] = rng.chance(0.4)
            elif n >= 6 and rng.chance(0.3):
                p["inx"]["dips"] = rng.sample(range(2, n - 2), rng.randint(1, min(3, n - 4)))
                p["omit"] = True
            lo, hi = (0, n) if p["inx"]["mono"] > 0 else (-n, 0)
        elif a["c"] == "pres" and oc == "pres" and rng.chance(0.5):
            p["log"] = True
        if "log" not in p and rng.chance(0.25):        # to a coordinate field
            others = [b for j, b in enumerate(la.axes) if j != i and rng.chance(0.5)]
            o = [b for b in others] + [p["out"]]
            if rng.chance(0.5):
                rng.shuffle(o)
            p["outx"] = {"axes": o, "seed": rng.randrange(1 << 30), "lo": lo - 0.1 * (hi - lo), "hi": hi + 0.1 * (hi - lo), "mode": rng.pick(["getview", "values"])}
        return p

    def model(self, p, las):
        la = las[0]
        i = along(p, la, 2)
        a = la.axes[i]
        out = p["out"]
        nd = len(la.axes)
        if out["c"] in M.TIME and any(a.get(k) != out.get(k) for k in ("c", "u", "y", "m", "d")):
            raise Invalid("reference dates")
        if p.get("inx") is None:
            c = coords(a)
            if not (np.all(np.diff(c) > 0) or np.all(np.diff(c) < 0)):
                raise Invalid("not monotonic")
            X = np.broadcast_to(c.reshape(shp(len(c), i, nd)), la.shape)
        else:
            X = dx_model({"dx": p["inx"]}, la, i)
        if np.any(np.isinf(la.arr)):
            raise Invalid("infinite data")
        xo = np.array(out["v"], float)
        x = np.moveaxis(la.arr.astype(float), i, -1)
        X = np.moveaxis(X, i, -1)
        if p.get("log"):
            X, xo = np.log(X), np.log(xo)
        oth = [b for j, b in enumerate(la.axes) if j != i]
        XO = np.broadcast_to(xo, x.shape[:-1] + (len(xo),))
        if p.get("outx"):
            o = p["outx"]
            for b in o["axes"]:
                k = [j for j, c in enumerate(oth) if M.axkey(c) == M.axkey(b)]
                if b is not out and b != out and (not k or not M.same(M.axcoord(b), M.axcoord(oth[k[0]]))):
                    raise Invalid("outx axes")
            if not any(b == out for b in o["axes"]) or any(M.axkey(b) == M.axkey(out) for b in oth):
                raise Invalid("outx axes")
            XO = np.broadcast_to(M.conform(LA(o["axes"], outx_data(o, out)), oth + [out]), XO.shape)
        res = np.full(XO.shape, np.nan)
        down = None
        for k in np.ndindex(*x.shape[:-1]):
            f = X[k][np.isfinite(X[k])]
            if down is None and len(f) > 1:
                down = f[0] > f[1]
        for k in np.ndindex(*x.shape[:-1]):
            xo = XO[k]
            ok = np.isfinite(x[k]) & np.isfinite(X[k])
            xs, ys = X[k][ok], x[k][ok]
            if down:
                xs, ys = xs[::-1], ys[::-1]
            if p.get("omit"):
                keep = []
                for j in range(len(xs)):
                    if not keep or xs[j] >= xs[keep[-1]]:
                        keep.append(j)
                xs, ys = xs[keep], ys[keep]
            if np.any(np.diff(xs) <= 0):
                raise Invalid("not monotonic")
            if len(xs) < MINPTS[p["kind"]]:
                continue
            r = spline(xs, ys, np.clip(xo, xs[0], xs[-1]), p["kind"])
            r = np.where(xo < xs[0], ys[0] + p.get("below", np.nan) * (xo - xs[0]), r)
            r = np.where(xo > xs[-1], ys[-1] + p.get("above", np.nan) * (xo - xs[-1]), r)
            # (an output just at the edge of the data may fall to either side)
            res[k] = r
        if any(M.axkey(b) == M.axkey(out) for b in oth):
            raise Invalid("output axis exists already")
        if p["tr"]:
            return LA(oth + [out], res)
        if sum(1 for b in la.axes if b["c"] == a["c"]) > 1 or sum(1 for b in la.axes if b["c"] == "nam") + (out["c"] == "nam") > 1 or a["c"] == "nam" or any(b["c"] == "lag" for b in la.axes):
            raise Invalid("axes ambiguous by class")
        return LA(la.axes[:i] + [out] + la.axes[i + 1:], np.moveaxis(res, -1, i))

    def build(self, p, v, W):
        import world
        kw = {}
        for k, n in (("below", "d_below"), ("above", "d_above")):
            if k in p:
                kw[n] = p[k]
        if p.get("inx"):
            kw["inx"] = dx_var({"dx": p["inx"], "ax": p["ax"]}, v[0], W)
        out = world.mkaxis(p["out"])
        if p.get("log"):
            kw["inx"], kw["outx"] = v[0].axes[p["ax"]].log(), out.log()
        if p.get("omit"):
            kw["omit_nonmonotonic"] = True
        if p.get("outx"):
            o = p["outx"]
            data = outx_data(o, p["out"])
            old = world.mkdata
            world.mkdata = lambda s: data
            try:
                kw["outx"] = W.source({"axes": o["axes"], "seed": o["seed"], "mode": o["mode"], "style": "normal"}, "outx")
            finally:
                world.mkdata = old
            out = kw["outx"].axes[[b == p["out"] for b in o["axes"]].index(True)]
        if not p["tr"]:
            kw["transpose"] = False
        return v[0].interpolate(axid(p, v[0]), out, interp_type=p["kind"], **kw)


@op
class Lag(Op):
    name = "lag"

    def gen(self, rng, las):
        la = las[0]
        i = pick_axis(rng, la, 2, lambda a: a["c"] in M.TIME)
        if i is None or any(a["c"] == "lag" for a in la.axes):
            return None
        n = len(la.axes[i]["v"])
        k = rng.randint(1, 4)
        style = rng.randrange(3)
        if style == 0:
            lags = list(range(-k, k + 1))
        elif style == 1:
            lags = list(range(k + 1))
        else:
            lags = rng.sample(range(-n - 1, n + 2), min(k, 2 * n))
        return {"ax": i, "lags": lags, "rev": rng.chance(0.25), "id": rng.randrange(2)}

    def model(self, p, las):
        la = las[0]
        i = along(p, la, 2)
        a = la.axes[i]
        if a["c"] not in M.TIME:
            raise Invalid("time")
        d = a["v"][1] - a["v"][0]
        if d == 0:
            raise Invalid("no time step")
        lags = list(p["lags"])
        if not lags or len(set(lags)) < len(lags):
            raise Invalid("lags")
        if p["rev"]:
            lags, d = lags[::-1], -d
        x = np.moveaxis(la.arr.astype(float), i, 0)
        n = x.shape[0]
        out = np.full((n, len(lags)) + x.shape[1:], np.nan)
        for t in range(n):
            for j, l in enumerate(lags):
                if 0 <= t + l < n:
                    out[t, j] = x[t + l]
        out = np.moveaxis(np.moveaxis(out, 0, i) if False else out, [0, 1], [i, i + 1])
        return LA(la.axes[:i + 1] + [{"c": "lag", "u": a.get("u", "days"), "v": [d * l for l in lags]}] + la.axes[i + 1:], out)

    def build(self, p, v, W):
        return v[0].lag(axid(p, v[0]), list(p["lags"]), reverse=p["rev"])


NBHD = ["smooth", "fftsm", "deriv", "diff", "integ", "interp", "lag"]
