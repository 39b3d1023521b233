"""Reductions: model and real construction."""
import math
import numpy as np
from core import Invalid
import model as M
from model import LA
from gen import op, Op
import gen

RED = ["min", "max", "nanmin", "nanmax", "sum", "nansum", "mean", "nanmean", "variance", "nanvariance", "stdev", "nanstdev", "argmin", "argmax"]
ARG = ("argmin", "argmax")
WDEF = {"sum": False, "nansum": True, "mean": True, "nanmean": True, "variance": False}


def axweights(a):
    if "w" in a:
        return np.array(a["w"], float)
    if a["c"] == "lat":
        return np.cos(np.array(a["v"], float) * math.pi / 180.0)
    return None


def default_weights(la, idx):
    """Product of the weights the axes carry, broadcast to la's shape; None if none."""
    w = None
    for i in idx:
        x = axweights(la.axes[i])
        if x is not None:
            x = x.reshape([-1 if j == i else 1 for j in range(len(la.axes))])
            w = x if w is None else w * x
    return None if w is None else np.broadcast_to(w, la.shape)


def weights_of(p, la, idx):
    f = p["f"]
    w = p.get("w", "dflt")
    if f not in WDEF:
        return None
    if w == "dflt":
        w = "yes" if WDEF[f] else "no"
    if w in ("no", "none"):
        return None
    if w == "yes":
        return default_weights(la, idx)
    import world
    for a in w["axes"]:
        k = la.which(M.axkey(a))
        if k < 0 or k not in idx or not M.same(M.axcoord(a), M.axcoord(la.axes[k])):
            raise Invalid("weights")
    wl = LA(w["axes"], world.mkdata(w))
    return np.broadcast_to(M.conform(wl, la.axes), la.shape)


def reduce_model(f, arr, axes, w):
    """The definition, on the whole array at once."""
    ax = tuple(axes)
    x = arr.astype(float)
    n = int(np.prod([x.shape[i] for i in ax]))
    if n == 0:
        raise Invalid("empty reduction")
    with np.errstate(all="ignore"):
        if f in ARG:
            return getattr(np, f)(arr, axis=ax[0]).astype("i")
        if f in ("min", "max"):
            return getattr(np, f)(x, axis=ax)
        if f in ("nanmin", "nanmax"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return getattr(np, f)(x, axis=ax)
        if f.startswith("nan"):
            ok = ~np.isnan(x)
            z = np.where(ok, x, 0.0)
            ww = np.where(ok, 1.0 if w is None else w, 0.0)
        else:
            z, ww = x, np.ones_like(x) if w is None else np.broadcast_to(w, x.shape)
        W = ww.sum(axis=ax)
        if f in ("sum", "nansum"):
            return (z * ww).sum(axis=ax)
        if f in ("mean", "nanmean"):
            return np.where(W > 0, (z * ww).sum(axis=ax) / W, np.nan)
        mu = (z * ww).sum(axis=ax, keepdims=True) / ww.sum(axis=ax, keepdims=True)
        d2 = (ww * (z - mu) ** 2).sum(axis=ax)
        if f.startswith("nan"):
            v = np.where(W > 1, d2 / (W - 1), np.nan)
        else:
            if n < 2:
                raise Invalid("variance of one value")
            if np.any(np.abs(W - 1) < 0.25):
                raise Invalid("weights sum to one")
            v = d2 / (W - 1)
        m = float(np.max(np.abs(x[np.isfinite(x)]))) if np.isfinite(x).any() else 1.0
        if "stdev" in f:
            fin = v[np.isfinite(v)]
            if fin.size and fin.min() < 1e-4 * max(1.0, m) ** 2:
                raise Invalid("vanishing variance")
            v = np.sqrt(v)
        if np.isinf(x).any():
            raise Invalid("infinite values")
        return v


def gen_weights(rng, f, la, idx):
    if f not in WDEF:
        return "dflt"
    k = rng.randrange(6)
    if k == 0:
        return "yes"
    if k == 1:
        return rng.pick(["no", "none"])
    if k == 2:
        sub = rng.subset(idx, 1)
        axes = [la.axes[i] for i in sub]
        return {"axes": axes, "seed": rng.randrange(1 << 30), "style": "pos", "mode": rng.pick(["getview", "getvalues", "values"])}
    return "dflt"


def axis_ref(rng, la, i):
    c = la.axes[i]["c"]
    return [i, rng.pick(["n", "i", "o"] + (["c"] if c != "nam" else []))]


def real_ref(var, ref):
    import world
    i, how = ref
    ax = var.axes[i]
    if how == "i":
        return i
    if how == "o":
        return ax
    if how == "c":
        return type(ax)
    return ax.name


def real_weights(p, W, tag="w"):
    w = p.get("w", "dflt")
    if p["f"] not in WDEF or w == "dflt":
        return {}
    if w == "yes":
        return {"weights": True}
    if w == "no":
        return {"weights": False}
    if w == "none":
        return {"weights": None}
    return {"weights": W.source(w, tag)}


@op
class Reduce(Op):
    name = "red"

    def gen(self, rng, las):
        la = las[0]
        if not la.axes or la.arr.dtype.kind not in "fiu":
            return None
        f = rng.pick(RED)
        n = len(la.axes)
        if f in ARG:
            idx = [rng.randrange(n)]
        else:
            idx = rng.subset(range(n), 1, rng.pick([1, 1, 2, n]))
        return {"f": f, "ax": [axis_ref(rng, la, i) for i in idx], "w": gen_weights(rng, f, la, idx)}

    def model(self, p, las):
        la = las[0]
        idx = [r[0] for r in p["ax"]]
        if not idx or max(idx) >= len(la.axes) or len(set(idx)) < len(idx):
            raise Invalid("axes")
        w = weights_of(p, la, idx)
        out = reduce_model(p["f"], la.arr, idx, w)
        return LA([a for i, a in enumerate(la.axes) if i not in idx], out)

    def build(self, p, v, W):
        x = v[0]
        refs = [real_ref(x, r) for r in p["ax"]]
        m = getattr(x, p["f"])
        return m(*refs, **real_weights(p, W))


@op
class MeanSelect(Op):
    """Keyword selections, some with the mean over what they select: v(m_lat=(10, 40), ml_lon=[..])."""
    name = "msel"

    def gen(self, rng, las):
        la = las[0]
        subs = []
        for _ in range(rng.pick([1, 1, 2, 3])):
            q = gen.OPS["sel"].gen(rng, [la])
            if q is None or q["ax"] in [x["ax"] for x in subs]:
                continue
            q["m"] = rng.chance(0.7)
            q["s"] = rng.chance(0.2)
            q["pre"] = rng.randrange(3)
            subs.append(q)
        if not any(q["m"] for q in subs):
            return None
        return {"subs": subs}

    def model(self, p, las):
        la = las[0]
        n = len(la.axes)
        mean = sorted(q["ax"] for q in p["subs"] if q["m"])
        if not mean or len(mean) == n:
            raise Invalid("all axes")
        for q in p["subs"]:
            la = gen.OPS["sel"].model(q, [la])
        sq = [q["ax"] for q in p["subs"] if q["s"] and not q["m"] and len(la.axes[q["ax"]]["v"]) == 1]
        if any(q["s"] and not q["m"] and q["ax"] not in sq for q in p["subs"]):
            raise Invalid("not degenerate")
        out = reduce_model("mean", la.arr, mean, weights_of({"f": "mean"}, la, mean))
        keep = [i for i in range(n) if i not in mean and i not in sq]
        return LA([la.axes[i] for i in keep], out.reshape([len(la.axes[i]["v"]) for i in keep]))

    def build(self, p, v, W):
        kw = {}
        for q in p["subs"]:
            pre = {"range": "", "near": "", "list": "l", "nrange": "n", "irange": "i", "istride": "i", "ilist": "li", "nilist": "nil"}[q["how"]]
            ms = ("m" if q["m"] else "") + ("s" if q["s"] else "")
            pre = [ms + pre, pre + ms, pre[:1] + ms + pre[1:]][q["pre"]]
            x = q["v"]
            if isinstance(x, list) and q["how"] not in ("list", "ilist", "nilist"):
                x = tuple(x)
            kw[(pre + "_" if pre else "") + v[0].axes[q["ax"]].name] = x
        return v[0](**kw)


RESHAPE = ["slice", "tr", "sort", "sq", "ext", "sel", "ren"]
