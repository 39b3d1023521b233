"""Seeded generation of axes, sources and programs over the reference model."""
import math
import numpy as np
from core import Invalid, seed_int
import model as M
from model import LA

# ------------------------------------------------------------------ axes
def gen_axis(rng, c, n, name=None):
    a = {"c": c}
    if name:
        a["n"] = name
    if c == "lat":
        step = rng.pick([1.0, 2.5, 7.5])
        lo = -step * (n - 1) / 2.0 + rng.pick([0.0, 0.0, 5.0])
        v = [lo + step * i for i in range(n)]
        if rng.chance(0.4):
            v = v[::-1]
        if rng.chance(0.3):
            a["w"] = [round(math.cos(math.radians(x)), 6) for x in v]
    elif c == "lon":
        step = rng.pick([1.0, 6.0, 30.0])
        lo = rng.pick([0.0, -10.0, 180.0])
        v = [lo + step * i for i in range(n)]
    elif c == "pres":
        v = [1000.0, 925.0, 850.0, 700.0, 500.0, 300.0, 250.0, 200.0, 100.0, 50.0, 10.0, 1.0]
        v = (v + [0.5 / (k + 1) for k in range(n)])[:n]
        if rng.chance(0.3):
            v = v[::-1]
    elif c == "hgt":
        v = [round(0.5 * i * (1 + 0.1 * i), 3) for i in range(n)]
    elif c == "nam":
        style = rng.randrange(4)
        if style == 0:
            v = [float(i) for i in range(n)]
        elif style == 1:
            v = [10.0 * i + 3 for i in range(n)][::-1]
        elif style == 2:
            v = sorted(round(rng.uniform(-50, 50), 2) + 100.0 * i for i in range(n))
        else:                        # no particular order
            v = [float(i * 7 % (n + 13)) + 0.25 * i for i in range(n)]
            if len(set(v)) < n:
                v = [float(i) for i in range(n)]
            rng.shuffle(v)
    elif c in M.TIME:
        a.update(y=rng.pick([1979, 2000, 2003]), m=rng.pick([1, 1, 3, 12]), d=rng.pick([1, 1, 15, 28]))
        step = rng.pick([1, 1, 5, 30, 0.25])
        v = [step * i for i in range(n)]
        if rng.chance(0.2) and n > 3:       # gaps
            cut = rng.randrange(1, n)
            v = v[:cut] + [x + 40 for x in v[cut:]]
        if rng.chance(0.2):
            a["u"] = "hours"
            v = [x * 24.0 for x in v]
        v = [float(x) for x in v]
    else:
        raise Invalid(c)
    a["v"] = v
    return a


def gen_axes(rng, maxsize=400, nmax=4, must=None, lens=None):
    """A few axes of distinct classes."""
    pool = ["lat", "lon", "pres", "hgt", "nam:x", "nam:y", must if must in M.TIME else rng.pick(list(M.TIME))]
    k = rng.pick([1, 2, 2, 3, 3, 3, 4][: max(1, 2 * nmax)])
    k = min(k, nmax)
    cs = rng.sample(pool, k)
    if must and must not in cs:
        cs[rng.randrange(k)] = must
    out = []
    size = 1
    for c in cs:
        n = rng.pick(lens or [1, 2, 3, 4, 5, 6, 7, 9, 12])
        while size * n > maxsize and n > 1:
            n //= 2
        size *= n
        nm = c.split(":")[1] if ":" in c else None
        out.append(gen_axis(rng, c.split(":")[0], n, nm))
    return out


def gen_source(rng, axes, **kw):
    s = {"axes": axes, "seed": rng.randrange(1 << 30), "mode": rng.pick(["getview", "getview", "getvalues", "values"]),
         "style": rng.pick(["normal", "normal", "pos", "big", "grid"])}
    if rng.chance(0.25):
        s["nan"] = rng.pick([0.05, 0.3])
    if rng.chance(0.2):
        s["dtype"] = "f4"
    if rng.chance(0.35):
        s["alias"] = True
    s.update(kw)
    return s


def gen_slice(rng, n, empty_ok=False):
    """A JSON-able index expression on an axis of length n: [start,stop,step] | int | {"l":[...]}"""
    k = rng.randrange(9)
    if k == 0 or n == 1:
        return [None, None, None]
    if k == 1:
        return rng.randrange(-n, n)
    if k == 2:
        m = sorted(rng.sample(range(n), rng.randint(1, n)))
        return {"l": m}
    if k == 3:
        i = rng.randrange(n)
        return [i, min(n, i + 1 + rng.randrange(n)), None]
    if k == 4:
        return [None, None, rng.pick([2, 3, -1, -2])]
    if k == 5:
        i = rng.randrange(1, n)
        return [-i, None, None]
    if k == 6:
        i, j = sorted((rng.randrange(n), rng.randrange(n)))
        return [j, i - 1 if i > 0 else None, rng.pick([-1, -2])]
    if k == 7:
        i, j = sorted((rng.randrange(n), rng.randrange(n)))
        return [i, j + 1, rng.pick([None, 2])]
    return [None, None, None]


def idx_of(sl, n):
    """The index list a slice expression denotes."""
    if isinstance(sl, dict):
        return [int(i) for i in sl["l"]]
    if isinstance(sl, list):
        return list(range(n))[slice(*sl)]
    return [list(range(n))[sl]]


def py_of(sl):
    if isinstance(sl, dict):
        return [int(i) for i in sl["l"]]
    if isinstance(sl, list):
        return slice(*sl)
    return sl


def py_slices(p):
    """The slices of a request, written in one of the forms python offers."""
    sl = list(p["sl"])
    full = [s == [None, None, None] for s in sl]
    form = p.get("form", 0)
    out = [py_of(s) for s in sl]
    if form == 1:                  # trailing full slices left out
        while len(sl) > 1 and full[len(out) - 1] and len(out) > 1:
            out.pop()
    elif form >= 2 and any(full):  # ... or an ellipsis anywhere
        i = full.index(True) if form == 2 else len(full) - 1 - full[::-1].index(True)
        j = i
        while j + 1 < len(full) and full[j + 1]:
            j += 1
        while i > 0 and full[i - 1]:
            i -= 1
        out[i:j + 1] = [Ellipsis]
    if form and len(out) == 1 and not isinstance(out[0], list):
        return out[0]
    return tuple(out)


# ------------------------------------------------------------------ programs
class Op(object):
    """gen(rng, las) -> params|None ; model(p, las) -> LA ; build(p, vars, W) -> Var"""
    nargs = 1
    name = None

    def gen(self, rng, las):
        return {}


OPS = {}


def op(cls):
    o = cls()
    OPS[o.name] = o
    return cls


class Prog(object):
    """Incrementally generated program with its model values."""
    def __init__(self, rng):
        self.rng = rng
        self.srcs, self.nodes, self.vals = [], [], []

    def add_src(self, s):
        import world
        self.srcs.append(s)
        self.nodes.append({"op": "src", "i": len(self.srcs) - 1})
        self.vals.append(LA(s["axes"], world.mkdata(s)))
        return len(self.nodes) - 1

    def add(self, name, args, p):
        o = OPS[name]
        val = o.model(p, [self.vals[a] for a in args])
        self.nodes.append(dict(op=name, a=list(args), p=p))
        self.vals.append(val)
        return len(self.nodes) - 1

    def try_op(self, name, args):
        o = OPS[name]
        try:
            p = o.gen(self.rng, [self.vals[a] for a in args])
            if p is None:
                return None
            return self.add(name, args, p)
        except Invalid:
            return None


def model_values(sc):
    import world
    vals = []
    with np.errstate(all="ignore"):
        for nd in sc["nodes"]:
            if nd["op"] == "src":
                s = sc["srcs"][nd["i"]]
                vals.append(LA(s["axes"], world.mkdata(s)))
            elif any(vals[a] is None for a in nd["a"]):
                vals.append(None)
            else:
                try:
                    vals.append(OPS[nd["op"]].model(nd["p"], [vals[a] for a in nd["a"]]))
                except (IndexError, KeyError, ValueError, ZeroDivisionError) as e:
                    raise Invalid("model: %r" % e)
    return vals


def build_vars(sc, W, ctx, upto=None):
    W.plan.enabled = False          # failures are injected into evaluations
    try:
        return _build_vars(sc, W, ctx)
    finally:
        W.plan.enabled = True
        W.plan.n = 0


def _build_vars(sc, W, ctx):
    out = []
    for k, nd in enumerate(sc["nodes"]):
        if nd["op"] == "src":
            out.append(W.source(sc["srcs"][nd["i"]], "s%d" % nd["i"]))
        else:
            with ctx.sut("building %s(%s)" % (nd["op"], nd["p"])):
                out.append(OPS[nd["op"]].build(nd["p"], [out[a] for a in nd["a"]], W))
    return out


# ------------------------------------------------------------------ requests
def gen_request(rng, la, node, budget=True):
    """Ask for a region of a node in one of the ways the API offers."""
    n = la.arr.size
    kind = rng.pick(["get", "getitem", "getitem", "call_i", "load", "view", "slice_get", "chunks", "values", "call_i", "lists"])
    lists = kind == "lists"         # (points of several axes at once)
    if lists:
        kind = "call_i"
    r = {"node": node, "kind": kind}
    if kind in ("getitem", "view", "slice_get"):
        r["sl"] = [gen_slice(rng, len(a["v"])) for a in la.axes]
        r["form"] = rng.randrange(4)
    elif kind == "call_i":
        ks = {}
        for i, a in enumerate(la.axes):
            if rng.chance(0.85 if lists else 0.6):
                L = len(a["v"])
                x = 2 if lists else rng.randrange(3)
                if x == 0:
                    ks[str(i)] = rng.randrange(L)
                elif x == 1:
                    lo = rng.randrange(L)
                    ks[str(i)] = [lo, min(L, lo + rng.randint(1, L))]
                else:
                    ks[str(i)] = {"l": sorted(rng.sample(range(L), rng.randint(min(3, L), L) if lists else rng.randint(1, L)))}
        r["ix"] = ks
    r["limit"] = gen_limit(rng, n)
    return r


def gen_limit(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return 1 << 22
    if k == 1:
        return rng.pick([1, 2, 3])
    if k == 2:
        return max(1, n // rng.pick([2, 3, 4]))
    if k == 3:
        return max(1, n - 1)
    return rng.randint(1, max(1, n))


REQ_MODEL, REQ_DO = {}, {}      # further kinds of request, registered by properties


def expected_request(r, la):
    """(expected array, index lists per axis) of the region a request denotes"""
    if r["kind"] in REQ_MODEL:
        return REQ_MODEL[r["kind"]](r, la), None
    idx, drop = [], []
    for i, a in enumerate(la.axes):
        L = len(a["v"])
        if r["kind"] in ("getitem", "view", "slice_get"):
            sl = r["sl"][i] if i < len(r["sl"]) else [None, None, None]
            if not isinstance(sl, (list, dict)) and not (-L <= sl < L):
                raise Invalid("index out of range")
            if isinstance(sl, dict) and any(k >= L for k in sl["l"]):
                raise Invalid("index out of range")
            idx.append(idx_of(sl, L))
            if r["kind"] == "getitem" and not isinstance(sl, (list, dict)):
                drop.append(i)
        elif r["kind"] == "call_i" and str(i) in r["ix"]:
            x = r["ix"][str(i)]
            if isinstance(x, dict):
                if any(k >= L for k in x["l"]):
                    raise Invalid("index out of range")
                idx.append(sorted(set(x["l"])))
            elif isinstance(x, list):
                idx.append(list(range(L))[x[0]:x[1]])
            else:
                if x >= L:
                    raise Invalid("index out of range")
                idx.append([x])
        else:
            idx.append(list(range(L)))
    arr = la.arr
    for i, ix in enumerate(idx):
        arr = np.take(arr, ix, axis=i)
    if drop:
        arr = arr.reshape([s for i, s in enumerate(arr.shape) if i not in drop])
    return arr, idx


def do_request(r, var, la, ctx):
    """Evaluate a request on the real variable; an ndarray."""
    import pygeode
    from pygeode.view import View
    k = r["kind"]
    if k in REQ_DO:
        return REQ_DO[k](r, var, la, ctx)
    if k == "get":
        return var.get()
    if k == "values":
        return var.get(pbar=False)
    if k == "getitem":
        if not la.axes:
            return var.get()
        return var[py_slices(r)]
    if k == "slice_get":
        if not la.axes:
            return var.get()
        return var.slice[py_slices(r)].get()
    if k == "view":
        return View(var.axes, slices=[np.arange(len(a["v"]))[py_of(s)] if not isinstance(s, int) else [range(len(a["v"]))[s]]
                                      for s, a in zip(r["sl"], la.axes)]).get(var)
    if k == "call_i":
        kw = {}
        if len(set(a.name for a in var.axes)) < len(var.axes):
            raise Invalid("ambiguous axis names")
        for i, x in r["ix"].items():
            nm = var.axes[int(i)].name
            if isinstance(x, dict):
                kw["li_" + nm] = x["l"]
            elif isinstance(x, list):
                kw["i_" + nm] = (x[0], x[1])
            else:
                kw["i_" + nm] = x
        return var(**kw).get()
    if k == "load":
        return var.load(pbar=False).values
    if k == "chunks":
        full = np.full(var.shape, 77, var.dtype) if var.naxes else None
        view = View(var.axes)
        cl = 0
        out = None
        for v in view.loop_mem():
            cl += 1
            piece = v.get(var)
            if full is None:
                return piece
            full[v.slices] = piece
        ctx.probe("chunked-request" if cl > 1 else "one-chunk-request")
        return full
    raise Invalid(k)


def axes_match(ctx, var, la, what):
    """The variable's axes carry the coordinates the model says."""
    import world
    ctx.check(len(var.axes) == len(la.axes), "wrong-axes", lambda: "%s: %d axes %s, expected %s" % (what, len(var.axes), [a.name for a in var.axes], [M.axname(a) for a in la.axes]))
    for ax, a in zip(var.axes, la.axes):
        want = M.axcoord(a)
        try:
            got = world.axis_coord(ax)
        except Exception as e:
            ctx.violate("wrong-axes", "%s: axis %s has unreadable coordinates (%r)" % (what, ax.name, e))
        ctx.check(isinstance(ax, world.axcls(a["c"])), "wrong-axes", lambda: "%s: axis is a %s, expected %s" % (what, type(ax).__name__, a["c"]))
        ok = len(got) == len(want) and M.same(got, want)
        ctx.check(ok, "wrong-axes", lambda: "%s: axis %s has coordinates %s, expected %s" % (what, ax.name, got, want))
