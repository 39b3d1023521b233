"""What is attached to the elements of an axis stays with them."""
from props.exprbase import *
import files

ID = "P22"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case = variables over an axis that carries auxiliary arrays (stations and other non-coordinate axes, hybrid levels, ordinary axes with repeated values or arrays of numbers and strings), a seeded sequence of "
        "operations (selections by value, position, auxiliary number or string; slices, permutations, renaming, alignment, concatenation, reductions of other axes, saving and opening) and of requests under seeded memory limits, some with "
        "failing reads; non-trivial if a request read from a lazy source; distinct by scenario")
STATE_MEASURE = "distinct (operation, kind of axis, index blocks read) tuples"
REAL = ["axes, auxiliary arrays, selection, alignment, concatenation, views", "pygeode.formats (netcdf, netcdf4, cfmeta) with libnetcdf"]
STUB = ["data sources", "memory limit", "contents of uninitialised memory"]
ASSUMPTIONS = ["non-coordinate axes are identified by their auxiliary arrays, which are unique for each element"]
PROBES = ["station", "noncoordinate", "hybrid", "repeated-values", "string-selection", "auxiliary-selection", "permuted", "renamed", "aligned", "refused", "concatenated", "saved", "multi-read-request", "request-failed-on-fault"]

WORDS = ["Alert", "BB", "Cape-Town", "d", "Eureka 2", "FZJ", "Gan", "Z\u00fcrich", "abc", "Oslo", "R2D2", "Q", "X_1", "yy", "long station name", "0", "17", " lead", "trail "]
LAND = ["CA", "US", "FR", "D"]
KIND = ["station", "station", "station", "obs", "obs", "hybrid", "lat", "pres", "named", "named", "zax"]


# ------------------------------------------------------------------ axes
def gen_host(rng):
    k = rng.pick(KIND)
    n = rng.pick([1, 2, 3, 4, 5, 6, 7, 9])
    a = {"c": "host", "k": k, "aux": {}, "dt": {}, "id": list(range(n)), "atts": {}, "aatts": {}}
    nc = k in ("station", "obs")
    if nc:
        a["v"] = list(range(n))
        a["n"] = "station" if k == "station" else rng.pick(["obs", "site", "profile"])
        if k == "station" and rng.chance(0.25):
            a["n"] = rng.pick(["stn", "place"])
        c = rng.randrange(3)
        if c != 0:
            a["aux"][a["n"]] = rng.sample(WORDS, n)
        if c != 1:
            a["aux"]["lat"] = [float(x) for x in rng.sample(range(-80, 80), n)]
            if rng.chance(0.7):
                a["aux"]["lon"] = [float(x) for x in rng.sample(range(0, 350), n)]
    else:
        step = rng.pick([1, 1, 2, 5])
        v = [float(step * x) for x in sorted(rng.sample(range(1, 16), n))]
        if k == "lat":
            v = [x - 8.0 for x in v]
        if k == "hybrid":
            v = [x / 100.0 for x in v]
        if rng.chance(0.3):
            v = v[::-1]
        elif rng.chance(0.15):
            v = rng.sample(v, n)
        if k == "named" and n > 1 and rng.chance(0.4):
            for i in rng.sample(range(n), rng.randint(1, n - 1)):
                v[i] = v[rng.randrange(n)]
            if rng.chance(0.3):
                v = [v[0]] * n
        a["v"] = v
        a["n"] = {"hybrid": "eta", "lat": "lat", "pres": "pres", "named": rng.pick(["x1", "cell"]), "zax": "z"}[k]
        if k == "hybrid":
            a["aux"]["A"] = [float(rng.randrange(0, 500)) for _ in range(n)]
            a["aux"]["B"] = [rng.randrange(0, 100) / 128.0 for _ in range(n)]
    more = ["elev", "code", "country", "l", "area", "wmo_id", "o"]
    for m in rng.sample(more, rng.randint(0 if a["aux"] else 1, 3)):
        if m == "elev":
            a["aux"][m] = [float(rng.pick([0, 5, 120, 341, 4000])) for _ in range(n)]
        elif m in ("code", "wmo_id", "l", "o"):
            a["aux"][m] = [rng.randrange(0, 6) for _ in range(n)]
            a["dt"][m] = rng.pick(["i8", "i4", "i2"])
        elif m == "country":
            a["aux"][m] = [rng.pick(LAND) for _ in range(n)]
        else:
            a["aux"][m] = [rng.randrange(0, 64) / 4.0 for _ in range(n)]
            a["dt"][m] = "f4"
    if rng.chance(0.4):
        a["atts"] = {"note": "kept", "valid": rng.randrange(5)}
    if rng.chance(0.3):
        a["aatts"] = {"network": "GAW"}
    return a


def isnc(a):
    return a["k"] in ("station", "obs")


def unique(a):
    if isnc(a):
        t = list(zip(*[a["aux"][k] for k in sorted(a["aux"])]))
        return len(set(t)) == len(t)
    return len(set(a["v"])) == len(a["v"])


def mkhost(a):
    import pygeode as pg
    from pygeode import axis as ax
    kw = dict((k, np.array(v, a["dt"][k]) if k in a["dt"] else np.array(v)) for k, v in a["aux"].items())
    kw.update(a["aatts"])
    kw["atts"] = dict(a["atts"])
    n = a["n"]
    v = np.array(a["v"], float)
    k = a["k"]
    if k == "station":
        return ax.Station(values=list(range(len(v))), name=n, **kw)
    if k == "obs":
        return ax.NonCoordinateAxis(values=list(range(len(v))), name=n, **kw)
    if k == "hybrid":
        A, B = kw.pop("A"), kw.pop("B")
        return ax.Hybrid(v, A, B, name=n, **kw)
    if k == "named":
        return ax.NamedAxis(v, n, **kw)
    return {"lat": ax.Lat, "pres": ax.Pres, "zax": ax.ZAxis}[k](v, name=n, **kw)


def cls_of(a):
    from pygeode import axis as ax
    return {"station": ax.Station, "obs": ax.NonCoordinateAxis, "hybrid": ax.Hybrid, "named": ax.NamedAxis, "lat": ax.Lat, "pres": ax.Pres, "zax": ax.ZAxis}[a["k"]]


world.EXTRA["host"] = mkhost


def take(a, idx):
    if a["c"] != "host":
        return M.axtake(a, idx)
    b = dict(a)
    b["v"] = list(range(len(idx))) if isnc(a) else [a["v"][i] for i in idx]
    b["id"] = [a["id"][i] for i in idx]
    b["aux"] = dict((k, [v[i] for i in idx]) for k, v in a["aux"].items())
    return b


def nm(a):
    return a["n"] if a["c"] == "host" else M.axname(a)


def host_of(la):
    h = [i for i, a in enumerate(la.axes) if a["c"] == "host"]
    if len(h) != 1:
        raise Invalid("host")
    return h[0]


def takela(la, idx):
    arr = la.arr
    for i, ix in enumerate(idx):
        arr = np.take(arr, ix, axis=i)
    return LA([take(a, ix) for a, ix in zip(la.axes, idx)], arr)


# ------------------------------------------------------------------ operations on the model
def keys_of(a):
    """Names by which the coordinate of the axis is selected."""
    return [a["n"]] + {"station": ["station"], "obs": [], "hybrid": ["hybrid", "eta"], "lat": ["lat"], "pres": ["pres"], "named": [], "zax": ["zaxis"]}[a["k"]]


def mask(s, a):
    """The elements one keyword keeps."""
    n = len(a["v"])
    keep = np.zeros(n, bool)
    v, how = s["v"], s["how"]
    if how[0] == "i":
        if not all(-n <= x < n for x in (v if isinstance(v, list) else [v])) and how != "ir":
            raise Invalid("index")
        if how == "ir":
            keep[v[0]:v[1]] = True
        else:
            keep[v] = True
        return keep
    if s["key"] in [k.lower() for k in keys_of(a)] + keys_of(a):
        if isnc(a):
            names = a["aux"].get(a.get("orig", a["n"]))
            if names is None:
                raise Invalid("no names")
            for x in (v if how == "l" else [v]):
                keep |= np.array([y == x for y in names])
            return keep
        vals, isf = a["v"], True
    elif s["key"] in a["aux"]:
        vals = a["aux"][s["key"]]
        isf = isinstance(vals[0], float)
    else:
        raise Invalid("key")
    for x in (v if how == "l" else [v]):
        if how == "r":
            lo, hi = min(v), max(v)
            keep |= np.array([lo <= y <= hi for y in vals])
            break
        if isf:
            d = [abs(x - y) for y in vals]
            j = d.index(min(d))
            if sorted(set(d))[1:] and sorted(set(d))[1] - min(d) < 1e-3 * (1 + abs(x)):
                raise Invalid("tie")
            keep[j] = True
        else:
            keep |= np.array([x == y for y in vals])
    return keep


def model_op(nd, V):
    o = nd["op"]
    a = V[nd["a"][0]]
    if o == "sel":
        i = host_of(a)
        h = a.axes[i]
        keep = np.ones(len(h["v"]), bool)
        for s in nd["kw"]:
            m = mask(s, h)
            keep &= ~m if s.get("not") else m
        if not keep.any():
            raise Invalid("nothing selected")
        return takela(a, [list(np.flatnonzero(keep)) if j == i else list(range(len(x["v"]))) for j, x in enumerate(a.axes)])
    if o == "slc":
        if len(nd["sl"]) != len(a.axes):
            raise Invalid("slices")
        ix = []
        for s, x in zip(nd["sl"], a.axes):
            L = len(x["v"])
            if isinstance(s, dict):
                if any(not 0 <= q < L for q in s["l"]):
                    raise Invalid("index")
                ix.append(s["l"])
            else:
                ix.append(list(range(L))[slice(*s)])
            if not ix[-1]:
                raise Invalid("empty")
        return takela(a, ix)
    if o == "ren":
        i = host_of(a)
        if any(nm(x) == nd["n"] for x in a.axes):
            raise Invalid("name")
        axes = list(a.axes)
        axes[i] = dict(axes[i], n=nd["n"], orig=axes[i].get("orig", axes[i]["n"]))
        return LA(axes, a.arr)
    if o == "tr":
        if len(nd["p"]) != len(a.axes):
            raise Invalid("order")
        return LA([a.axes[i] for i in nd["p"]], a.arr.transpose(nd["p"]))
    if o == "ew":
        return LA(a.axes, a.arr * 2.0 + 1.0)
    if o == "red":
        if nd["d"] >= len(a.axes) or a.axes[nd["d"]]["c"] == "host":
            raise Invalid("axis")
        return LA([x for j, x in enumerate(a.axes) if j != nd["d"]], a.arr.sum(axis=nd["d"]))
    if o == "io":
        i = host_of(a)
        h = dict(a.axes[i])
        if nd["v"] == 3:               # (without integers of 8 bytes, which are stored as floats)
            h["aux"] = dict((k, [float(x) for x in v] if h["dt"].get(k) == "i8" else v) for k, v in h["aux"].items())
        if isnc(h):
            h["atts"] = {}             # a dimension without coordinates has none
            if h["k"] == "station" and h["n"] != "station":
                h["k"] = "obs"         # stations are recognized by that name
            h.pop("orig", None)        # the names of the elements are those of that name
            if "station" in h["aux"] or h["n"] in h["aux"]:
                h["orig"] = "station" if h["k"] == "station" else h["n"]
        return LA(a.axes[:i] + [h] + a.axes[i + 1:], a.arr)
    b = V[nd["a"][1]]
    i, j = host_of(a), host_of(b)
    ha, hb = a.axes[i], b.axes[j]
    if o == "cat":
        if i != j or len(a.axes) != len(b.axes) or any(x != y for k, (x, y) in enumerate(zip(a.axes, b.axes)) if k != i):
            raise Invalid("other axes differ")
        if set(ha["id"]) & set(hb["id"]) or (not isnc(ha) and not unique(dict(ha, v=ha["v"] + hb["v"]))) or (ha["n"] != hb["n"] and ha["k"] == "named"):
            raise Invalid("pieces overlap")
        h = dict(ha, id=ha["id"] + hb["id"], aux=dict((k, v + hb["aux"][k]) for k, v in ha["aux"].items()))
        h["v"] = list(range(len(h["id"]))) if isnc(h) else ha["v"] + hb["v"]
        if not unique(h):
            raise Invalid("ambiguous")
        return LA(a.axes[:i] + [h] + a.axes[i + 1:], np.concatenate([a.arr, b.arr], axis=i))
    # add: aligned by element
    if ha["k"] != hb["k"]:
        raise Invalid("different axes")
    if ha["k"] == "named" and ha["n"] != hb["n"]:
        raise Invalid("different axes")
    if not unique(ha) or not unique(hb) or not unique(dict(ha, v=ha["v"] + [x for x, y in zip(hb["v"], hb["id"]) if y not in ha["id"]], aux=dict((k, v + [x for x, y in zip(hb["aux"][k], hb["id"]) if y not in ha["id"]]) for k, v in ha["aux"].items()))):
        raise Invalid("ambiguous")
    sa, sb = set(ha["id"]), set(hb["id"])
    if not (sa <= sb or sb <= sa):
        return "refused"
    oth = [x for k, x in enumerate(a.axes) if k != i]
    for k, x in enumerate(b.axes):
        if k != j:
            y = [z for z in oth if nm(z) == nm(x)]
            if y and y[0] != x:
                raise Invalid("other axes differ")
            if not y:
                oth.append(x)
    h = ha if len(sa) < len(sb) else hb
    if ha["atts"] != hb["atts"]:       # (those of either axis will do)
        h = dict(h, atts=dict((k, v) for k, v in h["atts"].items() if k in ha["atts"] and k in hb["atts"] and ha["atts"][k] == hb["atts"][k]))
    axes = [h] + oth
    hk = lambda la: [id(h) if z["c"] == "host" else nm(z) for z in la.axes]     # (the order to be expected; it is not checked)
    order = hk(a) + [z for z in hk(b) if z not in hk(a)]
    for la in (b, a):
        if len(la.axes) == len(order) and [z for z in la.axes if z["c"] == "host"][0] is h:
            order = hk(la)

    def put(la, k):
        ids = la.axes[k]["id"]
        x = np.take(la.arr, [ids.index(e) for e in h["id"]], axis=k)
        names = ["*" if q == k else nm(z) for q, z in enumerate(la.axes)]
        want = ["*"] + [nm(z) for z in oth]
        x = x.transpose([names.index(w) for w in want if w in names])
        return x.reshape([x.shape[[w for w in want if w in names].index(w)] if w in names else 1 for w in want])
    p = [hk(LA(axes, np.zeros([len(z["v"]) for z in axes]))).index(z) for z in order]
    out = LA([axes[q] for q in p], (put(a, i) + put(b, j)).transpose(p))
    out.perm = sa == sb            # either order of the elements will do
    return out


def sources(sc):
    return [LA(s["axes"], world.mkdata(s)) for s in sc["srcs"]]


# ------------------------------------------------------------------ generation
def gen_sel(rng, h):
    n = len(h["v"])
    orig = h.get("orig", h["n"])
    ks = []
    c = rng.randrange(4)
    if c == 0:
        f = rng.randrange(3)
        key = rng.pick(keys_of(h))
        if f == 0:
            return {"key": key, "how": "i", "v": rng.randrange(-n, n)}
        if f == 1:
            lo = rng.randrange(n)
            return {"key": key, "how": "ir", "v": [lo, lo + rng.randint(1, n)]}
        return {"key": key, "how": "il", "v": [rng.randrange(n) for _ in range(rng.randint(1, n))]}
    if c == 1 and (not isnc(h) or orig in h["aux"]):
        key = rng.pick(keys_of(h))
        if isnc(h):
            pool = h["aux"][orig] + ["nowhere"]
            s = {"key": key}
            if rng.chance(0.5):
                return dict(s, how="v", v=rng.pick(pool))
            return dict(s, how="l", v=rng.subset(pool, 1))
        vals, isf = h["v"], True
    else:
        ok = [k for k in h["aux"] if "_" not in k and not (isnc(h) and k == orig) and k not in keys_of(h)]
        if not ok:
            return gen_sel(rng, h)
        key = rng.pick(ok)
        vals = h["aux"][key]
        isf = isinstance(vals[0], float)
    f = rng.randrange(3)
    jig = (lambda: rng.pick([0, 0, 0.01, -0.01])) if isf else (lambda: 0)
    if isinstance(vals[0], str):
        f = rng.pick([0, 2])
        if f == 0:
            return {"key": key, "how": "v", "v": rng.pick(vals)}
        return {"key": key, "how": "l", "v": rng.subset(sorted(set(vals)) + ["ZZ"], 1)}
    if f == 0:
        return {"key": key, "how": "v", "v": rng.pick(vals) + jig()}
    if f == 1:
        return {"key": key, "how": "r", "v": [rng.pick(vals) - abs(jig()), rng.pick(vals) + abs(jig())]}
    return {"key": key, "how": "l", "v": [rng.pick(vals) + jig() for _ in range(rng.randint(1, 4))]}


def gen_node(rng, V, nsrc):
    o = rng.pick(["sel", "sel", "sel", "sel", "slc", "slc", "slc", "ren", "tr", "ew", "add", "add", "add", "cat", "cat", "red", "io"])
    k = rng.randrange(len(V))
    la = V[k]
    h = la.axes[host_of(la)]
    if o == "sel":
        kw, seen = [], set()
        for _ in range(rng.pick([1, 1, 1, 2])):
            s = gen_sel(rng, h)
            if s["key"] in seen:
                continue
            seen.add(s["key"])
            if rng.chance(0.15):
                s["not"] = 1
            kw.append(s)
        return {"op": o, "a": [k], "kw": kw, "ds": rng.chance(0.15)}
    if o == "slc":
        sl = []
        for a in la.axes:
            n = len(a["v"])
            c = rng.randrange(5) if a["c"] == "host" else rng.pick([0, 0, 1])
            if c == 0:
                sl.append([None, None, None])
            elif c == 1:
                lo = rng.randrange(n)
                sl.append([lo, lo + rng.randint(1, n), rng.pick([None, None, 2])])
            elif c == 2:
                sl.append([None, None, rng.pick([-1, -1, -2])])
            elif c == 3:
                sl.append({"l": rng.sample(range(n), n)})
            else:
                sl.append({"l": rng.sample(range(n), rng.randint(1, n))})
        return {"op": o, "a": [k], "sl": sl}
    if o == "ren":
        return {"op": o, "a": [k], "n": rng.pick(["renamed", "w", "loc"])}
    if o == "tr":
        return {"op": o, "a": [k], "p": rng.sample(range(len(la.axes)), len(la.axes))}
    if o == "ew":
        return {"op": o, "a": [k]}
    if o == "red":
        d = [i for i, a in enumerate(la.axes) if a["c"] != "host"]
        return {"op": o, "a": [k], "d": rng.pick(d)} if d else None
    if o == "io":
        return {"op": o, "a": [k], "fmt": rng.pick(["netcdf", "netcdf4"]), "rd": rng.pick(["netcdf", "netcdf4"]), "v": rng.pick([3, 4]), "name": rng.pick(["data", "T", "B", "code", "l"]), "lim": gen_limit(rng, la.arr.size)}
    if o == "cat" and rng.chance(0.8):     # two pieces of one variable
        n = len(h["v"])
        if n < 2:
            return None
        p = rng.sample(range(n), n) if rng.chance(0.5) else list(range(n))
        m = rng.randrange(1, n)
        i = host_of(la)
        f = lambda q: {"op": "slc", "a": [k], "sl": [{"l": q} if j == i else [None, None, None] for j in range(len(la.axes))]}
        return [f(p[:m]), f(p[m:]), {"op": "cat", "a": [len(V), len(V) + 1]}]
    return {"op": o, "a": [k, rng.randrange(len(V))]}


def gen(rng, tier):
    while True:
        h = gen_host(rng)
        others = []
        for c in rng.pick([[], ["std"], ["std"], ["m365"], ["std", "nam"], ["nam"]]):
            others.append(gen_axis(rng, c, rng.randint(1, 6), name="other" if c == "nam" else None))
            others[-1].pop("w", None)
        axes = [h] + others
        axes = rng.sample(axes, len(axes))
        srcs = [gen_source(rng, axes, dtype="f8", nan=0)]
        for _ in range(rng.pick([0, 0, 1])):
            n = len(h["v"])
            c = rng.randrange(3)
            p = list(range(n)) if c == 0 else rng.sample(range(n), n if c == 1 else rng.randint(1, n))
            ax2 = [take(h, p)] + rng.subset(others, 0)
            srcs.append(gen_source(rng, rng.sample(ax2, len(ax2)), dtype="f8", nan=0))
        sc = {"srcs": srcs, "nodes": [{"op": "src", "i": i} for i in range(len(srcs))], "reqs": [], "faults": {}}
        if unique(h) or not isnc(h):
            break
    V = sources(sc)
    for _ in range(rng.randint(1, 5)):
        live = [x for x in V]
        nds = gen_node(rng, [x if not isinstance(x, str) and not getattr(x, "perm", False) else V[0] for x in live], len(srcs))
        if nds is None:
            continue
        nds = nds if isinstance(nds, list) else [nds]
        keep = len(V)
        try:
            for nd in nds:
                if any(isinstance(V[k], str) or getattr(V[k], "perm", False) for k in nd["a"]):
                    raise Invalid("operand")
                r = model_op(nd, V)
                V.append(r)
                sc["nodes"].append(nd)
        except Invalid:
            del V[keep:]
            del sc["nodes"][keep:]
    ok = [k for k, x in enumerate(V) if not isinstance(x, str)]
    for _ in range(rng.randint(1, 4)):
        k = rng.pick(ok[-2:] if rng.chance(0.7) else ok)
        if getattr(V[k], "perm", False):
            sc["reqs"].append({"node": k, "kind": "get", "limit": gen_limit(rng, V[k].arr.size)})
        else:
            sc["reqs"].append(gen_request(rng, V[k], k))
    if rng.chance(0.3):
        for _ in range(rng.pick([1, 1, 2])):
            sc["faults"][str(rng.randrange(0, 12))] = rng.pick(["IOError", "ValueError", "MemoryError", "IndexError", "KeyError"])
    return sc


# ------------------------------------------------------------------ the real thing
def same_list(got, want):
    got = list(np.asarray(got))
    if len(got) != len(want):
        return False
    if want and isinstance(want[0], str):
        return [str(x) for x in got] == want
    return all(abs(float(x) - float(y)) <= 1e-6 * max(1.0, abs(y)) for x, y in zip(got, want))


def check_host(ctx, ax, a, what, io=False):
    cls = cls_of(a)
    ctx.check(type(ax) is cls, "wrong-axis-class", lambda: "%s: axis %s is a %s, expected %s" % (what, ax.name, type(ax).__name__, cls.__name__))
    ctx.check(ax.name == a["n"], "wrong-axis-name", lambda: "%s: axis is called %s, expected %s" % (what, ax.name, a["n"]))
    ctx.check(same_list(ax.values, a["v"]), "wrong-coordinates", lambda: "%s: axis %s has coordinates %s, expected %s" % (what, ax.name, short(list(ax.values)), a["v"]))
    have = sorted(k for k in ax.auxarrays if not (k == "weights" and a["k"] == "lat"))
    ctx.check(have == sorted(a["aux"]), "wrong-auxiliary", lambda: "%s: axis %s carries %s, expected %s" % (what, ax.name, have, sorted(a["aux"])))
    for k, w in a["aux"].items():
        ctx.check(same_list(ax.auxarrays[k], w), "wrong-auxiliary", lambda: "%s: %s of axis %s is %s, expected %s" % (what, k, ax.name, short(list(ax.auxarrays[k])), w))
        ctx.check(same_list(ax.auxasvar(k).get(), w), "wrong-auxiliary", lambda: "%s: variable %s of axis %s is %s, expected %s" % (what, k, ax.name, short(list(ax.auxasvar(k).get())), w))
    if a["k"] == "lat":
        w = list(np.cos(np.array(a["v"]) * np.pi / 180.0))
        ctx.check("weights" in ax.auxarrays and same_list(ax.auxarrays["weights"], w), "wrong-auxiliary", lambda: "%s: weights of %s are %s, expected %s" % (what, ax.name, short(list(ax.auxarrays.get("weights", []))), short(w)))
    for k, w in a["atts"].items():
        ctx.check(k in ax.atts and files.att_equal(ax.atts[k], w), "lost-attribute", lambda: "%s: attribute %s of axis %s is %s, expected %s" % (what, k, ax.name, short(ax.atts.get(k)), w))
    if not io:
        ctx.check(dict(ax.auxatts) == a["aatts"], "lost-attribute", lambda: "%s: auxiliary attributes of axis %s are %s, expected %s" % (what, ax.name, ax.auxatts, a["aatts"]))


def check_node(ctx, x, la, what, lost):
    names = [y.name for y in x.axes]
    ctx.check(names == [nm(a) for a in la.axes], "wrong-axes", lambda: "%s: axes %s, expected %s" % (what, names, [nm(a) for a in la.axes]))
    for ax, a in zip(x.axes, la.axes):
        if a["c"] == "host":
            check_host(ctx, ax, a, what, lost)
        else:
            ctx.check(len(ax) == len(a["v"]) and M.same(world.axis_coord(ax), M.axcoord(a)), "wrong-coordinates", lambda: "%s: axis %s has coordinates %s, expected %s" % (what, ax.name, short(world.axis_coord(ax)), short(M.axcoord(a))))


def kw_of(s):
    p = {"i": "i", "ir": "i", "il": "li", "v": "", "r": "", "l": "l"}[s["how"]] + ("n" if s.get("not") else "")
    v = s["v"]
    return (p + "_" if p else "") + s["key"], tuple(v) if s["how"] in ("ir", "r") else v


def do_op(nd, X, V, ctx, k, W, n):
    import pygeode as pg
    from pygeode.concat import concat
    o = nd["op"]
    x = X[nd["a"][0]]
    if o == "sel":
        kw = dict(kw_of(s) for s in nd["kw"])
        if len(kw) < len(nd["kw"]):
            raise Invalid("keywords")
        for s in nd["kw"]:
            if s["how"] in ("v", "l", "r"):
                ctx.probe("string-selection" if isinstance((s["v"] if s["how"] == "v" else s["v"][0]), str) else "auxiliary-selection")
        i = host_of(V[nd["a"][0]])
        ax = x.axes[i](**kw)
        check_host(ctx, ax, V[k].axes[i], "%s of the axis alone" % kw, lost_after(n, nd["a"][0]))
        if nd.get("ds"):
            x.name = x.name or "v"
            return pg.Dataset([x], print_warnings=False)(**kw)[x.name]
        return x(**kw)
    if o == "slc":
        t = tuple(np.array(s["l"]) if isinstance(s, dict) else slice(*s) for s in nd["sl"])
        if any(isinstance(s, dict) or (s[2] or 1) < 0 for s in nd["sl"]):
            ctx.probe("permuted")
        return x.slice[t]
    if o == "ren":
        ctx.probe("renamed")
        return x.rename_axes(**{x.axes[host_of(V[nd["a"][0]])].name: nd["n"]})
    if o == "tr":
        return x.transpose(*[x.axes[i].name for i in nd["p"]])
    if o == "ew":
        return x * 2.0 + 1.0
    if o == "red":
        return x.sum(x.axes[nd["d"]].name)
    if o == "cat":
        ctx.probe("concatenated")
        return concat([x, X[nd["a"][1]]])
    if o == "add":
        ctx.probe("aligned")
        return x + X[nd["a"][1]]
    if o == "io":
        h = V[k].axes[host_of(V[k])]
        if nd["name"] in [nm(a) for a in V[k].axes] or (isnc(h) and nd["name"] in h["aux"]):
            raise Invalid("name")
        ctx.probe("saved")
        path = "f%d.nc" % k
        y = x.rename(nd["name"])
        y.atts = {"note": "x"}
        W.limit(nd["lim"])
        pg.save(path, y, format=nd["fmt"], version=nd["v"])
        got = pg.open(path, format=nd["rd"])
        W.limit(1 << 22)
        names = [v.name for v in got.vars]
        ctx.check(names == [nd["name"]], "wrong-names", lambda: "variables of the file are %s, expected only %s" % (names, nd["name"]))
        z = got[nd["name"]]
        return z
    raise Invalid(o)


def lost_after(nodes, k):
    """Was this node's axis read from a file? (auxiliary attributes are not stored)"""
    nd = nodes[k]
    if nd["op"] == "src":
        return False
    return nd["op"] == "io" or any(lost_after(nodes, j) for j in nd["a"])


def execute(sc, ctx):
    V = sources(sc)
    h = sc["srcs"][0]["axes"][host_of(V[0])]
    if isnc(h) and not unique(h):
        raise Invalid("not unique")
    W = world.World(ctx, sc["faults"])
    W.install_allocator()
    W.plan.enabled = False
    try:
        W.limit(1 << 22)
        X = [W.source(s, "s%d" % i) for i, s in enumerate(sc["srcs"])]
        ctx.probe({"station": "station", "obs": "noncoordinate", "hybrid": "hybrid"}.get(h["k"], "repeated-values" if not unique(h) else None) or "permuted")
        for k, nd in enumerate(sc["nodes"]):
            if nd["op"] == "src":
                check_node(ctx, X[k], V[k], "source %d" % k, False)
                continue
            what = "node %d (%s)" % (k, nd["op"])
            if any(q >= k or isinstance(V[q], str) for q in nd["a"]):
                raise Invalid("operand")
            V.append(model_op(nd, V))
            if isinstance(V[k], str):
                try:
                    do_op(nd, X, V, ctx, k, W, sc["nodes"])
                except Exception as e:
                    ctx.probe("refused")
                    ctx.log("refused", type(e).__name__)
                else:
                    raise Violation("not-refused", "%s: operands whose axes match only in part were combined" % what)
                X.append(None)
                continue
            with ctx.sut(what):
                x = do_op(nd, X, V, ctx, k, W, sc["nodes"])
            X.append(x)
            if nd["op"] == "add":
                V[k] = reorder(ctx, x, V, nd, k, what)
            check_node(ctx, x, V[k], what, lost_after(sc["nodes"], k))
        W.plan.enabled = True
        W.plan.n = 0
        for r in sc["reqs"]:
            if r["node"] >= len(V) or isinstance(V[r["node"]], str):
                raise Invalid("node")
        mag = max([float(np.abs(v.arr).max()) * v.arr.size for v in V if not isinstance(v, str)] + [1.0])

        def cmp(sc2, ctx, vals, k, got, want, what, idx):
            compare(ctx, got, want, what, rtol=1e-9, atol=1e-9 * mag)
        run_requests(dict(sc, reqs=sc["reqs"]), ctx, W, X, [None if isinstance(v, str) else v for v in V], cmp=cmp)
        W.plan.enabled = False
        for k, nd in enumerate(sc["nodes"]):
            if X[k] is not None:
                check_node(ctx, X[k], V[k], "node %d (%s) after the requests" % (k, nd["op"]), lost_after(sc["nodes"], k))
        W.check_sources_intact()
    finally:
        W.uninstall()


def reorder(ctx, x, V, nd, k, what):
    """The order of axes of a sum is free; so is that of the elements, if both operands have the same."""
    la = V[k]
    pos = []
    for ax in x.axes:
        m = [i for i, a in enumerate(la.axes) if (ax.name in (nm(V[q].axes[host_of(V[q])]) for q in nd["a"]) if a["c"] == "host" else nm(a) == ax.name)]
        ctx.check(len(m) >= 1, "wrong-axes", lambda: "%s: axes %s, expected those of %s" % (what, [y.name for y in x.axes], [nm(a) for a in la.axes]))
        m = [i for i in m if i not in pos] or m
        pos.append(m[0])
    ctx.check(sorted(pos) == list(range(len(la.axes))), "wrong-axes", lambda: "%s: axes %s, expected %s" % (what, [y.name for y in x.axes], [nm(a) for a in la.axes]))
    la2 = LA([la.axes[i] for i in pos], la.arr.transpose(pos))
    i = host_of(la2)
    ax = x.axes[i]
    cands = [V[q].axes[host_of(V[q])] for q in nd["a"]]
    cands = [c for c in cands if sorted(c["id"]) == sorted(la2.axes[i]["id"])]
    for c in cands:
        if ax.name == c["n"] and len(ax) == len(c["v"]) and same_list(ax.values, c["v"]) and all(kk in ax.auxarrays and same_list(ax.auxarrays[kk], w) for kk, w in c["aux"].items()):
            ids = la2.axes[i]["id"]
            p = [ids.index(e) for e in c["id"]]
            arr = np.take(la2.arr, p, axis=i)
            axes = list(la2.axes)
            axes[i] = dict(c, atts=la2.axes[i]["atts"])
            return LA(axes, arr)
    return la2


def shrinks(sc):
    for i in range(len(sc["reqs"])):
        if len(sc["reqs"]) > 1:
            c = copy.deepcopy(sc)
            del c["reqs"][i]
            yield c
    if sc["faults"]:
        c = copy.deepcopy(sc)
        c["faults"] = {}
        yield c
    for i, r in enumerate(sc["reqs"]):
        if r["kind"] != "get":
            c = copy.deepcopy(sc)
            c["reqs"][i] = {"kind": "get", "limit": r["limit"], "node": r["node"]}
            yield c
        if r["limit"] != 1 << 22:
            c = copy.deepcopy(sc)
            c["reqs"][i]["limit"] = 1 << 22
            yield c
    ns = len(sc["srcs"])
    for k in range(len(sc["nodes"]) - 1, ns - 1, -1):      # without node k: its users use its operand
        for a in sc["nodes"][k]["a"]:
            c = copy.deepcopy(sc)
            del c["nodes"][k]
            f = lambda q: a if q == k else q - (q > k)
            for nd in c["nodes"]:
                if "a" in nd:
                    nd["a"] = [f(q) for q in nd["a"]]
            for r in c["reqs"]:
                r["node"] = f(r["node"])
            yield c
    for k, nd in enumerate(sc["nodes"]):
        for i in range(len(nd.get("kw", []))):
            if len(nd["kw"]) > 1:
                c = copy.deepcopy(sc)
                del c["nodes"][k]["kw"][i]
                yield c
    hosts = [(i, j) for i, s in enumerate(sc["srcs"]) for j, a in enumerate(s["axes"]) if a["c"] == "host"]
    names = set(k for i, j in hosts for k in sc["srcs"][i]["axes"][j]["aux"])
    for n in sorted(names):
        c = copy.deepcopy(sc)
        for i, j in hosts:
            c["srcs"][i]["axes"][j]["aux"].pop(n, None)
        yield c
    for f in ("atts", "aatts"):
        if any(sc["srcs"][i]["axes"][j][f] for i, j in hosts):
            c = copy.deepcopy(sc)
            for i, j in hosts:
                c["srcs"][i]["axes"][j][f] = {}
            yield c
    if ns == 1:
        for j, a in enumerate(sc["srcs"][0]["axes"]):
            L = len(a["v"])
            for m in range(L):
                if L > 1:
                    c = copy.deepcopy(sc)
                    c["srcs"][0]["axes"][j] = take(a, [q for q in range(L) if q != m])
                    yield c
            if a["c"] != "host":
                c = copy.deepcopy(sc)
                del c["srcs"][0]["axes"][j]
                yield c
