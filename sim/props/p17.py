import datetime as _dt
import xarray, dask, dask.array, dask._task_spec   # (before the runs are forked)
import props.p09 as p09
from props.p09 import *

ID = "P17"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("one case = two datasets of the same names (lazily computed sources and expressions, or the files they were saved to) and a history of 3-9 steps: convert to xarray under a seeded memory limit, compute regions of one or several "
        "variables in a seeded task order while the limit changes and source reads fail, reduce through xarray, convert back (as is, loaded, rechunked, or a region) and evaluate the result; non-trivial if a converted object was computed; "
        "distinct by scenario")
STATE_MEASURE = "distinct (step kind, axis classes, number of chunks, task order, data types, outcome) tuples"
REAL = ["pygeode.ext_xarray", "pygeode.formats.cfmeta", "xarray", "dask's collections and graph optimisation", "views and chunked evaluation", "pygeode.formats.netcdf/netcdf4 (file-backed cases)"]
STUB = ["dask's scheduler (tasks are executed in a seeded order)", "data sources", "memory limit", "contents of uninitialised memory"]
ASSUMPTIONS = ["xarray and dask are correct"]
PROBES = ["converted", "converted-back", "several-chunks", "task-order", "compute-failed-on-fault", "recovered", "both-datasets-at-once", "file-backed", "region-converted-back", "time-axis", "fill-value", "attributes", "integer-type", "reduction", "limit-changed-after"]


class Tasks(object):
    """The scheduler: every graph is executed task by task in a seeded order."""
    def __init__(self, ctx):
        self.ctx, self.rng, self.orders = ctx, Rng(0), []

    def get(self, dsk, keys, **kw):
        from dask._task_spec import convert_legacy_graph
        from dask.core import flatten
        if hasattr(dsk, "__dask_graph__"):
            dsk = dsk.__dask_graph__()
        g = convert_legacy_graph(dict(dsk))
        deps = dict((k, set(d for d in t.dependencies if d in g)) for k, t in g.items())
        done, order = {}, []
        names = dict((k, i) for i, k in enumerate(g))
        while len(done) < len(g):
            ready = [k for k in g if k not in done and deps[k] <= set(done)]
            if not ready:
                raise HarnessError("cyclic graph")
            k = ready[self.rng.randrange(len(ready))]
            done[k] = g[k](dict((d, done[d]) for d in deps[k]))
            order.append(names[k])
        if order != sorted(order) and len(order) > 1:
            self.ctx.probe("task-order")
        self.orders.append(tuple(order))

        def pick(k):
            return tuple(pick(x) for x in k) if isinstance(k, list) else done[k]
        return pick(keys)


def gen(rng, tier):
    sc = p09.gen(rng, tier, small=True)
    for k in ("pre", "groups", "pack", "compress", "unlimited", "how", "single", "reqs"):
        sc.pop(k, None)
    sc["cfmeta"] = sc["rcf"] = True
    for v in sc["vars"]:
        nd = sc["nodes"][v["node"]]
        if "fill" not in v and nd["op"] == "src" and sc["srcs"][nd["i"]]["dtype"] in ("f8", "f4") and rng.chance(0.15):
            v["fill"], v["fillname"] = rng.pick([-999.0, 1e20, 0.0]), rng.pick(["_FillValue", "missing_value"])
    for x in [sc.get("gatts", {}), sc.get("axatts") or {}] + [v["atts"] for v in sc["vars"]]:
        for k in [k for k in x if isinstance(x[k], dict) and x[k]["t"] == "odd"]:
            del x[k]
    sc["file"] = rng.pick([None, None, None, "netcdf", "netcdf4"])
    vals = model_values(sc)
    n = max(vals[v["node"]].arr.size for v in sc["vars"])
    st = [{"k": "to", "d": 0, "limit": gen_limit(rng, n)}]
    if rng.chance(0.4):
        st.append({"k": "to", "d": 1, "limit": gen_limit(rng, n)})
    nd_ = len(st)

    def step(back):
        i = rng.randrange(len(sc["vars"]))
        la = vals[sc["vars"][i]["node"]]
        d = rng.randrange(nd_)
        if back and rng.chance(0.6):
            s = {"k": "req", "d": d, "r": dict(gen_request(rng, la, sc["vars"][i]["node"]), var=i)}
            s["limit"] = s["r"]["limit"]
        else:
            s = {"k": rng.pick(["x", "x", "x", "all", "mean"]), "d": d, "var": i, "limit": gen_limit(rng, n), "sl": [gen_slice(rng, len(a["v"])) for a in la.axes]}      # (of the dimensions in their order)
            if s["k"] == "all":
                s["both"] = nd_ > 1 and rng.chance(0.7)
        s["order"] = rng.randrange(1 << 30)
        if rng.chance(0.25):
            s["fault"] = [rng.pick([0, 0, 1, rng.randrange(6)]), rng.pick(sorted(world.FAULTS))]
        return s
    for _ in range(rng.randint(1, 3)):
        st.append(step(False))
    st.append({"k": "back", "d": 0, "how": rng.pick(["plain", "plain", "load", "chunk", "isel", "again"]), "limit": gen_limit(rng, n), "order": rng.randrange(1 << 30),
               "isel": [rng.randrange(5), gen_slice(rng, 12)], "chunk": rng.randint(1, 5)})
    if nd_ > 1:
        st.append(dict(st[-1], d=1, how="plain"))
    for _ in range(rng.randint(1, 5)):
        st.append(step(True))
    sc["steps"] = st
    return sc


def dates_of(x):
    """Calendar fields of xarray's coordinates."""
    out = []
    for t in np.asarray(x).ravel():
        if isinstance(t, np.datetime64):
            t = (t.astype("datetime64[us]") + np.timedelta64(500000, "us")).astype("datetime64[s]").astype(_dt.datetime)
            out.append((t.year, t.month, t.day, t.hour, t.minute, t.second))
        else:
            out.append((t.year, t.month, t.day, t.hour, t.minute, t.second + (1 if t.microsecond > 500000 else 0)))
    return out


def check_x(sc, ctx, vals, X, limit):
    """Everything of the converted object but its values."""
    names = sorted(str(n) for n in X.data_vars)
    want = sorted(v["name"] for v in sc["vars"])
    ctx.check([n for n in names if not n.endswith("_weights")] == want, "wrong-names", lambda: "xarray object has variables %s, expected %s" % (names, want))
    for k, w in real_atts(sc.get("gatts", {})).items():
        ctx.check(k in X.attrs and files.att_equal(X.attrs[k], w), "lost-attribute", lambda: "global attribute %s is %s, expected %s" % (k, short(X.attrs.get(k)), short(w)))
    for v in sc["vars"]:
        x, la = X[v["name"]], vals[v["node"]]
        ctx.check(x.shape == la.arr.shape, "wrong-shape", lambda: "%s has shape %s, expected %s" % (v["name"], x.shape, la.arr.shape))
        t = stored(sc, vals, v).dtype
        ctx.check(x.dtype.kind == t.kind or sc.get("file"), "wrong-type", lambda: "%s is %s, expected %s" % (v["name"], x.dtype, t))
        if t.kind in "iu":
            ctx.probe("integer-type")
        if x.chunks:
            ctx.check(all(int(np.prod([c[i] for c, i in zip(x.chunks, ix)])) <= max(limit, 1) for ix in np.ndindex(*[len(c) for c in x.chunks])), "chunk-too-large", lambda: "%s has chunks %s (limit %d)" % (v["name"], x.chunks, limit))
            if any(len(c) > 1 for c in x.chunks):
                ctx.probe("several-chunks")
        for k, w in real_atts(v["atts"]).items():
            if isinstance(w, set):
                continue
            ctx.probe("attributes")
            ctx.check(k in x.attrs and files.att_equal(x.attrs[k], w), "lost-attribute", lambda: "attribute %s of %s is %s, expected %s" % (k, v["name"], short(x.attrs.get(k)), short(w)))
        for d, a in zip(x.dims, la.axes):
            ctx.check(d in X.coords, "lost-coordinates", lambda: "no coordinates of %s" % d)
            c = X[d]
            if a["c"] in M.TIME:
                ctx.probe("time-axis")
                got, w = dates_of(c.values), [tuple(y) for y in M.axdates(a)]
                ctx.check(got == w, "wrong-dates", lambda: "dates of %s are %s, expected %s" % (d, short(got), short(w)))
            else:
                ctx.check(M.same([float(y) for y in c.values], M.axcoord(a)), "wrong-coordinates", lambda: "coordinates of %s are %s, expected %s" % (d, short(c.values), short(a["v"])))
                ctx.check(d.rstrip("0123456789") == M.axname(a).rstrip("0123456789"), "wrong-names", lambda: "dimension %s, expected %s" % (d, M.axname(a)))
            for k, w in real_atts(sc.get("axatts") or {}).items():
                ctx.check(k in c.attrs and files.att_equal(c.attrs[k], w), "lost-attribute", lambda: "attribute %s of %s is %s, expected %s" % (k, d, short(c.attrs.get(k)), short(w)))


def regions(sl, la):
    idx, drop = [], []
    for i, (s, a) in enumerate(zip(sl, la.axes)):
        L = len(a["v"])
        if isinstance(s, int) and not -L <= s < L or isinstance(s, dict) and any(k >= L for k in s["l"]):
            raise Invalid("index out of range")
        idx.append(idx_of(s, L))
        if isinstance(s, int):
            drop.append(i)
    if len(sl) != len(la.axes):
        raise Invalid("region")
    return idx, drop


def take(arr, idx, drop=()):
    for i, ix in enumerate(idx):
        arr = np.take(arr, ix, axis=i)
    return arr.reshape([n for i, n in enumerate(arr.shape) if i not in drop])


def execute(sc, ctx):
    import pygeode as pg
    from pygeode.ext_xarray import to_xarray, from_xarray
    import dask
    both = [sc, dict(sc, srcs=[dict(s, seed=s["seed"] ^ 0x5a5a5) for s in sc["srcs"]])]
    V = [model_values(s) for s in both]
    for s, vals in zip(both, V):
        validate(s, vals)
    W = world.World(ctx)
    W.install_allocator()
    T = Tasks(ctx)
    ndat = 2 if any(s.get("d") for s in sc["steps"]) else 1
    DS, X, B, SUB = {}, {}, {}, {}
    L = {}
    try:
        with dask.config.set(scheduler=T.get):
            for d in range(ndat):
                pv = build_dataset(both[d], W, ctx, V[d])
                DS[d] = pg.Dataset(pv, atts=real_atts(sc.get("gatts", {})), print_warnings=False)
                if sc.get("file"):
                    ctx.probe("file-backed")
                    with ctx.sut("saving"):
                        pg.save("f%d.nc" % d, DS[d], format=sc["file"])
                        DS[d] = pg.open("f%d.nc" % d, format=sc["file"])
            for j, s in enumerate(sc["steps"]):
                d = s["d"]
                vals, w = V[d], both[d]
                W.limit(s["limit"])
                T.rng = Rng(s.get("order", 0))
                k = s["k"]
                if k in ("to", "back") or d not in X:
                    r0 = len(W.reads)
                    if k == "to":
                        with ctx.sut("step %d: to_xarray" % j):
                            X[d] = to_xarray(DS[d])
                        L[d] = s["limit"]
                        ctx.probe("converted")
                        check_x(w, ctx, vals, X[d], s["limit"])
                    elif d not in X:
                        raise Invalid("not converted")
                    else:
                        y, sub = X[d], None
                        if s["how"] == "load":
                            y = y.copy().load()
                            r0 = len(W.reads)
                        elif s["how"] == "chunk":
                            y = y.chunk(dict((n, s["chunk"]) for n in y.dims))
                        elif s["how"] == "isel" and y.dims:
                            dims = sorted(map(str, y.dims))
                            dn = dims[s["isel"][0] % len(dims)]
                            sl = s["isel"][1]
                            n = y.sizes[dn]
                            if isinstance(sl, int) or isinstance(sl, dict):
                                sl = [None, None, 2]
                            ix = idx_of(sl, n)
                            if not ix:
                                raise Invalid("empty region")
                            sub = (dn, ix)
                            y = y.isel({dn: py_of(sl)})
                            ctx.probe("region-converted-back")
                        with ctx.sut("step %d: from_xarray (%s)" % (j, s["how"])):
                            B[d] = from_xarray(y)
                        SUB[d] = sub
                        if s["how"] == "again":
                            with ctx.sut("step %d: converting once more" % j):
                                y = to_xarray(B[d])
                                check_x(w, ctx, vals, y, 1 << 40)
                                B[d] = from_xarray(y)
                        ctx.probe("converted-back")
                        check_back(w, ctx, sub_vals(X[d], w, vals, sub), B[d])
                    ctx.check(len(W.reads) == r0, "not-lazy", lambda: "step %d (%s) read data of %s" % (j, k, W.reads[r0][0]))
                    ctx.log(k, d)
                    continue
                what = "step %d (%s)" % (j, k)
                f0 = W.plan.fired
                if s.get("fault"):
                    W.plan.faults = {W.plan.n + s["fault"][0]: s["fault"][1]}
                try:
                    with ctx.sut(what, allow=(Exception, GeneratorExit) if s.get("fault") else ()):
                        out = step(s, w, vals, X, B, SUB, V, both, W, ctx, what)
                except (Violation, Invalid, HarnessError):
                    raise
                except BaseException as e:
                    if W.plan.fired == f0:
                        with ctx.sut(what):
                            raise
                    out = None
                W.plan.faults = {}
                if W.plan.fired > f0:
                    ctx.check(out is None, "read-failure-swallowed", lambda: "%s returned a value although a read of its data failed" % what)
                    ctx.probe("compute-failed-on-fault")
                    with ctx.sut(what + " after a failed read"):
                        out = step(s, w, vals, X, B, SUB, V, both, W, ctx, what)
                    ctx.probe("recovered")
                for got, want, la, v in out:
                    t = tol_of(w, vals, v)
                    if k == "mean":
                        t = max(t, 1e-12 * (1 + float(np.nanmax(np.abs(np.where(np.isfinite(want), want, 0)))) if want.size else 0), 1e-5 * float(np.nanmax(np.abs(np.where(np.isfinite(la.arr), la.arr, 0)))) if la.arr.dtype != np.float64 else 1e-11 * float(np.nanmax(np.abs(np.where(np.isfinite(la.arr), la.arr, 0)))))
                    compare(ctx, got, want, what + " of " + v["name"], rtol=0 if t == 0 else 1e-9, atol=t)
                    if want.dtype.kind in "iu":
                        ctx.check((np.asarray(got).dtype.kind == want.dtype.kind or bool(sc.get("file"))) and bool(np.all(np.asarray(got).astype(object) == want.astype(object))), "wrong-value", what + ": integers differ")
                    if "fill" in v:
                        ctx.probe("fill-value")
                if s["limit"] != L[d]:
                    ctx.probe("limit-changed-after")
                ctx.trivial = False
                ctx.log("ok", j, k, [digest_array(np.asarray(o[0])) for o in out])
                v = w["vars"][s.get("var", 0)]
                ctx.state(k, tuple(a["c"] for a in vals[v["node"]].axes), vals[v["node"]].arr.dtype.str, T.orders[-1] if T.orders else None, W.plan.fired > f0)
            W.check_sources_intact()
    finally:
        W.uninstall()


def sub_vals(X, sc, vals, sub):
    """Model values restricted to a region along one (xarray) dimension."""
    if sub is None:
        return vals
    out = list(vals)
    for v in sc["vars"]:
        la = vals[v["node"]]
        dims = [str(x) for x in X[v["name"]].dims]
        if sub[0] in dims:
            i = dims.index(sub[0])
            if M.same is None:
                raise HarnessError
            out[v["node"]] = LA([M.axtake(a, sub[1]) if n == i else a for n, a in enumerate(la.axes)], np.take(la.arr, sub[1], axis=i))
    return out


def check_back(sc, ctx, vals, got):
    """Names, axes and attributes of the dataset converted back."""
    names = sorted(x.name for x in got.vars)
    want = sorted(v["name"] for v in sc["vars"])
    ctx.check(names == want, "wrong-names", lambda: "converted back: variables %s, expected %s" % (names, want))
    for k, w in real_atts(sc.get("gatts", {})).items():
        ctx.check(k in got.atts and files.att_equal(got.atts[k], w), "lost-attribute", lambda: "global attribute %s is %s, expected %s" % (k, short(got.atts.get(k)), short(w)))
    for v in sc["vars"]:
        x, la = got[v["name"]], vals[v["node"]]
        ctx.check(len(x.axes) == len(la.axes), "wrong-axes", lambda: "%s has axes %s, expected %s" % (v["name"], [a.name for a in x.axes], [M.axname(a) for a in la.axes]))
        for ax, a in zip(x.axes, la.axes):
            check_axis(ctx, ax, a, v["name"], True)
            for k, w in real_atts(sc.get("axatts") or {}).items():
                ctx.check(k in ax.atts and files.att_equal(ax.atts[k], w), "lost-attribute", lambda: "attribute %s of axis %s is %s, expected %s" % (k, ax.name, short(ax.atts.get(k)), short(w)))
        for k, w in real_atts(v["atts"]).items():
            if not isinstance(w, set):
                ctx.check(k in x.atts and files.att_equal(x.atts[k], w), "lost-attribute", lambda: "attribute %s of %s is %s, expected %s" % (k, v["name"], short(x.atts.get(k)), short(w)))


def step(s, w, vals, X, B, SUB, V, both, W, ctx, what):
    import dask
    d, k = s["d"], s["k"]
    out = []
    if k == "req":
        if d not in B:
            raise Invalid("not converted back")
        r = s["r"]
        v = w["vars"][r["var"]]
        vv = sub_vals(X[d], w, vals, SUB[d])[v["node"]]
        arr = stored(w, sub_vals(X[d], w, vals, SUB[d]), v)
        la = LA(vv.axes, arr)
        want, idx = expected_request(r, la)
        return [(do_request(r, B[d][v["name"]], la, ctx), want, la, v)]
    v = w["vars"][s["var"]]
    la = LA(vals[v["node"]].axes, stored(w, vals, v))
    x = X[d][v["name"]]
    if k == "x":
        idx, drop = regions(s["sl"], la)
        y = x.isel(dict((n, py_of(q)) for n, q in zip(x.dims, s["sl"])))
        return [(y.values, take(la.arr, idx, drop), la, v)]
    if k == "all":
        ds = [0, 1] if s.get("both") else [d]
        arrs, exp = [], []
        for e in ds:
            if e not in X:
                raise Invalid("not converted")
            for u in both[e]["vars"]:
                lb = LA(V[e][u["node"]].axes, stored(both[e], V[e], u))
                arrs.append(X[e][u["name"]].data)
                exp.append((lb.arr, lb, u))
        if s.get("both"):
            ctx.probe("both-datasets-at-once")
        got = dask.compute(*arrs)
        return [(np.asarray(g), a, lb, u) for g, (a, lb, u) in zip(got, exp)]
    if k == "mean":
        if not la.axes or la.arr.dtype.kind != "f" or not np.isfinite(la.arr).all():
            return [(x.values, la.arr, la, v)]
        ctx.probe("reduction")
        i = s["order"] % len(la.axes)
        return [(x.mean(x.dims[i]).values, la.arr.mean(i), la, v)]
    raise Invalid(k)


def shrinks(sc):
    for i in range(len(sc["steps"])):
        c = copy.deepcopy(sc)
        del c["steps"][i]
        if c["steps"]:
            yield c
    for i, s in enumerate(sc["steps"]):
        if "fault" in s:
            c = copy.deepcopy(sc)
            del c["steps"][i]["fault"]
            yield c
        if s.get("how", "plain") != "plain":
            c = copy.deepcopy(sc)
            c["steps"][i]["how"] = "plain"
            yield c
        if s["limit"] != 1 << 22:
            c = copy.deepcopy(sc)
            c["steps"][i]["limit"] = 1 << 22
            yield c
    if sc.get("file"):
        c = copy.deepcopy(sc)
        c["file"] = None
        yield c
    fake = dict(copy.deepcopy(sc), reqs=[dict(s.get("r", {}), var=s["r"]["var"] if "r" in s else s.get("var", 0), node=sc["vars"][s["r"]["var"] if "r" in s else s.get("var", 0)]["node"]) for s in sc["steps"]])
    for c in p09.shrinks(fake):
        if len(c["reqs"]) == len(sc["steps"]):
            for s, r in zip(c["steps"], c["reqs"]):
                if "r" in s:
                    s["r"] = r
                elif "var" in s:
                    s["var"] = r["var"]
                    s["sl"] = [[None, None, None]] * len(s["sl"])
            c.pop("reqs")
            yield c
