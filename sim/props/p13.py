from props.exprbase import *
import props.p01 as p01
import ops_nbhd, ops_time, ops_cat, ops_reduce
from ops_cat import CATOPS
from ops_time import gen_time
from props.p03 import grp_match

ID = "P13"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case = a seeded program in which arrays are cut into pieces and concatenated (also separately stored pieces with their own reference dates), stacked, split/joined by year, flattened, lagged, composited "
        "or coerced to another calendar, evaluated on seeded sub-regions under seeded memory limits, optionally with failing reads; non-trivial if a request read a lazy source; distinct by scenario")
STATE_MEASURE = "distinct (operation, sequence of index blocks read from the sources) pairs"
REAL = ["pygeode.concat, ensemble, dataset.concat, timeutils (split/join/lag/removeleapyears), composite, flatten, views and upstream operations"]
STUB = p01.STUB
ASSUMPTIONS = ["coordinates along the concatenated axis are distinct", "29 February is not split by year"]
NEW = ["cat", "catn", "stackn", "split", "flat", "comp", "rly", "lag"]
PROBES = ["chunked-request", "multi-read-request", "request-failed-on-fault", "retry-succeeded", "joined", "event-truncated", "pieces-out-of-order", "misfit-refused"] + ["op:" + n for n in NEW]
POST = ["slice", "tr", "bin", "sc", "red", "un"]
CLS = {"ens": "Ensemble", "event": "Event", "offset": "Offset", "yearless": "Yearless", "lag": "Lag"}


def gen(rng, tier, faults=True):
    while True:
        P = Prog(rng)
        tm = rng.chance(0.6)
        if tm:
            axes = [gen_time(rng, 20)]
            for c in rng.sample(["lat", "lon", "pres", "nam:x"], rng.randrange(3)):
                axes.append(gen_axis(rng, c.split(":")[0], rng.randint(1, 4), c.split(":")[1] if ":" in c else None))
            rng.shuffle(axes)
        else:
            axes = gen_axes(rng, maxsize=rng.pick([40, 150, 300]))
        x = rng.random()
        if x < 0.35:       # pieces stored separately
            i = rng.randrange(len(axes))
            if tm and rng.chance(0.7):
                i = [a["c"] in M.TIME for a in axes].index(True)
            parts = ops_cat.segments(rng, len(axes[i]["v"]))
            dts = rng.pick([["f8"], ["f8"], ["f4"], ["f8", "f4"]])
            for a, b in parts:
                s = M.axtake(axes[i], list(range(a, b)))
                if s["c"] in M.TIME and rng.chance(0.5):      # its own reference date and unit
                    k = rng.randrange(len(s["v"]))
                    d = M.axdates(s)[k]
                    base = M.to_days(s["c"], *d[:3]) * 86400.0
                    u = rng.pick(["days", "hours"])
                    c = M.axcoord(s)
                    s = dict(s, y=d[0], m=d[1], d=d[2], u=u)
                    s["v"] = [(t - base) / M._SEC[u] for t in c]
                P.add_src(gen_source(rng, axes[:i] + [s] + axes[i + 1:], dtype=rng.pick(dts)))
            if len(parts) > 1:
                try:
                    P.add("catn", list(range(len(parts))), {"ax": i, "how": rng.randrange(4)})
                except Invalid:
                    continue
        elif x < 0.55:     # stacked
            n = rng.randint(2, 4)
            dts = rng.pick([["f8"], ["f8"], ["f4"], ["f8", "f4"]])
            for _ in range(n):
                P.add_src(gen_source(rng, axes, dtype=rng.pick(dts)))
            try:
                P.add("stackn", list(range(n)), {"kind": rng.pick(["ens", "cat"]), "how": rng.randrange(2)})
            except Invalid:
                continue
        else:
            P.add_src(gen_source(rng, axes, dtype="f8"))
            grow(P, rng.pick([0, 0, 1]), BASIC)
        n0 = len(P.srcs)
        for _ in range(rng.pick([0, 1, 1, 2, 3])):
            k = len(P.nodes) - 1 if rng.chance(0.8) else rng.randrange(len(P.nodes))
            step(P, rng.pick(CATOPS), [k])
        if not any(nd["op"] in NEW for nd in P.nodes) or not all(nd["op"] == "src" or ok(P.nodes, P.vals, k) for k, nd in enumerate(P.nodes)) or not legal({"nodes": P.nodes, "srcs": P.srcs}):
            continue
        if rng.chance(0.35):
            for _ in range(rng.pick([1, 2])):
                nm = rng.pick(POST)
                if any(a["c"] in ("grp", "ens", "event", "offset", "yearless") for a in P.vals[-1].axes) and nm not in ("slice", "tr", "sc", "un"):
                    continue
                step(P, nm, [len(P.nodes) - 1] + [rng.randrange(len(P.nodes))] * (OPS[nm].nargs - 1))
        if legal({"nodes": P.nodes, "srcs": P.srcs}):
            break
    sc = {"srcs": P.srcs, "nodes": P.nodes, "reqs": [], "faults": {}}
    cand = [k for k in range(n0, len(P.nodes))]
    for _ in range(rng.randint(1, 4)):
        k = rng.pick(cand)
        sc["reqs"].append(gen_request(rng, P.vals[k], k))
    if faults and rng.chance(0.25):
        sc["faults"] = p01.gen_faults(rng)
    sc = prune(sc, [r["node"] for r in sc["reqs"]])
    if rng.chance(0.12) and len(axes) > 1:
        r = gen_misfit(rng, axes)
        if r:
            sc["misfit"] = r
    return sc


def gen_misfit(rng, axes):
    """Pieces that do not make up one array: another axis differs as well, or coordinates occur twice."""
    i, j = rng.sample(range(len(axes)), 2)
    n = len(axes[i]["v"])
    if n < 2:
        return None
    parts = ops_cat.segments(rng, n)
    if len(parts) < 2:
        return None
    pieces = [[M.axtake(axes[i], list(range(a, b))) if q == i else x for q, x in enumerate(axes)] for a, b in parts]
    r = {"seed": rng.randrange(1 << 30), "how": rng.randrange(4), "ax": i}
    m = rng.randrange(len(pieces)) if rng.chance(0.6) else None
    for q, p in enumerate(pieces):
        if m is None and q or q == m:
            o = p01.gen_refuse(rng, [axes[j]])
            if o is None:
                return None
            p[j] = o["b"][-1]
    r["pieces"] = pieces
    return r


def check_misfit(ctx, W, r):
    A = r["pieces"]
    if all(len(x["v"]) == len(y["v"]) and M.same(M.axcoord(x), M.axcoord(y)) for p in A[1:] for k, (x, y) in enumerate(zip(A[0], p)) if k != r["ax"]):
        raise Invalid("pieces fit")
    vs = [W.source({"axes": p, "seed": r["seed"] + k, "mode": "getview", "style": "normal"}, "m%d" % k) for k, p in enumerate(A)]
    W.plan.enabled = False
    try:
        got = ops_cat.cat(vs, r["ax"], r["how"]).get()
    except Exception as e:
        ctx.probe("misfit-refused")
        ctx.log("refused", type(e).__name__)
        return
    ctx.check(False, "misfitting-pieces-joined", "pieces on %s gave an array of shape %s" % (short(A), np.shape(got)))


def step(P, nm, args):
    try:
        j = P.try_op(nm, args)
    except (KeyError, ZeroDivisionError, IndexError):
        P.nodes[:] = P.nodes[:len(P.vals)]
        return None
    if j is not None and not ok(P.nodes, P.vals, j):
        P.nodes.pop(); P.vals.pop()
        return None
    return j


def ok(nodes, vals, k):
    nd = nodes[k]
    if vals[k].arr.size > 3000 or vals[k].arr.size == 0:
        return False
    if nd["op"] in NEW and any(vals[a].arr.dtype.kind != "f" for a in nd["a"]):
        return False
    if nd["op"] not in ("slice", "tr", "sc", "un") and any(b["c"] in ("grp", "ens", "event", "offset", "yearless") for a in nd["a"] for b in vals[a].axes):
        return False
    if nd["op"] in ("red",):
        if nd["p"]["f"] in ops_reduce.ARG or np.isinf(vals[nd["a"][0]].arr).any():
            return False
    if magnitude(vals, {"nodes": nodes}, k) > 1e8:
        return False
    if needs_exact(nd) and any(nodes[a]["op"] == "red" for a in nd["a"]):
        return False
    return True


def axes_check(ctx, var, la, what):
    ctx.check(len(var.axes) == len(la.axes), "wrong-axes", lambda: "%s: axes %s" % (what, [a.name for a in var.axes]))
    for ax, a in zip(var.axes, la.axes):
        if a["c"] == "grp":
            with ctx.sut("reading the time axis of " + what):
                grp_match(ctx, ax, a, what)
        elif a["c"] in CLS:
            ctx.check(type(ax).__name__ == CLS[a["c"]], "wrong-axes", lambda: "%s: %s, expected %s" % (what, type(ax).__name__, a["c"]))
            s = M._SEC[ax.units] / M._SEC[a["u"]] if a["c"] in ("yearless", "lag") else 1.0
            ctx.check(len(ax) == len(a["v"]) and np.allclose(np.asarray(ax.values, float) * s, a["v"], rtol=1e-9, atol=1e-9), "wrong-axes", lambda: "%s: %s has values %s, expected %s" % (what, ax.name, list(ax.values), a["v"]))
        else:
            class One(object):
                axes = (ax,)
            axes_match(ctx, One, LA([a], np.zeros(len(a["v"]))), what)


def cmp(sc, ctx, vals, k, got, want, what, idx):
    if want.dtype.kind == "b":
        return compare(ctx, got, want, what, rtol=0, atol=0)
    f4 = any(s.get("dtype") == "f4" for s in sc["srcs"])
    m = magnitude(vals, sc, k)
    if all(nd["op"] in NEW + ["src", "slice", "tr"] for nd in sc["nodes"]):
        return compare(ctx, got, want, what, rtol=0, atol=0)     # nothing is computed: exact
    tol = (1e-5 if f4 else 1e-9) * m
    if any(nd["op"] == "red" and ("var" in nd["p"]["f"] or "stdev" in nd["p"]["f"]) for nd in sc["nodes"]):
        tol = tol * max(m, 1.0) * (10 if f4 else 1)
    compare(ctx, got, want, what, rtol=1e-5 if f4 else 1e-8, atol=tol)


def execute(sc, ctx):
    vals = model_values(sc)
    if not legal(sc):
        raise Invalid("ill-posed")
    for k in range(len(vals)):
        if sc["nodes"][k]["op"] != "src" and not ok(sc["nodes"], vals, k):
            raise Invalid("ill-posed")
    W = world.World(ctx, sc.get("faults"))
    W.install_allocator()
    try:
        W.limit(1 << 22)
        pv = build_vars(sc, W, ctx)
        for k, nd in enumerate(sc["nodes"]):
            if nd["op"] == "src":
                continue
            axes_check(ctx, pv[k], vals[k], "node %d (%s)" % (k, nd["op"]))
            if nd["op"] in NEW:
                ctx.probe("op:" + nd["op"])
            if nd["op"] == "split" and nd["p"]["join"]:
                ctx.probe("joined")
            if nd["op"] == "comp" and np.isnan(vals[k].arr).any() and not np.isnan(vals[nd["a"][0]].arr).any():
                ctx.probe("event-truncated")
            if nd["op"] == "cat" and sorted(nd["p"]["parts"]) != nd["p"]["parts"]:
                ctx.probe("pieces-out-of-order")
        run_requests(sc, ctx, W, pv, vals, cmp=cmp)
        if sc.get("misfit"):
            W.limit(1 << 22)
            check_misfit(ctx, W, sc["misfit"])
    finally:
        W.uninstall()


def shrinks(sc):
    for c in expr_shrinks(sc):
        yield c
    if sc.get("misfit"):
        c = copy.deepcopy(sc)
        del c["misfit"]
        yield c
        for i in range(len(sc["misfit"]["pieces"])):
            if len(sc["misfit"]["pieces"]) > 2:
                c = copy.deepcopy(sc)
                del c["misfit"]["pieces"][i]
                yield c

