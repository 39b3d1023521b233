from props.exprbase import *
import props.p01 as p01
from ops_time import *

ID = "P03"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("one case = a seeded time axis (calendar, gaps, order, reference date, units), a program of calendar aggregations, anomalies and trends over simulated sources, and requests each "
        "under its own memory limit, optionally with failing reads; non-trivial if a request read a lazy source; distinct by scenario")
STATE_MEASURE = "distinct (operation, sequence of index blocks read from the sources) pairs"
REAL = ["pygeode.climat, timeutils, timeaxis (with its C library), tools.partial_sum, views"]
STUB = p01.STUB
ASSUMPTIONS = ["grouping by calendar fields computed independently of pygeode's calendar code is the reference", "seasons on the standard calendar are only tested away from the days that a leap year shifts (documented limitation)"]
PROBES = ["chunked-request", "multi-read-request", "request-failed-on-fault", "singleton-group", "several-groups"]


def gen(rng, tier, faults=True):
    while True:
        P = Prog(rng)
        t = gen_time(rng)
        axes = [t]
        for c in rng.sample(["lat", "lon", "pres", "nam:x"], rng.randrange(3)):
            axes.append(gen_axis(rng, c.split(":")[0], rng.randint(1, 4), c.split(":")[1] if ":" in c else None))
        rng.shuffle(axes)
        f4 = rng.chance(0.15)
        isint = not f4 and rng.chance(0.1)
        P.add_src(gen_source(rng, axes, **{"dtype": rng.pick(["i1", "u1", "i2", "i4"]), "style": "cnt", "nan": 0}) if isint else gen_source(rng, axes, dtype="f4" if f4 else "f8", **({"style": "flat"} if rng.chance(0.1) else {})))
        for _ in range(rng.pick([0, 0, 1, 2])):
            P.try_op(rng.pick(["slice", "tr", "ext", "sort"] + ([] if isint else ["sc"])), [len(P.nodes) - 1])
            if P.vals[-1].arr.size > 1500 or P.vals[-1].arr.dtype.kind not in "fiu":
                P.nodes.pop(); P.vals.pop()
        base = len(P.nodes) - 1
        n0 = len(P.nodes)
        for _ in range(rng.pick([1, 1, 2])):
            P.try_op(rng.pick(["agg"] * 5 + ["anom", "detrend", "trend"]), [base])
            if f4 and len(P.nodes) > n0 and P.nodes[-1]["op"] in ("detrend", "trend"):
                P.nodes.pop(); P.vals.pop()
        if len(P.nodes) == n0:
            continue
        for _ in range(rng.pick([0, 0, 1])):
            P.try_op(rng.pick(["slice", "tr"]), [rng.randrange(n0, len(P.nodes))])
        break
    sc = {"srcs": P.srcs, "nodes": P.nodes, "reqs": [], "faults": {}}
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(n0, len(P.nodes))
        sc["reqs"].append(gen_request(rng, P.vals[k], k))
    if faults and rng.chance(0.25):
        sc["faults"] = p01.gen_faults(rng)
    return prune(sc, [r["node"] for r in sc["reqs"]])


def grp_match(ctx, ax, a, what):
    import pygeode
    for i, f in enumerate(a["f"]):
        got = ax.auxarrays.get(f)
        ctx.check(got is not None and [int(x) for x in got] == [int(t[i]) for t in a["t"]], "wrong-axes",
                  lambda: "%s: field %s is %s, expected %s" % (what, f, None if got is None else list(got), [t[i] for t in a["t"]]))
    extra = set(ax.auxarrays) - set(a["f"])
    ctx.check(not extra, "wrong-axes", lambda: "%s: unexpected fields %s" % (what, extra))


def axes_check(ctx, var, la, what):
    ctx.check(len(var.axes) == len(la.axes), "wrong-axes", lambda: "%s: axes %s" % (what, [a.name for a in var.axes]))
    for i, (ax, a) in enumerate(zip(var.axes, la.axes)):
        if a["c"] == "grp":
            with ctx.sut("reading the time axis of " + what):
                grp_match(ctx, ax, a, what)
        elif a["c"] == "coef":
            ctx.check([int(v) for v in ax.values] == list(a["v"]), "wrong-axes", what)
        else:
            sub = LA([a], np.zeros(len(a["v"])))

            class One(object):
                axes = (ax,)
            axes_match(ctx, One, sub, what)


def chain(nodes, k):
    out = []
    while nodes[k]["op"] != "src":
        out.append(nodes[k])
        k = nodes[k]["a"][0]
    return out


def cmp(sc, ctx, vals, k, got, want, what, idx):
    f4 = any(s.get("dtype") == "f4" for s in sc["srcs"])
    ops = chain(sc["nodes"], k)
    m = magnitude(vals, sc, k)
    tol = (1e-5 if f4 else 1e-9) * m
    if any(nd["op"] == "agg" and "stdev" in nd["p"]["s"] for nd in ops):
        # single-member groups have no deviation: anything goes there
        compare_mask = ~np.isnan(want)
        g, w = np.asarray(got, float), np.asarray(want, float)
        ctx.check(g.shape == w.shape, "wrong-shape", lambda: "%s: %s vs %s" % (what, g.shape, w.shape))
        if any(nd["op"] == "agg" and nd["p"]["s"] == "stdev" for nd in ops):
            nm = nan_expected(sc, vals, k, idx)
            if nm is not None:
                ctx.check(bool(np.all(np.isnan(g[nm]))), "wrong-value", what + ": a missing value was ignored")
        g, w = np.where(compare_mask, g, 0.0), np.where(compare_mask, w, 0.0)
        compare(ctx, g ** 2, w ** 2, what, rtol=1e-6, atol=(2e-4 if f4 else 1e-9) * m * m)
        return
    if any(nd["op"] in ("trend", "detrend") for nd in ops):
        la = vals[k]
        tr = [nd for nd in ops if nd["op"] in ("trend", "detrend")][0]
        base = vals[tr["a"][0]]
        a = base.axes[tindex(base)]
        u, g = groups("clim", a)
        secs = np.array(M.axcoord(a)) - M.to_days(a["c"], a["y"], a["m"], a["d"]) * 86400.0
        worst = max(float(np.mean(secs[np.array(g) == i] ** 2) / max(np.var(secs[np.array(g) == i]), 1.0)) for i in range(len(u)))
        if worst > 1e5:
            raise Invalid("ill-conditioned fit")
        tol = 1e-11 * m * max(10.0, worst)
        if tr["op"] == "trend":      # slope and intercept have very different sizes
            ci = [i for i, x in enumerate(la.axes) if x["c"] == "coef"][0]
            cv = [la.axes[ci]["v"][i] for i in idx[ci]] if idx is not None else la.axes[ci]["v"]
            if got.ndim != len(la.axes):
                if len(set(cv)) != 1:
                    raise Invalid("dropped")
                s = cv[0]
                compare(ctx, got, want, what, rtol=1e-6, atol=tol / (np.sqrt(np.mean(secs ** 2)) if s == 1 else 1.0) * 10)
                return
            for j, c in enumerate(cv):
                scale = max(float(np.sqrt(np.mean(secs ** 2))), 1.0) if c == 1 else 1.0
                compare(ctx, np.take(got, [j], axis=ci), np.take(want, [j], axis=ci), what + " coefficient %d" % c, rtol=1e-6, atol=10 * tol / scale)
            return
        tol *= 20
    compare(ctx, got, want, what, rtol=1e-9, atol=tol)


def nan_expected(sc, vals, k, idx):
    return None


def execute(sc, ctx):
    vals = model_values(sc)
    if not legal(sc):
        raise Invalid("ill-posed")
    W = world.World(ctx, sc.get("faults"))
    W.install_allocator()
    try:
        W.limit(1 << 22)
        pv = build_vars(sc, W, ctx)
        for k, nd in enumerate(sc["nodes"]):
            if nd["op"] != "src":
                axes_check(ctx, pv[k], vals[k], "node %d (%s)" % (k, nd["op"]))
            if nd["op"] == "agg":
                b = vals[nd["a"][0]]
                u, g = groups(nd["p"]["k"], b.axes[tindex(b)])
                ctx.probe("several-groups" if len(u) > 1 else "one-group")
                if min(g.count(i) for i in range(len(u))) == 1:
                    ctx.probe("singleton-group")
        run_requests(sc, ctx, W, pv, vals, cmp=cmp)
    finally:
        W.uninstall()


shrinks = expr_shrinks
