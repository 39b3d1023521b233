from props.exprbase import *
import props.p01 as p01
import ops_nbhd
from ops_nbhd import *
import ops_reduce

ID = "P06"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one case = a seeded program containing operations that look along an axis (smoothing, Fourier filter, derivatives, differences, integrals, cumulative sums, interpolation, lags), "
        "evaluated on seeded sub-regions under seeded memory limits, optionally with failing reads; non-trivial if a request read a lazy source; distinct by scenario")
STATE_MEASURE = "distinct (operation, sequence of index blocks read from the sources) pairs"
REAL = ["pygeode.smooth, fft_smooth, deriv, intgr, interp (with its C library and GSL), timeutils.lag, views and upstream operations"]
STUB = p01.STUB
ASSUMPTIONS = ["whole-array numpy definitions of each operation are the reference", "data under a transform contain no missing values (a transform spreads them)", "interpolation outputs within 1e-9 of the edge of the data are not judged"]
PROBES = ["chunked-request", "multi-read-request", "request-failed-on-fault", "retry-succeeded"] + ["op:" + n for n in NBHD]


def gen(rng, tier, faults=True):
    while True:
        P = Prog(rng)
        must = "lag" in NBHD and rng.chance(0.3) and rng.pick(list(M.TIME)) or None
        axes = gen_axes(rng, maxsize=rng.pick([40, 150, 400]), must=must, lens=[1, 2, 3, 4, 5, 6, 7, 9, 12])
        P.add_src(gen_source(rng, axes, dtype="f8"))
        if rng.chance(0.2):
            P.add_src(gen_source(rng, related_axes(rng, axes), dtype="f8"))
        grow(P, rng.pick([0, 0, 0, 1, 2]), BASIC)
        n0 = len(P.nodes)
        for _ in range(rng.pick([1, 1, 1, 2, 3])):
            k = len(P.nodes) - 1 if rng.chance(0.7) else rng.randrange(len(P.nodes))
            j = P.try_op(rng.pick(NBHD), [k])
            if j is not None and not ok_nbhd(P.nodes, P.vals, j):
                P.nodes.pop(); P.vals.pop()
        if len(P.nodes) == n0:
            continue
        if rng.chance(0.4):
            for _ in range(rng.pick([1, 2])):
                nm = rng.pick(["slice", "tr", "bin", "sc", "red"])
                a = [len(P.nodes) - 1] + [0] * (OPS[nm].nargs - 1)
                j = P.try_op(nm, a)
                if j is not None:
                    nd = P.nodes[j]
                    if (nd["op"] == "red" and nd["p"]["f"] in ops_reduce.ARG) or needs_exact(nd) or magnitude(P.vals, {"nodes": P.nodes}, j) > 1e6:
                        P.nodes.pop(); P.vals.pop()
        break
    sc = {"srcs": P.srcs, "nodes": P.nodes, "reqs": [], "faults": {}}
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(n0, len(P.nodes))
        sc["reqs"].append(gen_request(rng, P.vals[k], k))
    if faults and rng.chance(0.25):
        sc["faults"] = p01.gen_faults(rng)
    return prune(sc, [r["node"] for r in sc["reqs"]])


def ok_nbhd(nodes, vals, k):
    x = vals[nodes[k]["a"][0]].arr
    if x.dtype.kind != "f" or (x.size and np.isfinite(x).any() and np.abs(x[np.isfinite(x)]).max() > 1e4) or np.isinf(x).any():
        return False
    return vals[k].arr.size <= 3000


def legal6(sc, vals):
    for k, nd in enumerate(sc["nodes"]):
        if nd["op"] in NBHD and not ok_nbhd(sc["nodes"], vals, k):
            return False
        if nd["op"] == "red":
            if nd["p"]["f"] in ops_reduce.ARG:
                return False
        if needs_exact(nd) and any(uses_nbhd(sc["nodes"], a) for a in nd.get("a", [])):
            return False
    return True


def uses_nbhd(nodes, k):
    return nodes[k]["op"] in NBHD or any(uses_nbhd(nodes, a) for a in nodes[k].get("a", []))


def cmp(sc, ctx, vals, k, got, want, what, idx):
    m = magnitude(vals, sc, k)
    tol = 1e-8 * m
    if any(nd["op"] == "red" and ("var" in nd["p"]["f"] or "stdev" in nd["p"]["f"]) for nd in sc["nodes"]):
        tol = 1e-8 * m * m
    compare(ctx, got, want, what, rtol=1e-8, atol=tol)


def execute(sc, ctx):
    vals = model_values(sc)
    if not legal(sc) or not legal6(sc, vals):
        raise Invalid("ill-posed")
    W = world.World(ctx, sc.get("faults"))
    W.install_allocator()
    try:
        W.limit(1 << 22)
        pv = build_vars(sc, W, ctx)
        for k, nd in enumerate(sc["nodes"]):
            if nd["op"] != "src":
                axes_match(ctx, pv[k], vals[k], "node %d (%s)" % (k, nd["op"]))
            if nd["op"] in NBHD:
                ctx.probe("op:" + nd["op"])
        run_requests(sc, ctx, W, pv, vals, cmp=cmp)
    finally:
        W.uninstall()


shrinks = expr_shrinks
