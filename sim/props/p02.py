from props.exprbase import *
import props.p01 as p01
import ops_reduce
from ops_reduce import *

ID = "P02"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("one case = a seeded program ending in reductions, requests of sub-regions of their results, each under its own memory limit (hence its own chunk schedule), "
        "and optionally failing reads; non-trivial if a request read a lazy source; distinct by scenario")
STATE_MEASURE = "distinct (operation, sequence of index blocks read from the sources) pairs"
REAL = ["pygeode.reduce, tools.loopover, views, axis weights, upstream operations"]
STUB = p01.STUB
ASSUMPTIONS = ["textbook definitions computed on the whole array by numpy in double precision are the reference; single-pass formulas may lose digits proportionally to the squared magnitude"]
PROBES = ["chunked-reduction", "request-failed-on-fault", "whole-domain", "weighted", "nan-input", "integer-input"]


def gen(rng, tier, faults=True):
    while True:
        P = Prog(rng)
        axes = gen_axes(rng, maxsize=rng.pick([40, 150, 500]))
        f4 = rng.chance(0.15)
        kw = {"dtype": "f4"} if f4 else {"dtype": "f8"}
        if not f4 and rng.chance(0.12):      # integer data
            kw = {"dtype": rng.pick(["i1", "u1", "i2", "i4", "i8", "u2"]), "style": "cnt", "nan": 0}
            f4 = True
        P.add_src(gen_source(rng, axes, **kw))
        pre = rng.pick([0, 0, 1, 2])
        if pre:
            if not f4 and rng.chance(0.4):
                P.add_src(gen_source(rng, related_axes(rng, axes), dtype="f8"))
            grow(P, pre, RESHAPE if f4 else BASIC)
        n0 = len(P.nodes)
        for _ in range(rng.pick([1, 1, 1, 2, 3])):
            k = len(P.nodes) - 1 if rng.chance(0.6) else rng.randrange(len(P.nodes))
            if P.nodes[k]["op"] == "red" and P.nodes[k]["p"]["f"] in ARG:
                continue
            P.try_op("red" if f4 or rng.chance(0.9) else "msel", [k])
            if not ok_node(P):
                P.nodes.pop(); P.vals.pop()
        if len(P.nodes) == n0:
            continue
        post = rng.pick([0, 0, 1, 2])
        if post and P.nodes[-1]["op"] in ("red", "msel"):
            isarg = P.nodes[-1]["p"].get("f") in ARG
            grow_from(P, post, RESHAPE if (isarg or f4) else RESHAPE + ["un", "sc", "bin"], n0)
        break
    sc = {"srcs": P.srcs, "nodes": P.nodes, "reqs": [], "faults": {}, "blimit": gen_limit(rng, 200)}
    for _ in range(rng.randint(1, 4)):
        k = len(P.nodes) - 1 if rng.chance(0.6) else rng.randrange(n0, len(P.nodes))
        sc["reqs"].append(gen_request(rng, P.vals[k], k))
    if rng.chance(0.3):
        k = rng.randrange(len(P.nodes))
        if P.vals[k].arr.dtype.kind == "f" and P.vals[k].axes:
            f = rng.pick([f for f in RED if f not in ARG])
            r = {"node": k, "kind": "scalar", "f": f, "w": gen_weights(rng, f, P.vals[k], list(range(len(P.vals[k].axes)))), "limit": gen_limit(rng, P.vals[k].arr.size)}
            try:
                scalar_model(r, P.vals[k])
                sc["reqs"].append(r)
            except Invalid:
                pass
    if faults and rng.chance(0.25):
        sc["faults"] = p01.gen_faults(rng)
    return prune(sc, [r["node"] for r in sc["reqs"]])


def ok_node(P):
    nd = P.nodes[-1]
    if nd["op"] != "red":
        return True
    return legal_reduce(P.nodes, len(P.nodes) - 1, P.srcs, P.vals)


def legal_reduce(nodes, k, srcs, vals):
    nd = nodes[k]
    f = nd["p"]["f"]
    if f in ARG:
        if not all(node_exact(nodes, a, srcs) for a in nd["a"]):
            return False
    x = vals[nd["a"][0]].arr
    if x.dtype.kind not in "fiu":
        return False
    if f not in ("min", "max", "nanmin", "nanmax", "argmin", "argmax") and np.isinf(x).any():
        return False
    if x.size and np.isfinite(x).any() and np.abs(x[np.isfinite(x)]).max() > 1e5:
        return False
    return True


def grow_from(P, n, ops, n0):
    """Grow only on top of the last node."""
    for _ in range(n):
        nm = P.rng.pick(ops)
        o = OPS[nm]
        args = [len(P.nodes) - 1] + [P.rng.randrange(len(P.srcs)) for _ in range(o.nargs - 1)]
        if o.nargs == 2 and P.rng.chance(0.5):
            args = args[::-1]
        k = P.try_op(nm, args)
        if k is None:
            continue
        nd = P.nodes[k]
        if (needs_exact(nd) and not all(node_exact(P.nodes, a, P.srcs) for a in nd["a"])) or P.vals[k].arr.size > 1500 or magnitude(P.vals, {"nodes": P.nodes}, k) > 1e6:
            P.nodes.pop(); P.vals.pop()


def scalar_model(r, la):
    idx = list(range(len(la.axes)))
    if la.arr.dtype.kind != "f" or np.isinf(la.arr).any() and r["f"] not in ("min", "max", "nanmin", "nanmax"):
        raise Invalid("scalar")
    if la.arr.size and np.isfinite(la.arr).any() and np.abs(la.arr[np.isfinite(la.arr)]).max() > 1e5:
        raise Invalid("scalar")
    return np.asarray(reduce_model(r["f"], la.arr, idx, weights_of(r, la, idx)))


def scalar_do(r, var, la, ctx):
    ctx.probe("whole-domain")
    kw = real_weights(r, scalar_do.W)
    got = getattr(var, r["f"])(**kw)
    ctx.check(np.ndim(got) == 0 and not hasattr(got, "axes"), "wrong-shape", lambda: "whole-domain %s returned %r" % (r["f"], type(got)))
    return np.asarray(got)


gen_mod = __import__("gen")
gen_mod.REQ_MODEL["scalar"] = scalar_model
gen_mod.REQ_DO["scalar"] = scalar_do


def cmp(sc, ctx, vals, k, got, want, what, idx):
    if want.dtype.kind in "iu":
        compare(ctx, got, want, what, rtol=0, atol=0)
        return
    f4 = any(s.get("dtype") == "f4" for s in sc["srcs"])
    m = magnitude(vals, sc, k)
    sq = any(nd["op"] == "red" and ("var" in nd["p"]["f"] or "stdev" in nd["p"]["f"]) for nd in sc["nodes"]) or any("f" in r and ("var" in r["f"] or "stdev" in r["f"]) for r in sc["reqs"])
    if sq:
        # single-pass formula: error relative to the squared magnitude, amplified at most 100x by a square root of 1e-4
        tol = (2e-4 if f4 else 1e-9) * m * m
    else:
        tol = (3e-5 if f4 else 1e-9) * m
    compare(ctx, got, want, what, rtol=1e-9 if not f4 else 1e-5, atol=tol)


def execute(sc, ctx):
    vals = model_values(sc)
    if not legal(sc):
        raise Invalid("ill-posed")
    for k, nd in enumerate(sc["nodes"]):
        if nd["op"] == "red":
            if not legal_reduce(sc["nodes"], k, sc["srcs"], vals):
                raise Invalid("ill-posed reduction")
            if isinstance(nd["p"].get("w"), dict):
                ctx.probe("weighted")
    if any(s.get("nan") for s in sc["srcs"]):
        ctx.probe("nan-input")
    if any(s.get("dtype", "f8")[0] in "iu" for s in sc["srcs"]):
        ctx.probe("integer-input")
    W = world.World(ctx, sc.get("faults"))
    W.install_allocator()
    scalar_do.W = W
    try:
        W.limit(sc.get("blimit", 1 << 22))
        pv = build_vars(sc, W, ctx)
        for k, nd in enumerate(sc["nodes"]):
            if nd["op"] != "src":
                axes_match(ctx, pv[k], vals[k], "node %d (%s)" % (k, nd["op"]))

        def after(j, r, var, la, got, want, idx, reads):
            if sc["nodes"][r["node"]]["op"] in ("red", "msel") and len(reads) > 1:
                ctx.probe("chunked-reduction")
        run_requests(sc, ctx, W, pv, vals, cmp=cmp, after=after)
    finally:
        W.uninstall()


shrinks = expr_shrinks
