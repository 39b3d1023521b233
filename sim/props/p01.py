from props.exprbase import *

ID = "P01"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("one case = a seeded expression DAG over simulated sources, a sequence of region requests each under its own memory limit, and optionally "
        "failing reads; non-trivial if at least one request read from a lazy source; distinct by scenario")
STATE_MEASURE = "distinct (operation, sequence of index blocks read from the sources) pairs"
REAL = ["all of pygeode (views, operations, axis matching, compiled helpers)", "numpy"]
STUB = ["data sources (simulated lazy variables)", "memory limit", "contents of uninitialised memory", "read failures"]
ASSUMPTIONS = ["numpy's own elementwise functions are the reference", "an operation on axes that overlap only partly must be refused (no value is right)"]
PROBES = ["chunked-request", "multi-read-request", "request-failed-on-fault", "aligned-operands", "mismatch-refused"]


def gen(rng, tier, ops=BASIC, nops=None, faults=True):
    while True:
        P = Prog(rng)
        axes = gen_axes(rng, maxsize=rng.pick([60, 200, 500]))
        f4 = rng.chance(0.1)
        kw = {"dtype": "f4", "style": "grid"} if f4 else {}
        P.add_src(gen_source(rng, axes, **kw))
        for _ in range(rng.pick([0, 1, 1, 2])):
            P.add_src(gen_source(rng, related_axes(rng, axes), **kw))
        if f4:
            ops = ["slice", "tr", "sort", "ext", "sel", "sq", "clip"]
        else:
            for s in P.srcs:
                s.pop("dtype", None)
            for k, s in enumerate(P.srcs):
                P.vals[k] = LA(s["axes"], world.mkdata(s))
        grow(P, nops or rng.randint(1, 7), ops)
        if len(P.nodes) > len(P.srcs):
            break
    sc = {"srcs": P.srcs, "nodes": P.nodes, "reqs": [], "faults": {}}
    sc["reqs"] = make_requests(rng, P)
    if faults and rng.chance(0.25):
        sc["faults"] = gen_faults(rng)
    sc = prune(sc, [r["node"] for r in sc["reqs"]])
    if rng.chance(0.15):
        r = gen_refuse(rng, axes)
        if r:
            sc["refuse"] = r
    return sc


def gen_refuse(rng, axes):
    """Two operands whose shared axis matches only in part, or not at all."""
    i = rng.randrange(len(axes))
    a = axes[i]
    v = sorted(set(a["v"]))
    big = max([abs(x) for x in v] + [1.0])
    step = min([y - x for x, y in zip(v, v[1:])] or [1.0])
    d = round(0.3 * step, 4)
    if d < 1e-3 * big or any(x > 1e8 for x in M.axcoord(a)) and d * M._SEC.get(a.get("u", "days"), 1) < 60:
        return None
    how = rng.randrange(3)
    w = list(a["v"])
    if how == 0:                       # one coordinate differs
        k = rng.randrange(len(w))
        w[k] += d
    elif how == 1:                     # all do
        w = [x + d for x in w]
    else:                              # one lost, one gained
        k = rng.randrange(len(w))
        w = [x for j, x in enumerate(w) if j != k]
        w.insert(rng.randrange(len(w) + 1), v[-1] + step if rng.chance(0.5) or len(v) < 2 else v[0] + d)
    b = dict(a, v=w)
    b.pop("w", None)
    if a["c"] == "lat" and max(w) > 90 or common_any(a, b):
        return None
    others = [x for j, x in enumerate(axes) if j != i and rng.chance(0.6)]
    o2 = [x for x in others if rng.chance(0.7)]
    rng.shuffle(o2)
    return {"a": others[:1] + [a] + others[1:], "b": o2 + [b], "op": rng.pick(["add", "sub", "mul", "lt", "maximum"]), "swap": rng.chance(0.5), "seed": rng.randrange(1 << 30)}


def common_any(a, b):
    return M.common(M.axcoord(a), M.axcoord(b)) is not None or M.common(M.axcoord(b), M.axcoord(a)) is not None


def check_refuse(ctx, W, r):
    import pygeode
    if all(M.axkey(x) != M.axkey(r["b"][-1]) or common_any(x, r["b"][-1]) for x in r["a"]):
        raise Invalid("operands match")
    x = W.source({"axes": r["a"], "seed": r["seed"], "mode": "getview", "style": "normal"}, "ra")
    y = W.source({"axes": r["b"], "seed": r["seed"] + 1, "mode": "values", "style": "normal"}, "rb")
    if r["swap"]:
        x, y = y, x
    W.plan.enabled = False
    try:
        z = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "lt": lambda: x < y, "maximum": lambda: pygeode.maximum(x, y)}[r["op"]]()
        got = z.get()
    except Exception as e:
        ctx.probe("mismatch-refused")
        ctx.log("refused", type(e).__name__)
        return
    ctx.check(False, "mismatched-operands-combined", "%s of operands on %s and %s gave values of shape %s" % (r["op"], short(r["a"]), short(r["b"]), np.shape(got)))


def make_requests(rng, P, kmin=None):
    reqs = []
    last = len(P.nodes) - 1
    for _ in range(rng.randint(1, 5)):
        k = last if rng.chance(0.7) else rng.randrange(kmin if kmin is not None else len(P.srcs), last + 1)
        reqs.append(gen_request(rng, P.vals[k], k))
    return reqs


def gen_faults(rng):
    f = {}
    for _ in range(rng.pick([1, 1, 2])):
        f[str(int(rng.expovariate(0.25)))] = rng.pick(sorted(world.FAULTS))
    return f


def execute(sc, ctx):
    vals = model_values(sc)
    if not legal(sc):
        raise Invalid("ill-posed")
    W = world.World(ctx, sc.get("faults"))
    W.install_allocator()
    try:
        W.limit(1 << 22)
        pv = build_vars(sc, W, ctx)
        for k, nd in enumerate(sc["nodes"]):
            if nd["op"] != "src":
                axes_match(ctx, pv[k], vals[k], "node %d (%s)" % (k, nd["op"]))
            if nd["op"] in ("bin", "multi"):
                ctx.probe("aligned-operands")
        run_requests(sc, ctx, W, pv, vals)
        if sc.get("refuse"):
            W.limit(1 << 22)
            check_refuse(ctx, W, sc["refuse"])
    finally:
        W.uninstall()


def shrinks(sc):
    for c in expr_shrinks(sc):
        yield c
    if sc.get("refuse"):
        c = copy.deepcopy(sc)
        del c["refuse"]
        yield c
        for k in ("a", "b"):
            for i in range(len(sc["refuse"][k]) - (k == "b")):
                c = copy.deepcopy(sc)
                del c["refuse"][k][i]
                yield c

