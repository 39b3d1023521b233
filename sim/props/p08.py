from props.mixed import *
import props.p01 as p01
import props.p02 as p02
import props.p03 as p03
import props.p04 as p04
from ops_reduce import ARG

ID = "P08"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("one case = either a seeded elementwise/reshaping program with seeded requests, where every read of every source (index lists recorded by the simulator) must stay within the coordinates the region depends on, "
        "or a seeded reduction, calendar aggregation or statistic under a seeded memory limit, where no read may exceed the limit; building the expression must read nothing; "
        "non-trivial if a lazy source was read; distinct by scenario")
STATE_MEASURE = "distinct (operation, sequence of index blocks read from the sources) pairs"
REAL = ["views, expressions, reductions, calendar aggregations, statistics"]
STUB = p01.STUB
ASSUMPTIONS = ["dependence is decided structurally (elementwise operations depend on all their operands), by propagating marks through the reference model"]
PROBES = ["elementwise", "restricted-read", "reduction", "limit-binding", "statistic", "preserved-axis"]

SAME = ("un", "sc", "clip", "fill", "cast")


def gen(rng, tier):
    x = rng.random()
    if x < 0.5:
        while True:
            sc = p01.gen(rng, tier, faults=False)
            if any(s["mode"] != "values" for s in sc["srcs"]):
                break
        for s in sc["srcs"]:
            if s["mode"] == "values" and rng.chance(0.7):
                s["mode"] = "getview"
        return {"kind": "elem", "sc": sc}
    if x < 0.9:
        while True:
            base = rng.pick([p02, p02, p03])
            sc = base.gen(rng, tier, False)
            red = [k for k, nd in enumerate(sc["nodes"]) if nd["op"] in ("red", "msel", "agg", "trend")]
            if not red:
                continue
            for r in sc["reqs"]:
                if r["kind"] != "scalar" and r["node"] not in red:
                    k = rng.pick(red)
                    r.clear()
                    r.update(gen_request(rng, LA(*shape_of(sc, k)), k))
                    if r["kind"] == "call_i":
                        r["kind"] = "get"; r.pop("ix")
            break
        for s in sc["srcs"]:
            if s["mode"] == "values":
                s["mode"] = "getview"
        sc = prune(sc, [r["node"] for r in sc["reqs"]])
        return {"kind": "red", "sc": sc}
    sc = p04.gen(rng, tier, False)
    sc["faults"] = {}
    for s in sc["srcs"]:
        if s["mode"] == "values":
            s["mode"] = "getview"
    return {"kind": "stat", "sc": sc}


def shape_of(sc, k):
    la = model_values(sc)[k]
    return la.axes, la.arr


def taint(sc, upto, marks):
    """which elements of each node depend on a marked element of a source"""
    out = []
    with np.errstate(all="ignore"):
        for k, nd in enumerate(sc["nodes"][:upto + 1]):
            if nd["op"] == "src":
                s = sc["srcs"][nd["i"]]
                out.append(LA(s["axes"], marks[nd["i"]]))
            elif nd["op"] in SAME:
                out.append(out[nd["a"][0]])
            elif nd["op"] in ("bin", "multi"):
                las = [out[a] for a in nd["a"]]
                ax = M.aligned_axes(las)
                m = 0.0
                for l in las:
                    m = m + M.conform(l, ax)
                out.append(LA(ax, np.broadcast_to(m, tuple(len(a["v"]) for a in ax))))
            else:
                out.append(OPS[nd["op"]].model(nd["p"], [out[a] for a in nd["a"]]))
    return out[upto]


def needed(sc, r):
    """source -> per axis, the indices the requested region depends on"""
    res = {}
    shapes = [tuple(len(a["v"]) for a in s["axes"]) for s in sc["srcs"]]
    for i, sh in enumerate(shapes):
        per = []
        for ax, n in enumerate(sh):
            ok = set()
            for j in range(n):
                marks = [np.zeros(x) for x in shapes]
                sl = [slice(None)] * len(sh)
                sl[ax] = j
                marks[i][tuple(sl)] = 1.0
                t = taint(sc, r["node"], marks)
                if np.any(expected_request(r, t)[0] != 0):
                    ok.add(j)
            per.append(ok)
        res["s%d" % i] = per
    return res


def built(sc, W, ctx):
    pv = build_vars(sc, W, ctx)
    ctx.check(not W.reads, "read-while-building", lambda: "building the expression read %s" % (W.reads[:3],))
    return pv


def execute(sc0, ctx):
    sc = sc0["sc"]
    W = world.World(ctx)
    if sc0["kind"] == "stat":
        over = []

        def on_read(w, name, idx, n):
            if n > w.cur_limit:
                over.append("%s was asked for %d values at once, the limit is %d" % (name, n, w.cur_limit))
        world.World.on_read = on_read
        ctx.probe("statistic")
        try:
            p04.execute(sc, ctx)
        finally:
            world.World.on_read = None
        ctx.check(not over, "request-exceeds-limit", lambda: over[0])
        return
    vals = model_values(sc)
    W.install_allocator()
    try:
        W.limit(1 << 22)
        if "blimit" in sc:
            W.limit(sc["blimit"])
            p02.scalar_do.W = W
        try:
            pv = build_vars(sc, W, ctx)
        except Violation as v:
            raise Invalid("not buildable: " + v.detail[:200])
        lazy = all(s["mode"] != "values" for s in sc["srcs"])
        # (a reduction of in-memory variables, or of a variable without axes, is evaluated at once)
        if sc0["kind"] == "elem" or (lazy and not any(nd["op"] in ("red", "msel") and not vals[nd["a"][0]].axes for nd in sc["nodes"])):
            if not (sc0["kind"] == "red" and any(nd["op"] in ("red",) and eager(sc, vals, nd) for nd in sc["nodes"])):
                ctx.check(not W.reads, "read-while-building", lambda: "building the expression read %s" % (W.reads[:3],))
        for j, r in enumerate(sc["reqs"]):
            k, la = r["node"], vals[r["node"]]
            if la is None:
                raise Invalid("node")
            op = sc["nodes"][k]["op"]
            what = "request %d (%s of node %d %s)" % (j, r["kind"], k, op)
            if sc0["kind"] == "elem":
                need = needed(sc, r)
            expected_request(r, la)
            W.limit(r["limit"])
            n0 = len(W.reads)
            try:
                do_request(r, pv[k], la, ctx)
            except Violation:
                raise
            except Exception as e:
                raise Invalid("the request fails: %r" % (e,))
            reads = W.reads[n0:]
            if reads:
                ctx.trivial = False
            ctx.log("req", j, r["kind"], op, len(reads))
            ctx.state(op, tuple((s, tuple((len(i), i[0] if len(i) else None) for i in ix)) for s, ix, n in reads[:40]))
            if sc0["kind"] == "elem":
                ctx.probe("elementwise")
                empty = expected_request(r, la)[0].size == 0
                for name, ix, n in reads:
                    per = need[name]
                    if any(len(p) < len(s["v"]) for p, s in zip(per, sc["srcs"][int(name[1:])]["axes"])):
                        ctx.probe("restricted-read")
                    for a, (i, p) in enumerate(zip(ix, per)):
                        extra = sorted(set(int(x) for x in i) - p)
                        ctx.check(not extra or empty, "read-more-than-needed", lambda: "%s read indices %s along axis %d of %s, which the region does not depend on (it depends on %s)" % (what, extra, a, name, sorted(p)))
            else:
                ctx.probe("reduction")
                cap = r["limit"]
                for nd in sc["nodes"]:
                    if nd["op"] == "red" and nd["p"]["f"] in ARG:      # keeps its axis whole
                        m = max(len(vals[nd["a"][0]].axes[x]["v"]) for x in range(len(vals[nd["a"][0]].axes)))
                        if m > cap:
                            cap = m
                            ctx.probe("preserved-axis")
                for name, ix, n in reads:
                    if len(reads) > 1:
                        ctx.probe("limit-binding")
                    ctx.check(n <= cap, "request-exceeds-limit", lambda: "%s asked %s for %d values at once (limit %d)" % (what, name, n, r["limit"]))
    finally:
        W.uninstall()


def eager(sc, vals, nd):
    """a whole-domain reduction is evaluated when it is written down"""
    p = nd["p"]
    return len(p.get("ax", [])) == 0 or len(p["ax"]) == len(vals[nd["a"][0]].axes)


def shrinks(sc):
    b = p04.shrinks(sc["sc"]) if sc["kind"] == "stat" else expr_shrinks(sc["sc"])
    for c in b:
        yield {"kind": sc["kind"], "sc": c}
