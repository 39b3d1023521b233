from props.mixed import *
import props.p01 as p01
import props.p04 as p04
import props.p05 as p05

ID = "P16"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 50000}
RULE = ("one case = a seeded program with shared sub-expressions over sources that hand out their arrays by reference, and a seeded history of evaluations (repeats, other nodes, other regions and memory limits, "
        "failed reads); every evaluation is compared with a freshly built copy evaluated once, every array returned earlier and every input is compared with its snapshot after every step; "
        "non-trivial if a lazy source was read; distinct by scenario")
STATE_MEASURE = "distinct (operation evaluated, operation evaluated before it, sizes of the reads) tuples"
REAL = ["all operations, views, reductions, calendar statistics"]
STUB = p01.STUB
ASSUMPTIONS = ["a freshly built expression evaluated once is the reference"]
PROBES = ["repeated-request", "by-reference-source", "in-memory-source", "after-failed-evaluation", "kept-arrays"]


def gen(rng, tier):
    x = rng.random()
    if x < 0.1:          # analyses that evaluate at once: inputs handed out by reference
        b = p04 if x < 0.06 else p05
        sc = b.gen(rng, tier, False)
        for s in sc["srcs"]:
            s["alias"] = True
            s["mode"] = rng.pick(["getview", "values"])
        for k in ("reqs", "runs"):
            if k in sc:
                sc[k] = sc[k] + sc[k]
        return {"base": b.ID, "sc": sc}
    P = gen_program(rng)
    for s in P.srcs:
        s["alias"] = rng.chance(0.8)
        s["mode"] = rng.pick(["getview", "getview", "getvalues", "values", "values"])
    pool = gen_reqs(rng, P, rng.randint(1, 4))
    hist = []
    for _ in range(rng.randint(2, 8)):
        e = dict(rng.pick(pool))
        if rng.chance(0.15):
            e["flt"] = [rng.randrange(8), rng.pick(sorted(world.FAULTS))]
        hist.append(e)
    sc = {"srcs": P.srcs, "nodes": P.nodes, "reqs": hist}
    return prune(sc, [r["node"] for r in hist])


def snap_axis(a):
    out = [a.name, type(a).__name__, np.array(a.values).tobytes(), repr(sorted(a.atts.items())), repr(sorted(a.plotatts.items(), key=str)), repr(getattr(a, "units", None))]
    for k in sorted(a.auxarrays):
        out.append((k, np.array(a.auxarrays[k]).tobytes()))
    for k in sorted(a.auxatts):
        if k != "weights":
            out.append((k, repr(a.auxatts[k])))
    return out


def snap(v):
    return [v.name, repr(sorted(v.atts.items(), key=str)), repr(sorted(v.plotatts.items(), key=str)), v.shape, str(v.dtype)] + [snap_axis(a) for a in v.axes]


def key(r):
    import json
    return json.dumps([r["node"], r["kind"], r.get("sl"), r.get("ix"), r["limit"]], sort_keys=True)


def execute(sc, ctx):
    if "base" in sc:
        {"P04": p04, "P05": p05}[sc["base"]].execute(sc["sc"], ctx)
        return
    vals = model_values(sc)
    W = world.World(ctx)
    W.install_allocator()
    try:
        W.limit(1 << 22)
        try:
            pv = build_vars(sc, W, ctx)
        except Violation as v:
            raise Invalid("not buildable: " + v.detail[:300])
        fresh_sources = []
        for s, (v, _) in zip(sc["srcs"], W.sources):
            ctx.probe("in-memory-source" if s["mode"] == "values" else "by-reference-source" if s.get("alias") else "copying-source")
            fw = world.World(ctx)
            fv = fw.source(s, v.simname)
            ctx.check(snap(v) == snap(fv), "input-modified", lambda: "building the expression changed %s: %s, originally %s" % (v.simname, diff(snap(v), snap(fv))[0], diff(snap(v), snap(fv))[1]))
            fresh_sources.append(fv)
        before = [snap(v) for v in pv]
        seen, kept, prev, failed = set(), [], None, False
        for j, r in enumerate(sc["reqs"]):
            k = r["node"]
            op = sc["nodes"][k]["op"]
            what = "step %d (%s of node %d %s)" % (j, r["kind"], k, op)
            # the reference: built afresh, evaluated once
            F = world.World(ctx)
            F.limit(1 << 22)
            fv = build_vars(sc, F, ctx)
            F.limit(r["limit"])
            try:
                want = np.array(do_request(r, fv[k], vals[k], ctx), copy=True)
            except (Violation, Invalid, HarnessError):
                raise
            except Exception as e:
                raise Invalid("a fresh evaluation fails: %r" % (e,))
            if r.get("flt") and F.plan.n:
                W.plan.faults = {W.plan.n + r["flt"][0] % F.plan.n: r["flt"][1]}
                try:
                    do_request(r, pv[k], vals[k], ctx)
                except BaseException as e:
                    if isinstance(e, (Violation, Invalid, HarnessError)):
                        raise
                    ctx.log("failed", type(e).__name__)
                W.plan.faults = {}
                failed = True
            n0 = len(W.reads)
            with ctx.sut(what):
                got = do_request(r, pv[k], vals[k], ctx)
            reads = W.reads[n0:]
            ctx.log("step", j, digest_array(got), len(reads))
            identical(ctx, got, want, what + (" (asked before)" if key(r) in seen else " (asked for the first time, after others)" if j else ""), kind="history-dependent")
            if key(r) in seen:
                ctx.probe("repeated-request")
            if failed:
                ctx.probe("after-failed-evaluation")
            seen.add(key(r))
            if reads:
                ctx.trivial = False
            ctx.state(op, prev, tuple((s, n) for s, ix, n in reads[:20]))
            prev = op
            W.check_sources_intact()
            for (o, h, w) in kept:
                ctx.check(digest_array(o) == h, "returned-array-altered", lambda: "the array returned by %s was altered by %s" % (w, what))
                ctx.probe("kept-arrays")
            if isinstance(got, np.ndarray):
                kept.append((got, digest_array(got), what))
            for v, b, nd in zip(pv, before, sc["nodes"]):
                a = snap(v)
                ctx.check(a == b, "input-modified", lambda: "%s changed the metadata of node %s: %s, before %s" % ((what, nd["op"]) + diff(a, b)))
    finally:
        W.uninstall()


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, list) and isinstance(y, list):
                return diff(x, y)
            return repr(x)[:200], repr(y)[:200]
    return "", ""


def shrinks(sc):
    if "base" in sc:
        for c in {"P04": p04, "P05": p05}[sc["base"]].shrinks(sc["sc"]):
            yield {"base": sc["base"], "sc": c}
        return
    for c in expr_shrinks(sc):
        yield c
