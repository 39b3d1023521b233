from props.mixed import *
import props.p01 as p01
import props.p04 as p04
import props.p05 as p05

ID = "P07"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("one case = a seeded program mixing all kinds of operations, seeded requests, and for each request a list of failures: the k-th read of the evaluation raises a seeded kind of exception "
        "(including StopIteration and KeyboardInterrupt); the evaluation must raise, and asking again must give what an undisturbed twin of the expression gives; non-trivial if a failure fired; distinct by scenario")
STATE_MEASURE = "distinct (operation, position of the failing read among the reads, kind of failure) tuples"
REAL = ["all operations, views, reductions, calendar statistics"]
STUB = p01.STUB
ASSUMPTIONS = ["the values of an undisturbed twin are the reference (their correctness is decided by P01-P06)"]
PROBES = ["first-read-failed", "later-read-failed", "several-failures", "retry-succeeded"]


def gen(rng, tier):
    x = rng.random()
    if x < 0.2:          # analyses that evaluate at once
        b = p04 if x < 0.12 else p05
        sc = b.gen(rng, tier, False)
        for s in sc["srcs"]:
            if s["mode"] == "values":
                s["mode"] = "getvalues"
        sc["faults"] = p01.gen_faults(rng)
        return {"base": b.ID, "sc": sc}
    P = gen_program(rng)
    sc = {"srcs": P.srcs, "nodes": P.nodes, "reqs": gen_reqs(rng, P)}
    for s in sc["srcs"]:
        if s["mode"] == "values" and rng.chance(0.8):
            s["mode"] = "getview"
    for r in sc["reqs"]:
        r["events"] = [[rng.pick([0, 0, rng.randrange(6), rng.randrange(40)]), rng.pick(sorted(world.FAULTS) + ["KeyboardInterrupt", "StopIteration"])] for _ in range(rng.pick([0, 1, 1, 2, 3]))]
    return prune(sc, [r["node"] for r in sc["reqs"]])


def execute(sc, ctx):
    if "base" in sc:
        {"P04": p04, "P05": p05}[sc["base"]].execute(sc["sc"], ctx)
        ctx.trivial = not ctx.faults
        return
    T = Twin(sc, ctx)
    W = T.W
    try:
        for j, r in enumerate(sc["reqs"]):
            la, k = T.vals[r["node"]], r["node"]
            op = sc["nodes"][k]["op"]
            what = "request %d (%s of node %d %s)" % (j, r["kind"], k, op)
            W.limit(r["limit"])
            n0 = T.clean.plan.n
            want = T.expected(r, ctx)
            nreads = T.clean.plan.n - n0
            var = T.pv[k]
            ctx.log("expect", j, nreads, digest_array(want))
            for pos, kind in r.get("events", []):
                if not nreads:
                    break
                pos = pos % nreads
                W.plan.faults = {W.plan.n + pos: kind}
                f0 = W.plan.fired
                try:
                    got = do_request(r, var, la, ctx)
                except BaseException as e:
                    if W.plan.fired == f0:
                        if isinstance(e, (Violation, Invalid, HarnessError)):
                            raise
                        with ctx.sut(what + " (the undisturbed twin succeeds)"):
                            raise
                    ctx.log("raised", type(e).__name__)
                    ctx.trivial = False
                    ctx.probe("first-read-failed" if pos == 0 else "later-read-failed")
                    if len(r["events"]) > 1:
                        ctx.probe("several-failures")
                    ctx.state(op, r["kind"], min(pos, 12), min(nreads, 12), kind)
                else:
                    W.plan.faults = {}
                    ctx.check(W.plan.fired == f0, "read-failure-swallowed", lambda: "%s returned a value although read %d of %d failed with %s" % (what, pos, nreads, kind))
            W.plan.faults = {}
            with ctx.sut(what + (" after failures" if r.get("events") else "")):
                got = do_request(r, var, la, ctx)
            identical(ctx, got, want, what + (" after failures" if r.get("events") else ""))
            if r.get("events"):
                ctx.probe("retry-succeeded")
        W.check_sources_intact()
    finally:
        T.close()


def shrinks(sc):
    if "base" in sc:
        for c in {"P04": p04, "P05": p05}[sc["base"]].shrinks(sc["sc"]):
            yield {"base": sc["base"], "sc": c}
        return
    for c in expr_shrinks(sc):
        yield c
