"""Shared execution of expression scenarios: build, request, compare."""
import copy
import numpy as np
from core import *
import model as M
import world, gen
from gen import *
import ops_basic
from ops_basic import *


def tolerance(sc, vals, k):
    f4 = any(s.get("dtype") == "f4" for s in sc["srcs"])
    m = magnitude(vals, sc, k)
    return (1e-5 if f4 else 1e-9) * m


def run_requests(sc, ctx, W, pv, vals, cmp=None, after=None):
    """Requests in order; injected failures must surface, then the same request must succeed."""
    for j, r in enumerate(sc["reqs"]):
        k = r["node"]
        la, var = vals[k], pv[k]
        if la is None:
            raise Invalid("node")
        want, idx = expected_request(r, la)
        what = "request %d (%s of node %d %s)" % (j, r["kind"], k, sc["nodes"][k]["op"])
        W.limit(r["limit"])
        n0, f0 = len(W.reads), W.plan.fired
        try:
            got = do_request(r, var, la, ctx)
        except BaseException as e:
            if W.plan.fired == f0:
                if isinstance(e, (Violation, Invalid, HarnessError)):
                    raise
                with ctx.sut(what):
                    raise
            ctx.log("failed", j, type(e).__name__)
            ctx.probe("request-failed-on-fault")
            while True:           # the fault is gone after it fired; ask again
                f0 = W.plan.fired
                try:
                    with ctx.sut(what + " after a failed read", allow=(SimFault,) if W.plan.faults else ()):
                        got = do_request(r, var, la, ctx)
                    break
                except BaseException as e2:
                    if W.plan.fired == f0:
                        raise
            ctx.probe("retry-succeeded")
        else:
            ctx.check(W.plan.fired == f0, "read-failure-swallowed", lambda: "%s returned a value although a read of its data failed" % what)
        reads = W.reads[n0:]
        ctx.log("req", j, r["kind"], k, digest_array(got), len(reads))
        if len(reads) > 1:
            ctx.probe("multi-read-request")
        ctx.state(sc["nodes"][k]["op"], tuple((s, tuple((len(i), i[0] if len(i) else None) for i in ix)) for s, ix, n in reads))
        if len(reads):
            ctx.trivial = False
        (cmp or default_cmp)(sc, ctx, vals, k, got, want, what, idx)
        if after:
            after(j, r, var, la, got, want, idx, reads)


def default_cmp(sc, ctx, vals, k, got, want, what, idx):
    if want.dtype.kind == "b":
        compare(ctx, got, want, what, rtol=0, atol=0)
    else:
        t = tolerance(sc, vals, k)
        compare(ctx, got, want, what, rtol=1e-9, atol=t)


def prune(sc, keep):
    """Drop nodes not needed for the requested ones; renumber."""
    need, todo = set(), list(keep)
    while todo:
        k = todo.pop()
        if k in need:
            continue
        need.add(k)
        todo.extend(sc["nodes"][k].get("a", []))
    order = sorted(need)
    pos = dict((k, i) for i, k in enumerate(order))
    out = copy.deepcopy(sc)
    out["nodes"] = []
    used = []
    for k in order:
        nd = copy.deepcopy(sc["nodes"][k])
        if nd["op"] == "src":
            if nd["i"] not in used:
                used.append(nd["i"])
            nd["i"] = used.index(nd["i"])
        else:
            nd["a"] = [pos[a] for a in nd["a"]]
        out["nodes"].append(nd)
    out["srcs"] = [sc["srcs"][i] for i in used]
    for r in out["reqs"]:
        r["node"] = pos[r["node"]]
    return out


def expr_shrinks(sc):
    """Smaller programs: fewer requests, bypassed operations, smaller regions."""
    n = len(sc["reqs"])
    for i in range(n):
        if n > 1:
            c = copy.deepcopy(sc)
            c["reqs"] = [sc["reqs"][i]]
            yield prune(c, [sc["reqs"][i]["node"]])
    for i in range(n):
        if n > 1:
            c = copy.deepcopy(sc)
            del c["reqs"][i]
            yield prune(c, [r["node"] for r in c["reqs"]])
    for i, r in enumerate(sc["reqs"]):
        if r["kind"] != "get":
            c = copy.deepcopy(sc)
            c["reqs"][i] = {"node": r["node"], "kind": "get", "limit": r["limit"]}
            yield c
        for a in sc["nodes"][r["node"]].get("a", []):
            c = copy.deepcopy(sc)
            c["reqs"][i] = {"node": a, "kind": "get", "limit": r["limit"]}
            yield prune(c, [x["node"] for x in c["reqs"]])
    for k, nd in enumerate(sc["nodes"]):
        if nd["op"] == "src":
            continue
        for a in nd["a"]:               # bypass node k
            c = copy.deepcopy(sc)
            for m in c["nodes"]:
                if "a" in m:
                    m["a"] = [a if x == k else x for x in m["a"]]
            for r in c["reqs"]:
                if r["node"] == k:
                    r["node"] = a
            try:
                yield prune(c, [r["node"] for r in c["reqs"]])
            except Exception:
                pass
    for i, r in enumerate(sc["reqs"]):
        if r["limit"] != 1 << 22:
            c = copy.deepcopy(sc)
            c["reqs"][i]["limit"] = 999999
            yield c
    for i, s in enumerate(sc["srcs"]):
        for key in ("nan", "alias", "dtype"):
            if key in s:
                c = copy.deepcopy(sc)
                del c["srcs"][i][key]
                yield c
        for j, a in enumerate(s["axes"]):
            L = len(a["v"])
            for m in (1, L // 2, L - 1):
                if 1 <= m < L:
                    c = copy.deepcopy(sc)
                    c["srcs"][i]["axes"][j] = M.axtake(a, range(m))
                    yield c
