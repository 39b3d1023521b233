from props.exprbase import *
import props.p01 as p01
from ops_reduce import axweights

ID = "P05"
LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 30000}
RULE = ("one case = a data matrix with seeded, separated singular values (record axes anywhere among the axes, weights or none, possibly behind a lazy expression), a solver with seeded options, "
        "a seeded memory limit (hence how the input is split and which solver EOF() picks) and optionally failing reads; non-trivial if a lazy source was read; distinct by scenario")
STATE_MEASURE = "distinct (solver, options, sequence of index blocks read from the sources) tuples"
REAL = ["pygeode.eof (and eofcore), pygeode.svd (and svdcore), LAPACK, weights, views, upstream operations"]
STUB = p01.STUB
ASSUMPTIONS = ["numpy.linalg.svd of the whole weighted matrix is the reference", "singular values differ by at least 30 %, as iterative solvers cannot resolve closer ones within their tolerance",
               "the memory limit allows one spatial pattern, which the solvers require and assert", "EOF_guess is documented as approximate: judged exactly only where its truncation is exact, else by orthonormality and bounds"]
PROBES = ["eof:EOF", "eof:EOF_svd", "eof:EOF_cov", "eof:EOF_iter", "eof:EOF_guess", "svd:cov", "svd:cor", "chunked-input", "record-axis-not-first", "two-record-axes", "weighted", "request-failed-on-fault", "retry-succeeded"]

WRAPS = ["none", "none", "sc", "tr", "sub"]


def gen_matrix(rng, two, rank=None):
    tax = gen_axis(rng, rng.pick(list(M.TIME)), rng.pick([3, 4, 5, 7, 10, 13]))
    rec = [tax]
    if two:
        rec.append(gen_axis(rng, "nam", rng.pick([2, 3]), "ens"))
    if rng.chance(0.15):
        rec = [gen_axis(rng, "nam", rng.pick([4, 6, 9]), "trial")]
    spc = []
    for c in rng.sample(["lat", "lon", "pres", "nam"], rng.pick([1, 1, 2, 2, 3])):
        a = gen_axis(rng, c, rng.pick([1, 2, 3, 4, 5]), "x" if c == "nam" else None)
        if c == "lat":
            a.pop("w", None)
            if rng.chance(0.6):
                a["w"] = [round(rng.uniform(0.1, 1.0), 3) for _ in a["v"]]
        spc.append(a)
    return rec, spc


def arrange(rng, rec, spc):
    axes = rec + spc
    order = list(range(len(axes)))
    if rng.chance(0.5):
        rng.shuffle(order)
    return [axes[i] for i in order], [order.index(i) for i in range(len(rec))]


def svals(rng, n):
    s = [round(rng.uniform(5.0, 50.0), 2)]
    while len(s) < n:
        s.append(round(s[-1] / rng.uniform(1.7, 2.6), 4))
    return s


def sqw(src, weight):
    """sqrt of the normalised weights, arranged on the axes of the source"""
    axes = src["axes"]
    if weight is True:
        w = [(i, axweights(a)) for i, a in enumerate(axes) if axweights(a) is not None]
    elif weight:
        w = [(weight["i"], weight["w"])]
    else:
        w = []
    out = np.ones([1] * len(axes))
    full = np.ones([len(a["v"]) if any(i == j for j, _ in w) else 1 for i, a in enumerate(axes)])
    for i, v in w:
        sh = [1] * len(axes)
        sh[i] = len(v)
        full = full * np.array(v, float).reshape(sh)
    return np.sqrt(full / full.mean())


def matrix(src, weight):
    """weighted data as [record, space], the space axes and sqrt weights per space point"""
    x = world.mkdata(src).astype(float)
    rec = src["svd"]["rec"]
    spc = [i for i in range(len(src["axes"])) if i not in rec]
    w = np.broadcast_to(sqw(src, weight), x.shape)
    nt = int(np.prod([x.shape[i] for i in rec]))
    X = (x * w).transpose(rec + spc).reshape(nt, -1)
    ws = w.transpose(rec + spc).reshape(nt, -1)[0]
    return X, spc, ws


def gen_weight(rng, src):
    rec = src["svd"]["rec"]
    k = rng.randrange(5)
    if k <= 1:
        return True
    if k == 2:
        return False
    if k == 3:
        return None
    i = rng.pick([i for i in range(len(src["axes"])) if i not in rec])
    return {"i": i, "w": [round(rng.uniform(0.2, 1.0), 3) for _ in src["axes"][i]["v"]]}


def gen_zero(rng, src, nx, r):
    """Points at which nothing ever happens."""
    if nx > r and rng.chance(0.2):
        src["svd"]["zero"] = rng.sample(range(nx), rng.randint(1, min(3, nx - r)))


def gen_iaxis(rng, src):
    rec = src["svd"]["rec"]
    a = [src["axes"][i] for i in rec]
    form = rng.pick(["int", "name", "class", "none"])
    if len(rec) > 1:
        return {"form": form if form != "none" else "int", "tuple": True}
    if form == "class" and a[0]["c"] not in M.TIME:
        form = "int"
    if form == "none" and a[0]["c"] not in M.TIME and rec[0] != 0:
        form = "int"
    return {"form": form, "tuple": rng.chance(0.3) and form != "none"}


def gen(rng, tier, faults=True):
    svd = rng.chance(0.35)
    if not svd:
        rec, spc = gen_matrix(rng, rng.chance(0.25))
        axes, ri = arrange(rng, rec, spc)
        src = gen_source(rng, axes, style="svd")
        for k in ("nan", "dtype"):
            src.pop(k, None)
        nt = int(np.prod([len(a["v"]) for a in rec])); nx = int(np.prod([len(a["v"]) for a in spc]))
        r = max(1, min(nt, nx) if rng.chance(0.5) else rng.randint(1, min(nt, nx)))
        r = min(r, 7)
        src["svd"] = {"rec": ri, "s": svals(rng, r), "useed": rng.randrange(1 << 30)}
        gen_zero(rng, src, nx, r)
        solver = rng.pick(["EOF", "EOF", "EOF_svd", "EOF_cov", "EOF_iter", "EOF_iter", "EOF_guess"])
        num = rng.randint(1, min(r, 4))
        sc = {"srcs": [src], "kind": "eof", "solver": solver, "num": num, "iaxis": gen_iaxis(rng, src), "weight": gen_weight(rng, src),
              "out": rng.pick([None, None, "EOF,EIG,PC,VAR,FRAC,EIG2", "EIG,FRAC", "PC,EOF,EIG"]), "wrap": [rng.pick(WRAPS)], "runs": []}
        if solver == "EOF_iter" and rng.chance(0.3):
            sc["subspace"] = rng.randint(num, r)
        size = nt * nx
    else:
        rec, spc = gen_matrix(rng, False)
        _, spc2 = gen_matrix(rng, False)
        useed = rng.randrange(1 << 30)
        srcs = []
        r = min([7] + [int(np.prod([len(a["v"]) for a in s])) for s in (rec, spc, spc2)])
        for s in (spc, spc2):
            axes, ri = arrange(rng, rec, s)
            src = gen_source(rng, axes, style="svd")
            for k in ("nan", "dtype"):
                src.pop(k, None)
            src["svd"] = {"rec": ri, "s": svals(rng, r), "useed": useed}
            gen_zero(rng, src, int(np.prod([len(a["v"]) for a in s])), r)
            srcs.append(src)
        num = rng.randint(1, min(r, 3))
        sc = {"srcs": srcs, "kind": "svd", "num": num, "iaxis": {"form": rng.pick(["name"] if rec[0]["c"] not in M.TIME else ["name", "class", "none"])},
              "weight": gen_weight(rng, srcs[0]), "weight2": gen_weight(rng, srcs[1]), "matrix": rng.pick(["cov", "cov", "cor"]), "wrap": [rng.pick(WRAPS), rng.pick(WRAPS)], "runs": []}
        for k in ("weight", "weight2"):
            if sc[k] is None:
                sc[k] = False
        if rng.chance(0.3):
            sc["subspace"] = rng.randint(num, r)
        nx = max(int(np.prod([len(a["v"]) for a in s])) for s in (spc, spc2))
        size = nx * len(rec[0]["v"])
    for _ in range(rng.pick([1, 1, 2])):
        sc["runs"].append({"limit": rng.pick([1 << 22, nx, nx + 1, nx * 2, nx * 3 + 1, rng.randint(nx, size), size * size, (size * size) // 2 + nx])})
    sc["faults"] = p01.gen_faults(rng) if faults and rng.chance(0.2) else {}
    try:
        judge_gap(sc)
    except Invalid:
        return gen(rng, tier, faults)
    return sc


def judge_gap(sc):
    if sc["kind"] == "eof":
        X, _, _ = matrix(sc["srcs"][0], sc["weight"])
        s = np.linalg.svd(X, compute_uv=False)
        n = sc["num"]
    else:
        X, Y, _, _ = pair(sc)
        s = np.linalg.svd(np.dot(X.T, Y), compute_uv=False)
        n = sc["num"]
    if n > len(s) or s[n - 1] < 1e-4 * s[0]:
        raise Invalid("rank")
    m = n
    if any(s[i + 1] * 1.3 > s[i] for i in range(min(m, len(s) - 1))):
        raise Invalid("close singular values")
    return s


def pair(sc):
    X, s1, w1 = matrix(sc["srcs"][0], sc["weight"])
    Y, s2, w2 = matrix(sc["srcs"][1], sc["weight2"])
    if sc["matrix"] == "cor":
        d1, d2 = X.std(axis=0, ddof=1), Y.std(axis=0, ddof=1)
        d1, d2 = np.where((X == 0).all(axis=0), 1.0, d1), np.where((Y == 0).all(axis=0), 1.0, d2)
        if (d1 < 1e-6 * abs(X).max()).any() or (d2 < 1e-6 * abs(Y).max()).any():
            raise Invalid("constant series")
        X, Y = X / d1, Y / d2
        w1, w2 = w1 / d1, w2 / d2
    return X, Y, (s1, w1), (s2, w2)


def wrapped(v, how, src):
    """the same values behind a lazy expression"""
    if how == "sc":
        return (v * 4.0) * 0.25
    if how == "tr" and v.naxes > 1:
        o = list(range(v.naxes))[::-1]
        return v.transpose(*o).transpose(*o)
    if how == "sub":
        return v + 0 * v
    return v


def iax(sc, v, src):
    f = sc["iaxis"]
    rec = src["svd"]["rec"]
    if f["form"] == "none":
        return {}
    import pygeode
    from pygeode.timeaxis import Time
    one = {"int": lambda i: i, "name": lambda i: v.axes[i].name, "class": lambda i: Time if src["axes"][i]["c"] in M.TIME else i}[f["form"]]
    x = [one(i) for i in rec]
    return {"iaxis": tuple(x) if f.get("tuple") else x[0]}


def realw(v, weight):
    from pygeode.var import Var
    if isinstance(weight, dict):
        return Var([v.axes[weight["i"]]], values=np.array(weight["w"], float))
    return weight


def solve_eof(sc, v, src, ctx):
    from pygeode import eof as E
    kw = dict(num=sc["num"], weight=realw(v, sc["weight"]))
    kw.update(iax(sc, v, src))
    if "subspace" in sc:
        kw["subspace"] = sc["subspace"]
    if sc["out"] is not None:
        kw["out"] = sc["out"]
    res = getattr(E, sc["solver"])(v, **kw)
    names = (sc["out"] or "EOF,EIG,PC").split(",")
    ctx.check(len(res) == len(names), "wrong-outputs", lambda: "%d outputs for %s" % (len(res), names))
    out = {}
    for n, x in zip(names, res):
        out[n] = (x, np.array(x.get() if hasattr(x, "axes") else x, float))
    return out


def axes_like(ctx, got, las, num, what):
    ctx.check(len(got.axes) == len(las) + 1 and len(got.axes[0]) == num, "wrong-axes", lambda: "%s: axes %s" % (what, [a.name for a in got.axes]))
    for a, b in zip(got.axes[1:], las):
        ctx.check(isinstance(a, world.axcls(b["c"])) and M.same(world.axis_coord(a), M.axcoord(b)), "wrong-axes", lambda: "%s: axis %s does not match" % (what, a.name))


def check_eof(sc, ctx, out, what):
    src = sc["srcs"][0]
    X, spc, ws = matrix(src, sc["weight"])
    U, S, V = np.linalg.svd(X, full_matrices=False)
    n = sc["num"]
    var = (X ** 2).sum()
    it = sc["solver"] in ("EOF", "EOF_iter")
    tol = 2e-3 if it else 1e-6
    exact = True
    if sc["solver"] == "EOF_guess":
        exact = np.sum(S > 1e-9 * S[0]) <= n
    rec = src["svd"]["rec"]
    sgn = np.ones(n)
    if "EOF" in out:
        v, a = out["EOF"]
        axes_like(ctx, v, [src["axes"][i] for i in spc], n, what + " EOF")
        P = a.reshape(n, -1) * ws
        G = np.dot(P, P.T)
        compare(ctx, G, np.eye(n), what + ": patterns' inner products", rtol=0, atol=max(tol, 1e-6), kind="not-orthonormal")
        ctx.check(all(p[0] > -tol for p in P), "sign-convention", lambda: "%s: first elements %s" % (what, P[:, 0]))
        if exact:
            sgn = np.sign(np.sum(P * V[:n], axis=1))
            compare(ctx, P * sgn[:, None], V[:n], what + ": patterns", rtol=0, atol=tol, kind="wrong-pattern")
    if "PC" in out:
        v, a = out["PC"]
        axes_like(ctx, v, [src["axes"][i] for i in rec], n, what + " PC")
        Q = a.reshape(n, -1)
        if exact:
            s2 = sgn if "EOF" in out else np.sign(np.sum(Q * U[:, :n].T, axis=1))
            compare(ctx, Q * s2[:, None], U[:, :n].T, what + ": time series", rtol=0, atol=tol, kind="wrong-timeseries")
        else:
            compare(ctx, (Q ** 2).sum(axis=1), np.ones(n), what + ": length of the time series", rtol=0, atol=1e-6, kind="wrong-timeseries")
    for k, want, cap in (("EIG", S[:n], S[:n]), ("EIG2", S[:n] ** 2, S[:n] ** 2), ("FRAC", S[:n] ** 2 / var, S[:n] ** 2 / var), ("VAR", np.array(var), None)):
        if k not in out:
            continue
        a = out[k][1]
        if exact or k == "VAR":
            compare(ctx, a, want, what + ": " + k, rtol=tol if k != "VAR" else 1e-9, kind="wrong-" + k)
        else:
            ctx.check(np.all(a <= cap * (1 + 1e-9)) and np.all(a >= 0), "wrong-" + k, lambda: "%s: %s=%s exceeds %s" % (what, k, a, cap))


def solve_svd(sc, v1, v2, ctx):
    from pygeode.svd import SVD
    from pygeode.timeaxis import Time
    kw = dict(num=sc["num"], weight1=realw(v1, sc["weight"]), weight2=realw(v2, sc["weight2"]), matrix=sc["matrix"])
    f = sc["iaxis"]["form"]
    if f == "name":
        kw["iaxis"] = v1.axes[sc["srcs"][0]["svd"]["rec"][0]].name
    elif f == "class":
        kw["iaxis"] = Time
    if "subspace" in sc:
        kw["subspace"] = sc["subspace"]
    res = SVD(v1, v2, **kw)
    return [(x, np.array(x.get(), float)) for x in res]


def check_svd(sc, ctx, out, what):
    X, Y, (sp1, w1), (sp2, w2) = pair(sc)
    L, S, R = np.linalg.svd(np.dot(X.T, Y), full_matrices=False)
    n = sc["num"]
    tol = 3e-3
    (e1, a1), (p1, b1), (e2, a2), (p2, b2) = out
    for e, p, spc, src, w in ((e1, p1, sp1, sc["srcs"][0], "1"), (e2, p2, sp2, sc["srcs"][1], "2")):
        axes_like(ctx, e, [src["axes"][i] for i in spc], n, what + " EOF" + w)
        axes_like(ctx, p, [src["axes"][i] for i in src["svd"]["rec"]], n, what + " PC" + w)
    A, B = a1.reshape(n, -1) * w1, a2.reshape(n, -1) * w2
    compare(ctx, np.dot(A, A.T), np.eye(n), what + ": inner products of patterns 1", rtol=0, atol=tol, kind="not-orthonormal")
    compare(ctx, np.dot(B, B.T), np.eye(n), what + ": inner products of patterns 2", rtol=0, atol=tol, kind="not-orthonormal")
    sg = np.sign(np.sum(A * L[:, :n].T, axis=1))
    compare(ctx, A * sg[:, None], L[:, :n].T, what + ": patterns 1", rtol=0, atol=tol, kind="wrong-pattern")
    compare(ctx, B * sg[:, None], R[:n], what + ": patterns 2", rtol=0, atol=tol, kind="wrong-pattern")
    q1, q2 = np.dot(X, L[:, :n]).T, np.dot(Y, R[:n].T).T
    compare(ctx, b1.reshape(n, -1) * sg[:, None], q1, what + ": expansion coefficients 1", rtol=0, atol=tol * np.abs(q1).max(), kind="wrong-timeseries")
    compare(ctx, b2.reshape(n, -1) * sg[:, None], q2, what + ": expansion coefficients 2", rtol=0, atol=tol * np.abs(q2).max(), kind="wrong-timeseries")


def execute(sc, ctx):
    judge_gap(sc)
    W = world.World(ctx, sc.get("faults"))
    W.install_allocator()
    try:
        W.limit(1 << 22)
        W.plan.enabled = False
        vs = [W.source(s, "s%d" % i) for i, s in enumerate(sc["srcs"])]
        with ctx.sut("building the input"):
            vs = [wrapped(v, h, s) for v, h, s in zip(vs, sc["wrap"], sc["srcs"])]
        W.plan.enabled = True
        W.plan.n = 0
        nm = sc["solver"] if sc["kind"] == "eof" else sc["matrix"]
        ctx.probe(sc["kind"] + ":" + nm)
        rec = sc["srcs"][0]["svd"]["rec"]
        if rec[0] != 0:
            ctx.probe("record-axis-not-first")
        if len(rec) > 1:
            ctx.probe("two-record-axes")
        if sc["weight"] and np.ptp(sqw(sc["srcs"][0], sc["weight"])) > 0:
            ctx.probe("weighted")
        if sc["kind"] == "eof":
            go = lambda: solve_eof(sc, vs[0], sc["srcs"][0], ctx)
        else:
            go = lambda: solve_svd(sc, vs[0], vs[1], ctx)
        for j, r in enumerate(sc["runs"]):
            for s in sc["srcs"]:
                spc = int(np.prod([len(a["v"]) for i, a in enumerate(s["axes"]) if i not in s["svd"]["rec"]]))
                if r["limit"] < spc:
                    raise Invalid("limit below one pattern")
            W.limit(r["limit"])
            what = "run %d (%s %s)" % (j, sc["kind"], nm)
            n0 = len(W.reads)
            while True:
                f0 = W.plan.fired
                try:
                    out = go()
                except BaseException as e:
                    if W.plan.fired > f0:
                        ctx.probe("request-failed-on-fault")
                        ctx.log("failed", type(e).__name__)
                        continue
                    if isinstance(e, (Violation, Invalid, HarnessError)):
                        raise
                    with ctx.sut(what):
                        raise
                break
            ctx.check(W.plan.fired == f0, "read-failure-swallowed", what)
            if W.plan.fired:
                ctx.probe("retry-succeeded")
            reads = W.reads[n0:]
            if reads:
                ctx.trivial = False
            if len(reads) > 1:
                ctx.probe("chunked-input")
            ctx.state(nm, str(sc["weight"]), tuple((s, tuple((len(i), i[0] if len(i) else None) for i in ix)) for s, ix, n in reads[:40]))
            ctx.log("run", j, [tuple(o[1].shape) for o in (out.values() if isinstance(out, dict) else out)])
            (check_eof if sc["kind"] == "eof" else check_svd)(sc, ctx, out, what)
        W.check_sources_intact()
    finally:
        W.uninstall()


def shrinks(sc):
    if len(sc["runs"]) > 1:
        for i in range(len(sc["runs"])):
            c = copy.deepcopy(sc); del c["runs"][i]; yield c
    for k in ("subspace",):
        if k in sc:
            c = copy.deepcopy(sc); del c[k]; yield c
    for k in ("weight", "weight2"):
        if sc.get(k):
            c = copy.deepcopy(sc); c[k] = False; yield c
    if sc["num"] > 1:
        c = copy.deepcopy(sc); c["num"] -= 1; yield c
    c = copy.deepcopy(sc); c["wrap"] = ["none"] * len(sc["wrap"])
    if c != sc:
        yield c
    for i, s in enumerate(sc["srcs"]):
        if len(s["svd"]["s"]) > sc["num"]:
            c = copy.deepcopy(sc); c["srcs"][i]["svd"]["s"].pop(); yield c
        for j, a in enumerate(s["axes"]):
            L = len(a["v"])
            if sc["kind"] == "svd" and j in s["svd"]["rec"]:
                continue
            for m in (1, L // 2, L - 1):
                if 1 <= m < L:
                    c = copy.deepcopy(sc)
                    c["srcs"][i]["axes"][j] = M.axtake(a, range(m))
                    yield c
