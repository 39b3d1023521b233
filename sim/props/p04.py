"""Statistics of simulated sources against their definitions on whole arrays."""
import copy
import numpy as np
from core import *
import model as M
from model import LA
import world, gen
from gen import *
import props.p01 as p01

ID = "P04"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("one case = a seeded choice of statistic, input variables with shared and unshared axes (orders, coordinate subsets, missing values), reduction axes and outputs, computed under several seeded "
        "memory limits, optionally with failing reads; non-trivial if a lazy source was read; distinct by scenario")
STATE_MEASURE = "distinct (statistic, sequence of index blocks read from the sources) pairs"
REAL = ["pygeode.stats, tools.loopover, views, axis alignment; scipy's t distribution"]
STUB = p01.STUB
ASSUMPTIONS = ["numpy definitions on whole arrays, and scipy's t distribution, are the reference", "degenerate samples (fewer than 3 usable values, vanishing variance, nearly singular regressors) are only required to be missing where no value exists"]
PROBES = ["correlate", "regress", "multiple_regress", "difference", "paired_difference", "isnonzero", "chunked", "no-axes-given", "nan-input", "no-data-point", "request-failed-on-fault", "unshared-axes", "nested-coordinates"]

KINDS = ["correlate", "regress", "multiple_regress", "difference", "paired_difference", "isnonzero"]
OUT = {"correlate": ["r", "r2", "p"], "regress": ["m", "b", "r2", "p", "sm", "se"], "multiple_regress": ["B", "beta", "r2", "p", "sb", "covb", "se"],
       "difference": ["d", "df", "p", "ci"], "paired_difference": ["d", "df", "p", "ci"], "isnonzero": ["m", "p", "ci"]}


def gen_(rng, tier):
    kind = rng.pick(KINDS)
    pool = ["lat", "lon", "pres", "hgt", "nam:x", "nam:y", rng.pick(list(M.TIME))]
    rng.shuffle(pool)
    nr = rng.pick([1, 1, 2])
    mk = lambda c, n: gen_axis(rng, c.split(":")[0], n, c.split(":")[1] if ":" in c else None)
    nmin = 7 if kind == "multiple_regress" else 3
    R = [mk(pool.pop(), rng.randint(nmin if nr == 1 else 3, 12 if nr == 1 else 4)) for _ in range(nr)]
    C = [mk(pool.pop(), rng.randint(1, 4)) for _ in range(rng.pick([0, 1, 1, 2]))]
    nv = {"isnonzero": 1, "multiple_regress": rng.randint(2, 4)}.get(kind, 2)
    sc = {"kind": kind, "srcs": [], "reqs": [], "faults": {}}
    own = []
    for i in range(nv):
        e = []
        if pool and rng.chance(0.3):
            e = [mk(pool.pop(), rng.randint(1, 3))]
        own.append(e)
    for i in range(nv):
        axes = [dict(a) for a in R + C + own[i]]
        if kind == "multiple_regress" and rng.chance(0.25) and i < nv - 1 and (len(R) > 1 or C):
            k = rng.randrange(len(R) + len(C))
            del axes[k]
        if not axes:
            axes = [dict(R[0])]
        if rng.chance(0.3):
            rng.shuffle(axes)
        if i == 1 and rng.chance(0.25):
            k = rng.randrange(len(axes))
            n = len(axes[k]["v"])
            if n > nmin:
                axes[k] = M.axtake(axes[k], sorted(rng.sample(range(n), rng.randint(nmin, n))))
        s = gen_source(rng, axes)
        s["style"] = rng.pick(["normal", "pos", "normal", "big"])
        s.pop("nan", None)
        if kind != "multiple_regress":
            if rng.chance(0.35):
                s["nan"] = rng.pick([0.1, 0.4, 0.8])
        sc["srcs"].append(s)
    # correlate / regress share structure so that values are not all noise
    if rng.chance(0.3) or (kind in ("difference", "paired_difference", "isnonzero") and False):
        sc["axes"] = None
    else:
        sc["axes"] = [M.axname(a) for a in (R if rng.chance(0.8) else R[:1])]
        if rng.chance(0.15):
            sc["axes"] += [M.axname(a) for a in C[:1]]
    sc["n_fac"] = rng.pick([None, None, None, 2, 3])
    sc["ny_fac"] = rng.pick([None, None, 2])
    sc["alpha"] = rng.pick([0.05, 0.05, 0.1, 0.32])
    for _ in range(rng.randint(1, 3)):
        outs = rng.sample(OUT[kind], rng.randint(1, len(OUT[kind])))
        if rng.chance(0.1):
            outs = None
        sc["reqs"].append({"out": outs, "limit": rng.pick([1, 2, 3, 5, 8, 13, 30, 77, 200, 1 << 22])})
    if rng.chance(0.25):
        sc["faults"] = p01.gen_faults(rng)
    return sc


def gen(rng, tier, faults=True):
    while True:
        sc = gen_(rng, tier)
        try:
            with np.errstate(all="ignore"):
                expected(sc)
            return sc
        except Invalid:
            pass


def tcdf(t, df):
    from scipy.stats import t as tdist
    return 2 * tdist.sf(np.abs(t), df)


def tppf(q, df):
    from scipy.stats import t as tdist
    return tdist.ppf(q, df)


def result_axes(las, axes, kind):
    """-> (aligned axes of all, reduced ones (indices))"""
    al = M.aligned_axes(las) if len(las) > 1 else list(las[0].axes)
    if kind == "multiple_regress":
        shared = [i for i, a in enumerate(al) if las[-1].which(M.axkey(a)) >= 0 and any(l.which(M.axkey(a)) >= 0 for l in las[:-1])]
    else:
        shared = [i for i, a in enumerate(al) if all(l.which(M.axkey(a)) >= 0 for l in las)]
    if axes is None:
        red = shared
    else:
        nm = [M.axname(a) for a in al]
        if any(x not in nm for x in axes):
            raise Invalid("axis")
        red = [nm.index(x) for x in axes]
        if any(i not in shared for i in red) or len(set(red)) < len(red):
            raise Invalid("axis not shared")
    if not red:
        raise Invalid("nothing to reduce")
    return al, red


def expected(sc):
    """{name: (axes, array, usable mask, must-be-missing mask)}"""
    kind = sc["kind"]
    las = [LA(s["axes"], world.mkdata(s).astype("d")) for s in sc["srcs"]]
    al, red = result_axes(las, sc["axes"], kind)
    full = tuple(len(a["v"]) for a in al)
    oax = [a for i, a in enumerate(al) if i not in red]
    os = tuple(len(a["v"]) for a in oax)
    ax = tuple(red)
    nf, alpha = sc.get("n_fac"), sc.get("alpha", 0.05)
    out = {}

    def red_last(x):
        return np.moveaxis(x, ax, list(range(-len(ax), 0))).reshape(os + (-1,))
    if kind in ("correlate", "regress", "paired_difference"):
        if kind == "paired_difference":
            for l in las:
                for i in red:
                    if not M.same(M.axcoord(al[i]), M.axcoord(l.axes[l.which(M.axkey(al[i]))])):
                        raise Invalid("not paired")
            if [las[0].which(M.axkey(al[i])) for i in red] != [las[1].which(M.axkey(al[i])) for i in red]:
                raise Invalid("refused: different axis positions")
        X, Y = [red_last(np.broadcast_to(M.conform(l, al), full)) for l in las]
        ok = ~np.isnan(X + Y)
        N = ok.sum(-1).astype(float)
        X0, Y0 = np.where(ok, X, 0), np.where(ok, Y, 0)
        mx, my = X0.sum(-1) / N, Y0.sum(-1) / N
        dx, dy = np.where(ok, X - mx[..., None], 0), np.where(ok, Y - my[..., None], 0)
        xx, yy, xy = (dx * dx).sum(-1), (dy * dy).sum(-1), (dx * dy).sum(-1)
        if kind == "correlate":
            good = (N >= 3) & (xx > 1e-3 * N) & (yy > 1e-3 * N)
            r = xy / np.sqrt(xx * yy)
            den = np.maximum(1 - r ** 2, 1e-8)
            good &= (1 - r ** 2 > 1e-6)
            p = tcdf(np.abs(r) * np.sqrt((N - 2) / den), N - 2)
            bad = N == 0
            out = {"r": (r, good, bad), "r2": (r ** 2, good, bad), "p": (p, good, bad)}
        elif kind == "regress":
            Ne = N - 2 if nf is None else N / nf - 2
            m = xy / xx
            b = my - m * mx
            sse = np.maximum(yy - m * xy, 0)
            se = np.sqrt(sse / Ne)
            sm = se / np.sqrt(xx)
            r2 = xy ** 2 / (xx * yy)
            good = (Ne > 0) & (xx > 1e-3 * N) & (yy > 1e-3 * N) & (sse > 1e-6 * yy)
            p = tcdf(m / sm, Ne)
            bad = N == 0
            out = {"m": (m, good, bad), "b": (b, good, bad), "r2": (r2, good, bad), "p": (p, good, bad), "sm": (sm, good, bad), "se": (se, good, bad)}
        else:
            D = np.where(ok, X - Y, 0)
            d = D.sum(-1) / N
            v = np.where(ok, (D - d[..., None]) ** 2, 0).sum(-1) / (N - 1)
            eN = N if nf is None else N // nf
            good = (N >= 2) & (eN >= 2) & (v > 1e-3)
            den = np.sqrt(v / eN)
            bad = N == 0
            out = {"d": (d, N >= 1, bad), "df": (eN - 1, good, N < 0), "p": (tcdf(d / den, eN - 1), good, bad), "ci": (tppf(1 - alpha / 2, eN - 1) * den, good, bad)}
    elif kind == "difference":
        ms, vs, es, ns = [], [], [], []
        facs = [nf, sc.get("ny_fac")]
        for l, fac in zip(las, facs):
            # aligned along the output axes only; all of its own values along the others
            tgt = []
            for i, a in enumerate(al):
                k = l.which(M.axkey(a))
                if i in red:
                    tgt.append(l.axes[k])
                elif k >= 0:
                    tgt.append(a)
            x = M.conform(l, tgt)
            rk = [M.axkey(al[i]) for i in red]
            rr = tuple(k for k, a in enumerate(tgt) if M.axkey(a) in rk)
            ok = ~np.isnan(x)
            N = ok.sum(rr, keepdims=True).astype(float)
            m = np.where(ok, x, 0).sum(rr, keepdims=True) / N
            v = np.where(ok, (x - m) ** 2, 0).sum(rr, keepdims=True) / (N - 1)
            oa = [a for a in tgt if M.axkey(a) not in rk]
            sq = lambda z: np.broadcast_to(M.conform(LA(oa, z.reshape([len(a["v"]) for a in oa])), oax), os)
            N, m, v = sq(N), sq(m), sq(v)
            if np.prod([len(tgt[k]["v"]) for k in rr]) < 2:
                raise Invalid("refused: one value")
            ms.append(m); vs.append(v); ns.append(N)
            es.append(N if fac is None else N // fac)
        d = ms[0] - ms[1]
        A, B = vs[0] / es[0], vs[1] / es[1]
        good = (es[0] >= 2) & (es[1] >= 2) & (vs[0] > 1e-3) & (vs[1] > 1e-3)
        df = (A + B) ** 2 / (A ** 2 / (es[0] - 1) + B ** 2 / (es[1] - 1))
        den = np.sqrt(A + B)
        bad = (ns[0] == 0) | (ns[1] == 0)
        out = {"d": (d, ~bad, bad), "df": (df, good, bad), "p": (tcdf(d / den, df), good, bad), "ci": (tppf(1 - alpha / 2, df) * den, good, bad)}
    elif kind == "isnonzero":
        x = red_last(las[0].arr)
        if x.shape[-1] < 2:
            raise Invalid("refused: one value")
        ok = ~np.isnan(x)
        N = ok.sum(-1).astype(float)
        m = np.where(ok, x, 0).sum(-1) / N
        v = np.where(ok, (x - m[..., None]) ** 2, 0).sum(-1) / (N - 1)
        eN = N if nf is None else N // nf
        sd = np.sqrt(v / eN)
        good = (N >= 2) & (eN >= 2) & (v > 1e-3)
        bad = N == 0
        out = {"m": (m, N >= 1, bad), "p": (tcdf(m / sd, eN - 1), good, bad), "ci": (tppf(1 - alpha / 2, eN - 1) * sd, good, bad)}
    else:
        xs = [red_last(np.broadcast_to(M.conform(l, al), full)) for l in las]
        Y = xs.pop()
        Nr = len(xs)
        N = Y.shape[-1]
        Ne = N if nf is None else N // nf
        if N < Nr + 1:
            raise Invalid("too few values")
        X = np.stack(xs, -1)                       # os, N, Nr
        XX = np.einsum("...ni,...nj->...ij", X, X)
        if XX.size and np.max(np.linalg.cond(XX)) > 1e7:
            raise Invalid("nearly singular")
        inv = np.linalg.inv(XX)
        beta = np.einsum("...ij,...nj,...n->...i", inv, X, Y)
        res = Y - np.einsum("...ni,...i->...n", X, beta)
        sse = (res ** 2).sum(-1)
        sst = ((Y - Y.mean(-1, keepdims=True)) ** 2).sum(-1)
        dof = Ne - Nr
        if dof < 1:
            raise Invalid("no degrees of freedom")
        se = np.sqrt(sse / dof)
        sb = se[..., None] * np.sqrt(np.einsum("...ii->...i", inv))
        good = sse > 1e-4 * (Y ** 2).sum(-1)
        g1 = good[..., None] & np.ones(Nr, bool)
        no = np.zeros(os, bool)
        n1 = np.zeros(os + (Nr,), bool)
        cb = (se ** 2)[..., None, None] * inv
        out = {"beta": (beta, g1, n1), "r2": (1 - sse / sst, good & (sst > 1e-3), no), "p": (tcdf(beta / sb, dof), g1, n1), "sb": (sb, g1, n1),
               "covb": (cb, np.broadcast_to(good[..., None, None], cb.shape), np.zeros(cb.shape, bool)), "se": (se, good, no)}
        out["B"] = out["beta"]
    return oax, out


def in_order(ctx, var, oax, arr, what):
    """Arrange an expected array in the axis order of the result."""
    keys = [M.axkey(a) for a in oax]
    order = []
    extra = arr.ndim - len(oax)
    ctx.check(len(var.axes) == arr.ndim, "wrong-axes", lambda: "%s has axes %s, expected %s" % (what, [a.name for a in var.axes], [M.axname(a) for a in oax]))
    for ax in var.axes[:len(oax)]:
        hit = [i for i, a in enumerate(oax) if isinstance(ax, world.axcls(a["c"])) and ax.name == M.axname(a) and M.same(world.axis_coord(ax), M.axcoord(a))]
        ctx.check(len(hit) == 1 and hit[0] not in order, "wrong-axes", lambda: "%s has axes %s, expected %s" % (what, [(a.name, a.values.tolist()) for a in var.axes], [(M.axname(a), a["v"]) for a in oax]))
        order.append(hit[0])
    return lambda z: np.transpose(z, order + list(range(len(oax), len(oax) + extra)))


def call(sc, r, vs, pbar=None):
    import pygeode
    kind = sc["kind"]
    kw = {}
    if r["out"] is not None:
        kw["output"] = ",".join(r["out"])
    if sc["axes"] is not None:
        kw["axes"] = list(sc["axes"])
    if pbar is not None:
        kw["pbar"] = pbar
    f = getattr(pygeode, kind) if hasattr(pygeode, kind) else getattr(pygeode.stats, kind)
    if kind in ("difference", "paired_difference", "isnonzero"):
        kw["alpha"] = sc["alpha"]
    if kind == "difference":
        kw["Nx_fac"], kw["Ny_fac"] = sc["n_fac"], sc.get("ny_fac")
    elif kind != "correlate":
        kw["N_fac"] = sc["n_fac"]
    if kind == "multiple_regress":
        return f(vs[:-1], vs[-1], **kw)
    if kind == "isnonzero":
        return f(vs[0], **kw)
    return f(vs[0], vs[1], **kw)


def check_ds(sc, ctx, ds, r, exp, what):
    oax, out = exp
    outs = r["out"] if r["out"] is not None else {"correlate": ["r", "p"], "regress": ["m", "b", "p"], "multiple_regress": ["B", "p"], "isnonzero": ["m", "p"]}.get(sc["kind"], ["d", "p", "ci"])
    names = [v.name for v in ds.vars]
    mag = max([1.0] + [float(np.nanmax(np.abs(world.mkdata(s)))) for s in sc["srcs"] if not np.all(np.isnan(world.mkdata(s)))])
    rt = 1e-7
    for o in outs:
        nm = o if o in names else o.upper()
        ctx.check(nm in names, "missing-output", lambda: "%s: output %r not in %s" % (what, o, names))
        var = [v for v in ds.vars if v.name == nm][0]
        want, good, bad = [np.asarray(z) for z in out[o]]
        T = in_order(ctx, var, oax, want, what + " output " + o)
        want, good, bad = T(want), T(good), T(bad)
        with ctx.sut("reading output %s of %s" % (o, what)):
            g = np.asarray(var.get(), float)
        ctx.check(g.shape == want.shape, "wrong-shape", lambda: "%s: output %s has shape %s, expected %s" % (what, o, g.shape, want.shape))
        ctx.check(bool(np.all(np.isnan(g[bad]))), "made-up-value", lambda: "%s: output %s is %s where there are no data" % (what, o, g[bad][~np.isnan(g[bad])][:3]))
        if bad.any():
            ctx.probe("no-data-point")
        gg, ww = np.where(good, g, 0.0), np.where(good, want, 0.0)
        if o in ("p", "r2", "r"):
            compare(ctx, gg, ww, what + " output " + o, rtol=1e-6, atol=1e-6 if mag < 50 else 3e-5)
        else:
            compare(ctx, gg, ww, what + " output " + o, rtol=1e-6, atol=1e-9 * mag * mag * mag if o in ("b",) else 1e-9 * mag * mag)


def execute(sc, ctx):
    with np.errstate(all="ignore"):
        exp = expected(sc)
    ctx.probe(sc["kind"])
    if sc["axes"] is None:
        ctx.probe("no-axes-given")
    if any(s.get("nan") for s in sc["srcs"]):
        ctx.probe("nan-input")
    ks = [set(M.axkey(a) for a in s["axes"]) for s in sc["srcs"]]
    if any(k != ks[0] for k in ks):
        ctx.probe("unshared-axes")
    W = world.World(ctx, sc.get("faults"))
    W.install_allocator()
    try:
        W.limit(1 << 22)
        vs = [W.source(s, "s%d" % i) for i, s in enumerate(sc["srcs"])]
        for j, r in enumerate(sc["reqs"]):
            W.limit(r["limit"])
            what = "%s (request %d)" % (sc["kind"], j)
            n0 = len(W.reads)
            while True:
                f0 = W.plan.fired
                try:
                    with ctx.sut(what, allow=(SimFault,) if W.plan.faults else ()):
                        ds = call(sc, r, vs)
                except (Violation, Invalid, HarnessError) as e:
                    if W.plan.fired > f0 and isinstance(e, Violation):
                        ctx.probe("request-failed-on-fault")
                        continue
                    raise
                except SimFault:
                    ctx.probe("request-failed-on-fault")
                    continue
                ctx.check(W.plan.fired == f0, "read-failure-swallowed", what + " returned a value although a read of its data failed")
                break
            reads = W.reads[n0:]
            if reads:
                ctx.trivial = False
            if len(reads) > len(vs):
                ctx.probe("chunked")
            ctx.state(sc["kind"], tuple((s, tuple((len(i), i[0] if len(i) else None) for i in ix)) for s, ix, n in reads))
            check_ds(sc, ctx, ds, r, exp, what)
            ctx.log("ok", j)
        W.check_sources_intact()
    finally:
        W.uninstall()


def shrinks(sc):
    for i, s in enumerate(sc["srcs"]):
        for key in ("nan", "alias", "dtype"):
            if key in s:
                c = copy.deepcopy(sc)
                del c["srcs"][i][key]
                yield c
    for a in [a for s in sc["srcs"] for a in s["axes"]]:
        k = M.axkey(a)
        c = copy.deepcopy(sc)
        for s in c["srcs"]:
            s["axes"] = [b for b in s["axes"] if M.axkey(b) != k]
        if all(s["axes"] for s in c["srcs"]):
            yield c
        L = len(a["v"])
        for m in (1, L // 2, L - 1):
            if 1 <= m < L:
                c = copy.deepcopy(sc)
                for s in c["srcs"]:
                    s["axes"] = [M.axtake(b, range(min(m, len(b["v"])))) if M.axkey(b) == k else b for b in s["axes"]]
                yield c
    for j, r in enumerate(sc["reqs"]):
        if r["limit"] < 1 << 20:
            c = copy.deepcopy(sc)
            c["reqs"][j]["limit"] = 99999
            yield c
        for o in r["out"] or []:
            c = copy.deepcopy(sc)
            c["reqs"][j]["out"] = [o]
            yield c
    for k in ("n_fac", "ny_fac"):
        if sc.get(k):
            c = copy.deepcopy(sc)
            c[k] = None
            yield c
