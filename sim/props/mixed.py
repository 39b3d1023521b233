"""Programs mixing every kind of operation. Their reference is a twin of the
expression, built over twin sources and evaluated without interference."""
from props.exprbase import *
import ops_reduce, ops_time, ops_nbhd
from ops_nbhd import NBHD
from ops_time import gen_time

TIMEOPS = ["agg", "agg", "anom", "detrend", "trend"]
import ops_cat
EXTRA = ["cat", "split", "flat", "comp", "rly", "lag"]
SPECIAL = ("grp", "coef", "event", "offset", "yearless", "ens")
POST = ["slice", "tr", "sc", "bin", "red", "un", "msel"]


def ok_last(P):
    nd, la = P.nodes[-1], P.vals[-1]
    if la.arr.size > 1500 or la.arr.size == 0 or la.arr.dtype.kind not in "fb":
        return False
    x = P.vals[nd["a"][0]].arr
    if nd["op"] not in ("un", "sc", "bin", "multi", "clip", "fill", "cast") and x.dtype.kind != "f":
        if nd["op"] in NBHD or nd["op"] in TIMEOPS or nd["op"] in ("red", "msel") or nd["op"] in EXTRA:
            return False
    if nd["op"] in NBHD or nd["op"] in TIMEOPS or nd["op"] in ("red", "msel"):
        if np.isinf(x).any():
            return False
    return True


def gen_program(rng, pool=None):
    while True:
        P = Prog(rng)
        tm = rng.chance(0.5)
        if tm:
            axes = [gen_time(rng, 16)]
            for c in rng.sample(["lat", "lon", "pres", "nam:x"], rng.randrange(3)):
                axes.append(gen_axis(rng, c.split(":")[0], rng.randint(1, 4), c.split(":")[1] if ":" in c else None))
            rng.shuffle(axes)
        else:
            axes = gen_axes(rng, maxsize=rng.pick([40, 150, 300]))
        P.add_src(gen_source(rng, axes, dtype="f8"))
        if rng.chance(0.4):
            P.add_src(gen_source(rng, related_axes(rng, axes), dtype="f8"))
        for phase, n in (("pre", rng.pick([0, 0, 1, 2])), ("main", rng.pick([1, 1, 2, 3])), ("post", rng.pick([0, 0, 1, 2]))):
            for _ in range(n):
                if phase == "pre":
                    nm = rng.pick(BASIC)
                elif phase == "main":
                    nm = rng.pick(pool) if pool else rng.pick((TIMEOPS if tm else []) + ["red", "red"] + NBHD + EXTRA + ["bin", "multi"])
                else:
                    nm = rng.pick(POST)
                o = OPS[nm]
                last = len(P.nodes) - 1
                args = [last] + [last - min(last, int(rng.expovariate(0.6))) for _ in range(o.nargs - 1)]
                if o.nargs > 1 and nm not in EXTRA:
                    rng.shuffle(args)
                if any(any(a["c"] in SPECIAL for a in P.vals[i].axes) for i in args) and nm not in ("slice", "tr", "sc", "un"):
                    continue
                try:
                    k = P.try_op(nm, args)
                except (KeyError, ZeroDivisionError):
                    k = None
                    while len(P.nodes) > last + 1:
                        P.nodes.pop(); P.vals.pop()
                if k is not None and not ok_last(P):
                    P.nodes.pop(); P.vals.pop()
        if len(P.nodes) > len(P.srcs):
            return P


def gen_reqs(rng, P, n=None):
    reqs = []
    last = len(P.nodes) - 1
    for _ in range(n or rng.randint(1, 4)):
        k = last if rng.chance(0.6) else rng.randrange(len(P.srcs) if rng.chance(0.8) else 0, last + 1)
        r = gen_request(rng, P.vals[k], k)
        if r["kind"] == "call_i" and any(a["c"] in SPECIAL for a in P.vals[k].axes):
            r = {"node": k, "kind": "get", "limit": r["limit"]}
        reqs.append(r)
    return reqs


class Twin(object):
    """two independent builds of one program"""
    def __init__(self, sc, ctx):
        self.vals = model_values(sc)
        self.clean, self.W = world.World(ctx), world.World(ctx)
        self.clean.quiet = True
        self.W.install_allocator()
        self.clean.limit(1 << 22)
        try:
            self.pc = build_vars(sc, self.clean, ctx)
            self.pv = build_vars(sc, self.W, ctx)
        except Violation as v:
            self.W.uninstall()
            raise Invalid("not buildable: %s" % v.detail[:300])

    def expected(self, r, ctx):
        """by the undisturbed twin"""
        la = self.vals[r["node"]]
        if la is None:
            raise Invalid("node")
        try:
            return np.array(do_request(r, self.pc[r["node"]], la, ctx), copy=True)
        except Exception as e:
            raise Invalid("the undisturbed twin fails: %r" % (e,))

    def close(self):
        self.W.uninstall()


def identical(ctx, got, want, what, kind="wrong-value"):
    compare(ctx, got, want, what, rtol=1e-12, kind=kind)


shrinks = expr_shrinks
