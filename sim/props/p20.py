"""Datasets: an operation on a dataset is that operation on each of its variables."""
from props.exprbase import *
import ops_reduce
import props.p01 as p01

ID = "P20"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("one case = a dataset of one to four simulated variables (colliding names, axes shared, equal, or of one name but different), a seeded sequence of dataset operations and a seeded sequence of requests of variables "
        "of any stage under seeded memory limits, some with failing reads; non-trivial if a request read from a lazy source; distinct by scenario")
STATE_MEASURE = "distinct (dataset operation, number of variables, name collisions, index blocks read) tuples"
REAL = ["Dataset, asdataset, concat, variable operations, views"]
STUB = p01.STUB
ASSUMPTIONS = ["how colliding names are made unique is free, as long as they are"]
PROBES = ["axis-collision", "name-collision", "shared-axis", "selection-ignored-by-some", "multi-read-request", "request-failed-on-fault", "merged", "concatenated"]

METHODS = ["fill", "unfill", "squeeze", "mean", "max", "nanmean", "sum", "nanvariance", "absolute", "sin", "transpose0", "sorted0", "as_type"]


# ------------------------------------------------------------------ model
class Ent(object):
    def __init__(self, name, la, note, a=()):
        self.name, self.la, self.note = name, la, note


def axequal(a, b):
    """One axis under one name? (None: not decided here)"""
    if M.axname(a) != M.axname(b) or a["c"] != b["c"]:
        return False
    if not M.same(M.axcoord(a), M.axcoord(b)):
        return False
    if a.get("w") != b.get("w"):
        return None
    if a["c"] in M.TIME and (a["y"], a["m"], a["d"], a.get("u")) != (b["y"], b["m"], b["d"], b.get("u")):
        return None
    return True


def settle(ents):
    """The names a dataset of these variables ends up with."""
    fam = {}
    for e in ents:
        for a in e.la.axes:
            l = fam.setdefault(M.axname(a), [])
            for g in l:
                q = axequal(a, g[0])
                if q is None:
                    raise Invalid("neither equal nor different")
                if q:
                    break
            else:
                l.append([a])
    out, taken = [], set(fam)
    new = {}
    for n, l in fam.items():
        if len(l) > 1:
            for i, g in enumerate(l):
                m = "%s%02d" % (n, i + 1)
                while m in taken:
                    m += "x"
                taken.add(m)
                new[n, i] = m
    for e in ents:
        axes = []
        for a in e.la.axes:
            n = M.axname(a)
            l = fam[n]
            if len(l) > 1:
                i = [axequal(a, g[0]) for g in l].index(True)
                a = dict(a, n=new[n, i])
            axes.append(a)
        out.append(Ent(e.name, LA(axes, e.la.arr), e.note))
    cnt = {}
    for e in out:
        if e.name == "":
            e.name = "var"
    for e in out:
        cnt[e.name] = cnt.get(e.name, 0) + 1
    k = {}
    for e in out:
        n = e.name
        if cnt[n] > 1:
            k[n] = k.get(n, 0) + 1
            e.name = "%s%02d" % (n, k[n])
            while e.name in cnt:
                e.name += "x"
    if len(set(e.name for e in out)) < len(out):
        raise Invalid("names collide again")
    return out, any(len(l) > 1 for l in fam.values()), any(c > 1 for c in cnt.values())


def alias(key, a):
    return key.lower() in (M.axname(a).lower(),) + ((M.NAMES[a["c"]],) if a["c"] != "nam" else ())


def sel_one(s, la):
    """One keyword selection, where the variable has such an axis: which points it keeps."""
    hit = [i for i, a in enumerate(la.axes) if alias(s["key"], a)]
    if not hit:
        return None
    if len(hit) > 1:
        raise Invalid("ambiguous")
    i = hit[0]
    a = la.axes[i]
    v, L = np.array(a["v"]), len(a["v"])
    keep = np.zeros(L, bool)
    x = s["v"]
    if s["how"] == "i":
        if not -L <= x < L:
            raise Invalid("index")
        keep[x] = True
    elif s["how"] == "ir":
        keep[x[0]:x[1]] = True
    elif s["how"] == "near":
        if a["c"] in M.TIME:
            raise Invalid("units")
        keep[nearest(list(a["v"]), x)] = True
    else:
        if a["c"] in M.TIME:
            raise Invalid("units")
        keep = (v >= x[0]) & (v <= x[1])
    if s.get("n"):
        keep = ~keep
    return i, keep


def select(kws, la):
    keep, sq, mn, hits = [np.ones(len(a["v"]), bool) for a in la.axes], set(), set(), 0
    for s in kws:
        r = sel_one(s, la)
        if r:
            hits += 1
            keep[r[0]] &= r[1]
            if s.get("mn"):
                mn.add(r[0])
            elif s.get("sq"):
                sq.add(r[0])
    sq -= mn
    axes, arr = [], la.arr
    for i, k in enumerate(keep):
        ix = [int(j) for j in np.flatnonzero(k)]
        if not ix:
            raise Invalid("empty")
        arr = np.take(arr, ix, axis=i)
        axes.append(M.axtake(la.axes[i], ix))
    if mn:
        if len(mn) == len(axes) or not np.isfinite(flt(arr)).all():
            raise Invalid("mean of everything, or of infinite values")
        part, ax = LA(axes, flt(arr)), sorted(mn)
        arr = ops_reduce.reduce_model("mean", part.arr, ax, ops_reduce.weights_of({"f": "mean"}, part, ax))
    gone = set(i for i in sq if len(axes[i]["v"]) == 1) | mn
    axes = [a for i, a in enumerate(axes) if i not in gone]
    return LA(axes, arr.reshape([len(a["v"]) for a in axes])), hits


def meth_model(f, la, key):
    a = flt(la.arr)
    if f == "fill":
        return LA(la.axes, np.where(np.isnan(a), 7.0, a))
    if f == "unfill":
        return LA(la.axes, np.where(a == 1.0, np.nan, a))
    if f == "absolute":
        return LA(la.axes, np.abs(a))
    if f == "sin":
        return LA(la.axes, np.sin(a))
    if f == "as_type":
        return LA(la.axes, a)
    if f == "squeeze":
        axes = [x for x in la.axes if len(x["v"]) > 1]
        return LA(axes, la.arr.reshape([len(x["v"]) for x in axes]))
    if f in ("transpose0", "sorted0"):
        if not la.axes:
            raise Invalid("no axes")
        if f == "sorted0":
            axes, arr = list(la.axes), la.arr
            for i, x in enumerate(axes):
                c = M.axcoord(x)
                ix = sorted(range(len(c)), key=lambda k: c[k])[::-1 if x["c"] == "pres" else 1]
                axes[i] = M.axtake(x, ix)
                arr = np.take(arr, ix, axis=i)
            return LA(axes, arr)
        o = [len(la.axes) - 1] + list(range(len(la.axes) - 1))
        return LA([la.axes[i] for i in o], la.arr.transpose(o))
    if np.isinf(a).any():
        raise Invalid("infinite")
    ax = [i for i, x in enumerate(la.axes) if alias(key, x)]
    if len(ax) != 1 or len(la.axes) < 2:
        raise Invalid("nothing to reduce, or nothing left")
    p = {"f": f}
    return LA([x for i, x in enumerate(la.axes) if i not in ax], ops_reduce.reduce_model(f, a, ax, ops_reduce.weights_of(p, la, ax)))


def src_ent(s):
    return Ent(s["name"], LA(s["axes"], world.mkdata(s)), [s["name"] if s.get("told", True) else None, s.get("units", "")])


def pick(ents, idx):
    if any(i >= len(ents) for i in idx):
        raise Invalid("no such variable")
    return [ents[i] for i in idx]


def step(op, ents, stages, srcs):
    """The model of one dataset operation: (variables, note on what happened)"""
    k = op["op"]
    some = False
    if k == "call":
        out = []
        for e in ents:
            la, hits = select(op["kw"], e.la)
            some |= hits < len(op["kw"])
            out.append(Ent(e.name, la, None if any(x.get("mn") for x in op["kw"]) else e.note))
    elif k == "meth":
        out = [Ent(e.name, meth_model(op["f"], e.la, op.get("key")), None) for e in ents]
    elif k == "map":
        pick(ents, op["drop"])
        if "to" in op and (op["to"][1] >= len(srcs) or op["to"][0] >= len(ents)):
            raise Invalid("source")
        out = [Ent(e.name if op["keep"] else None, LA(e.la.axes, flt(e.la.arr) * op["c"]), None) if i != op.get("to", [-1])[0] else src_ent(srcs[op["to"][1]]) for i, e in enumerate(ents) if i not in op["drop"]]
    elif k in ("add", "radd", "merge"):
        new = []
        for x in op["new"]:
            if "stage" in x:
                if x["stage"] >= len(stages):
                    raise Invalid("stage")
                new += stages[x["stage"]]
            else:
                if x["src"] >= len(srcs):
                    raise Invalid("source")
                new.append(src_ent(srcs[x["src"]]))
        out = [Ent(e.name, e.la, e.note) for e in list(ents) + new]
        if len(out) > 6 or len(set("src" in x for x in op["new"])) > 1:
            raise Invalid("too many")
    elif k == "rm":
        pick(ents, op["i"])
        out = [e for i, e in enumerate(ents) if i not in op["i"]]
    elif k == "ren":
        pick(ents, [int(i) for i in op["map"]])
        out = [Ent(op["map"].get(str(i), e.name), e.la, e.note) for i, e in enumerate(ents)]
    elif k == "repl":
        pick(ents, [op["i"]])
        if op["src"] >= len(srcs):
            raise Invalid("source")
        out = list(ents)
        out[op["i"]] = src_ent(srcs[op["src"]])
    elif k == "renax":
        out = []
        for e in ents:
            hit = [i for i, a in enumerate(e.la.axes) if alias(op["key"], a)]
            if len(hit) > 1 or any(M.axname(a) == op["to"] for a in e.la.axes):
                raise Invalid("ambiguous")
            axes = [dict(a, n=op["to"]) if i in hit else a for i, a in enumerate(e.la.axes)]
            some |= not hit
            out.append(Ent(e.name, LA(axes, e.la.arr), e.note))
    elif k == "cat":
        for e in ents:
            hit = [a for a in e.la.axes if alias(op["key"], a)]
            if len(hit) != 1 or not all(0 < c < len(hit[0]["v"]) for c in op["cuts"]) or sorted(set(op["cuts"])) != op["cuts"]:
                raise Invalid("cuts")
        if len(set(M.axname(a) for e in ents for a in e.la.axes if alias(op["key"], a))) != 1:
            raise Invalid("names")
        out = [Ent(e.name, e.la, e.note) for e in ents]
    elif k in ("copy", "load", "self"):
        out = list(ents)
    else:
        raise Invalid(k)
    if not out and k not in ("rm", "map"):
        raise Invalid("empty")
    return out, some


# ------------------------------------------------------------------ generation
def gen(rng, tier):
    while True:
        axes = gen_axes(rng, maxsize=rng.pick([40, 120]), nmax=3)
        srcs = []
        for k in range(rng.randint(2, 6)):
            x = rng.randrange(5)
            if k == 0 or x == 0:
                ax = axes
            elif x == 1:
                ax = related_axes(rng, axes)
            elif x == 2:
                ax = gen_axes(rng, maxsize=60, nmax=3)
            elif x == 3:
                ax = [gen_axis(rng, a["c"], len(a["v"]) if rng.chance(0.5) else rng.randint(1, 4), a.get("n")) if rng.chance(0.5) else a for a in axes]
            else:
                ax = rng.sample(axes, rng.randint(1, len(axes)))
            s = gen_source(rng, ax)
            s.pop("dtype", None)
            s["name"] = rng.pick(["a", "a", "b", "c", "d", "T", "u", "a01", ""])
            if rng.chance(0.3):
                s["told"] = False
            if rng.chance(0.3):
                s["units"] = rng.pick(["K", "m"])
            srcs.append(s)
        n0 = rng.randint(1, min(3, len(srcs)))
        sc = {"srcs": srcs, "first": n0, "how0": rng.pick(["Dataset", "asdataset", "list"]), "ops": [], "reqs": [], "faults": {}, "atts": {"title": "x%d" % rng.randrange(9)} if rng.chance(0.7) else {}}
        try:
            stages = play(sc)
        except Invalid:
            continue
        for _ in range(rng.randint(1, 4)):
            for _try in range(6):
                sc["ops"].append(gen_op(rng, sc, stages))
                try:
                    if sc["ops"][-1] is None:
                        raise Invalid("none")
                    stages = play(sc)
                    break
                except Invalid:
                    sc["ops"].pop()
        if not sc["ops"]:
            continue
        for _ in range(rng.randint(1, 4)):
            st = len(stages) - 1 if rng.chance(0.65) else rng.randrange(len(stages))
            if not stages[st]:
                continue
            i = rng.randrange(len(stages[st]))
            r = gen_request(rng, stages[st][i].la, 0)
            if r["kind"] == "call_i" and rng.chance(0.5):
                r = {"kind": "get", "limit": r["limit"]}
            r["node"] = [st, i]
            sc["reqs"].append(r)
        if not sc["reqs"]:
            continue
        if rng.chance(0.25):
            sc["faults"] = p01.gen_faults(rng)
        return sc


def gen_key(rng, ents):
    c = [a for e in ents for a in e.la.axes]
    if not c:
        return None, None
    a = rng.pick(c)
    return (M.axname(a) if a["c"] == "nam" or rng.chance(0.5) else M.NAMES[a["c"]]), a


def gen_op(rng, sc, stages):
    ents = stages[-1]
    n = len(ents)
    k = rng.pick(["call", "call", "call", "meth", "meth", "map", "add", "add", "radd", "merge", "rm", "ren", "repl", "renax", "cat", "copy", "load"])
    op = {"op": k}
    if not ents and k not in ("call", "add", "copy", "load"):
        return None
    if k == "call":
        op["kw"] = []
        for _ in range(rng.pick([1, 1, 2])):
            key, a = gen_key(rng, ents)
            if key is None or any(s["key"] == key for s in op["kw"]):
                return None
            L = len(a["v"])
            how = rng.pick(["i", "ir", "near", "range", "range"] if a["c"] not in M.TIME else ["i", "ir"])
            s = {"key": key, "how": how}
            if how == "i":
                s["v"] = rng.randrange(L)
            elif how == "ir":
                lo = rng.randrange(L)
                s["v"] = [lo, rng.randint(lo + 1, L)]
            elif how == "near":
                s["v"] = rng.pick(a["v"]) + 0.01
            else:
                x, y = rng.pick(a["v"]), rng.pick(a["v"])
                s["v"] = [min(x, y) - 0.001, max(x, y) + 0.001]
            if rng.chance(0.15):
                s["n"] = True
            elif rng.chance(0.2):
                s["sq"] = True
            if rng.chance(0.12):
                s["mn"] = True
            op["kw"].append(s)
    elif k == "meth":
        op["f"] = rng.pick(METHODS)
        op["key"] = gen_key(rng, ents)[0]
    elif k == "map":
        op.update(c=rng.pick([2.0, -1.0]), drop=rng.subset(range(n), 0, 1) if rng.chance(0.4) else [], keep=True)
        if rng.chance(0.3):
            op["to"] = [rng.randrange(n), rng.randrange(len(sc["srcs"]))]        # (the function gives a variable it has)
    elif k in ("add", "radd", "merge"):
        op["new"] = []
        what = rng.chance(0.65)         # (variables or datasets: in which order a mixture comes is free)
        for _ in range(rng.pick([1, 1, 2])):
            op["new"].append({"src": rng.randrange(len(sc["srcs"]))} if what else {"stage": rng.randrange(len(stages))})
        if k == "add":
            op["how"] = rng.pick(["add", "+", "+list"])
    elif k == "rm":
        if n < 2:
            return None
        op.update(i=rng.subset(range(n), 1, n - 1), how=rng.pick(["remove", "-list", "-"]))
        if op["how"] == "-":
            op["i"] = op["i"][:1]
    elif k == "ren":
        op.update(map=dict((str(i), rng.pick(["a", "b", "zz", "T"])) for i in rng.subset(range(n), 1)), how=rng.randrange(2))
    elif k == "repl":
        op.update(i=rng.randrange(n), src=rng.randrange(len(sc["srcs"])), how=rng.randrange(2))
    elif k == "renax":
        key, a = gen_key(rng, ents)
        if key is None:
            return None
        op.update(key=key, to=rng.pick(["q", "r"]))
        if a["c"] == "nam":
            return None
    elif k == "cat":
        key, a = gen_key(rng, ents)
        if key is None or len(a["v"]) < 2:
            return None
        op.update(key=key, cuts=sorted(rng.sample(range(1, len(a["v"])), rng.randint(1, min(2, len(a["v"]) - 1)))), how=rng.randrange(2))
    return op


def play(sc, info=None):
    """Every stage of the dataset, by the model."""
    if not 0 < sc["first"] <= len(sc["srcs"]):
        raise Invalid("first")
    cur, ax, nm = settle([src_ent(s) for s in sc["srcs"][:sc["first"]]])
    stages = [cur]
    if info is not None:
        info.append((False, ax, nm))
    for op in sc["ops"]:
        cur, some = step(op, stages[-1], stages, sc["srcs"])
        if any(a["c"] not in world_axes for e in cur for a in e.la.axes):
            raise Invalid("axis")
        for e in cur:
            if e.la.arr.size and magnitude([e.la], {"nodes": [{}]}, 0) > 1e12:
                raise Invalid("large")
        if op["op"] in ("copy",):
            ax = nm = False
        else:
            cur, ax, nm = settle(cur)
        stages.append(cur)
        if info is not None:
            info.append((some, ax, nm))
    return stages


world_axes = ("lat", "lon", "pres", "hgt", "nam") + M.TIME


# ------------------------------------------------------------------ execution
def build0(sc, vs):
    import pygeode
    vs = [v for v in vs[:sc["first"]]]
    if sc["how0"] == "Dataset":
        return pygeode.Dataset(vs, atts=sc["atts"])
    if sc["how0"] == "asdataset" and len(vs) == 1:
        d = pygeode.dataset.asdataset(vs[0])
    else:
        d = pygeode.dataset.asdataset(vs, print_warnings=False) if sc["how0"] == "asdataset" else pygeode.Dataset(tuple(vs), atts={})
    d.atts.update(sc["atts"])
    return d


def keyname(key, names):
    return names.get(key, key)


def apply(op, ds, stages, vs, names, ents):
    """names: the model's axis names -> the dataset's"""
    import pygeode
    k = op["op"]
    if k == "call":
        kw = {}
        for s in op["kw"]:
            pre = ("n" if s.get("n") else "") + ("i" if s["how"] in ("i", "ir") else "") + ("m" if s.get("mn") else "") + ("s" if s.get("sq") else "")
            key = (pre + "_" if pre else "") + keyname(s["key"], names)
            kw[key] = tuple(s["v"]) if isinstance(s["v"], list) else s["v"]
        return ds(**kw)
    if k == "meth":
        f = op["f"]
        if f == "fill":
            return ds.fill(7.0)
        if f == "unfill":
            return ds.unfill(1.0)
        if f == "as_type":
            return ds.as_type("d")
        if f == "transpose0":
            return ds.map(lambda v: v.transpose(v.naxes - 1))
        if f == "sorted0":
            return ds.sorted()
        return getattr(ds, f)(*([keyname(op["key"], names)] if f in ("mean", "max", "nanmean", "sum", "nanvariance") else []))
    if k == "map":
        drop = [ds.vars[i].name for i in op["drop"]]
        to = {ds.vars[op["to"][0]].name: vs[op["to"][1]]} if "to" in op else {}
        def f(v):
            if v.name in to and v.name not in drop:
                return to[v.name]
            return None if v.name in drop else (v * op["c"]).rename(v.name)
        return ds.map(f)
    if k in ("add", "radd", "merge"):
        new = [stages[x["stage"]] if "stage" in x else vs[x["src"]] for x in op["new"]]
        if k == "merge":
            return pygeode.dataset.asdataset([ds] + new)
        if k == "radd":
            return new + ds
        return ds.add(*new) if op["how"] == "add" else ds + new if op["how"] == "+list" or len(new) > 1 else ds + new[0]
    if k == "rm":
        n = [ds.vars[i].name for i in op["i"]]
        return ds.remove(*n) if op["how"] == "remove" else ds - n if op["how"] == "-list" else ds - n[0]
    if k == "ren":
        m = dict((ds.vars[int(i)].name, x) for i, x in op["map"].items())
        return ds.rename_vars(m) if op["how"] else ds.rename_vars(**m)
    if k == "repl":
        m = {ds.vars[op["i"]].name: vs[op["src"]]}
        return ds.replace_vars(m) if op["how"] else ds.replace_vars(**m)
    if k == "renax":
        return ds.rename_axes(**{keyname(op["key"], names): op["to"]})
    if k == "cat":
        n = keyname(op["key"], names)
        cuts = [0] + op["cuts"] + [None]
        pieces = [ds(**{"i_" + n: (lo, 1 << 20 if hi is None else hi)}) for lo, hi in zip(cuts, cuts[1:])]
        return pygeode.dataset.concat(*pieces) if op["how"] else pygeode.dataset.concat(pieces)
    if k == "copy":
        return ds.copy()
    if k == "load":
        return ds.load()
    raise Invalid(k)


def check_ds(ctx, ds, ents, what, taken):
    """Names, sharing of axes, coordinates, attributes; returns model axis name -> real name."""
    import pygeode
    ctx.check(isinstance(ds, pygeode.Dataset), "not-a-dataset", lambda: "%s gave a %s" % (what, type(ds).__name__))
    ctx.check(len(ds.vars) == len(ents), "variables-lost", lambda: "%s: variables %s, expected %s" % (what, [v.name for v in ds.vars], [e.name for e in ents]))
    vn = [v.name for v in ds.vars]
    ctx.check(len(set(vn)) == len(vn), "names-not-unique", lambda: "%s: variables %s" % (what, vn))
    ctx.check(sorted(ds.vardict) == sorted(vn) and all(ds.vardict[v.name] is v for v in ds.vars), "dictionary-differs", lambda: "%s: vardict has %s, vars are %s" % (what, sorted(ds.vardict), vn))
    ctx.check([v.name for v in ds] == vn and all(n in ds and ds[n] is v for n, v in zip(vn, ds.vars)), "dictionary-differs", lambda: "%s: items are not the variables" % what)
    an = [a.name for a in ds.axes]
    ctx.check(len(set(an)) == len(an), "names-not-unique", lambda: "%s: axes %s" % (what, an))
    ctx.check(sorted(ds.axisdict) == sorted(an) and all(ds.axisdict[a.name] is a for a in ds.axes), "dictionary-differs", lambda: "%s: axisdict has %s, axes are %s" % (what, sorted(ds.axisdict), an))
    ctx.check(all(n in ds and ds.hasaxis(n) and ds.getaxis(n) is a for n, a in ds.axisdict.items()) and all(ds[n] is a for n, a in ds.axisdict.items() if n not in vn), "dictionary-differs", lambda: "%s: axes %s can't be looked up" % (what, an))
    ctx.check("no_such" not in ds and not ds.hasaxis("no_such"), "dictionary-differs", lambda: "%s: has no_such" % what)
    used = set()
    names, back = {}, {}
    for v, e in zip(ds.vars, ents):
        axes_match(ctx, v, e.la, "%s, variable %s" % (what, v.name))
        for ax, a in zip(v.axes, e.la.axes):
            used.add(id(ax))
            ctx.check(any(ax is b for b in ds.axes), "axis-not-shared", lambda: "%s: axis %s of %s is not one of the dataset's" % (what, ax.name, v.name))
            m = M.axname(a)
            ctx.check(names.setdefault(m, ax.name) == ax.name and back.setdefault(ax.name, m) == m, "axes-confused",
                      lambda: "%s: axis %s of %s should be the axis %s of the others" % (what, ax.name, v.name, names[m]))
            if "w" in a:
                w = np.asarray(ax.auxarrays.get("weights", []))
                ctx.check(w.shape == (len(a["v"]),) and np.allclose(w, a["w"]), "weights-lost", lambda: "%s: axis %s of %s has weights %s, expected %s" % (what, ax.name, v.name, w, a["w"]))
        if e.note is not None:
            ctx.check([v.atts.get("note"), v.units] == e.note, "attributes-lost", lambda: "%s: variable %s has attributes %s and units %r, expected %s" % (what, v.name, v.atts, v.units, e.note))
    ctx.check(len(ds.axes) == len(used), "axis-not-shared", lambda: "%s: the dataset lists axes %s, its variables have %d" % (what, an, len(used)))
    if len(used) < sum(len(v.axes) for v in ds.vars):
        ctx.probe("shared-axis")
    return names


def var_state(v):
    return (v.name, v.units, sorted(v.atts.items()), [id(a) for a in v.axes], [(a.name, sorted(a.atts)) for a in v.axes])


def state_of(ds):
    return ([id(v) for v in ds.vars], [var_state(v) for v in ds.vars], [v.name for v in ds.vars], sorted(ds.vardict), [id(a) for a in ds.axes], [a.name for a in ds.axes], sorted(ds.axisdict), sorted(ds.atts.items()))


def execute(sc, ctx):
    info = []
    stages = play(sc, info)
    W = world.World(ctx, sc.get("faults"))
    W.install_allocator()
    try:
        W.limit(1 << 22)
        W.plan.enabled = False
        vs = []
        for i, s in enumerate(sc["srcs"]):
            v = W.source(s, "s%d" % i)
            v.name = s["name"]
            if s.get("told", True):
                v.atts["note"] = s["name"]
            else:
                v.atts.pop("note", None)
            if "units" in s:
                v.units = s["units"]
            vs.append(v)
        vthen = [var_state(v) for v in vs]
        with ctx.sut("building the dataset"):
            ds = [build0(sc, vs)]
        names = [check_ds(ctx, ds[0], stages[0], "the dataset", set())]
        then = [state_of(ds[0])]
        renamed(ctx, sc, None, ds[0], [s["name"] for s in sc["srcs"][:sc["first"]]], "the dataset")
        for k, op in enumerate(sc["ops"]):
            what = "stage %d (%s)" % (k, short(op, 200))
            with ctx.sut(what):
                d = apply(op, ds[-1], ds, vs, names[-1], stages[k])
            ents = stages[k + 1]
            if op["op"] == "load":
                W.reads = []
            some, ax, nm = info[k + 1]
            if some:
                ctx.probe("selection-ignored-by-some")
            if ax:
                ctx.probe("axis-collision")
            if nm:
                ctx.probe("name-collision")
            if op["op"] in ("add", "radd", "merge"):
                ctx.probe("merged")
            if op["op"] == "cat":
                ctx.probe("concatenated")
            names.append(check_ds(ctx, d, ents, what, set()))
            want = expected_names(op, ds[-1], ds, vs, ents)
            if want is not None:
                renamed(ctx, sc, op, d, want, what)
            if op["op"] not in ("add", "radd", "merge"):
                ctx.check(dict(d.atts) == sc["atts"], "attributes-lost", lambda: "%s: dataset attributes %s, expected %s" % (what, d.atts, sc["atts"]))
            elif all("src" in x for x in op["new"]):
                ctx.check(dict(d.atts) == sc["atts"], "attributes-lost", lambda: "%s: dataset attributes %s, expected %s" % (what, d.atts, sc["atts"]))
            else:
                sc_atts = dict(d.atts)
                ctx.check(all(sc["atts"].get(a) == x for a, x in sc_atts.items()), "attributes-lost", lambda: "%s: dataset attributes %s" % (what, d.atts))
            ds.append(d)
            then.append(state_of(d))
            for j, (x, t) in enumerate(zip(ds, then)):
                ctx.check(state_of(x) == t, "dataset-modified", lambda: "%s changed the dataset of stage %d" % (what, j))
            for j, (x, t) in enumerate(zip(vs, vthen)):
                ctx.check(var_state(x) == t, "variable-modified", lambda: "%s changed the variable s%d: %s, was %s" % (what, j, var_state(x), t))
        if not any(op["op"] == "load" for op in sc["ops"]):
            ctx.check(not W.reads, "read-while-building", lambda: "building the datasets read %s" % (W.reads[:3],))
        W.plan.enabled = True
        W.plan.n = 0
        # requests, as of any variable
        flat, pv, nodes, at = [], [], [], {}
        for st, (d, ents) in enumerate(zip(ds, stages)):
            for i, (v, e) in enumerate(zip(d.vars, ents)):
                at[st, i] = len(flat)
                flat.append(e.la)
                pv.append(v)
                nodes.append({"op": "stage" if st == 0 else sc["ops"][st - 1]["op"]})
        reqs = []
        for r in sc["reqs"]:
            if tuple(r["node"]) not in at:
                raise Invalid("node")
            reqs.append(dict(r, node=at[tuple(r["node"])]))
        mag = max([magnitude([s.la], {"nodes": [{}]}, 0) for st in stages for s in st if s.la.arr.size] + [1.0])

        def cmp(sc2, ctx, vals, k, got, want, what, idx):
            compare(ctx, got, want, what, rtol=1e-9, atol=0 if want.dtype.kind == "b" else 1e-9 * mag * max(1, vals[0].arr.size))
        run_requests({"reqs": reqs, "nodes": nodes, "srcs": sc["srcs"]}, ctx, W, pv, flat, cmp=cmp)
        W.plan.enabled = False
        for j, (x, t) in enumerate(zip(ds, then)):
            ctx.check(state_of(x) == t, "dataset-modified", lambda: "requests changed the dataset of stage %d" % j)
        # (what is written on one of them later is not written on the others)
        for j, x in enumerate(ds):
            x.atts["mark"] = j
        for j, x in enumerate(ds):
            ctx.check(x.atts["mark"] == j, "dataset-modified", lambda: "the datasets of stages %d and %d share their attributes" % (j, x.atts["mark"]))
        W.check_sources_intact()
    finally:
        W.uninstall()


def expected_names(op, before, ds, vs, ents):
    """What each variable was called when it was handed in."""
    k = op["op"]
    old = [v.name for v in before.vars]
    if k in ("call", "renax", "cat", "copy", "load", "map"):
        if k == "map":
            return [n if i != op.get("to", [-1])[0] else vs[op["to"][1]].name for i, n in enumerate(old) if i not in op["drop"]]
        return old
    if k == "rm":
        return [n for i, n in enumerate(old) if i not in op["i"]]
    if k == "ren":
        return [op["map"].get(str(i), n) for i, n in enumerate(old)]
    if k == "repl":
        return [vs[op["src"]].name if i == op["i"] else n for i, n in enumerate(old)]
    if k in ("add", "radd", "merge"):
        for x in op["new"]:
            old = old + ([vs[x["src"]].name] if "src" in x else [v.name for v in ds[x["stage"]].vars])
        return old
    return None


def renamed(ctx, sc, op, d, given, what):
    """Names that collide with no other stay as they are."""
    given = [g or "var" for g in given]
    for v, g in zip(d.vars, given):
        if given.count(g) == 1:
            ctx.check(v.name == g, "renamed", lambda: "%s: variable %s became %s though no other has its name" % (what, g, v.name))
        else:
            ctx.check(v.name.startswith(g), "renamed", lambda: "%s: variable %s became %s" % (what, g, v.name))


def shrinks(sc):
    for i in range(len(sc["reqs"])):
        if len(sc["reqs"]) > 1:
            c = copy.deepcopy(sc)
            del c["reqs"][i]
            yield c
    for i in range(len(sc["ops"])):
        c = copy.deepcopy(sc)
        del c["ops"][i]
        for r in c["reqs"]:
            if r["node"][0] > i:
                r["node"][0] -= 1
        yield c
    for i, r in enumerate(sc["reqs"]):
        if r["kind"] != "get":
            c = copy.deepcopy(sc)
            c["reqs"][i] = {"kind": "get", "limit": r["limit"], "node": r["node"]}
            yield c
        if r["limit"] != 1 << 22:
            c = copy.deepcopy(sc)
            c["reqs"][i]["limit"] = 1 << 22
            yield c
    if sc["faults"]:
        c = copy.deepcopy(sc)
        c["faults"] = {}
        yield c
    if sc["first"] > 1:
        c = copy.deepcopy(sc)
        c["first"] -= 1
        yield c
    for k, op in enumerate(sc["ops"]):
        for f in ("new", "kw"):
            for i in range(len(op.get(f, []))):
                if len(op[f]) > 1:
                    c = copy.deepcopy(sc)
                    del c["ops"][k][f][i]
                    yield c
    if len(sc["srcs"]) > sc["first"]:
        c = copy.deepcopy(sc)
        c["srcs"].pop()
        yield c
    for i, s in enumerate(sc["srcs"]):
        for key in ("nan", "alias", "dtype"):
            if key in s:
                c = copy.deepcopy(sc)
                del c["srcs"][i][key]
                yield c
        for j, a in enumerate(s["axes"]):
            L = len(a["v"])
            for m in (1, L // 2, L - 1):
                if 1 <= m < L:
                    c = copy.deepcopy(sc)
                    c["srcs"][i]["axes"][j] = M.axtake(a, range(m))
                    yield c
            if len(s["axes"]) > 1:
                c = copy.deepcopy(sc)
                del c["srcs"][i]["axes"][j]
                yield c
