from props.exprbase import *
import files
import netCDF4, cftime

ID = "P09"
LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 40000}
RULE = ("one case = a dataset (sources of every data type, lazily computed variables, attributes) saved with seeded options under a seeded memory limit on the simulated disk, then opened by a seeded reader and asked for "
        "seeded regions under further limits; the file is also read by the netCDF4 package alone; non-trivial if a file was written and read; distinct by scenario")
STATE_MEASURE = "distinct (writer, version, options, data type, number of write calls, reader) tuples"
REAL = ["pygeode.formats (netcdf, netcdf4, cfmeta)", "libnetcdf and HDF5 (system and bundled)", "views and chunked evaluation"]
STUB = ["data sources", "memory limit", "contents of uninitialised memory", "disk (short writes, interrupted calls are P10/P11)"]
ASSUMPTIONS = ["the netCDF4 python package and cftime read files correctly"]
PROBES = ["chunked-save", "packed", "compressed", "unlimited", "groups", "missing-values", "integer-type", "no-cfmeta", "overwrote-a-file", "attribute-kinds", "renamed-axis", "climatological-time"]

GROUPNAMES = ["g1", "model", "obs"]
WORDS = ["precip", "t2m", "U", "v_wind", "T850", "o3", "w_star", "zg", "Q1"]


def gen_atts(rng, n, kind):
    out = {}
    names = ["note", "history", "source", "comment", "level", "coeffs", "code", "ref", "title", "factor"]
    for nm in rng.sample(names, n):
        k = rng.randrange(8)
        if k == 0:
            v = rng.pick(["a b", "multi\nline", "x" * 300, "degr\u00e9s", "1", "\u6e29\u5ea6", "quote\"'"])
        elif k == 1:
            v = rng.pick([0, 7, -3, 2147483647, -2147483648])
        elif k == 2:
            v = rng.pick([0.0, 1.5, -2.25e-30, 1e20])
        elif k == 3:
            v = [round(rng.uniform(-5, 5), 3) for _ in range(rng.pick([2, 3, 7]))]
        elif k == 4:
            v = [rng.randrange(-1000, 1000) for _ in range(rng.pick([2, 3]))]
        elif k == 5:
            v = {"t": rng.pick(["i1", "i2", "f4", "u1", "i4"]), "v": [rng.randrange(0, 100) for _ in range(rng.pick([1, 2, 3]))]}
        elif k == 6 and kind == "odd":
            v = {"t": "odd"}      # a value no file format holds: may be dropped, alone
        else:
            v = rng.pick(["ERA5", "test run"])
        out[nm] = v
    return out


def real_atts(atts):
    out = {}
    for k, v in atts.items():
        if isinstance(v, dict):
            out[k] = {1, 2} if v["t"] == "odd" else np.array(v["v"], v["t"])
        elif isinstance(v, list):
            out[k] = np.array(v)
        else:
            out[k] = v
    return out


CLIM = ["climatology", "dailymean", "monthlymean", "yearlymean", "seasonalmean", "diurnalmean", "climstdev", "dayfields", "monthfields", "yearless", "yearless"]


def gen_clim(rng):
    """A variable over a time axis that lacks some fields of the date."""
    cal = rng.pick(sorted(M.TIME))
    op = rng.pick([x for x in CLIM if x != "seasonalmean" or cal == "std"])
    a = gen_axis(rng, cal, 4)
    step = rng.pick([1, 1, 1, 5, 0.25]) if op != "diurnalmean" else rng.pick([0.25, 0.125, 0.5])
    n = rng.pick([1, 2, 5, 40]) if step < 1 else rng.pick([1, 2, 20, 100, 400, 800])
    a["u"] = rng.pick(["days", "days", "hours", "minutes", "seconds"])
    f = {"days": 1, "hours": 24, "minutes": 1440, "seconds": 86400}[a["u"]]
    off = rng.pick([0, 0, 0.5, 100])
    a["v"] = [(off + step * i) * float(f) for i in range(n)]
    c = {"op": op, "ax": a, "seed": rng.randrange(1 << 30), "fmt": rng.pick(["netcdf", "netcdf4"]), "v": rng.pick([3, 4]), "rd": rng.pick(["netcdf", "netcdf4"]), "again": rng.chance(0.3),
         "limit": gen_limit(rng, n), "ulimit": rng.chance(0.2), "lat": rng.pick([0, 0, 3]), "n": rng.pick([1, 3, 9]), "step": rng.pick([1, 2, 0.25]), "start": {"day": rng.pick([0, 1, 5])}}
    if rng.chance(0.4):
        c["start"]["hour"] = rng.randrange(24)
        if rng.chance(0.5):
            c["start"]["minute"] = rng.randrange(60)
    return {"clim": c}


def execute_clim(c, ctx):
    import pygeode as pg
    from pygeode import climat, timeutils
    W = world.World(ctx)
    W.install_allocator()
    D = files.Disk(ctx)
    try:
        W.limit(1 << 22)
        a = c["ax"]
        axes = [a] + ([{"c": "lat", "v": [float(i) for i in range(c["lat"])]}] if c["lat"] else [])
        if c["op"] == "yearless":
            f = {"days": 1, "hours": 24, "minutes": 1440, "seconds": 86400}[a["u"]]
            t = pg.timeaxis.Yearless(units=a["u"], startdate=dict(c["start"]), values=np.arange(c["n"]) * float(c["step"] * f))
            x = pg.Var([t] + [world.mkaxis(z) for z in axes[1:]], values=np.arange(c["n"] * max(1, c["lat"]), dtype="f8").reshape([c["n"]] + [c["lat"]] * bool(c["lat"])))
        else:
            x = W.source({"axes": axes, "seed": c["seed"], "mode": "getview", "dtype": "f8", "style": "normal"}, "s")
            with ctx.sut(c["op"]):
                if c["op"] == "dayfields":
                    x = x.replace_axes(time=timeutils.modify(x.axes[0], exclude="year")) if len(set(y for y in x.axes[0].year)) == 1 else x
                elif c["op"] == "monthfields":
                    x = x.replace_axes(time=timeutils.modify(x.axes[0], resolution="month")) if len(a["v"]) == 1 else x
                else:
                    x = getattr(climat, c["op"])(x)
        x.name = "T"
        t = x.axes[0]
        want = np.array(x.get())
        fields = dict((k, np.array(v)) for k, v in t.auxarrays.items() if k != "season")
        cls = [z for z in (pg.timeaxis.StandardTime, pg.timeaxis.ModelTime365, pg.timeaxis.ModelTime360, pg.timeaxis.Yearless) if isinstance(t, z)][0]
        y = x
        for r in range(2 if c["again"] else 1):
            path = "c%d.nc" % r
            D.arm()
            W.limit(c["limit"])
            with ctx.sut("saving"):
                kw = {"unlimited": "time"} if c["ulimit"] else {}
                pg.save(path, y, format=c["fmt"], version=c["v"], **kw)
            D.settle()
            with ctx.sut("opening"):
                z = pg.open(path, format=c["rd"])["T"]
            zt = z.axes[0]
            ctx.check(isinstance(zt, cls), "wrong-axis-class", lambda: "the time axis is a %s, expected %s" % (type(zt).__name__, cls.__name__))
            ctx.check(len(zt) == len(t), "wrong-coordinates", lambda: "%d times, expected %d" % (len(zt), len(t)))
            for k, w in fields.items():
                ctx.check(k in zt.auxarrays and np.array_equal(np.asarray(zt.auxarrays[k]), w), "wrong-dates", lambda: "%s of the times is %s, expected %s" % (k, short(zt.auxarrays.get(k)), short(w)))
            ctx.check("year" in fields or "year" not in zt.auxarrays, "wrong-dates", lambda: "the times have years %s, those saved had none" % short(zt.auxarrays["year"]))
            ctx.check([q.name for q in z.axes] == [q.name for q in x.axes], "wrong-axes", lambda: "axes %s, expected %s" % ([q.name for q in z.axes], [q.name for q in x.axes]))
            with ctx.sut("reading"):
                got = z.get()
            compare(ctx, got, want, "values", rtol=1e-9, atol=1e-9 * max(1.0, float(np.abs(want).max())) if np.isfinite(want).any() else 0)
            y = z
        ctx.probe("climatological-time")
        ctx.state("clim", c["op"], a["c"], a["u"], c["fmt"], c["v"], c["rd"])
        ctx.log("clim", digest_array(got), [int(q) for k in sorted(fields) for q in fields[k][:5]])
        ctx.trivial = False
    finally:
        W.uninstall()


def gen(rng, tier, small=False):
    if not small and rng.chance(0.1):
        return gen_clim(rng)
    while True:
        P = Prog(rng)
        axes = gen_axes(rng, maxsize=rng.pick([20, 60] if small else [20, 60, 200, 600]))
        P.add_src(gen_source(rng, axes, dtype="f8"))
        for _ in range(rng.pick([0, 1, 1, 2, 3])):
            sa = rng.subset(axes, 0) if rng.chance(0.6) else related_axes(rng, axes)
            kw = {"dtype": "f8"}
            x = rng.random()
            if x < 0.45:
                kw = {"dtype": rng.pick(["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]), "style": "int", "nan": 0}
            elif x < 0.65:
                kw = {"dtype": "f4"}
            P.add_src(gen_source(rng, sa, **kw))
        f8 = [k for k in range(len(P.srcs)) if P.srcs[k]["dtype"] == "f8"]
        for _ in range(rng.pick([0, 0, 1, 2])):
            nm = rng.pick(BASIC)
            o = OPS[nm]
            pool = f8 + list(range(len(P.srcs), len(P.nodes)))
            args = [rng.pick(pool) for _ in range(o.nargs)]
            k = P.try_op(nm, args)
            if k is not None and (P.vals[k].arr.dtype.kind != "f" or P.vals[k].arr.size > 1500 or P.vals[k].arr.size == 0):
                P.nodes.pop(); P.vals.pop()
        ks = rng.subset(range(len(P.nodes)), 1, 4)
        if not legal({"srcs": P.srcs, "nodes": P.nodes}):
            continue
        break
    names = rng.sample(WORDS, len(ks))
    fmt = rng.pick(["netcdf", "netcdf4"])
    sc = {"srcs": P.srcs, "nodes": P.nodes, "fmt": fmt, "version": rng.pick([3, 3, 4]) if rng.chance(0.8) else None, "cfmeta": rng.chance(0.85), "rcf": rng.chance(0.85),
          "reader": rng.pick(["netcdf", "netcdf4"]), "limit": gen_limit(rng, max(P.vals[k].arr.size for k in ks)), "vars": [], "reqs": []}
    odd = "odd" if fmt == "netcdf" and rng.chance(0.3) else ""
    for k, nm in zip(ks, names):
        v = {"node": k, "name": nm, "atts": gen_atts(rng, rng.pick([0, 0, 1, 3]), odd)}
        if rng.chance(0.3):
            v["atts"]["units"] = rng.pick(["K", "m s-1", "kg/kg"])
        elif rng.chance(0.2):
            v["units"] = rng.pick(["K", "m s-1", "kg/kg"])       # (told to the variable, not an attribute)
        if rng.chance(0.2):
            v["atts"]["long_name"] = "some quantity"
        if P.nodes[k]["op"] == "src" and P.srcs[k]["dtype"] in ("f8", "f4") and rng.chance(0.15):
            v["fill"] = rng.pick([-999.0, 1e20, 0.0])
            v["fillname"] = rng.pick(["_FillValue", "missing_value"])
        sc["vars"].append(v)
    if rng.chance(0.5):
        sc["gatts"] = gen_atts(rng, rng.pick([1, 3]), odd)
    if rng.chance(0.25) and all(P.nodes[k]["op"] == "src" for k in ks):
        sc["axatts"] = gen_atts(rng, 1, "")
    if rng.chance(0.2):
        sc["compress"] = True
    if rng.chance(0.2):
        sc["pack"] = True if rng.chance(0.6) else rng.subset(names, 1)
        for v in sc["vars"]:
            if packed(sc, v):
                v.pop("fill", None)
    if rng.chance(0.25):
        sc["unlimited"] = rng.randrange(4)
    if fmt == "netcdf4" and rng.chance(0.15):
        sc["groups"] = [rng.pick(GROUPNAMES) for _ in ks]
        sc["reader"] = "netcdf4"
        sc["version"] = 4
    if len(ks) == 1 and rng.chance(0.3):
        sc["single"] = True
    if rng.chance(0.2):
        sc["pre"] = rng.pick(["file", "older", "same", "same"])
    if rng.chance(0.2):
        sc["how"] = "auto"
    if len(timeaxes(sc, P.vals)) > 1:
        sc["cfmeta"] = sc["rcf"] = True
    for _ in range(rng.randint(1, 4)):
        i = rng.randrange(len(ks))
        r = gen_request(rng, P.vals[ks[i]], ks[i])
        r["var"] = i
        sc["reqs"].append(r)
    return sc


ZCLS = {"hgt": "ZAxis", "nam": "NamedAxis"}


def check_axis(ctx, ax, a, what, cf, dummy_ok=False):
    import pygeode as pg
    if cf:
        want, got = M.axcoord(a), world.axis_coord(ax)
        cls = pg.axis.ZAxis if a["c"] == "hgt" else world.axcls(a["c"])
        ctx.check(isinstance(ax, cls), "wrong-axis-class", lambda: "%s: axis %s is a %s, expected %s" % (what, ax.name, type(ax).__name__, cls.__name__))
        if a["c"] in M.TIME and len(got) == len(want):
            # dates as such, too
            pass
    else:
        want, got = [float(x) for x in a["v"]], [float(x) for x in ax.values]
    ctx.check(len(got) == len(want) and M.same(got, want), "wrong-coordinates", lambda: "%s: axis %s has coordinates %s, expected %s" % (what, ax.name, short(got), short(want)))
    if cf and "w" in a:
        w = getattr(ax, "weights", None)
        ctx.check(w is not None and np.allclose(np.asarray(w), a["w"], rtol=1e-6), "lost-weights", lambda: "%s: axis %s has weights %s, expected %s" % (what, ax.name, short(w), short(a["w"])))


def pack_tol(sc, v, x):
    """Half a step of 16-bit packing."""
    if not packed(sc, v):
        return None
    f = np.asarray(x, float)
    f = f[np.isfinite(f)]
    if not f.size:
        return 0.0
    return float(f.max() / 65534.0 - f.min() / 65534.0) * 0.505 + float(np.abs(f).max()) * 3e-7


def packed(sc, v):
    p = sc.get("pack")
    return bool(p) and (p is True or v["name"] in p)


def build_dataset(sc, W, ctx, vals):
    import pygeode as pg
    W.limit(1 << 22)
    pv = build_vars(sc, W, ctx)
    for k, nd in enumerate(sc["nodes"]):
        if nd["op"] != "src":
            axes_match(ctx, pv[k], vals[k], "node %d (%s)" % (k, nd["op"]))
    out = []
    for v in sc["vars"]:
        x = pv[v["node"]]
        if any(x is y for y in out):
            x = x.rename("other")       # an operation that returned its operand
        x.name = v["name"]
        x.atts = real_atts(v["atts"])
        if "units" in v:
            x.units = v["units"]
        if "fill" in v:
            x.atts[v["fillname"]] = np.dtype(sc["srcs"][sc["nodes"][v["node"]]["i"]]["dtype"]).type(v["fill"])
        if sc.get("axatts"):
            for a in x.axes:
                a.atts = real_atts(sc["axatts"])
        out.append(x)
    return out


def stored(sc, vals, v):
    """The values a save must preserve."""
    x = vals[v["node"]].arr
    if "fill" in v:                  # a value equal to the declared missing value is missing
        x = np.where(x == np.asarray(v["fill"], x.dtype), np.nan, x)
    return x


def timeaxes(sc, vals):
    """The distinct time axes saved: without metadata, those of the same dates share one coordinate variable whatever their reference date."""
    return set(repr(sorted(a.items())) for v in sc["vars"] for a in vals[v["node"]].axes if a["c"] in M.TIME)


def save_kw(sc, ds):
    kw = {}
    if sc.get("version"):
        kw["version"] = sc["version"]
    if sc.get("compress"):
        kw["compress"] = True
    if sc.get("pack"):
        kw["pack"] = sc["pack"]
    if not sc["cfmeta"]:
        kw["cfmeta"] = False
    if "unlimited" in sc and "groups" not in sc:
        names = [a.name for a in ds.axes]
        if names:
            u = names[sc["unlimited"] % len(names)]
            v3 = not sc.get("compress") and (sc.get("version") or (3 if sc["fmt"] == "netcdf" else 4)) == 3
            ok = not v3 or all(u not in [a.name for a in v.axes] or v.axes[0].name == u for v in ds.vars)
            if v3 and sc["cfmeta"]:    # auxiliary arrays of an axis become variables of their own: still fine
                pass
            if ok:
                kw["unlimited"] = u
    return kw


def validate(sc, vals):
    if not legal(sc):
        raise Invalid("ill-posed")
    for v in sc["vars"]:
        x = vals[v["node"]]
        if x is None or x.arr.size == 0 or x.arr.dtype.kind == "b":
            raise Invalid("variable")
        if packed(sc, v) and np.isinf(np.asarray(x.arr, float)).any():
            raise Invalid("infinite values cannot be packed")
        if "fill" in v and packed(sc, v):
            raise Invalid("fill and pack")
    if not (sc["cfmeta"] and sc["rcf"]) and len(timeaxes(sc, vals)) > 1:
        raise Invalid("several time axes without metadata")
    if len(set(v["name"] for v in sc["vars"])) < len(sc["vars"]) or len(set(v["node"] for v in sc["vars"])) < len(sc["vars"]):
        raise Invalid("names")


def do_save(sc, pv, path, ctx, **over):
    import pygeode as pg
    ds = pg.Dataset(pv, atts=real_atts(sc.get("gatts", {})), print_warnings=False)
    kw = save_kw(sc, ds)
    kw.update(over)
    if kw.get("unlimited"):
        ctx.probe("unlimited")
    if any(a.name[-2:].isdigit() and a.name[:-2] in ("lat", "lon", "pres", "time", "z", "x", "y") for a in ds.axes):
        ctx.probe("renamed-axis")
    what = {"netcdf": sc["fmt"], "netcdf4": sc["fmt"]}[sc["fmt"]]
    if "groups" in sc:
        g = {}
        for v, x in zip(sc["vars"], pv):
            g.setdefault(sc["groups"][sc["vars"].index(v)], []).append(x)
        g = dict((k, pg.Dataset(x, print_warnings=False)) for k, x in g.items())
        pg.save(path, g, format="netcdf4", **kw)
        return ds, kw
    obj = pv[0] if sc.get("single") else ds
    if sc.get("single"):
        sc.setdefault("gatts", {})
    if sc.get("how") == "auto" and sc["fmt"] == "netcdf4":
        pg.save(path, obj, **kw)
    else:
        pg.save(path, obj, format=sc["fmt"], **kw)
    return ds, kw


def check_raw(sc, ctx, vals, path):
    """What the file holds, read by the netCDF4 package."""
    with ctx.sut("reading the file with the netCDF4 package"):
        R = files.raw(path)
    cf = sc["cfmeta"]
    seen = []
    for i, v in enumerate(sc["vars"]):
        R1 = R["groups"].get(sc["groups"][i]) if "groups" in sc else R
        ctx.check(R1 is not None and v["name"] in R1["vars"], "file-lacks-variable", lambda: "%s is not in the file (%s)" % (v["name"], sorted(R["vars"])))
        fv, la = R1["vars"][v["name"]], vals[v["node"]]
        want = stored(sc, vals, v)
        t = pack_tol(sc, v, want)
        compare(ctx, fv["x"], want, "file contents of %s" % v["name"], rtol=0 if t is None else 1e-6, atol=tol_of(sc, vals, v) if t is None else t, kind="wrong-file-contents")
        if t is None and want.dtype.kind in "iu" and np.asarray(fv["raw"]).dtype.kind in "iu":
            ctx.check(bool(np.all(np.asarray(fv["raw"]).astype(object) == want.astype(object))), "wrong-file-contents", "integers of %s" % v["name"])
        for d, a in zip(fv["dims"], la.axes):
            dv = R1["vars"].get(d)
            ctx.check(dv is not None, "file-lacks-coordinates", lambda: "no coordinates of dimension %s" % d)
            if cf and a["c"] in M.TIME:
                cal = {"std": "standard", "m365": "365_day", "m360": "360_day"}[a["c"]]
                ctx.check(dv["atts"].get("calendar") == cal, "wrong-calendar", lambda: "calendar %r" % (dv["atts"].get("calendar"),))
                dates = cftime.num2date(dv["raw"].astype(float), dv["atts"]["units"], cal)
                got = [(x.year, x.month, x.day, x.hour, x.minute, x.second + (1 if x.microsecond > 500000 else 0)) for x in dates]
                ctx.check(got == [tuple(x) for x in M.axdates(a)], "wrong-dates-in-file", lambda: "%s holds %s (%s), expected %s" % (d, short(got), dv["atts"]["units"], short(M.axdates(a))))
            else:
                ctx.check(M.same([float(x) for x in dv["raw"]], [float(x) for x in a["v"]]), "wrong-coordinates-in-file", lambda: "%s holds %s, expected %s" % (d, short(dv["raw"]), short(a["v"])))
    return R


def tol_of(sc, vals, v):
    nd = sc["nodes"][v["node"]]
    if nd["op"] == "src":
        return 0.0
    return tolerance(sc, vals, v["node"])


def reopen(sc, path, ctx):
    import pygeode as pg
    kw = {} if sc["rcf"] else {"cfmeta": False}
    return pg.open(path, format=sc["reader"], **kw)


def check_meta(sc, ctx, vals, got):
    """Names, axes and attributes of the reopened dataset; returns its variables in order."""
    cf = sc["cfmeta"] and sc["rcf"]
    out = []
    if "groups" in sc:
        ctx.check(isinstance(got, dict) and sorted(got) == sorted(set(sc["groups"])), "wrong-groups", lambda: "opened %s, expected groups %s" % (short(got), sorted(set(sc["groups"]))))
    else:
        names = sorted(x.name for x in got.vars)
        want = sorted(v["name"] for v in sc["vars"])
        if not cf:        # auxiliary arrays of axes are variables of their own then
            names = [n for n in names if n in want]
        ctx.check(names == want, "wrong-names", lambda: "opened variables %s, expected %s" % (names, want))
        if not sc.get("single"):
            for k, w in real_atts(sc.get("gatts", {})).items():
                if isinstance(w, set):
                    continue
                ctx.check(k in got.atts and files.att_equal(got.atts[k], w), "lost-attribute", lambda: "global attribute %s is %s, expected %s" % (k, short(got.atts.get(k)), short(w)))
    for i, v in enumerate(sc["vars"]):
        D = got[sc["groups"][i]] if "groups" in sc else got
        cf2 = cf if "groups" not in sc else sc["cfmeta"]
        x, la = D[v["name"]], vals[v["node"]]
        ctx.check(len(x.axes) == len(la.axes), "wrong-axes", lambda: "%s has axes %s, expected %s" % (v["name"], [a.name for a in x.axes], [M.axname(a) for a in la.axes]))
        for ax, a in zip(x.axes, la.axes):
            check_axis(ctx, ax, a, v["name"], cf2)
            if sc.get("axatts"):
                for k, w in real_atts(sc["axatts"]).items():
                    ctx.check(k in ax.atts and files.att_equal(ax.atts[k], w), "lost-attribute", lambda: "attribute %s of axis %s is %s, expected %s" % (k, ax.name, short(ax.atts.get(k)), short(w)))
        u = v["atts"].get("units", v.get("units"))
        if cf2 and isinstance(u, str):
            ctx.check(x.units == u, "wrong-units", lambda: "%s has units %r, expected %r" % (v["name"], x.units, u))
        for k, w in real_atts(v["atts"]).items():
            if isinstance(w, set):
                continue
            ctx.check(k in x.atts and files.att_equal(x.atts[k], w), "lost-attribute", lambda: "attribute %s of %s is %s, expected %s" % (k, v["name"], short(x.atts.get(k)), short(w)))
        out.append(x)
    return out


def check_requests(sc, ctx, W, vals, out, reqs):
    for j, r in enumerate(reqs):
        v = sc["vars"][r["var"]]
        x, la = out[r["var"]], LA(vals[v["node"]].axes, stored(sc, vals, v))
        want, idx = expected_request(r, la)
        W.limit(r["limit"])
        what = "request %d (%s of %s)" % (j, r["kind"], v["name"])
        with ctx.sut(what):
            got = do_request(r, x, la, ctx)
        if packed(sc, v) and not (sc["rcf"] or "groups" in sc):
            continue             # the raw integers were asked for
        t = pack_tol(sc, v, la.arr)
        compare(ctx, got, want, what, rtol=0 if t is None else 1e-6, atol=(tol_of(sc, vals, v) if t is None else t))
        if t is None and want.dtype.kind in "iu" and np.asarray(got).dtype.kind in "iu":
            ctx.check(bool(np.all(np.asarray(got).astype(object) == want.astype(object))), "wrong-value", what + ": integers differ")
        ctx.log("req", j, digest_array(got))


def execute(sc, ctx):
    import pygeode as pg
    if "clim" in sc:
        return execute_clim(sc["clim"], ctx)
    vals = model_values(sc)
    validate(sc, vals)
    if "fill" in str(sc["vars"]) and not sc["rcf"]:
        for v in sc["vars"]:
            if "fill" in v and np.any(np.asarray(vals[v["node"]].arr) == np.asarray(v["fill"], vals[v["node"]].arr.dtype)):
                raise Invalid("raw fill values")
    W = world.World(ctx)
    W.install_allocator()
    D = files.Disk(ctx)
    try:
        pv = build_dataset(sc, W, ctx, vals)
        path = "out.nc"
        if sc.get("pre"):
            ctx.probe("overwrote-a-file")
            if sc["pre"] == "file":
                with open(path, "wb") as f:
                    f.write(b"not a netcdf file" * 100)
            elif sc["pre"] == "same":       # variables and dimensions of the same names, of other lengths; read before it is overwritten
                save_related(sc, ctx, vals, path)
            else:
                old = pg.Var([pg.Lat(np.arange(30.)), pg.NamedAxis(np.arange(7), "k")], values=np.ones((30, 7)), name="stale", atts={"stale": "yes"})
                pg.save(path, old, format="netcdf4")
        W.limit(sc["limit"])
        D.arm()
        with ctx.sut("saving"):
            ds, kw = do_save(sc, pv, path, ctx)
        n, c = D.settle()
        ctx.log("saved", sorted(kw.items(), key=str))
        W.check_sources_intact()
        for v in sc["vars"]:
            x = vals[v["node"]].arr
            if x.size > sc["limit"]:
                ctx.probe("chunked-save")
            if x.dtype.kind in "iu":
                ctx.probe("integer-type")
            if x.dtype.kind == "f" and np.isnan(x).any():
                ctx.probe("missing-values")
            if len(v["atts"]) > 1:
                ctx.probe("attribute-kinds")
            ctx.state(sc["fmt"], sc.get("version"), bool(sc.get("compress")), bool(sc.get("pack")), kw.get("unlimited"), sc["cfmeta"], x.dtype.str, c["write"], sc["reader"])
        for k, p in (("pack", "packed"), ("compress", "compressed"), ("groups", "groups")):
            if sc.get(k):
                ctx.probe(p)
        if not sc["cfmeta"] or not sc["rcf"]:
            ctx.probe("no-cfmeta")
        ctx.trivial = False
        W.limit(1 << 22)
        ctx.check(not [p for p in D.openfds() if p.endswith("out.nc")], "file-left-open", lambda: "after saving: %s" % D.openfds())
        R = check_raw(sc, ctx, vals, path)
        with ctx.sut("opening"):
            got = reopen(sc, path, ctx)
        out = check_meta(sc, ctx, vals, got)
        check_requests(sc, ctx, W, vals, out, sc["reqs"])
    finally:
        W.uninstall()


def save_related(sc, ctx, vals, path):
    import gc
    import pygeode as pg
    old, axes = [], {}
    for v in sc["vars"]:
        A = []
        for a in vals[v["node"]].axes:
            key = repr(sorted(a.items()))
            if key not in axes:
                n = len(a["v"])
                a2 = M.axtake(a, range(n - 1)) if n > 2 and n % 2 else M.axtake(a, range(n - n // 3))
                axes[key] = a2
            A.append(axes[key])
        x = np.arange(np.prod([len(a["v"]) for a in A], dtype=int), dtype="f8").reshape([len(a["v"]) for a in A]) - 1000
        old.append((v["name"], A, x))
    ds = pg.Dataset([pg.Var([world.mkaxis(a) for a in A], values=x, name=nm) for nm, A, x in old], print_warnings=False)
    with ctx.sut("saving and reading the earlier file"):
        pg.save(path, ds, format=sc["fmt"])
        got = pg.open(path, format=sc["reader"])
        for nm, A, x in old:
            y = got[nm].get()
            ctx.check(y.shape == x.shape and bool(np.all(y == x)), "wrong-value", lambda: "the earlier file: %s is %s" % (nm, short(y)))
    del got
    gc.collect()


def shrinks(sc):
    if "clim" in sc:
        c0 = sc["clim"]
        for k, v in (("again", False), ("ulimit", False), ("lat", 0), ("limit", 1 << 22), ("n", 1)):
            if c0[k] != v:
                yield {"clim": dict(c0, **{k: v})}
        L = len(c0["ax"]["v"])
        for m in (1, L // 2, L - 1):
            if 1 <= m < L:
                yield {"clim": dict(c0, ax=dict(c0["ax"], v=c0["ax"]["v"][:m]))}
        return
    for i in range(len(sc["reqs"])):
        if len(sc["reqs"]) > 1:
            c = copy.deepcopy(sc)
            del c["reqs"][i]
            yield c
    for i in range(len(sc["vars"])):
        if len(sc["vars"]) > 1 and "groups" not in sc:
            c = copy.deepcopy(sc)
            del c["vars"][i]
            c["reqs"] = [dict(r, var=r["var"] - (r["var"] > i)) for r in c["reqs"] if r["var"] != i]
            yield c
    for k in ("gatts", "axatts", "compress", "pack", "unlimited", "groups", "pre", "how"):
        if k in sc:
            c = copy.deepcopy(sc)
            del c[k]
            yield c
    for i, v in enumerate(sc["vars"]):
        for a in v["atts"]:
            c = copy.deepcopy(sc)
            del c["vars"][i]["atts"][a]
            yield c
        for a in sc["nodes"][v["node"]].get("a", []):
            if a not in [w["node"] for w in sc["vars"]]:
                c = copy.deepcopy(sc)
                c["vars"][i]["node"] = a
                yield c
    used = set()
    todo = [v["node"] for v in sc["vars"]]
    while todo:
        k = todo.pop()
        used.add(k)
        todo += sc["nodes"][k].get("a", [])
    if len(used) < len(sc["nodes"]):
        order = sorted(used)
        pos = dict((k, i) for i, k in enumerate(order))
        c = copy.deepcopy(sc)
        c["nodes"] = []
        srcs = []
        for k in order:
            nd = copy.deepcopy(sc["nodes"][k])
            if nd["op"] == "src":
                srcs.append(nd["i"])
                nd["i"] = len(srcs) - 1
            else:
                nd["a"] = [pos[a] for a in nd["a"]]
            c["nodes"].append(nd)
        c["srcs"] = [sc["srcs"][i] for i in srcs]
        for v in c["vars"]:
            v["node"] = pos[v["node"]]
        for r in c["reqs"]:
            r["node"] = pos.get(r["node"], 0)
        yield c
    if all(nd["op"] == "src" for nd in sc["nodes"]):
        for i, s in enumerate(sc["srcs"]):
            for j, a in enumerate(s["axes"]):
                c = copy.deepcopy(sc)
                del c["srcs"][i]["axes"][j]
                c["reqs"] = [r for r in c["reqs"] if sc["nodes"][sc["vars"][r["var"]]["node"]].get("i") != i] or [{"var": 0, "node": 0, "kind": "get", "limit": 1 << 22}]
                yield c
                L = len(a["v"])
                for m in (1, L // 2, L - 1):
                    if 1 <= m < L:
                        c = copy.deepcopy(sc)
                        c["srcs"][i]["axes"][j] = M.axtake(a, range(m))
                        yield c
