import io, contextlib
from props.exprbase import *
import props.p01 as p01
import files
from ops_time import gen_time

ID = "P12"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 50000}
RULE = ("one case = a record divided into files (possibly some missing), a way of opening them (open_multi or openall, real netCDF files or a simulated opener, the file list in any order) and a history of 2-8 steps: "
        "requests of seeded regions at seeded memory limits, files vanishing / being damaged / coming back, each request possibly under a fault plan; non-trivial if a request spanned two files or failed on a fault; distinct by scenario")
STATE_MEASURE = "distinct (opening function, opener, files touched by a request, missing files among them, fault kind, outcome) tuples"
REAL = ["pygeode.formats.multifile (open_multi, openall, check_multi)", "pygeode.concat, dataset.concat", "pygeode.formats.netcdf/netcdf4 and the real libraries in half of the cases"]
STUB = ["a simulated opener and sources in half of the cases", "disk faults below the libraries (simio)", "memory limit", "contents of uninitialised memory"]
ASSUMPTIONS = ["open_multi: every file starts at its file date plus a constant offset and the whole record is evenly spaced when files hold several steps (documented assumption of open_multi)"]
PROBES = ["spans-files", "missing-file-raised", "gap-raised", "read-raised", "open-raised", "recovered", "chunked-request", "shuffled-list", "static-variable", "integer-type", "several-steps-per-file", "one-step-per-file", "check-ok", "check-not-ok", "own-reference-dates"]

KINDS = sorted(world.FAULTS)


def gen(rng, tier):
    cal = rng.pick(list(M.TIME))
    how = rng.pick(["multi", "multi", "all"])
    via = rng.pick(["sim", "sim", "netcdf", "netcdf4"])
    single = rng.chance(0.35)
    nf = rng.randint(2, 7)
    y, m, d = rng.pick([1979, 2000, 2003]), rng.pick([1, 2, 12]), rng.pick([1, 1, 15, 28])
    H = 3600.0
    if single:
        mode = rng.randrange(3)
        if mode == 0:            # evenly spaced
            dt = rng.pick([1, 6, 24, 24, 120])
            t = [dt * k for k in range(nf)]
        elif mode == 1:          # months
            d = 1
            base = M.to_days(cal, y, m, 1)
            t = [(M.to_days(cal, y + (m - 1 + k) // 12, (m - 1 + k) % 12 + 1, 1) - base) * 24 for k in range(nf)]
        else:
            t = sorted(rng.sample(range(0, 24 * 40), nf))
        # (a step is looked for in the last file dated before it)
        off = rng.pick([0, 0, 12])
        if off >= min(b - a for a, b in zip(t, t[1:])):
            off = 0
        steps = [x + off for x in t]
        fl = [{"idx": [k], "t": t[k]} for k in range(nf)]
        pat = "$Y$m$d$H"
        n = nf
    else:
        dt = rng.pick([1, 3, 6, 12, 24, 24, 48])
        sizes = [rng.randint(1, 5) for _ in range(nf)] if rng.chance(0.5) else [rng.randint(2, 5)] * nf
        if max(sizes[0], sizes[-1]) < 2:
            sizes[rng.pick([0, -1])] = 3
        n = sum(sizes)
        steps = [dt * k for k in range(n)]
        fl, a = [], 0
        for s in sizes:
            fl.append({"idx": list(range(a, a + s)), "t": steps[a]})
            a += s
        pat = "$Y$m$d$H"
        if dt >= 24 and rng.chance(0.5):
            pat = "$Y$m$d"       # file dates at the beginning of the day
            off = rng.pick([0, 0, 6]) if dt % 24 == 0 else 0
            steps = [x + off for x in steps]
        if nf > 2 and rng.chance(0.3):
            for k in sorted(rng.sample(range(1, nf - 1), rng.randint(1, min(2, nf - 2))), reverse=True):
                del fl[k]
    u = rng.pick(["days", "days", "hours"])
    T = {"c": cal, "y": y, "m": m, "d": d, "v": [float(x) if u == "hours" else x / 24.0 for x in steps]}
    if u == "hours":
        T["u"] = "hours"
    for f in fl:
        if rng.chance(0.5):
            f["ref"] = True        # times relative to the file's own first day
    sc = {"T": T, "files": fl, "pat": pat, "how": how, "via": via, "vars": [], "steps": [], "list": rng.randrange(4), "f2d": rng.chance(0.3), "ver": rng.pick([3, 3, 4]), "dt": None if single and mode else dt}
    names = rng.sample(["t2m", "U", "precip", "o3"], rng.randint(1, 3))
    pool = gen_axes(rng, maxsize=12, nmax=2)
    pool = [a for a in pool if a["c"] not in M.TIME and (via == "sim" or a["c"] != "hgt")]
    for i, nm in enumerate(names):
        ax = rng.subset(pool, 0) if pool else []
        v = {"name": nm, "axes": ax, "pos": rng.randrange(len(ax) + 1), "seed": rng.randrange(1 << 30), "dtype": "f8", "style": "normal", "nan": rng.pick([0, 0, 0.2])}
        x = rng.random()
        if x < 0.25:
            v.update(dtype=rng.pick(["i2", "i4"]), style="int", nan=0)
        elif x < 0.4:
            v["dtype"] = "f4"
        if how == "multi" and rng.chance(0.15) and i:
            v["static"] = True
            v["nan"] = 0
        sc["vars"].append(v)
    gaps = n > sum(len(f["idx"]) for f in fl)
    for _ in range(rng.randint(2, 8)):
        x = rng.random()
        if x < 0.12:
            s = {"k": rng.pick(["hide", "hide", "damage", "lack"] if via == "sim" else ["hide", "hide", "damage"]), "f": rng.randrange(len(fl)), "var": rng.randrange(len(names))}
        elif x < 0.2:
            s = {"k": "restore"}
        elif x < 0.27 and how == "multi":
            s = {"k": "check"}
        else:
            i = rng.randrange(len(names))
            la = full(sc, sc["vars"][i])
            if how == "all":
                q, have = sc["vars"][i]["pos"], sorted(x for f in fl for x in f["idx"])
                la = LA([M.axtake(a, have) if z == q else a for z, a in enumerate(la.axes)], np.take(la.arr, have, axis=q))
            s = {"k": "get", "var": i, "r": gen_request(rng, la, 0)}
            if rng.chance(0.2) and sc["steps"] and sc["steps"][-1]["k"] == "get":
                s = copy.deepcopy(sc["steps"][-1])
        if s["k"] in ("get", "check") and rng.chance(0.35):
            if via == "sim":
                s["fault"] = [rng.pick(["open", "read"]), rng.pick([0, 0, 0, 1, 2, 3]), rng.pick(KINDS)]
            elif via == "netcdf" and sc["ver"] == 3:
                s["disk"] = [rng.pick(["open", "read"]), rng.pick([0, 0, 1, 2, 4]), "EIO"]
            else:
                s["disk"] = ["open", rng.pick([0, 0, 1, 2]), rng.pick(["EMFILE", "EACCES"])]
        sc["steps"].append(s)
    return sc


def full(sc, v):
    """The whole record of a variable (LA), gaps included."""
    if v.get("static"):
        nf = len(sc["files"])
        T = sc["T"]
        fx = dict(T, v=[f["t"] / 24.0 for f in sc["files"]])
        fx.pop("u", None)
        ax = [fx] + v["axes"]
    else:
        ax = list(v["axes"])
        ax.insert(v["pos"], sc["T"])
    return LA(ax, world.mkdata(dict(v, axes=ax)))


def times_at(v):
    return 0 if v.get("static") else v["pos"]


def piece(sc, v, k):
    """Axes and values of a variable in file k."""
    f, la = sc["files"][k], full(sc, v)
    if v.get("static"):
        return v["axes"], la.arr[k]
    t = M.axtake(sc["T"], f["idx"])
    if f.get("ref"):
        d = M.axdates(t)[0]
        base = M.to_days(t["c"], *d[:3]) * 86400.0
        c = M.axcoord(t)
        t = dict(t, y=d[0], m=d[1], d=d[2], v=[(x - base) / M._SEC[t.get("u", "days")] for x in c])
    ax = list(la.axes)
    ax[v["pos"]] = t
    return ax, np.take(la.arr, f["idx"], axis=v["pos"])


def fname(sc, k):
    T = sc["T"]
    s = M.to_days(T["c"], T["y"], T["m"], T["d"]) * 24 + int(sc["files"][k]["t"])
    d = M.from_days(T["c"], s // 24)
    st = "%04d%02d%02d%02d" % (d + (s % 24,))
    if sc["pat"] == "$Y$m$d":
        st = st[:8]
    return "d/rec_%s.nc" % st, d + (s % 24,)


def execute(sc, ctx):
    import pygeode as pg
    from pygeode.formats import multifile
    nf = len(sc["files"])
    names = [fname(sc, k)[0] for k in range(nf)]
    if len(set(names)) < nf or nf < 2 or any(sc["files"][k]["t"] >= sc["files"][k + 1]["t"] for k in range(nf - 1)):
        raise Invalid("file names")
    vals = [full(sc, v) for v in sc["vars"]]
    nT = len(sc["T"]["v"])
    have = [-1] * nT
    for k, f in enumerate(sc["files"]):
        for i in f["idx"]:
            have[i] = k
    multi = sc["how"] == "multi"
    several = max(len(f["idx"]) for f in sc["files"]) > 1
    if not several and nT > nf:
        raise Invalid("gap in a one-step-per-file record")
    if several and max(len(sc["files"][0]["idx"]), len(sc["files"][-1]["idx"])) == 1:
        raise Invalid("spacing unknown")
    if have[0] < 0 or have[-1] < 0:
        raise Invalid("ends")
    ctx.probe("several-steps-per-file" if several else "one-step-per-file")
    if any(f.get("ref") for f in sc["files"]):
        ctx.probe("own-reference-dates")
    W = world.World(ctx)
    W.install_allocator()
    os.mkdir("d")
    hidden, damaged, lacking = set(), set(), {}
    D = None
    opens = {"n": 0, "plan": {}, "fired": 0}
    try:
        if sc["via"] == "sim":
            for nm in names:
                open(nm, "w").close()

            def opener(f):
                k = names.index(f)
                n = opens["n"]
                opens["n"] += 1
                ctx.log("open", n, k)
                if n in opens["plan"]:
                    kind = opens["plan"].pop(n)
                    opens["fired"] += 1
                    ctx.fault("open:" + kind)
                    raise world.FAULTS[kind]("injected failure of open %d" % n)
                if k in hidden or k in damaged:
                    raise IOError("file %d is not readable" % k)
                out = []
                for v in sc["vars"]:
                    if lacking.get(k) == v["name"]:
                        continue
                    ax, x = piece(sc, v, k)
                    y = W.source({"axes": ax, "data": x, "mode": ["getview", "getvalues"][v["seed"] % 2], "alias": v["seed"] % 3 == 0}, "%s.%d" % (v["name"], k))
                    y.name, y.atts = v["name"], {"units": "K"}
                    out.append(y)
                return pg.Dataset(out, atts={"title": "record"}, print_warnings=False)
            kw = {"opener": opener}
        else:
            D = files.Disk(ctx)
            W.limit(1 << 22)
            for k in range(nf):
                out = []
                for v in sc["vars"]:
                    ax, x = piece(sc, v, k)
                    y = pg.Var([world.mkaxis(a) for a in ax], values=x, name=v["name"], atts={"units": "K"})
                    out.append(y)
                with ctx.sut("saving file %d" % k):
                    pg.save(names[k], pg.Dataset(out, atts={"title": "record"}, print_warnings=False), format="netcdf", version=sc["ver"])
            kw = {"format": sc["via"]}
        order = list(range(nf))
        if sc["list"] == 0:
            flist = "d/*.nc"
        elif sc["list"] == 1:
            flist = list(names)
        else:
            order = sorted(order, key=lambda k: (k * 7 + 3) % 5)
            flist = [names[k] for k in order]
            if sc["list"] == 3:
                flist = tuple(flist)
            ctx.probe("shuffled-list")
        if multi:
            if sc["f2d"]:
                kw["file2date"] = lambda f: dict(zip(("year", "month", "day", "hour"), fname(sc, names.index(f))[1]))
            else:
                kw["pattern"] = "rec_" + sc["pat"]
            if sc["f2d"] and sc["pat"] == "$Y$m$d":
                kw["file2date"] = lambda f: dict(zip(("year", "month", "day"), fname(sc, names.index(f))[1]))
        W.limit(1 << 22)
        with ctx.sut("opening the record"):
            ds = (multifile.open_multi if multi else multifile.openall)(flist, **kw)
        ctx.check(sorted(v.name for v in ds.vars) == sorted(v["name"] for v in sc["vars"]), "wrong-variables", lambda: "%s" % [v.name for v in ds.vars])
        got, keep = [], [i for i in range(nT) if have[i] >= 0]
        for v, la in zip(sc["vars"], vals):
            if not multi:
                la = LA([M.axtake(a, keep) if a is la.axes[v["pos"]] else a for a in la.axes], np.take(la.arr, keep, axis=v["pos"]))
                for i, a in enumerate(la.axes):
                    o = np.argsort(np.array(M.axcoord(a)), kind="stable")
                    if a["c"] == "pres":       # (drawn downwards, so sorted downwards)
                        o = o[::-1]
                    la = LA([M.axtake(b, list(o)) if b is a else b for b in la.axes], np.take(la.arr, o, axis=i))
            x = ds[v["name"]]
            axes_match(ctx, x, la, v["name"])
            got.append((x, la))
            if v.get("static"):
                ctx.probe("static-variable")
            if v["dtype"][0] == "i":
                ctx.probe("integer-type")
        fileof = list(range(nf)), (have if multi else [have[i] for i in keep])

        def put(k, away):
            """Take a real file away or bring it back."""
            if sc["via"] != "sim":
                if away:
                    os.rename(names[k], names[k] + ".away")
                else:
                    os.rename(names[k] + ".away", names[k])
        failed = set()
        for j, s in enumerate(sc["steps"]):
            if s["k"] in ("hide", "damage", "lack"):
                k = s["f"]
                if k >= nf or k in hidden | damaged or k in lacking:
                    continue
                if s["k"] == "lack":
                    if sc["via"] != "sim":
                        continue
                    lacking[k] = sc["vars"][s["var"] % len(sc["vars"])]["name"]
                else:
                    put(k, True)
                    (hidden if s["k"] == "hide" else damaged).add(k)
                    if s["k"] == "damage" and sc["via"] != "sim":
                        with open(names[k], "wb") as f:
                            f.write(b"CDF\x01" + b"\xff" * 40 if j % 2 else b"")
                ctx.log(s["k"], k)
                continue
            if s["k"] == "restore":
                for k in sorted(hidden | damaged):
                    put(k, False)
                hidden.clear(), damaged.clear(), lacking.clear()
                ctx.log("restore")
                continue
            # a step that reads
            opens.update(n=0, plan={})
            W.plan.n, W.plan.faults = 0, {}
            f0 = opens["fired"] + W.plan.fired + sum(ctx.faults.get(k, 0) for k in list(ctx.faults) if k.startswith("disk"))
            if s.get("fault"):
                what, n, kind = s["fault"]
                if what == "open":
                    opens["plan"] = {n: kind}
                else:
                    W.plan.faults = {n: kind}
            if D:
                D.arm([[s["disk"][0], s["disk"][1], s["disk"][2], 0]] if s.get("disk") else [])

            def fired():
                opens["plan"], W.plan.faults = {}, {}
                if D:
                    D.settle()
                return opens["fired"] + W.plan.fired + sum(ctx.faults.get(k, 0) for k in list(ctx.faults) if k.startswith("disk")) - f0
            if s["k"] == "check":
                W.limit(1 << 22)
                o = io.StringIO()
                with contextlib.redirect_stdout(o):
                    try:
                        multifile.check_multi(flist, **kw)
                    except Exception as e:
                        o.write("raised %s" % type(e).__name__)
                good = "Scan completed without any errors" in o.getvalue()
                nfire = fired()
                # (a missing file at either end can't be noticed; the libraries may open a file again if that fails)
                left = [k for k in range(nf) if k not in hidden]
                held = [i for k in left for i in sc["files"][k]["idx"]]
                inner = bool(held) and len(held) < held[-1] - held[0] + 1
                if not several:
                    at = [sc["T"]["v"][k] for k in left]
                    inner = inner and len(set(np.round(np.diff(at), 3))) > 1
                bad = inner or damaged or lacking or (nfire and sc["via"] == "sim")
                ctx.log("check", good)
                ctx.probe("check-ok" if good else "check-not-ok")
                ctx.check(not (good and bad), "damage-not-reported", lambda: "check_multi reports no errors although %s" % (
                    "steps are missing (files %s)" % sorted(hidden) if inner else "files %s are damaged" % sorted(damaged) if damaged else "a variable is missing" if lacking else "a read failed"))
                # (it expects evenly spaced steps, no variables without time, and several steps)
                plain = sc["dt"] is not None and not any(v.get("static") for v in sc["vars"])
                ctx.check(good or bad or hidden or nfire or not plain, "false-report", lambda: "check_multi finds errors in a healthy record: %s" % o.getvalue()[-300:])
                continue
            v = sc["vars"][s["var"]]
            x, la = got[s["var"]]
            r = s["r"]
            want, idx = expected_request(r, la)
            fo = fileof[0 if v.get("static") else 1]
            touched = [fo[i] for i in idx[times_at(v)]] if want.size else []
            gap = any(k < 0 for k in touched)
            gone = sorted(set(k for k in touched if k in hidden or k in damaged or lacking.get(k) == v["name"]))
            W.limit(r["limit"])
            what = "step %d (%s of %s, files %s)" % (j, r["kind"], v["name"], sorted(set(touched)))
            err = out = None
            try:
                out = do_request(r, x, la, ctx)
            except Exception as e:
                if isinstance(e, (Violation, Invalid, HarnessError)):
                    raise
                err = "%s: %s" % (type(e).__name__, e)
            nfire = fired()
            key = json.dumps([s["var"], r], sort_keys=True)
            ctx.log("get", j, "raised" if err else digest_array(out), nfire)
            ctx.state(sc["how"], sc["via"], tuple(touched), tuple(gone), s.get("fault", s.get("disk")), bool(err))
            if len(set(touched)) > 1 or nfire:
                ctx.trivial = False
            if err is None:
                ctx.check(not gap, "made-up-values", lambda: "%s: returned %s for dates no file holds" % (what, short(out)))
                if multi or sc["via"] == "netcdf":
                    ctx.check(not gone, "unreadable-file-ignored", lambda: "%s: returned values although files %s can't be read" % (what, gone))
                if nfire and sc["via"] == "sim":
                    ctx.check(False, "failure-swallowed", lambda: "%s: returned values although an open or read failed" % what)
                t = 1e-6 if v["dtype"] == "f4" else 0
                compare(ctx, out, want, what, rtol=t, atol=0)
                if len(set(touched)) > 1:
                    ctx.probe("spans-files")
                if key in failed:
                    ctx.probe("recovered")
                if len(W.reads) > len(set(touched)):
                    ctx.probe("chunked-request")
            else:
                ctx.check(gap or gone or nfire, "request-failed", lambda: "%s: %s" % (what, err))
                failed.add(key)
                ctx.probe("gap-raised" if gap else "missing-file-raised" if gone else "open-raised" if s.get("fault", s.get("disk", ["open"]))[0] == "open" else "read-raised")
        # all is well again
        for k in sorted(hidden | damaged):
            put(k, False)
        hidden.clear(), damaged.clear(), lacking.clear()
        for v, (x, la) in zip(sc["vars"], got):
            i = times_at(v)
            fo = fileof[0 if v.get("static") else 1]
            good = [k for k in range(la.arr.shape[i]) if fo[k] >= 0]
            for part in ([good] if len(good) == la.arr.shape[i] else [[k] for k in good[:6]]):
                W.limit(1 << 22)
                with ctx.sut("reading %s at the end" % v["name"]):
                    out = x.slice[tuple(slice(None) if q != i else slice(part[0], part[-1] + 1) for q in range(len(la.axes)))].get()
                compare(ctx, out, np.take(la.arr, part, axis=i), "%s at the end" % v["name"], rtol=1e-6 if v["dtype"] == "f4" else 0, atol=0)
    finally:
        W.uninstall()


def shrinks(sc):
    for i in range(len(sc["steps"])):
        c = copy.deepcopy(sc)
        del c["steps"][i]
        yield c
    for i in range(len(sc["vars"])):
        if len(sc["vars"]) > 1:
            c = copy.deepcopy(sc)
            del c["vars"][i]
            c["steps"] = [dict(s, var=s["var"] - (s["var"] > i)) if "var" in s else s for s in c["steps"] if s.get("var") != i or s["k"] not in ("get",)]
            yield c
    for i, s in enumerate(sc["steps"]):
        for k in ("fault", "disk"):
            if k in s:
                c = copy.deepcopy(sc)
                del c["steps"][i][k]
                yield c
        if s["k"] == "get" and s["r"]["kind"] != "get":
            c = copy.deepcopy(sc)
            c["steps"][i]["r"] = {"node": 0, "kind": "get", "limit": 1 << 22}
            yield c
    for k, val in (("list", 1), ("f2d", False)):
        if sc[k] != val:
            yield dict(copy.deepcopy(sc), **{k: val})
    for i, f in enumerate(sc["files"]):
        if "ref" in f:
            c = copy.deepcopy(sc)
            del c["files"][i]["ref"]
            yield c
    for i, v in enumerate(sc["vars"]):
        for j in range(len(v["axes"])):
            c = copy.deepcopy(sc)
            del c["vars"][i]["axes"][j]
            c["vars"][i]["pos"] = min(c["vars"][i]["pos"], len(v["axes"]) - 1)
            c["steps"] = [s for s in c["steps"] if s["k"] != "get" or s["var"] != i or s["r"]["kind"] in ("get", "values", "load", "chunks")]
            yield c
