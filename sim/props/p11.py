import gc
import props.p09 as p09
from props.p09 import *

ID = "P11"
RUNS = {"quick": 2400, "thorough": 40000}
RULE = ("one case = a file written from a generated dataset and a history of 3-10 steps (open it with a seeded reader, request a region of one of its variables at a seeded memory limit, drop a dataset), each step "
        "possibly under a seeded fault plan; a step raises or gives the stored values, and a step without faults does the latter; non-trivial if a fault fired; distinct by scenario")
STATE_MEASURE = "distinct (reader, file kind, step kind, storage call or library call hit, fault kind, outcome) tuples"
REAL = ["pygeode.formats (netcdf, netcdf4, cfmeta)", "libnetcdf and HDF5 (system and bundled)", "views and chunked evaluation"]
STUB = ["disk: system calls of the libraries fail as planned (simio)", "return codes of libnetcdf calls (LibProxy)", "reads of the netCDF4 package (VarProxy)", "memory limit", "contents of uninitialised memory", "data sources of the saved dataset"]
ASSUMPTIONS = p09.ASSUMPTIONS + ["libnetcdf and HDF5 report a failed open or read (they do not report a file that ends early in the classic format)"]
PROBES = ["open-raised", "read-raised", "fault-absorbed", "recovered", "several-readers", "library-error", "disk-error", "netcdf4-error", "many-failures"]

DISK = [("open", "EACCES"), ("open", "EMFILE"), ("open", "EIO"), ("read", "EIO"), ("read", "EIO"), ("read", "EINTR"), ("close", "EIO")]
CODES = [-31, -33, -36, -51, -57, -61, -101, -105, 2, 5, 24]


def gen_fault(rng, reader, hdf):
    if reader == "netcdf4" and rng.chance(0.4):
        return {"nc4": [rng.pick([0, 0, 1, 2, 5])]}
    if reader == "netcdf4" or rng.chance(0.5):
        op, kind = rng.pick([d for d in DISK if d[0] == "open" or d[1] == "EINTR"] if hdf else DISK)
        return {"disk": [[op, rng.pick([0.0, 1.0, rng.random(), rng.random()]), kind, -1 if kind != "EINTR" and rng.chance(0.3) else 0]]}
    return {"lib": dict((str(rng.pick([0.0, 1.0, rng.random(), rng.random()])), rng.pick(CODES)) for _ in range(rng.pick([1, 1, 2])))}


def is_hdf(sc):
    return bool(sc.get("compress")) or (sc.get("version") or (4 if sc["fmt"] == "netcdf4" else 3)) == 4


def gen(rng, tier):
    sc = p09.gen(rng, tier, small=True)
    sc.pop("pre", None)
    sc["rcf"] = sc["cfmeta"] = True
    if "groups" not in sc and rng.chance(0.5):
        for v in sc["vars"]:            # more of what has to be decoded
            nd = sc["nodes"][v["node"]]
            if "fill" not in v and not packed(sc, v) and nd["op"] == "src" and sc["srcs"][nd["i"]]["dtype"] in ("f8", "f4"):
                v["fill"], v["fillname"] = rng.pick([-999.0, 1e20, 0.0]), rng.pick(["_FillValue", "missing_value"])
    hdf = is_hdf(sc)
    rd = ["netcdf4"] if "groups" in sc else ["netcdf", "netcdf4"]
    vals = model_values(sc)
    sc["steps"] = [{"k": "open", "slot": 0, "reader": rng.pick(rd)}]
    has = {0: sc["steps"][0]["reader"]}
    if rng.chance(0.4):
        sc["steps"][0].update(gen_fault(rng, sc["steps"][0]["reader"], hdf))
    for _ in range(rng.randint(2, 9)):
        x = rng.random()
        slot = rng.pick([0, 0, 1])
        if x < 0.2:
            s = {"k": "open", "slot": slot, "reader": rng.pick(rd)}
            has[slot] = s["reader"]
        elif x < 0.27:
            s = {"k": "drop", "slot": slot}
        else:
            i = rng.randrange(len(sc["vars"]))
            nd = sc["vars"][i]["node"]
            if rng.chance(0.3) and len(sc["steps"]) > 1 and sc["steps"][-1]["k"] == "get":
                s = {"k": "get", "slot": sc["steps"][-1]["slot"], "r": copy.deepcopy(sc["steps"][-1]["r"])}    # the same once more
            else:
                s = {"k": "get", "slot": slot, "r": dict(gen_request(rng, vals[nd], nd), var=i)}
        if s["k"] != "drop" and rng.chance(0.5):
            s.update(gen_fault(rng, has.get(s["slot"], "netcdf"), hdf))
        sc["steps"].append(s)
    if rng.chance(0.1):
        r = rng.pick(rd)
        sc["many"] = [r, gen_fault(rng, r, hdf)]
    elif hdf and rng.chance(0.3):
        # a failing read below HDF5 spoils the library's own cache: only the outcome of that step counts
        s = sc["steps"][-1]
        if s["k"] != "drop":
            for k in ("lib", "nc4", "disk"):
                s.pop(k, None)
            s["disk"] = [["read", rng.pick([0.0, 1.0, rng.random()]), "EIO", rng.pick([0, -1])]]
            s["last"] = True
    return sc


def execute(sc, ctx):
    import pygeode as pg
    sc = dict(sc, reqs=[])
    vals = model_values(sc)
    p09.validate(sc, vals)
    W = world.World(ctx)
    W.install_allocator()
    D = files.Disk(ctx)
    L = files.proxy_lib(ctx)
    N = files.Nc4Seam(ctx)
    try:
        pv = build_dataset(sc, W, ctx, vals)
        W.limit(sc["limit"])
        with ctx.sut("saving"):
            do_save(sc, pv, "out.nc", ctx)
        W.limit(1 << 22)
        check_raw(sc, ctx, vals, "out.nc")
        gc.collect()
        hdf = is_hdf(sc)
        slots = [None, None]
        cost = {}          # calls a step of this kind made last time

        def openfds():
            gc.collect()
            return [p for p in D.openfds() if p.endswith(".nc")]

        def run(f, s, key):
            """f() under the faults of step s: (result, error)."""
            n, c = cost.get(key, (6, {"open": 1, "read": 4, "close": 1}))
            before = sum(ctx.faults.values())
            D.arm([[op, int(at * max(0, c.get(op, 1) - 1)), kind, arg] for op, at, kind, arg in s.get("disk", [])])
            L.n = 0
            L.plan = dict((int(float(k) * max(0, n - 1)), code) for k, code in s.get("lib", {}).items())
            N.n, N.plan = 0, dict((k, 1) for k in s.get("nc4", []))
            out = err = None
            try:
                out = f()
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, e)
            L.plan, N.plan = {}, {}
            n = L.n
            nd, c = D.settle()
            if err is None:
                cost[key] = (n, c)
            fired = sum(ctx.faults.values()) - before
            if fired:
                ctx.trivial = False
                ctx.probe("disk-error" if nd else "library-error" if "lib" in s else "netcdf4-error")
            ctx.check(err is None or fired, "failed-without-a-fault", lambda: "%s: %s" % (s, err))
            if err is None and fired:
                ctx.probe("fault-absorbed")
            ctx.log(s["k"], s.get("slot"), "raised" if err else "ok", fired)
            ctx.state(s.get("reader") or s.get("via"), hdf, s["k"], s.get("disk", [[None] * 4])[0][0], s.get("disk", [[None] * 4])[0][2], sorted(s.get("lib", {}).values()), s.get("nc4"), err.split(":")[0] if err else None)
            return out, err

        dry = {"k": "dry"}
        if sc["steps"][0].get("disk") or sc["steps"][0].get("lib"):
            with ctx.sut("opening"):
                run(lambda: reopen(dict(sc, reader=sc["steps"][0]["reader"]), "out.nc", ctx), dry, ("open", sc["steps"][0]["reader"]))
            gc.collect()
        failed, spare = set(), {}
        for j, s in enumerate(sc["steps"]):
            s = dict(s)
            what = "step %d (%s)" % (j, ", ".join("%s=%s" % (k, s[k]) for k in ("k", "reader", "disk", "lib", "nc4") if k in s))
            if s["k"] == "drop":
                slots[s["slot"]] = None
            elif s["k"] == "open":
                rsc = dict(sc, reader=s["reader"])
                slots[s["slot"]] = None
                gc.collect()
                got, err = run(lambda: reopen(rsc, "out.nc", ctx), s, ("open", s["reader"]))
                if err is None:
                    W.limit(1 << 22)
                    slots[s["slot"]] = (s["reader"], check_meta(rsc, ctx, vals, got))
                    got = None
                    if len(set(x[0] for x in slots if x)) > 1:
                        ctx.probe("several-readers")
                else:
                    ctx.probe("open-raised")
            else:
                if slots[s["slot"]] is None:
                    continue
                s["via"], out = slots[s["slot"]]
                r = s["r"]
                v = sc["vars"][r["var"]]
                x, la = out[r["var"]], LA(vals[v["node"]].axes, stored(sc, vals, v))
                want, idx = expected_request(r, la)
                W.limit(r["limit"])
                key = ("get", s["via"], json.dumps(r, sort_keys=True))
                if (s.get("disk") or s.get("lib")) and key not in cost and s["via"] == "netcdf":
                    if s["via"] not in spare:       # (a dataset of its own, so that nothing is remembered)
                        W.limit(1 << 22)
                        rsc = dict(sc, reader=s["via"])
                        with ctx.sut("opening once more"):
                            spare[s["via"]] = check_meta(rsc, ctx, vals, reopen(rsc, "out.nc", ctx))
                        W.limit(r["limit"])
                    run(lambda: do_request(r, spare[s["via"]][r["var"]], la, ctx), dry, key)       # (this reader opens the file every time)
                got, err = run(lambda: do_request(r, x, la, ctx), s, key)
                if err is None:
                    t = pack_tol(sc, v, la.arr)
                    compare(ctx, got, want, what, rtol=0 if t is None else 1e-6, atol=(tol_of(sc, vals, v) if t is None else t))
                    if key in failed:
                        ctx.probe("recovered")
                    ctx.log("req", j, digest_array(got))
                else:
                    failed.add(key)
                    ctx.probe("read-raised")
                got = x = out = None
            if s.get("last"):
                return
            left = openfds()
            nopen = len([x for x in slots if x and x[0] == "netcdf4"])
            ctx.check(len(left) <= nopen, "file-left-open", lambda: "%s: %d handles open, %d datasets that may hold one" % (what, len(left), nopen))
        if "many" in sc:
            ctx.probe("many-failures")
            rd, f = sc["many"]
            slots[:] = [None, None]
            rsc = dict(sc, reader=rd)
            n0 = len(openfds())
            nopen = 0
            for j in range(8):
                got, err = run(lambda: reopen(rsc, "out.nc", ctx), dict(f, k="open", reader=rd), ("open", rd))
                got = None
            n1 = len(openfds())
            ctx.check(n1 <= n0, "handles-accumulate", lambda: "%d handles open after 8 opens under %s, %d before" % (n1, f, n0))
        # everything still works
        slots[:] = [None, None]
        rsc = dict(sc, reader=sc["steps"][0]["reader"])
        W.limit(1 << 22)
        D.arm()
        with ctx.sut("opening at the end"):
            got = reopen(rsc, "out.nc", ctx)
        out = check_meta(rsc, ctx, vals, got)
        check_requests(rsc, ctx, W, vals, out, [{"var": i, "node": v["node"], "kind": "get", "limit": 1 << 22} for i, v in enumerate(sc["vars"])])
        got = out = None
        ctx.check(not openfds(), "file-left-open", "at the end")
    finally:
        W.uninstall()


def shrinks(sc):
    for i in range(1, len(sc["steps"])):
        c = copy.deepcopy(sc)
        del c["steps"][i]
        yield c
    for i, s in enumerate(sc["steps"]):
        for k in ("disk", "lib", "nc4"):
            if k in s:
                c = copy.deepcopy(sc)
                del c["steps"][i][k]
                yield c
    if "many" in sc:
        c = copy.deepcopy(sc)
        del c["many"]
        yield c
    for c in p09.shrinks(dict(sc, reqs=[])):
        if c["nodes"] == sc["nodes"] and c["srcs"] == sc["srcs"] and c["vars"] == sc["vars"]:
            yield c
