import props.p09 as p09
from props.p09 import *

ID = "P10"
RUNS = {"quick": 2000, "thorough": 30000}
RULE = ("one case = a dataset, save options and a sequence of 1-3 save attempts, each under a seeded fault plan (failing or full disk, error codes of the storage library, failing reads of the data being saved), "
        "then a save without faults; after every attempt either an exception was raised or the file is complete; non-trivial if a fault fired; distinct by scenario")
STATE_MEASURE = "distinct (writer, version, storage call hit or library function hit, fault kind, outcome) tuples"
REAL = ["pygeode.formats (netcdf, netcdf4, cfmeta)", "libnetcdf and HDF5 (system and bundled)", "views and chunked evaluation"]
STUB = ["disk: system calls of the libraries fail as planned (simio)", "return codes of libnetcdf calls (LibProxy)", "data sources", "memory limit", "contents of uninitialised memory"]
ASSUMPTIONS = p09.ASSUMPTIONS + ["libnetcdf reports write errors the kernel reports to it (an error that the library itself swallows is out of scope)",
    "a failed close of an HDF5 file inside the libraries: they leak the file or crash while reporting it; the leak is not held against pygeode and the crashing report is stubbed"]
PROBES = ["save-raised", "fault-absorbed", "disk-full", "library-error", "source-failed", "failed-at-close", "retry-same-file", "retry-other-file", "swallowed-by-library"]

DISK = [("open", "EACCES"), ("open", "EMFILE"), ("open", "ENOSPC"), ("write", "EIO"), ("write", "ENOSPC"), ("write", "EDQUOT"), ("write", "SHORT"), ("write", "EINTR"),
        ("close", "EIO"), ("close", "ENOSPC"), ("trunc", "EIO"), ("read", "EIO")]
CODES = [-31, -36, -51, -60, -61, -64, -101, -105, 5, 28]      # memory, bad name, not netcdf, range, no memory, HDF errors, EIO, ENOSPC


def gen_disk(rng, kinds=DISK):
    op, kind = rng.pick(kinds)
    at = rng.pick([0.0, 1.0, rng.random(), rng.random()])
    return [op, at, kind, -1 if kind not in ("SHORT", "EINTR") and rng.chance(0.3) else 0]


def gen(rng, tier):
    sc = p09.gen(rng, tier, small=True)
    sc["reqs"] = []
    if any("fill" in v for v in sc["vars"]):
        sc["rcf"] = True
    if rng.chance(0.6):
        sc.pop("pre", None)
    sc["tries"] = []
    for _ in range(rng.pick([1, 1, 2, 3])):
        x = rng.random()
        t = {"to": rng.pick([0, 0, 0, 1])}
        if x < 0.35:
            t["disk"] = [gen_disk(rng) for _ in range(rng.pick([1, 1, 2]))]
        elif x < 0.5:
            t["full"] = rng.pick([0.0, rng.random(), rng.random(), 0.999])
        elif x < 0.75 and sc["fmt"] == "netcdf":
            t["lib"] = dict((str(rng.pick([0.0, 1.0, rng.random(), rng.random()])), rng.pick(CODES)) for _ in range(rng.pick([1, 1, 2])))
        else:
            t["src"] = {str(rng.random()): rng.pick(sorted(world.FAULTS) + sorted(world.FAULTS_BASE))}
        sc["tries"].append(t)
    return sc


def execute(sc, ctx):
    import pygeode as pg
    sc = dict(sc, reqs=[])
    vals = model_values(sc)
    p09.validate(sc, vals)
    for v in sc["vars"]:
        if "fill" in v and not sc["rcf"]:
            raise Invalid("raw fill values")
    W = world.World(ctx)
    W.install_allocator()
    D = files.Disk(ctx)
    L = files.proxy_lib(ctx)
    files.tame_netcdf4(D)
    try:
        pv = build_dataset(sc, W, ctx, vals)
        if sc.get("pre"):
            with open("f0.nc", "wb") as f:
                f.write(b"not a netcdf file" * 100)
        # how many calls a save makes (of a file that is not looked at again)
        W.limit(sc["limit"])
        D.arm()
        L.n, n0 = 0, W.plan.n
        with ctx.sut("saving"):
            do_save(sc, pv, "dry.nc", ctx)
        nlib, nread, (n, counts) = L.n, W.plan.n - n0, D.settle()
        size = os.path.getsize("dry.nc")
        os.remove("dry.nc")
        hdf = sc.get("compress") or (sc.get("version") or (4 if sc["fmt"] == "netcdf4" else 3)) == 4
        lost = set()
        for j, t in enumerate(sc["tries"]):
            path = "f%d.nc" % t["to"]
            if path in lost:
                path = "g%d.nc" % j
            W.limit(sc["limit"])
            before = sum(ctx.faults.values())
            D.arm([[op, int(at * max(0, counts[op] - 1)), kind, arg] for op, at, kind, arg in t.get("disk", [])],
                  None if "full" not in t else int(t["full"] * size))
            L.n = 0
            L.plan = dict((int(float(k) * max(0, nlib - 1)), c) for k, c in t.get("lib", {}).items())
            closing = max(L.plan or [-1]) == nlib - 1
            W.plan.faults = dict((W.plan.n + int(float(k) * max(0, nread - 1)), c) for k, c in t.get("src", {}).items()) if nread else {}
            ctx.log("try", j, path)
            err = None
            try:
                do_save(sc, pv, path, ctx)
            except Exception as e:
                err = e
            except KeyboardInterrupt as e:
                if not isinstance(e, SimFault):
                    raise
                err = e
            L.plan = {}
            W.plan.faults = {}
            nd, _ = D.settle()
            fired = sum(ctx.faults.values()) - before
            what = "save %d (%s)" % (j, ", ".join("%s %s" % (k, t[k]) for k in ("disk", "full", "lib", "src") if k in t))
            W.check_sources_intact()
            if fired:
                ctx.trivial = False
            if err is not None:
                ctx.log("raised", type(err).__name__)
                ctx.check(fired > 0, "save-failed-without-a-fault", lambda: "%s: %s: %s" % (what, type(err).__name__, err))
                ctx.probe("save-raised")
                for k, p in (("full", "disk-full"), ("lib", "library-error"), ("src", "source-failed")):
                    if k in t and fired:
                        ctx.probe(p)
                if closing or any(f[0] == "close" for f in t.get("disk", [])):
                    ctx.probe("failed-at-close")
            else:
                if fired:
                    ctx.probe("fault-absorbed")
                W.limit(1 << 22)
                if D.swallowed:
                    ctx.probe("swallowed-by-library")
                else:
                    check_raw(sc, ctx, vals, path)
            ctx.state(sc["fmt"], sc.get("version"), bool(sc.get("compress")), t.get("disk", [[None] * 4])[0][0], t.get("disk", [[None] * 4])[0][2], "full" in t, sorted(t.get("lib", {}).values()), sorted(t.get("src", {}).values()), type(err).__name__)
            err = None
            import gc
            gc.collect()
            left = [p for p in D.openfds() if p.endswith(".nc") and p not in lost]
            if hdf and nd:        # HDF5 itself keeps a file open that it couldn't write
                lost.update(left)
                left = []
            ctx.check(not left, "file-left-open", lambda: "%s: %s" % (what, left))
        # the process is still good for saving and reading
        path = "f%d.nc" % sc["tries"][-1]["to"]
        if path in lost:
            path = "f2.nc"
        ctx.probe("retry-other-file" if path != "f0.nc" else "retry-same-file")
        W.limit(sc["limit"])
        D.arm()
        with ctx.sut("saving again without faults"):
            do_save(sc, pv, path, ctx)
        D.settle()
        W.limit(1 << 22)
        check_raw(sc, ctx, vals, path)
        with ctx.sut("opening"):
            got = reopen(sc, path, ctx)
        out = check_meta(sc, ctx, vals, got)
        reqs = [{"var": i, "node": v["node"], "kind": "get", "limit": 1 << 22} for i, v in enumerate(sc["vars"])]
        check_requests(sc, ctx, W, vals, out, reqs)
    finally:
        W.uninstall()


def shrinks(sc):
    for i in range(len(sc["tries"])):
        if len(sc["tries"]) > 1:
            c = copy.deepcopy(sc)
            del c["tries"][i]
            yield c
        if len(sc["tries"][i].get("disk", [])) > 1:
            for k in (0, 1):
                c = copy.deepcopy(sc)
                del c["tries"][i]["disk"][k]
                yield c
    sc = dict(sc, reqs=[{"var": 0, "node": sc["vars"][0]["node"], "kind": "get", "limit": 1 << 22}])
    for c in p09.shrinks(sc):
        yield c
