import collections.abc, gc, sys, _thread
import xarray, dask, dask.array, dask._task_spec   # (before the runs are forked)
import props.p04 as p04
import props.p09 as p09
import props.p17 as p17
from props.mixed import *
from props.p09 import build_dataset, stored, tol_of, save_kw, real_atts, reopen, validate
import ctypes_seam, files, sched

# (imports don't happen in the threads)
import pkgutil, importlib
import netCDF4, scipy.stats, pygeode
import pygeode.formats
for _p in (pygeode, pygeode.formats):
    for _m in pkgutil.iter_modules(_p.__path__, _p.__name__ + "."):
        if not _m.ispkg and _m.name.split(".")[-1] not in ("tutorial", "timeticker"):
            try:
                importlib.import_module(_m.name)
            except Exception:
                pass

ID = "P15"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 30000}
RULE = ("one case = 2-4 threads sharing expressions, files of one dataset (through one dataset or one opened by each thread), a record of files, or the tasks of a converted xarray object; each evaluates regions, opens, saves or reports progress, "
        "some under failing reads; a seeded scheduler decides at every line of pygeode, lock operation, library call and source read which thread goes on; results must be those of evaluating alone; non-trivial if threads were switched; "
        "distinct by scenario")
STATE_MEASURE = "distinct (kind of case, place in the code where a thread was preempted) pairs"
REAL = ["pygeode (evaluation, netcdf, netcdf4, concatenation of files, ext_xarray)", "libnetcdf and HDF5 (system and bundled)", "xarray and dask (graphs)"]
STUB = ["names dask draws at random", "thread scheduling (seeded; one thread runs at a time, preempted at lines of pygeode and at seams)", "locks", "dask's scheduler (tasks executed by the simulated threads)", "data sources", "memory limit", "contents of uninitialised memory"]
ASSUMPTIONS = ["libnetcdf and the netCDF4 package may be used by one thread at a time only (neither library is thread-safe)", "numpy operations and pygeode's own C extensions are atomic (they hold the interpreter lock)"]
PROBES = ["preempted", "lock-contention", "library-call", "shared-dataset", "own-dataset", "concurrent-save", "tasks", "record", "progress", "read-failed-in-a-thread", "recovered", "expression", "statistics"]


class Guard(object):
    """Libraries that only one thread may be in."""
    def __init__(self, S, ctx):
        self.S, self.ctx, self.holder, self.depth, self.bad = S, ctx, {}, {}, None

    def __call__(self, lib, name, phase):
        t = self.S.by_id.get(_thread.get_ident())
        if t is None:
            return
        if phase == "enter":
            h = self.holder.get(lib)
            if h is not None and h[0] is not t:
                if self.bad is None:
                    self.bad = "thread %s calls %s while thread %s is in %s (%s can't be used by two threads at once)" % (t.name, name, h[0].name, h[1], lib)
                self.S.yield_point("call:" + name)
                return
            self.holder[lib] = (t, name)
            self.depth[lib] = self.depth.get(lib, 0) + 1
            self.ctx.probe("library-call")
            self.S.yield_point("call:" + name)
        else:
            h = self.holder.get(lib)
            if h is not None and h[0] is t:
                self.S.yield_point("return:" + name)
                self.depth[lib] -= 1
                if not self.depth[lib]:
                    self.holder[lib] = None


def guard_netcdf4(G):
    """The netCDF4 package: calls that reach its library (run processes are private)."""
    import netCDF4
    real = netCDF4.Dataset

    class V(object):
        def __init__(self, v):
            self.__dict__["_v"] = v

        def __getattr__(self, k):
            x = getattr(self._v, k)
            if callable(x):
                def call(*a, **kw):
                    G("netCDF4", k, "enter")
                    try:
                        return x(*a, **kw)
                    finally:
                        G("netCDF4", k, "leave")
                return call
            return x

        def __setattr__(self, k, x):
            setattr(self._v, k, x)

        def __getitem__(self, i):
            G("netCDF4", "read", "enter")
            try:
                return self._v[i]
            finally:
                G("netCDF4", "read", "leave")

        def __setitem__(self, i, x):
            G("netCDF4", "write", "enter")
            try:
                self._v[i] = x
            finally:
                G("netCDF4", "write", "leave")

    def wrapped(name):
        f = getattr(real, name)

        def call(self, *a, **k):
            G("netCDF4", name, "enter")
            try:
                out = f(self, *a, **k)
                return V(out) if name == "createVariable" and not isinstance(out, V) else out
            finally:
                G("netCDF4", name, "leave")
        return call

    class VD(collections.abc.MutableMapping):
        def __init__(self, d):
            self.d = d

        def __getitem__(self, k):
            return V(self.d[k])

        def __setitem__(self, k, v):
            self.d[k] = v

        def __delitem__(self, k):
            del self.d[k]

        def __iter__(self):
            return iter(self.d)

        def __len__(self):
            return len(self.d)

    class D(real):
        @property
        def variables(self):
            return VD(real.variables.__get__(self))
    for nm in ("__init__", "close", "createVariable", "createDimension", "setncatts", "setncattr", "getncattr", "ncattrs", "filepath"):
        setattr(D, nm, wrapped(nm))
    D.__exit__ = lambda self, *a: self.close()

    def dropped(self):              # (freeing an open dataset closes it)
        if self.isopen():
            G("netCDF4", "close (of a dataset no longer used)", "enter")
            try:
                real.close(self)
            except BaseException:
                pass
            finally:
                G("netCDF4", "close (of a dataset no longer used)", "leave")
    D.__del__ = dropped
    netCDF4.Dataset = D


def gen(rng, tier):
    base = rng.pick(["expr", "expr", "file", "file", "file", "xr", "xr", "record", "stats"])
    p = rng.pick([0.05, 0.3, 0.7])
    sc = {"base": base, "n": rng.pick([2, 2, 2, 3, 4]), "sched": {"seed": rng.randrange(1 << 30), "p": p, "mode": rng.pick(["flat", "burst", "burst", "hot", "hot", "hot", "store", "store"])}}
    S = sc["sched"]
    if S["mode"] == "flat":
        S["pl"] = rng.pick([0.0, 0.002, 0.01, 0.05, 0.2])
    elif S["mode"] == "burst":
        S["B"] = rng.pick([10, 100, 1000, 10000])
    elif S["mode"] == "store":
        S["pl"] = rng.pick([0.02, 0.1, 0.3, 0.6])
    else:
        S["pl"], S["hot"] = rng.pick([0.05, 0.2, 0.5]), rng.pick([4, 10, 30])
    if base == "expr":
        P = gen_program(rng)
        sc["sc"] = {"srcs": P.srcs, "nodes": P.nodes, "reqs": []}
        for t in range(sc["n"]):
            reqs = [r for r in gen_reqs(rng, P, rng.randint(1, 3))]
            for r in reqs:
                r["t"] = t
                if rng.chance(0.15):
                    r["pb"] = True
                if rng.chance(0.1):
                    r["fault"] = [rng.pick([0, 0, 1, 3]), rng.pick(sorted(world.FAULTS))]
            sc["sc"]["reqs"] += reqs
        sc["sc"] = prune(sc["sc"], [r["node"] for r in sc["sc"]["reqs"]])
        n = max(v.arr.size for v in P.vals)
        sc["limit"] = max(gen_limit(rng, n), n // 20)
    elif base == "stats":
        while True:
            s = p04.gen(rng, tier)
            s["faults"] = {}
            if s["kind"] in ("correlate", "regress", "isnonzero", "paired_difference", "difference"):
                break
        sc["sc"] = s
        sc["limit"] = rng.pick([3, 10, 1 << 22])
    elif base in ("file", "xr"):
        s = p17.gen(rng, tier)
        f = s.pop("file")
        s["reader"] = rng.pick(["netcdf", "netcdf4"])
        vals = model_values(s)
        s.pop("steps")
        s["fmt"] = rng.pick(["netcdf", "netcdf4"])
        s["version"] = rng.pick([3, 4])
        if rng.chance(0.2):
            s["compress"] = True
        n = max(vals[v["node"]].arr.size for v in s["vars"])
        sc["sc"] = s
        sc["limit"] = gen_limit(rng, n) if base == "file" else max(gen_limit(rng, n), n // 12)
        sc["file"] = rng.chance(0.6)
        sc["acts"] = []
        for t in range(sc["n"]):
            for _ in range(rng.randint(1, 3)):
                i = rng.randrange(len(s["vars"]))
                a = {"t": t, "k": rng.pick(["req", "req", "req", "own", "save"]), "r": dict(gen_request(rng, vals[s["vars"][i]["node"]], s["vars"][i]["node"]), var=i)}
                a["fmt"], a["ver"] = rng.pick(["netcdf", "netcdf4"]), rng.pick([3, 4])
                if rng.chance(0.15):
                    a["pb"] = True
                sc["acts"].append(a)
        sc["xvars"] = rng.subset(range(len(s["vars"])), 1)
    else:
        n = rng.randint(3, 8)
        A = gen_axes(rng, maxsize=30, nmax=2)
        A = [a for a in A if a["c"] not in M.TIME]
        T = gen_axis(rng, "m365", n)
        T["v"] = [float(i) for i in range(n)]
        T.pop("u", None)
        sc["T"], sc["A"], sc["seed"] = T, A, rng.randrange(1 << 30)
        sc["cuts"] = sorted(rng.sample(range(1, n), rng.randint(1, min(3, n - 1))))
        sc["fmt"], sc["ver"] = rng.pick(["netcdf", "netcdf4"]), rng.pick([3, 4])
        sc["how"] = rng.pick(["openall", "multi"])
        la = LA([T] + A, np.zeros([n] + [len(a["v"]) for a in A]))
        sc["acts"] = [{"t": t, "k": rng.pick(["req", "req", "own"]), "r": gen_request(rng, la, 0)} for t in range(sc["n"]) for _ in range(rng.randint(1, 2))]
        sc["limit"] = gen_limit(rng, la.arr.size)
    return sc


class Act(object):
    def __init__(self, t, what, fn, check, fault=None):
        self.t, self.what, self.fn, self.check, self.fault = t, what, fn, check, fault
        self.out, self.exc, self.fired, self.reads = None, None, 0, 0


def run_threads(sc, ctx, W, acts):
    """Perform the actions, each thread its own in order."""
    S = sched.Scheduler(ctx, sc["sched"], trace_files=True, max_steps=3000000)
    G = Guard(S, ctx)
    cur = {}
    if W is not None:
        base_read = W.read

        def read(src, idx):
            t = S.by_id.get(_thread.get_ident())
            a = cur.get(t.idx) if t is not None else None
            if a is not None:
                S.yield_point("read:" + src.simname)
                k = a.reads
                a.reads += 1
                if a.fault and a.fault[0] == k and not a.fired:
                    a.fired += 1
                    ctx.fault("read:" + a.fault[1])
                    raise world.FAULTS[a.fault[1]]("injected failure of read %d of %s" % (k, src.simname))
            out = base_read(src, idx)
            return out
        W.read = read
    ctypes_seam.hook = G

    def body(i):
        def f():
            for a in acts:
                if a.t != i:
                    continue
                cur[i] = a
                for attempt in (0, 1):
                    a.exc = None
                    n = a.fired
                    try:
                        a.out = a.fn()
                        break
                    except sched.Abort:
                        raise
                    except BaseException as e:
                        a.exc = e
                        if a.fired == n:
                            break
                        ctx.probe("read-failed-in-a-thread")
                ctx.log("done", i)
        return f
    try:
        for i in range(sc["n"]):
            S.spawn(body(i), "t%d" % i)
        try:
            S.run()
        except Violation as e:
            if e.kind != "livelock":
                raise
            ctypes_seam.hook = None
            if alone(acts) > S.max_steps // 5:
                raise Invalid("takes too long")
            raise
    finally:
        ctypes_seam.hook = None
        if W is not None:
            del W.read
        finish(sc, ctx, S, G)
    for t in S.threads:
        if t.exc is not None:
            raise HarnessError("thread body: %r" % (t.exc,))
    ctx.check(G.bad is None, "library-used-by-two-threads", lambda: G.bad)
    for a in acts:
        if a.exc is not None:
            with ctx.sut("thread %d: %s%s" % (a.t, a.what, " after a failed read" if a.fired else "")):
                raise a.exc
        if a.fired:
            ctx.probe("recovered")
        a.check(a.out)
        ctx.log("ok", a.t, a.what)


def alone(acts):
    """How many lines the actions take without the other threads (up to a point)."""
    n = [0]

    class Enough(BaseException):
        pass

    def line(frame, event, arg):
        n[0] += 1
        if n[0] > 1000000:
            raise Enough()
        return line
    sys.settrace(lambda frame, event, arg: line if "/pygeode/" in frame.f_code.co_filename else None)
    try:
        for a in acts:
            a.fn()
    except BaseException:
        pass
    finally:
        sys.settrace(None)
    return n[0]


def finish(sc, ctx, S, G):
    ctx.concrete = {"sched": {"list": [list(x) for x in S.taken]}}
    for w in S.where:
        ctx.state(sc["base"], w)
    if S.switches:
        ctx.trivial = False
        ctx.probe("preempted", S.switches)


def same_as(ctx, want, what, rtol=1e-12, atol=None):
    return lambda got: compare(ctx, got, want, what, rtol=rtol, atol=atol)


def display(ctx):
    """Progress may be displayed."""
    import io, pygeode, progressbar
    pygeode._config.set("ProgressBar", "no_show_time", "0")
    progressbar.utils.streams.original_stderr = io.StringIO()
    ctx.probe("progress")


def threads_expr(sc, ctx):
    s = sc["sc"]
    T = Twin(s, ctx)
    W = T.W
    try:
        W.limit(sc["limit"])
        acts = []
        for r in s["reqs"]:
            la = T.vals[r["node"]]
            want = T.expected(r, ctx)
            what = "%s of node %d %s" % (r["kind"], r["node"], s["nodes"][r["node"]]["op"])
            if r.get("pb") and r["kind"] in ("get", "values"):
                display(ctx)
                fn = lambda r=r: T.pv[r["node"]].get(pbar=True)
            else:
                fn = lambda r=r, la=la: do_request(r, T.pv[r["node"]], la, ctx)
            acts.append(Act(r["t"], what, fn, same_as(ctx, want, what), r.get("fault")))
        ctx.probe("expression")
        W.limit(sc["limit"])
        run_threads(sc, ctx, W, acts)
        W.check_sources_intact()
    finally:
        T.close()


def threads_stats(sc, ctx):
    s = sc["sc"]
    with np.errstate(all="ignore"):
        exp = p04.expected(s)
    W = world.World(ctx)
    W.install_allocator()
    try:
        vs = [W.source(x, "s%d" % i) for i, x in enumerate(s["srcs"])]
        W.limit(1 << 22)
        with ctx.sut("warming up"):
            p04.call(s, s["reqs"][0], vs)
        acts = []
        for i in range(sc["n"]):
            r = s["reqs"][i % len(s["reqs"])]
            what = "%s by thread %d" % (s["kind"], i)
            acts.append(Act(i, what, lambda r=r: p04.call(s, r, vs), lambda ds, r=r, what=what: p04.check_ds(s, ctx, ds, r, exp, what)))
        ctx.probe("statistics")
        W.limit(sc["limit"])
        run_threads(sc, ctx, W, acts)
        W.check_sources_intact()
    finally:
        W.uninstall()


def threads_file(sc, ctx):
    import pygeode as pg
    s = sc["sc"]
    vals = model_values(s)
    validate(s, vals)
    W = world.World(ctx)
    W.install_allocator()
    try:
        pv = build_dataset(s, W, ctx, vals)
        ds0 = pg.Dataset(pv, atts=real_atts(s.get("gatts", {})), print_warnings=False)
        W.limit(1 << 22)
        if sc["base"] == "file" or sc["file"]:
            with ctx.sut("saving"):
                pg.save("shared.nc", ds0, format=s["fmt"], version=s["version"], **({"compress": True} if s.get("compress") and s["version"] == 4 else {}))

        def expect(v):
            la = LA(vals[v["node"]].axes, stored(s, vals, v))
            return la, tol_of(s, vals, v)
        if sc["base"] == "xr":
            return tasks(sc, ctx, W, ds0, s, vals, expect)
        with ctx.sut("opening"):
            ref = pg.open("shared.nc", format=s["reader"])     # (imports whatever there is to import)
            for v in s["vars"]:
                ref[v["name"]].get()
            for f in ("netcdf", "netcdf4"):
                pg.save("warm.nc", ref, format=f)
        del ref
        gc.collect()
        guard_netcdf4(lambda *a: ctypes_seam.hook(*a) if ctypes_seam.hook else None)
        with ctx.sut("opening"):
            shared = pg.open("shared.nc", format=s["reader"])
        acts = []
        for j, a in enumerate(sc["acts"]):
            r = a["r"]
            v = s["vars"][r["var"]]
            la, tol = expect(v)
            want, _ = expected_request(r, la)
            what = "%s %s of %s" % (a["k"], r["kind"], v["name"])
            chk = same_as(ctx, want, what, rtol=1e-9 if tol else 0, atol=tol)
            if a["k"] == "req":
                ctx.probe("shared-dataset")
                if a.get("pb") and r["kind"] in ("get", "values"):
                    display(ctx)
                    fn = lambda v=v: shared[v["name"]].get(pbar=True)
                else:
                    fn = lambda r=r, v=v, la=la: do_request(r, shared[v["name"]], la, ctx)
            elif a["k"] == "own":
                ctx.probe("own-dataset")
                fn = lambda r=r, v=v, la=la, a=a: do_request(r, pg.open("shared.nc", format=a["fmt"])[v["name"]], la, ctx)
            else:
                ctx.probe("concurrent-save")

                def fn(j=j, v=v, a=a):
                    pg.save("out%d.nc" % j, shared[v["name"]], format=a["fmt"], version=a["ver"])

                def chk(_, j=j, v=v, la=la, tol=tol):
                    with ctx.sut("reading a saved file"):
                        R = files.raw("out%d.nc" % j)
                    ctx.check(v["name"] in R["vars"], "file-lacks-variable", v["name"])
                    compare(ctx, R["vars"][v["name"]]["x"], la.arr, "file saved from a thread", rtol=1e-9 if tol else 0, atol=tol, kind="wrong-file-contents")
            acts.append(Act(a["t"], what, fn, chk))
        W.limit(sc["limit"])
        gc.disable()
        run_threads(sc, ctx, None, acts)
    finally:
        W.uninstall()


def threads_record(sc, ctx):
    import pygeode as pg
    from pygeode.formats import multifile
    T, A = sc["T"], sc["A"]
    n = len(T["v"])
    if not sc["cuts"] or sc["cuts"][-1] >= n:
        raise Invalid("cuts")
    arr = world.mkdata({"axes": [T] + A, "seed": sc["seed"], "style": "normal"})
    la = LA([T] + A, arr)
    b = [0] + sc["cuts"] + [n]
    names = []
    world.World(ctx).limit(1 << 22)
    with ctx.sut("saving the record"):
        for k in range(len(b) - 1):
            ix = list(range(b[k], b[k + 1]))
            x = pg.Var([world.mkaxis(M.axtake(T, ix))] + [world.mkaxis(a) for a in A], values=arr[ix], name="u")
            d = M.from_days("m365", M.to_days("m365", T["y"], T["m"], T["d"]) + b[k])
            names.append("r_%04d%02d%02d.nc" % d)
            pg.save(names[-1], x, format=sc["fmt"], version=sc["ver"])
            pg.open(names[-1], format=sc["fmt"]).u.get()
    if sc["how"] == "multi" and max(b[1] - b[0], b[-1] - b[-2]) == 1 and len(b) - 1 < n:
        raise Invalid("spacing unknown")
    guard_netcdf4(lambda *a: ctypes_seam.hook(*a) if ctypes_seam.hook else None)

    def opened():
        if sc["how"] == "multi":
            return multifile.open_multi(names, format=sc["fmt"], pattern="r_$Y$m$d")
        return multifile.openall(names, format=sc["fmt"], sorted=False)
    with ctx.sut("opening the record"):
        shared = opened()
    la = LA([T] + [a for a in A], arr)
    if [a.name for a in shared.u.axes] != [a.name for a in pg.open(names[0], format=sc["fmt"]).u.axes]:
        raise Invalid("order")
    order = []
    for ax, a in zip(shared.u.axes, la.axes):
        got, want = world.axis_coord(ax), M.axcoord(a)
        if not M.same(got, want):       # (sorted by openall)
            raise Invalid("sorted")
    acts = []
    for a in sc["acts"]:
        want, _ = expected_request(a["r"], la)
        what = "%s %s of the record" % (a["k"], a["r"]["kind"])
        fn = (lambda r=a["r"]: do_request(r, shared.u, la, ctx)) if a["k"] == "req" else (lambda r=a["r"]: do_request(r, opened().u, la, ctx))
        acts.append(Act(a["t"], what, fn, same_as(ctx, want, what, rtol=0)))
    ctx.probe("record")
    import pygeode
    pygeode.MAX_ARRAY_SIZE = sc["limit"]
    gc.collect()
    gc.disable()
    run_threads(sc, ctx, None, acts)


def tasks(sc, ctx, W, ds0, s, vals, expect):
    """The tasks of a converted object, executed by several threads."""
    import pygeode as pg
    from pygeode.ext_xarray import to_xarray
    from dask._task_spec import convert_legacy_graph
    if sc["file"]:
        with ctx.sut("opening"):
            ref = pg.open("shared.nc", format=s["reader"])
            for v in s["vars"]:
                ref[v["name"]].get()
        del ref
        guard_netcdf4(lambda *a: ctypes_seam.hook(*a) if ctypes_seam.hook else None)
        ds0 = pg.open("shared.nc", format=s["reader"])
    W.limit(sc["limit"])
    with ctx.sut("to_xarray"):
        X = to_xarray(ds0)
    wanted = [s["vars"][i % len(s["vars"])] for i in sc["xvars"]]
    out = {}

    def get(dsk, keys, **kw):
        if hasattr(dsk, "__dask_graph__"):
            dsk = dsk.__dask_graph__()
        g = convert_legacy_graph(dict(dsk))
        names = list(g)
        deps = dict((k, set(d for d in t.dependencies if d in g)) for k, t in g.items())
        done, started = {}, set()
        acts = []

        def worker():
            while len(done) < len(g):
                ready = [k for k in names if k not in started and all(d in done for d in deps[k])]
                if not ready:
                    if len(started) == len(g):
                        return True
                    S = threading_current()
                    S.yield_point("idle")
                    if failed:
                        return False
                    continue
                k = ready[0]
                started.add(k)
                try:
                    x = g[k](dict((d, done[d]) for d in deps[k]))
                except BaseException:
                    failed.append(k)
                    raise
                done[k] = x
                ctx.probe("tasks")
            return True
        failed = []
        for i in range(sc["n"]):
            acts.append(Act(i, "tasks", worker, lambda got: None))
        gc.disable()
        run_threads(sc, ctx, W, acts)

        def pick(k):
            return tuple(pick(x) for x in k) if isinstance(k, list) else done[k]
        return pick(keys)
    with dask.config.set(scheduler=get):
        got = dask.compute(*[X[v["name"]].data for v in wanted])
    for v, x in zip(wanted, got):
        la, tol = expect(v)
        compare(ctx, x, la.arr, "%s through xarray" % v["name"], rtol=1e-9 if tol else 0, atol=tol)


def threading_current():
    import threading_seam
    return threading_seam.current


def execute(sc, ctx):
    if sc["n"] < 1:
        raise Invalid("threads")
    {"expr": threads_expr, "stats": threads_stats, "file": threads_file, "xr": threads_file, "record": threads_record}[sc["base"]](sc, ctx)


def shrinks(sc):
    for k in ("acts", "xvars", "cuts"):
        if k in sc:
            for i in range(len(sc[k])):
                if len(sc[k]) > 1:
                    c = copy.deepcopy(sc)
                    del c[k][i]
                    yield c
    if sc["n"] > 2:
        c = copy.deepcopy(sc)
        c["n"] -= 1
        for x in c.get("acts", []) + c["sc"].get("reqs", []) if "sc" in c else c.get("acts", []):
            if isinstance(x, dict) and "t" in x:
                x["t"] %= c["n"]
        yield c
    if sc["limit"] != 1 << 22:
        c = copy.deepcopy(sc)
        c["limit"] = 1 << 22
        yield c
    if sc["base"] == "expr":
        for c in expr_shrinks(sc["sc"]):
            yield dict(copy.deepcopy(sc), sc=c)
