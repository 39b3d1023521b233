import sys, gzip, pickle, shutil, signal
from props.exprbase import *
import files

ID = "P14"
LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 60000}
RULE = ("one case = a set of files (overlapping or tiled pieces of variables; a simulated opener or real netCDF files) and a history of 3-14 steps under a simulated clock: files added, changed (also within one clock tick, or with an "
        "older time stamp), removed, renamed, swapped; the manifest damaged, deleted or put back from an earlier scan; scans by new or long-lived manifests, each possibly under failing opens, disk faults, a crash at a seeded "
        "call or files changing meanwhile; after a scan that succeeds everything it presents is evaluated under seeded requests and limits; non-trivial if a scan used a manifest written before; distinct by scenario")
STATE_MEASURE = "distinct (opener, how the manifest stood, which files had changed since, fault kind, outcome of the scan) tuples"
REAL = ["pygeode.formats.data_scanner", "gzip, pickle and the file system calls below them", "pygeode.formats.netcdf/netcdf4 and the real libraries in a third of the cases"]
STUB = ["a simulated opener in two thirds of the cases", "file time stamps (set from the simulated clock)", "disk faults and crashes (simio)", "memory limit", "contents of uninitialised memory"]
ASSUMPTIONS = ["a changed file has another time stamp or another size", "coordinates of one axis refer to the same origin in all files (assumed by the scanner)"]
PROBES = ["manifest-used", "rebuilt", "stale-manifest", "open-failed", "crashed-scan", "crash-tore-manifest", "save-failed", "changed-during-scan", "same-tick-change", "older-file", "kept-object", "two-writers", "netcdf-files",
          "several-datasets", "merged-files", "axes-in-other-order", "read-failed", "missing-file"]
NAMES = ["a.nc", "b.nc", "c.nc", "d.nc", "e.nc"]
KINDS = sorted(world.FAULTS)


def gen_piece(rng, n, style):
    """Indices of a piece of an axis of length n."""
    if style == "all" or n == 1:
        return list(range(n))
    a, b = sorted(rng.sample(range(n + 1), 2))
    out = list(range(a, b))
    if style == "odd" and n > 2:
        out = sorted(rng.sample(range(n), rng.randint(1, n)))
    return out


def gen_content(rng, sc):
    """What a file holds: a list of entries."""
    out, pieces = [], {}
    for v in rng.sample(sc["vars"], min(len(sc["vars"]), rng.pick([1, 1, 2, 3]))):
        e = {"v": v["name"], "seed": rng.randrange(1 << 30), "ix": [], "att": rng.pick([{"units": "K"}, {"units": "K"}, {"units": "m", "long": "x"}, {}])}
        if rng.chance(0.5):
            e["seed"] = v["seed"]          # overlapping pieces agree
        for i in v["ax"]:
            n = len(sc["axes"][i]["v"])
            ix = gen_piece(rng, n, rng.pick(sc["styles"][i]))
            if sc["via"] != "sim":         # (one dimension of each name in a netCDF file)
                ix = pieces.setdefault(i, ix)
            e["ix"].append(ix)
        if len(v["ax"]) > 1 and sc["mixed"] and rng.chance(0.3):
            p = list(range(len(v["ax"])))
            rng.shuffle(p)
            e["perm"] = p
        if rng.chance(0.2):
            e["dtype"] = rng.pick(["f4", "i4", "i2"])
        out.append(e)
    return out


def gen(rng, tier):
    sc = {"via": rng.pick(["sim", "sim", "netcdf", "sim", "sim", "netcdf4"]), "mixed": rng.chance(0.12), "axes": [], "vars": [], "styles": [], "steps": []}
    sc["axes"] = [dict(gen_axis(rng, rng.pick(["std", "std", "std", "m365"]), rng.randint(2, 8)))]
    for c in rng.sample(["lat", "pres", "nam:x", "nam:y"], rng.pick([0, 1, 1, 2])):
        sc["axes"].append(gen_axis(rng, c.split(":")[0], rng.randint(1, 4), c.split(":")[1] if ":" in c else None))
    if len(sc["axes"]) == 3 and rng.chance(0.3):      # two axes with the same values
        sc["axes"][1:] = [{"c": "nam", "n": n, "v": [0.0, 1.0, 2.0]} for n in ("x", "y")]
    k = rng.randrange(4)
    for i in range(len(sc["axes"])):
        sc["styles"].append([["any"], ["all", "any"], ["odd", "any"], ["all"]][k] if i == 0 else ["all", "all", "all", "any"] if k else ["any", "all"])
    for n in rng.sample(["T", "U", "V"], rng.randint(1, 3)):
        ax = list(range(len(sc["axes"])))
        if rng.chance(0.25):
            ax = rng.subset(ax, 0)
            ax.sort()
        sc["vars"].append({"name": n, "ax": ax, "seed": rng.randrange(1 << 30)})
    nm = NAMES[:rng.randint(2, 5)]
    sc["files"] = {}
    tiles = rng.chance(0.35)
    n = len(sc["axes"][0]["v"])
    for i, f in enumerate(nm):
        if f == nm[0] or rng.chance(0.85):
            c = gen_content(rng, sc)
            if tiles:              # pieces of one record
                c = c[:1]
                for e in c:
                    v = [v for v in sc["vars"] if v["name"] == e["v"]][0]
                    e["ix"] = [list(range(len(sc["axes"][q]["v"]))) for q in v["ax"]]
                    if 0 in v["ax"]:
                        e["ix"][0] = list(range(i * n // len(nm), (i + 1) * n // len(nm))) or [0]
            sc["files"][f] = c
    have = dict(sc["files"])
    ngood = 0

    def scan():
        s = {"k": "scan", "rs": rng.randrange(1 << 30), "m": rng.pick(["new", "new", "new", "new", 0, 1]), "list": rng.randrange(4), "save": not rng.chance(0.1)}
        if rng.chance(0.25):
            s["sub"] = rng.subset(nm, 1)
        if rng.chance(0.04):
            s["sub"] = []
        x = rng.random()
        if x < 0.16:
            s["open"] = [rng.pick([0, 0, 1, 2]), rng.pick(KINDS)]
        elif x < 0.3:
            s["disk"] = rng.pick([["open", 0, "EACCES"], ["open", 1, "EMFILE"], ["write", 0, "ENOSPC"], ["write", rng.randrange(3), "EIO"], ["read", 0, "EIO"], ["close", 0, "EIO"], ["write", 0, "SHORT"], ["read", 0, "SHORT"], ["rename", 0, "EIO"]])
        elif x < 0.45:
            s["crash"] = rng.pick([["open", rng.randrange(3)], ["write", 0], ["write", rng.randrange(4)], ["torn", 0, rng.pick([1, 5, 20, 60, 100, 150, 300])], ["torn", rng.randrange(3), 0], ["close", 0], ["rename", 0], ["opener", rng.randrange(3)]])
        elif x < 0.53:
            s["mid"] = [rng.randrange(3), rng.pick(nm), gen_content(rng, sc)]
        if rng.chance(0.2):
            s["rfault"] = [rng.randrange(3), rng.pick(KINDS)]
        return s

    def change():
        f = rng.pick(nm)
        x = rng.random()
        if x < 0.45:
            return {"k": "write", "f": f, "c": gen_content(rng, sc), "t": rng.pick(["now", "now", "now", "older", "same"])}
        if x < 0.55:
            return {"k": "remove", "f": f}
        if x < 0.67:
            return {"k": "rename", "f": f, "g": rng.pick(nm)}
        if x < 0.75:
            return {"k": "swap", "f": f, "g": rng.pick(nm)}
        if x < 0.87:
            return {"k": "tick", "dt": rng.pick([0.001, 0.4, 1, 1, 2.5, 3600, 86400 * 40, -1, -3600])}
        return {"k": "manifest", "how": rng.pick(["delete", "truncate", "truncate", "flip", "empty", "garbage", "text", "old", "back", "back", "other"]), "at": rng.random(), "g": rng.randrange(3)}
    if rng.chance(0.3):
        sc["steps"].append({"k": "manifest", "how": rng.pick(["empty", "garbage", "text", "old", "other"]), "at": rng.random(), "g": 0})
    sc["steps"].append(scan())
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.pick([0, 1, 1, 2, 3])):
            sc["steps"].append(change())
        sc["steps"].append(scan())
    return sc


def entry(sc, e):
    """(axes, values, global index lists) of an entry, in the order of the file."""
    v = [v for v in sc["vars"] if v["name"] == e["v"]]
    if not v or len(v[0]["ax"]) != len(e["ix"]):
        raise Invalid("entry")
    v = v[0]
    ax = [sc["axes"][i] for i in v["ax"]]
    for a, ix in zip(ax, e["ix"]):
        if not ix or max(ix) >= len(a["v"]):
            raise Invalid("entry")
    dt = e.get("dtype", "f8")
    x = world.mkdata({"axes": ax, "seed": e["seed"], "style": "int" if dt[0] == "i" else "normal", "dtype": dt})
    for i, ix in enumerate(e["ix"]):
        x = np.take(x, ix, axis=i)
    ax = [M.axtake(a, ix) for a, ix in zip(ax, e["ix"])]
    p = e.get("perm", list(range(len(ax))))
    if sorted(p) != list(range(len(ax))):
        raise Invalid("perm")
    return [ax[i] for i in p], x.transpose(p) if ax else x


def canon(dss):
    """Everything a list of datasets says about itself, in a comparable form."""
    out = []
    for d in dss:
        one = []
        for v in d.vars:
            ax = []
            for a in v.axes:
                aux = sorted((k, [round(float(x), 9) for x in z]) for k, z in a.auxarrays.items())
                ax.append((type(a).__name__, a.name, [round(float(x), 9) for x in a.values], aux, str(getattr(a, "units", "")), sorted((k, repr(z)) for k, z in getattr(a, "startdate", {}).items())))
            one.append((v.name, ax, sorted((k, repr(z)) for k, z in v.atts.items())))
        out.append(sorted(one))
    return sorted(out)


def execute(sc, ctx):
    import pygeode as pg
    from pygeode.formats import data_scanner as S
    W = world.World(ctx)
    W.install_allocator()
    D = files.Disk(ctx)
    os.mkdir("d")
    T0 = 1000000000 * 10 ** 9
    st = {"now": T0, "gen": 0}
    disk = {}              # name -> (content, mtime, size)
    used = {}              # name -> stamps it ever had
    real = sc["via"] != "sim"
    if real:
        ctx.probe("netcdf-files")
        for c in list(sc["files"].values()) + [s["c"] for s in sc["steps"] if "c" in s] + [s["mid"][2] for s in sc["steps"] if "mid" in s]:
            px = {}
            for e in c:
                for v in sc["vars"]:
                    if v["name"] == e["v"]:
                        for i, ix in zip(v["ax"], e["ix"]):
                            if px.setdefault(i, ix) != ix:
                                raise Invalid("one dimension of each name")

    def put(f, c, mode="now"):
        """Write a file.  (mode: the time stamp it gets)"""
        st["gen"] += 1
        p = "d/" + f
        if not c:
            raise Invalid("empty file")
        for e in c:
            entry(sc, e)
        if real:
            if os.path.exists(p):
                os.remove(p)
            out = []
            for e in c:
                ax, x = entry(sc, e)
                out.append(pg.Var([world.mkaxis(a) for a in ax], values=x, name=e["v"], atts=dict(e["att"])))
            W.limit(1 << 22)
            with ctx.sut("saving"):
                pg.save(p, pg.Dataset(out, print_warnings=False), format="netcdf")
            size = os.stat(p).st_size
        else:
            size = 100 + st["gen"] % 2
            with open(p, "wb") as h:
                h.write(b"x" * size)
        t = st["now"]
        if mode == "older":
            t -= 3600 * 10 ** 9 + st["gen"]
            ctx.probe("older-file")
        elif mode == "same" and f in disk:
            t = disk[f][1]
        while (t, size) in used.setdefault(f, set()):
            t += 1
        if f in disk and t // 10 ** 9 == disk[f][1] // 10 ** 9:
            ctx.probe("same-tick-change")
        stamp(f, t, size)
        disk[f] = (c, t, size)
        ctx.log("put", f, t, size)

    def stamp(f, t, size):
        used.setdefault(f, set()).add((t, size))
        os.utime("d/" + f, ns=(t, t))

    for f, c in sc["files"].items():
        put(f, c)
    calls = {"n": 0, "fail": {}, "hook": None}

    def opener(f):
        n = calls["n"]
        calls["n"] += 1
        ctx.log("open", n, os.path.basename(f))
        if n in calls["fail"]:
            kind = calls["fail"].pop(n)
            ctx.fault("open:" + kind)
            raise world.FAULTS[kind]("injected failure of open %d" % n)
        if calls["hook"]:
            calls["hook"](n, os.path.basename(f))
        f = os.path.normpath(f)
        b = os.path.basename(f)
        if b not in disk:
            raise IOError("no file " + f)
        if real:
            out = pg.open(f, format=sc["via"])
        else:
            out = []
            for e in disk[b][0]:
                ax, x = entry(sc, e)
                y = W.source({"axes": ax, "data": x, "mode": ["getview", "getvalues", "values"][e["seed"] % 3], "alias": e["seed"] % 5 == 0}, e["v"])
                y.name, y.atts = e["v"], dict(e["att"])
                out.append(y)
            W.sources.clear()
        if calls["hook"]:
            calls["hook"](n, None)
        return out

    def mstat():
        try:
            s = os.stat("manifest")
            return (s.st_mtime_ns, s.st_ino, s.st_size)
        except OSError:
            return None

    def settle_manifest(then):
        """Give the manifest the simulated time if it was written."""
        if mstat() not in (None, then) and mstat()[0] > T0 * 1.2:
            os.utime("manifest", ns=(st["now"], st["now"]))

    olds, objs, scanned = [], {}, {}
    status = "none"
    for j, s in enumerate(sc["steps"]):
        k = s["k"]
        what = "step %d (%s)" % (j, k)
        if k == "tick":
            st["now"] += int(s["dt"] * 10 ** 9)
            ctx.simtime += abs(s["dt"])
            continue
        st["now"] += 1000003
        if k == "write":
            put(s["f"], s["c"], s["t"])
            continue
        if k == "remove":
            if s["f"] in disk:
                os.remove("d/" + s["f"])
                del disk[s["f"]]
            continue
        if k in ("rename", "swap"):
            f, g = s["f"], s["g"]
            if f not in disk or f == g or (k == "swap" and g not in disk):
                continue
            os.rename("d/" + f, "d/tmp")
            a, b = disk.pop(f), disk.pop(g, None)
            if b:
                if k == "swap":
                    os.rename("d/" + g, "d/" + f)
                    disk[f] = b
                else:
                    os.remove("d/" + g)
            os.rename("d/tmp", "d/" + g)
            disk[g] = a
            for q in (f, g):           # (a changed file has another stamp)
                if q in disk:
                    c, t, size = disk[q]
                    while (t, size) in used.setdefault(q, set()) and (q, t, size, id(c)) != scanned.get(q):
                        t += 1
                    stamp(q, t, size)
                    disk[q] = (c, t, size)
            continue
        if k == "manifest":
            status = s["how"]
            how = s["how"]
            n = os.path.getsize("manifest") if os.path.exists("manifest") else -1
            if how in ("truncate", "flip") and n <= 0:
                continue
            if how == "delete":
                if n >= 0:
                    os.remove("manifest")
            elif how == "truncate":
                with open("manifest", "r+b") as h:
                    h.truncate(int(s["at"] * n))
            elif how == "flip":
                with open("manifest", "r+b") as h:
                    x = bytearray(h.read())
                    x[int(s["at"] * (n - 1))] ^= 1 << (s["g"] * 3 % 8)
                    h.seek(0)
                    h.write(bytes(x))
            elif how == "empty":
                open("manifest", "wb").close()
            elif how == "garbage":
                with open("manifest", "wb") as h:
                    h.write(bytes(int(x) for x in np.random.RandomState(int(s["at"] * 10 ** 6)).randint(0, 256, 200)))
            elif how == "text":
                with gzip.open("manifest", "wb") as h:
                    h.write(b"This is some other file.\n" * (1 + s["g"]))
            elif how == "old":         # an earlier version of the format, without anything of use
                with gzip.open("manifest", "wb") as h:
                    pickle.dump(["2", "1", None][s["g"]], h)
                    h.write([pickle.dumps({"d/" + f: [] for f in NAMES}), b"", b"\x80\x04cnosuchmodule\nX\n."][s["g"]])
            elif how == "other":       # something else that was pickled and compressed
                with gzip.open("manifest", "wb") as h:
                    pickle.dump([{}, [1, 2], 7][s["g"]], h)
            elif how == "back" and olds:
                shutil.copy(olds[s["g"] % len(olds)], "manifest")
                ctx.probe("stale-manifest")
            if os.path.exists("manifest"):
                os.utime("manifest", ns=(st["now"], st["now"]))
            ctx.log("manifest", how)
            continue
        # ---- a scan
        names = [f for f in sorted(disk) if "sub" not in s or f in s["sub"]]
        missing = [f for f in s.get("sub", []) if f not in disk] if s["list"] else []
        if s["list"] == 0 and "sub" not in s:
            flist = "d/*.nc"
        else:
            flist = ["d/" + f for f in names + missing]
            if s["list"] == 2:
                flist = [("./" if i % 2 else ".//") + x.replace("d/", "d//" if i % 3 else "d/./") for i, x in enumerate(flist)]
            elif s["list"] == 3:
                flist = flist[::-1] + ["d/./" + f for f in names[:1]]
        calls.update(n=0, fail={}, hook=None)
        if s.get("open"):
            calls["fail"] = {s["open"][0]: s["open"][1]}
        changed = [f for f in names if scanned.get(f) != (f,) + disk[f][1:] + (id(disk[f][0]),)]
        before = mstat()
        used_before = before is not None

        def go():
            if s["m"] == "new":
                m = "manifest"
            else:
                if s["m"] not in objs:
                    objs[s["m"]] = S._Manifest(filename="manifest")
                else:
                    ctx.probe("kept-object")
                    if len(objs) > 1:
                        ctx.probe("two-writers")
                m = objs[s["m"]]
            return S.from_files(flist, opener, manifest=m, save_manifest=s["save"])
        if s.get("crash"):
            ctx.probe("crashed-scan")
            op = s["crash"][0]
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    if op == "opener":
                        def hook(n, f, at=s["crash"][1]):
                            if n == at and f:
                                os._exit(77)
                        calls["hook"] = hook
                        D.arm()
                    elif op == "torn":
                        D.arm([["write", s["crash"][1], "TORNCRASH", s["crash"][2]]])
                    else:
                        D.arm([[op, s["crash"][1], "CRASH", 0]])
                    S.from_files(flist, opener, manifest="manifest", save_manifest=s["save"])
                except BaseException:
                    pass
                os._exit(0)
            _, x = os.waitpid(pid, 0)
            ctx.log("crash", s["crash"], x)
            if os.WIFEXITED(x) and os.WEXITSTATUS(x) == 77:
                ctx.fault("crash:" + op)
                ctx.trivial = False
                if before != mstat():
                    ctx.probe("crash-tore-manifest")
            elif os.WIFSIGNALED(x):
                ctx.violate("killed", "%s: scan ended by signal %d" % (what, os.WTERMSIG(x)))
            settle_manifest(before)
            status = "after-crash"
            ctx.state(sc["via"], status, len(changed), s["crash"], x)
            continue
        cnow = dict((f, disk[f]) for f in names)
        mid = []
        if s.get("mid"):
            def hook(n, f):
                if n == s["mid"][0] and f is None and not mid:
                    mid.append(1)
                    ctx.probe("changed-during-scan")
                    put(s["mid"][1], s["mid"][2])
            calls["hook"] = hook
        f0 = sum(ctx.faults.values())
        D.arm([s["disk"][:3] + [0]] if s.get("disk") else [])
        W.limit(1 << 22)
        err = got = None
        try:
            got = go()
        except Exception as e:
            if isinstance(e, (Violation, Invalid, HarnessError)):
                raise
            err = "%s: %s" % (type(e).__name__, e)
        calls.update(hook=None)
        calls["fail"] = {}
        D.settle()
        settle_manifest(before)
        fired = sum(ctx.faults.values()) - f0
        ctx.log("scan", j, "raised" if err else len(got), fired, calls["n"])
        ctx.state(sc["via"], status, len(changed), s.get("open", s.get("disk")), bool(err), calls["n"])
        fresh = status in ("truncate", "flip", "empty", "garbage", "text", "old", "other")
        if used_before:
            ctx.trivial = False
            ctx.probe("manifest-used")
            if fresh and not err:
                ctx.probe("rebuilt")
        if err and not (fired or missing or mid):
            ctx.violate("scan-failed", "%s (manifest: %s): %s" % (what, status, err))
        if missing and not fired and not mid:
            ctx.probe("missing-file")
            ctx.check(err, "missing-file-ignored", lambda: "%s: %s are missing but the scan says nothing" % (what, missing))
        if err:
            if fired:
                ctx.probe("open-failed" if s.get("open") else "save-failed")
            status = "after-failure"
            continue
        if s["save"]:
            status = "good"
            if mstat():
                st["gen"] += 1
                olds.append("kept%d" % st["gen"])
                shutil.copy("manifest", olds[-1])
        for f in names:
            scanned[f] = (f,) + cnow[f][1:] + (id(cnow[f][0]),)
        if mid:
            continue                  # (may show the file before or after the change)
        present(sc, ctx, W, S, s, what, got, flist, opener, names, disk, calls, real)
    W.uninstall()


def present(sc, ctx, W, S, s, what, got, flist, opener, names, disk, calls, real):
    """The datasets a scan returned are what the files hold."""
    rng = Rng(s["rs"])
    calls["n"] = 0
    with ctx.sut(what + ": scanning afresh"):
        fresh = S.from_files(flist, opener, manifest=None)
    mixed = any("perm" in e for f in names for e in disk[f][0])
    if mixed:
        ctx.probe("axes-in-other-order")
    a, b = canon(got), canon(fresh)
    ctx.check(a == b or mixed, "differs-from-fresh-scan", lambda: "%s: with the manifest %s, without %s" % (what, diff(a, b), diff(b, a)))
    ents = [(f, e) for f in names for e in disk[f][0]]
    found = [False] * len(ents)
    if len(got) > 1:
        ctx.probe("several-datasets")
    jobs = []
    # (a seeded order: theirs is that of hash values)
    got = sorted(got, key=lambda d: repr(canon([d])))
    for q, d in enumerate(got):
        for v in sorted(d.vars, key=lambda v: v.name):
            mine = [(f, e) for f, e in ents if e["v"] == v.name]
            w = "%s: %s of dataset %d" % (what, v.name, q)
            ctx.check(mine, "unknown-variable", w)
            gv = [x for x in sc["vars"] if x["name"] == v.name][0]
            gax = dict((M.axname(sc["axes"][i]), (n, sc["axes"][i])) for n, i in enumerate(gv["ax"]))
            ctx.check(sorted(gax) == sorted(x.name for x in v.axes), "wrong-axes", lambda: "%s: axes %s, the files have %s" % (w, [x.name for x in v.axes], sorted(gax)))
            if not mixed:
                ctx.check([x.name for x in v.axes] == [M.axname(sc["axes"][i]) for i in gv["ax"]], "wrong-axes", lambda: "%s: axes in another order" % w)
            at, idx = [], []
            for x in v.axes:
                n, a = gax[x.name]
                i = M.common(world.axis_coord(x), M.axcoord(a))
                ctx.check(i is not None and len(set(i)) == len(i) and len(i) > 0, "wrong-axes", lambda: "%s: axis %s is %s, the files hold %s" % (w, x.name, world.axis_coord(x), M.axcoord(a)))
                at.append(n)
                idx.append(i)
            la = LA([M.axtake(gax[x.name][1], i) for x, i in zip(v.axes, idx)], np.zeros([len(i) for i in idx]))
            axes_match(ctx, v, la, w)
            common = set.intersection(*[set(e["att"].items()) for f, e in mine])
            atts = dict((k, z) for k, z in v.atts.items() if not real or k in ("units", "long"))
            ctx.check(atts == dict(common), "wrong-attributes", lambda: "%s: %s, the files have %s in common" % (w, v.atts, dict(common)))
            # candidates for every point
            cands = []
            full = [len(sc["axes"][i]["v"]) for i in gv["ax"]]
            nf = 0
            for z, (f, e) in enumerate(ents):
                if e["v"] != v.name:
                    continue
                ax, x = entry(sc, e)
                g = np.full(full, np.nan)
                p = e.get("perm")
                g[np.ix_(*e["ix"]) if e["ix"] else ()] = x.transpose(np.argsort(p)) if p else x
                g = np.transpose(g, at) if at else g
                for n, i in enumerate(idx):
                    g = np.take(g, i, axis=n)
                cands.append(g)
                nf += bool(np.any(~np.isnan(g)))
                if all(set(y) <= set(idx[at.index(n)]) for n, y in enumerate(e["ix"])):
                    found[z] = True
            if nf > 1:
                ctx.probe("merged-files")
            ctx.check(not np.any(np.all([np.isnan(g) for g in cands], axis=0)), "points-without-data", lambda: "%s covers points no file holds" % w)
            jobs.append((v, la, cands, w))
    for z, ok in enumerate(found):
        ctx.check(ok, "data-lost", lambda: "%s: no dataset holds all of %s in %s" % (what, ents[z][1]["v"], ents[z][0]))
    # values
    kept = [x for d in fresh for x in d.vars]
    n0 = 0
    for q, (v, la, cands, w) in enumerate(jobs):
        r = gen_request(rng, la, 0)
        wants = [expected_request(r, LA(la.axes, g))[0] for g in cands]
        W.limit(r["limit"])
        if s.get("rfault") and q == 0:
            calls["n"] = 0
            calls["fail"] = {s["rfault"][0]: s["rfault"][1]}
            f0 = sum(ctx.faults.values())
            try:
                out = do_request(r, v, la, ctx)
                err = None
            except Exception as e:
                if isinstance(e, (Violation, Invalid, HarnessError)):
                    raise
                err = "%s: %s" % (type(e).__name__, e)
            calls["fail"] = {}
            fired = sum(ctx.faults.values()) > f0
            ctx.check(not err or fired, "request-failed", lambda: "%s: %s" % (w, err))
            ctx.check(err or not fired, "failure-swallowed", lambda: "%s: a file could not be opened, yet values were returned" % w)
            if fired:
                ctx.probe("read-failed")
        with ctx.sut(w):
            out = np.asarray(do_request(r, v, la, ctx))
        ctx.check(all(out.shape == x.shape for x in wants), "wrong-shape", lambda: "%s: %s, expected %s" % (w, out.shape, wants[0].shape))
        ok = np.any([(out == x) for x in wants], axis=0)
        ctx.check(np.all(ok), "wrong-value", lambda: "%s (%s): got %s, the files hold %s" % (w, r, short(out[~ok].tolist()), [short(x[~ok].tolist()) for x in wants]))
        ctx.log("values", q, digest_array(out))


def diff(a, b):
    return short([x for x in a if x not in b] or a)


def shrinks(sc):
    for i in range(len(sc["steps"])):
        c = copy.deepcopy(sc)
        del c["steps"][i]
        yield c
    for f in sc["files"]:
        c = copy.deepcopy(sc)
        del c["files"][f]
        yield c
        for i in range(len(sc["files"][f])):
            if len(sc["files"][f]) > 1:
                c = copy.deepcopy(sc)
                del c["files"][f][i]
                yield c
    for i, s in enumerate(sc["steps"]):
        for k in ("open", "disk", "crash", "mid", "rfault", "sub"):
            if k in s:
                c = copy.deepcopy(sc)
                del c["steps"][i][k]
                yield c
        if s.get("list"):
            c = copy.deepcopy(sc)
            c["steps"][i]["list"] = 0
            yield c
        if s["k"] == "write" and len(s["c"]) > 1:
            c = copy.deepcopy(sc)
            c["steps"][i]["c"] = s["c"][:1]
            yield c
    if sc["via"] != "sim":
        yield dict(copy.deepcopy(sc), via="sim")
