"""Runs scenarios: one forked process per run, seeded search, minimisation,
replay files, evidence."""
import gc, sys, os, json, time, signal, select, pickle, hashlib, copy, subprocess, traceback, importlib, resource, shutil, tempfile
from core import *
import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_WALL = 90          # wall seconds after which a single run counts as hung
NWORK = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
SOFT_WALL = {"quick": 600.0, "thorough": 3300.0}


def load_prop(pid):
    import world
    world.load()
    return importlib.import_module("props." + pid.lower())


# ------------------------------------------------------------- a single run
def run_here(prop, sc):
    """Execute one scenario in this process. Returns a picklable result."""
    import numpy as np, random, warnings, contextlib
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    np.random.seed(12345)
    random.seed(12345)
    import uuid                        # (dask names what it can't otherwise identify)
    names = random.Random(54321)
    uuid.uuid4 = lambda: uuid.UUID(int=names.getrandbits(128), version=4)
    ctx = Ctx()
    res = dict(status="ok", kind=None, detail="")
    try:
        prop.execute(sc, ctx)
    except Violation as v:
        res.update(status="violation", kind=v.kind, detail=v.detail)
        ctx.log("violation", v.kind)
    except Invalid as e:
        res.update(status="invalid", detail=str(e))
    except BaseException as e:
        res.update(status="harness", kind=type(e).__name__, detail="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    res.update(digest=ctx.digest(), events=ctx.events[-120:], counts=ctx.counts, faults=ctx.faults,
               states=sorted(ctx.states), trivial=ctx.trivial, simtime=ctx.simtime, nevents=ctx.nevents)
    if getattr(ctx, "concrete", None):      # the same scenario with its random choices spelled out
        res["concrete"] = ctx.concrete
    return res


def _child(prop, sc, wfd, scratch):
    try:
        dn = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(dn, fd)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.environ["VERIF_SCRATCH"] = scratch
        os.chdir(scratch)
        res = run_here(prop, sc)
        data = pickle.dumps(res)
    except BaseException as e:
        data = pickle.dumps(dict(status="harness", kind="child", detail=repr(e), digest="", events=[], counts={}, faults={}, states=[], trivial=True, simtime=0, nevents=0))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


_frozen = False


def run_forked(prop, sc, wall=RUN_WALL):
    scratch = tempfile.mkdtemp(prefix="run-", dir=scratch_root())
    r, w = os.pipe()
    global _frozen
    if not _frozen:
        _frozen = True
        gc.collect()
        gc.freeze()       # a collection in a run looks at the run's own objects only
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(prop, sc, w, scratch)
    os.close(w)
    buf = b""
    end = time.time() + wall
    hung = False
    while True:
        left = end - time.time()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hung = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    if hung:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    empty = dict(digest="", events=[], counts={}, faults={}, states=[], trivial=False, simtime=0, nevents=0)
    if hung:
        return dict(empty, status="violation", kind="hang", detail="no result after %ds" % wall)
    try:
        return pickle.loads(buf)
    except Exception:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        if sig == signal.SIGKILL:      # not the code under test: memory pressure or the operator
            return dict(empty, status="harness", kind="killed", detail="run process was killed")
        return dict(empty, status="violation", kind="crash:%s" % (sig if sig else "exit%d" % (os.WEXITSTATUS(st))), detail="the process died")


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH_ROOT")
        if base and os.path.isdir(base):
            _scratch = base
        else:
            shm = "/dev/shm"
            _scratch = tempfile.mkdtemp(prefix="pygsim-", dir=shm if os.access(shm, os.W_OK) else None)
            os.environ["VERIF_SCRATCH_ROOT"] = _scratch
            import atexit
            owner = os.getpid()
            atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ------------------------------------------------------------- the batch
def scenario(prop, base, i, tier):
    seed = seed_int(base, prop.ID, i)
    rng = Rng(seed)
    sc = prop.gen(rng, tier)
    sc = json.loads(json.dumps(sc))      # exactly what a replay file would hold
    return seed, sc


def _worker(prop, base, idxs, tier, fd, deadline):
    out = os.fdopen(fd, "wb")
    for i in idxs:
        if time.time() > deadline:
            break
        try:
            seed, sc = scenario(prop, base, i, tier)
        except BaseException as e:
            res = dict(status="harness", kind="gen", detail="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:], digest="", events=[], counts={},
                       faults={}, states=[], trivial=True, simtime=0, nevents=0)
            sc = None
        else:
            res = run_forked(prop, sc)
        res["i"] = i
        if res["status"] != "ok" or i < 4:
            res["sc"] = sc
        res["schash"] = hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16]
        if res["status"] == "ok":
            res["events"] = res["events"][:25] if i < 4 else []
        data = pickle.dumps(res)
        out.write(len(data).to_bytes(8, "big") + data)
        out.flush()
        if res["status"] == "violation" and not known_match(prop, sc, res):
            break
    out.close()
    os._exit(0)


def run_batch(prop, base, n, tier, deadline):
    """All runs, in order of their index (the order they finish in is irrelevant)."""
    scratch_root()
    fds, pids, bufs = {}, [], {}
    for w in range(NWORK):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            _worker(prop, base, range(w, n, NWORK), tier, wr, deadline)
        os.close(wr)
        fds[r] = w
        bufs[r] = b""
        pids.append(pid)
    results = []
    live = set(fds)
    stop = False
    while live:
        rd, _, _ = select.select(list(live), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 8:
                ln = int.from_bytes(bufs[r][:8], "big")
                if len(bufs[r]) < 8 + ln:
                    break
                res = pickle.loads(bufs[r][8:8 + ln])
                bufs[r] = bufs[r][8 + ln:]
                results.append(res)
                if res["status"] == "violation" and not known_match(prop, res["sc"], res):
                    stop = True
        if stop:      # one counterexample is enough; let the others finish their current run
            for p in pids:
                try:
                    os.kill(p, signal.SIGTERM)
                except OSError:
                    pass
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    results.sort(key=lambda r: r["i"])
    return results


# ------------------------------------------------------------- known findings
_known = None


def known():
    global _known
    if _known is None:
        try:
            with open(os.path.join(HERE, "known_findings.json")) as f:
                _known = json.load(f)
        except IOError:
            _known = []
    return _known


def known_match(prop, sc, res):
    """A violation matches a listed finding only if the property's own
    signature of the failing input/call site equals the listed one."""
    if res["status"] != "violation":
        return None
    sig = None
    for k in known():
        if k.get("status") == "known" and k["property"] == prop.ID:
            if sig is None:
                sig = prop.signature(sc, res) if hasattr(prop, "signature") else None
            if sig is not None and sig == k["signature"]:
                return k
    return None


# ------------------------------------------------------------- minimisation
SHRINK_KEYS = ("reqs", "faults", "ops", "hist", "sched", "edits", "events", "threads", "list")


def generic_shrinks(sc):
    """Remove elements of the whitelisted lists, anywhere in the scenario."""
    def walk(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in SHRINK_KEYS and isinstance(v, (list, dict)) and len(v):
                    yield path + [k], v
                for y in walk(v, path + [k]):
                    yield y
        elif isinstance(node, list):
            for i, v in enumerate(node):
                for y in walk(v, path + [i]):
                    yield y

    def put(path, val):
        c = copy.deepcopy(sc)
        n = c
        for p in path[:-1]:
            n = n[p]
        n[path[-1]] = val
        return c
    for path, v in list(walk(sc, [])):
        if isinstance(v, dict):
            for k in list(v):
                yield put(path, dict((a, b) for a, b in v.items() if a != k))
        else:
            n = len(v)
            step = n
            while step >= 1:
                for s in range(0, n, step):
                    if n - min(step, n - s) >= 0:
                        yield put(path, v[:s] + v[s + step:])
                step //= 2


def minimise(prop, sc, res, wall=75.0, tries=400):
    end = time.time() + wall
    best, bres = sc, res
    cost = lambda s: len(json.dumps(s))
    n = 0
    if res.get("concrete"):
        c = json.loads(json.dumps(dict(sc, **res["concrete"])))
        r = run_forked(prop, c)
        if r["status"] == "violation" and r["kind"] == res["kind"]:
            best, bres = c, r
    progress = True
    while progress and time.time() < end and n < tries:
        progress = False
        cands = []
        if hasattr(prop, "shrinks"):
            cands.append(prop.shrinks(best))
        cands.append(generic_shrinks(best))
        for gen in cands:
            for c in gen:
                if time.time() > end or n >= tries:
                    break
                n += 1
                try:
                    c = json.loads(json.dumps(c))
                except Exception:
                    continue
                if cost(c) >= cost(best):
                    continue
                r = run_forked(prop, c, wall=20 if res["kind"] != "hang" else RUN_WALL)
                if r["status"] == "violation" and r["kind"] == res["kind"] and not known_match(prop, c, r):
                    best, bres = c, r
                    progress = True
                    break
            if progress:
                break
    return best, bres, n


def write_replay(prop, sc, res, seed, base, i):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop.ID, kind=res["kind"], detail=res["detail"], verif_seed=base, run=i, run_seed=seed,
                scenario=sc, trace=res["events"], digest=res["digest"])
    name = "%s-%s.json" % (prop.ID, hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def fresh(args, hashseed="0", wall=RUN_WALL * 3):
    """Run main.py in a fresh interpreter."""
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    env.pop("VERIF_SCRATCH_ROOT", None)
    p = subprocess.run([sys.executable, os.path.join(HERE, "sim", "main.py")] + args, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=wall)
    return p.returncode, p.stdout.decode(errors="replace")


# ------------------------------------------------------------- commands
def cmd_replay(path, quiet=False):
    with open(path) as f:
        body = json.load(f)
    prop = load_prop(body["property"])
    res = run_forked(prop, body["scenario"])
    if res["status"] == "violation":
        if not quiet:
            for e in res["events"]:
                print("  " + e)
        print("  %s: %s" % (res["kind"], res["detail"]))
        print("same-kind=%s same-trace=%s digest=%s" % (res["kind"] == body["kind"], res["digest"] == body["digest"], res["digest"]))
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    print("status=%s %s" % (res["status"], res["detail"]))
    return 0 if res["status"] == "ok" else 2


def cmd_digests(pid, base, tier, idxs):
    prop = load_prop(pid)
    for i in idxs:
        seed, sc = scenario(prop, base, i, tier)
        res = run_forked(prop, sc)
        print("DIGEST %d %s %s %s" % (i, hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:12], res["status"], res["digest"]))
    return 0


def determinism_sample(prop, base, tier, results, k):
    ok = [r for r in results if r["status"] == "ok"]
    if not ok or k <= 0:
        return dict(sampled=0, mismatches=0)
    step = max(1, len(ok) // k)
    pick = ok[::step][:k]
    want = dict((r["i"], r["digest"]) for r in pick)
    try:
        rc, out = fresh(["digests", prop.ID, str(base), tier] + [str(i) for i in want], hashseed="4242")
    except subprocess.TimeoutExpired:
        return dict(sampled=0, mismatches=0, note="timeout")
    got = {}
    for line in out.splitlines():
        if line.startswith("DIGEST "):
            t = line.split()
            got[int(t[1])] = t[4]
    bad = [i for i in want if got.get(i) != want[i]]
    return dict(sampled=len(want), mismatches=len(bad), runs_differing=bad[:5], compared_with="fresh interpreter, PYTHONHASHSEED=4242, run order changed")


def cmd_check(pid, tier):
    t0 = time.time()
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = load_prop(pid)
    n = int(os.environ.get("VERIF_RUNS", "0")) or prop.RUNS[tier]
    deadline = t0 + SOFT_WALL[tier]
    print("%s tier=%s VERIF_SEED=%d planned runs=%d workers=%d" % (pid, tier, base, n, NWORK))
    sys.stdout.flush()
    results = run_batch(prop, base, n, tier, deadline)
    t_search = time.time() - t0
    rc, nviol, replay_path = 0, 0, None
    harness = [r for r in results if r["status"] == "harness"]
    invalid = [r for r in results if r["status"] == "invalid"]
    viol = [r for r in results if r["status"] == "violation"]
    kn = [(r, known_match(prop, r["sc"], r)) for r in viol]
    new = [r for r, k in kn if k is None]
    # every listed finding is shown on its own canonical input
    for k in known():
        if k.get("status") == "known" and k["property"] == pid:
            res = run_forked(prop, k["scenario"])
            if known_match(prop, k["scenario"], res) is k:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            elif res["status"] == "violation":
                new.append(dict(res, i=-1, sc=k["scenario"]))
            else:
                print("note: listed finding %r does not fail any more (%s)" % (k["signature"], res["status"]))
    mininfo = None
    if new:
        new.sort(key=lambda r: len(json.dumps(r["sc"])))
        reported = False
        for r in new[:3]:
            seed = seed_int(base, pid, r["i"])
            conf = run_forked(prop, r["sc"], wall=RUN_WALL * (2 if r["kind"] == "hang" else 1))
            if conf["status"] != "violation":
                print("note: run %d (%s: %s) did not repeat: %s %s" % (r["i"], r["kind"], r["detail"], conf["status"], conf["detail"]))
                continue
            sc, res, tries = minimise(prop, r["sc"], conf)
            path = write_replay(prop, sc, res, seed, base, r["i"])
            try:
                frc, out = fresh(["replay", path])
            except subprocess.TimeoutExpired:
                frc, out = 2, "timeout"
            if frc != 1:      # the minimised one may owe something to this process; fall back
                path = write_replay(prop, r["sc"], conf, seed, base, r["i"])
                frc, out = fresh(["replay", path])
                res = conf
            if frc == 1:
                nviol += 1
                reported = True
                replay_path = path
                mininfo = dict(run=r["i"], run_seed=seed, kind=res["kind"], detail=res["detail"], minimise_attempts=tries,
                               size_before=len(json.dumps(r["sc"])), size_after=len(json.dumps(sc)))
                print("  run %d seed %d: %s: %s" % (r["i"], seed, res["kind"], res["detail"]))
                for e in res["events"][-15:]:
                    print("    " + e)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                rc = 1
                break
            print("note: replay of run %d in a fresh process gave exit %d" % (r["i"], frc))
        if not reported:
            print("ERROR: violations seen but none reproduced; treating as an error of the check")
            rc = 2
    if rc == 0 and harness:
        h = harness[0]
        print("HARNESS ERROR in run %d: %s\n%s" % (h["i"], h["kind"], h["detail"]))
        rc = 2
    done = len(results)
    if rc == 0 and done < max(1, n // 4):
        print("ERROR: only %d of %d runs completed within the wall limit" % (done, n))
        rc = 2
    if rc == 0 and len(invalid) > max(3, done // 20):
        print("ERROR: %d of %d generated scenarios were not legal: %s" % (len(invalid), done, invalid[0]["detail"]))
        rc = 2
    det = determinism_sample(prop, base, tier, results, 4 if tier == "quick" else 24) if rc == 0 else dict(sampled=0, mismatches=0)
    if det.get("mismatches"):
        print("warning: %d of %d sampled runs had a different event log in a fresh process: %s" % (det["mismatches"], det["sampled"], det))
    counts, faults, states, simt = {}, {}, set(), 0.0
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        states.update(r["states"])
        simt += r["simtime"]
    nontriv = len(set(r["schash"] for r in results if not r["trivial"] and r["status"] == "ok"))
    samples = [dict(run=r["i"], scenario=trim(r.get("sc")), first_events=r["events"][:12]) for r in results if r.get("sc") is not None and r["i"] < 4][:3]
    if not samples:
        samples = [dict(run=r["i"], digest=r["digest"], status=r["status"]) for r in results[:3]]
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=base, level=prop.LEVEL,
              coverage=dict(evaluations=done, distinct_nontrivial=nontriv, rule=prop.RULE, samples=samples,
                            planned_runs=n, runs_per_hour=int(done / max(t_search, 1e-3) * 3600), seeds_per_hour=int(done / max(t_search, 1e-3) * 3600),
                            simulated_time_s=simt, events_logged=sum(r["nevents"] for r in results),
                            faults_injected=faults, probes=counts,
                            probes_never_hit=[p for p in getattr(prop, "PROBES", []) if not counts.get(p)],
                            distinct_states=len(states), state_measure=prop.STATE_MEASURE,
                            determinism=det, real_components=prop.REAL, stubbed_components=prop.STUB,
                            scenarios_rejected=len(invalid), known_findings_seen=sum(1 for r, k in kn if k is not None)),
              assumptions=prop.ASSUMPTIONS, wall_s=round(wall, 2), violations=nviol)
    if mininfo:
        ev["coverage"]["violation"] = mininfo
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    print("%s: %d runs, %d distinct non-trivial, %d states, faults %s, %.1fs -> exit %d" % (pid, done, nontriv, len(states), faults, wall, rc))
    return rc


def trim(x, depth=0):
    s = json.dumps(x)
    return x if len(s) < 2500 else s[:2500] + "..."
