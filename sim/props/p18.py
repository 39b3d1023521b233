import io, re, sys
import datetime as _dt
from props.mixed import *
import props.p01 as p01
import props.p04 as p04
import props.p09 as p09
import props.p12 as p12
import props.p14 as p14

ID = "P18"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("one case = a simulated clock (every reading advances it by the next of a list of steps: none, small, large, backwards), a display (a terminal, a file, closed, failing at its n-th write, ASCII only), indicator settings and either "
        "a program mixing all kinds of operations with requests that use an indicator in a seeded way, or an analysis, save, load, multi-file record or scan (P04, P09, P12, P14 cases); results must be those obtained without "
        "an indicator, every value reported lies in 0..100; non-trivial if an indicator was updated while it displayed; distinct by scenario")
STATE_MEASURE = "distinct (kind of case, display, clock steps, settings, indicator kinds) tuples"
REAL = ["pygeode.progress and everything that reports to it", "the progressbar package"]
STUB = ["clock (datetime, time and timeit as seen by pygeode.progress and progressbar)", "the stream the bar is drawn on"] + p01.STUB
ASSUMPTIONS = ["the values of an undisturbed twin evaluated without an indicator are the reference (their correctness is decided by P01-P06)"]
PROBES = ["bar-displayed", "bar-not-displayed", "clock-backwards", "clock-jump", "clock-still", "display-failed", "nested-parts", "finished", "read-failed"]
BASES = {"P04": p04, "P09": p09, "P12": p12, "P14": p14}


class Clock(object):
    def __init__(self, steps, ctx):
        self.t, self.steps, self.n, self.ctx = 1.0e9, steps, 0, ctx

    def __call__(self):
        d = self.steps[self.n % len(self.steps)]
        self.n += 1
        self.t = min(max(self.t + d, -6e10), 2.4e11)
        self.ctx.simtime += abs(d)
        return self.t


class Stream(io.StringIO):
    """What the bar is drawn on."""
    def __init__(self, kind, at, ctx):
        io.StringIO.__init__(self)
        self.kind, self.at, self.ctx, self.n = kind, at, ctx, 0

    def isatty(self):
        return self.kind in ("tty", "ttyfail")

    @property
    def encoding(self):
        return "ascii" if self.kind == "ascii" else "utf-8"

    def write(self, s):
        self.n += 1
        if self.kind == "closed":
            self.ctx.fault("display:closed")
            raise ValueError("I/O operation on closed file")
        if self.kind in ("fail", "ttyfail") and self.n > self.at:
            self.ctx.fault("display:EPIPE")
            raise BrokenPipeError(32, "Broken pipe")
        if self.kind == "ascii":
            s.encode("ascii")
        return io.StringIO.write(self, s)

    def flush(self):
        if self.kind == "flushfail":
            self.ctx.fault("display:flush")
            raise OSError(5, "Input/output error")


def install(env, ctx):
    """Put the clock and the display in place (run processes are private)."""
    import pygeode
    from pygeode import progress
    import progressbar as pb
    clock = Clock(env["clock"], ctx)
    base = _dt.datetime(2001, 9, 9)

    class SimDatetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return base + _dt.timedelta(seconds=clock() - 1e9)

    class Mod(object):
        def __init__(self, real, **kw):
            self.__dict__.update(kw, _real=real)

        def __getattr__(self, k):
            return getattr(self._real, k)
    import time, timeit
    stream = Stream(env["display"], env.get("at", 0), ctx)
    for m in list(sys.modules.values()):
        nm = getattr(m, "__name__", "")
        if nm == "pygeode.progress" or nm.split(".")[0] == "progressbar":
            for k, x in list(vars(m).items()):
                if x is _dt.datetime:
                    setattr(m, k, SimDatetime)
                elif x is _dt:
                    setattr(m, k, Mod(_dt, datetime=SimDatetime))
                elif x is time:
                    setattr(m, k, Mod(time, time=clock, monotonic=clock, perf_counter=clock, sleep=lambda s: None))
                elif x is timeit:
                    setattr(m, k, Mod(timeit, default_timer=clock))
    pb.utils.streams.original_stderr = stream
    for k, v in env["set"].items():
        pygeode._config.set("ProgressBar", k, str(v))
    seen = {"n": 0, "shown": 0, "bad": None, "back": None, "early": None, "late": None, "in": False, "at": {}}
    env = dict(env, t0=lambda bar: 1e9 + (bar.start_time - base).total_seconds())
    P = progress.PygProgressBar
    if P is None:
        raise HarnessError("no progressbar")
    real, fin = P.update, P.finish

    limit = float(env["set"].get("no_show_time", 10))

    def update(self, value=None, *a, **k):
        if seen["in"]:                  # the package's own reset when it starts
            return real(self, value, *a, **k)
        seen["in"] = True
        try:
            return reported(self, value, *a, **k)
        finally:
            seen["in"] = False

    def reported(self, value, *a, **k):
        if value is not None:
            seen["n"] += 1
            if not (0 <= value <= 100) and seen["bad"] is None:
                seen["bad"] = float(value)
            if value < seen["at"].get(id(self), (0, 0))[0] - 1e-6 and seen["back"] is None and not env.get("faulted"):
                seen["back"] = (float(seen["at"][id(self)][0]), float(value))
            seen["at"][id(self)] = (value, self)
        t0 = clock.t
        out = real(self, value, *a, **k)
        if self.last_update_time is not None:
            if not self.__dict__.get("_sim_shown"):
                self._sim_shown = True
                if min(env["clock"]) >= 0 and clock.t - env["t0"](self) < limit:
                    seen["early"] = clock.t - env["t0"](self)
            seen["shown"] += 1
        elif self.start_time is not None and min(env["clock"]) >= 0 and t0 - env["t0"](self) >= limit:
            seen["late"] = t0 - env["t0"](self)
        return out

    def finish(self, *a, **k):
        ctx.probe("finished")
        return fin(self, *a, **k)
    P.update, P.finish = update, finish
    return clock, stream, seen


def settle(env, ctx, clock, stream, seen):
    ctx.log("clock", clock.n, seen["n"], seen["shown"])
    if seen["shown"]:
        ctx.trivial = False
        ctx.probe("bar-displayed")
    elif seen["n"]:
        ctx.probe("bar-not-displayed")
    if clock.n:
        s = env["clock"]
        ctx.probe("clock-backwards" if min(s) < 0 else "clock-still" if not any(s) else "clock-jump" if max(s) > 1e4 else "clock-runs")
    if any(k.startswith("display") for k in ctx.faults):
        ctx.probe("display-failed")
    ctx.check(seen["bad"] is None, "progress-out-of-range", lambda: "an indicator was set to %r" % seen["bad"])
    ctx.check(seen["back"] is None, "progress-went-back", lambda: "an indicator went from %r back to %r" % seen["back"])
    ctx.check(seen["early"] is None, "displayed-too-early", lambda: "an indicator was displayed after %r s" % seen["early"])
    ctx.check(seen["late"] is None, "not-displayed", lambda: "an indicator is not displayed after %r s" % seen["late"])
    for m in re.findall(r"(-?\d+(?:\.\d+)?)%", stream.getvalue()):
        ctx.check(0 <= float(m) <= 100, "progress-out-of-range", lambda: "an indicator displayed %s%%" % m)


def gen(rng, tier):
    env = {"clock": [rng.pick([0, 0, 0.001, 0.3, 1, 6, 100, 1e5, 1e9, -0.5, -3, -1e4, -1e9]) for _ in range(rng.randint(1, 6))],
           "display": rng.pick(["tty", "tty", "file", "file", "closed", "fail", "ttyfail", "ascii", "flushfail"]), "at": rng.randrange(4),
           "set": {"no_show_time": rng.pick([0, 0, 0, 5, 0.5, 1e6]), "poll_interval": rng.pick([0, 1, 0.1])}}
    if rng.chance(0.2):
        env["clock"] = [rng.pick([0, 1, 1e5])]
    if rng.chance(0.4):
        b = rng.pick(sorted(BASES))
        return {"env": env, "base": b, "sc": BASES[b].gen(rng, tier)}
    P = gen_program(rng)
    reqs = gen_reqs(rng, P, rng.randint(1, 5))
    for r in reqs:
        r["kind"] = {"values": "get", "chunks": "view"}.get(r["kind"], r["kind"])
        if r["kind"] == "view" and "sl" not in r:
            r["sl"] = [[None, None, None] for _ in P.vals[r["node"]].axes]
        r["pb"] = rng.pick(["true", "msg", "pbar", "subset", "part", "shared", "shared", "none", "false"])
        if rng.chance(0.15):
            r["fault"] = [rng.pick([0, 0, 1, rng.randrange(8)]), rng.pick(sorted(world.FAULTS))]
    sc = {"srcs": P.srcs, "nodes": P.nodes, "reqs": reqs}
    return {"env": env, "base": "mixed", "sc": prune(sc, [r["node"] for r in reqs])}


def request(r, var, la, ctx, share):
    """A request that reports its progress."""
    from pygeode.progress import PBar
    from pygeode.view import View
    pb = {"true": lambda: True, "msg": lambda: PBar(message="Working on \u03b8 of %r" % var), "pbar": PBar, "subset": lambda: PBar().subset(20, 70),
          "part": lambda: PBar().part(1, 3).part(0, 2), "shared": lambda: share["p"].part(share["i"], share["n"]), "none": lambda: None, "false": lambda: False}[r["pb"]]()
    if r["pb"] in ("subset", "part", "shared"):
        ctx.probe("nested-parts")
    k = r["kind"]
    if k == "load":
        return var.load(pbar=pb).values
    if k == "call_i":
        kw = {}
        if len(set(a.name for a in var.axes)) < len(var.axes):
            raise Invalid("ambiguous axis names")
        for i, x in r["ix"].items():
            nm = var.axes[int(i)].name
            kw[("li_" if isinstance(x, dict) else "i_") + nm] = x["l"] if isinstance(x, dict) else tuple(x) if isinstance(x, list) else x
        return var.get(pbar=pb, **kw)
    if k in ("slice_get", "getitem") and la.axes:
        out = var.slice[tuple(py_of(s) for s in r["sl"])].get(pbar=pb)
        if k == "getitem":
            out = out.reshape([n for n, s in zip(out.shape, r["sl"]) if isinstance(s, (list, dict))] if len(r["sl"]) == out.ndim else out.shape)
        return out
    if k == "view":
        return View(var.axes, slices=[np.arange(len(a["v"]))[py_of(s)] if not isinstance(s, int) else [range(len(a["v"]))[s]] for s, a in zip(r["sl"], la.axes)]).get(var, pbar=pb)
    return var.get(pbar=pb)


def execute(sc, ctx):
    env = sc["env"]
    if not env["clock"] or env["set"].get("poll_interval", 0) < 0:
        raise Invalid("env")
    if sc["base"] != "mixed":
        clock, stream, seen = install(env, ctx)
        BASES[sc["base"]].execute(sc["sc"], ctx)
        ctx.trivial = True
        ctx.state(sc["base"], env["display"], tuple(env["clock"]), sorted(env["set"].items()))
        settle(env, ctx, clock, stream, seen)
        return
    s = sc["sc"]
    T = Twin(s, ctx)
    W = T.W
    try:
        wants = []
        for r in s["reqs"]:
            W.limit(r["limit"])
            n0 = T.clean.plan.n
            wants.append((T.expected(r, ctx), T.clean.plan.n - n0))
        clock, stream, seen = install(dict(env, faulted=any(r.get("fault") for r in s["reqs"])), ctx)
        from pygeode.progress import PBar
        share = {"p": PBar(message="all"), "n": max(1, len(s["reqs"]))}
        for j, r in enumerate(s["reqs"]):
            la = T.vals[r["node"]]
            what = "request %d (%s of node %d %s, indicator: %s)" % (j, r["kind"], r["node"], s["nodes"][r["node"]]["op"], r["pb"])
            W.limit(r["limit"])
            share["i"] = j
            want, nreads = wants[j]
            if r.get("fault") and nreads:
                W.plan.faults = {W.plan.n + r["fault"][0] % nreads: r["fault"][1]}
                f0 = W.plan.fired
                try:
                    request(r, T.pv[r["node"]], la, ctx, share)
                    ctx.check(W.plan.fired == f0, "read-failure-swallowed", what)
                except Exception as e:
                    if isinstance(e, (Violation, Invalid, HarnessError)):
                        raise
                    if W.plan.fired == f0:
                        with ctx.sut(what):
                            raise
                    ctx.probe("read-failed")
                W.plan.faults = {}
            with ctx.sut(what):
                got = request(r, T.pv[r["node"]], la, ctx, share)
            identical(ctx, got, want, what)
            ctx.log("ok", j, digest_array(got))
            ctx.state(s["nodes"][r["node"]]["op"], r["kind"], r["pb"], env["display"], tuple(env["clock"]))
        settle(env, ctx, clock, stream, seen)
        W.check_sources_intact()
    finally:
        T.close()


def shrinks(sc):
    for key, val in (("display", "file"), ("clock", [1]), ("clock", [0]), ("set", {"no_show_time": 0, "poll_interval": 0})):
        if sc["env"][key] != val:
            c = copy.deepcopy(sc)
            c["env"][key] = val
            yield c
    for i in range(len(sc["env"]["clock"])):
        if len(sc["env"]["clock"]) > 1:
            c = copy.deepcopy(sc)
            del c["env"]["clock"][i]
            yield c
    b = sc["base"]
    for c in (expr_shrinks(sc["sc"]) if b == "mixed" else BASES[b].shrinks(sc["sc"])):
        yield dict(copy.deepcopy(sc), sc=c)
