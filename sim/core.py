"""Deterministic-simulation core: seeded randomness, run context, violations.

Nothing in here (or in any scenario) draws from a source of randomness other
than ``Rng``; a run is a pure function of (scenario JSON, code under test).
"""
import hashlib, json, random, traceback, os

REPO = os.environ.get("PYG_REPO", "/repo")


class Violation(Exception):
    """The property was observed not to hold."""
    def __init__(self, kind, detail=""):
        Exception.__init__(self, "%s: %s" % (kind, detail))
        self.kind, self.detail = kind, detail


class Invalid(Exception):
    """The scenario is not a legal one (only shrinking produces these)."""


class HarnessError(Exception):
    pass


class SimFault(Exception):
    """Marker mixed into every exception the simulator injects."""


def seed_int(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Rng(random.Random):
    """The only source of choice."""
    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def subset(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        n = self.randint(min(lo, hi), hi)
        return self.sample(seq, n)


def digest_array(a):
    import numpy as np
    try:
        a = np.asarray(a)
        if a.dtype.kind == "f":
            a = np.where(np.isnan(a), np.nan, a)  # one NaN bit pattern
        return hashlib.sha256(repr((a.shape, a.dtype.str)).encode() + a.tobytes()).hexdigest()[:12]
    except Exception as e:
        return "undigestable:%s" % type(a).__name__


class Ctx(object):
    """Everything one run records. Recording never draws randomness."""
    def __init__(self):
        self.events = []          # the event log (bounded), digested as it grows
        self._h = hashlib.sha256()
        self.nevents = 0
        self.counts = {}          # probes: name -> times hit
        self.faults = {}          # fault kind -> times fired
        self.states = set()       # measure of distinct behaviours reached
        self.trivial = True
        self.simtime = 0.0

    def log(self, *ev):
        s = repr(ev)
        self._h.update(s.encode())
        self.nevents += 1
        if len(self.events) < 400:
            self.events.append(s[:300])

    def probe(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("fault", kind)

    def state(self, *s):
        self.states.add(hashlib.sha256(repr(s).encode()).hexdigest()[:12])

    def digest(self):
        return self._h.hexdigest()[:16]

    # ---- guarding calls into the code under test
    def sut(self, what, allow=()):
        return _Sut(self, what, allow)

    def violate(self, kind, detail=""):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=""):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


class _Sut(object):
    """Any exception the code under test raises where the property says it
    must not becomes a violation (not a harness error)."""
    def __init__(self, ctx, what, allow):
        self.ctx, self.what, self.allow = ctx, what, allow

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (Violation, Invalid, HarnessError, KeyboardInterrupt, SystemExit)):
            return False
        if self.allow and issubclass(et, self.allow):
            return False
        tail = traceback.extract_tb(tb)[-6:]
        where = " <- ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in reversed(tail))
        raise Violation("exception:%s" % et.__name__, "%s raised %s: %s [%s]" % (self.what, et.__name__, str(ev)[:300], where))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def compare(ctx, got, want, what, rtol=1e-9, atol=None, kind="wrong-value", check_dtype=None):
    """Numeric comparison; NaN equals NaN. Never raises anything but Violation."""
    import numpy as np
    want = np.asarray(want)
    try:
        got = np.asarray(got)
    except Exception as e:
        raise Violation(kind, "%s: result is not an array (%s)" % (what, type(got).__name__))
    if got.dtype == object:
        raise Violation(kind, "%s: result has object dtype" % what)
    if got.shape != want.shape:
        raise Violation("wrong-shape", "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if check_dtype is not None and got.dtype != np.dtype(check_dtype):
        raise Violation("wrong-dtype", "%s: dtype %s, expected %s" % (what, got.dtype, check_dtype))
    if want.size == 0:
        return
    if want.dtype.kind in "SU" or got.dtype.kind in "SU":
        ok = got == want
    else:
        if want.dtype.kind == "c" or got.dtype.kind == "c":
            g, w = got.astype(complex), want.astype(complex)
        else:
            g, w = got.astype(float), want.astype(float)
        fin = np.abs(w[np.isfinite(w)])
        if atol is None:
            atol = rtol * (float(fin.max()) if fin.size else 1.0)
        with np.errstate(all="ignore"):
            ok = (np.isnan(g) & np.isnan(w)) | (g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w))
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(int(k) for k in bad[0])
        raise Violation(kind, "%s: %d of %d values differ; first at %s: got %r, expected %r" %
                        (what, len(bad), want.size, i, got[i] if got.ndim else got[()], want[i] if want.ndim else want[()]))
