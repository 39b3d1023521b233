"""Deterministic thread scheduler: real threads, of which exactly one runs at
any time; at every yield point a seeded decision says who runs next."""
import sys, threading, _thread, os, math, zlib, dis
import threading_seam
from core import Rng, Violation, HarnessError

RUN, BLOCKED, DONE = 0, 1, 2


class _T(object):
    pass


class Abort(BaseException):
    pass


MUTATORS = frozenset("append extend insert pop popitem remove clear update setdefault add discard sort reverse __setitem__".split())


def store_lines(code):
    """Lines that store to an attribute, an item or a global or call a method that changes a container,
    and those that follow them."""
    if code.co_name in ("__init__", "__new__"):
        return frozenset()
    out, lines, cur = set(), set(), None
    for i in dis.get_instructions(code):
        if i.starts_line is not None:
            cur = i.positions.lineno if i.positions and i.positions.lineno else cur
        n = i.positions.lineno if i.positions and i.positions.lineno else cur
        lines.add(n)
        if i.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "STORE_SLICE") or (i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in MUTATORS):
            out.add(n)
    order = sorted(x for x in lines if x)
    return frozenset(out | set(b for a, b in zip(order, order[1:]) if a in out))


class Scheduler(object):
    """decisions: either {"seed": s, "p": prob, ...} (random preemption) or a list of
    [step, thread] switches (replay/minimised). p: at a seam (lock, library call, read).
    At a line of the code under test, with mode
      flat   - preempted with probability pl
      burst  - threads run for a number of lines, evenly distributed on a log scale up to B
      hot    - preempted in one of every "hot" functions, with probability pl
      store  - preempted before or after lines that change an object (other than a new one), with probability pl"""
    def __init__(self, ctx, decisions, trace_files=(), max_steps=400000):
        self.ctx = ctx
        self.list = None
        if isinstance(decisions, dict) and "list" in decisions:
            self.list = dict((int(a), int(b)) for a, b in decisions["list"])
        else:
            self.rng = Rng(decisions["seed"])
            self.p = decisions["p"]            # at a seam (lock, library call, read)
            self.mode = decisions.get("mode", "flat")
            self.pl = decisions.get("pl", self.p)
            self.salt = decisions["seed"] & 0xffffffff
            self.nhot = decisions.get("hot", 30)
            self.B = math.log(decisions.get("B", 1000))
            self.left = 1
            self.hot = {}
            self.stores = {}
        self.taken = []            # [step, thread] switches actually made
        self.threads = []
        self.step = 0
        self.cur = None
        self.aborted = None
        self.trace_files = trace_files
        self.max_steps = max_steps
        self.switches = 0
        self.where = []            # where threads were preempted
        self._finished = _thread.allocate_lock()
        self._finished.acquire()
        self.by_id = {}

    def is_sim_thread(self):
        return _thread.get_ident() in self.by_id

    def spawn(self, fn, name):
        t = _T()
        t.fn, t.name, t.idx = fn, name, len(self.threads)
        t.state, t.wait, t.exc, t.result = RUN, None, None, None
        t.sem = _thread.allocate_lock()
        t.sem.acquire()
        self.threads.append(t)
        return t

    def _body(self, t):
        t.sem.acquire()
        self.by_id[_thread.get_ident()] = t
        try:
            if self.aborted is None:
                if self.trace_files:
                    sys.settrace(self._trace)
                t.result = t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            sys.settrace(None)
            t.state = DONE
            self.by_id.pop(_thread.get_ident(), None)
            self._next(t, leaving=True)

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if "/pygeode/" in fn and frame.f_code.co_name != "<module>":
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line":
            self.yield_point(None, frame)
        return self._line

    def run(self):
        """Run all spawned threads to completion."""
        threading_seam.current = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            self.cur = self.threads[0]
            self._choose_start()
            self.cur.sem.release()
            self._finished.acquire()
        finally:
            threading_seam.current = None
        if self.aborted is not None:
            raise self.aborted

    def _choose_start(self):
        k = self._decide([t.idx for t in self.threads], 0, forced=True)
        self.cur = self.threads[k]

    def _decide(self, runnable, cur, forced=False, line=None):
        """Index of the thread that runs next."""
        if self.list is not None:
            k = self.list.get(self.step)
            if k is not None and k in runnable:
                self.taken.append([self.step, k])
                return k
            return cur if (cur in runnable) else runnable[0]
        if not forced and cur in runnable and not (self._preempt(line) if line is not None else self.rng.random() < self.p):
            return cur
        k = runnable[self.rng.randrange(len(runnable))]
        if k != cur or forced:
            self.taken.append([self.step, k])
        return k

    def _preempt(self, frame):
        """At a line of the code under test."""
        if self.mode == "burst":
            self.left -= 1
            if self.left > 0:
                return False
            self.left = int(math.exp(self.rng.random() * self.B))
            return True
        if self.mode == "hot":
            c = frame.f_code
            h = self.hot.get(c)
            if h is None:
                h = zlib.crc32(("%s:%s" % (os.path.basename(c.co_filename), c.co_qualname)).encode(), self.salt) % self.nhot == 0
                self.hot[c] = h
            return h and self.rng.random() < self.pl
        if self.mode == "store":
            c = frame.f_code
            h = self.stores.get(c)
            if h is None:
                h = self.stores[c] = store_lines(c)
            return frame.f_lineno in h and self.rng.random() < self.pl
        return self.rng.random() < self.pl

    def _importing(self):
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_filename.startswith("<frozen importlib"):
                return True
            f = f.f_back
        return False

    def yield_point(self, tag, frame=None):
        t = self.by_id.get(_thread.get_ident())
        if t is None:
            return
        self.step += 1
        if self.aborted is not None:
            sys.settrace(None)
            raise Abort()
        if self.step > self.max_steps:
            self.aborted = Violation("livelock", "no completion within %d scheduling steps" % self.max_steps)
            raise Abort()
        runnable = [x.idx for x in self.threads if x.state == RUN]
        k = self._decide(runnable, t.idx, line=frame if tag is None else None)
        if k != t.idx and self._importing():
            k = t.idx                  # (another thread could need the import's lock, which isn't simulated)
            if self.taken and self.taken[-1][0] == self.step:
                self.taken.pop()
        if k != t.idx:
            self.switches += 1
            if tag is None:
                tag = "%s:%s" % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
            self.where.append(tag)
            self.ctx.log("switch", self.step, tag, t.idx, k)
            self._handoff(t, self.threads[k])

    def _handoff(self, me, other):
        self.cur = other
        other.sem.release()
        me.sem.acquire()
        if self.aborted is not None:
            raise Abort()

    def block_on(self, lock):
        t = self.by_id[_thread.get_ident()]
        t.state, t.wait = BLOCKED, lock
        self.ctx.probe("lock-contention")
        self._next(t)
        if self.aborted is not None:
            raise Abort()

    def wake(self, lock):
        for x in self.threads:
            if x.state == BLOCKED and x.wait is lock:
                x.state, x.wait = RUN, None

    def _next(self, me, leaving=False):
        """The current thread cannot go on: pick another."""
        self.step += 1
        runnable = [x.idx for x in self.threads if x.state == RUN]
        if not runnable:
            if all(x.state == DONE for x in self.threads):
                self._finished.release()
                return
            if self.aborted is None:
                self.aborted = Violation("deadlock", "threads %s wait for each other" % [x.name for x in self.threads if x.state == BLOCKED])
            for x in self.threads:     # let them unwind, one after another
                if x.state == BLOCKED:
                    x.state = RUN
            runnable = [x.idx for x in self.threads if x.state == RUN]
        k = self._decide(runnable, me.idx if not leaving else runnable[0], forced=True)
        if k != me.idx:
            self.ctx.log("switch", self.step, "leave" if leaving else "block", me.idx, k)
        self.cur = self.threads[k]
        if self.cur is me:
            return
        self.cur.sem.release()
        if not leaving:
            me.sem.acquire()
