"""What a scenario is written against: one execution of the real code in a controlled world."""
import sys
import traceback

from . import boot, sched as S
from .explore import Outcome, Scenario, Divergence
from .net import Net, ScriptSink
from . import refcodec as R


class Fail(Exception):
    """The property does not hold in this execution."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


def from_repo(exc):
    """Does the exception come out of the code under test?"""
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(boot.REPO + "/") for f in frames)


def short_tb(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1800:]


class Call(object):
    """The observed end of one call."""
    __slots__ = ("name", "begun", "ended", "value", "exc", "t0", "t1", "log0", "log1", "thread", "future", "extra")

    def __init__(self, name):
        self.name = name
        self.begun = self.ended = False
        self.value = self.exc = self.t0 = self.t1 = self.log0 = self.log1 = self.thread = self.future = None
        self.extra = {}

    @property
    def ok(self):
        return self.ended and self.exc is None

    def brief(self):
        if not self.ended:
            return "pending"
        if self.exc is not None:
            return "raise %s" % type(self.exc).__name__
        return "ret %r" % (self.value,)

    def __repr__(self):
        return "%s: %s" % (self.name, self.brief())


class World(object):
    def __init__(self, sched, net, verbose):
        self.s, self.net, self.verbose = sched, net, verbose
        self.calls = []
        self.nontrivial = True
        self.fingerprint = None
        self.cleanups = []
        self.notes = []

    def note(self, *what):
        """Part of the outcome of this execution (for counting distinct outcomes)."""
        self.notes.append(repr(what))

    # -- threads
    def thread(self, fn, name=None, trace=None, catch=False):
        """A controlled thread; an exception that leaves it is a finding unless catch is set."""
        t = self.s.spawn(fn, name, trace)
        t.daemon = catch
        t.mine = True
        return t

    def call(self, name, fn, thread=True, trace=None):
        """Run fn() as an observed call in its own thread."""
        c = Call(name)
        self.calls.append(c)

        def body():
            self.perform(c, fn)
        if thread:
            c.thread = self.s.spawn(body, name, trace)
        return c

    def perform(self, c, fn):
        c.begun = True
        c.t0 = self.s.now
        self.s.obs("begin", c.name)
        try:
            c.value = fn()
        except S.Killed:
            raise
        except BaseException as e:
            c.exc = e
        c.t1 = self.s.now
        c.ended = True
        self.s.obs("end", c.name, type(c.exc).__name__ if c.exc is not None else _safe(c.value))
        return c

    def run(self, stop_when=None):
        r = self.s.run(stop_when)
        if self.net.broken is not None:
            raise self.net.broken
        for t in self.s.threads:
            if t.exc is not None and not t.daemon:
                if isinstance(t.exc, (Fail, S.HarnessError, Divergence)):
                    raise t.exc
                if from_repo(t.exc):
                    raise Fail("exception leaves thread %s: %s" % (t.name, short_tb(t.exc)))
                if getattr(t, "lib", False):
                    continue      # a thread of the code under test in which a callback of the harness raised
                raise t.exc
        if not (stop_when and stop_when()) and not self.unfinished:
            for t in self.s.threads:
                if getattr(t, "mine", False) and not t.done:
                    raise Fail("thread %s never ended (%s in %s, %s): %r" % (t.name, t.state, t.pos, r, self.calls))
        return r

    unfinished = False       # whether threads of the scenario may be left waiting when nothing can happen any more

    def fail(self, msg, key=None):
        raise Fail(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Fail(msg() if callable(msg) else msg, key)

    def setup(self, fn):
        """Run fn in the calling controlled thread without exploring alternatives."""
        self.s.no_preempt += 1
        try:
            return fn()
        finally:
            self.s.no_preempt -= 1


def _safe(v):
    if isinstance(v, (bytes, str, int, float, bool, type(None), tuple)):
        return v
    return type(v).__name__


def scenario(name, body, bound=0, about="", netopts=None, **opts):
    """body(w) sets up, calls w.run() and checks; raise Fail for a violation; may set w.fingerprint."""
    def fn(ch, verbose):
        boot.reset()
        s = S.Sched(ch, verbose=verbose, **opts)
        viol = key = None
        with s:
            net = Net(s, **(netopts or {}))
            w = World(s, net, verbose)
            try:
                body(w)
            except Fail as e:
                viol, key = str(e), e.key
            except (S.HarnessError, Divergence, S.Killed):
                raise
            except Exception as e:
                if not from_repo(e):
                    raise
                viol = "unexpected exception from the code under test: " + short_tb(e)
            if s.internal_error is not None:
                raise s.internal_error
        if verbose:
            last, n = None, 0
            for l in s.trace + [None]:
                if l == last:
                    n += 1
                    continue
                if n > 1:
                    print("    ... %d times" % n)
                last, n = l, 1
                if l is not None:
                    print(l)
            print("end: %s, virtual time %.3f s, %d steps" % (s.reason, s.now, s.steps))
            for c in w.calls:
                print("call %r" % c)
        fp = w.fingerprint
        if fp is None:
            fp = tuple(s.log) + tuple(w.notes)
        for f in w.cleanups:
            f()
        return Outcome(viol, key, fp, s.steps, note=repr(fp)[:500], nontrivial=w.nontrivial)
    return Scenario(name, fn, bound, about)


def enumeration(name, outer, inner, about=""):
    """A product of finite choices: outer is a list of (name, options); inner(values) -> (count, violation, note)."""
    def fn(ch, verbose):
        boot.reset()
        vals = []
        for nm, opts in outer:
            if callable(opts):
                opts = opts(vals)
            i = ch.choose(["%s=%r" % (nm, o) if len(repr(o)) < 60 else "%s#%d" % (nm, k)
                           for k, o in enumerate(opts)], [0] * len(opts)) if len(opts) > 1 else 0
            vals.append(opts[i])
        try:
            n, viol, note = inner(*vals)
        except Exception as e:
            if not from_repo(e):
                raise
            n, viol, note = 1, "unexpected exception from the code under test: " + short_tb(e), None
        if ch.states is not None:
            ch.states.add(hash((name,) + tuple(map(repr, vals))))
        if verbose:
            print("inputs: %r" % (vals,))
            print("note: %s" % (note,))
        return Outcome(viol, None, (name, note), n, note="%s %s" % (vals, note))
    sc = Scenario(name, fn, 0, about)
    sc.kind = "inputs"
    return sc
