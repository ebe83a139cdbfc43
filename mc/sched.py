"""Controlled scheduler: real Python threads of which exactly one runs at a time, chosen by an explorer.

One `Sched` object exists per execution.  Every decision (which thread runs next, which environment action
happens, whether the clock advances, and data choices made through `choose`) is taken by `self.chooser`.

Blocking primitives of the standard library are replaced by `install()`; they behave like the originals when no
execution is active or when used by a thread the scheduler does not control.
"""
import _thread
import datetime
import dis
import itertools
import sys
import threading
import time

_real_time = time.time
_real_monotonic = time.monotonic
_real_sleep = time.sleep
_real_datetime = datetime.datetime
_RealThread = threading.Thread
_alloc = _thread.allocate_lock
_ident = _thread.get_ident

EPOCH = 1600000000.0

CUR = None          # active Sched
_ctl = {}           # thread ident -> T


class Killed(BaseException):
    """Raised inside controlled threads to unwind them when an execution is over."""


class HarnessError(Exception):
    """The machinery itself went wrong (never a verdict about the code)."""


class T(object):
    __slots__ = ("name", "tid", "lib", "mine", "baton", "state", "pred", "deadline", "timed_out", "fn", "exc", "result", "pos",
                 "end", "started", "trace", "kills", "daemon", "npoints")

    def __init__(self, name, tid, fn, trace, daemon=False):
        self.name, self.tid, self.fn, self.trace, self.daemon = name, tid, fn, trace, daemon
        self.baton = _alloc()
        self.baton.acquire()
        self.end = _alloc()
        self.end.acquire()
        self.state = "ready"
        self.pred = self.deadline = None
        self.timed_out = False
        self.exc = self.result = None
        self.pos = None
        self.started = False
        self.kills = 0
        self.npoints = 0

    @property
    def done(self):
        return self.state == "done"

    def enabled(self):
        s = self.state
        if s == "ready":
            return True
        if s == "quiesce":
            return False
        if s == "blocked":
            return self.timed_out or self.pred()
        return False

    def __repr__(self):
        return "<%s %s %s>" % (self.name, self.state, self.pos)


class Sched(object):
    def __init__(self, chooser, horizon=60000, time_horizon=600.0, op_trace=False, clock_cost=None, early_clock=False,
                 early_env=True, verbose=False,
                 switch_cost=1, lock_points=True):
        self.chooser = chooser
        self.threads = []
        self.now = 0.0
        self.steps = 0
        self.horizon, self.time_horizon = horizon, time_horizon
        self.op_trace = op_trace
        self.clock_cost, self.early_clock, self.early_env = clock_cost, early_clock, early_env
        self.switch_cost = switch_cost     # choosing another than the first enabled thread when one blocks
        self.lock_points = lock_points
        self.env_sources = []
        self.stop_when = None
        self.over = False
        self.reason = None
        self.current = None
        self.in_env = 0
        self.main = _alloc()
        self.main.acquire()
        self.log = []
        self._loghash = 0
        self.verbose = verbose
        self.trace = [] if verbose else None
        self.state_ids = chooser.states
        self.no_preempt = 0
        self.internal_error = None
        self.on_idle = None

    # -- observations ------------------------------------------------------------------------------------------
    def obs(self, *what):
        if self.over:
            return
        self.log.append(what)
        self._loghash = hash((self._loghash, repr(what)))
        if self.trace is not None:
            self.trace.append("    obs %r" % (what,))

    # -- set-up ------------------------------------------------------------------------------------------------
    def spawn(self, fn, name=None, trace=None, daemon=False):
        t = T(name or "t%d" % len(self.threads), len(self.threads), fn,
              self.op_trace if trace is None else trace, daemon)
        self.threads.append(t)
        if t.trace:
            global _traced
            _traced = True
        return t

    def __enter__(self):
        global CUR
        if CUR is not None:
            raise HarnessError("nested execution")
        CUR = self
        return self

    def __exit__(self, *a):
        global CUR
        try:
            self._kill_all()
        finally:
            CUR = None
        return False

    # -- running -----------------------------------------------------------------------------------------------
    def run(self, stop_when=None):
        """Run until stop_when() or nothing can happen any more; returns the reason."""
        self.stop_when = stop_when
        nxt = self._next(None, False, "start")
        if nxt is not None:
            self._hand(nxt)
            self.main.acquire()
            _guard()
        if self.internal_error is not None:
            raise self.internal_error
        return self.reason

    def _hand(self, t):
        self.current = t
        if not t.started:
            t.started = True
            _thread.start_new_thread(self._body, (t,))
        else:
            t.baton.release()

    def _body(self, t):
        me = _ident()
        _ctl[me] = t
        if not self.over:
            try:
                if t.trace:
                    sys.settrace(_global_trace)
                else:
                    _guard()
                try:
                    t.result = t.fn()
                finally:
                    if t.trace:
                        sys.settrace(_dead_trace)
            except Killed:
                pass
            except BaseException as e:       # noqa
                t.exc = e
        t.state = "done"
        t.pos = "end"
        if not self.over:
            try:
                nxt = self._next(t, False, "exit")
            except BaseException as e:
                self._fail(e)
                nxt = None
            if nxt is not None:
                self._hand(nxt)
        _ctl.pop(me, None)
        t.end.release()

    def _fail(self, e):
        if self.internal_error is None:
            self.internal_error = e
        self._end("internal")

    def _end(self, reason):
        if not self.over:
            self.over = True
            self.reason = reason
            self.main.release()

    def _kill_all(self):
        if not self.over:
            self.over = True
            self.reason = self.reason or "closed"
        for t in list(self.threads):
            if t.started:
                if t.state != "done":
                    try:
                        t.baton.release()
                    except RuntimeError:
                        pass
                if not t.end.acquire(True, 10):
                    # it does not react; leave it behind (the watchdog of the worker reports real hangs)
                    raise HarnessError("thread %s cannot be stopped" % t.name)
                t.end.release()
            t.fn = None

    # -- decisions ---------------------------------------------------------------------------------------------
    def _options(self, me, me_enabled):
        opts = []
        any_thread = me_enabled
        if me_enabled:
            opts.append((me.tid, "t", me, 0))
            if not self.no_preempt:
                for t in self.threads:
                    if t is not me and t.enabled():
                        opts.append((t.tid, "t", t, 1))
        else:
            for t in self.threads:
                if t is not me and t.enabled():
                    opts.append((t.tid, "t", t, self.switch_cost if any_thread else 0))
                    any_thread = True
        if not any_thread or (self.early_env and not self.no_preempt):
            base = 1 if any_thread else 0
            for src in self.env_sources:
                for label, fn, cost in src():
                    opts.append((label, "e", fn, base + cost))
        if not opts:
            for t in self.threads:
                if t.state == "quiesce":
                    return [(t.tid, "t", t, 0)]
        if self.no_preempt and opts:
            return opts[:1]
        if self.early_clock or not any_thread:
            dl = self._next_deadline()
            if dl is not None:
                if not opts:
                    opts.append(("clock", "c", dl, 0))
                elif self.clock_cost is not None:
                    opts.append(("clock", "c", dl, self.clock_cost + (1 if any_thread else 0)))
        if opts and opts[0][3] != 0:
            # the cheapest option is the default; every other keeps its price relative to it
            k = min(range(len(opts)), key=lambda i: opts[i][3])
            o = opts.pop(k)
            m = o[3]
            opts = [(o[0], o[1], o[2], 0)] + [(a, b, c, d - m) for a, b, c, d in opts]
        return opts

    def _next_deadline(self):
        dl = None
        for t in self.threads:
            if t.state == "blocked" and t.deadline is not None and not t.timed_out:
                if dl is None or t.deadline < dl:
                    dl = t.deadline
        return dl

    def _next(self, me, me_enabled, label):
        """Take decisions until a thread is chosen.  Returns it, or None when the execution is over."""
        while True:
            if self.over:
                return None
            if self.stop_when is not None and self.stop_when():
                self._end("done")
                return None
            self.steps += 1
            # (how often an idle loop looks around is its own business: steps per virtual second come on top)
            if self.steps > self.horizon + min(100 * self.now, 20 * self.horizon):
                self._end("horizon")
                return None
            opts = self._options(me, me_enabled)
            if not opts:
                self._end("finished" if all(t.state == "done" for t in self.threads) else "deadlock")
                return None
            if len(opts) == 1:
                o = opts[0]
            else:
                if self.state_ids is not None:
                    self.state_ids.add(hash((self._loghash, self.now, tuple((t.state, t.pos) for t in self.threads),
                                             tuple(o[0] for o in opts))))
                i = self.chooser.choose([o[0] for o in opts], [o[3] for o in opts])
                o = opts[i]
                if self.trace is not None and (i or o[1] != "t"):
                    self.trace.append("at %s: %s -> %s" % (label, [str(x[0]) for x in opts],
                                                         o[2].name if o[1] == "t" else o[0]))
            kind = o[1]
            if kind == "t":
                t = o[2]
                if self.trace is not None and t is not me:
                    self.trace.append("  run %s (at %s)" % (t.name, t.pos))
                return t
            if kind == "e":
                if self.trace is not None and len(opts) == 1:
                    self.trace.append("  env %s" % (o[0],))
                self.in_env += 1
                try:
                    o[2]()
                finally:
                    self.in_env -= 1
            else:
                self.advance(o[2])
                if self.over:
                    return None

    def advance(self, to):
        if to > self.now:
            self.now = to
        if self.now > self.time_horizon:
            self._end("time-horizon")
            return
        if self.trace is not None:
            self.trace.append("  clock -> %.3f" % self.now)
        for t in self.threads:
            if t.state == "blocked" and t.deadline is not None and t.deadline <= self.now + 1e-9:
                t.timed_out = True

    def me(self):
        return _ctl.get(_ident())

    def point(self, label, me=None):
        """A place where another thread or the environment may act."""
        if self.in_env:
            return
        me = me or _ctl.get(_ident())
        if me is None:
            return
        if self.over:
            self._die(me)
        me.pos = label
        me.npoints += 1
        try:
            nxt = self._next(me, True, label)
        except Killed:
            raise
        except BaseException as e:
            self._fail(e)
            nxt = None
        if nxt is me:
            return
        self._leave(me, nxt)

    def block(self, pred, timeout=None, label="block"):
        """Block the calling thread until pred(); returns False when the timeout expired first."""
        me = _ctl.get(_ident())
        if me is None:
            if self.in_env or pred():
                return True
            raise HarnessError("uncontrolled thread would block (%s)" % (label,))
        if self.over:
            self._die(me)
        if self.in_env:
            if pred():
                return True
            raise HarnessError("environment action would block (%s)" % (label,))
        me.pos = label
        me.pred = pred
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        me.timed_out = timeout is not None and timeout <= 0
        me.state = "blocked"
        try:
            nxt = self._next(None, False, label)
        except Killed:
            raise
        except BaseException as e:
            self._fail(e)
            nxt = None
        if nxt is not me:
            self._leave(me, nxt)
        me.state = "ready"
        ok = pred()
        me.pred = me.deadline = None
        me.timed_out = False
        return bool(ok)

    def quiesce(self):
        """Wait until nothing but the clock could still make anything happen."""
        me = _ctl.get(_ident())
        if self.over:
            self._die(me)
        me.pos = "quiesce"
        me.state = "quiesce"
        try:
            nxt = self._next(None, False, "quiesce")
        except Killed:
            raise
        except BaseException as e:
            self._fail(e)
            nxt = None
        if nxt is not me:
            self._leave(me, nxt)
        me.state = "ready"

    def _leave(self, me, nxt):
        if nxt is not None:
            self._hand(nxt)
        me.baton.acquire()
        _guard()
        if self.over:
            self._die(me)

    def _die(self, me):
        me.kills += 1
        if sys.gettrace() is not None:
            sys.settrace(_dead_trace)
        if me.kills > 1000:
            me.state = "done"
            me.end.release()
            _ctl.pop(_ident(), None)
            while True:
                _real_sleep(3600)
        raise Killed()

    def choose(self, labels, costs=None):
        """A data choice made by the running thread (e.g. how many bytes a socket accepts)."""
        if len(labels) == 1:
            return 0
        if self.over:
            return 0
        if self.state_ids is not None:
            self.state_ids.add(hash((self._loghash, self.now, tuple((t.state, t.pos) for t in self.threads),
                                     tuple(labels))))
        i = self.chooser.choose(list(labels), list(costs) if costs else [0] + [1] * (len(labels) - 1))
        if self.trace is not None:
            self.trace.append("  choice %s of %s" % (labels[i], [str(x) for x in labels]))
        return i


# ---- bytecode-level preemption points ------------------------------------------------------------------------
REPO_PREFIX = ["/repo/"]
_OPS = {"LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "CONTAINS_OP",
        "CALL", "CALL_FUNCTION_EX", "FOR_ITER", "STORE_GLOBAL", "DELETE_GLOBAL", "LOAD_SUPER_ATTR", "BEFORE_WITH",
        "STORE_DEREF", "UNPACK_SEQUENCE", "BINARY_SLICE", "STORE_SLICE"}
_offs_cache = {}
_stored_globals = {}
EXCLUDE_FUNCS = set()


def _collect_global_stores(code, acc):
    for ins in dis.get_instructions(code):
        if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            acc.add(ins.argval)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _collect_global_stores(c, acc)


def _module_global_stores(filename):
    acc = _stored_globals.get(filename)
    if acc is None:
        acc = set()
        try:
            with open(filename, "rb") as f:
                _collect_global_stores(compile(f.read(), filename, "exec"), acc)
        except (OSError, SyntaxError):
            pass
        _stored_globals[filename] = acc
    return acc


def _offsets(code):
    r = _offs_cache.get(code)
    if r is None:
        g = _module_global_stores(code.co_filename)
        fn = "%s:%s" % (code.co_filename.rsplit("/", 1)[-1], code.co_name)
        r = {}
        # a generator cannot be resumed while it runs: any point inside it matters to who shares it
        gen = bool(code.co_flags & 0x20)
        for ins in dis.get_instructions(code):
            if gen or ins.opname in _OPS or (ins.opname in ("LOAD_GLOBAL", "LOAD_NAME") and ins.argval in g) \
                    or (ins.opname in ("LOAD_DEREF",) and ins.argval in code.co_freevars):
                r[ins.offset] = "%s+%d %s %s" % (fn, ins.offset, ins.opname, ins.argrepr)
        _offs_cache[code] = r
    return r


def _global_trace(frame, event, arg):
    code = frame.f_code
    fn = code.co_filename
    for p in REPO_PREFIX:
        if fn.startswith(p):
            break
    else:
        return None
    if code.co_name in EXCLUDE_FUNCS:
        return None
    frame.f_trace_opcodes = True
    frame.f_trace_lines = False
    return _local_trace


def _local_trace(frame, event, arg):
    if event == "opcode":
        lab = _offsets(frame.f_code).get(frame.f_lasti)
        if lab is not None:
            s = CUR
            if s is not None and not s.in_env and not (s.over and _dead()):
                s.point(lab)
    return _local_trace


def _dead():
    me = _ctl.get(_ident())
    return me is None or me.kills > 0


def _dead_trace(frame, event, arg):
    return None


_traced = False


def _guard():
    """CPython 3.12 calls the tracer of whichever thread runs a frame that is traced by opcode, and crashes when
    that thread has none; the frame of a generator may be traced by one thread and run by another."""
    if _traced and sys.gettrace() is None:
        sys.settrace(_dead_trace)


# ---- replacements for the standard library -------------------------------------------------------------------
class VLock(object):
    __slots__ = ("_real", "__weakref__")

    def __init__(self):
        self._real = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        if s is not None:
            me = _ctl.get(_ident())
            if me is not None:
                if s.over:
                    if self._real.acquire(False):
                        return True
                    s._die(me)
                if s.in_env:
                    if self._real.acquire(False):
                        return True
                    if not blocking:
                        return False
                    raise HarnessError("environment action needs a lock that is held")
                if s.lock_points:
                    s.point("acquire", me)
                if self._real.acquire(False):
                    return True
                if not blocking:
                    return False
                real = self._real
                end = None if timeout is None or timeout < 0 else s.now + timeout
                while True:
                    ok = s.block(lambda: not real.locked(), None if end is None else end - s.now, "lock-wait")
                    if not ok:
                        return False
                    if real.acquire(False):
                        return True
            if not self._real.acquire(False):
                if not blocking:
                    return False
                if s.in_env:
                    raise HarnessError("environment action needs a lock that is held")
                return self._real.acquire(True, 20 if timeout < 0 else timeout)
            return True
        return self._real.acquire(blocking, timeout)

    __enter__ = acquire

    def release(self):
        self._real.release()
        s = CUR
        if s is not None and s.lock_points and not s.over and not s.in_env:
            me = _ctl.get(_ident())
            if me is not None:
                s.point("release", me)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._real.locked()

    def _at_fork_reinit(self):
        self._real = _alloc()

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class VThread(object):
    """threading.Thread for controlled executions."""
    _cnt = itertools.count(1)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.name = str(name or "Thread")
        self.daemon = bool(daemon)
        self._t = None
        self.ident = None
        self.native_id = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        s = CUR
        if s is None:
            raise HarnessError("thread started outside an execution")
        self._t = s.spawn(self.run, name=self.name + ":" + getattr(self._target, "__name__", "run"), daemon=self.daemon)
        self._t.lib = True
        self.ident = self._t.tid + 1
        if s.me() is not None:
            s.point("thread-start")

    def join(self, timeout=None):
        s = CUR
        if self._t is None:
            raise RuntimeError("cannot join thread before it is started")
        if s is not None and not s.over:
            t = self._t
            s.block(lambda: t.state == "done", timeout, "join")

    def is_alive(self):
        return self._t is not None and self._t.state != "done"

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n


class VTimer(VThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        VThread.__init__(self)
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self.finished = threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def v_time():
    s = CUR
    return _real_time() if s is None else EPOCH + s.now


def v_monotonic():
    s = CUR
    return _real_monotonic() if s is None else 1000.0 + s.now


def v_time_ns():
    return int(v_time() * 1e9)


def v_monotonic_ns():
    return int(v_monotonic() * 1e9)


class _VMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_datetime)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_datetime)


class VDatetime(_real_datetime, metaclass=_VMeta):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(v_time(), tz)

    today = classmethod(lambda cls: cls.now())
    utcnow = classmethod(lambda cls: _real_datetime.fromtimestamp(v_time(), datetime.timezone.utc).replace(tzinfo=None))


def v_sleep(d):
    s = CUR
    if s is None:
        return _real_sleep(d)
    if _ctl.get(_ident()) is None:
        raise HarnessError("sleep in an uncontrolled thread")
    s.block(lambda: False, d, "sleep")


class VExecutor(object):
    """concurrent.futures.ThreadPoolExecutor whose workers are controlled threads."""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        self.max_workers = max_workers or 8
        self.active = 0
        self.queue = []
        self.jobs = 0
        self.closed = False

    def submit(self, fn, /, *args, **kwargs):
        import concurrent.futures as cf
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = cf.Future()
        self.queue.append((f, fn, args, kwargs))
        self._pump()
        return f

    def _pump(self):
        s = CUR
        if self.queue and self.active < self.max_workers:
            self.active += 1
            self.jobs += 1
            s.spawn(self._work, name="job%d" % self.jobs, daemon=True)

    def _work(self):
        try:
            while self.queue:
                f, fn, args, kwargs = self.queue.pop(0)
                if not f.set_running_or_notify_cancel():
                    continue
                try:
                    r = fn(*args, **kwargs)
                except Killed:
                    raise
                except BaseException as e:
                    f.set_exception(e)
                    e = None
                else:
                    f.set_result(r)
        finally:
            self.active -= 1

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return [f.result(timeout) for f in fs]

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            q, self.queue = self.queue, []
            for f, _, _, _ in q:
                f.cancel()
        s = CUR
        if wait and s is not None and s.me() is not None and not s.over:
            s.block(lambda: not self.active and not self.queue, None, "executor-shutdown")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


_installed = False


def install():
    """Replace the blocking primitives.  Must run before /repo is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    # CPython 3.12 delivers opcode events only after some frame has asked for them once: ask before the first
    # execution, or it would have fewer scheduling points than the others
    sys._getframe().f_trace_opcodes = True
    import queue
    import socketserver
    import concurrent.futures
    import concurrent.futures.thread
    threading._allocate_lock = VLock
    threading.Lock = VLock
    threading._CRLock = None
    threading.Thread = VThread
    threading.Timer = VTimer
    threading._time = v_monotonic
    time.time = v_time
    time.monotonic = v_monotonic
    time.perf_counter = v_monotonic
    time.time_ns = v_time_ns
    time.monotonic_ns = v_monotonic_ns
    time.perf_counter_ns = v_monotonic_ns
    datetime.datetime = VDatetime
    time.sleep = v_sleep
    queue.time = v_monotonic
    if hasattr(queue, "_PySimpleQueue"):
        queue.SimpleQueue = queue._PySimpleQueue
    socketserver.time = v_monotonic
    concurrent.futures.ThreadPoolExecutor = VExecutor
    concurrent.futures.thread.ThreadPoolExecutor = VExecutor
