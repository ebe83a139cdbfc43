"""Exhaustive enumeration of decision sequences, iterated over a deviation bound, on all cores."""
import array
import gc
import os
import pickle
import select as _select
import signal
import struct
import sys
import time
import traceback
import _thread

_time = time.monotonic          # captured before anything is replaced
_sleep = time.sleep
_poll = _select.poll

NPROC = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
HANG_S = float(os.environ.get("MC_HANG_S", "40"))
SLICE_S = 0.4


class Divergence(Exception):
    pass


class Chooser(object):
    """Follows a prefix of decisions, then takes the default (0) everywhere."""
    __slots__ = ("prefix", "choices", "ns", "costs", "cost", "states", "labels", "keep_labels", "bound")

    def __init__(self, prefix=(), states=None, keep_labels=False):
        self.prefix = prefix
        self.choices = []
        self.ns = []
        self.costs = []
        self.cost = 0
        self.states = states
        self.keep_labels = keep_labels
        self.labels = []

    def choose(self, labels, costs):
        i = len(self.choices)
        n = len(labels)
        if i < len(self.prefix):
            v = self.prefix[i]
            c, m = v & 0xffff, v >> 16
            if m != n or c >= n:
                raise Divergence("decision %d: recorded %d of %d, now %d options %r" % (i, c, m, n, labels))
        else:
            c = 0
        self.choices.append(c)
        self.ns.append(n)
        self.costs.append(None if all(x == 0 for x in costs) else tuple(costs))
        self.cost += costs[c]
        if self.keep_labels:
            self.labels.append(str(labels[c]))
        return c

    def full(self):
        return tuple(c | (n << 16) for c, n in zip(self.choices, self.ns))


class Outcome(object):
    """What one execution showed."""
    __slots__ = ("violation", "key", "fingerprint", "steps", "note", "nontrivial")

    def __init__(self, violation=None, key=None, fingerprint=None, steps=0, note=None, nontrivial=True):
        self.violation, self.key, self.fingerprint, self.steps = violation, key, fingerprint, steps
        self.note, self.nontrivial = note, nontrivial


class Scenario(object):
    def __init__(self, name, fn, bound=0, about="", kind="schedules", max_bound=None, need_outcomes=1):
        """fn(chooser, verbose) -> Outcome.  bound: largest deviation cost explored exhaustively."""
        self.name, self.fn, self.bound, self.about, self.kind = name, fn, bound, about, kind
        self.need_outcomes = need_outcomes


class Result(object):
    def __init__(self, name):
        self.name = name
        self.execs = 0
        self.steps = 0
        self.decisions = 0
        self.states = set()
        self.fps = set()
        self.nontrivial = set()
        self.done_bound = -1
        self.complete = False
        self.violation = None      # (msg, key, choices)
        self.known = {}            # key -> count
        self.error = None
        self.by_level = []
        self.sample = None
        self.wall = 0.0
        self.diverged = 0


# ---- worker ----------------------------------------------------------------------------------------------------
class _Worker(object):
    def __init__(self, scenarios, rfd, wfd, known):
        self.scenarios, self.rfd, self.wfd, self.known = scenarios, rfd, wfd, known
        self.sent_states = {}
        self.cur = None
        self.started = None
        self.lock = _thread.allocate_lock()

    def watchdog(self):
        while True:
            _sleep(1.0)
            st = self.started
            if st is not None and _time() - st > HANG_S:
                cur = self.cur
                if cur is None or self.started != st:
                    continue
                si, ch = cur
                dump = "\n".join("".join(traceback.format_stack(f)[-6:]) for f in sys._current_frames().values())
                send(self.wfd, dict(kind="hang", scenario=si, choices=ch.full(), dump=dump))
                os._exit(0)

    def run(self):
        _thread.start_new_thread(self.watchdog, ())
        gc.disable()
        gc.collect()
        gc.freeze()
        sys.unraisablehook = lambda *a: None
        n = 0
        while True:
            task = recv(self.rfd)
            if task is None:
                os._exit(0)
            si, level, bound, prefixes = task
            sc = self.scenarios[si]
            sent = self.sent_states.setdefault(si, (set(), set(), set()))
            states = set()
            out = dict(kind="res", scenario=si, level=level, execs=0, steps=0, decisions=0, left=[], nxt={},
                       viol=None, known={}, fps=set(), error=None, sample=None, nontriv=set(), diverged=0)
            stack = list(prefixes)
            t0 = _time()
            while stack:
                if _time() - t0 > SLICE_S and out["execs"]:
                    break
                prefix, pcost = stack.pop()
                ch = Chooser(prefix, states)
                self.cur = (si, ch)
                self.started = _time()
                try:
                    o = sc.fn(ch, False)
                    if len(ch.choices) < len(prefix):
                        raise Divergence("replay ended before its prefix")
                except Divergence as e:
                    # the code under test is not a function of our decisions here: count it, do not guess
                    self.started = None
                    out["diverged"] += 1
                    if os.environ.get("MC_SHOWDIV"): print("DIV", e, flush=True)
                    gc.collect()
                    continue
                except BaseException as e:
                    self.started = None
                    out["error"] = "%s: %s\nchoices=%r\n%s" % (type(e).__name__, e, ch.full(), traceback.format_exc())
                    break
                self.started = None
                n += 1
                gc.collect()
                out["execs"] += 1
                out["steps"] += o.steps
                out["decisions"] += len(ch.choices)
                if o.fingerprint is not None:
                    out["fps"].add(hash(o.fingerprint))
                    if o.nontrivial:
                        out["nontriv"].add(hash(o.fingerprint))
                if out["sample"] is None:
                    out["sample"] = dict(choices=list(ch.choices[:60]), outcome=str(o.note or o.fingerprint)[:600])
                if o.violation:
                    k = o.key or "-"
                    if k in self.known:
                        out["known"][k] = out["known"].get(k, 0) + 1
                    else:
                        out["viol"] = (o.violation, k, ch.full())
                        break
                full = ch.full()
                cost = pcost
                for i in range(len(prefix), len(full)):
                    n_i, cs = ch.ns[i], ch.costs[i]
                    base = full[:i]
                    for alt in range(n_i - 1, 0, -1):
                        c = pcost + (cs[alt] if cs else 0)
                        # choices after the prefix are all default and default costs nothing
                        if c > bound:
                            continue
                        item = (base + (alt | (n_i << 16),), c)
                        if c <= level:
                            stack.append(item)
                        else:
                            out["nxt"].setdefault(c, []).append(item)
            out["left"] = stack
            for name, new, old in (("states", states, sent[0]),):
                d = new - old
                old |= d
                out[name] = array.array("q", d).tobytes()
            d = out["fps"] - sent[1]
            sent[1].update(d)
            out["fps"] = d
            d = out["nontriv"] - sent[2]
            sent[2].update(d)
            out["nontriv"] = d
            send(self.wfd, out)


def send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("!Q", len(b)) + b
    v = memoryview(b)
    while v:
        n = os.write(fd, v)
        v = v[n:]


def _read(fd, n):
    parts = []
    while n:
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            raise EOFError
        parts.append(b)
        n -= len(b)
    return b"".join(parts)


def recv(fd):
    n, = struct.unpack("!Q", _read(fd, 8))
    return pickle.loads(_read(fd, n))


class Pool(object):
    def __init__(self, scenarios, known, nproc=None):
        self.scenarios = scenarios
        self.known = known
        self.n = nproc or NPROC
        self.w = []
        for _ in range(self.n):
            self.w.append(self._fork())

    def _fork(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        parent = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                import ctypes
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                if os.getppid() != parent:
                    os._exit(1)
                os.close(w1)
                os.close(r2)
                for (_, a, b) in self.w:
                    os.close(a)
                    os.close(b)
                _Worker(self.scenarios, r1, w2, self.known).run()
            except EOFError:
                pass
            except BaseException:
                traceback.print_exc()
            os._exit(1)
        os.close(r1)
        os.close(w2)
        return (pid, w1, r2)

    def close(self):
        for pid, a, b in self.w:
            for fd in (a, b):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.w = []

    def explore(self, si, deadline):
        sc = self.scenarios[si]
        res = Result(sc.name)
        t_start = _time()
        levels = {0: [((), 0)]}
        bound = sc.bound
        level = 0
        stop = False
        while level <= bound and not stop:
            work = levels.pop(level, [])
            execs_before = res.execs
            busy = {}
            idle = list(range(self.n))
            while (work or busy) and not stop:
                while work and idle:
                    k = idle.pop()
                    # hand out shares so that every worker gets something
                    share = max(1, min(len(work) // (len(idle) + 1), 400))
                    batch, work = work[-share:], work[:-share]
                    send(self.w[k][1], (si, level, bound, batch))
                    busy[k] = True
                if not busy:
                    break
                p = _poll()
                fdmap = {}
                for k in busy:
                    p.register(self.w[k][2], _select.POLLIN | _select.POLLHUP)
                    fdmap[self.w[k][2]] = k
                ev = p.poll(2000)
                for fd, _ in ev:
                    k = fdmap[fd]
                    try:
                        m = recv(fd)
                    except (EOFError, OSError):
                        res.error = "worker died"
                        stop = True
                        break
                    if m["kind"] == "hang":
                        res.violation = ("execution does not end (no progress for %.0f s)\n%s" % (HANG_S, m["dump"]),
                                         "hang", m["choices"])
                        os.waitpid(self.w[k][0], 0)
                        self.w[k] = self._fork()
                        busy.pop(k)
                        idle.append(k)
                        stop = True
                        break
                    busy.pop(k)
                    idle.append(k)
                    res.execs += m["execs"]
                    res.steps += m["steps"]
                    res.decisions += m["decisions"]
                    res.diverged += m["diverged"]
                    a = array.array("q")
                    a.frombytes(m["states"])
                    res.states.update(a)
                    res.fps |= m["fps"]
                    res.nontrivial |= m["nontriv"]
                    if m["sample"] and (res.sample is None or level > 0 and not res.sample.get("dev")):
                        res.sample = m["sample"]
                        res.sample["dev"] = level
                    for kk, v in m["known"].items():
                        res.known[kk] = res.known.get(kk, 0) + v
                    work.extend(m["left"])
                    for c, items in m["nxt"].items():
                        levels.setdefault(c, []).extend(items)
                    if m["error"] and not res.error:
                        res.error = m["error"]
                        stop = True
                    if m["viol"] and (res.violation is None or len(m["viol"][2]) < len(res.violation[2])):
                        res.violation = m["viol"]
                        stop = True
                if _time() > deadline:
                    stop = True
                    if not res.violation:
                        break
            # drain busy workers
            end = _time() + 60
            while busy:
                p = _poll()
                fdmap = {}
                for k in busy:
                    p.register(self.w[k][2], _select.POLLIN | _select.POLLHUP)
                    fdmap[self.w[k][2]] = k
                for fd, _ in p.poll(1000):
                    k = fdmap[fd]
                    try:
                        m = recv(fd)
                    except (EOFError, OSError):
                        m = None
                    busy.pop(k)
                    if m is None or m["kind"] == "hang":
                        if m is not None and res.violation is None:
                            res.violation = ("execution does not end (no progress for %.0f s)\n%s"
                                             % (HANG_S, m["dump"]), "hang", m["choices"])
                        try:
                            os.waitpid(self.w[k][0], 0)
                        except OSError:
                            pass
                        self.w[k] = self._fork()
                        continue
                    if m["viol"] and (res.violation is None or len(m["viol"][2]) < len(res.violation[2])):
                        res.violation = m["viol"]
                    res.execs += m["execs"]
                    res.steps += m["steps"]
                    res.decisions += m["decisions"]
                    res.fps |= m["fps"]
                    res.nontrivial |= m["nontriv"]
                if _time() > end + HANG_S:
                    res.error = res.error or "workers do not answer"
                    break
            res.by_level.append(res.execs - execs_before)
            if not stop:
                res.done_bound = level
                level += 1
        res.complete = (res.done_bound >= bound) and not res.violation and not res.error
        res.wall = _time() - t_start
        return res


def run_one(scenario, choices, verbose=False):
    """Replay one execution in this process."""
    ch = Chooser(tuple(choices), set(), keep_labels=True)
    o = scenario.fn(ch, verbose)
    return o, ch
