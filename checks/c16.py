"""C16: a connection pool respects its limits and never lends a connection twice."""
from mc.pools import *

KNOWN = "get_conn-emptypool-drops-popped"

# initial, max, max_free, min_free, block
CONFIGS = [(1, 2, 1, 0, False), (0, 2, 2, 0, False), (1, 3, 2, 1, False), (2, 2, 2, 0, False), (1, 1, 1, 0, False),
           (1, 2, 2, 1, False), (2, 3, 1, 0, False), (3, 3, 1, 0, False), (1, 2, 2, 0, True), (2, 2, 2, 1, True), (1, 3, 2, 1, True),
           (2, 2, 1, 0, True)]


class PoolWorld(object):
    def __init__(self, w, cfg):
        import mysockpool
        import mysockpool.exceptions as X
        self.w, self.X, self.cfg = w, X, cfg
        self.log = ConnLog(w)
        self.initial, self.max, self.max_free, self.min_free, self.block = cfg
        cls = type("Pool", (mysockpool.ConnectionPool,), dict(ConnectionCls=self.log.cls))
        self.pool = cls(self.log.key(), initial_connections=self.initial, max_connections=self.max,
                        max_free_connections=self.max_free, min_free_connections=self.min_free, block=self.block)
        self.out = []             # connections lent, oldest first
        self.closed = False
        self.overlap = 0

    def free(self):
        return self.log.open_count() - len(self.out)

    def get(self, exact=True):
        """One borrow, judged."""
        w, log = self.w, self.log
        free0, lent0 = self.free(), len(self.out)
        dropped0 = set(c.serial for c in self.out)
        made0, armed = log.made, log.fail_next
        try:
            c = self.pool.get_conn(timeout=0.05) if self.block else self.pool.get_conn()
        except self.X.EmptyPoolError as e:
            strip(e)
            if exact:
                w.check(not self.closed, "a closed pool reports that it is empty")
                if free0 > 0:
                    w.fail("get_conn raised EmptyPoolError although %d of %d connections are free (%d lent)"
                           % (free0, self.max, lent0), KNOWN if lent0 + free0 == self.max and
                           0 < free0 <= self.min_free else None)
                w.check(lent0 == self.max or self.block, "get_conn raised EmptyPoolError although only %d of %d "
                        "connections are lent and none is free" % (lent0, self.max))
            return "empty"
        except self.X.ClosedPoolError as e:
            strip(e)
            w.check(self.closed or not exact, "an open pool reports that it is closed")
            return "closed"
        except OSError as e:
            strip(e)
            w.check(armed and log.made > made0, lambda: "get_conn raised %r" % (e,))
            return "failed"
        w.check(not self.closed or not exact, "a closed pool lent a connection")
        w.check(isinstance(c, log.cls), "get_conn returned %r" % (c,))
        w.check(log.by_id[c.serial] == "open", "get_conn lent a connection that was closed")
        w.check(all(c is not o for o in self.out), "get_conn lent a connection that is lent already")
        w.check(not log.dropped(c), "get_conn lent a connection that the server had dropped")
        self.out.append(c)
        return "conn"

    def put(self, c):
        self.out.remove(c)
        self.pool.put_conn(c)

    def limits(self, slack=0):
        w, log = self.w, self.log
        a = KEYS[0]
        w.check(log.peak.get(a, 0) <= self.max, lambda: "%d connections were open at once, the maximum is %d"
                % (log.peak[a], self.max))
        if not self.closed:
            w.check(self.free() <= self.max_free, lambda: "%d free connections are kept, the maximum is %d"
                    % (self.free(), self.max_free))
        else:
            w.check(self.free() == 0, lambda: "%d connections that nobody holds are open although the pool is closed"
                    % self.free())

    def capacity(self):
        """Everybody returns; then exactly the maximum can be borrowed."""
        w = self.w
        self.log.fail_next = 0
        for c in list(self.out):
            self.put(c)
        self.limits()
        if self.closed:
            w.check(self.get() == "closed", "a closed pool still lends")
            w.check(self.log.open_count() == 0, "a closed pool keeps %d connections open" % self.log.open_count())
            return
        self.pool.min_free_connections = 0
        n = 0
        if self.block:
            # a blocking pool lends what is free
            n = self.free()
            for i in range(n):
                w.check(self.get() == "conn", "a free connection could not be borrowed")
            # from here on it may create what it lacks
            self.pool.block = self.block = False
        while n <= self.max:
            r = self.get()
            if r != "conn":
                break
            n += 1
        w.check(n == self.max, lambda: "with everything returned, %d of %d connections could be borrowed (the pool counts %s)"
                % (n, self.max, getattr(self.pool, "num_connections", None)))
        self.limits()


def histories(depth, name, configs, faults=True, repeat=1):
    """All sequences of operations; repeat: over and over again."""
    def body(w):
        cfg = configs[w.s.choose([str(c) for c in configs], [0] * len(configs))] if len(configs) > 1 else configs[0]

        def run():
            pw = PoolWorld(w, cfg)
            trace = [cfg]
            word = []
            for turn in range(depth * repeat):
                ops = [("get", pw.get)]
                if pw.out:
                    ops.append(("put-old", lambda: pw.put(pw.out[0])))
                    if len(pw.out) > 1:
                        ops.append(("put-new", lambda: pw.put(pw.out[-1])))
                    ops.append(("drop-lent", lambda: pw.log.drop(pw.out[0])))
                fr = [c for c in free_conns(pw)]
                if fr:
                    ops.append(("drop-free", lambda: [pw.log.drop(c) for c in fr[-1:]]))
                    if len(fr) > 1:
                        ops.append(("drop-all-free", lambda: [pw.log.drop(c, "reset") for c in fr]))
                if faults and not pw.log.fail_next:
                    ops.append(("fail-next", lambda: setattr(pw.log, "fail_next", 1)))

                def close():
                    pw.pool.close()
                    pw.closed = True
                if repeat == 1:
                    ops.append(("close", close))
                if turn < depth:
                    op = ops[w.s.choose([o[0] for o in ops], [0] * len(ops))]
                    word.append(op[0])
                    trace.append(op[0])
                else:
                    op = [o for o in ops if o[0] == word[turn % depth]]
                    op = op[0] if op else ("-", lambda: None)
                r = op[1]()
                if turn < depth:
                    trace.append(r if isinstance(r, str) else None)
                fr = ops = op = None
                pw.limits()
            pw.capacity()
            w.note(trace)
            done.append(1)
        done = []
        w.thread(run, "user")
        w.run()
        w.check(done, "a borrow or return never ended")
    return scenario(name, body, 0, "all histories of %d operations%s" % (depth, ", %d times" % repeat if repeat > 1 else ""),
                    horizon=100000)


def free_conns(pw):
    """The connections the pool keeps (found through the sockets, newest last)."""
    import gc
    out = []
    for sk in list(pw.w.net.__dict__.get("fds", {}).values()):
        if sk._state == "connected" and not any(sk is c.sock for c in pw.out) and not sk._rx_eof:
            out.append(Sk(sk))
    return out


class Sk(object):
    def __init__(self, sock):
        self.sock = sock


def threads(programs, cfg, bound, name, held=(), op=True, stale=0):
    """Programs: strings of g (get), p (put the oldest of this thread), c (close), d (the server drops the thread's
    newest connection); all interleavings at bytecode level up to the bound.  held: connections each thread starts with.  stale: free connections the server has dropped."""
    def body(w):
        state = {"using": 0, "peak": 0, "closing": False, "res": {}}

        def main():
            mines = [[] for _ in programs]

            def prep():
                pw = state["pw"] = PoolWorld(w, cfg)
                for k, n in enumerate(held):
                    for _ in range(n):
                        w.check(pw.get() == "conn", "a connection within the limit could not be borrowed")
                        mines[k].append(pw.out[-1])
                        state["using"] += 1
                state["peak"] = state["using"]
                for _ in range(stale):
                    w.check(pw.get() == "conn", "a connection within the limit could not be borrowed")
                for c in pw.out[sum(held):]:
                    pw.log.drop(c)
                    pw.put(c)
            w.setup(prep)
            pw = state["pw"]

            def run(k, prog, mine):
                res = state["res"][k] = []
                for o in prog:
                    if o == "g":
                        state["using"] += 1
                        state["peak"] = max(state["peak"], state["using"])
                        r = pw.get(exact=False)
                        if r == "conn":
                            mine.append(pw.out[-1])
                        else:
                            state["using"] -= 1
                            w.check(r != "empty" or state["peak"] > cfg[1], lambda: "get_conn raised EmptyPoolError although "
                                    "at most %d of %d connections were in use" % (state["peak"] - 1, cfg[1]))
                            w.check(r != "closed" or state["closing"], "an open pool reports that it is closed")
                        res.append(r)
                    elif o == "p" and mine:
                        c = mine.pop(0)
                        pw.put(c)
                        c = None
                        state["using"] -= 1
                    elif o == "d" and mine:
                        pw.log.drop(mine[-1])
                    elif o == "c":
                        state["closing"] = True
                        pw.pool.close()
                        pw.closed = True
                del mine[:]
            for k, prog in enumerate(programs):
                w.thread(lambda k=k, prog=prog: run(k, prog, mines[k]), "u%d" % k, trace=op)
        w.thread(main, "main", trace=False)
        w.run()
        pw = state["pw"]
        w.check(all(t.done for t in w.s.threads), "a thread never ended: %r" % w.s.threads)
        w.note(sorted(state["res"].items()))
        pw.limits()
        # judged in a fresh thread of the same world
        w.s.over, w.s.reason = False, None
        w.thread(pw.capacity, "after", trace=False)
        w.run()
    return scenario(name, body, bound, "threads running %s on a pool of %s, holding %s" % (programs, cfg, held),
                    horizon=60000)


def waiting(name, n):
    """Borrowers wait on an exhausted blocking pool; a connection comes back before, after or never."""
    ts = [0.05, 0.5, 3.0, 60.0, 0, 61.0, 400.0, 4000.0, 90000.0]

    def body(w):
        T = ts[w.s.choose([str(x) for x in ts], [0] * len(ts))]
        if T:
            when = (0.5, 0.98, 1.5, None)[w.s.choose(["half", "just before", "after", "never"], [0] * 4)]
        else:
            when = (1.5, None)[w.s.choose(["after", "never"], [0] * 2)]
        dropped = when is not None and w.s.choose(["healthy", "dropped"], [0, 0]) == 1
        cfg = (1, n, 1, 0, True)
        ends = []

        def main():
            pw = PoolWorld(w, cfg)
            w.check(pw.get() == "conn", "the connection of the pool could not be borrowed")

            def borrow():
                try:
                    c = pw.pool.get_conn(timeout=T)
                except pw.X.EmptyPoolError as e:
                    strip(e)
                    ends.append(("empty", w.s.now))
                    return
                ends.append(("conn", w.s.now))
                w.check(all(c is not o for o in pw.out), "get_conn lent a connection that is lent already")
                w.check(pw.log.by_id[c.serial] == "open" and not pw.log.dropped(c), "get_conn lent a lost connection")
                pw.out.append(c)
            for i in range(2):
                w.thread(borrow, "b%d" % i)
            if when is not None:
                w.s.block(lambda: False, T * when or 1.0, "hold")
                if dropped:
                    pw.log.drop(pw.out[0])
                pw.put(pw.out[0])
            w.s.block(lambda: len(ends) == 2, T * 3 or 3.0, "join")
            w.check(len(ends) == 2, "a borrow with a timeout of %s s has not ended after %s s" % (T, w.s.now))
            got = sorted(e[0] for e in ends)
            w.check(got == (["conn", "empty"] if when in (0.5, 0.98) else ["empty", "empty"]), lambda: "the connection was "
                    "returned %s of the timeout of %s s; the two borrowers got %r" % (when, T, ends))
            for r, t in ends:
                at = T if r == "empty" else T * when
                w.check(abs(t - at) < 0.01 + T * 0.01, lambda: "a borrower got %s at %s s instead of %s s" % (r, t, at))
            pw.limits()
            done.append(1)
        done = []
        w.thread(main, "main")
        w.run()
        w.check(done, "never ended")
        w.note(T, when, dropped)
    return scenario(name, body, 0, "two borrowers wait for one connection of a blocking pool of %d" % n, time_horizon=10.0 ** 6)


def patient(name):
    """A borrower without a timeout waits as long as it takes; one with a timeout of 0 takes what is free and no longer."""
    def body(w):
        delay = (0.1, 30.0, 400.0, 90000.0)[w.s.choose(["0.1 s", "30 s", "400 s", "a day"], [0] * 4)]
        ends = []

        def main():
            pw = PoolWorld(w, (2, 2, 2, 0, True))
            a, b = pw.pool.get_conn(timeout=0), pw.pool.get_conn()
            w.check(a is not b, "one connection was lent twice")
            pw.out += [a, b]
            a = b = None
            w.thread(lambda: ends.append((pw.pool.get_conn(), w.s.now)), "borrower")
            w.s.block(lambda: False, delay, "hold")
            w.check(not ends, "a third connection was lent from a pool of two: %r" % ends)
            c = pw.out[0]
            pw.put(c)
            w.s.block(lambda: bool(ends), 10.0, "wait")
            w.check(ends and ends[0][0] is c and abs(ends[0][1] - w.s.now) < 1, "the connection returned after %s s did not "
                    "reach the borrower that waited for it" % delay)
            pw.out.append(c)
            c = ends[0] = None
            pw.limits()
            done.append(1)
        done = []
        w.thread(main, "main")
        w.run()
        w.check(done, "never ended")
        w.note(delay)
    return scenario(name, body, 0, "a borrower that waits without a timeout", time_horizon=10.0 ** 6)


def lending(depth, name):
    """A blocking pool that keeps spare connections and is below its maximum lends at once."""
    cfgs = [(1, 4, 4, 1, True), (1, 6, 2, 1, True), (2, 6, 4, 2, True), (1, 3, 1, 1, True)]

    def body(w):
        cfg = cfgs[w.s.choose([str(c) for c in cfgs], [0] * len(cfgs))]
        pw = PoolWorld(w, cfg)
        trace, state = [], {}

        def run():
            for i in range(depth):
                ops = ["get"] + (["put-first", "put-last", "drop"] if pw.out else [])
                op = ops[w.s.choose(ops, [0] * len(ops))]
                trace.append(op)
                if op == "get":
                    if len(pw.out) + pw.min_free >= pw.max:
                        break
                    t0 = w.s.now
                    r = pw.get(False)
                    w.check(r == "conn", lambda: "a blocking pool %s with %d connections lent answered %s after %s" % (
                        cfg, len(pw.out), r, trace))
                    w.check(w.s.now == t0, lambda: "a blocking pool %s with %d connections lent made a borrower wait" % (
                        cfg, len(pw.out)))
                elif op == "drop":
                    # a connection that broke is closed and returned
                    pw.out[0].close()
                    pw.put(pw.out[0])
                else:
                    pw.put(pw.out[0 if op == "put-first" else -1])
                pw.limits()
            state["done"] = True
        w.thread(run, "user")
        w.run()
        w.check(state.get("done"), "the history did not finish after %s" % trace)
        w.note(trace, cfg)
    return scenario(name, body, 0, "all histories of %d operations on blocking pools with spare connections" % depth, lock_points=False)


def scenarios(tier):
    t = tier == "thorough"
    nb = [c for c in CONFIGS if not c[4]]
    bl = [c for c in CONFIGS if c[4]]
    return [
        histories(6 if t else 5, "histories", nb),
        histories(6 if t else 4, "histories-block", bl),
        histories(4 if t else 3, "cycles", nb, True, 40),
        histories(3, "cycles-block", bl, True, 20),
        histories(3 if t else 2, "cycles-big", [(0, 30, 30, 0, False), (5, 40, 10, 2, False), (1, 33, 8, 0, False)], True, 60),
        lending(8 if t else 6, "lending-block"),
        waiting("waiting", 2), waiting("waiting-one", 1), patient("patient"),
        threads(["gp", "gp"], (1, 2, 1, 0, False), 3 if t else 2, "two-borrowers"),
        threads(["g", "g"], (0, 1, 1, 0, False), 3 if t else 2, "last-one"),
        threads(["gp", "gp"], (0, 1, 1, 0, False), 3 if t else 2, "last-one-returned"),
        threads(["gg", "g"], (1, 3, 2, 0, False), 3 if t else 2, "growing"),
        threads(["gpgp", "gp"], (1, 9, 1, 1, False), 2 if t else 1, "replenishing"),
        threads(["gp", "c"], (1, 2, 1, 0, False), 3 if t else 2, "closing"),
        threads(["ggpp", "gp", "c"], (1, 4, 1, 0, False), 2 if t else 1, "three"),
        threads(["p", "p", "gg"], (0, 2, 1, 0, False), 3 if t else 2, "returning", (1, 1)),
        threads(["p", "p", "c"], (0, 2, 1, 0, False), 3 if t else 2, "returning-closing", (1, 1)),
        threads(["pg", "pg"], (0, 2, 2, 0, False), 3 if t else 2, "swapping", (1, 1)),
        threads(["gdp", "gp"], (1, 2, 1, 0, False), 3 if t else 2, "dropping"),
        threads(["p", "p", "p"], (0, 3, 1, 0, False), 2 if t else 1, "discarding-together", (1, 1, 1)),
        threads(["p", "g", "p"], (0, 3, 1, 0, False), 2 if t else 1, "discarding-growing", (1, 0, 1)),
        threads(["g", "g"], (0, 3, 2, 0, False), 3 if t else 2, "stale-together", stale=2),
        threads(["gp", "p"], (0, 3, 1, 0, False), 2, "stale-discarding", (0, 1), stale=1),
        threads(["gpg", "gpg", "gp"], (1, 3, 1, 0, False), 2 if t else 1, "discarding"),
    ]
