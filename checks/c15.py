"""C15: the blocking client sends whole requests, returns its own reply, in time."""
from mc.aioc import *
from mc.aioc import _scenario
from checks.c05 import FServer, INTERNAL, WRONG

EPS = 0.001
GRACE = 1.0


def scenario(name, body, bound=0, about="", netopts=None, **opts):
    opts.setdefault("lock_points", False)
    return _scenario(name, body, bound, about, netopts, **opts)


class BServer(FServer):
    """Scripted server; with on_frame it reacts at once instead of offering the explorer a menu."""
    on_frame = None

    def got(self, c, f):
        self.frames.append((c, f))
        self.w.s.obs(self.name, "frame", c.n, f.content, f.ptype, f.cmdcode)
        if self.on_frame is not None:
            self.done.append((c, f))
            self.on_frame(c, f)
        else:
            self.todo.append((c, f))


class BlockingWorld(object):
    """A blocking client used by one or more threads."""

    def __init__(self, w, routes=None):
        import anthunder
        import mytracer
        self.w, self.s = w, w.s
        self.SpanContext = mytracer.SpanContext
        self.anthunder = anthunder
        self.client = None
        self.planned = []
        for k, v in (routes or {"a": A, "b": B}).items():
            anthunder.SERVICE_MAP[k] = v

    def _plan(self, name, fn):
        c = Call(name)
        c.extra["fn"] = fn
        c.extra["content"] = name.encode()
        self.w.calls.append(c)
        return c

    def sync(self, name, content=None, timeout_ms=500, interface="a", **kw):
        content = name.encode() if content is None else content
        c = self._plan(name, lambda: self.client.invoke_sync(interface, "m", content, spanctx=self.SpanContext(),
                                                             timeout_ms=timeout_ms, **kw))
        c.extra["content"] = content
        c.extra["timeout"] = timeout_ms
        return c

    def oneway(self, name, content=None, interface="a", **kw):
        content = name.encode() if content is None else content
        c = self._plan(name, lambda: self.client.invoke_oneway(interface, "m", content, spanctx=self.SpanContext(),
                                                               **kw))
        c.extra["content"] = content
        return c

    trace = None

    def start(self, *sequences):
        """One thread per list of calls."""
        def main():
            def prep():
                self.client = self.anthunder.Client("app")
            self.w.setup(prep)
            for i, seq in enumerate(sequences):
                def body(seq=seq):
                    for c in seq:
                        self.w.perform(c, c.extra["fn"])
                self.w.thread(body, "caller%d" % i, self.trace)
        self.w.thread(main, "main", False if self.trace else None)

    def over(self):
        return bool(self.client) and all(c.ended for c in self.w.calls)

    def run(self):
        self.w.run(self.over)

    def sockets(self):
        gc.collect()
        return [f for f in self.w.net.__dict__.get("fds", {}).values() if f._backlog is None]


def judge(w, srv, surely=()):
    """Each call ended in time with its own reply or an error; surely: names of calls that must have succeeded."""
    import anthunder.exceptions as X
    for c in w.calls:
        content, t = c.extra["content"], c.extra.get("timeout")
        fate = srv.fate.get(content, [])
        sent = [f for _, f in srv.frames if f.content == content]
        w.check(c.ended, lambda: "call %s never ended (the server did %r with it, %d frames arrived)"
                % (c.name, fate, len(sent)))
        w.check(len(sent) <= 1, lambda: "%d request frames arrived for call %s" % (len(sent), c.name))
        if t is not None:
            w.check(c.t1 - c.t0 <= t / 1000.0 + GRACE + EPS, lambda: "call %s took %.3f s, its timeout is %.3f s"
                    % (c.name, c.t1 - c.t0, t / 1000.0))
        if c.exc is None:
            if t is not None:
                w.check("ok" in fate and c.value == b"r:" + content, lambda: "call %s returned %r although the server "
                        "did %r with it" % (c.name, c.value, fate))
        else:
            w.check(isinstance(c.exc, Exception), lambda: "call %s raised %r" % (c.name, c.exc))
            w.check(not isinstance(c.exc, INTERNAL), lambda: "call %s ended with an internal error: %s"
                    % (c.name, short_tb(c.exc)))
            if fate == ["error"]:
                w.check(isinstance(c.exc, X.PyboltError), lambda: "call %s got an error status and raised %r"
                        % (c.name, c.exc))
        if surely is True or c.name in surely:
            w.check(c.exc is None, lambda: "call %s failed although the server answered it: %s" % (c.name, short_tb(c.exc)))
        w.note("judged", c.name, c.brief() if c.exc is None else type(c.exc).__name__, fate)
    b = srv.bad()
    w.check(not b or any(c.state != "open" for c in srv.conns), b)


FAULTS = ("silent", "bad-status", "bad-header", "bad-utf8", "bad-codec", "error-content", "foreign", "cut-reset",
          "cut-close", "cut-close-early", "cut-stall", "ok-close", "ok-reset", "close", "reset")


class MServer(BServer):
    """More kinds of answers."""

    def items(self, c, f):
        m = lambda what, fn: (lambda: (self.mark(f, what), fn()))
        out = BServer.items(self, c, f)
        for k in self.faults:
            if k == "foreign":
                out.append((k, m("foreign", lambda: c.raw(R.response(f.rid % (2 ** 31 - 1) + 1, b"r:" + f.content))), 1))
            elif k == "cut-stall":
                out.append((k, m("cut", lambda: c.raw(R.response(f.rid, b"r:" + f.content)[:-1])), 1))
            elif k == "close":
                out.append((k, m("lost", c.close), 1))
            elif k == "reset":
                out.append((k, m("lost", c.reset), 1))
        return out


def history(n, bound, name, faults=FAULTS, statuses=(2, 3), splits=None, **net):
    """n calls one after the other, each answered in any way."""
    def body(w):
        srv = MServer(w, A, statuses=statuses, faults=faults)
        bw = BlockingWorld(w)
        calls = [bw.sync("c%d" % i) for i in range(n)]
        bw.start(calls)
        bw.run()
        ok = [c.name for c in w.calls if srv.fate.get(c.extra["content"]) == ["ok"]]
        judge(w, srv, [] if "ok-reset" in faults and any(c.state == "reset" for c in srv.conns) else ok)
    return scenario(name, body, bound, "%d calls in a row, any answer each" % n,
                    netopts=dict(dial_auto=True, splits=splits, **net))


def statuses_(name):
    def body(w):
        sts = sorted(R.STATUS.values())
        k = w.s.choose([str(s) for s in sts], [0] * len(sts))
        srv = BServer(w, A)
        bw = BlockingWorld(w)
        c = bw.sync("c0")
        srv.on_frame = lambda cn, f: (srv.mark(f, "error" if sts[k] else "ok"), cn.reply(f, None, sts[k]))
        bw.start([c])
        bw.run()
        judge(w, srv, [] if sts[k] else ["c0"])
    return scenario(name, body, 0, "every status, with content", netopts=dict(dial_auto=True, auto=True))


def segmented(name, bound):
    """The response arrives in up to `bound`+1 pieces, split anywhere."""
    def body(w):
        srv = BServer(w, A)
        srv.on_frame = lambda cn, f: (srv.mark(f, "ok"), cn.reply(f))
        bw = BlockingWorld(w)
        bw.start([bw.sync("c0")])
        bw.run()
        judge(w, srv, ["c0"])
    return scenario(name, body, bound, "the response in pieces", early_env=False,
                    netopts=dict(dial_auto=True, splits=lambda e: range(1, len(e.flight)) if e.side == "c" else ()))


def cuts(name):
    """The reply is cut at every offset and the connection closed, reset or left silent."""
    def body(w):
        srv = BServer(w, A)
        bw = BlockingWorld(w)
        n = len(R.response(1, b"r:c0"))
        k = w.s.choose(["@%d" % i for i in range(n + 1)], [0] * (n + 1))
        how = w.s.choose(["close", "reset", "stall"], [0] * 3)

        def on(cn, f):
            if f.content != b"c0":
                srv.mark(f, "ok")
                return cn.reply(f)
            srv.mark(f, "ok" if k == n else "cut")
            cn.raw(R.response(f.rid, b"r:" + f.content)[:k])
            (cn.close, cn.reset, lambda: None)[how]()
        srv.on_frame = on
        bw.start([bw.sync("c0"), bw.sync("c1")])
        bw.run()
        judge(w, srv, ["c1"] + (["c0"] if k == n and how != 1 else []))
    return scenario(name, body, 0, "the reply cut at every offset, then close, reset or silence",
                    netopts=dict(dial_auto=True, auto=True))


def short_writes(name, bound, full=False):
    """What the socket accepts per write."""
    def body(w):
        def pol(sk, data):
            n = len(data)
            return list(dict.fromkeys([n] + ([n - 1, n // 2, 20, 1] if not full else list(range(n - 1, 0, -1))))) + ["again"]
        w.net.send_policy = pol
        srv = BServer(w, A)
        srv.on_frame = lambda cn, f: (srv.mark(f, "ok"), cn.reply(f))
        bw = BlockingWorld(w)
        bw.start([bw.sync("c0")])
        bw.run()
        judge(w, srv, ["c0"])
    return scenario(name, body, bound, "what the socket accepts per write", netopts=dict(dial_auto=True, auto=True))


def deadlines(name):
    """Timeouts of every size, against every way a server may keep a call waiting."""
    ts = [0, 0.25, 1, 100, 999.5, 1500, 3600000, -1]

    def body(w):
        t = ts[w.s.choose(["%s ms" % x for x in ts], [0] * len(ts))]
        how = ["answers", "answers-late", "silent", "partial"]
        how = how[w.s.choose(how, [0] * len(how))]
        srv = BServer(w, A)
        fns = {"answers": lambda cn, f: (srv.mark(f, "ok"), cn.reply(f)),
               "answers-late": lambda cn, f: late.append((cn, f)),
               "silent": lambda cn, f: srv.mark(f, "silent"),
               "partial": lambda cn, f: (srv.mark(f, "cut"), cn.raw(R.response(f.rid, b"r:" + f.content)[:-1]))}
        late = []

        def later():
            w.s.block(lambda: bool(late), None, "request")
            w.s.block(lambda: False, 0.95 * t / 1000.0, "late")
            srv.mark(late[0][1], "ok")
            late[0][0].reply(late[0][1])
        if how == "answers-late" and t >= 1:
            w.thread(later, "later", trace=False)
        srv.on_frame = lambda cn, f: fns[how if f.content == b"c0" else "answers"](cn, f)
        bw = BlockingWorld(w)
        c = bw.sync("c0", timeout_ms=t)
        c.extra["timeout"] = max(t, 0)
        bw.start([c, bw.sync("c1")])
        bw.run()
        judge(w, srv, ["c1"] + (["c0"] if t >= 1 and how.startswith("answers") else []))
    return scenario(name, body, 0, "timeouts of every size", netopts=dict(dial_auto=True, auto=True), time_horizon=10000.0)


def dribble(name):
    """The response trickles in: byte by byte, header then body, ..., each piece in less than the timeout."""
    def body(w):
        t = [100, 500, 2000][w.s.choose(["100", "500", "2000"], [0] * 3)]
        gap = [0.01, 0.1, 0.3, 0.6, 0.95, 1.5][w.s.choose(["1%", "10%", "30%", "60%", "95%", "150%"], [0] * 6)] * t / 1000.0
        whole = R.response(1, b"r:c0")
        cutsets = {"bytes": list(range(1, len(whole))), "header/body": [20], "pre/header/body": [7, 20],
                   "pieces": [3, 5, 9, 14, 19, 20, 21, 30, len(whole) - 2, len(whole) - 1]}
        names = sorted(cutsets)
        at = cutsets[names[w.s.choose(names, [0] * len(names))]]
        end = ["then-silent", "then-close"][w.s.choose(["then-silent", "then-close"], [0, 0])]
        srv = BServer(w, A)
        todo = []
        srv.on_frame = lambda cn, f: todo.append((cn, f)) if f.content == b"c0" else (srv.mark(f, "ok"), cn.reply(f))
        bw = BlockingWorld(w)
        done = []

        def dribbler():
            w.s.block(lambda: bool(todo), None, "request")
            cn, f = todo[0]
            srv.mark(f, "ok")
            b = R.response(f.rid, b"r:" + f.content)
            t0, pos = w.s.now, 0
            for n in at + [len(b)]:
                if pos:
                    w.s.block(lambda: False, gap, "gap")
                cn.raw(b[pos:n])
                pos = n
            done.append(w.s.now - t0)
            if end == "then-close":
                cn.close()
        w.thread(dribbler, "dribbler", trace=False)
        c = bw.sync("c0", timeout_ms=t)
        bw.start([c, bw.sync("c1")])
        bw.run()
        judge(w, srv, ["c1"])
        if gap * len(at) < t / 1000.0 - EPS:
            w.check(c.ok, lambda: "the response was complete %.3f s after the request but the call with a timeout of %s ms failed: %s"
                    % (gap * len(at), t, short_tb(c.exc)))
    return scenario(name, body, 0, "the response trickles in", netopts=dict(dial_auto=True, auto=True), time_horizon=10000.0,
                    horizon=40000)


def contents(name):
    """Requests and responses of every shape, with and without a header block."""
    def body(w):
        n = len(R.ODD)
        x = R.ODD[w.s.choose(["req%d" % i for i in range(n)], [0] * n)]
        y = R.ODD[w.s.choose(["resp%d" % i for i in range(n)], [0] * n)]
        h = [(), [("k", "v")]][w.s.choose(["bare", "header"], [0, 0])]
        srv = BServer(w, A)
        srv.on_frame = lambda cn, f: cn.raw(R.response(f.rid, y if f.content == x else b"r:" + f.content, 0, h))
        bw = BlockingWorld(w)
        c, d = bw.sync("c0", x), bw.sync("c1", b"last")
        bw.start([c, d])
        bw.run()
        for q, v in ((c, y), (d, b"r:last")):
            w.check(q.ok and type(q.value) is bytes and q.value == v, lambda: "the response to call %s holds %r; it %s" % (
                q.name, v[:40], ("raised " + short_tb(q.exc)) if q.exc else "returned %r" % (q.value[:40] if q.value else q.value,)))
        w.check(sorted(f.content for _, f in srv.frames) == sorted([x, b"last"]), "the requests were not sent as they are")
        w.note(x[:20], len(x), y[:20], len(y))
    return scenario(name, body, 0, "contents of every shape", netopts=dict(dial_auto=True, auto=True))


def slow_writes(name):
    """The socket takes nothing, or a bit, until most of the timeout is over."""
    def body(w):
        t = [100, 1900, 61000][w.s.choose(["100", "1900", "61000"], [0] * 3)]
        k = w.s.choose(["0", "1", "half", "-1"], [0] * 4)
        frac = [0.1, 0.5, 0.95][w.s.choose(["10%", "50%", "95%"], [0] * 3)]
        one = w.s.choose(["call", "oneway"], [0, 0])
        st = {"go": False}
        w.net.never_drain = True
        w.net.send_policy = lambda sk, data: [len(data)] if st["go"] else \
            [("again", 1, max(1, len(data) // 2), max(1, len(data) - 1))[k]] if not sk._full else ["again"]
        srv = BServer(w, A)
        srv.on_frame = lambda cn, f: (srv.mark(f, "ok"), cn.reply(f)) if f.ptype != R.ONEWAY else srv.mark(f, "ok")
        bw = BlockingWorld(w)
        c = bw.oneway("c0") if one else bw.sync("c0", timeout_ms=t)

        def release():
            w.s.block(lambda: c.begun, None, "begun")
            w.s.block(lambda: False, t / 1000.0 * frac, "slow")
            st["go"] = True
            w.net.never_drain = False
        w.thread(release, "kernel", trace=False)
        bw.start([c, bw.sync("c1")])
        bw.run()
        judge(w, srv, ["c1"] + ([] if one else ["c0"]))
        w.check(c.exc is not None or len([1 for _, f in srv.frames if f.content == b"c0"]) == 1, "the call ended without an "
                "error but its request did not arrive")
        w.note(t, k, frac, one, c.brief())
    return scenario(name, body, 0, "a socket that is slow to take the request", netopts=dict(dial_auto=True, auto=True),
                    time_horizon=1000.0)


def idle(name):
    """Long pauses between calls; the server may meanwhile end the connection, silently or not."""
    def body(w):
        T = [0.5, 31.0, 100.0, 4000.0][w.s.choose(["0.5", "31", "100", "4000"], [0] * 4)]
        hows = ["stays", "close", "reset", "extra", "heartbeat"]
        seq = [hows[w.s.choose(hows, [0] * len(hows))] for _ in range(3)]
        srv = BServer(w, A)
        srv.on_frame = lambda cn, f: (srv.mark(f, "ok"), cn.reply(f))
        bw = BlockingWorld(w)
        steps = []

        def between(how):
            def fn():
                for cn in srv.conns[-1:]:
                    {"stays": lambda: None, "close": cn.close, "reset": cn.reset,
                     "extra": lambda: cn.raw(R.response(3, b"nobody asked")), "heartbeat": lambda: cn.raw(R.heartbeat_request(5))}[how]()
                w.s.block(lambda: False, T, "idle")
            return fn
        for i, how in enumerate(seq):
            steps.append(bw.sync("c%d" % i))
            m = bw._plan("idle%d" % i, between(how))
            m.extra["content"] = b"-"
            steps.append(m)
        steps.append(bw.sync("last"))
        bw.start(steps)
        bw.run()
        judge(w, srv, True)
        w.note(T, seq)
    return scenario(name, body, 0, "pauses between calls", netopts=dict(dial_auto=True, auto=True), time_horizon=20000.0)


def foreign_ids(name):
    """A response with a similar id is not this call's."""
    def body(w):
        ids = [lambda r, i=i: r ^ (1 << i) for i in range(31)] + [lambda r: 0, lambda r: 2 ** 31 - 1 - r, lambda r: r + 1,
                                                                  lambda r: r - 1, lambda r: -r, lambda r: r - 2 ** 31]
        k = w.s.choose(["bit%d" % i for i in range(31)] + ["zero", "complement", "next", "previous", "negated", "sign-bit"], [0] * len(ids))
        empty = w.s.choose(["content", "empty", "failure", "failure-empty"], [0] * 4)
        srv = BServer(w, A)

        def on(cn, f):
            rid = ids[k](f.rid)
            if f.content != b"c0" or not -2 ** 31 <= rid < 2 ** 31 or rid == f.rid:
                srv.mark(f, "ok")
                return cn.reply(f)
            srv.mark(f, "foreign")
            cn.raw(R.response(rid, b"" if empty & 1 else b"r:" + f.content, 2 if empty & 2 else 0))
        srv.on_frame = on
        bw = BlockingWorld(w)
        bw.start([bw.sync("c0"), bw.sync("c1")])
        bw.run()
        judge(w, srv, ["c1"])
    return scenario(name, body, 0, "responses with similar ids", netopts=dict(dial_auto=True, auto=True))


def stalled(name):
    """The server stops reading: after k bytes the socket takes no more."""
    def body(w):
        w.net.never_drain = True
        k = w.s.choose(["0", "1", "20", "-1"], [0] * 4)
        w.net.send_policy = lambda sk, data: [("again", 1, 20, len(data) - 1)[k]] if not sk._full else ["again"]
        srv = BServer(w, A)
        bw = BlockingWorld(w)
        bw.start([bw.sync("c0"), bw.sync("c1", timeout_ms=100)])
        bw.run()
        judge(w, srv)
    return scenario(name, body, 1, "the server stops reading", netopts=dict(dial_auto=True, auto=True))


def dials(name, bound):
    """Every dial may be accepted, refused or time out, at any moment."""
    def body(w):
        srv = BServer(w, A)
        srv.on_frame = lambda cn, f: (srv.mark(f, "ok"), cn.reply(f))
        bw = BlockingWorld(w)
        bw.start([bw.sync("c0"), bw.sync("c1")])
        bw.run()
        judge(w, srv)
    return scenario(name, body, bound, "dials refused or timing out",
                    netopts=dict(auto=True, dial_outcomes=("ok", "refuse", "timeout")))


def unreachable(name):
    """Nobody is listening at all, or the dial never ends: a later call after the server came up succeeds."""
    def body(w):
        how = w.s.choose(["refused", "never"], [0, 0])
        if how == 0:
            w.net.refused.add(A)
        else:
            w.net.dial_outcomes = ()
        srv = BServer(w, A)
        srv.on_frame = lambda cn, f: (srv.mark(f, "ok"), cn.reply(f))
        bw = BlockingWorld(w)

        def up():
            w.net.refused.clear()
            w.net.dial_outcomes = ("ok",)
        calls = [bw.sync("c0", timeout_ms=200), bw.sync("c1", timeout_ms=0)]
        mid = bw._plan("up", up)
        mid.extra["content"] = b"-"
        calls += [mid, bw.sync("c2")]
        bw.start(calls)
        bw.run()
        judge(w, srv, ["c2"])
        for c in w.calls[:2]:
            w.check(c.exc is not None, "a call to an unreachable server returned %r" % (c.value,))
    return scenario(name, body, 1, "an unreachable server that comes up later", netopts=dict(auto=True))


def exhaust(name, sizes=(25,)):
    """Many failing calls of one kind, or one among many good ones, then a good one."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        every = w.s.choose(["every", "every-5th"], [0, 0])
        kinds = ["close", "reset", "silent", "status", "foreign", "bad", "refused", "ok"]
        k = kinds[w.s.choose(kinds, [0] * len(kinds))]
        srv = BServer(w, A)

        def on(cn, f):
            if f.content == b"last" or k == "ok" or every and int(f.content[1:]) % 5:
                srv.mark(f, "ok")
                return cn.reply(f)
            srv.mark(f, k)
            {"close": cn.close, "reset": cn.reset, "silent": lambda: None,
             "status": lambda: cn.reply(f, b"", 3),
             "foreign": lambda: cn.raw(R.response(f.rid % (2 ** 31 - 1) + 1, b"zz")),
             "bad": lambda: cn.raw(R.response(f.rid, b"zz", codec=77))}[k]()
        srv.on_frame = on
        if k == "refused":
            every = 0
            w.net.refused.add(A)
        bw = BlockingWorld(w)
        calls = [bw.sync("f%d" % i, timeout_ms=50) for i in range(n)]
        up = bw._plan("up", w.net.refused.clear)
        up.extra["content"] = b"-"
        last = bw.sync("last")
        bw.start(calls + [up, last])
        bw.run()
        good = [c.name for i, c in enumerate(calls) if k == "ok" or every and i % 5]
        judge(w, srv, ["last"] + good)
        for c in calls:
            w.check(c.name in good or c.exc is not None, "call %s returned %r (%s)" % (c.name, c.value, k))
        for c in calls:
            # what a caller that handled the error keeps of it
            c.exc = type(c.exc) if c.exc is not None else None
        ns = len(bw.sockets())
        w.check(ns <= 12, "%d sockets are still open after %d calls (%s)" % (ns, n, k))
        w.note(k, n, every)
    return scenario(name, body, 0, "up to %d failing calls, then a good one" % max(sizes), netopts=dict(dial_auto=True, auto=True),
                    time_horizon=3000.0, horizon=100000)


def crowd(name, sizes):
    """Many threads in calls at once, each to one of several addresses, answered in any of several orders."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        na = [1, 2, 13][w.s.choose(["1 address", "2 addresses", "13 addresses"], [0] * 3)]
        order = w.s.choose(["forward", "backward"], [0, 0])
        addrs = [("10.0.1.%d" % i, 7000 + i) for i in range(na)]
        inbox = []

        def on(srv, cn, f):
            inbox.append((srv, cn, f))
            if len(inbox) == n:
                for s, c, g in (inbox[::-1] if order else inbox):
                    s.mark(g, "ok")
                    c.reply(g)
                del inbox[:]
        srvs = []
        for i, a in enumerate(addrs):
            s = BServer(w, a, name="s%d" % i)
            s.on_frame = lambda cn, f, s=s: on(s, cn, f)
            srvs.append(s)
        bw = BlockingWorld(w, routes=dict(("a%d" % i, a) for i, a in enumerate(addrs)))
        seqs = [[bw.sync("r%d.c%d" % (r, i), interface="a%d" % (i % na), timeout_ms=10 ** 5) for r in range(2)] for i in range(n)]
        bw.start(*seqs)
        bw.run()
        for i, s in enumerate(srvs):
            mine = [c for j, q in enumerate(seqs) if j % na == i for c in q]
            allc, w.calls = w.calls, mine
            judge(w, s, True)
            w.calls = allc
        w.note(n, na, order)
    return scenario(name, body, 0, "up to %d threads, up to 13 addresses" % max(sizes), netopts=dict(dial_auto=True, auto=True),
                    early_env=False, time_horizon=3000.0, horizon=100000)


def threads(name, bound, n=2):
    """Several threads share the client."""
    def body(w):
        srv = MServer(w, A, statuses=(3,), faults=("silent",))
        srv2 = MServer(w, B, statuses=(), faults=(), name="s2")
        bw = BlockingWorld(w)
        seqs = [[bw.sync("c%d" % i, interface="a" if i % 2 == 0 else "b")] for i in range(n)]
        bw.start(*seqs)
        bw.run()
        for c in w.calls:
            f = srv2.fate.get(c.extra["content"])
            if f:
                srv.fate[c.extra["content"]] = f
                srv.frames += [x for x in srv2.frames if x[1].content == c.extra["content"]]
        judge(w, srv, [c.name for c in w.calls if srv.fate.get(c.extra["content"]) == ["ok"]])
    return scenario(name, body, bound, "%d threads share the client" % n, netopts=dict(dial_auto=True, auto=True))


def callers(name, bound, kinds):
    """Threads preempted between any two bytecodes of their calls: each sends its request and gets its answer."""
    def body(w):
        srvs = [BServer(w, A), BServer(w, B, name="s2")]
        for srv in srvs:
            def answer(c, f, srv=srv):
                if f.ptype != R.ONEWAY:
                    srv.mark(f, "ok")
                    c.reply(f)
            srv.on_frame = answer
        bw = BlockingWorld(w)
        bw.trace = True
        seqs = []
        for i, k in enumerate(kinds):
            c = getattr(bw, k[:-1])("c%d" % i, b"%d" % i * (i + 1), interface=k[-1])
            seqs.append([c])
        bw.start(*seqs)
        bw.run()
        frames = [(srv, f) for srv in srvs for _, f in srv.frames]
        for i, k in enumerate(kinds):
            c = w.calls[i]
            w.check(c.ok, lambda: "call %s failed on a healthy connection: %s" % (c.name, short_tb(c.exc) if c.exc else "never ended"))
            if k[:-1] == "sync":
                w.check(c.value == b"r:" + c.extra["content"], lambda: "call %s got %r" % (c.name, c.value))
            mine = [(s, f) for s, f in frames if f.content == c.extra["content"]]
            w.check(len(mine) == 1 and mine[0][0] is srvs["ab".index(k[-1])], lambda: "call %s of interface %s: the servers got %r" % (
                c.name, k[-1], frames))
            f = mine[0][1]
            w.check(f.ptype == (R.ONEWAY if k[:-1] == "oneway" else R.REQUEST), lambda: "call %s: ptype %d" % (c.name, f.ptype))
            h = f.header
            w.check(h.get("sofa_head_target_service") == k[-1] and h.get("sofa_head_method_name") == "m",
                    lambda: "call %s was sent with the headers %r" % (c.name, h))
        w.check(len(frames) == len(kinds), lambda: "the servers got %r" % frames)
        for srv in srvs:
            w.check(not srv.bad(), lambda: srv.bad())
    return scenario(name, body, bound, "calls %s preempted between bytecodes" % (kinds,),
                    netopts=dict(dial_auto=True, auto=True), early_env=False)


def own_deadlines(name, bound, pairs):
    """Threads with different timeouts share the client, nobody answers (or only in time for one): each waits its own time."""
    def body(w):
        ts = pairs[w.s.choose([str(x) for x in pairs], [0] * len(pairs))]
        same = w.s.choose(["one-address", "two-addresses"], [0, 0])
        srvs = [BServer(w, A), BServer(w, B, name="s2")]
        for srv in srvs:
            srv.on_frame = lambda c, f: None
        bw = BlockingWorld(w)
        bw.trace = bound > 0
        bw.start(*[[bw.sync("c%d" % i, timeout_ms=t, interface="ab"[i % 2 * same])] for i, t in enumerate(ts)])
        bw.run()
        for c, t in zip(w.calls, ts):
            w.check(c.ended and c.exc is not None, lambda: "call %r" % c)
            d = c.t1 - c.t0
            w.check(t / 1000.0 - EPS <= d <= t / 1000.0 + GRACE + EPS, lambda: "a call with a timeout of %s ms next to others with %s waited %.3f s" % (t, ts, d))
    return scenario(name, body, bound, "threads with timeouts of their own", netopts=dict(dial_auto=True, auto=True),
                    early_env=False, time_horizon=10000.0)


def late(name, bound):
    """The clock runs against the answer; a late answer never reaches a later call."""
    def body(w):
        srv = MServer(w, A, statuses=(), faults=())
        bw = BlockingWorld(w)
        bw.start([bw.sync("c0", timeout_ms=100), bw.sync("c1", timeout_ms=100), bw.sync("c2", timeout_ms=10.5)])
        bw.run()
        judge(w, srv)
    return scenario(name, body, bound, "answers racing with timeouts", clock_cost=1,
                    netopts=dict(dial_auto=True, auto=True))


def scenarios(tier):
    t = tier == "thorough"
    return [
        history(1, 1, "no-answers", tuple(sorted(WRONG)), ()),
        history(2, 1, "no-answers2", tuple(sorted(WRONG)), ()),
        history(1, 4 if t else 3, "any-answer", splits=half),
        history(3, 4 if t else 3, "history"),
        statuses_("statuses"),
        segmented("segmented", 3 if t else 2),
        cuts("cuts"),
        short_writes("short-writes", 6 if t else 4),
        short_writes("short-writes-any", 2 if t else 1, True),
        stalled("stalled"),
        deadlines("deadlines"),
        dribble("dribble"),
        foreign_ids("foreign-ids"),
        contents("contents"),
        slow_writes("slow-writes"),
        idle("idle"),
        dials("dials", 4 if t else 3),
        unreachable("unreachable"),
        exhaust("exhaust", (25, 110) + ((700,) if t else ())),
        crowd("crowd", (3, 12, 33, 70)),
        threads("threads", 4 if t else 3),
        threads("threads3", 3 if t else 2, 3),
        callers("callers", 2 if t else 1, ["synca", "synca"]),
        callers("callers-two", 2 if t else 1, ["synca", "syncb"]),
        callers("callers-oneway", 2 if t else 1, ["onewaya", "synca"]),
        own_deadlines("own-deadlines", 0, [(100, 5000), (5000, 100), (3000, 60000, 500), (700, 2500, 1600, 4000)]),
        own_deadlines("own-deadlines-races", 2 if t else 1, [(100, 5000), (5000, 100)]),
        late("late", 4 if t else 3),
    ]
