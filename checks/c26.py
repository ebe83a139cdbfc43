"""C26: an async call's callback fires exactly once, only on success, with the content."""
import functools

from mc.aioc import *
from checks.c05 import FServer, INTERNAL


class Boom(Exception):
    pass


def raises():
    import asyncio
    import concurrent.futures as F
    import socket
    import anthunder.exceptions as X
    out = [Boom, ValueError, KeyError, TypeError, AttributeError, IndexError, RuntimeError, StopIteration, StopAsyncIteration,
           OSError, ConnectionResetError, BrokenPipeError, ConnectionRefusedError, EOFError, asyncio.IncompleteReadError, socket.timeout,
           TimeoutError, asyncio.TimeoutError, F.TimeoutError, F.CancelledError, asyncio.InvalidStateError, F.InvalidStateError,
           MemoryError, RecursionError, AssertionError, ImportError, UnicodeError, NotImplementedError, GeneratorExit]
    out += [x for x in vars(X).values() if isinstance(x, type) and issubclass(x, Exception)]
    seen = {}
    for x in out:
        if x.__module__ + x.__name__ not in [y.__module__ + y.__name__ for y in seen.values()]:
            seen["cb:%s" % len(seen)] = x
    res = {}
    for k, x in seen.items():
        def make(msg, x=x):
            for a in ((msg,), (msg, 5), ()):
                try:
                    return x(*a)
                except TypeError:
                    pass
            return x.__new__(x)
        make.of = x
        res[k] = make
    return res


RAISES = {}


class Falsy(object):
    """A callable without a name that is false, has no attributes and equals every other one of its kind."""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __call__(self, v):
        return self.f(v)

    def __len__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Falsy)

    def __hash__(self):
        return 1

    def method(self, *vs):
        return self.f(*vs)


def as_class(f):
    class Made(object):
        def __init__(self, v):
            f(v)
    return Made


SHAPES = {
    "as:partial": lambda cb, l: functools.partial(cb),
    "as:method": lambda cb, l: Falsy(cb).method,
    "as:falsy": lambda cb, l: Falsy(cb),
    "as:builtin": lambda cb, l: l.append,
    "as:class": lambda cb, l: as_class(cb),
    "as:default": lambda cb, l: lambda v=None, *a, **k: cb(v),
    "as:future": lambda cb, l: lambda fut: cb(fut),
}


class CallbackWorld(ClientWorld):
    """Asynchronous calls whose callbacks are recorded."""

    def __init__(self, w, **kw):
        ClientWorld.__init__(self, w, **kw)
        self.fired = {}

    def acall(self, name, how="cb", wait=True, interface="a", auto=True, **kw):
        """how: cb (returns), cb-raise, cb-nested (issues a further call), none (the future only)."""
        content = name.encode()
        c = Call(name)
        c.extra.update(content=content, how=how)
        self.fired[name] = []

        def cb(value):
            self.fired[name].append(value)
            self.s.obs("callback", name, value if isinstance(value, bytes) else type(value).__name__)
            if how == "cb-raise":
                raise Boom("callback of %s" % name)
            if how.startswith("cb:"):
                raise RAISES[how]("callback of %s" % name)
            if how == "cb-nested":
                n = self.client.invoke_async("a", "m", content + b"+", spanctx=self.SpanContext(),
                                             callback=lambda v: self.fired.setdefault(name + "+", []).append(v))
                c.extra["nested"] = n
            return 5

        f = None if how == "none" else SHAPES[how](cb, self.fired[name]) if how.startswith("as:") else cb

        def fn():
            c.future = self.client.invoke_async(interface, "m", content, spanctx=self.SpanContext(), callback=f, **kw)
            if wait:
                return c.future.result().content
        return self._go(name, fn, auto, c)


def judge(w, srv, cw, may_hang=(), cancelled=()):
    for c in w.calls:
        if "how" not in c.extra:
            continue
        content, f = c.extra["content"], c.future
        fate = srv.fate.get(content, [])
        w.check(f is not None, lambda: "invoke_async of %s: %s" % (c.name, short_tb(c.exc) if c.exc else "did not return"))
        w.check(f.done() or fate in (["silent"],) , lambda: "the future of %s is not done (the server did %s)" % (c.name, fate))
        fired = cw.fired[c.name]
        ok = f.done() and not f.cancelled() and f.exception() is None
        w.note(c.name, fate, ok, len(fired))
        if ok:
            w.check("ok" in fate, lambda: "%s succeeded although the server did %s" % (c.name, fate))
            w.check(f.result().content == b"r:" + content, lambda: "the future of %s holds %r" % (c.name, f.result().content))
        else:
            w.check(fate != ["ok"] or c.name in cancelled or any(x.state != "open" for x in srv.conns),
                    lambda: "%s failed although it was answered: %r" % (c.name, f))
            if f.done() and not f.cancelled():
                w.check(not isinstance(f.exception(), INTERNAL), lambda: "%s ended with an internal error: %s"
                        % (c.name, short_tb(f.exception())))
        if c.extra["how"] == "none":
            continue
        want = [b"r:" + content] if ok else []
        w.check(fired == want and all(isinstance(x, bytes) for x in fired), lambda: "the callback of %s was called with %r, expected %r (the server did %s)"
                % (c.name, fired, want, fate))
        if ok and c.extra["how"] == "cb-nested":
            n = c.extra.get("nested")
            nok = srv.fate.get(content + b"+") == ["ok"]
            w.check(n is not None and n.done() and cw.fired.get(c.name + "+", []) == ([b"r:" + content + b"+"] if nok else []),
                    lambda: "the call made by the callback of %s: %r" % (c.name, n))


def plain(hows, name, bound, statuses=(3,), faults=(), conn_faults=(), sync=True, trace=None, auto=False, **opts):
    def body(w):
        srv = FServer(w, A, statuses=statuses, faults=faults, conn_faults=conn_faults)
        cw = CallbackWorld(w)
        cw.trace = trace
        for i, h in enumerate(hows):
            cw.acall("c%d" % i, h)
        s = cw.sync("sync", b"sync", timeout_ms=10 ** 5) if sync else None
        cw.start()
        w.run()
        judge(w, srv, cw)
        if not sync:
            return
        w.check(s.ended, "the synchronous call next to the asynchronous ones never ended")
        if srv.fate.get(b"sync") == ["ok"] and all(c.state == "open" for c in srv.conns):
            w.check(s.ok and s.value == b"r:sync", lambda: "the synchronous call: %s" % (short_tb(s.exc) if s.exc else s.value))
    return scenario(name, body, bound, "%s%s" % (hows, " next to a synchronous call" if sync else ""), netopts=dict(dial_auto=True, auto=auto),
                    time_horizon=1000.0, **opts)


class QServer(FServer):
    """Answers as soon as a frame arrives."""
    def got(self, c, f):
        self.frames.append((c, f))
        self.done.append((c, f))
        self.w.s.obs(self.name, "frame", f.content)
        what = self.answer(f)
        self.mark(f, "ok" if what == "ok" else "error")
        c.reply(f, None if what == "ok" else b"", 0 if what == "ok" else 3)


def early(hows, name, bound, fail=(), **kw):
    """The connection is up and answers come at once: a call may be over before invoke_async returns."""
    def body(w):
        srv = QServer(w, A)
        srv.answer = lambda f: "error" if f.content in fail else "ok"
        cw = CallbackWorld(w)

        def then():
            cw.sync("warm", b"warm", auto=False, timeout_ms=10 ** 5)
            for i, h in enumerate(hows):
                cw.acall("c%d" % i, h, wait=False, auto=False, **kw)
            w.s.quiesce()
        cw.start(then)
        w.run()
        judge(w, srv, cw)
        for c in w.calls:
            w.check(c.ended and (c.exc is None), lambda: "call %s: %s" % (c.name, short_tb(c.exc) if c.exc else "never ended"))
    return scenario(name, body, bound, "%s answered at once" % (hows,), netopts=dict(auto=True), early_env=True)


def contents(name, bound):
    """The callback gets the content whatever it is."""
    def body(w):
        x = R.ODD[w.s.choose(["content%d" % i for i in range(len(R.ODD))], [0] * len(R.ODD))]
        srv = Server(w, A, lambda c, f: [("ok", lambda: c.reply(f, x), 0)])
        cw = CallbackWorld(w)
        for i, h in enumerate(["cb", "cb-raise", "none"]):
            cw.acall("c%d" % i, h)
        cw.start()
        w.run()
        for c in w.calls:
            w.check(c.ok and c.value == x, lambda: "call %s: %r" % (c.name, c))
            w.check(cw.fired[c.name] == ([x] if c.extra["how"] != "none" else []) and all(isinstance(v, bytes) for v in cw.fired[c.name]), lambda: "the callback of %s was called with %r, "
                    "expected %r once" % (c.name, cw.fired[c.name], x[:40]))
        w.note(x[:20], len(x))
    return scenario(name, body, bound, "contents of every shape", netopts=dict(dial_auto=True, auto=True), early_env=False)


def raising(name):
    """Callbacks that raise whatever there is to raise: each is called once, and the next call is none the worse for it."""
    def body(w):
        RAISES.clear()
        RAISES.update(raises())
        hows = sorted(RAISES)
        h = hows[w.s.choose([RAISES[x].of.__name__ for x in hows], [0] * len(hows))]
        srv = QServer(w, A)
        srv.answer = lambda f: "ok"
        cw = CallbackWorld(w)

        def then():
            for i, x in enumerate([h, "cb", h, h, "none", "cb"]):
                cw.acall("c%d" % i, x, wait=False, auto=False)
                if i % 2:
                    w.s.quiesce()
            cw.sync("sync", b"sync", auto=False, timeout_ms=10 ** 5)
            w.s.quiesce()
            w.s.block(lambda: False, 100.0, "later")
        cw.start(then)
        w.run()
        judge(w, srv, cw)
        w.check(w.calls[-1].ok, lambda: "the synchronous call after callbacks that raised: %r" % w.calls[-1])
        w.check(len(srv.conns) == 1, "%d connections" % len(srv.conns))
        w.note(RAISES[h].of.__name__)
    return scenario(name, body, 0, "callbacks that raise exceptions of every kind", netopts=dict(dial_auto=True, auto=True), early_env=False,
                    time_horizon=10.0 ** 4)


def shapes(name):
    """Whatever kind of callable the callback is."""
    def body(w):
        hows = sorted(SHAPES)
        h = hows[w.s.choose(hows, [0] * len(hows))]
        order = w.s.choose(["ok first", "error first"], [0, 0])
        srv = QServer(w, A)
        srv.answer = lambda f: "ok" if (int(f.content[1:]) + order) % 2 == 0 else "error"
        cw = CallbackWorld(w)

        def then():
            for i, x in enumerate([h, h, "cb", h, h]):
                cw.acall("c%d" % i, x, wait=False, auto=False)
                w.s.quiesce()
            w.s.quiesce()
        cw.start(then)
        w.run()
        for i, c in enumerate(w.calls):
            good = (i + order) % 2 == 0
            want = [b"r:" + c.extra["content"]] if good else []
            w.check(cw.fired[c.name] == want, lambda: "the callback (%s) of %s was called with %r, expected %r" % (
                c.extra["how"], c.name, cw.fired[c.name], want))
        w.note(h, order)
    return scenario(name, body, 0, "callbacks that are callables of every kind", netopts=dict(dial_auto=True, auto=True), early_env=False)


def late_added(name, bound):
    """Several callers start calls from one thread without waiting, and look at the futures later."""
    def body(w):
        srv = FServer(w, A, faults=("silent",))
        cw = CallbackWorld(w)

        def then():
            cs = [cw.acall("c%d" % i, h, wait=False, auto=False) for i, h in enumerate(["cb", "none", "cb-raise"])]
            w.s.quiesce()
            for c in cs:
                late = []
                c.extra["late"] = late
                c.future.add_done_callback(late.append)
        cw.start(then)
        w.run()
        judge(w, srv, cw)
        for c in w.calls:
            w.check(len(c.extra["late"]) == (1 if c.future.done() else 0), "a done callback added later fired %d times"
                    % len(c.extra["late"]))
    return scenario(name, body, bound, "calls issued without waiting, done callbacks added afterwards",
                    netopts=dict(dial_auto=True))


def cancel(name, bound, hows=("cb", "cb")):
    """The future is cancelled at any moment."""
    def body(w):
        srv = FServer(w, A, statuses=(3,))
        cw = CallbackWorld(w)
        res = []

        def then():
            cs = [cw.acall("c%d" % i, h, wait=False, auto=False) for i, h in enumerate(hows)]
            w.thread(lambda: res.append(cs[0].future.cancel()), "canceller")
        cw.start(then)
        w.run()
        judge(w, srv, cw, cancelled=("c0",))
        c = w.calls[0]
        w.check(res and (not res[0] or c.future.cancelled()), "cancel() returned %r, the future is %r" % (res, c.future))
        w.check(not c.future.cancelled() or not cw.fired["c0"], "the callback of a cancelled call fired")
    return scenario(name, body, bound, "the first call is cancelled at any moment", netopts=dict(dial_auto=True))


def unreachable(name, bound):
    """Refused and failing dials."""
    def body(w):
        srv = FServer(w, A, statuses=())
        cw = CallbackWorld(w)
        for i, h in enumerate(["cb", "none"]):
            cw.acall("c%d" % i, h)
        cw.start()
        w.run()
        for c in w.calls:
            if not any(f.content == c.extra["content"] for _, f in srv.frames):
                srv.fate[c.extra["content"]] = ["refused"]
        judge(w, srv, cw)
    return scenario(name, body, bound, "each dial may be accepted, refused or time out",
                    netopts=dict(dial_outcomes=("ok", "refuse", "timeout")))


def unencodable(name):
    """A call that cannot be sent: its callback never fires and the others are untouched."""
    def body(w):
        srv = FServer(w, A, statuses=())
        cw = CallbackWorld(w)
        cw.acall("bad", "cb", big="x" * 70000)
        cw.acall("good", "cb")
        cw.start()
        w.run()
        bad = w.calls[0]
        w.check(cw.fired["bad"] == [] and bad.ended and bad.exc is not None, lambda: "the unsendable call: %r, its "
                "callback got %r" % (bad, cw.fired["bad"]))
        w.calls.remove(bad)
        judge(w, srv, cw)
        w.check(w.calls[0].ok, "the good call failed")
    return scenario(name, body, 1, "a call that cannot be encoded", netopts=dict(dial_auto=True))


def many(name, sizes):
    """Many asynchronous calls in flight at once, answered in some order, with success, with an error or not at all."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        order = w.s.choose(["in-order", "reversed", "shuffled"], [0] * 3)
        end = w.s.choose(["answered", "lost"], [0, 0])
        srv = FServer(w, A)
        kept = []
        srv.got = lambda c, f: kept.append((c, f))
        cw = CallbackWorld(w)
        hows = ["cb", "cb-raise", "none", "cb", "cb"]

        def then():
            cs = [cw.acall("c%d" % i, hows[i % 5], wait=False, auto=False) for i in range(n)]
            w.s.quiesce()
            w.check(len(kept) == n, lambda: "%d calls sent %d requests" % (n, len(kept)))
            ks = list(kept)
            if order == 1:
                ks.reverse()
            elif order == 2:
                ks = [ks[i * 7919 % n] for i in range(n)] if n % 7919 else ks
            if end == 1:
                ks, rest = ks[:n // 2], ks[n // 2:]
            for i, (c, f) in enumerate(ks):
                ok = i % 7 != 3
                srv.mark(f, "ok" if ok else "error")
                c.reply(f, b"r:" + f.content if ok else b"", 0 if ok else 3)
            w.s.quiesce()
            if end == 1:
                for c, f in rest:
                    srv.mark(f, "lost")
                kept[0][0].reset()
                w.s.quiesce()
        cw.start(then)
        w.run()
        judge(w, srv, cw)
    return scenario(name, body, 0, "%s asynchronous calls at once" % (sizes,), netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=1000000)


def row(name, n):
    """A long row of asynchronous calls on one client, every outcome in turn, losses in between."""
    def body(w):
        srv = FServer(w, A)
        fates = ["ok", "error", "ok", "ok", "cut", "ok", "error"]

        def got(c, f):
            i = int(f.content[1:])
            what = fates[i % len(fates)]
            srv.mark(f, what if what != "cut" else "lost")
            if what == "cut":
                (c.reset if i % 2 else c.close)()
            else:
                c.reply(f, b"r:" + f.content if what == "ok" else b"", 0 if what == "ok" else 1 + i % 20)
        srv.got = got
        cw = CallbackWorld(w)
        hows = ["cb", "cb", "none", "cb-raise"]

        def then():
            for i in range(n):
                cw.acall("c%d" % i, hows[i % 4], wait=False, auto=False)
                w.s.quiesce()
        cw.start(then)
        w.run()
        judge(w, srv, cw)
    return scenario(name, body, 0, "%d asynchronous calls in a row" % n, netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=1000000)


def scenarios(tier):
    t = tier == "thorough"
    return [
        plain(["cb", "cb-raise"], "outcomes", 3 if t else 2, sync=False,
              faults=("silent", "bad-status", "bad-header", "error-content")),
        plain(["cb-raise"], "beside-sync", 3 if t else 2, faults=("silent",)),
        plain(["cb", "cb-raise", "none"], "three", 1, sync=t),
        plain(["cb-nested"], "nested", 2 if t else 1),
        plain(["cb", "cb-raise"], "lost", 2 if t else 1, statuses=(), sync=t,
              faults=("cut-reset", "cut-close", "ok-close", "ok-reset"), conn_faults=("close", "reset")),
        plain(["cb-raise"] * 3, "all-raise", 1 if t else 0),
        early(["cb"], "early", 3 if t else 2),
        early(["cb", "cb-raise", "none"], "early3", 2 if t else 1, timeout_ms=1000),
        early(["cb", "cb"], "early-failing", 2 if t else 1, fail=(b"c0",)),
        contents("contents", 0),
        raising("raising"),
        shapes("shapes"),
        late_added("late", 2 if t else 1),
        cancel("cancel", 3 if t else 2),
        cancel("cancel3", 2 if t else 1, ("cb", "cb-raise", "none")),
        unreachable("unreachable", 2 if t else 1),
        unencodable("unencodable"),
        many("many", (5, 33, 70, 130, 300, 1030) if t else (5, 33, 70, 130, 260)),
        plain(["cb", "cb"], "callers", 2 if t else 1, sync=False, trace=True, auto=True, early_env=False),
        plain(["cb-raise"], "callers-sync", 2 if t else 1, trace=True, auto=True, early_env=False),
        plain(["cb", "none"], "callers-loop", 2 if t else 1, sync=False, trace=True, auto=True, early_env=False, op_trace=True),
        row("row", 600 if t else 150),
    ]
