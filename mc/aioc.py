"""Harness for the asyncio client: scripted servers and observed calls."""
import gc

from . import refcodec as R
from .net import ScriptSink
from .world import *          # noqa
from .world import _safe
from . import sched as S

_scenario = scenario


def scenario(name, body, bound=0, about="", netopts=None, **opts):
    """Scheduling points at the loop's polls, thread-safe hand-overs and every blocking operation."""
    opts.setdefault("lock_points", False)
    return _scenario(name, body, bound, about, netopts, **opts)


A = ("10.0.0.1", 7001)
B = ("10.0.0.2", 7002)
MESH = ("127.0.0.1", 12220)


class SConn(object):
    """One accepted connection of a scripted server."""

    def __init__(self, srv, conn, n):
        self.srv, self.conn, self.n = srv, conn, n
        self.frames = []
        self.state = "open"
        self.bad = None
        self.answered = 0
        self.sink = ScriptSink(conn.server, self._on, self._end)

    def _on(self, sink):
        while True:
            try:
                r = R.parse_one(bytes(sink.buf), "req")
            except Exception as e:
                self.bad = "unparsable bytes from the client: %r" % e
                return
            if r is None:
                return
            f, rest = r
            sink.buf[:] = rest
            e = R.sane_request(f)
            if e and not self.bad:
                self.bad = e
            self.frames.append(f)
            self.srv.got(self, f)

    def _end(self, sink, how):
        if self.state == "open":
            self.state = "client-" + how
            # a real server closes its side in turn
            self.conn.server.close()

    heard = False        # whether the client was sent anything on this connection

    def raw(self, b):
        if self.state == "open":
            self.heard = True
            self.conn.server.write(b)

    def reply(self, f, content=None, status=0):
        self.raw(R.response(f.rid, b"r:" + f.content if content is None else content, status))

    def close(self):
        if self.state == "open":
            self.state = "closed"
            self.conn.server.close()

    def reset(self):
        if self.state == "open":
            self.state = "reset"
            self.conn.server.reset()


class Server(object):
    """menu(conn, frame) -> [(label, fn, cost)]: what the server may do about an unsettled frame."""

    def __init__(self, w, addr=A, menu=None, conn_menu=None, name="s"):
        self.w, self.addr, self.menu, self.conn_menu, self.name = w, addr, menu, conn_menu, name
        self.conns = []
        self.todo = []          # (conn, frame) not settled
        self.frames = []        # (conn, frame)
        self.done = []
        w.net.listen(addr, self._accept)
        w.s.env_sources.append(self.actions)

    def _accept(self, conn):
        c = SConn(self, conn, len(self.conns))
        self.conns.append(c)
        self.w.s.obs(self.name, "accept", c.n)

    def got(self, c, f):
        self.frames.append((c, f))
        self.todo.append((c, f))
        self.w.s.obs(self.name, "frame", c.n, f.content, f.ptype, f.cmdcode)

    def settle(self, c, f):
        self.todo = [x for x in self.todo if x[1] is not f]
        self.done.append((c, f))

    def actions(self):
        out = []
        for c, f in self.todo:
            if c.state != "open":
                continue
            for label, fn, cost in (self.menu or default_menu)(c, f):
                def act(c=c, f=f, fn=fn, label=label):
                    self.settle(c, f)
                    self.w.s.obs(self.name, label, f.content)
                    fn()
                out.append(("%s.%s:%s" % (self.name, label, f.content[:8].decode("latin1")), act, cost))
        if self.conn_menu:
            for c in self.conns:
                if c.state == "open":
                    for label, fn, cost in self.conn_menu(c):
                        def act2(c=c, fn=fn, label=label):
                            self.w.s.obs(self.name, label, c.n)
                            fn()
                        out.append(("%s%d.%s" % (self.name, c.n, label), act2, cost))
        return out

    def bad(self):
        for c in self.conns:
            if c.bad:
                return c.bad
            if c.sink.buf and c.state == "open":
                return "an incomplete frame was left on connection %d: %r" % (c.n, bytes(c.sink.buf[:60]))
        return None


def default_menu(c, f):
    return [("ok", lambda: c.reply(f), 0)]


def half(e):
    """Split points of a flight: inside and at the end of the fixed header, the middle, all but one byte."""
    n = len(e.flight)
    return sorted(set([1, 19, 20, 21, n // 2, n - 1]))


class ClientWorld(object):
    """Creates an AioClient inside the execution and runs calls on it."""
    trace = None         # True: preempt the calling threads between bytecodes

    def __init__(self, w, mesh=False, routes=None, **kw):
        import anthunder
        self.w, self.s = w, w.s
        self.client = None
        self.ready = False
        self.kw = kw
        import mytracer
        self.SpanContext = mytracer.SpanContext
        self.anthunder = anthunder
        for k, v in (routes or {"a": A, "b": B}).items():
            anthunder.SERVICE_MAP[k] = v
        if mesh:
            from . import http
            w.s.http = lambda rec: http.OK
        self.starters = []

    def make(self):
        self.client = self.anthunder.AioClient("app", **self.kw)

    def start(self, then=None):
        """Spawn the main thread: creates the client, lets it settle, then starts the calls."""
        def main():
            def prep():
                self.make()
                self.s.quiesce()
            self.w.setup(prep)
            self.ready = True
            for f in self.starters:
                f()
            if then:
                then()
        return self.w.thread(main, "main", False if self.trace else None)

    def sync(self, name, content, interface="a", method="m", timeout_ms=10 ** 6, auto=True, **kw):
        def fn():
            return self.client.invoke_sync(interface, method, content, spanctx=self.SpanContext(),
                                           timeout_ms=timeout_ms, **kw)
        return self._go(name, fn, auto)

    def future(self, name, content, interface="a", method="m", auto=True, cb=None, **kw):
        c = Call(name)

        def fn():
            c.future = self.client.invoke_async(interface, method, content, spanctx=self.SpanContext(),
                                                callback=cb, **kw)
            r = c.future.result()
            return r.content
        return self._go(name, fn, auto, c)

    def oneway(self, name, content, interface="a", method="m", auto=True, **kw):
        def fn():
            return self.client.invoke_oneway(interface, method, content, spanctx=self.SpanContext(), **kw)
        return self._go(name, fn, auto)

    def _go(self, name, fn, auto, c=None):
        c = c or Call(name)
        self.w.calls.append(c)

        def spawn():
            c.thread = self.s.spawn(lambda: self.w.perform(c, fn), name, self.trace)
        if auto:
            self.starters.append(spawn)
        else:
            # run in the calling thread
            self.w.perform(c, fn)
        return c

    # -- what is left of past calls
    def tasks(self):
        import asyncio
        out = []
        for l in getattr(self.s, "loops", []):
            for t in asyncio.all_tasks(l):
                out.append(t)
        return out

    def packages(self):
        from anthunder.protocol._package_base import BoltPackage
        gc.collect()
        return [o for o in gc.get_objects() if isinstance(o, BoltPackage)]

    def weight(self):
        """Number of entries in all containers reachable from the client, not through the event loop."""
        import asyncio
        import threading
        import types
        seen, n = set(), 0
        stack = [self.client]
        sizes = {}
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (type, types.ModuleType, types.FunctionType, types.CodeType, types.FrameType,
                              types.BuiltinFunctionType, asyncio.AbstractEventLoop, S.VThread, S.Sched, str, bytes,
                              int, float)):
                continue
            if getattr(type(o), "__module__", "").startswith(("mc.", "requests", "urllib3", "logging")):
                continue
            if isinstance(o, dict):
                n += len(o)
                sizes[id(o)] = len(o)
                stack.extend(o.values())
                stack.extend(o.keys())
            elif isinstance(o, (list, set, tuple, frozenset)):
                if not isinstance(o, (tuple, frozenset)):
                    n += len(o)
                stack.extend(o)
            else:
                # attributes do not count (asyncio creates some lazily), only what containers hold
                try:
                    if hasattr(o, "__len__"):
                        n += len(o)
                except Exception:
                    pass
                d = getattr(o, "__dict__", None)
                if isinstance(d, dict):
                    stack.extend(d.values())
                stack.extend(r for r in gc.get_referents(o) if not isinstance(r, (type, types.ModuleType))
                             and r is not d)
        return n
