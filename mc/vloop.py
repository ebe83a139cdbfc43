"""asyncio event loop with virtual time whose I/O is the in-memory network."""
import asyncio
import asyncio.base_events
import asyncio.events
import collections
import errno
import socket as _socket

from . import sched as S

_RealPolicy = asyncio.DefaultEventLoopPolicy


class _Selector(object):
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        s = S.CUR
        loop = self.loop
        if s is None:
            raise S.HarnessError("event loop runs outside an execution")
        if timeout is not None and timeout <= 0:
            # deliveries may be processed by any poll of the loop
            s.point(loop.vname + ".poll")
            loop._woken = False
            return []
        s.block(lambda: loop._woken, timeout, loop.vname + ".idle")
        loop._woken = False
        return []

    def close(self):
        pass


class VServer(asyncio.AbstractServer):
    def __init__(self, loop, factory, addr):
        self._loop, self._factory, self._addr = loop, factory, addr
        self._open = True
        self._active = 0
        self._waiters = []
        self._serving = True

    def _accept(self, conn):
        """Runs in the environment when a client's dial succeeds."""
        loop = self._loop
        tr = VTransport(loop, None, conn.server, self)
        conn.server.sink = tr
        self._active += 1

        def made():
            proto = self._factory()
            tr._protocol = proto
            proto.connection_made(tr)
            tr._flush_early()
        loop.env_soon(made)

    def _detach(self):
        self._active -= 1
        if self._active == 0 and not self._open:
            self._wake()

    def _wake(self):
        ws, self._waiters = self._waiters, []
        for w in ws:
            if not w.done():
                w.set_result(None)

    def close(self):
        if not self._open:
            return
        self._open = False
        self._serving = False
        S.CUR.net.unlisten(self._addr)
        if self._active == 0:
            self._wake()

    async def wait_closed(self):
        if not self._open and self._active == 0:
            return
        w = self._loop.create_future()
        self._waiters.append(w)
        await w

    def is_serving(self):
        return self._serving

    def get_loop(self):
        return self._loop

    async def start_serving(self):
        self._serving = True

    async def serve_forever(self):
        w = self._loop.create_future()
        try:
            await w
        finally:
            self.close()

    @property
    def sockets(self):
        if not self._open:
            return ()
        a = self._addr

        class _Sock(object):
            def getsockname(self):
                return a
        return (_Sock(),)

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()
        await self.wait_closed()


class VTransport(asyncio.Transport):
    immediate = False

    def __init__(self, loop, protocol, end, server=None):
        super().__init__()
        self._loop, self._protocol, self.end, self._server = loop, protocol, end, server
        self._closing = False
        self._lost = False
        self._lost_scheduled = False
        self._paused_reading = False
        self._tx = bytearray()
        self._blocked = False          # the kernel does not take more bytes
        self._eof = False
        self._early = []
        self._high = 64 * 1024
        self._proto_paused = False
        self.dropped_writes = 0

    # network -> protocol (called as environment actions)
    def on_data(self, data):
        self._soon(lambda: self._data(data))

    def on_eof(self):
        self._soon(self._eof_in)

    def on_rst(self):
        self._soon(self._rst_in)

    def _rst_error(self):
        if self.end.got_eof:
            return BrokenPipeError(errno.EPIPE, "Broken pipe")
        return ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")

    def _rst_in(self):
        """A reset is noticed by whoever reads or waits to write; after the peer's FIN nobody reads any more."""
        if self._blocked:
            self._fatal(self._rst_error())
        elif self.end.got_eof or self._closing:
            pass
        elif self._paused_reading:
            self._early.append(self._rst_in)
        else:
            self._fatal(self._rst_error())

    def _soon(self, fn):
        if self._protocol is None:
            if not self._lost:
                self._early.append(fn)
        else:
            self._loop.env_soon(fn)

    def _flush_early(self):
        fns, self._early = self._early, []
        for f in fns:
            self._loop.env_soon(f)

    def _data(self, data):
        if self._lost_scheduled or self._closing:
            return
        if self._paused_reading:
            self._early.append(lambda: self._data(data))
            return
        self._protocol.data_received(data)

    def _eof_in(self):
        if self._lost_scheduled or self._closing:
            return
        if self._paused_reading:
            self._early.append(self._eof_in)
            return
        keep = self._protocol.eof_received()
        if not keep:
            self.close()

    def _fatal(self, exc):
        if self._lost_scheduled:
            return
        self._closing = True
        self._lose(exc)

    def _lose(self, exc):
        if self._lost_scheduled:
            return
        self._lost_scheduled = True
        del self._tx[:]
        self._unblock_action()
        self._loop.call_soon(self._call_lost, exc)

    def _call_lost(self, exc):
        try:
            self._protocol.connection_lost(exc)
        finally:
            self._lost = True
            self._protocol = None
            self._early = []
            self.end.close()
            if self._server is not None:
                self._server._detach()

    # protocol -> network
    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object, not %r" % type(data).__name__)
        if self._eof:
            raise RuntimeError("Cannot call write() after write_eof()")
        data = bytes(data)
        if not data:
            return
        if self._lost_scheduled or self.end.closed:
            self.dropped_writes += 1
            return
        if self._blocked:
            self._tx += data
            self._check_high()
            return
        if self.end.got_rst:
            self._fatal(self._rst_error())
            return
        net = S.CUR.net
        pol = getattr(net, "write_policy", None)
        k = None
        if pol is not None:
            opts = pol(self, data)
            if opts:
                k = opts[S.CUR.choose(["w%s" % (o,) for o in opts]) if len(opts) > 1 else 0]
        if k is None or k >= len(data):
            self.end.write(data)
        else:
            if k:
                self.end.write(data[:k])
            self._tx += data[k:]
            self._blocked = True
            lab = "%s.drained" % self.end.label
            self._act = (lab, self._resume)
            net.paused.append(self._act)
            self._check_high()

    def writelines(self, lst):
        self.write(b"".join(lst))

    def _check_high(self):
        # virtual high-water mark: any queued byte counts, so that a blocked kernel buffer is visible to drain()
        if self._tx and not self._proto_paused:
            self._proto_paused = True
            self._protocol.pause_writing()

    def _unblock_action(self):
        if self._blocked:
            self._blocked = False
            net = S.CUR.net
            if self._act in net.paused:
                net.paused.remove(self._act)

    def _resume(self):
        self._unblock_action()
        data = bytes(self._tx)
        del self._tx[:]

        def go():
            if self._lost_scheduled:
                return
            if data:
                self.end.write(data)
            if self._tx and not self._blocked:
                d = bytes(self._tx)
                del self._tx[:]
                self.end.write(d)
            if self._proto_paused:
                self._proto_paused = False
                self._protocol.resume_writing()
            if self._eof:
                self.end.write_eof()
            if self._closing:
                self._lose(None)
        self._loop.env_soon(go)

    def close(self):
        if self._closing:
            return
        self._closing = True
        if not self._tx:
            self._lose(None)

    def abort(self):
        self._closing = True
        self._lose(None)               # the socket is closed as usual: what is buffered is lost, the peer sees a FIN

    def is_closing(self):
        return self._closing

    def write_eof(self):
        if self._closing or self._eof:
            return
        self._eof = True
        if not self._tx:
            if self.end.got_rst:
                raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
            self.end.write_eof()

    def can_write_eof(self):
        return True

    def get_write_buffer_size(self):
        return len(self._tx)

    def get_write_buffer_limits(self):
        return (self._high // 4, self._high)

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def pause_reading(self):
        self._paused_reading = True

    def resume_reading(self):
        if self._paused_reading:
            self._paused_reading = False
            fns, self._early = self._early, []
            for f in fns:
                self._loop.call_soon(f)

    def is_reading(self):
        return not self._paused_reading and not self._closing

    def set_protocol(self, p):
        self._protocol = p

    def get_protocol(self):
        return self._protocol

    def get_extra_info(self, name, default=None):
        if name == "peername":
            return ("127.0.0.1", 40000 + self.end.conn.id)
        if name == "sockname":
            return self.end.conn.addr
        return default


class VLoop(asyncio.base_events.BaseEventLoop):
    _count = 0

    def __init__(self):
        super().__init__()
        self._selector = _Selector(self)
        self._woken = False
        self._clock_resolution = 1e-9
        s = S.CUR
        if s is not None:
            loops = s.__dict__.setdefault("loops", [])
            self.vname = "loop%d" % len(loops)
            loops.append(self)
        else:
            self.vname = "loop?"
        self.unhandled = []
        self.set_exception_handler(self._on_unhandled)

    def _on_unhandled(self, loop, context):
        self.unhandled.append(context)

    def time(self):
        s = S.CUR
        return 0.0 if s is None else s.now

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        self._woken = True

    def _make_self_pipe(self):
        pass

    def close(self):
        super().close()

    def env_soon(self, fn):
        """Queue fn on the loop as if the selector had reported an event."""
        if self.is_closed():
            return
        self._ready.append(asyncio.events.Handle(fn, (), self, None))
        self._woken = True

    def call_soon_threadsafe(self, callback, *args, context=None):
        h = super().call_soon_threadsafe(callback, *args, context=context)
        s = S.CUR
        if s is not None:
            s.point("threadsafe")
        return h

    async def getaddrinfo(self, host, port, *, family=0, type=0, proto=0, flags=0):
        return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, "", (host, port))]

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        net = S.CUR.net
        fut = self.create_future()

        def ok(conn):
            def f():
                if fut.cancelled():
                    conn.client.close()
                elif not fut.done():
                    fut.set_result(conn)
            self.env_soon(f)

        def fail(exc):
            self.env_soon(lambda: None if fut.done() else fut.set_exception(exc))
        if host is None and kw.get("sock") is None:
            raise ValueError("host and port was not specified and no sock specified")
        d = net.dial((host, port), ok, fail)
        try:
            conn = await fut
        except asyncio.CancelledError:
            if d in net.dials:
                net.dials.remove(d)
            raise
        protocol = protocol_factory()
        tr = VTransport(self, protocol, conn.client)
        waiter = self.create_future()

        def made():
            protocol.connection_made(tr)
            conn.client.sink = tr
            net.kick(conn.client)
        self.call_soon(made)
        self.call_soon(lambda: None if waiter.cancelled() else waiter.set_result(None))
        try:
            await waiter
        except BaseException:
            tr.close()
            raise
        return tr, protocol

    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        srv = VServer(self, protocol_factory, (host, port))
        reuse = kw.get("reuse_address")
        reuse = True if reuse is None else bool(reuse)
        S.CUR.net.check_bind((host, port), reuse)
        S.CUR.net.listen((host, port), srv._accept, reuse)
        return srv


class VPolicy(_RealPolicy):
    def new_event_loop(self):
        if S.CUR is None:
            return super().new_event_loop()
        return VLoop()
