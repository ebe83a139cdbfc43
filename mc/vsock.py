"""Blocking sockets, selectors, select() and poll() on the in-memory network.

`socket.socket` is replaced by FakeSocket and the selector classes by FakeSelector while a check runs; every call
that may block becomes a scheduling point, and how many bytes a send accepts is a choice of the explorer
(`net.send_policy`).
"""
import errno
import io
import os
import select as _select
import selectors as _selectors
import socket as _socket
import socketserver as _socketserver

from . import sched as S

_RealSocket = _socket.socket
_real_makefile = _RealSocket.makefile


def _net():
    s = S.CUR
    if s is None:
        raise S.HarnessError("socket used outside an execution")
    return s.net


def _err(cls, no):
    return cls(no, os.strerror(no))


class FakeSocket(object):
    immediate = False

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None, _end=None):
        net = _net()
        self.family = _socket.AF_INET if family == -1 else family
        self.type = _socket.SOCK_STREAM if type == -1 else type
        self.proto = 0 if proto == -1 else proto
        self._io_refs = 0
        self._closed = False
        self._gone = False
        self._timeout = _socket.getdefaulttimeout()
        fds = net.__dict__.setdefault("fds", {})
        n = net.__dict__.get("next_fd", 100000)
        net.next_fd = n + 1
        self._fd = n
        fds[n] = self
        self._net = net
        self._end = _end
        self._rx = bytearray()
        self._rx_eof = self._rx_rst = self._rx_fin = False
        self._so_error = 0
        self._state = "connected" if _end is not None else "new"
        self._full = False
        self._full_act = None
        self._backlog = None
        self._addr = None
        self._rd_shut = False
        self._reuse = False
        if _end is not None:
            _end.sink = self

    # ---- sink
    def on_data(self, data):
        self._rx += data

    def on_eof(self):
        self._rx_eof = True

    def on_rst(self):
        self._rx_rst = True
        # after the peer's FIN a reset is reported to writers only, as EPIPE (tcp_reset() in CLOSE_WAIT)
        self._rx_fin = self._rx_eof
        self._so_error = errno.EPIPE if self._rx_eof else errno.ECONNRESET
        self._rx_eof = True
        if self._net.rst_drops_rx:
            del self._rx[:]
        self._unfull()

    # ---- readiness
    def _readable(self):
        if self._gone:
            return True
        if self._backlog is not None:
            return bool(self._backlog)
        return bool(self._rx or self._rx_eof or self._so_error or self._rd_shut or self._state == "new"
                    or self._state == "failed")

    def _writable(self):
        if self._gone:
            return True
        if self._backlog is not None:
            return False
        if self._state == "connecting":
            return False
        if self._state in ("new", "failed") or self._so_error or self._rx_rst:
            return True
        return not self._full

    # ---- helpers
    def _pt(self, what):
        s = S.CUR
        if s is not None:
            s.point("sock." + what)

    def _check(self):
        if self._gone:
            raise _err(OSError, errno.EBADF)

    def _wait(self, pred, what):
        """Returns False when the operation would block on a non-blocking socket."""
        if pred():
            return True
        if self._timeout == 0:
            return False
        if not S.CUR.block(pred, self._timeout, "sock." + what):
            raise _socket.timeout("timed out")
        return True

    def _would_block(self):
        raise _err(BlockingIOError, errno.EAGAIN)

    # ---- configuration
    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def getblocking(self):
        return self._timeout != 0

    def settimeout(self, t):
        if t is not None and t < 0:
            raise ValueError("Timeout value out of range")
        self._timeout = None if t is None else float(t)

    def gettimeout(self):
        return self._timeout

    timeout = property(gettimeout)

    def setsockopt(self, level, opt, value=None, *a):
        self._check()
        if (level, opt) == (_socket.SOL_SOCKET, _socket.SO_REUSEADDR):
            self._reuse = bool(value)

    def getsockopt(self, level, opt, buflen=0):
        if level == _socket.SOL_SOCKET and opt == _socket.SO_ERROR:
            e, self._so_error = self._so_error, 0
            return e
        if level == _socket.SOL_SOCKET and opt == _socket.SO_TYPE:
            return int(self.type)
        return 0

    def set_inheritable(self, f):
        pass

    def get_inheritable(self):
        return False

    def fileno(self):
        return -1 if self._gone else self._fd

    def getsockname(self):
        if self._addr:
            return self._addr
        if self._end is not None:
            return ("127.0.0.1", 40000 + self._end.conn.id) if self._end.side == "c" else self._end.conn.addr
        return ("0.0.0.0", 0)

    def getpeername(self):
        if self._state != "connected":
            raise _err(OSError, errno.ENOTCONN)
        return ("127.0.0.1", 40000 + self._end.conn.id) if self._end.side == "s" else self._end.conn.addr

    # ---- connecting
    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno
        return 0

    def connect(self, addr):
        self._check()
        if self._state == "connected":
            raise _err(OSError, errno.EISCONN)
        if self._state == "connecting":
            raise _err(BlockingIOError, errno.EALREADY)
        self._state = "connecting"

        def ok(conn):
            if self._gone:
                conn.client.close()
                return
            self._end = conn.client
            self._state = "connected"
            conn.client.sink = self
            self._net.kick(conn.client)

        def fail(exc):
            self._state = "failed"
            self._so_error = exc.errno or errno.ECONNREFUSED
            self._rx_eof = True
        self._net.dial(addr, ok, fail)
        if self._state == "connecting":
            if self._timeout == 0:
                raise _err(BlockingIOError, errno.EINPROGRESS)
            self._wait(lambda: self._state != "connecting", "connect")
        if self._state == "failed":
            e, self._so_error = self._so_error, 0
            raise _err(OSError, e)

    # ---- listening
    def bind(self, addr):
        self._check()
        self._net.check_bind(addr, self._reuse)
        self._addr = (addr[0], addr[1])

    def listen(self, backlog=5):
        if self._backlog is None:
            self._backlog = []
            self._net.listen(self._addr, self._backlog.append, self._reuse)

    def accept(self):
        self._check()
        self._pt("accept")
        if not self._wait(lambda: bool(self._backlog) or self._gone, "accept"):
            self._would_block()
        self._check()
        conn = self._backlog.pop(0)
        sk = FakeSocket(_end=conn.server)
        self._net.kick(conn.server)
        return sk, ("127.0.0.1", 40000 + conn.id)

    # ---- data
    def _send_error(self):
        if self._so_error:
            e, self._so_error = self._so_error, 0
            raise _err(OSError, e)
        if self._state in ("new", "failed") or self._rx_rst or (self._end is not None and self._end.wrote_eof):
            raise _err(BrokenPipeError, errno.EPIPE)

    def send(self, data, flags=0):
        if flags & _socket.MSG_DONTWAIT and not self._writable():
            self._check()
            raise _err(BlockingIOError, errno.EAGAIN)
        self._check()
        self._pt("send")
        self._check()
        data = bytes(data)
        if self._state == "connecting":
            if not self._wait(self._writable, "send"):
                self._would_block()
        self._send_error()
        if not data:
            return 0
        if not self._wait(self._writable, "send"):
            self._would_block()
        self._check()
        self._send_error()
        pol = self._net.send_policy
        k = len(data)
        if pol is not None:
            opts = pol(self, data)
            if opts:
                i = S.CUR.choose(["send%s" % (o,) for o in opts]) if len(opts) > 1 else 0
                k = opts[i]
        if k == "again":
            self._fill()
            if self._timeout == 0:
                self._would_block()
            self._wait(self._writable, "send")
            self._send_error()
            k = len(data)
        k = min(k, len(data))
        if k:
            self._end.write(data[:k])
        if k < len(data):
            self._fill()
        return k

    def _fill(self):
        if not self._full:
            self._full = True
            self._full_act = ("fd%d.drained" % self._fd, self._unfull)
            self._net.paused.append(self._full_act)

    def _unfull(self):
        if self._full:
            self._full = False
            if self._full_act in self._net.paused:
                self._net.paused.remove(self._full_act)

    def sendall(self, data, flags=0):
        data = bytes(memoryview(data).cast("B")) if not isinstance(data, bytes) else data
        off = 0
        end = None if not self._timeout else S.CUR.now + self._timeout
        while True:
            n = self.send(data[off:])
            off += n
            if off >= len(data):
                return None
            if end is not None and S.CUR.now >= end:
                raise _socket.timeout("timed out")

    def sendmsg(self, bufs, *a):
        return self.send(b"".join(bytes(b) for b in bufs))

    def recv(self, n, flags=0):
        if flags & _socket.MSG_DONTWAIT and not self._readable():
            self._check()
            raise _err(BlockingIOError, errno.EAGAIN)
        if flags & _socket.MSG_WAITALL and self._timeout != 0 and not flags & _socket.MSG_DONTWAIT:
            got = self._recv(n, flags)
            while got and len(got) < n:
                try:
                    more = self._recv(n - len(got), flags)
                except OSError:
                    break
                if not more:
                    break
                got += more
            return got
        return self._recv(n, flags)

    def _recv(self, n, flags):
        self._check()
        self._pt("recv")
        self._check()
        if self._state == "connecting":
            if not self._wait(self._readable, "recv"):
                self._would_block()
        if self._state == "new":
            raise _err(OSError, errno.ENOTCONN)
        if not self._wait(self._readable, "recv"):
            self._would_block()
        self._check()
        if self._rx:
            k = n
            pol = self._net.recv_policy
            if pol is not None:
                opts = pol(self, min(n, len(self._rx)))
                if opts:
                    i = S.CUR.choose(["recv%s" % (o,) for o in opts]) if len(opts) > 1 else 0
                    k = min(n, opts[i])
            data = bytes(self._rx[:k])
            if not flags & _socket.MSG_PEEK:
                del self._rx[:k]
            return data
        if self._so_error and not self._rx_fin:
            e, self._so_error = self._so_error, 0
            raise _err(OSError, e)
        return b""

    def recv_into(self, buf, nbytes=0, flags=0):
        m = memoryview(buf).cast("B")
        d = self.recv(nbytes or len(m), flags)
        m[:len(d)] = d
        return len(d)

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), None

    # ---- closing
    def shutdown(self, how):
        self._check()
        if self._state != "connected" or self._rx_rst or (self._rx_eof and self._end.wrote_eof):
            raise _err(OSError, errno.ENOTCONN)
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
            self._end.write_eof()
        if how in (_socket.SHUT_RD, _socket.SHUT_RDWR):
            self._rd_shut = True

    def _real_close(self):
        if self._gone:
            return
        self._gone = True
        net = self._net
        net.fds.pop(self._fd, None)
        self._unfull()
        if self._backlog is not None:
            net.unlisten(self._addr)
            for c in self._backlog:
                c.server.reset()
        if self._end is not None:
            if self._rx and net.rst_on_unread:
                self._end.reset()
            self._end.close()

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def close(self):
        self._closed = True
        if self._io_refs <= 0:
            self._real_close()

    def detach(self):
        fd = self._fd
        self._gone = True
        return fd

    makefile = _real_makefile

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            if not self._gone:
                self._real_close()
        except BaseException:
            pass

    def __repr__(self):
        return "<FakeSocket fd=%d %s>" % (self._fd, self._state)


def _fd_of(fileobj):
    if isinstance(fileobj, int):
        fd = fileobj
    else:
        try:
            fd = int(fileobj.fileno())
        except (AttributeError, TypeError, ValueError):
            raise ValueError("Invalid file object: {!r}".format(fileobj)) from None
    if fd < 0:
        raise ValueError("Invalid file descriptor: {}".format(fd))
    return fd


class FakeSelector(object):
    def __init__(self):
        _net()
        self._keys = {}
        self._closed = False

    def register(self, fileobj, events, data=None):
        if self._closed:
            raise ValueError("I/O operation on closed epoll object")
        if not events or events & ~3:
            raise ValueError("Invalid events: {!r}".format(events))
        fd = _fd_of(fileobj)
        if fd in self._keys:
            raise KeyError("{!r} (FD {}) is already registered".format(fileobj, fd))
        if fd not in _net().__dict__.get("fds", {}):
            raise _err(OSError, errno.EBADF)
        k = _selectors.SelectorKey(fileobj, fd, events, data)
        self._keys[fd] = k
        return k

    def unregister(self, fileobj):
        for fd, k in self._keys.items():
            if k.fileobj is fileobj or fileobj == fd:
                return self._keys.pop(fd)
        raise KeyError("{!r} is not registered".format(fileobj))

    def modify(self, fileobj, events, data=None):
        k = self.unregister(fileobj)
        return self.register(k.fileobj, events, data)

    def _ready(self):
        out = []
        fds = _net().__dict__.get("fds", {})
        for fd, k in self._keys.items():
            sk = fds.get(fd)
            if sk is None:
                continue
            ev = 0
            if k.events & 1 and sk._readable():
                ev |= 1
            if k.events & 2 and sk._writable():
                ev |= 2
            if sk._so_error or sk._state in ("failed", "new") and sk._backlog is None:
                ev |= k.events
            if ev:
                out.append((k, ev))
        return out

    def select(self, timeout=None):
        s = S.CUR
        if self._closed:
            raise ValueError("I/O operation on closed epoll object")
        if timeout is not None and timeout <= 0:
            s.point("select0")
            return self._ready()
        s.block(lambda: bool(self._ready()), timeout, "select")
        return self._ready()

    def close(self):
        self._keys = {}
        self._closed = True

    def get_key(self, fileobj):
        for k in self._keys.values():
            if k.fileobj is fileobj:
                return k
        raise KeyError(fileobj)

    def get_map(self):
        return dict((k.fileobj, k) for k in self._keys.values())

    def fileno(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakePoll(object):
    def __init__(self, *a, **k):
        self._fds = {}

    def register(self, fd, mask=5):
        self._fds[_fd_of(fd)] = mask

    def modify(self, fd, mask):
        self._fds[_fd_of(fd)] = mask

    def unregister(self, fd):
        del self._fds[_fd_of(fd)]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _ready(self):
        out = []
        fds = _net().__dict__.get("fds", {})
        for fd, m in self._fds.items():
            sk = fds.get(fd)
            ev = 0
            if sk is None:
                ev = 32
            else:
                if m & 1 and sk._readable():
                    ev |= 1
                if m & 4 and sk._writable():
                    ev |= 4
                if sk._so_error or sk._state in ("failed", "new") and sk._backlog is None:
                    ev |= 8
            if ev:
                out.append((fd, ev))
        return out

    def poll(self, timeout=None, maxevents=-1, _scale=1000.0):
        s = S.CUR
        if timeout is not None and timeout < 0:
            timeout = None
        if timeout == 0:
            s.point("poll0")
        else:
            s.block(lambda: bool(self._ready()), None if timeout is None else timeout / _scale, "poll")
        return self._ready()


class FakeEpoll(FakePoll):
    def poll(self, timeout=None, maxevents=-1):
        return FakePoll.poll(self, timeout, maxevents, 1.0)


def fake_select(rl, wl, xl, timeout=None):
    if timeout is not None and timeout < 0:
        raise ValueError("timeout must be non-negative")
    fds = _net().__dict__.get("fds", {})

    def get(f):
        fd = _fd_of(f)
        if fd not in fds:
            raise _err(OSError, errno.EBADF)
        return f, fds[fd]
    rl, wl = [get(f) for f in rl], [get(f) for f in wl]      # asked for once, before waiting

    def failed(sk):
        return sk._so_error or sk._state in ("failed", "new") and sk._backlog is None

    def ready():
        return ([f for f, sk in rl if sk._readable() or failed(sk)], [f for f, sk in wl if sk._writable() or failed(sk)], [])
    s = S.CUR
    ready()
    if timeout == 0:
        s.point("select0")
    else:
        s.block(lambda: any(ready()), timeout, "select")
    return ready()


_real_gai = _socket.getaddrinfo


def fake_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    if S.CUR is None:
        return _real_gai(host, port, family, type, proto, flags)
    return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, "", (host, int(port or 0)))]


def install():
    _socket.socket = FakeSocket
    _socket.SocketType = FakeSocket
    _socket.getaddrinfo = fake_getaddrinfo
    _socket.gethostbyname = lambda h: "127.0.0.1" if h in ("localhost", "") else "10.1.2.3"
    _socket.gethostname = lambda: "testhost"
    _socket.getfqdn = lambda name="": name or "testhost"
    for n in ("DefaultSelector", "EpollSelector", "PollSelector", "SelectSelector", "DevpollSelector",
              "KqueueSelector"):
        if hasattr(_selectors, n):
            setattr(_selectors, n, FakeSelector)
    _socketserver._ServerSelector = FakeSelector
    _select.select = fake_select
    _select.poll = FakePoll
    _select.epoll = FakeEpoll
