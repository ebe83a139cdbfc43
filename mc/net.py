"""In-memory network shared by the virtual asyncio loop (vloop), the fake sockets (vsock) and scripted peers.

A connection has two ends.  Bytes written by one end are in flight until the environment delivers them to the other
(scripted ends receive at once).  Every delivery, dial completion, end of stream, reset and buffer release is an
environment action of the scheduler.
"""
import errno

from . import sched as S


TIME_WAIT = 60.0


class End(object):
    """One end of a connection."""

    def __init__(self, net, conn, side):
        self.net, self.conn, self.side = net, conn, side
        self.peer = None
        self.flight = bytearray()      # on its way to this end
        self.flight_eof = False        # FIN on its way
        self.flight_rst = False        # RST on its way
        self.got_eof = False
        self.got_rst = False
        self.closed = False            # this end was closed by its owner
        self.wrote_eof = False
        self.sink = None               # on_data(bytes), on_eof(), on_rst(); .immediate
        self.sent = bytearray()        # everything this end ever put on the wire
        self.received = 0
        self.hold = False              # scripted: deliveries to this end withheld
        self.nchunk = 0
        self.waits_until = 0.0

    @property
    def label(self):
        return "c%d.%s" % (self.conn.id, self.side)

    # -- owner side --
    def write(self, data):
        if self.closed or self.wrote_eof:
            return
        data = bytes(data)
        self.sent += data
        p = self.peer
        if p.closed:
            if not self.got_rst:
                self.flight_rst = True
                self.net.kick(self)
            return
        p.flight += data
        self.net.kick(p)

    def write_eof(self):
        if self.wrote_eof or self.closed:
            return
        self.wrote_eof = True
        self.peer.flight_eof = True
        self.net.kick(self.peer)

    def close(self):
        if self.closed:
            return
        unread = bool(self.flight)
        self.closed = True
        if not self.got_eof and not self.got_rst and not (unread and self.net.rst_on_unread):
            self.waits_until = self.net.s.now + TIME_WAIT      # whoever closes first keeps the address for a while
        if not self.wrote_eof:
            self.wrote_eof = True
            self.peer.flight_eof = True
        if unread and self.net.rst_on_unread:
            self.peer.flight_rst = True
        self.net.kick(self.peer)

    def reset(self):
        """Abortive close: the peer sees a reset; undelivered bytes are lost."""
        if self.closed:
            return
        self.closed = True
        self.wrote_eof = True
        self.peer.flight_rst = True
        del self.peer.flight[:]
        self.net.kick(self.peer)

    # -- delivery --
    def pending(self):
        return (self.flight or (self.flight_eof and not self.got_eof) or self.flight_rst) and not self.closed \
            and not self.got_rst and self.sink is not None

    def deliver(self, n=None):
        if self.flight:
            if n is None or n >= len(self.flight):
                data = bytes(self.flight)
                del self.flight[:]
            else:
                data = bytes(self.flight[:n])
                del self.flight[:n]
            self.received += len(data)
            self.nchunk += 1
            self.sink.on_data(data)
        elif self.flight_rst:
            self.got_rst = True
            self.sink.on_rst()
        elif self.flight_eof and not self.got_eof:
            self.got_eof = True
            self.sink.on_eof()

    def ready_for_data(self):
        return True


class Conn(object):
    def __init__(self, net, id, addr):
        self.id, self.addr = id, addr
        self.client = End(net, self, "c")
        self.server = End(net, self, "s")
        self.client.peer, self.server.peer = self.server, self.client
        self.reuse = None              # SO_REUSEADDR of the listening socket (None: a scripted server)


class Dial(object):
    def __init__(self, addr, ok, fail, id):
        self.addr, self.ok, self.fail, self.id = addr, ok, fail, id
        self.done = False


class Net(object):
    def __init__(self, sched, auto=False, splits=None, dial_outcomes=("ok",), dial_auto=False):
        self.s = sched
        self.conns = []
        self.dials = []
        self.ndials = 0
        self.listeners = {}            # (host, port) -> acceptor(conn)
        self.auto = auto               # deliver bytes at once
        self.dial_auto = dial_auto
        self.splits = splits           # function(end) -> list of prefix sizes offered as partial deliveries
        self.dial_outcomes = dial_outcomes
        self.rst_on_unread = False
        self.rst_drops_rx = False
        self.send_policy = None        # vsock: how much a send accepts
        self.recv_policy = None
        self.never_drain = False       # a full socket buffer stays full (until this is unset)
        self.broken = None             # an exception of a scripted peer
        self.paused = []               # (end label, resume function)
        self.refused = set()           # addresses that refuse
        self.silent = set()            # addresses that never react to a dial
        self.dial_log = []
        sched.env_sources.append(self.actions)
        sched.net = self

    # -- listening / dialling --
    @staticmethod
    def _key(addr):
        return (str(addr[0]), int(addr[1]))

    def check_bind(self, addr, reuse):
        """An address is taken by a listening socket, and, unless both sides allow its reuse, by the connections accepted
        there that are open or in TIME_WAIT."""
        k = self._key(addr)
        busy = k in self.listeners
        for c in self.conns:
            e = c.server
            if c.addr == k and c.reuse is not None and not (reuse and c.reuse) and not e.got_rst and (
                    not e.closed or e.waits_until > self.s.now):
                busy = True
        if busy:
            raise OSError(errno.EADDRINUSE, "Address already in use")

    def listen(self, addr, acceptor, reuse=None):
        k = self._key(addr)
        if k in self.listeners:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        if reuse is not None:
            def acceptor(conn, take=acceptor):
                conn.reuse = reuse
                take(conn)
        self.listeners[k] = acceptor

    def unlisten(self, addr):
        self.listeners.pop(self._key(addr), None)

    def acceptor_for(self, addr):
        k = self._key(addr)
        a = self.listeners.get(k)
        if a is None:
            for h in ("0.0.0.0", "", "None"):
                a = self.listeners.get((h, k[1]))
                if a:
                    break
        if a is None and k[0] == "localhost":
            a = self.listeners.get(("127.0.0.1", k[1]))
        return a

    def new_conn(self, addr):
        c = Conn(self, len(self.conns), self._key(addr))
        self.conns.append(c)
        return c

    def dial(self, addr, ok, fail):
        """ok(conn) / fail(exc) are called when the environment decides."""
        d = Dial(self._key(addr), ok, fail, self.ndials)
        self.ndials += 1
        self.dial_log.append(d.addr)
        if self.dial_auto and d.addr not in self.silent:
            self._finish_dial(d, "ok")
        else:
            self.dials.append(d)
        return d

    def _finish_dial(self, d, how):
        d.done = True
        if d in self.dials:
            self.dials.remove(d)
        acc = self.acceptor_for(d.addr)
        if how == "ok" and acc is not None and d.addr not in self.refused:
            c = self.new_conn(d.addr)
            acc(c)
            d.ok(c)
        elif how == "timeout":
            d.fail(TimeoutError(errno.ETIMEDOUT, "Connect call failed"))
        else:
            d.fail(ConnectionRefusedError(errno.ECONNREFUSED, "Connect call failed %r" % (d.addr,)))

    # -- environment --
    def kick(self, end):
        if end.sink is None:
            return
        if self.auto or end.sink.immediate:
            while end.pending():
                end.deliver()

    def actions(self):
        out = []
        for d in list(self.dials):
            if d.addr in self.silent:
                continue
            for i, how in enumerate(self.dial_outcomes):
                out.append(("dial%d:%s" % (d.id, how), (lambda d=d, how=how: self._finish_dial(d, how)),
                            0 if i == 0 else 1))
        for c in self.conns:
            for e in (c.client, c.server):
                if e.pending() and not e.hold and not e.sink.immediate and e.ready_for_data():
                    out.append(("%s<-all" % e.label, e.deliver, 0))
                    if e.flight and self.splits:
                        for n in self.splits(e):
                            if 0 < n < len(e.flight):
                                out.append(("%s<-%d" % (e.label, n), (lambda e=e, n=n: e.deliver(n)), 1))
        if not self.never_drain:
            for lab, fn in list(self.paused):
                out.append((lab, fn, 0))
        return out


class ScriptSink(object):
    """A peer written by the harness: receives bytes at once, keeps them in .buf, and may react."""
    immediate = True

    def __init__(self, end, on_bytes=None, on_end=None):
        self.end = end
        end.sink = self
        self.buf = bytearray()
        self.eof = False
        self.rst = False
        self._on_bytes, self._on_end = on_bytes, on_end

    def _call(self, fn, *args):
        # runs inside a write of the code under test, which may swallow what a broken script raises
        try:
            fn(*args)
        except Exception as e:
            net = self.end.conn.net
            if net.broken is None:
                net.broken = e
            raise

    def on_data(self, data):
        self.buf += data
        if self._on_bytes:
            self._call(self._on_bytes, self)

    def on_eof(self):
        self.eof = True
        if self._on_end:
            self._call(self._on_end, self, "eof")

    def on_rst(self):
        self.rst = True
        if self._on_end:
            self._call(self._on_end, self, "rst")
