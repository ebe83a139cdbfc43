"""C28: socket connections read exactly, write completely and notice a dead peer."""
from mc.aioc import *
from mc.aioc import _scenario

MSG = b"abcdefgh"


class Peer(object):
    """The other side: a scripted list of steps, each an environment action in its order."""

    def __init__(self, w, steps, addr=A):
        self.w, self.steps, self.conns = w, list(steps), []
        self.rx = bytearray()
        self.ended = None
        w.net.listen(addr, self.accept)
        w.s.env_sources.append(self.actions)

    def accept(self, conn):
        self.conns.append(conn)
        self.sink = ScriptSink(conn.server, self._on, self._end)

    def _on(self, sink):
        self.rx += sink.buf
        del sink.buf[:]

    def _end(self, sink, how):
        self.ended = how

    def actions(self):
        if not self.steps or not self.conns:
            return []
        st = self.steps[0]

        def act():
            self.steps.pop(0)
            e = self.conns[0].server
            if st == "close":
                e.close()
            elif st == "reset":
                e.reset()
            elif callable(st):
                st()
            else:
                e.write(st)
        return [("peer.%s" % (st if not callable(st) else "act",), act, 0)]


def conn(w, blocking=False):
    import mysockpool
    K = mysockpool.SocketConnection.PoolKeyCls
    return mysockpool.SocketConnection(K(*A), blocking=blocking) if blocking else mysockpool.SocketConnection(K(*A))


def scenario(name, body, bound=0, about="", netopts=None, **opts):
    opts.setdefault("lock_points", False)
    return _scenario(name, body, bound, about, netopts, **opts)


def allocs(k):
    """What happens to the stream after k bytes of it."""
    return [None, "close", "reset"]


def reading(sizes, name, bound, blocking=False):
    """The stream arrives in any segmentation and ends at any offset."""
    def body(w):
        n = w.s.choose(["@%d" % i for i in range(len(MSG) + 1)], [0] * (len(MSG) + 1))
        how = [None, "close", "reset"][w.s.choose(["open", "close", "reset"], [0, 0, 0])]
        w.unfinished = how is None
        p = Peer(w, [MSG[:n]] * (n > 0) + ([how] if how else []))
        w.net.recv_policy = lambda sk, k: list(range(k, 0, -1))
        w.net.splits = lambda e: range(1, len(e.flight)) if e.side == "c" else ()
        got = []

        def reader():
            c = conn(w, blocking)
            w.s.c = c
            for s in sizes:
                try:
                    got.append((s, c.recvexactly(s)))
                except OSError as e:
                    got.append((s, e))
                    return
                except EOFError as e:
                    got.append((s, e))
                    return
                except Exception as e:
                    got.append((s, e))
                    return
        t = w.thread(reader, "reader")
        r = w.run()
        off = 0
        for s, v in got:
            if isinstance(v, Exception):
                w.check(how is not None and (off + s > n or how == "reset"),
                        lambda: "reading %d bytes at %d raised %s although the stream held %d bytes and was %s"
                        % (s, off, short_tb(v), n, how))
            else:
                w.check(v == MSG[off:off + s], lambda: "reading %d bytes at %d returned %r" % (s, off, v))
                off += s
        total = 0
        for s in sizes:
            if total + s > n:
                break
            total += s
        if how is None:
            w.check(off == total, lambda: "%d bytes could be read of %d available (%r)" % (total, n, got))
        else:
            w.check(t.done, lambda: "the reader did not notice that the stream ended (%s after %d bytes; read %r; %s)"
                    % (how, n, got, r))
            if how == "close":
                w.check(off == total, lambda: "%d bytes could be read of %d available (%r)" % (total, n, got))
        w.note(how, n, "got", [(s, v if isinstance(v, bytes) else type(v).__name__) for s, v in got])
    return scenario(name, body, bound, "recvexactly of %s from a stream cut and segmented anywhere" % (sizes,),
                    netopts=dict(dial_auto=True))


def writing(chunks, name, bound, blocking=False, faults=()):
    """The socket accepts any number of bytes per write; the peer may go away at any moment."""
    def body(w):
        fault = (None,) + faults
        how = fault[w.s.choose([str(x) for x in fault], [0] * len(fault))]
        p = Peer(w, [how] if how else [])
        w.net.send_policy = lambda sk, d: list(range(len(d), 0, -1)) + ["again"]
        res = []

        def writer():
            c = conn(w, blocking)
            w.s.c = c
            for b in chunks:
                try:
                    c.sendall(b)
                    res.append((b, None))
                except Exception as e:
                    res.append((b, e))
                    return
        t = w.thread(writer, "writer")
        r = w.run()
        w.check(t.done, "sendall never ended (%s)" % r)
        rx = bytes(p.rx)
        whole = b"".join(chunks)
        w.check(whole.startswith(rx), lambda: "the peer received %r of %r" % (rx, whole))
        for b, e in res:
            if e is not None:
                w.check(how is not None, lambda: "sendall of %r raised on a healthy connection after %r arrived: %s"
                        % (b, rx, short_tb(e)))
        if how is None:
            w.check(rx == whole, lambda: "sendall returned but the peer received %r of %r" % (rx, whole))
        w.note(how, "sent", rx, [type(e).__name__ for _, e in res])
    return scenario(name, body, bound, "sendall of %s, any acceptance per write" % (chunks,),
                    netopts=dict(dial_auto=True, auto=True))


def refused(name):
    """A connection that could not be made: writes and reads raise."""
    def body(w):
        w.net.dial_outcomes = ("refuse", "timeout")
        what = ["sendall", "send", "recvexactly"][w.s.choose(["sendall", "send", "recvexactly"], [0] * 3)]
        bl = w.s.choose(["nonblocking", "blocking"], [0, 0])
        res = []

        def user():
            c = conn(w, bool(bl))
            try:
                getattr(c, what)(*((b"abc",) if what != "recvexactly" else (3,)))
                res.append(None)
            except Exception as e:
                res.append(e)
        t = w.thread(user, "user")
        r = w.run()
        w.check(t.done, "%s on a refused connection never ended (%s)" % (what, r))
        w.note(what, bl, type(res[0]).__name__)
        w.check(isinstance(res[0], Exception), "%s on a refused connection succeeded" % what)
    return scenario(name, body, 1, "the dial fails")


def probe(name, bound):
    """is_connection_dropped tells usable connections from unusable ones."""
    def body(w):
        from mysockpool.utils import is_connection_dropped
        states = ["idle", "unread", "closed", "reset", "half", "self-closed", "sock-none", "exchanged", "eof-after-data"]
        k = states[w.s.choose(states, [0] * len(states))]
        steps = {"idle": [], "unread": [b"zz"], "closed": ["close"], "reset": ["reset"], "half": [b"z", "close"],
                 "self-closed": [], "sock-none": [], "exchanged": [b"r"], "eof-after-data": [b"r", "close"]}[k]
        p = Peer(w, steps)
        out = []

        def user():
            c = conn(w)
            if k in ("exchanged", "eof-after-data"):
                c.sendall(b"q")
                out.append(c.recvexactly(1))
            w.s.quiesce()
            if k == "self-closed":
                c.close()
            if k == "sock-none":
                c.sock = None
            out.append(is_connection_dropped(c))
            out.append(is_connection_dropped(c))
            w.s.c = c
        w.thread(user, "user")
        w.run()
        w.note(k, out)
        want = k not in ("idle", "exchanged")
        w.check(out[-2:] == [want, want], "a connection that is %s is reported as %s" % (k, out))
    return scenario(name, body, bound, "the readability probe", netopts=dict(dial_auto=True, auto=True))


def exchange(name, bound):
    """Two request/reply rounds over one connection with any segmentation on both sides."""
    def body(w):
        w.net.recv_policy = lambda sk, k: [k, 1]
        w.net.send_policy = lambda sk, d: [len(d), 1, "again"]
        p = Peer(w, [])

        def on(sink):
            p.rx += sink.buf
            del sink.buf[:]
            while len(p.rx) >= 3:
                b = bytes(p.rx[:3])
                del p.rx[:3]
                p.conns[0].server.write(b[::-1])
        p._on = on
        got = []

        def user():
            c = conn(w)
            for b in (b"abc", b"def"):
                c.sendall(b)
                got.append(c.recvexactly(3))
        w.thread(user, "user")
        w.run()
        w.check(got == [b"cba", b"fed"], "the exchange gave %r" % (got,))
    return scenario(name, body, bound, "request/reply rounds", netopts=dict(dial_auto=True, auto=True))


LONG = [1023, 1024, 4096, 4097, 65535, 65536, 65537, 200000, 1048577, (1 << 24) + 1]


def pattern(n, k=0):
    m = min(n, 64256)
    p = bytes(bytearray((i * 7 + i // 251 + k) % 256 for i in range(m)))
    return (p * (n // max(m, 1) + 1))[:n]


def long(name, sizes=LONG):
    """Long messages, read and written whole or in parts, the socket taking and giving any fixed amount per call."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        piece = [0, 1, 1000, 4096, 65536][w.s.choose(["all", "1", "1000", "4096", "65536"], [0] * 5)]
        if piece == 1 and n > 5000 or n > 1 << 21 and 0 < piece < 65536:
            return
        parts = w.s.choose(["whole", "parts"], [0, 0])
        bl = bool(w.s.choose(["nonblocking", "blocking"], [0, 0]))
        msg = pattern(n)
        p = Peer(w, [])
        back = [0]

        def on(sink):
            p.rx += sink.buf
            del sink.buf[:]
            if len(p.rx) >= n and not back[0]:
                back[0] = 1
                p.conns[0].server.write(bytes(p.rx))
        p._on = on
        if piece:
            w.net.send_policy = lambda sk, d: [min(len(d), piece)]
            w.net.recv_policy = lambda sk, k: [min(k, piece)]
        out = []

        def user():
            c = conn(w, bl)
            w.s.c = c
            if parts:
                for i in range(0, n, 3000):
                    c.sendall(msg[i:i + 3000])
                got = b""
                while len(got) < n:
                    got += c.recvexactly(min(777 + len(got), n - len(got)))
                out.append(got)
            else:
                c.sendall(msg)
                out.append(c.recvexactly(n))
        t = w.thread(user, "user")
        r = w.run()
        w.check(t.done, "%d bytes in pieces of %d: the exchange never ended (%s)" % (n, piece, r))
        w.check(bytes(p.rx) == msg, lambda: "%d bytes were written, the peer received %d%s" % (n, len(p.rx), "" if len(p.rx) != n else " others"))
        w.check(out[0] == msg, lambda: "%d bytes came back, %d were read%s" % (n, len(out[0]), "" if len(out[0]) != n else ", others"))
        w.note(n, piece, parts, bl)
    return scenario(name, body, 0, "messages of up to %d bytes" % max(sizes), netopts=dict(dial_auto=True, auto=True), early_env=False,
                    horizon=1000000, time_horizon=10 ** 6)


def stream(name, sizes=LONG):
    """A long stream read in several long and short portions, whatever amounts the socket gives at a time."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        cuts = ["halves", "tail1", "tail100", "head1", "head22", "thirds", "frame"]
        cut = cuts[w.s.choose(cuts, [0] * len(cuts))]
        piece = [0, 700, 1000, 4096, 4097, 65536, 65537][w.s.choose(["all", "700", "1000", "4096", "4097", "65536", "65537"], [0] * 7)]
        bl = bool(w.s.choose(["nonblocking", "blocking"], [0, 0]))
        if n > 1 << 21 and (0 < piece < 65536 or cut not in ("halves", "tail1", "frame")):
            return
        sizes_ = {"halves": [n // 2, n - n // 2], "tail1": [n - 1, 1], "tail100": [max(n - 100, 0), min(100, n)], "head1": [1, n - 1],
                  "head22": [22, n - 22] if n > 22 else [n], "thirds": [n // 3, n // 3, n - 2 * (n // 3)],
                  "frame": [20, 44, n - 64, 20, 44] if n > 64 else [n]}[cut]
        msg = pattern(sum(sizes_))
        p = Peer(w, [])
        if piece:
            w.net.recv_policy = lambda sk, k: [min(k, piece)]
        out = []

        def user():
            c = conn(w, bl)
            w.s.c = c
            w.s.quiesce()
            p.conns[0].server.write(msg)
            for k in sizes_:
                out.append(c.recvexactly(k))
        t = w.thread(user, "user")
        r = w.run()
        w.check(t.done, "reads of %s: never ended (%s)" % (sizes_, r))
        w.check([len(x) for x in out] == sizes_ and b"".join(out) == msg, lambda: "reads of %s bytes gave %s bytes%s" % (
            sizes_, [len(x) for x in out], "" if b"".join(out) == msg else ", not those of the stream"))
        w.note(n, cut, piece, bl)
    return scenario(name, body, 0, "streams of up to %d bytes in portions" % max(sizes), netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=1000000, time_horizon=10 ** 6)


def zero(name):
    """Nothing is read at once from a peer that says nothing, before, between and after other reads."""
    def body(w):
        bl = bool(w.s.choose(["nonblocking", "blocking"], [0, 0]))
        at = w.s.choose(["first", "after", "between", "end"], [0] * 4)
        how = [None, "close", "reset"][w.s.choose(["open", "close", "reset"], [0] * 3)]
        p = Peer(w, [])
        out = []

        def user():
            c = conn(w, bl)
            w.s.c = c
            c.sendall(b"q")
            if at == 0:
                out.append(c.recvexactly(0))
            w.s.quiesce()
            p.conns[0].server.write(MSG)
            w.s.quiesce()
            if at == 1:
                out.append(c.recvexactly(0))
            out.append(c.recvexactly(3))
            if at == 2:
                out.append(c.recvexactly(0))
            out.append(c.recvexactly(5))
            if how:
                getattr(p.conns[0].server, how)()
                w.s.quiesce()
            if at == 3:
                try:
                    out.append(c.recvexactly(0))
                except Exception:
                    w.check(how is not None, "reading nothing raised")
        w.thread(user, "user")
        w.run()
        w.check(b"".join(out) == MSG and all(len(x) in (0, 3, 5) for x in out) and isinstance(out[-1], bytes), lambda: "read %r" % (out,))
        w.note(bl, at, how)
    return scenario(name, body, 0, "reads of zero bytes", netopts=dict(dial_auto=True, auto=True), early_env=False)


def rounds(name, n):
    """Many exchanges over one connection; then the peer ends it, and that is noticed."""
    def body(w):
        from mysockpool.utils import is_connection_dropped
        bl = bool(w.s.choose(["nonblocking", "blocking"], [0, 0]))
        end = ["close", "reset", "unread"][w.s.choose(["close", "reset", "unread"], [0] * 3)]
        p = Peer(w, [])

        def on(sink):
            b = bytes(sink.buf)
            del sink.buf[:]
            p.conns[0].server.write(b[::-1])
        p._on = on
        res = []

        def user():
            c = conn(w, bl)
            w.s.c = c
            for i in range(n):
                b = pattern(i % 60 + 1, i)
                c.sendall(b)
                g = c.recvexactly(len(b))
                if g != b[::-1]:
                    res.append("round %d: %r instead of %r" % (i, g, b[::-1]))
                    return
                if is_connection_dropped(c):
                    res.append("after round %d the idle connection is reported as dropped" % i)
                    return
            e = p.conns[0].server
            if end == "close":
                e.close()
            elif end == "reset":
                e.reset()
            else:
                e.write(b"zz")
            w.s.quiesce()
            if not is_connection_dropped(c):
                res.append("after %d rounds %s is not noticed" % (n, end))
        t = w.thread(user, "user")
        r = w.run()
        w.check(t.done, "the exchanges never ended (%s)" % r)
        w.check(not res, lambda: res[0])
        w.note(bl, end)
    return scenario(name, body, 0, "%d exchanges on one connection" % n, netopts=dict(dial_auto=True, auto=True), early_env=False,
                    horizon=1000000, time_horizon=10 ** 6)


def crowd(name, n):
    """Many connections at once: each one's state is its own."""
    def body(w):
        from mysockpool.utils import is_connection_dropped
        p = Peer(w, [])
        res = []

        def user():
            cs = []
            for i in range(n):
                c = conn(w)
                c.sendall(b"hello")
                cs.append(c)
            w.s.c = cs
            w.s.quiesce()
            for i in range(n):
                e = p.conns[i].server
                if i % 4 == 1:
                    e.close()
                elif i % 4 == 2:
                    e.reset()
                elif i % 4 == 3:
                    e.write(b"z")
            w.s.quiesce()
            for i, c in enumerate(cs):
                d = is_connection_dropped(c)
                if bool(d) != (i % 4 != 0):
                    res.append("connection %d of %d (%s) is reported as %s" % (i, n, ("idle", "closed", "reset", "with unread bytes")[i % 4],
                                                                              "dropped" if d else "usable"))
        t = w.thread(user, "user")
        r = w.run()
        w.check(t.done and not res, lambda: res[0] if res else "never ended (%s)" % r)
    return scenario(name, body, 0, "%d connections at once" % n, netopts=dict(dial_auto=True, auto=True), early_env=False,
                    horizon=1000000)


def scenarios(tier):
    t = tier == "thorough"
    return [
        reading([3, 1, 4], "read", 3 if t else 2),
        zero("zero"),
        reading([0, 8], "read-all", 6 if t else 3),
        reading([2, 2], "read-blocking", 3 if t else 2, True),
        writing([b"abcdef"], "write", 6 if t else 4),
        writing([b"abc", b"", b"defg"], "write-parts", 4 if t else 3),
        writing([b"abcd"], "write-blocking", 3 if t else 2, True),
        writing([b"abcdef"], "write-lost", 3 if t else 2, False, ("close", "reset")),
        refused("refused"),
        probe("probe", 1),
        exchange("exchange", 3 if t else 2),
        long("long"), stream("stream"),
        rounds("rounds", 3000 if t else 600),
        crowd("crowd", 1100 if t else 300),
    ]
