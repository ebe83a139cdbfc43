"""Harness for mysockpool: real connections on the in-memory network, counted from outside."""
from .world import *          # noqa
from .net import ScriptSink
from . import sched as S

_scenario = scenario


def scenario(name, body, bound=0, about="", netopts=None, **opts):
    opts.setdefault("lock_points", False)
    return _scenario(name, body, bound, about, dict(dict(dial_auto=True, auto=True), **(netopts or {})), **opts)


KEYS = [("10.0.0.%d" % i, 8000 + i) for i in range(1, 15)]


class ConnLog(object):
    """What is known about the connections of one execution; holds no connection alive."""

    def __init__(self, w):
        import mysockpool
        self.w, self.s = w, w.s
        self.Base = mysockpool.SocketConnection
        self.opening = {}          # address -> number of connections open or being opened
        self.peak = {}
        self.made = 0
        self.fail_next = 0
        self.by_id = {}            # serial -> state
        for a in KEYS:
            w.net.listen(a, self._accept)
        self.cls = self._make()

    def _accept(self, conn):
        ScriptSink(conn.server, None, lambda sink, how: conn.server.close())

    def _make(self):
        log = self

        class Conn(self.Base):
            def __init__(self, pool_key, *a, **k):
                self.serial = None
                log.made += 1
                n = log.made
                log.s.obs("connect", n)
                if log.fail_next > 0:
                    log.fail_next -= 1
                    raise OSError(24, "Too many open files")
                self.addr = (pool_key.host, pool_key.port)
                self.serial = n
                log.by_id[n] = "open"
                log.opening[self.addr] = log.opening.get(self.addr, 0) + 1
                log.peak[self.addr] = max(log.peak.get(self.addr, 0), log.opening[self.addr])
                super(Conn, self).__init__(pool_key, *a, **k)

            def close(self):
                # runs for explicit closes and, through __del__, when nobody holds the connection any more
                if getattr(self, "serial", None) is not None and log.by_id[self.serial] == "open":
                    log.by_id[self.serial] = "closed"
                    log.opening[self.addr] -= 1
                super(Conn, self).close()
        Conn.PoolKeyCls = self.Base.PoolKeyCls
        return Conn

    def key(self, i=0):
        return self.Base.PoolKeyCls(*KEYS[i])

    def open_count(self, i=0):
        return self.opening.get(KEYS[i], 0)

    def drop(self, conn, how="close"):
        """The server ends the connection; the client's kernel knows at once."""
        sk = conn.sock
        e = sk._end
        if e is not None:
            (e.peer.close if how == "close" else e.peer.reset)()

    @staticmethod
    def dropped(conn):
        return conn.sock._rx_eof or conn.sock._rx_rst or bool(conn.sock._rx)


def strip(e):
    """Forget where an exception came from: its frames keep connections alive."""
    seen = 0
    while e is not None and seen < 20:
        e.__traceback__ = None
        n = e.__cause__ or e.__context__
        e.__cause__ = e.__context__ = None
        e = n
        seen += 1
