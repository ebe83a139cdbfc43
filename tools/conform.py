"""Compares the virtual network, sockets and streams with the real ones: every sequence of operations up to a depth.

python3 tools/conform.py sockets|addresses|streams [DEPTH]     (uses the loopback network; run by hand, not part of any check)

Two ends of a TCP connection; every sequence of DEPTH operations is done once on the kernel's sockets (or asyncio's
streams) by a plain process and once on the virtual ones; what each operation returned or raised is compared.
"""
import asyncio
import errno
import itertools
import json
import os
import select
import socket
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def outcome(fn):
    try:
        r = fn()
    except BaseException as e:
        if isinstance(e, OSError):
            return "%s:%s" % (type(e).__name__, errno.errorcode.get(e.errno, e.errno))
        if type(e).__name__ in ("Killed",):
            raise
        return type(e).__name__
    return repr(r)


# ---------------------------------------------------------------- sockets
SOCK_OPS = ["send", "recv", "shut", "close", "rst", "ready"]


def sock_op(sk, op, rst):
    if op == "send":
        return outcome(lambda: sk.send(b"abc"))
    if op == "recv":
        return outcome(lambda: sk.recv(2))
    if op == "shut":
        return outcome(lambda: sk.shutdown(socket.SHUT_WR))
    if op == "close":
        return outcome(sk.close)
    if op == "rst":
        return outcome(lambda: rst(sk))
    if op == "ready":
        def f():
            r, w, _ = select.select([sk], [sk], [], 0)
            return (bool(r), bool(w))
        return outcome(f)


def sock_programs(depth):
    ops = [(e, o) for e in "ab" for o in SOCK_OPS]
    for p in itertools.product(ops, repeat=depth):
        if p[0][0] == "b":
            continue                       # the ends are symmetrical
        yield p


def probes():
    return [("a", "ready"), ("a", "recv"), ("a", "recv"), ("b", "ready"), ("b", "recv"), ("b", "recv"), ("a", "send"),
            ("b", "send"), ("a", "recv"), ("b", "recv"), ("a", "send"), ("b", "send")]


def run_sock(a, b, prog, rst, settle):
    out = []
    ends = dict(a=a, b=b)
    for e, o in list(prog) + probes():
        out.append(sock_op(ends[e], o, rst))
        settle()
    return out


def real_sockets(depth, part, parts, only=(), sock=socket.socket):
    def rst(sk):
        sk.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        sk.close()
    ls = []
    for i in range(20):
        l = sock()
        l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        l.bind(("127.0.%d.%d" % (part + 1, i + 1), 0))
        l.listen(5)
        ls.append(l)
    for n, p in enumerate(sock_programs(depth)):
        if n not in only if only else n % parts != part:
            continue
        l = ls[n // parts % len(ls)]
        a = sock()
        a.connect(l.getsockname())
        b, _ = l.accept()
        for s in (a, b):
            s.setblocking(False)
        r = run_sock(a, b, p, rst, lambda: None)
        for s in (a, b):
            try:
                rst(s)
            except OSError:
                pass
        print(json.dumps([n, r]))


def virtual_sockets(depth):
    sys.path.insert(0, ROOT)
    from mc import boot
    boot.boot()
    from mc import world, explore
    progs = sock_programs(depth)

    def rst(sk):
        if sk._gone:
            raise OSError(errno.EBADF, "")
        sk._end.reset()
        sk.close()
    for n, p in enumerate(progs):
        res = []

        def body(w):
            w.net.rst_on_unread = True

            def main():
                l = socket.socket()
                l.bind(("127.0.0.1", 9))
                l.listen(5)
                a = socket.socket()
                a.connect(("127.0.0.1", 9))
                b, _ = l.accept()
                a.setblocking(False)
                b.setblocking(False)
                res.extend(run_sock(a, b, p, rst, w.s.quiesce))
            w.thread(main, "main")
            w.run()
        sc = world.scenario("x", body, 0, netopts=dict(dial_auto=True, auto=True), early_env=False)
        sc.fn(explore.Chooser(()), False)
        yield n, p, res


# ---------------------------------------------------------------- addresses
ADDR_OPS = ["openR", "openN", "lclose", "dial", "accept", "cclose", "sclose", "crst", "recv"]


def addr_programs(depth):
    for p in itertools.product(ADDR_OPS, repeat=depth):
        if p[0][:4] == "open":
            yield p


def run_addr(addr, prog, rst, settle):
    out = []
    ls, cs, ss, keep = [], [], [], []

    def op(o):
        if o[:4] == "open":
            l = socket.socket()
            keep.append(l)
            if o == "openR":
                l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            l.setblocking(False)
            l.bind(addr)
            l.listen(5)
            ls.append(l)
        elif o == "dial":
            c = socket.socket()
            keep.append(c)
            c.settimeout(1)
            c.connect(addr)
            c.setblocking(False)
            cs.append(c)
        elif o == "lclose" and ls:
            ls.pop().close()
        elif o == "accept" and ls:
            k, _ = ls[-1].accept()
            k.setblocking(False)
            ss.append(k)
        elif o == "cclose" and cs:
            cs.pop().close()
        elif o == "crst" and cs:
            rst(cs.pop())
        elif o == "sclose" and ss:
            ss.pop().close()
        elif o == "recv":
            return [outcome(lambda: k.recv(5)) for k in cs + ss]
    for o in list(prog) + ["recv", "openR", "dial", "accept"]:
        out.append(outcome(lambda: op(o)))
        settle()
    return out, keep + ss


def real_addr(depth, part, parts, only=()):
    def rst(sk):
        sk.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        sk.close()
    port = 20000 + os.getpid() % 5000          # TIME_WAIT connections of an earlier run do not matter
    for n, p in enumerate(addr_programs(depth)):
        if n not in only if only else n % parts != part:
            continue
        r, socks = run_addr(("127.%d.%d.%d" % (3 + n // 62500, n // 250 % 250, n % 250 + 1), port), p, rst, lambda: None)
        for k in socks:
            try:
                rst(k)
            except OSError:
                pass
        print(json.dumps([n, r]))


def virtual_addr(depth):
    sys.path.insert(0, ROOT)
    from mc import boot
    boot.boot()
    from mc import world, explore

    def rst(sk):
        sk._end.reset()
        sk.close()
    for n, p in enumerate(addr_programs(depth)):
        res = []

        def body(w):
            w.net.rst_on_unread = True

            def main():
                r, socks = run_addr(("127.0.0.1", 9), p, rst, w.s.quiesce)
                res.extend(r)
            w.thread(main, "main")
            w.run()
        sc = world.scenario("x", body, 0, netopts=dict(dial_auto=True, auto=True), early_env=False)
        sc.fn(explore.Chooser(()), False)
        yield n, p, res


# ---------------------------------------------------------------- streams
STREAM_OPS = ["w", "drain", "read", "weof", "close", "waitc", "closing", "abort", "P.send", "P.eof", "P.close", "P.rst"]


def stream_programs(depth):
    for p in itertools.product(STREAM_OPS, repeat=depth):
        yield p


async def aoutcome(coro, limit):
    try:
        r = await asyncio.wait_for(coro, limit)
    except OSError as e:
        if isinstance(e, TimeoutError) and e.errno is None:
            return "pending"
        return "%s:%s" % (type(e).__name__, errno.errorcode.get(e.errno, e.errno))
    except asyncio.TimeoutError:
        return "pending"
    except Exception as e:
        return type(e).__name__
    return repr(r)


async def run_stream(reader, writer, prog, peer, settle, limit):
    out = []
    for o in list(prog) + ["closing", "read", "read", "w", "settle", "w", "drain", "closing", "read", "close", "waitc"]:
        if o == "w":
            out.append(outcome(lambda: writer.write(b"xyz")))
        elif o == "weof":
            out.append(outcome(writer.write_eof))
        elif o == "close":
            out.append(outcome(writer.close))
        elif o == "abort":
            out.append(outcome(writer.transport.abort))
        elif o == "closing":
            out.append(outcome(writer.is_closing))
        elif o == "drain":
            out.append(await aoutcome(writer.drain(), limit))
        elif o == "read":
            out.append(await aoutcome(reader.read(2), limit))
        elif o == "waitc":
            out.append(await aoutcome(asyncio.shield(writer.wait_closed()), limit))
        elif o != "settle":
            peer(o[2:])
        await settle()
    return out


def real_streams(depth, part, parts, only=()):
    async def one(n, p, srv, sem):
        async with sem:
            a = socket.socket()
            a.setblocking(False)
            addr = srv[n % len(srv)].getsockname()
            t = asyncio.ensure_future(asyncio.open_connection(*addr))
            b, _ = await asyncio.get_running_loop().sock_accept(srv[n % len(srv)])
            reader, writer = await t
            a.close()
            gone = []

            def peer(op):
                if gone:
                    return
                try:
                    if op == "send":
                        b.send(b"abc")
                    elif op == "eof":
                        b.shutdown(socket.SHUT_WR)
                    elif op == "close":
                        gone.append(1)
                        b.close()
                    elif op == "rst":
                        gone.append(1)
                        b.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        b.close()
                except OSError:
                    pass
            stop = []

            def drainpeer():
                # the scripted peer of the virtual network reads at once
                try:
                    while not gone and not stop:
                        if not b.recv(1000):
                            return
                except BlockingIOError:
                    pass
                except OSError:
                    pass
            b.setblocking(False)

            async def settle():
                for _ in range(3):
                    await asyncio.sleep(0.002)
                    drainpeer()
            r = await run_stream(reader, writer, p, peer, settle, 0.03)
            writer.transport.abort()
            if not gone:
                b.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            b.close()
            print(json.dumps([n, r]))

    async def main():
        srvs = []
        for i in range(40):
            l = socket.socket()
            l.setblocking(False)
            l.bind(("127.1.%d.%d" % (part + 1, i + 1), 0))
            l.listen(50)
            srvs.append(l)
        todo = [(n, p) for n, p in enumerate(stream_programs(depth))
                if (n in only if only else n % parts == part)]
        # one listening socket per running program, so that connections are not mixed up
        queues = [todo[i::len(srvs)] for i in range(len(srvs))]

        async def lane(i):
            for n, p in queues[i]:
                await one(n, p, [srvs[i]], asyncio.Semaphore(1))
        await asyncio.gather(*[lane(i) for i in range(len(srvs))])
    asyncio.run(main())


def virtual_streams(depth):
    sys.path.insert(0, ROOT)
    from mc import boot
    boot.boot()
    from mc import world, explore
    from mc.net import ScriptSink
    for n, p in enumerate(stream_programs(depth)):
        res = []

        def body(w):
            w.net.rst_on_unread = True
            conns = []

            def accept(conn):
                conns.append(conn)
                ScriptSink(conn.server, lambda s: None, lambda s, how: None)
            w.net.listen(("127.0.0.1", 9), accept)

            def peer(op):
                e = conns[0].server
                if op == "send":
                    e.write(b"abc")
                elif op == "eof":
                    e.write_eof()
                elif op == "close":
                    e.close()
                elif op == "rst":
                    e.reset()

            async def settle():
                await asyncio.sleep(0.01)

            async def go():
                reader, writer = await asyncio.open_connection("127.0.0.1", 9)
                res.extend(await run_stream(reader, writer, p, peer, settle, 0.03))

            def main():
                loop = asyncio.new_event_loop()
                asyncio.set_event_loop(loop)
                loop.run_until_complete(go())
            w.thread(main, "main")
            w.run()
        sc = world.scenario("x", body, 0, netopts=dict(dial_auto=True, auto=True), early_env=False)
        sc.fn(explore.Chooser(()), False)
        yield n, p, res


# ---------------------------------------------------------------- asyncio servers
SERVER_OPS = ["start", "sclose", "waitc", "dial", "P.send", "P.eof", "P.close", "P.rst", "hwrite", "hclose", "habort"]


def server_programs(depth):
    for p in itertools.product(SERVER_OPS, repeat=depth):
        yield ("start",) + p


async def run_server(addr, prog, peers, settle, limit):
    """peers: dial() -> outcome, op(name), read() -> what the last peer received and how it ended"""
    out, servers, writers, log = [], [], [], []

    async def handle(reader, writer):
        writers.append(writer)
        i = len(writers)
        try:
            while True:
                d = await reader.read(10)
                log.append((i, repr(d)))
                if not d:
                    break
        except OSError as e:
            log.append((i, errno.errorcode.get(e.errno)))
    for o in list(prog) + ["P.send", "serving", "dial", "sclose", "waitc", "dial", "start", "P.read"]:
        if o == "start":
            try:
                servers.append(await asyncio.start_server(handle, addr[0], addr[1]))
                out.append("ok")
            except OSError as e:
                out.append(errno.errorcode.get(e.errno, "?"))
        elif o == "sclose":
            out.append(outcome(lambda: servers[-1].close()))
        elif o == "serving":
            out.append(outcome(lambda: servers[-1].is_serving()))
        elif o == "waitc":
            out.append(await aoutcome(asyncio.shield(servers[-1].wait_closed()), limit))
        elif o == "hwrite":
            out.append(outcome(lambda: writers[-1].write(b"xyz")))
        elif o == "hclose":
            out.append(outcome(lambda: writers[-1].close()))
        elif o == "habort":
            out.append(outcome(lambda: writers[-1].transport.abort()))
        elif o == "dial":
            out.append(peers.dial())
        elif o == "P.read":
            out.append(peers.read())
        else:
            peers.op(o[2:])
        await settle()
    out.append(sorted(log))
    for s in servers:
        s.close()
    for w in writers:
        w.transport.abort()
    return out


def real_server(depth, part, parts, only=()):
    port = 26000 + os.getpid() % 5000

    class Peers(object):
        def __init__(self, addr):
            self.addr, self.socks, self.seen = addr, [], {}

        def dial(self):
            c = socket.socket()
            c.settimeout(1)
            try:
                c.connect(self.addr)
            except OSError as e:
                return errno.errorcode.get(e.errno, "?")
            c.setblocking(False)
            self.socks.append(c)
            return "ok"

        def op(self, o):
            if not self.socks or self.socks[-1].fileno() < 0:
                return
            c = self.socks[-1]
            try:
                if o == "send":
                    c.send(b"abc")
                elif o == "eof":
                    c.shutdown(socket.SHUT_WR)
                elif o == "close":
                    c.close()
                elif o == "rst":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    c.close()
            except OSError:
                pass

        def absorb(self):
            for c in self.socks:
                self.absorb1(c)

        def absorb1(self, c):
            seen = self.seen.setdefault(c, ["", "open"])
            if c.fileno() < 0 or seen[1] != "open":
                return
            try:
                while True:
                    d = c.recv(100)
                    if not d:
                        seen[1] = "eof"
                        return
                    seen[0] += d.decode()
            except BlockingIOError:
                pass
            except OSError:
                seen[1] = "rst"

        def read(self):
            return [list(self.seen.get(c, ())) for c in self.socks]

    async def one(n, p):
        addr = ("127.%d.%d.%d" % (3 + n // 62500, n // 250 % 250, n % 250 + 1), port)
        peers = Peers(addr)

        async def settle():
            for _ in range(3):
                await asyncio.sleep(0.002)
                peers.absorb()
        r = await run_server(addr, p, peers, settle, 0.03)
        for c in peers.socks:
            if c.fileno() >= 0:
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                c.close()
        print(json.dumps([n, r]))

    async def run():
        todo = [(n, p) for n, p in enumerate(server_programs(depth)) if (n in only if only else n % parts == part)]

        async def lane(i):
            for n, p in todo[i::40]:
                await one(n, p)
        await asyncio.gather(*[lane(i) for i in range(40)])
    asyncio.run(run())


def virtual_server(depth):
    sys.path.insert(0, ROOT)
    from mc import boot
    boot.boot()
    from mc import world, explore
    from mc.net import ScriptSink

    class Peers(object):
        def __init__(self, net):
            self.net, self.conns, self.seen = net, [], []

        def dial(self):
            acc = self.net.acceptor_for(("127.0.0.1", 9))
            if acc is None:
                return "ECONNREFUSED"
            c = self.net.new_conn(("127.0.0.1", 9))
            seen = ["", "open"]

            def on(sink):
                seen[0] += bytes(sink.buf).decode()
                del sink.buf[:]

            def end(sink, how):
                if seen[1] == "open":
                    seen[1] = how
            ScriptSink(c.client, on, end)
            self.conns.append(c)
            self.seen.append(seen)
            acc(c)
            return "ok"

        def op(self, o):
            if not self.conns or self.conns[-1].client.closed:
                return
            e = self.conns[-1].client
            dict(send=lambda: e.write(b"abc"), eof=e.write_eof, close=e.close, rst=e.reset)[o]()

        def read(self):
            return [list(x) for x in self.seen]
    for n, p in enumerate(server_programs(depth)):
        res = []

        def body(w):
            w.net.rst_on_unread = True

            async def settle():
                await asyncio.sleep(0.01)

            def main():
                loop = asyncio.new_event_loop()
                asyncio.set_event_loop(loop)
                res.extend(loop.run_until_complete(run_server(("127.0.0.1", 9), p, Peers(w.net), settle, 0.03)))
            w.thread(main, "main")
            w.run()
        sc = world.scenario("x", body, 0, netopts=dict(dial_auto=True, auto=True), early_env=False)
        sc.fn(explore.Chooser(()), False)
        yield n, p, json.loads(json.dumps(res))


KINDS = dict(servers=(real_server, virtual_server), addresses=(real_addr, virtual_addr), sockets=(real_sockets, virtual_sockets), streams=(real_streams, virtual_streams))


def main():
    kind = sys.argv[1]
    depth = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    if len(sys.argv) > 3:
        KINDS[kind][0](depth, int(sys.argv[3]), int(sys.argv[4]), set(int(x) for x in sys.argv[5:]))
        return 0
    parts = 4
    t0 = time.monotonic()
    ps = [subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), kind, str(depth), str(i), str(parts)],
                           stdout=subprocess.PIPE) for i in range(parts)]
    real = {}
    for q in ps:
        out, _ = q.communicate()
        for l in out.decode().splitlines():
            n, r = json.loads(l)
            real[n] = r
        if q.returncode:
            print("the real run failed")
            return 2
    bad = n = 0
    seen = {}
    for i, p, r in KINDS[kind][1](depth):
        n += 1
        for _ in range(3):                 # the real run depends on the time that passes
            if r != real[i]:
                out = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), kind, str(depth), "0", "1", str(i)],
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
                real[i] = json.loads(out.decode().splitlines()[0])[1]
        if r != real[i]:
            bad += 1
            k = next((j for j in range(max(len(r), len(real[i]))) if r[j:j + 1] != real[i][j:j + 1]), 0)
            key = (str(r[k:k + 1]), str(real[i][k:k + 1]))
            seen.setdefault(key, []).append((p, k, r, real[i]))
    for key, l in sorted(seen.items(), key=lambda x: -len(x[1])):
        p, k, r, q = l[0]
        print("%d programs: virtual %s, real %s, for instance %s at %d\n   virtual %s\n   real    %s" % (
            len(l), key[0], key[1], p, k, r, q))
    print("%s: %d programs of %d operations, %d differ" % (kind, n, depth, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
