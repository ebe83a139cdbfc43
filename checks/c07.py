"""C07: request frames reach the wire whole, once, unmixed and at the right address."""
import struct

from mc.aioc import *

HOST = "10.9.9.9"
SLOW = [0.2, 2.0, 4.0, 11.0, 35.0, 100.0, 700.0]
ROUTES = [
    ("tuple", A, A), ("tuple2", B, B), ("list", list(A), A), ("host", HOST, (HOST, 12200)),
    ("ipv6-host", "::1", ("::1", 12200)), ("ipv6-scope", "fe80::1%eth0", ("fe80::1%eth0", 12200)),
    ("ip-host", "10.0.0.78", ("10.0.0.78", 12200)), ("odd-host", "a-b.c_d.", ("a-b.c_d.", 12200)),
    ("same-host", (B[0], 7009), (B[0], 7009)), ("same-port", ("10.0.0.77", B[1]), ("10.0.0.77", B[1])), ("mesh", None, MESH),
]


def want(f, c):
    e = R.sane_request(f)
    if e:
        return e
    x = c.extra
    if f.content != x["content"]:
        return "content %r, expected %r" % (f.content, x["content"])
    h = f.header
    exp = {"sofa_head_target_service": x["interface"], "service": x["interface"],
           "sofa_head_method_name": x["method"]}
    exp.update(x.get("headers", {}))
    for k, v in exp.items():
        if h.get(k) != v:
            return "header %s=%r, expected %r" % (k, h.get(k), v)
    if f.ptype != x["ptype"]:
        return "ptype %d, expected %d" % (f.ptype, x["ptype"])
    t = x.get("timeout")
    if t is not None and not t <= f.timeout < t + 1:
        return "timeout %r, expected %r" % (f.timeout, t)
    if t is None and f.timeout > 0:
        return "timeout %r without one being asked for" % f.timeout
    return None


def verify(w, servers, calls):
    """Each call's frame arrived exactly once, at its address, and nothing else arrived anywhere."""
    for srv in servers:
        b = srv.bad()
        w.check(not b, b)
    got = [(srv.addr, f) for srv in servers for _, f in srv.frames]
    for c in calls:
        mine = [(a, f) for a, f in got if f.content == c.extra["content"]]
        w.check(len(mine) == 1, lambda: "call %s put %d frames on the wire" % (c.name, len(mine)))
        a, f = mine[0]
        w.check(a == c.extra["addr"], lambda: "call %s to interface %s went to %r instead of %r" % (
            c.name, c.extra["interface"], a, c.extra["addr"]))
        e = want(f, c)
        w.check(not e, lambda: "call %s: %s" % (c.name, e))
    w.check(len(got) == len(calls), lambda: "%d frames for %d calls: %r" % (len(got), len(calls), got))
    ids = [f.rid for _, f in got]
    w.check(len(set(ids)) == len(ids), "two requests carry the same id")
    for d in w.net.dial_log:
        w.check(d in [s.addr for s in servers], "a connection to %r was opened" % (d,))


def add(w, cw, kind, i, interface="a", method="m", addr=A, content=None, headers=None, timeout=10 ** 6, auto=True):
    content = b"content-%d" % i if content is None else content
    headers = headers or {}
    if kind == "sync":
        c = cw.sync("c%d" % i, content, interface, method, timeout, auto=auto, **headers)
    elif kind == "future":
        timeout = timeout if timeout != 10 ** 6 else None
        c = cw.future("c%d" % i, content, interface, method, auto=auto, timeout_ms=timeout, **headers)
    else:
        timeout = None
        c = cw.oneway("c%d" % i, content, interface, method, auto=auto, **headers)
    c.extra.update(content=content, interface=interface, method=method, addr=addr, headers=headers, timeout=timeout,
                   ptype=R.ONEWAY if kind == "oneway" else R.REQUEST)
    return c


def menu(c, f):
    if f.ptype == R.ONEWAY:
        return [("swallow", lambda: None, 0)]
    return [("ok", lambda: c.reply(f), 0)]


def pressure(kinds, bound, name, cuts, dial_auto=True, big=0):
    """Back pressure at every write: nothing is interleaved or cut."""
    def body(w):
        srv = Server(w, A, menu)
        w.net.write_policy = lambda tr, data: cuts(len(data))
        cw = ClientWorld(w)
        for i, k in enumerate(kinds):
            add(w, cw, k, i, content=(b"%d" % i) * (big or 3) + b"#%d" % i)
        cw.start()
        w.run()
        for c in w.calls:
            w.check(c.ok, lambda: "call %s failed on a healthy connection: %s" % (
                c.name, short_tb(c.exc) if c.exc else "never ended"))
        verify(w, [srv], w.calls)
        w.check(len(srv.conns) == 1, "%d connections" % len(srv.conns))
    return scenario(name, body, bound, "calls %s; the kernel takes only part of a frame" % (kinds,),
                    netopts=dict(dial_auto=dial_auto))


def slow(kinds, name, size=200000):
    """The kernel takes nothing for a long time, then everything."""
    def body(w):
        srv = Server(w, A, menu)
        take = (0, 100)[w.s.choose(["nothing", "some"], [0, 0])]
        T = SLOW[w.s.choose([str(x) for x in SLOW], [0] * len(SLOW))]
        w.net.write_policy = lambda tr, data: [take]
        w.net.never_drain = True
        cw = ClientWorld(w)
        for i, k in enumerate(kinds):
            add(w, cw, k, i, content=(b"%d" % i) * size + b"#%d" % i)

        def release():
            w.s.block(lambda: False, T, "slow")
            w.net.never_drain = False
            w.net.write_policy = None
        cw.start(lambda: w.thread(release, "kernel"))
        w.run()
        for c in w.calls:
            w.check(c.ok, lambda: "call %s failed with %s although the connection is healthy, only slow (%s s)" % (
                c.name, short_tb(c.exc) if c.exc else "nothing", T))
        verify(w, [srv], w.calls)
        w.check(len(srv.conns) == 1, "%d connections" % len(srv.conns))
        w.note(T, take)
    return scenario(name, body, 0, "calls %s; a write makes no progress for up to %s s" % (kinds, SLOW[-1]),
                    netopts=dict(dial_auto=True, auto=True), time_horizon=10.0 ** 6, early_env=False)


def answered(kinds, name):
    """The request is answered while the kernel has taken only part of it, then the connection ends."""
    def body(w):
        srv = Server(w, A, menu)
        status, what = (0, 3, 8)[w.s.choose(["ok", "error", "busy"], [0] * 3)], w.s.choose(["reset", "close"], [0] * 2)
        pause = w.s.choose(["settled", "at once"], [0] * 2)
        take = (100, 5000)[w.s.choose(["100", "5000"], [0] * 2)]
        w.net.write_policy = lambda tr, data: [take]
        w.net.never_drain = True
        cw = ClientWorld(w)
        for i, k in enumerate(kinds):
            add(w, cw, k, i, content=(b"%d" % i) * 200000)

        def server():
            w.s.block(lambda: srv.conns and len(srv.conns[0].sink.buf) >= 100, 100.0, "part")
            c = srv.conns[0]
            rid = struct.unpack("!i", bytes(c.sink.buf[5:9]))[0]
            w.net.write_policy = None
            c.raw(R.response(rid, b"early", status))
            if not pause:
                w.s.quiesce()
            (c.close if what else c.reset)()
            w.net.never_drain = False
            w.s.quiesce()
            w.note([f.rid == rid for s in srv.conns for f in s.frames], pause)
            for s in srv.conns[1:]:
                w.check(pause or rid not in [f.rid for f in s.frames], "a request that had been answered was sent once more")
        cw.start(lambda: w.thread(server, "server"))
        w.run()
        c = w.calls[0]
        w.check(c.ended, "the answered call never ended")
        if not pause:
            w.check(c.ok == (status == 0), lambda: "the call answered with status %d ended with %r" % (
                status, c.value if c.ok else c.exc))
        for srv_c in srv.conns:
            w.check(not srv_c.bad, srv_c.bad)
            ids = [f.rid for f in srv_c.frames]
            w.check(len(set(ids)) == len(ids), "a frame was sent twice")
        ids = [f.rid for c in srv.conns for f in c.frames]
        w.check(len(set(ids)) == len(ids), "a request arrived twice")
    return scenario(name, body, 0, "calls %s; answered before the whole frame was taken" % (kinds,),
                    netopts=dict(dial_auto=True, auto=True), early_env=False)


def routes(bound):
    """Every kind of configured address, for every kind of call."""
    def body(w):
        k = w.s.choose([r[0] for r in ROUTES], [0] * len(ROUTES))
        kind = ("sync", "future", "oneway")[w.s.choose(["sync", "future", "oneway"], [0] * 3)]
        servers = [Server(w, a, menu, name=n) for a, n in
                   ((A, "A"), (B, "B"), ((HOST, 12200), "H"), (MESH, "M"),
                    ((B[0], 7009), "P"), (("10.0.0.77", B[1]), "Q"))]
        _, conf, addr = ROUTES[k]
        servers += [Server(w, r[2], menu, name=r[0]) for r in ROUTES if r[2] not in [x.addr for x in servers]]
        if isinstance(conf, list):
            conf = tuple(conf)
        cw = ClientWorld(w, routes={"r": conf, "other": B} if conf else {"other": B})
        add(w, cw, kind, 0, interface="r", addr=addr)
        add(w, cw, "sync", 1, interface="other", addr=B)
        add(w, cw, "future", 2, interface="r", addr=addr, method="n")
        cw.start()
        w.run()
        for c in w.calls:
            w.check(c.ok, lambda: "call %s failed: %s" % (c.name, short_tb(c.exc) if c.exc else "never ended"))
        verify(w, servers, w.calls)
    return scenario("routes", body, bound, "address configurations x call kinds", netopts=dict(dial_auto=True))


VALUES = dict(
    content=[b"", b"\0", b"abc", b"\xff\xfe" * 3, b"x" * 70000],
    timeout=[1, 1000, 1500.0, 99.5, 2 ** 31 - 1],
    headers=[{}, {"uid": "u1", "target_app": "app2"}, {"k": "", "unicode": u"\u4f60\u597d"},
             {"X-Upper.Case": " Padded ", u"\xfcnicode": "a" * 300}],
    method=["m", u"m\xe9thod"],
    kind=["sync", "future", "oneway"],
)


def payload(tier):
    """All combinations of contents, timeouts, headers and methods."""
    def body(w):
        keys = sorted(VALUES)
        v = {k: VALUES[k][w.s.choose(["%s%d" % (k, i) for i in range(len(VALUES[k]))], [0] * len(VALUES[k]))]
             for k in keys}
        srv = Server(w, A, menu)
        cw = ClientWorld(w)
        headers = dict(v["headers"])
        exp = dict(headers)
        if "target_app" in exp:
            exp["sofa_head_target_app"] = exp.pop("target_app")
        c = add(w, cw, v["kind"], 0, content=v["content"], timeout=v["timeout"], method=v["method"], headers=headers)
        c.extra["headers"] = exp
        cw.start()
        w.run()
        w.check(c.ok, lambda: "call with %r failed: %s" % (v, short_tb(c.exc) if c.exc else "never ended"))
        if v["kind"] != "oneway":
            w.check(c.value == b"r:" + v["content"], "wrong result")
        verify(w, [srv], w.calls)
        w.fingerprint = ("payload",) + tuple(repr(v[k])[:30] for k in keys)
    return scenario("payload", body, 0, "contents x timeouts x headers x methods x call kinds",
                    netopts=dict(dial_auto=True), early_env=False)


def names():
    """Interfaces with confusable names, one of them routed elsewhere than the others (or alone routed)."""
    def body(w):
        n = len(R.NAMES)
        k = w.s.choose(["special%d" % i for i in range(n)], [0] * n)
        rest = w.s.choose(["others-mapped", "others-mesh"], [0, 0])
        kind = ("sync", "future", "oneway")[w.s.choose(["sync", "future", "oneway"], [0] * 3)]
        servers = [Server(w, a, None, name=nm) for a, nm in ((A, "A"), (B, "B"), (MESH, "M"))]
        for srv in servers:
            srv.got = lambda c, f, srv=srv: (srv.frames.append((c, f)), f.ptype == R.REQUEST and c.reply(f))
        routes = dict((x, A) for x in R.NAMES) if rest == 0 else {}
        routes[R.NAMES[k]] = B
        cw = ClientWorld(w, routes=routes)

        def go():
            for i, x in enumerate(R.NAMES):
                add(w, cw, kind, i, interface=x, method=R.NAMES[-1 - i], addr=B if i == k else MESH if rest else A, auto=False)
        cw.start(go)
        w.run()
        for c in w.calls:
            w.check(c.ok, lambda: "call %s failed: %s" % (c.name, short_tb(c.exc) if c.exc else "never ended"))
        verify(w, servers, w.calls)
        w.note(k, rest, kind)
    return scenario("names", body, 0, "confusable interface and method names", netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=40000)


def sizes():
    """Contents and headers of many sizes, one after the other on one connection."""
    ns = [0, 1, 2, 19, 20, 21, 22, 23, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537,
          131072, 262144, 10 ** 6, 2 ** 20 + 1, 2 ** 24 + 1]

    def body(w):
        kind = ("sync", "future", "oneway")[w.s.choose(["sync", "future", "oneway"], [0] * 3)]
        what = w.s.choose(["content", "header-value", "header-count", "response"], [0] * 4)
        srv = Server(w, A)
        if what == 3:
            srv.got = lambda c, f: (srv.frames.append((c, f)), f.ptype == R.REQUEST and c.reply(
                f, b"z" * ns[int(f.content.split(b"-")[1])]))
        else:
            srv.got = lambda c, f: (srv.frames.append((c, f)), f.ptype == R.REQUEST and c.reply(f))
        cw = ClientWorld(w)

        def go():
            for i, n in enumerate(ns):
                if what == 0:
                    add(w, cw, kind, i, content=b"%d:" % i + b"x" * n, auto=False)
                elif what == 1:
                    add(w, cw, kind, i, headers={"big": "v" * min(n, 32000)}, auto=False)
                elif what == 2:
                    add(w, cw, kind, i, headers=dict(("k%d" % j, "v%d" % j) for j in range(min(n, 1500))), auto=False)
                else:
                    add(w, cw, kind, i, auto=False)
        cw.start(go)
        w.run()
        for i, c in enumerate(w.calls):
            w.check(c.ok, lambda: "call %s failed: %s" % (c.name, short_tb(c.exc) if c.exc else "never ended"))
            if kind != "oneway":
                v = b"z" * ns[i] if what == 3 else b"r:" + c.extra["content"]
                w.check(c.value == v, "call %s returned something else (%d bytes instead of %d)" % (c.name, len(c.value), len(v)))
        verify(w, [srv], w.calls)
        w.note(kind, what)
    return scenario("sizes", body, 0, "contents and headers of %d sizes" % len(ns), netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=40000)


def callers(kinds, bound, name):
    """Threads preempted between any two bytecodes of a call: what one call sends is never touched by another."""
    def body(w):
        srvs = [Server(w, A, menu), Server(w, B, menu, name="sb")]
        cw = ClientWorld(w)
        cw.trace = True
        for i, k in enumerate(kinds):
            add(w, cw, k, i, "ab"[i % 2], "m%d" % i, (A, B)[i % 2], b"%d" % i * (i + 1), {"own%d" % i: "v%d" % i, "all": str(i)})
        cw.start()
        w.run()
        for c in w.calls:
            w.check(c.ok, lambda: "call %s failed on a healthy connection: %s" % (
                c.name, short_tb(c.exc) if c.exc else "never ended"))
            if c.name[0] == "c" and kinds[int(c.name[1:])] != "oneway":
                w.check(c.value == b"r:" + c.extra["content"], lambda: "call %s got %r" % (c.name, c.value))
        verify(w, srvs, w.calls)
        for srv in srvs:
            for _, f in srv.frames:
                i = int(f.content[:1])
                w.check(f.header.get("all") == str(i) and not any("own%d" % j in f.header for j in range(9) if j != i),
                        lambda: "call c%d was sent with the headers %r" % (i, f.header))
    return scenario(name, body, bound, "calls %s preempted between bytecodes" % (kinds,),
                    netopts=dict(dial_auto=True, auto=True), early_env=False)


def scenarios(tier):
    t = tier == "thorough"
    return [
        callers(["sync", "sync"], 2 if t else 1, "callers-sync"),
        callers(["future", "oneway"], 2 if t else 1, "callers-async"),
        pressure(["sync", "future"], 3 if t else 2, "pressure2", lambda n: [n, 0, 1, 22, n - 1], dial_auto=False),
        pressure(["sync", "future", "oneway"], 3 if t else 2, "pressure3", lambda n: [n, 0, 30]),
        pressure(["oneway", "oneway", "sync"], 2 if t else 1, "pressure-big", lambda n: [n, 65536, 0], big=70000),
        # a kernel that takes nothing at once: every write has to wait, whatever its size
        pressure(["sync", "future"], 3 if t else 2, "stalled", lambda n: [0], big=300000),
        pressure(["oneway", "future", "sync"], 2 if t else 1, "stalled3", lambda n: [min(n - 1, 1000)], big=200000),
        pressure(["future", "future"], 2 if t else 1, "stalled-huge", lambda n: [0, 65536], big=1600000),
        slow(["future", "oneway"], "slow-writes"),
        slow(["future", "oneway", "sync"], "slow-writes-huge", 1600000),
        slow(["sync", "sync"], "slow-writes-sync", 10),
        answered(["future"], "answered-early"),
        answered(["sync", "future"], "answered-early2"),
        routes(1 if t else 0),
        payload(tier),
        names(),
        sizes(),
    ]
