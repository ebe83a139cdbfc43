"""C04: the asyncio client gives every caller the response to its own request."""
from mc.aioc import *


def expect_all(w, cw, calls, srv):
    for c, content in calls:
        w.check(c.ended, "call %r never returned although its response was delivered" % c)
        w.check(c.exc is None, lambda: "call %s failed although its response was delivered: %s"
                % (c.name, short_tb(c.exc)))
        w.check(c.value == b"r:" + content, "call %s sent %r and got %r" % (c.name, content, c.value))
    b = srv.bad()
    w.check(not b, b)


def plain(n, kinds, splits=None, extra=None, bound=1, name=None, about="", early=True):
    def body(w):
        srv = Server(w, A, extra)
        cw = ClientWorld(w)
        calls = []
        for i in range(n):
            content = b"x%d" % i
            k = kinds[i % len(kinds)]
            calls.append((getattr(cw, k)("c%d" % i, content), content))
        cw.start()
        w.run()
        expect_all(w, cw, calls, srv)
    return scenario(name, body, bound, about, netopts=dict(splits=splits), early_env=early)


def noisy(c, f):
    """Success, preceded or followed by frames nobody asked for."""
    other = (f.rid + 0x20000000) & 0x7fffffff
    ok = R.response(f.rid, b"r:" + f.content)
    return [
        ("ok", lambda: c.raw(ok), 0),
        ("dup", lambda: c.raw(ok + ok), 1),
        ("dup-error", lambda: c.raw(ok + R.response(f.rid, b"", 3)), 1),
        ("dup2", lambda: (c.raw(ok), c.raw(ok)), 1),
        ("unsolicited-first", lambda: c.raw(R.response(other, b"bogus") + ok), 1),
        ("unsolicited-after", lambda: c.raw(ok + R.response(other, b"bogus")), 1),
        ("unsolicited-error", lambda: c.raw(R.response(other, b"", 3) + ok), 1),
        ("hb-first", lambda: c.raw(R.heartbeat_response(other) + ok), 1),
        ("hb-after", lambda: c.raw(ok + R.heartbeat_response(other)), 1),
        ("next-id", lambda: c.raw(R.response((f.rid + 5) & 0x7fffffff, b"bogus") + ok), 1),
        ("unreadable-first", lambda: c.raw(R.response(other, b"", 0, hbytes=b"\0\0\0\x09abc") + ok), 1),
        ("with-header", lambda: c.raw(R.response(f.rid, b"r:" + f.content, 0, [("k", "v"), ("e", "")])), 1),
    ]


def similar(bound):
    """Responses whose ids resemble that of a pending call, before the real one: they are nobody's."""
    def body(w):
        names = ["bit%d" % i for i in range(31)] + ["zero", "complement", "previous", "negated", "sign-bit"]
        k = w.s.choose(names, [0] * len(names))
        state = {}

        def menu(c, f):
            def act():
                mine = [x.rid for _, x in srv.frames]
                rid = f.rid ^ (1 << k) if k < 31 else (0, 2 ** 31 - 1 - f.rid, max(f.rid - 1, 0), -f.rid, f.rid - 2 ** 31)[k - 31]
                if rid not in mine:
                    c.raw(R.response(rid, b"bogus"))
                c.reply(f)
            return [("ok", act, 0)]
        srv = Server(w, A, menu)
        cw = ClientWorld(w)
        calls = [(cw.sync("c0", b"x0"), b"x0"), (cw.future("c1", b"x1"), b"x1")]
        cw.start()
        w.run()
        expect_all(w, cw, calls, srv)
    return scenario("similar-ids", body, bound, "foreign responses with similar ids", netopts=dict(dial_auto=True), early_env=False)


def late(bound):
    """Call 0 times out; its response comes late, before, between or after those of calls 1 and 2."""
    def body(w):
        st = {"late": None}

        def menu(c, f):
            if f.content == b"x0":
                return [("late", lambda: c.reply(f), 0 if w.calls[0].ended else 9)]
            return [("ok", lambda: c.reply(f), 0)]
        srv = Server(w, A, menu)
        cw = ClientWorld(w)

        def go():
            cw.sync("c0", b"x0", timeout_ms=50, auto=False)
            c1 = cw.sync("c1", b"x1")
            c2 = cw.future("c2", b"x2")
            for f in cw.starters:
                f()
        cw.start(go)
        w.run()
        c0 = w.calls[0]
        w.check(c0.ended and isinstance(c0.exc, Exception) or c0.value == b"r:x0", "call 0 was %r" % c0)
        expect_all(w, cw, [(w.calls[1], b"x1"), (w.calls[2], b"x2")], srv)
    return scenario("late-response", body, bound, "a timed-out call's response arrives at any later moment",
                    netopts=dict(dial_auto=True))


def contents(bound):
    """Responses of every shape."""
    def body(w):
        x = R.ODD[w.s.choose(["content%d" % i for i in range(len(R.ODD))], [0] * len(R.ODD))]
        h = [(), [("k", "v")], [("", "")], [("rpc_trace_context.sofaRpcId", "x")]]
        h = h[w.s.choose(["header%d" % i for i in range(len(h))], [0] * len(h))]
        srv = Server(w, A, lambda c, f: [("ok", lambda: c.raw(R.response(f.rid, x if f.content != b"x2" else b"r:x2", 0, h)), 0)])
        cw = ClientWorld(w)
        cs = [cw.sync("c0", b"x0"), cw.future("c1", b"x1"), cw.sync("c2", b"x2")]
        cw.start()
        w.run()
        for c in cs:
            v = b"r:x2" if c.name == "c2" else x
            w.check(c.ok and type(c.value) is bytes and c.value == v, lambda: "the response to call %s holds %r; it %s" % (
                c.name, v[:40], ("raised " + short_tb(c.exc)) if c.exc else "returned %r" % (c.value[:40] if c.value else c.value,)))
    return scenario("contents", body, bound, "response contents and headers of every shape",
                    netopts=dict(dial_auto=True, auto=True), early_env=False)


def slow(bound):
    """Responses that take (virtual) seconds to minutes, in time for their calls."""
    ts = [0.5, 2.0, 5.5, 11.0, 31.0, 61.0, 150.0, 700.0, 999.0]

    def body(w):
        T = ts[w.s.choose([str(x) for x in ts], [0] * len(ts))]
        st = {"go": False}
        srv = Server(w, A, lambda c, f: [("ok", lambda: c.reply(f), 0)] if st["go"] else [])
        cw = ClientWorld(w)
        calls = [(cw.sync("c0", b"x0"), b"x0"), (cw.future("c1", b"x1"), b"x1")]

        def clock():
            w.s.block(lambda: False, T, "slow-server")
            st["go"] = True
        cw.start(lambda: w.thread(clock, "clock"))
        w.run()
        expect_all(w, cw, calls, srv)
        w.note(T)
    return scenario("slow-responses", body, bound, "responses after up to %s s" % ts[-1],
                    netopts=dict(dial_auto=True, auto=True), early_env=False, time_horizon=5000.0)


def many(sizes, name, rounds=1):
    """Many calls at once on one connection, answered in several orders, and many one after the other."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        order = ["forward", "backward", "odd-first", "one-write"]
        order = order[w.s.choose(order, [0] * len(order))]
        inbox = []
        srv = Server(w, A)

        def collect(c, f):
            srv.frames.append((c, f))
            inbox.append((c, f))
            if len(inbox) == n:
                fs = {"forward": inbox, "one-write": inbox, "backward": inbox[::-1],
                      "odd-first": inbox[1::2] + inbox[::2]}[order]
                if order == "one-write":
                    c.raw(b"".join(R.response(f.rid, b"r:" + f.content) for c, f in fs))
                else:
                    for c, f in fs:
                        c.reply(f)
                del inbox[:]
        srv.got = collect
        cw = ClientWorld(w)
        st = {}

        def go():
            for r in range(rounds):
                fs = [(b"%d.%d" % (r, i), cw.client.invoke_async("a", "m", b"%d.%d" % (r, i), spanctx=cw.SpanContext()))
                      for i in range(n)]
                for x, f in fs:
                    v = f.result(3600)
                    w.check(v.content == b"r:" + x, lambda: "call %r of %d concurrent ones got %r" % (x, n, v.content))
            st["done"] = True
        cw.start(go)
        w.run()
        w.check(st.get("done"), "%d concurrent calls did not all end (%s)" % (n, w.s.reason))
        w.check(not srv.bad(), lambda: srv.bad())
        w.check(len(srv.conns) == 1, "%d calls used %d connections" % (n, len(srv.conns)))
    return scenario(name, body, 0, "up to %d concurrent calls on one connection" % max(sizes),
                    netopts=dict(dial_auto=True, auto=True), early_env=False, horizon=400000)


def many_threads(sizes):
    """Many threads in synchronous calls at once, then once more."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        back = w.s.choose(["forward", "backward"], [0, 0])
        inbox = []
        srv = Server(w, A)

        def collect(c, f):
            srv.frames.append((c, f))
            inbox.append((c, f))
            if len(inbox) == n:
                for c, f in (inbox[::-1] if back else inbox):
                    c.reply(f)
                del inbox[:]
        srv.got = collect
        cw = ClientWorld(w)
        calls = []

        def worker(i):
            def run():
                for r in range(2):
                    x = b"%d.%d" % (r, i)
                    calls.append((cw.sync("c%d.%d" % (i, r), x, auto=False), x))
            return run
        cw.start(lambda: [w.thread(worker(i), "t%d" % i) for i in range(n)])
        w.run()
        w.check(len(calls) == 2 * n, lambda: "%d of %d calls ended" % (len(calls), 2 * n))
        expect_all(w, cw, calls, srv)
    return scenario("many-threads", body, 0, "up to %d threads in synchronous calls" % max(sizes),
                    netopts=dict(dial_auto=True, auto=True), early_env=False, horizon=400000)


def sequential(bound):
    """Two callers, two calls each, one connection: responses of different rounds overlap."""
    def body(w):
        srv = Server(w, A, noisy)
        cw = ClientWorld(w)
        cs = []

        def worker(k):
            def run():
                for i in range(2):
                    content = b"w%d-%d" % (k, i)
                    c = cw.sync("w%d.%d" % (k, i), content, auto=False)
                    cs.append((c, content))
            return run
        cw.start(lambda: [w.thread(worker(k), "worker%d" % k) for k in range(2)])
        w.run()
        w.check(len(cs) == 4, "a worker never finished: %r" % w.calls)
        expect_all(w, cw, cs, srv)
    return scenario("two-rounds", body, bound, "two callers with two calls each, foreign frames mixed in",
                    netopts=dict(dial_auto=True))


def two_servers(bound):
    def body(w):
        sa, sb = Server(w, A, name="A"), Server(w, B, name="B")
        cw = ClientWorld(w)
        cs = [(cw.sync("c0", b"x0", "a"), b"x0"), (cw.future("c1", b"x1", "b"), b"x1"),
              (cw.sync("c2", b"x2", "a"), b"x2")]
        cw.start()
        w.run()
        expect_all(w, cw, cs, sa)
        expect_all(w, cw, cs, sb)
    return scenario("two-servers", body, bound, "calls to two addresses at once")


def callers(kinds, bound, name, loop=False):
    """Threads preempted between any two bytecodes of a call, the event loop's thread too if loop is set."""
    def body(w):
        inbox = []
        srv = Server(w, A)

        def collect(c, f):
            # answered together, the last one first
            srv.frames.append((c, f))
            inbox.append((c, f))
            if len(inbox) == len(kinds):
                for c, f in inbox[::-1]:
                    c.reply(f)
        srv.got = collect
        cw = ClientWorld(w)
        cw.trace = True
        calls = [(getattr(cw, k)("c%d" % i, b"%d" % i * (i + 1)), b"%d" % i * (i + 1)) for i, k in enumerate(kinds)]
        cw.start()
        w.run()
        expect_all(w, cw, calls, srv)
    return scenario(name, body, bound, "calls %s preempted between bytecodes" % (kinds,),
                    netopts=dict(dial_auto=True, auto=True), early_env=False, op_trace=loop)


def errors_apart(bound, name, early):
    """Servers at two addresses answer with different errors at once: each caller gets its own."""
    def body(w):
        sa, sb = Server(w, A, name="A"), Server(w, B, name="B")
        sent = {}

        def answering(srv):
            def m(c, f):
                if f.content.startswith(b"ref"):
                    return [("ref", lambda: c.reply(f, b"", int(f.content[3:])), 0)]

                def act(x):
                    sent[f.content] = x
                    c.reply(f, None if not x else b"", x)
                return [("status%d" % x, lambda x=x: act(x), 0) for x in (0, 3, 8)]
            srv.menu = m
        answering(sa)
        answering(sb)
        cw = ClientWorld(w, routes={"a": A, "b": B})
        ref = {}

        def then():
            for x in (3, 8):
                cw.sync("ref%d" % x, b"ref%d" % x, "ab"[x == 8], auto=False)
                ref[x] = w.calls[-1]
            for i, k in enumerate("ab"):
                c = Call("c%d" % i)
                c.extra["content"] = b"x%d" % i
                w.calls.append(c)
                w.thread(lambda c=c, k=k: w.perform(c, lambda: cw.client.invoke_sync(
                    k, "m", c.extra["content"], spanctx=cw.SpanContext(), timeout_ms=10 ** 6)), c.name)
        cw.start(then)
        w.run()
        for c in w.calls[2:]:
            x = sent.get(c.extra["content"])
            w.check(c.ended and x is not None, lambda: "call %s: %r" % (c.name, c))
            if not x:
                w.check(c.ok and c.value == b"r:" + c.extra["content"], lambda: "call %s: %r" % (c.name, c))
            else:
                w.check(c.exc is not None and type(c.exc) is type(ref[x].exc) and str(c.exc) == str(ref[x].exc),
                        lambda: "call %s was answered with status %d and got %r" % (c.name, x, c.exc or c.value))
    return scenario(name, body, bound, "different errors from two addresses at once", netopts=dict(dial_auto=True, auto=False), early_env=early)


def scenarios(tier):
    t = tier == "thorough"
    return [
        callers(["sync", "sync"], 2 if t else 1, "callers-sync"),
        callers(["future", "future"], 2 if t else 1, "callers-async"),
        callers(["sync", "future"], 2 if t else 1, "callers-loop", True),
        plain(3, ["sync", "future"], bound=2 if t else 1, name="orders", about="3 concurrent calls, all answer and "
              "delivery orders, preemptions of every thread"),
        plain(2, ["sync"], splits=half, bound=3 if t else 2, name="fragments", about="2 calls, responses split at "
              "header boundaries and inside"),
        plain(2, ["sync", "future"], extra=noisy, bound=3 if t else 2, name="foreign-frames", about="2 calls with "
              "duplicate, unsolicited, error, heartbeat and unreadable frames around the answers"),
        similar(1 if t else 0),
        late(3 if t else 2),
        slow(1 if t else 0),
        contents(0),
        many((1, 7, 16, 33, 65, 101, 129, 260, 1030) + ((520, 2060, 5000) if t else ()), "many-at-once"),
        many_threads((3, 20, 66, 130) if t else (3, 20, 66)),
        many((1, 2, 5), "many-rounds", 300 if t else 110),
        sequential(2 if t else 1),
        two_servers(2 if t else 1),
        errors_apart(2 if t else 1, "errors-apart", True),
    ]
