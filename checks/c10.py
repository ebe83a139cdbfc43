"""C10: oneway calls are oneway on the wire: marked, executed exactly once and never answered."""
from mc.lsn import *
from mc import lsn, aioc
from checks import c11


def one(kindname):
    names = GOOD[:2] + LARGE + ["none", "text"] + ERRORS + UNDISPATCHABLE + sorted(set(MALFORMED + NEARLY))

    def fn(n, rid, content=b"x"):
        b, pred, runs = kind(n, rid, content, ptype=R.ONEWAY)
        return b, runs
    return names, fn


def single(k, bound, name):
    """A oneway request of every kind; on the asyncio listener ordinary requests around it."""
    def body(w):
        lw = ListenerWorld(w, k)
        names, mk = one(k)
        n = names[w.s.choose(names, [0] * len(names))]
        b, runs = mk(n, 0x101, b"oneway")
        exp, steps = {}, []
        if k == "aio":
            b1, pred1, r1 = kind("echo", 0x100, b"before")
            b2, pred2, r2 = kind("echo", 0x102, b"after")
            exp = {0x100: pred1, 0x102: pred2}
            runs = runs + r1 + r2
            steps = [("send", b1, "before"), ("send", b, n), ("send", b2, "after")]
        else:
            steps = [("send", b, n)]
        p = Peer(lw, steps)
        lw.start(settle=5.0)
        lw.run()
        lw.judge_peer(p, exp)
        judge_runs(lw, runs)
    return scenario(name, body, bound, "a oneway request of every kind (%s listener)" % k, netopts=dict(auto=True))


def cut(k, name):
    """A oneway request cut at every offset is neither executed nor answered."""
    def body(w):
        lw = ListenerWorld(w, k)
        x = ["oneway", "bare"][w.s.choose(["oneway", "bare"], [0, 0])]
        b, _, runs = kind("bare" if x == "bare" else "echo", 0x101, b"oneway", ptype=R.ONEWAY)
        n = w.s.choose(["@%d" % i for i in range(len(b) + 1)], [0] * (len(b) + 1))
        how = ["eof", "close", "reset"][w.s.choose(["eof", "close", "reset"], [0] * 3)]
        p = Peer(lw, [("send", b[:n])] * (n > 0) + [(how,)])
        lw.start(settle=5.0)
        lw.run()
        w.check(not p.frames, lambda: "a oneway request was answered: %r" % p.frames)
        if n < len(b):
            judge_runs(lw, [])
        else:
            got = [(r.method, r.body) for r in lw.runs]
            w.check(got == runs, lambda: "a complete oneway request ran %r" % (got,))
    return scenario(name, body, 0, "a oneway request cut at every offset (%s listener)" % k, netopts=dict(auto=True))


def fields(k, name):
    """A oneway request of every kind, whatever its other fields are."""
    def body(w):
        return c11.fields_body(w, k, R.ONEWAY)
    return scenario(name, body, 0, "a oneway request of every kind, timeout and id (%s listener)" % k, netopts=dict(auto=True), early_env=False)


def orders(kinds, bound, name):
    """oneway (o-...) and two-way requests on one connection of the asyncio listener, all completion orders."""
    def body(w):
        lw = ListenerWorld(w, "aio")
        data, exp, runs = b"", {}, []
        for i, n in enumerate(kinds):
            ow = n.startswith("o-")
            b, pred, rr = kind(n[2:] if ow else n, 0x200 + i, b"b%d" % i, **(dict(ptype=R.ONEWAY) if ow else {}))
            if not ow:
                exp[0x200 + i] = pred
            runs += rr
            data += b
        p = Peer(lw, [("send", data, "all")])
        lw.start()
        lw.run()
        lw.judge_peer(p, exp)
        judge_runs(lw, runs)
    return scenario(name, body, bound, "concurrent %s" % kinds)


def timeouts(bound):
    """A oneway request with a timeout shorter than its service."""
    def body(w):
        lw = ListenerWorld(w, "aio")
        t = [1, 50, -1, 0][w.s.choose(["1", "50", "-1", "0"], [0] * 4)]
        b, _, runs = kind("wait", 0x300, b"slow", ptype=R.ONEWAY, timeout=t)
        b2, pred2, r2 = kind("wait", 0x301, b"two", timeout=t)
        p = Peer(lw, [("send", b + b2, "all")])
        lw.start(settle=10.0)
        lw.run()
        lw.judge_peer(p, {0x301: anyof(pred2, failure(7)) if t > 0 else pred2})
        judge_runs(lw, runs + r2)
    return scenario("timeouts", body, bound, "a oneway request outliving its timeout", clock_cost=0)


def queued(bound):
    """A oneway request behind more requests than the listener works on at once, whatever its timeout and its peer do."""
    def body(w):
        lw = ListenerWorld(w, "aio")
        lw.auto_gates = False
        n = 40
        t = [-1, 1, 100, 5000][w.s.choose(["-1", "1", "100", "5000"], [0] * 4)]
        how = ["stays", "eof", "close", "reset"]
        how = how[w.s.choose(how, [0] * 4)]
        data, runs = b"", []
        for i in range(n):
            b, _, rr = kind("wait", 0x600 + i, b"w%02d" % i)
            data += b
            runs += rr
        ow, _, rr = kind("echo", 0x700, b"oneway", ptype=R.ONEWAY, timeout=t)
        busy = Peer(lw, [("send", data, "all")])
        p = Peer(lw, [], manual=True, name="q")

        def then():
            w.s.quiesce()
            p.connect()
            p.step(("send", ow))
            w.s.quiesce()
            if how != "stays":
                p.step((how,))
            w.s.quiesce()
            w.s.block(lambda: False, 10.0, "long")
            for i in range(n):
                for k in list(lw.gates):
                    lw.gates[k] = True
                w.s.quiesce()
        lw.start(then, settle=2.0)
        lw.run()
        w.check(not p.frames, lambda: "a oneway request was answered: %r" % p.frames)
        judge_runs(lw, runs + rr)
        w.note(t, how)
    return scenario("queued", body, bound, "a oneway request waiting for a worker", netopts=dict(auto=True), time_horizon=5000.0)


def unread(bound):
    """The peer of the asyncio listener does not read its responses: its oneway requests are executed all the same."""
    def body(w):
        lw = ListenerWorld(w, "aio")
        n = [1, 2, 20][w.s.choose(["1", "2", "20"], [0] * 3)]
        first = ["echo", "heartbeat", "noservice", "huge"]
        first = first[w.s.choose(first, [0] * 4)]
        how = ["reset", "reads on"]
        how = how[w.s.choose(how, [0] * 2)]
        w.net.write_policy = lambda tr, data: [0]
        w.net.never_drain = True
        runs = []
        p = Peer(lw, [], manual=True)

        def then():
            p.connect()
            for i in range(n):
                if first == "huge":
                    b, rr = req(i, "huge", b"h%d" % i), [("huge", b"h%d" % i)]
                else:
                    b, _, rr = kind(first, i, b"f%d" % i)
                runs.extend(rr)
                p.step(("send", b))
            w.s.quiesce()
            for i in range(2):
                b, _, rr = kind("echo", 0x700 + i, b"oneway%d" % i, ptype=R.ONEWAY)
                runs.extend(rr)
                p.step(("send", b))
            w.s.quiesce()
            if how == "reset":
                p.step(("reset",))
            else:
                w.net.never_drain = False
                w.net.write_policy = None
            w.s.quiesce()
        lw.start(then, settle=2.0)
        lw.run()
        w.check(not any(f.rid >= 0x700 for f in p.frames), lambda: "a oneway request was answered: %r" % p.frames)
        judge_runs(lw, runs)
        w.note(n, first, how)
    return scenario("unread", body, bound, "a peer that does not read", netopts=dict(auto=True), time_horizon=5000.0)


def aio_client(bound, name, conn_faults=()):
    """The asyncio client: one frame per oneway call, marked; the caller does not wait for the server."""
    from checks.c05 import FServer

    def body(w):
        srv = FServer(w, aioc.A)
        srv.menu = lambda c, f: [("swallow", lambda: None, 0)] if f.ptype == R.ONEWAY else \
            [("ok", lambda: c.reply(f), 0)]
        cw = aioc.ClientWorld(w)
        cw.oneway("o0", b"o0")
        cw.sync("c1", b"c1")
        cw.oneway("o2", b"o2")
        for c in w.calls:
            c.extra["content"] = c.name.encode()
        cw.start()
        w.run()
        frames = [f for _, f in srv.frames]
        for c in w.calls:
            w.check(c.ended and c.exc is None, lambda: "%s: %s" % (c.name, short_tb(c.exc) if c.exc else "never returned"))
            mine = [f for f in frames if f.content == c.name.encode()]
            w.check(len(mine) == 1, lambda: "%d frames were sent for %s" % (len(mine), c.name))
            f = mine[0]
            want = R.ONEWAY if c.name.startswith("o") else R.REQUEST
            w.check(f.ptype == want, lambda: "the frame of %s is marked %d instead of %d" % (c.name, f.ptype, want))
            w.check(f.header.get("sofa_head_method_name") == "m" and f.header.get("sofa_head_target_service") == "a",
                    lambda: "wrong header %r" % f.header)
            if c.name.startswith("o"):
                w.check(c.value is None and c.t1 == c.t0, "a oneway call returned %r after %s s" % (c.value, c.t1 - c.t0))
        w.check(not srv.bad(), lambda: srv.bad())
    return aioc.scenario(name, body, bound, "oneway calls of the asyncio client", netopts=dict(dial_auto=True))


def many(k, sizes):
    """Many oneway requests, alone or among two-way ones: each executed once, none answered."""
    def body(w):
        lw = ListenerWorld(w, k)
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        m = ["echo", "boom", "none", "noservice", "mixed"]
        m = m[w.s.choose(m, [0] * len(m))]
        two = [0, 2, 7][w.s.choose(["oneway only", "every 2nd", "every 7th"], [0] * 3)] if k == "aio" else 0
        exp, runs, bs = {}, [], []
        for i in range(n):
            kn = m if m != "mixed" else ["echo", "boom", "noservice", "dangling-key", "text"][i % 5]
            if two and i % two == 0:
                b, pred, rr = kind("echo", 0x1000 + i, b"t%d" % i)
                exp[0x1000 + i] = pred
            else:
                b, pred, rr = kind(kn, 0x1000 + i, b"o%d" % i, ptype=R.ONEWAY)
            runs += rr
            bs.append(b)
        ps = []

        def then():
            for b in ([b"".join(bs)] if k == "aio" else bs):
                p = Peer(lw, [("send", b)], name="p", manual=True)
                p.connect()
                p.step()
                ps.append(p)
            w.s.quiesce()
        lw.start(then, settle=5.0)
        lw.run()
        for p in ps:
            lw.judge_peer(p, exp)
        judge_runs(lw, runs)
        w.note(n, m, two)
    return scenario("many-%s" % k, body, 0, "up to %d oneway requests (%s listener)" % (max(sizes), k), netopts=dict(auto=True),
                    early_env=False, horizon=400000)


def many_calls(k, sizes):
    """Many oneway calls of a client, with and without two-way ones between them."""
    from checks.c15 import BServer, BlockingWorld

    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        two = [0, 2, 7][w.s.choose(["oneway only", "every 2nd", "every 7th"], [0] * 3)]
        srv = BServer(w, aioc.A)
        srv.on_frame = lambda c, f: f.ptype == R.REQUEST and (srv.mark(f, "ok"), c.reply(f))
        st = {}
        cw = aioc.ClientWorld(w) if k == "aio" else BlockingWorld(w)

        def go():
            kw = dict(spanctx=cw.SpanContext())
            for i in range(n):
                if two and i % two == 0:
                    r = cw.client.invoke_sync("a", "m", b"t%d" % i, timeout_ms=10 ** 5, **kw)
                    w.check(r == b"r:t%d" % i, "a call between oneway calls returned %r" % r)
                else:
                    t = w.s.now
                    r = cw.client.invoke_oneway("a", "m", b"o%d" % i, **kw)
                    w.check(r is None and w.s.now == t, "oneway call %d returned %r after %s s" % (i, r, w.s.now - t))
            w.s.quiesce()
            st["done"] = True
        if k == "aio":
            cw.start(go)
            w.run()
        else:
            def main():
                w.setup(lambda: setattr(cw, "client", cw.anthunder.Client("app")))
                go()
            w.thread(main, "main")
            w.run()
        w.check(st.get("done"), "the calls did not end")
        got = sorted((f.content, f.ptype) for _, f in srv.frames)
        want = sorted((b"t%d" % i, R.REQUEST) if two and i % two == 0 else (b"o%d" % i, R.ONEWAY) for i in range(n))
        w.check(got == want, lambda: "the server received %d frames, expected %d: %r" % (
            len(got), len(want), [x for x in got if x not in want][:3] + [x for x in want if x not in got][:3]))
        w.check(not srv.bad(), lambda: srv.bad())
        w.note(n, two)
    return aioc.scenario("many-calls-%s" % k, body, 0, "up to %d oneway calls (%s client)" % (max(sizes), k),
                         netopts=dict(dial_auto=True, auto=True), early_env=False, horizon=400000)


def silent_server(name):
    """Nothing is ever read or accepted by the server: the oneway call returns all the same."""
    def body(w):
        w.net.listen(aioc.A, lambda conn: aioc.ScriptSink(conn.server))
        cw = aioc.ClientWorld(w)
        dial = w.s.choose(["accept", "never", "refuse"], [0, 0, 0])
        if dial == 1:
            w.net.dial_outcomes = ()
        elif dial == 2:
            w.net.refused.add(aioc.A)
        cw.oneway("o0", b"o0")
        cw.start()
        w.run()
        c = w.calls[0]
        w.check(c.ended and c.exc is None and c.t1 == c.t0, lambda: "the oneway call %r, %s" % (c, c.exc))
    return aioc.scenario(name, body, 1, "a oneway call to a server that does not react")


def blocking_client(bound, name):
    def body(w):
        from checks.c15 import BServer, BlockingWorld
        bw = BlockingWorld(w)
        srv = BServer(w, aioc.A)
        srv.on_frame = lambda c, f: None if f.ptype == R.ONEWAY else c.reply(f)
        if bound:
            w.net.send_policy = lambda sk, data: [len(data), 1, len(data) - 1]
        c0 = bw.oneway("o0", b"o0")
        c1 = bw.sync("c1", b"c1", timeout_ms=500)
        c2 = bw.oneway("o2", b"o2")
        bw.start([c0, c1, c2])
        w.run(bw.over)
        frames = [f for _, f in srv.frames]
        for c in w.calls:
            w.check(c.ended and c.exc is None, lambda: "%s: %s" % (c.name, short_tb(c.exc) if c.exc else "never returned"))
            mine = [f for f in frames if f.content == c.name.encode()]
            w.check(len(mine) == 1, lambda: "%d frames were sent for %s" % (len(mine), c.name))
            want = R.ONEWAY if c.name.startswith("o") else R.REQUEST
            w.check(mine[0].ptype == want, lambda: "the frame of %s is marked %d" % (c.name, mine[0].ptype))
            if c.name.startswith("o"):
                w.check(c.value is None and c.t1 == c.t0, "a oneway call returned %r after %s s" % (c.value, c.t1 - c.t0))
        w.check(not srv.bad(), lambda: srv.bad())
    return scenario(name, body, bound, "oneway calls of the blocking client",
                    netopts=dict(auto=True, dial_auto=True))


def scenarios(tier):
    t = tier == "thorough"
    return [
        single("aio", 1 if t else 0, "single-aio"),
        single("sock", 1 if t else 0, "single-sock"),
        fields("aio", "fields-aio"),
        fields("sock", "fields-sock"),
        cut("aio", "cut-aio"),
        cut("sock", "cut-sock"),
        orders(["o-wait", "wait", "o-boom"], 3 if t else 2, "orders1"),
        orders(["wait", "o-waitboom", "o-noservice", "wait"], 2 if t else 1, "orders2"),
        orders(["o-dangling-key", "o-echo", "echo"], 3 if t else 2, "orders3"),
        timeouts(2 if t else 1),
        queued(1 if t else 0),
        unread(1 if t else 0),
        aio_client(2 if t else 1, "aio-client"),
        many("aio", (5, 35, 130, 300)),
        many("sock", (5, 35, 130)),
        many_calls("aio", (5, 35, 130, 300)),
        many_calls("blocking", (5, 35, 130)),
        silent_server("silent-server"),
        blocking_client(1 if t else 0, "blocking-client"),
        blocking_client(2 if t else 1, "blocking-client-short-writes"),
    ]
