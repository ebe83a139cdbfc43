"""C08: the asyncio client keeps nothing of a call once the call is over."""
from mc.aioc import *
from checks.c05 import FServer

KINDS = ["sync", "future", "oneway"]


class LServer(FServer):
    """Every way a call can end, including answers nobody waits for any more."""

    def items(self, c, f):
        if f.ptype == R.ONEWAY:
            return [("swallow", lambda: None, 0),
                    ("answer-oneway", lambda: c.reply(f), 1),
                    ("fail-oneway", lambda: c.reply(f, b"", 3), 1)]
        other = (f.rid + 0x20000000) & 0x7fffffff
        ok = R.response(f.rid, b"r:" + f.content)
        m = lambda what, fn: (lambda: (self.mark(f, what), fn()))
        return [("ok", m("ok", lambda: c.raw(ok)), 0),
                ("status", m("error", lambda: c.reply(f, b"", 3)), 1),
                ("dup", m("ok", lambda: (c.raw(ok), c.raw(ok))), 1),
                ("dup-error", m("ok", lambda: (c.raw(ok), c.reply(f, b"", 3))), 1),
                ("unsolicited", m("ok", lambda: (c.raw(R.response(other, b"bogus")), c.raw(ok))), 1),
                ("unsolicited-error", m("ok", lambda: (c.raw(R.response(other, b"", 2)), c.raw(ok))), 1),
                ("heartbeat", m("ok", lambda: (c.raw(R.heartbeat_response(other)), c.raw(ok))), 1),
                ("bad-header", m("bad", lambda: c.raw(R.response(f.rid, b"zz", hbytes=b"\0\0\0\x09a"))), 1),
                ("cut-close", m("cut", lambda: (c.raw(ok[:-1]), c.close())), 1),
                ("ok-reset", m("ok", lambda: (c.raw(ok), c.reset())), 1),
                ("never", m("silent", lambda: None), 1),
                ("late", m("silent", lambda: self.late.append((c, f))), 1)]

    late = None

    def got(self, c, f):
        if f.content.startswith(b"flush"):
            self.frames.append((c, f))
            return c.reply(f)
        return FServer.got(self, c, f)


def history(kinds, bound, name, conn_faults=(), policy=False, dials=("ok",), clock=None, rounds=2, trace=None,
            **opts):
    """The same kinds of calls twice; after each round nothing of them may be left."""
    def body(w):
        srv = LServer(w, A, conn_faults=conn_faults)
        srv.late = []
        if policy:
            w.net.write_policy = lambda tr, data: [len(data), 0]
        if trace:
            srv.got = lambda c, f: (srv.frames.append((c, f)), c.reply(f))
        cw = ClientWorld(w)
        cw.trace = trace
        marks = []

        def late_actions():
            return [("late-answer:%s" % f.content.decode(), lambda c=c, f=f: (srv.late.remove((c, f)), c.reply(f)), 0)
                    for c, f in srv.late if any(x.extra["content"] == f.content and x.ended for x in w.calls)]
        w.s.env_sources.append(late_actions)

        def rounds_():
            for r in range(rounds):
                mine = []
                for i, k in enumerate(kinds):
                    content = b"r%d-%d" % (r, i)
                    cw.starters = []
                    nm = "c%d.%d" % (r, i)
                    if k == "sync":
                        c = cw.sync(nm, content, timeout_ms=100)
                    elif k == "future":
                        c = cw.future(nm, content)
                    else:
                        c = cw.oneway(nm, content)
                    c.extra.update(content=content)
                    mine.append(c)
                    cw.starters[0]()
                w.s.quiesce()
                # let every timeout pass and every unanswered future go
                for c in mine:
                    if not c.ended and c.future is not None:
                        c.future.cancel()
                w.s.block(lambda: all(c.ended for c in mine), 1000.0, "wait-ended")
                w.s.quiesce()
                for c in mine:
                    # what the harness itself holds on to does not count
                    c.future = None
                    if c.exc is not None:
                        c.exc = RuntimeError(type(c.exc).__name__)
                del c
                n = sum(1 for c in w.net.conns if not c.client.closed)
                if len(cw.tasks()) > n or len(cw.packages()) > n:
                    # the last thing a client did may linger in its variables; further calls push it out, unlike a leak
                    for j in range(3):
                        try:
                            cw.client.invoke_sync("a", "m", b"flush%d" % j, spanctx=cw.SpanContext(), timeout_ms=10 ** 4)
                        except Exception:
                            pass
                        w.s.quiesce()
                marks.append(dict(tasks=len(cw.tasks()), pkgs=len(cw.packages()), weight=cw.weight(),
                                  conns=sum(1 for c in w.net.conns if not c.client.closed),
                                  heard=sum(1 for c in srv.conns if c.heard and not c.conn.client.closed),
                                  ended=[c.brief()[:12] for c in mine]))
        cw.start(lambda: w.thread(rounds_, "rounds", False if trace else None))
        w.run()
        w.check(len(marks) == rounds, "a round never ended: %r" % (w.calls,))
        for i, m in enumerate(marks):
            # per connection the client may keep one task; nothing else
            w.check(m["tasks"] <= m["conns"], lambda: "after round %d all calls are over (%s) but %d tasks are pending "
                    "on the client's loop (%d open connections)" % (i, m["ended"], m["tasks"], m["conns"]))
            # (and the last package it received)
            w.check(m["pkgs"] <= m["conns"], lambda: "after round %d all calls are over (%s) but %d packages are still held"
                    % (i, m["ended"], m["pkgs"]))
        a, b = marks[0], marks[-1]
        # (a connection and the last package it received may stay)
        w.check(b["weight"] - a["weight"] <= 40 * max(0, b["conns"] - a["conns"]) + 40 * max(0, b["heard"] - a["heard"]),
                lambda: "the client's tables grew from %d to %d entries from one round of calls to the next, all calls "
                "being over (%s)" % (a["weight"], b["weight"], b["ended"]))
    return scenario(name, body, bound, "two rounds of %s, conn faults %s" % (kinds, conn_faults),
                    netopts=dict(dial_auto=dials == ("ok",), dial_outcomes=dials, auto=bool(trace)), clock_cost=clock,
                    time_horizon=5000.0, **opts)


WAYS = ["ok", "error", "silent", "dup", "unsolicited", "bad-header", "reset", "close", "late", "refused", "cut", "hb"]


def growth(n):
    """n calls of one kind and outcome, and n more: nothing grows."""
    def body(w):
        k = KINDS[w.s.choose(KINDS, [0] * 3)]
        ways = [x for x in WAYS if k != "oneway" or x in ("silent", "ok", "error", "reset", "close", "refused")]
        how = ways[w.s.choose(ways, [0] * len(ways))]
        every = w.s.choose(["every", "every-7th"], [0, 0])
        late = []
        idx = [0]

        def answer(c, f):
            i = idx[0]
            ok = R.response(f.rid, b"r:" + f.content)
            other = (f.rid + 0x20000000 + i) & 0x7fffffff
            x = how if not every or i % 7 == 0 else "ok"
            if x == "ok":
                c.raw(ok)
            elif x == "error":
                c.reply(f, b"", 3)
            elif x == "dup":
                c.raw(ok + ok)
            elif x == "unsolicited":
                c.raw(R.response(other, b"bogus") + ok)
            elif x == "hb":
                c.raw(R.heartbeat_response(other) + ok)
            elif x == "bad-header":
                c.raw(R.response(f.rid, b"zz", hbytes=b"\0\0\0\x09a"))
            elif x == "late":
                late.append((c, f))
            elif x == "reset":
                c.reset()
            elif x == "close":
                c.close()
            elif x == "cut":
                c.raw(ok[:-1])
                c.close()
            elif x == "refused":
                w.net.refused.add(A)
                c.reset()
        srv = Server(w, A)
        srv.got = lambda c, f: answer(c, f)
        cw = ClientWorld(w)
        marks = []

        def one(i):
            idx[0] = i
            c = b"g%d" % i
            if how == "refused" and i % 2 == 0:
                w.net.refused.discard(A)
            cl = cw.client
            try:
                if k == "sync":
                    cl.invoke_sync("a", "m", c, spanctx=cw.SpanContext(), timeout_ms=100)
                elif k == "oneway":
                    cl.invoke_oneway("a", "m", c, spanctx=cw.SpanContext())
                    w.s.quiesce()
                else:
                    f = cl.invoke_async("a", "m", c, spanctx=cw.SpanContext())
                    try:
                        f.result(0.2)
                    except Exception:
                        f.cancel()
            except Exception:
                pass
            while late:
                c, f = late.pop()
                c.reply(f)
            w.s.quiesce()

        def go():
            for r in range(2):
                for i in range(n):
                    one(i)
                w.net.refused.discard(A)
                srv.got = lambda c, f: c.reply(f)
                cw.client.invoke_sync("a", "m", b"healthy", spanctx=cw.SpanContext(), timeout_ms=10 ** 6)
                srv.got = lambda c, f: answer(c, f)
                w.s.quiesce()
                w.s.block(lambda: False, 1000.0, "settle")
                w.s.quiesce()
                srv.conns = [c for c in srv.conns if c.state == "open"]
                marks.append(dict(tasks=len(cw.tasks()), pkgs=len(cw.packages()), weight=cw.weight(),
                                  conns=sum(1 for c in w.net.conns if not c.client.closed)))
        cw.start(go)
        w.run()
        w.check(len(marks) == 2, lambda: "%d calls (%s, %s) never ended" % (n, k, how))
        for i, m in enumerate(marks):
            w.check(m["tasks"] <= m["conns"] <= 1, lambda: "after %d calls (%s, %s): %r" % (n * (i + 1), k, how, m))
            w.check(m["pkgs"] <= 1, lambda: "after %d calls (%s, %s) %d packages are held" % (n * (i + 1), k, how, m["pkgs"]))
        a, b = marks
        w.check(b["weight"] - a["weight"] < n / 8, lambda: "the client's tables grew from %d to %d entries with %d more calls "
                "(%s, %s)" % (a["weight"], b["weight"], n, k, how))
        w.note(k, how, every)
    return scenario("growth", body, 0, "2 x %d calls of each kind and outcome" % n, netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=400000, time_horizon=10 ** 6)


def heartbeats(n):
    """n heartbeats, treated in every way, and 4 n more: nothing grows."""
    hows = ["ok", "error", "silent", "wrong-id", "dup", "close", "reset", "refused"]

    def body(w):
        how = hows[w.s.choose(hows, [0] * len(hows))]
        calls = w.s.choose(["no calls", "calls"], [0, 0])
        srv = Server(w, MESH)

        def got(c, f):
            if f.cmdcode != R.C_HEARTBEAT:
                return c.reply(f)
            b = R.response(f.rid, b"", 3 if how == "error" else 0, cmdcode=R.C_HEARTBEAT, cls=b"")
            if how in ("ok", "error", "dup"):
                c.raw(b + (b if how == "dup" else b""))
            elif how == "wrong-id":
                c.raw(R.response((f.rid + 0x20000000) & 0x7fffffff, b"", 0, cmdcode=R.C_HEARTBEAT, cls=b""))
            elif how == "reset":
                c.reset()
            elif how == "close":
                c.close()
        srv.got = got
        if how == "refused":
            w.net.refused.add(MESH)
        cw = ClientWorld(w, mesh=True)
        marks = []

        def go():
            for k in (n, 5 * n, 9 * n):
                w.s.block(lambda: False, 30.0 * k + 20.0 - w.s.now, "%d heartbeats" % k)
                if calls and how != "refused":
                    r = cw.client.invoke_sync("other", "m", b"call", spanctx=cw.SpanContext(), timeout_ms=1000)
                    w.check(r == b"r:call", "a call between heartbeats returned %r" % r)
                w.s.quiesce()
                srv.conns = [c for c in srv.conns if c.state == "open"]
                marks.append((len(cw.tasks()), len(cw.packages()), cw.weight()))
        cw.start(go)
        w.run(lambda: len(marks) == 3)
        w.check(len(marks) == 3, "the client did not live that long")
        for i, what in enumerate(("pending tasks", "packages", "entries in its tables")):
            w.check(marks[2][i] - marks[0][i] < n, lambda: "after %d, %d and %d heartbeats (%s) the client holds %s %s" % (
                n, 5 * n, 9 * n, how, [m[i] for m in marks], what))
        w.note(how, calls)
    return scenario("heartbeats", body, 0, "%d heartbeats of each kind" % (9 * n), netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=400000, time_horizon=10 ** 6)


def scenarios(tier):
    t = tier == "thorough"
    return [
        history(["sync", "future"], 2 if t else 1, "answers"),
        history(["future"], 3 if t else 2, "answers1"),
        history(["sync"], 3 if t else 2, "timeouts", clock=1),
        history(["oneway", "sync"], 2 if t else 1, "oneway"),
        history(["future", "oneway"], 2 if t else 1, "blocked", conn_faults=("reset",), policy=True),
        history(["oneway"], 3 if t else 2, "blocked-oneway", conn_faults=("reset",), policy=True),
        history(["future"], 3 if t else 2, "blocked-future", conn_faults=("reset",), policy=True),
        history(["sync", "future"], 2 if t else 1, "callers", trace=True, early_env=False),
        history(["oneway", "sync"], 1, "callers-loop", trace=True, early_env=False, op_trace=True),
        growth(300 if t else 60),
        heartbeats(20 if t else 6),
        history(["sync"], 3 if t else 2, "conn-faults", conn_faults=("reset", "close")),
        history(["future"], 3 if t else 2, "dials", dials=("ok", "refuse")),
    ]
