"""C05: a failed asyncio call ends with an error: no hang, no silent or wrong success."""
from mc.aioc import *

EPS = 0.001
INTERNAL = (LookupError, AttributeError, NameError, TypeError, AssertionError, RecursionError)


def judge(w, srv, timeouts=(), must_end=True):
    """Every call ended properly, given what the server did (srv.fate: content -> list of what was done)."""
    import anthunder.exceptions as X
    for c in w.calls:
        content = c.extra["content"]
        fate = srv.fate.get(content, [])
        if not c.ended:
            lost = any(x.conn.client.closed or x.conn.client.got_eof or x.conn.client.got_rst for x in srv.conns
                       if any(f.content == content for f in x.frames))
            w.check(c.extra.get("mayhang") and not lost and fate in ([], ["silent"])
                    and any(f.content == content for _, f in srv.frames),
                    lambda: "call %s never ended (the server did %r with it, connection %s)"
                    % (c.name, fate, "lost" if lost else "open"))
            continue
        t = c.extra.get("timeout")
        if t is not None:
            w.check(c.t1 - c.t0 <= t / 1000.0 + EPS, lambda: "call %s took %.3f s, its timeout is %.3f s"
                    % (c.name, c.t1 - c.t0, t / 1000.0))
        if c.exc is None:
            w.check("ok" in fate and c.value == b"r:" + content, lambda: "call %s returned %r although the server did "
                    "%r with it" % (c.name, c.value, fate))
        else:
            w.check(isinstance(c.exc, Exception), lambda: "call %s raised %r" % (c.name, c.exc))
            w.check(not isinstance(c.exc, INTERNAL), lambda: "call %s ended with an internal error: %s"
                    % (c.name, short_tb(c.exc)))
            if fate == ["error"] or fate == ["refused"]:
                w.check(isinstance(c.exc, X.PyboltError) or t is not None and c.t1 - c.t0 >= t / 1000.0 - EPS,
                        lambda: "call %s got %s and raised %r, not a library error" % (c.name, fate, c.exc))
    b = srv.bad()
    w.check(not b or any(c.state != "open" for c in srv.conns), b)


# well-formed frames with the request's id and a success status that are no responses
WRONG = {"class-other": dict(cls=b"com.alipay.Other"), "class-none": dict(cls=b""), "class-request": dict(cls=R.REQ_CLASS),
         "class-longer": dict(cls=R.RESP_CLASS + b"V2"), "class-shorter": dict(cls=R.RESP_CLASS[:-1]),
         "class-lower": dict(cls=R.RESP_CLASS.lower()), "class-inner": dict(cls=b"x." + R.RESP_CLASS),
         "cmd-heartbeat": dict(cmdcode=R.C_HEARTBEAT), "cmd-heartbeat-bare": dict(cmdcode=R.C_HEARTBEAT, cls=b""),
         "cmd-request": dict(cmdcode=R.C_REQUEST), "cmd-request-class": dict(cmdcode=R.C_REQUEST, cls=R.REQ_CLASS)}


class FServer(Server):
    def __init__(self, w, addr=A, statuses=(3,), faults=(), conn_faults=(), name="s"):
        Server.__init__(self, w, addr, self.items, self.conn_items if conn_faults else None, name)
        self.fate = {}
        self.statuses, self.faults, self.conn_faults = statuses, faults, conn_faults

    def mark(self, f, what):
        self.fate.setdefault(f.content, []).append(what)

    def items(self, c, f):
        m = lambda what, fn: (lambda: (self.mark(f, what), fn()))
        out = [("ok", m("ok", lambda: c.reply(f)), 0)]
        for st in self.statuses:
            out.append(("status%d" % st, m("error", lambda st=st: c.reply(f, b"", st)), 1))
        for k in self.faults:
            if k == "silent":
                out.append((k, m("silent", lambda: None), 1))
            elif k == "bad-status":
                out.append((k, m("bad", lambda: c.raw(R.response(f.rid, b"zz", 0x77))), 1))
            elif k == "bad-header":
                out.append((k, m("bad", lambda: c.raw(R.response(f.rid, b"zz", hbytes=b"\0\0\0\x09a"))), 1))
            elif k == "bad-utf8":
                out.append((k, m("bad", lambda: c.raw(R.response(f.rid, b"zz", hbytes=b"\0\0\0\1\xff\0\0\0\1a"))), 1))
            elif k == "bad-codec":
                out.append((k, m("bad", lambda: c.raw(R.response(f.rid, b"zz", codec=77))), 1))
            elif k == "request-cmd":
                out.append((k, m("bad", lambda: c.raw(R.response(f.rid, b"zz", cmdcode=R.C_REQUEST))), 1))
            elif k in WRONG:
                out.append((k, m("bad", lambda k=k: c.raw(R.response(f.rid, b"zz", **WRONG[k]))), 1))
            elif k == "error-content":
                out.append((k, m("error", lambda: c.raw(R.response(f.rid, b"r:" + f.content, 2))), 1))
            elif k == "cut-reset":
                out.append((k, m("cut", lambda: (c.raw(R.response(f.rid, b"r:" + f.content)[:-1]), c.reset())), 1))
            elif k == "cut-close":
                out.append((k, m("cut", lambda: (c.raw(R.response(f.rid, b"r:" + f.content)[:-1]), c.close())), 1))
            elif k == "cut-close-early":
                out.append((k, m("cut", lambda: (c.raw(R.response(f.rid, b"r:" + f.content)[:7]), c.close())), 1))
            elif k == "ok-close":
                out.append((k, m("ok", lambda: (c.reply(f), c.close())), 1))
            elif k == "ok-reset":
                out.append((k, m("ok", lambda: (c.reply(f), c.reset())), 1))
        return out

    def conn_items(self, c):
        out = []
        if "close" in self.conn_faults:
            out.append(("close", c.close, 1))
        if "reset" in self.conn_faults:
            out.append(("reset", c.reset, 1))
        return out


def go(w, cw, kinds, timeout=500, **kw):
    for i, k in enumerate(kinds):
        content = b"x%d" % i
        if k == "sync":
            c = cw.sync("c%d" % i, content, timeout_ms=timeout, **kw)
            c.extra.update(content=content, timeout=timeout)
        else:
            c = cw.future("c%d" % i, content, **kw)
            c.extra.update(content=content, mayhang=True)


def answers(kinds, bound, name, trace=None, opts={}, **f):
    def body(w):
        srv = FServer(w, A, **f)
        cw = ClientWorld(w)
        cw.trace = trace
        go(w, cw, kinds)
        cw.start()
        w.run()
        judge(w, srv)
    return scenario(name, body, bound, "answers: " + repr(f), netopts=dict(dial_auto=True, auto=bool(trace)), **opts)


def dials(kinds, bound, name):
    """The dial is refused or times out."""
    def body(w):
        srv = FServer(w, A)
        cw = ClientWorld(w)
        go(w, cw, kinds)
        cw.start()
        refused = []
        w.run()
        for c in w.calls:
            if not any(f.content == c.extra["content"] for _, f in srv.frames):
                srv.fate[c.extra["content"]] = ["refused"]
        judge(w, srv)
    return scenario(name, body, bound, "each dial may be accepted, refused or time out",
                    netopts=dict(dial_outcomes=("ok", "refuse", "timeout")))


def lost(kinds, bound, name, policy=True):
    """The connection is lost at any moment, under back pressure."""
    def body(w):
        srv = FServer(w, A, statuses=(), conn_faults=("close", "reset"))
        if policy:
            w.net.write_policy = lambda tr, data: [len(data), 0]
        cw = ClientWorld(w)
        go(w, cw, kinds)
        cw.start()
        w.run()
        judge(w, srv)
    return scenario(name, body, bound, "close or reset at every moment, with the kernel refusing bytes",
                    netopts=dict(dial_auto=True))


def clock(kinds, bound):
    """The timeout races with the answer, the dial and the loss of the connection."""
    def body(w):
        srv = FServer(w, A, faults=("silent",), conn_faults=("reset",))
        cw = ClientWorld(w)
        go(w, cw, kinds)
        cw.start()
        w.run()
        judge(w, srv)
    return scenario("clock", body, bound, "the caller's timeout expires at any moment", clock_cost=1)


def deadlines(name):
    """Timeouts of every size, against every way a server may keep a call waiting."""
    ts = [0, 0.25, 1, 100, 999.5, 1500, 3600000, -1]

    def body(w):
        t = ts[w.s.choose(["%s ms" % x for x in ts], [0] * len(ts))]
        how = ["answers", "answers-late", "silent", "partial", "never-dials", "stalled"]
        how = how[w.s.choose(how, [0] * len(how))]
        srv = FServer(w, A, statuses=(), faults=("silent",))
        menu = srv.items
        if how == "silent":
            srv.menu = lambda c, f: [x for x in menu(c, f) if x[0] == "silent"]
        elif how == "answers-late":
            late = []
            srv.got = lambda c, f: late.append((c, f))

            def later():
                w.s.block(lambda: bool(late), None, "request")
                w.s.block(lambda: False, 0.95 * t / 1000.0, "late")
                srv.mark(late[0][1], "ok")
                late[0][0].reply(late[0][1])
            if t >= 1:
                w.thread(later, "later", trace=False)
        elif how == "partial":
            srv.menu = lambda c, f: [("part", lambda: (srv.mark(f, "part"), c.raw(R.response(f.rid, b"r:" + f.content)[:-1])), 0)]
        elif how == "never-dials":
            w.net.dial_outcomes = ()
        elif how == "stalled":
            w.net.write_policy = lambda tr, data: [0]
            w.net.never_drain = True
        cw = ClientWorld(w)
        c = cw.sync("c0", b"x0", timeout_ms=t)
        c.extra.update(content=b"x0", timeout=max(t, 0))
        cw.start()
        w.run()
        judge(w, srv)
        if how.startswith("answers") and t >= 1:
            w.check(c.ok, lambda: "the call with a timeout of %s ms failed although it was answered %s: %s"
                    % (t, "after 95% of it" if "late" in how else "at once", short_tb(c.exc)))
        elif not how.startswith("answers"):
            w.check(c.exc is not None and (t <= 0 or c.t1 - c.t0 >= t / 1000.0 - EPS),
                    lambda: "the call ended early: %r" % c)
    return scenario(name, body, 0, "timeouts of every size", time_horizon=10000.0, early_env=False)


def own_deadlines(name, bound, pairs):
    """Threads with different timeouts share the client and nobody answers: each waits its own time."""
    def body(w):
        ts = pairs[w.s.choose([str(x) for x in pairs], [0] * len(pairs))]
        how = ["silent", "stalled", "never-dials"][w.s.choose(["silent", "stalled", "never-dials"], [0] * 3)]
        srv = FServer(w, A)
        srv.got = lambda c, f: None
        if how == "stalled":
            w.net.write_policy = lambda tr, data: [0]
            w.net.never_drain = True
        elif how == "never-dials":
            w.net.silent.add(A)
        cw = ClientWorld(w)
        cw.trace = True if bound else None
        for i, t in enumerate(ts):
            cw.sync("c%d" % i, b"x%d" % i, timeout_ms=t)
        cw.start()
        w.run()
        for c, t in zip(w.calls, ts):
            w.check(c.ended and c.exc is not None, lambda: "call %r" % c)
            d = c.t1 - c.t0
            w.check(t / 1000.0 - EPS <= d <= t / 1000.0 + 1.0, lambda: "a call with a timeout of %s ms next to others with %s waited %.3f s (%s)" % (
                t, ts, d, how))
    return scenario(name, body, bound, "threads with timeouts of their own", netopts=dict(dial_auto=True, auto=True),
                    early_env=False, time_horizon=10000.0)


def crowd(ns, name):
    """Very many calls in flight at once, and one event that ends some or all of them."""
    hows = ["close", "reset", "cut", "error", "refused", "half answered, close", "half answered, reset", "all answered"]

    def body(w):
        import anthunder.exceptions as X
        n = ns[w.s.choose([str(x) for x in ns], [0] * len(ns))]
        how = hows[w.s.choose(hows, [0] * len(hows))]
        srv = Server(w, A)
        srv.got = lambda c, f: srv.frames.append((c, f))
        cw = ClientWorld(w)
        st = {"answered": set()}
        if how == "refused":
            w.net.refused.add(A)

        def answer(sub):
            for c, f in sub:
                st["answered"].add(f.content)
                c.reply(f)

        def main():
            fs = [cw.client.invoke_async("a", "m", b"%d" % i, spanctx=cw.SpanContext()) for i in range(n)]
            w.s.quiesce()
            if how != "refused":
                w.check(len(srv.frames) == n and len(srv.conns) == 1, lambda: "%d of %d calls were sent, on %d connections" % (
                    len(srv.frames), n, len(srv.conns)))
                c = srv.conns[0]
                if how.startswith("half"):
                    answer(srv.frames[1::2])
                    w.s.quiesce()
                if how == "cut":
                    c.raw(R.response(srv.frames[0][1].rid, b"r:0")[:-1])
                if how == "all answered":
                    answer(list(reversed(srv.frames)))
                elif how == "error":
                    for c, f in srv.frames:
                        c.reply(f, b"", 3)
                elif how.endswith("reset"):
                    c.reset()
                else:
                    c.close()
            w.s.quiesce()
            for i, f in enumerate(fs):
                w.check(f.done(), lambda: "call %d of %d in flight never ended (%s)" % (i, n, how))
                e = f.exception()
                if b"%d" % i in st["answered"]:
                    w.check(e is None and f.result().content == b"r:%d" % i, lambda: "call %d of %d was answered (%s) and gave %s" % (
                        i, n, how, short_tb(e) if e else "something else"))
                else:
                    w.check(e is not None and not isinstance(e, INTERNAL), lambda: "call %d of %d (%s): %s" % (
                        i, n, how, short_tb(e) if e else f.result().content))
                    w.check(isinstance(e, X.PyboltError) or how not in ("error", "refused"), lambda: "call %d of %d (%s) raised %r" % (i, n, how, e))
            st["done"] = True
        cw.start(main)
        w.run()
        w.check(st.get("done"), "the calls did not end")
        w.note(n, how)
    return scenario(name, body, 0, "%s calls in flight at once" % (ns,), netopts=dict(dial_auto=True, auto=True), early_env=False,
                    horizon=1000000, time_horizon=10 ** 6)


def losses(name, n):
    """The connection is lost again and again, each time with calls in flight."""
    hows = ["close", "reset", "cut", "refused", "close, reset", "refused, close", "cut, reset", "error, close"]

    def body(w):
        import anthunder.exceptions as X
        seq = hows[w.s.choose(hows, [0] * len(hows))].split(", ")
        k = [1, 2, 3][w.s.choose(["1", "2", "3"], [0] * 3)]
        answered = w.s.choose(["none answered", "one answered"], [0, 0])
        srv = Server(w, A)
        srv.got = lambda c, f: srv.frames.append((c, f))
        cw = ClientWorld(w)

        def main():
            for i in range(n):
                how = seq[i % len(seq)]
                if how == "refused":
                    w.net.refused.add(A)
                del srv.frames[:]
                fs = [cw.client.invoke_async("a", "m", b"%d-%d" % (i, j), spanctx=cw.SpanContext()) for j in range(k)]
                w.s.quiesce()
                ok = None
                if how == "refused":
                    w.net.refused.discard(A)
                else:
                    w.check(len(srv.frames) == k, lambda: "loss %d (%s): %d of %d calls were sent" % (i, how, len(srv.frames), k))
                    c = srv.conns[-1]
                    if answered:
                        ok = srv.frames[0][1].content
                        c.reply(srv.frames[0][1])
                    if how == "cut":
                        c.raw(R.response(srv.frames[-1][1].rid, b"r:0")[:-1])
                    if how == "error":
                        for _, f in srv.frames[answered:]:
                            c.reply(f, b"", 3)
                    elif how == "reset":
                        w.s.quiesce()
                        c.reset()
                    else:
                        c.close()
                w.s.quiesce()
                for j, f in enumerate(fs):
                    w.check(f.done(), lambda: "loss %d (%s): call %d of %d in flight never ended" % (i, how, j, k))
                    e = f.exception()
                    if ok == b"%d-%d" % (i, j):
                        w.check(e is None and f.result().content == b"r:" + ok, lambda: "loss %d (%s): an answered call gave %s" % (
                            i, how, short_tb(e) if e else "something else"))
                    else:
                        w.check(e is not None and not isinstance(e, INTERNAL), lambda: "loss %d (%s): %s" % (
                            i, how, short_tb(e) if e else f.result().content))
                        w.check(isinstance(e, X.PyboltError) or how not in ("error", "refused"), lambda: "loss %d (%s): %r" % (i, how, e))
        cw.start(main)
        w.run()
        w.note(seq, k, answered)
    return scenario(name, body, 0, "%d losses in a row, each with calls in flight" % n, netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=1000000, time_horizon=10 ** 6)


def unsendable(bound):
    """A request that cannot be encoded fails alone: nobody else notices."""
    def body(w):
        srv = FServer(w, A, statuses=())
        cw = ClientWorld(w)
        import anthunder.exceptions as X
        good = cw.sync("good", b"x0", timeout_ms=500)
        good.extra.update(content=b"x0", timeout=500)
        fut = cw.future("good2", b"x1")
        fut.extra.update(content=b"x1")
        bad = [cw.sync("not-bytes", "text", timeout_ms=500), cw.future("huge-header", b"h", big="x" * 70000),
               cw.sync("not-str-header", b"h", timeout_ms=500, num=5)]
        cw.start()
        w.run()
        for c in bad:
            w.calls.remove(c)
            w.check(c.ended, "call %s never ended" % c.name)
            w.check(c.exc is not None, lambda: "call %s with unsendable content returned %r" % (c.name, c.value))
            if c.name != "not-str-header":
                w.check(isinstance(c.exc, X.PyboltError), lambda: "call %s raised %s" % (c.name, short_tb(c.exc)))
        judge(w, srv)
        for c in w.calls:
            w.check(c.ok, lambda: "call %s failed because another request could not be encoded: %s"
                    % (c.name, short_tb(c.exc)))
        w.check(len(srv.conns) == 1, "%d connections were opened because a request could not be encoded"
                % len(srv.conns))
    return scenario("unsendable", body, bound, "requests that cannot be encoded next to good ones",
                    netopts=dict(dial_auto=True))


def scenarios(tier):
    t = tier == "thorough"
    return [
        answers(["sync"], 2, "statuses", statuses=tuple(sorted(v for v in R.STATUS.values() if v)),
                faults=("error-content", "silent")),
        answers(["sync", "future"], 3 if t else 2, "bad-answers", faults=(
            "silent", "bad-status", "bad-header", "bad-utf8", "bad-codec", "request-cmd")),
        answers(["sync"], 1, "no-answers", faults=sorted(WRONG)),
        answers(["future", "sync"], 2 if t else 1, "no-answers2", faults=sorted(WRONG)),
        answers(["sync", "future"], 3 if t else 2, "cut-answers", faults=(
            "cut-reset", "cut-close", "cut-close-early", "ok-close", "ok-reset")),
        answers(["sync", "sync"], 2 if t else 1, "callers", trace=True, statuses=(3,), faults=("silent", "cut-reset"),
                opts=dict(early_env=False, clock_cost=1)),
        answers(["sync", "future"], 2 if t else 1, "callers-loop", trace=True, statuses=(3,), faults=("silent", "cut-reset"),
                opts=dict(early_env=False, clock_cost=1, op_trace=True)),
        dials(["sync", "future"], 3 if t else 2, "dials"),
        lost(["sync", "future"], 3 if t else 2, "lost"),
        lost(["sync", "future", "sync"], 2 if t else 1, "lost3"),
        lost(["future", "future"], 3 if t else 2, "lost-futures"),
        crowd([3, 65, 130, 300, 1100], "crowd"),
        losses("losses", 60 if t else 20),
        clock(["sync", "future"], 3 if t else 2),
        deadlines("deadlines"),
        own_deadlines("own-deadlines", 0, [(100, 5000), (5000, 100), (3000, 60000, 500), (700, 2500, 1600, 4000)]),
        own_deadlines("own-deadlines-races", 2 if t else 1, [(100, 5000), (5000, 100)]),
        unsendable(2 if t else 1),
    ]
