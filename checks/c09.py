"""C09: heartbeats keep flowing and are always answered."""
from mc.lsn import *
from mc import aioc
from mc.aioc import ClientWorld, MESH, A
from checks import c11
from checks.c05 import FServer

EVERY = 30.0
SYN = 127.0     # Linux gives up connecting after this time
KINDS = ("ok", "status", "silent", "close", "reset", "wrong-id", "garbage", "half", "not-heartbeat")


class HServer(FServer):
    """The mesh: each heartbeat is treated in any way (a free choice), calls are answered."""
    period = None

    def __init__(self, w, addr, kinds, healthy_from=10 ** 9):
        FServer.__init__(self, w, addr)
        self.kinds, self.healthy_from = kinds, healthy_from
        self.beats = []      # (time, kind, frame)

    def got(self, c, f):
        self.frames.append((c, f))
        if f.cmdcode != R.C_HEARTBEAT:
            self.todo.append((c, f))
            return
        ks = self.kinds if len(self.beats) < self.healthy_from else ("ok",)
        if self.period and len(self.beats) >= self.period:
            k = self.beats[-self.period][1]
        else:
            k = ks[self.w.s.choose(ks, [0] * len(ks))]
        self.beats.append((self.w.s.now, k, f))
        self.w.s.obs("beat", k)
        if k == "ok":
            c.raw(R.response(f.rid, b"", 0, cmdcode=R.C_HEARTBEAT, cls=b""))
        elif k == "status":
            c.raw(R.response(f.rid, b"", 3, cmdcode=R.C_HEARTBEAT, cls=b""))
        elif k == "close":
            c.close()
        elif k == "reset":
            c.reset()
        elif k == "wrong-id":
            c.raw(R.response(f.rid % (2 ** 31 - 1) + 1, b"", 0, cmdcode=R.C_HEARTBEAT, cls=b""))
        elif k == "garbage":
            c.raw(b"\x07" * 40)
        elif k == "half":
            c.raw(R.response(f.rid, b"", 0, cmdcode=R.C_HEARTBEAT, cls=b"")[:9])
        elif k == "not-heartbeat":
            c.raw(R.response(f.rid, b"x", 0))


def judge_beats(w, srv, attempts, until, strict_period=True):
    """attempts: times at which the client tried (a frame or a dial)."""
    # one attempt per period, whatever happened to the others
    k = 1
    while EVERY * k + 1.0 <= until:
        lo, hi = EVERY * k - 1.0, EVERY * k + 1.0
        w.check(any(lo <= t <= hi for t in attempts), lambda: "no heartbeat was sent around %d s (attempts at %s; the "
                "earlier ones were treated %s)" % (EVERY * k, [round(t, 2) for t in attempts], [b[1] for b in srv.beats]))
        k += 1
    rids = [b[2].rid for b in srv.beats]
    w.check(len(set(rids)) == len(rids), lambda: "heartbeats reuse ids: %r" % rids)
    for _, _, f in srv.beats:
        w.check(f.ptype == R.REQUEST and not f.content, "a malformed heartbeat request: %r" % f)
    w.check(len([t for t in attempts if t < EVERY - 1]) <= 1, "heartbeats flood the mesh: %r" % (attempts,))
    n = len(srv.beats)
    w.check(n <= until / EVERY + 1, "%d heartbeats in %s s" % (n, until))


def sequences(depth, kinds, name, repeat=1):
    """Every sequence of heartbeat outcomes; repeat: over and over again."""
    def body(w):
        srv = HServer(w, MESH, kinds)
        srv.period = depth if repeat > 1 else None
        cw = ClientWorld(w, mesh=True)
        cw.start()
        r = w.run()
        until = w.s.time_horizon
        w.note([b[1] for b in srv.beats])
        w.check(r == "time-horizon", lambda: "the client stopped doing anything at %.1f s after %s"
                % (w.s.now, [b[1] for b in srv.beats]))
        judge_beats(w, srv, [b[0] for b in srv.beats], until)
    return aioc.scenario(name, body, 0, "all sequences of %d heartbeat outcomes" % depth,
                         netopts=dict(dial_auto=True, auto=True), time_horizon=EVERY * depth * repeat + 2.5,
                         horizon=60000 + 2000 * depth * repeat)


def dials(depth, name):
    """Every sequence of dial outcomes: accepted, refused, never finished; then the mesh is healthy again."""
    def body(w):
        srv = HServer(w, MESH, ("ok", "reset"), healthy_from=depth)
        cw = ClientWorld(w, mesh=True)
        tried, stalled = [], []
        real = w.net.dial
        modes = ("ok", "refuse", "timeout", "stall")

        def dial(addr, ok, fail):
            tried.append(w.s.now)
            d = real(addr, ok, fail)
            if len(tried) <= depth and w.s.now < EVERY * depth + 5:
                m = modes[w.s.choose(modes, [0] * 4)]
            else:
                m = "ok"
            w.s.obs("dial", m)
            if m != "stall":
                w.net._finish_dial(d, m)
            else:
                # nobody answers: the system gives up after a while
                stalled.append(w.s.now)
                w.net.dials.remove(d)
                w.s.spawn(lambda: (w.s.block(lambda: False, SYN, "syn"), w.net._finish_dial(d, "timeout")), "syn", False, True)
            return d
        w.net.dial = dial
        cw.start()
        w.run()
        w.note(tried, [b[1] for b in srv.beats])
        # a dial that stalls is one attempt; the heartbeats may share it until the system gives it up
        ts = [b[0] for b in srv.beats] + tried
        until = w.s.time_horizon
        gaps = sorted(set([0.0] + ts + [until]))
        w.check(all(b - a <= 2 * EVERY + 1.5 + (SYN if a in stalled else 0) for a, b in zip(gaps, gaps[1:])), lambda: "the heartbeats stopped: "
                "attempts at %s" % (sorted(set(ts)),))
        w.check(srv.beats and srv.beats[-1][0] >= until - 2 * EVERY, lambda: "the heartbeats did not resume after failed "
                "dials: dials at %s, beats at %s" % (tried, [b[0] for b in srv.beats]))
    return aioc.scenario(name, body, 0, "all sequences of %d dial outcomes, then a healthy mesh" % depth,
                         netopts=dict(auto=True), time_horizon=EVERY * (2 * depth + 3) + SYN + 2.5, horizon=60000)


def with_calls(depth, kinds, name):
    """Ordinary calls to the same mesh address around unhealthy heartbeats."""
    def body(w):
        srv = HServer(w, MESH, kinds)
        srv.menu = lambda c, f: [("ok", lambda: (srv.mark(f, "ok"), c.reply(f)), 0)]
        cw = ClientWorld(w, mesh=True, routes={"a": MESH})
        done = []

        def then():
            for i in range(depth):
                w.s.block(lambda: False, EVERY * (i + 1) + 1 - w.s.now, "pause")
                c = cw.sync("c%d" % i, b"x%d" % i, timeout_ms=5000, auto=False)
                done.append(c)
        cw.start(then)
        w.run()
        w.note([b[1] for b in srv.beats], [c.brief() for c in done])
        judge_beats(w, srv, [b[0] for b in srv.beats], w.s.time_horizon)
        for i, c in enumerate(done):
            w.check(c.ended and (c.exc is None and c.value == b"r:x%d" % i), lambda: "call %s after heartbeats treated %s: %s"
                    % (c.name, [b[1] for b in srv.beats], short_tb(c.exc) if c.exc else c.brief()))
    return aioc.scenario(name, body, 0, "calls after each heartbeat outcome", netopts=dict(dial_auto=True, auto=True),
                         time_horizon=EVERY * depth + 8.5, horizon=60000)


def stuck(name):
    """The kernel takes none of a heartbeat for a while: the heartbeats resume once it does."""
    ts = [1.0, 10.0, 40.0, 100.0, 200.0]

    def body(w):
        start = EVERY * w.s.choose(["1st", "2nd"], [0, 0]) + 15.0
        T = ts[w.s.choose([str(x) for x in ts], [0] * len(ts))]
        then = (None, "reset", "close")[w.s.choose(["drains", "reset", "close"], [0] * 3)]
        srv = HServer(w, MESH, ("ok",))
        cw = ClientWorld(w, mesh=True)
        lost = []

        def go():
            w.s.block(lambda: False, start, "healthy")
            w.net.write_policy = lambda tr, data: [0]
            w.net.never_drain = True
            w.s.block(lambda: False, T, "stuck")
            w.net.write_policy = None
            if then and srv.conns:
                lost.append(1)
                (srv.conns[0].reset if then == "reset" else srv.conns[0].close)()
            w.net.never_drain = False
        cw.start(lambda: w.thread(go, "kernel"))
        w.run()
        until = w.s.time_horizon
        ts2 = [b[0] for b in srv.beats]
        k = 1
        while EVERY * k < start:
            w.check(any(abs(t - EVERY * k) < 1 for t in ts2), "no heartbeat at %d s" % (EVERY * k))
            k += 1
        t = max(start + T, EVERY)
        gaps = [t] + [x for x in ts2 if x > t] + [until]
        w.check(all(b - a <= 2 * EVERY + 1.5 for a, b in zip(gaps, gaps[1:])), lambda: "the connection was stuck from "
                "%s to %s s; heartbeats arrived at %s" % (start, start + T, ts2))
        w.check(len(set(b[2].rid for b in srv.beats)) == len(srv.beats), "heartbeats reuse ids")
        w.note(start, T, then, len(ts2))
    return aioc.scenario(name, body, 0, "the kernel takes no bytes for a while", netopts=dict(dial_auto=True, auto=True),
                         time_horizon=EVERY * 12 + 2.5, horizon=60000)


def reported(name):
    """The result of one heartbeat exchange."""
    def body(w):
        import asyncio
        srv = HServer(w, A, ("ok", "status", "not-heartbeat", "close", "reset"))
        cw = ClientWorld(w)
        out = []

        def then():
            async def hb():
                return await cw.client.invoke_heartbeat(A)
            f = asyncio.run_coroutine_threadsafe(hb(), w.s.loops[-1])
            try:
                out.append(f.result(5))
            except Exception as e:
                out.append(e)
        cw.start(then)
        w.run(lambda: bool(out))
        k = srv.beats[0][1]
        w.note(k, out[0] if isinstance(out[0], bool) else type(out[0]).__name__)
        w.check(bool(out), "the heartbeat never ended")
        if k == "ok":
            w.check(out[0] is True, "a healthy heartbeat is reported as %r" % (out[0],))
        else:
            w.check(isinstance(out[0], Exception) or not out[0], "a heartbeat answered by %s is reported as healthy" % k)
    return aioc.scenario(name, body, 1, "what a heartbeat exchange reports", netopts=dict(dial_auto=True))


def served(k, name, bound):
    """Heartbeats between and during ordinary calls, in pieces; on the threaded listener on their own connections."""
    def body(w):
        lw = ListenerWorld(w, k)
        hb = lambda rid: R.heartbeat_request(rid)
        if k == "aio":
            b1, e1, r1 = kind("wait", 0x11, b"one")
            b2, e2, r2 = kind("boom", 0x12, b"two")
            b3, e3, r3 = kind("echo", 0x13, b"ow", ptype=R.ONEWAY)
            p = Peer(lw, [("send", hb(0x21), "hb1"), ("send", b1, "c1"), ("send", hb(0x22), "hb2"), ("send", b2, "c2"),
                          ("send", b3 + hb(0x23)[:7], "hb3a"), ("send", hb(0x23)[7:], "hb3b")])
            q = Peer(lw, [("send", hb(0x21), "hb"), ("send", hb(0x7fffffff), "hb")], name="q")
            lw.start()
            lw.run()
            lw.judge_peer(p, {0x11: e1, 0x12: e2, 0x21: heartbeat_ok, 0x22: heartbeat_ok, 0x23: heartbeat_ok})
            lw.judge_peer(q, {0x21: heartbeat_ok, 0x7fffffff: heartbeat_ok})
            judge_runs(lw, r1 + r2 + r3)
        else:
            b1, e1, r1 = kind("wait", 0x11, b"one")
            p = Peer(lw, [("send", b1, "c1")])
            q = Peer(lw, [("send", hb(0x21)[:7], "hb"), ("send", hb(0x21)[7:], "hb")], name="q")
            z = Peer(lw, [("send", hb(0x22), "hb"), ("eof",)], name="z")
            lw.start(settle=3.0)
            lw.run()
            lw.judge_peer(p, {0x11: e1})
            lw.judge_peer(q, {0x21: heartbeat_ok})
            lw.judge_peer(z, {0x22: heartbeat_ok})
            judge_runs(lw, r1)
    return scenario(name, body, bound, "heartbeats around calls (%s listener)" % k, netopts=dict(auto=True))


def one(k, name):
    """A heartbeat with any id and shape, cut at every place into two segments."""
    def body(w):
        lw = ListenerWorld(w, k)
        rids = [1, 0, 0x7fffffff, -1, -2 ** 31]
        rid = rids[w.s.choose([str(r) for r in rids], [0] * len(rids))]
        forms = [lambda: R.heartbeat_request(rid), lambda: R.request(rid, (), b"", cmdcode=R.C_HEARTBEAT),
                 lambda: R.request(rid, (), b"", cmdcode=R.C_HEARTBEAT, cls=b"", timeout=-1, proto=1)]
        forms += [lambda: R.request(rid, head("echo"), b"", cmdcode=R.C_HEARTBEAT, cls=b""),
                  lambda: R.request(rid, head("echo"), b"content", cmdcode=R.C_HEARTBEAT),
                  lambda: R.request(rid, (), b"content", cmdcode=R.C_HEARTBEAT, cls=b"com.alipay.Other")]
        b = forms[w.s.choose(["bare", "class", "timeout", "header", "full", "other-class"], [0] * 6)]()
        n = w.s.choose(["@%d" % i for i in range(len(b) + 1)], [0] * (len(b) + 1))
        p = Peer(lw, [("send", x) for x in (b[:n], b[n:]) if x])
        lw.start(settle=2.0)
        lw.run()
        lw.judge_peer(p, {rid: heartbeat_ok})
        judge_runs(lw, [])
        w.note(rid, n)
    return scenario(name, body, 0, "one heartbeat of any form in two segments (%s listener)" % k, netopts=dict(auto=True))


def scenarios(tier):
    t = tier == "thorough"
    return [
        sequences(5 if t else 4, KINDS, "sequences"),
        sequences(8 if t else 6, ("ok", "silent", "reset"), "sequences-long"),
        sequences(3 if t else 2, KINDS, "sequences-repeated", 60),
        sequences(1, KINDS, "sequences-marathon", 1200 if t else 400),
        dials(4 if t else 3, "dials"),
        with_calls(3 if t else 2, ("ok", "status", "silent", "close", "reset", "wrong-id", "not-heartbeat"), "with-calls"),
        stuck("stuck"),
        reported("reported"),
        c11.slow(["heartbeat", "echo", "heartbeat"], "slow-peer"),
        c11.pauses(["heartbeat", "heartbeat-full"], "pauses"),
        c11.repeated(["heartbeat", "wait", "boom"], 0, "same-id"),
        served("aio", "served-aio", 1 if t else 0),
        served("sock", "served-sock", 1 if t else 0),
        c11.marathon("aio", (5, 130, 530) + ((2100,) if t else ()), "served-marathon-aio", [("heartbeat",), ("heartbeat-full", "echo")]),
        c11.marathon("sock", (5, 130) + ((530,) if t else ()), "served-marathon-sock", [("heartbeat",), ("heartbeat-full", "echo")]),
        one("aio", "one-aio"),
        one("sock", "one-sock"),
    ]
