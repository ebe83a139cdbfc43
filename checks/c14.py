"""C14: the threaded listener answers each request once and never spins on a dead peer."""
from mc.lsn import *
from checks import c11

ALLX = GOOD + RESULTS + ERRORS + UNDISPATCHABLE + MALFORMED + ["heartbeat"]
WIDE = ALLX + [x for x in NEARLY if x not in ALLX]
ENDS = ("eof", "close", "reset")


def handlers_done(w, lw):
    w.check(w.s.reason != "horizon", "a thread of the listener runs without end")
    left = [t.name for t in w.s.threads if t.name not in ("main", "run0") and t.state != "done"]
    w.check(not left, lambda: "threads still alive although their connections have ended: %s" % left)


def lscenario(name, body, bound, about, **kw):
    netopts = kw.pop("netopts", dict(auto=True))
    kw.setdefault("horizon", 4000)
    return scenario(name, body, bound, about, netopts=netopts, **kw)


def single(names, bound, name, cuts=None, policy=False):
    """One request of every kind per connection; the peer reads the answer, then closes."""
    def body(w):
        lw = ListenerWorld(w, "sock")
        if policy:
            w.net.send_policy = lambda sk, data: [len(data), 1, len(data) - 1]
        n = names[w.s.choose(names, [0] * len(names))]
        b, pred, runs = kind(n, 0x101, b"first")
        if cuts is None:
            parts = [b]
        elif cuts == "bytes":
            parts = [b[i:i + 1] for i in range(len(b))]
        else:
            i = 1 + w.s.choose(["@%d" % j for j in range(1, len(b))], [0] * (len(b) - 1))
            parts = [b[:i], b[i:]]
        p = Peer(lw, [("send", x) for x in parts] + [("wait", lambda: p.frames or p.ended, ""), ("close",)])
        q = Peer(lw, [("send", req(0x102, "echo", b"second"))], after=lambda: p.mine, name="q")
        lw.start()
        lw.run()
        handlers_done(w, lw)
        lw.judge_peer(p, {0x101: pred})
        lw.judge_peer(q, {0x102: success(b"e:second")})
        judge_runs(lw, runs + [("echo", b"second")])
    return lscenario(name, body, bound, "one request of each kind, segmentation %s" % cuts)


SLOW = [0.4, 2.0, 4.0, 11.0, 35.0, 100.0, 700.0, 4000.0]


def slow(names, name):
    """A peer that pauses for long: before its request, inside it, or before it reads the answer."""
    def body(w):
        lw = ListenerWorld(w, "sock")
        n = names[w.s.choose(names, [0] * len(names))]
        T = SLOW[w.s.choose([str(x) for x in SLOW], [0] * len(SLOW))]
        b, pred, runs = kind(n, 0x101, b"first")
        where = ["idle", "byte", "header", "middle", "last", "reading", "reading-some"]
        i = w.s.choose(where, [0] * len(where))
        gate = [False]
        if i < 5:
            c = [0, 1, 22, (22 + len(b)) // 2, len(b) - 1][i]
            steps = [("send", b[:c])] * (c > 0) + [("wait", lambda: gate[0], ""), ("send", b[c:])]
        else:
            steps = [("send", b)]
            w.net.never_drain = True
            w.net.send_policy = lambda sk, data: [0 if gate[0] is False and i == 5 else 3] if not gate[0] else [len(data)]
        p = Peer(lw, steps + [("wait", lambda: p.frames or p.ended, ""), ("close",)])

        def then():
            w.s.quiesce()
            w.s.block(lambda: False, T, "slow")
            gate[0] = True
            w.net.never_drain = False
        lw.start(then, settle=2.0)
        lw.run()
        handlers_done(w, lw)
        lw.judge_peer(p, {0x101: pred})
        judge_runs(lw, runs)
        w.note(n, T, i)
    return lscenario(name, body, 0, "a peer that pauses for up to %s s" % SLOW[-1], early_env=False, time_horizon=10.0 ** 5, horizon=60000)


def ends(names, name):
    """The peer stops after any number of bytes and ends the connection in any way."""
    def body(w):
        lw = ListenerWorld(w, "sock")
        n = names[w.s.choose(names, [0] * len(names))]
        b, pred, runs = kind(n, 0x101, b"first")
        k = w.s.choose(["@%d" % i for i in range(len(b))], [0] * len(b))
        how = ENDS[w.s.choose(ENDS, [0] * 3)]
        p = Peer(lw, [("send", b[:k])] * (k > 0) + [(how,)])
        q = Peer(lw, [("send", req(0x101, "echo", b"other"))], after=lambda: p.mine, name="q")
        lw.start()
        lw.run()
        handlers_done(w, lw)
        w.check(p.bad is None, lambda: p.bad)
        w.check(len(p.frames) <= 1 and all(f.status and f.rid == 0x101 for f in p.frames),
                lambda: "an incomplete request got %r" % p.frames)
        lw.judge_peer(q, {0x101: success(b"e:other")})
        judge_runs(lw, [("echo", b"other")])
    return lscenario(name, body, 0, "%s cut at every offset" % names)


def gone(names, bound, name):
    """The peer is gone before the answer is written."""
    def body(w):
        lw = ListenerWorld(w, "sock")
        n = names[w.s.choose(names, [0] * len(names))]
        how = ENDS[w.s.choose(ENDS, [0] * 3)]
        b, pred, runs = kind(n, 0x101, b"first")
        p = Peer(lw, [("send", b), (how,)])
        q = Peer(lw, [("send", req(0x101, "echo", b"other"))], name="q")
        lw.start()
        lw.run()
        handlers_done(w, lw)
        lw.judge_peer(q, {0x101: success(b"e:other")})
        w.check(p.bad is None and len(p.frames) <= 1, lambda: "%s %r" % (p.bad, p.frames))
        if how == "eof":
            lw.judge_peer(p, {0x101: pred})
        got = sorted((r.method, r.body) for r in lw.runs if r.body != b"other")
        w.check(got == sorted(runs) or how == "reset" and not got, lambda: "the services ran %r" % got)
    return lscenario(name, body, bound, "%s, peer gone before the answer" % names)


def concurrent(kinds, bound, name, stall=False, **kw):
    """Several connections at once, services finishing in any order, one peer stalling in mid-request."""
    def body(w):
        lw = ListenerWorld(w, "sock")
        peers, runs = [], []
        for i, n in enumerate(kinds):
            b, pred, rr = kind(n, 0x200, b"k%d" % i)
            p = Peer(lw, [("send", b, n)], name="p%d" % i)
            peers.append((p, pred))
            runs += rr
        st = None
        if stall:
            st = Peer(lw, [("send", req(0x200, "echo", b"never")[:-1])], name="stall")
        lw.start()
        lw.run()
        w.check(w.s.reason != "horizon", "a thread of the listener runs without end")
        for p, pred in peers:
            lw.judge_peer(p, {0x200: pred})
        judge_runs(lw, runs)
        if st:
            w.check(not st.frames, "an incomplete request was answered")
    return lscenario(name, body, bound, "concurrent connections %s" % kinds, **kw)


def busy(ns, name):
    """Some connections are held up, by a service that runs for long or by a peer that stalls anywhere; others are served."""
    def body(w):
        lw = ListenerWorld(w, "sock")
        lw.auto_gates = False
        n = ns[w.s.choose([str(x) for x in ns], [0] * len(ns))]
        hows = ["service", "connected", "in-header", "in-body", "not-reading"]
        how = hows[w.s.choose(hows, [0] * len(hows))]
        what = ["echo", "boom", "noservice", "heartbeat"]
        what = what[w.s.choose(what, [0] * len(what))]
        held = []
        if how == "not-reading":
            n = 1
        if how == "not-reading":
            w.net.never_drain = True
            w.net.send_policy = lambda sk, data: [len(data)] if len(data) < 1000 else [0]

        def then():
            for i in range(n):
                p = Peer(lw, [], name="held%d" % i, manual=True)
                p.connect()
                b = req(i, "huge" if how == "not-reading" else "wait", b"h%d" % i)
                cut = {"service": len(b), "connected": 0, "in-header": 9, "in-body": len(b) - 1, "not-reading": len(b)}[how]
                if cut:
                    p.step(("send", b[:cut]))
                held.append((p, b[cut:]))
                w.s.quiesce()
            t0 = w.s.now
            for i in range(3):
                p = Peer(lw, [], name="free%d" % i, manual=True)
                b, pred, _ = kind(what, 0x1000 + i, b"f%d" % i)
                p.connect()
                p.step(("send", b))
                w.s.quiesce()
                w.check(len(p.frames) == 1, lambda: "a %s request got no answer while %d other connections were held up (%s)" % (what, n, how))
                lw.judge_peer(p, {0x1000 + i: pred})
                p.conn.client.close()
            w.check(w.s.now - t0 < 1.5, "the answers took %s s while other connections were held up" % (w.s.now - t0))
            w.net.never_drain = False
            w.net.send_policy = None
            for p, rest in held:
                if rest:
                    p.step(("send", rest))
            w.s.quiesce()
            for k in list(lw.gates):
                lw.gates[k] = True
            w.s.block(lambda: False, 1.0, "drain")
            w.s.quiesce()
            for k in list(lw.gates):
                lw.gates[k] = True
            w.s.quiesce()
            for i, (p, _) in enumerate(held):
                lw.judge_peer(p, {i: success(b"h%d" % i * 150000 if how == "not-reading" else b"e:h%d" % i)})
                p.conn.client.close()
        lw.start(then)
        lw.run()
        w.note(n, how, what)
    return lscenario(name, body, 0, "up to %d connections held up" % max(ns), early_env=False, horizon=100000)


def scenarios(tier):
    t = tier == "thorough"
    return [
        single(WIDE, 1, "single"),
        single([x for x in WIDE if x not in LARGE], 0, "bytewise", "bytes"),
        single([x for x in ALLX if x not in LARGE] if t else ["echo", "heartbeat", "dangling-key", "wrong-class"], 0, "split", "each"),
        single(["echo", "big", "boom", "nomethod", "heartbeat"], 2, "short-writes", policy=True),
        ends(["echo", "bare"] + (["heartbeat", "dangling-key", "noservice"] if t else ["heartbeat"]), "ends"),
        c11.fields("sock", "fields"),
        c11.contents("sock", "contents", lambda sk, data: [len(data), 1, len(data) - 1]),
        slow(["echo", "huge", "boom", "heartbeat"], "slow-peer"),
        gone(["echo", "wait", "boom", "noservice", "dangling-key", "heartbeat", "text"], 1 if t else 0, "gone"),
        concurrent(["wait", "wait"], 2 if t else 1, "concurrent2"),
        concurrent(["wait", "boom", "echo"], 1 if t else 0, "concurrent3"),
        concurrent(["wait", "echo"], 1, "stall", stall=True),
        busy((1, 3, 40, 300) if t else (1, 3, 40, 210), "busy"),
        c11.marathon("sock", (5, 35, 130, 530) + ((1100, 2100) if t else ()), "marathon"),
        concurrent(["wait", "wait"], 2 if t else 1, "network", netopts=dict(), lock_points=t),
    ]
