"""C11: the asyncio listener answers every two-way request exactly once and correctly."""
import itertools

from mc.lsn import *


def single(names, bound, name):
    """One request of every kind, then an ordinary one on the same connection."""
    def body(w):
        lw = ListenerWorld(w)
        n = names[w.s.choose(names, [0] * len(names))]
        b, pred, runs = kind(n, 0x101, b"first")
        b2, pred2, runs2 = kind("echo", 0x102, b"second")
        p = Peer(lw, [("send", b, n), ("send", b2, "echo")])
        lw.start()
        lw.run()
        lw.judge_peer(p, {0x101: pred, 0x102: pred2})
        judge_runs(lw, runs + runs2)
        w.check(not p.ended, "the listener ended the connection (%s)" % p.ended)
    return scenario(name, body, bound, "each request kind followed by an ordinary request", netopts=dict(auto=True))


def orders(kinds, bound, name, policy=False, one_by_one=False, after_done=()):
    """Concurrent requests on one connection, finishing in any order."""
    def body(w):
        lw = ListenerWorld(w)
        if policy:
            w.net.write_policy = policy if callable(policy) else lambda tr, data: [len(data), 0, 7]
        exp, runs, steps = {}, [], []
        for i, n in enumerate(kinds):
            b, pred, rr = kind(n, 0x200 + i, b"b%d" % i)
            exp[0x200 + i] = pred
            runs += rr
            steps.append(("send", b, n))
        if not one_by_one:
            steps = [("send", b"".join(s[1] for s in steps), "all")]
        p = Peer(lw, steps)
        lw.start()
        lw.run()
        lw.judge_peer(p, exp)
        judge_runs(lw, runs)
    return scenario(name, body, bound, "concurrent %s" % kinds)


SLOW = [0.2, 2.0, 4.0, 11.0, 35.0, 100.0, 700.0, 4000.0, 90000.0]


def slow(names, name):
    """A peer that does not read for a long time still gets every answer, whole and once."""
    def body(w):
        lw = ListenerWorld(w)
        take = (0, 7)[w.s.choose(["nothing", "some"], [0, 0])]
        T = SLOW[w.s.choose([str(x) for x in SLOW], [0] * len(SLOW))]
        w.net.write_policy = lambda tr, data: [take]
        w.net.never_drain = True
        exp, runs, steps = {}, [], []
        for i, n in enumerate(names):
            b, pred, rr = kind(n, 0x200 + i, b"b%d" % i)
            exp[0x200 + i] = pred
            runs += rr
            steps.append(("send", b, n))
        p = Peer(lw, steps)

        def then():
            w.s.quiesce()
            w.s.block(lambda: False, T, "slow")
            w.net.never_drain = False
            w.net.write_policy = None
        lw.start(then)
        lw.run()
        lw.judge_peer(p, exp)
        judge_runs(lw, runs)
        w.check(not p.ended, "the listener ended the connection of a slow peer")
        w.note(T, take)
    return scenario(name, body, 0, "a peer that reads its answers to %s late" % names, netopts=dict(auto=True),
                    time_horizon=10.0 ** 6, early_env=False)


def contents(k, name, policy=None):
    """Bodies and results of every shape."""
    def body(w):
        lw = ListenerWorld(w, k)
        if policy:
            w.net.send_policy = policy
        x = R.ODD[w.s.choose(["content%d" % i for i in range(len(R.ODD))], [0] * len(R.ODD))]
        b, pred, runs = kind("same", 0x101, x)
        b2, pred2, runs2 = kind("echo", 0x102, b"second")
        p = Peer(lw, [("send", b, "same"), ("send", b2, "echo")][:2 if k == "aio" else 1])
        lw.start()
        lw.run()
        lw.judge_peer(p, {0x101: pred, 0x102: pred2} if k == "aio" else {0x101: pred})
        judge_runs(lw, runs + (runs2 if k == "aio" else []))
        w.note(x[:20], len(x))
    return scenario(name, body, 0, "contents of every shape (%s listener)" % k, netopts=dict(auto=True))


def working(name):
    """A service at work on a body of any shape holds up nobody, on its own connection or another one."""
    def body(w):
        lw = ListenerWorld(w)
        lw.auto_gates = False
        x = R.ODD[w.s.choose(["content%d" % i for i in range(len(R.ODD))], [0] * len(R.ODD))]
        m = ["wait", "waitboom"][w.s.choose(["wait", "waitboom"], [0, 0])]
        own = w.s.choose(["same connection", "another connection"], [0, 0])
        y = [b"y", b""][w.s.choose(["y", "empty"], [0, 0])]
        b, pred, runs = kind(m, 0x101, x)
        b2, pred2, runs2 = kind("echo", 0x102, y)
        p = Peer(lw, [], manual=True)
        q = Peer(lw, [], manual=True, name="q") if own else p

        def then():
            p.connect()
            p.step(("send", b))
            w.s.quiesce()
            if own:
                q.connect()
            q.step(("send", b2))
            w.s.quiesce()
            lw.judge_peer(q, {0x102: pred2})
            w.check(not p.got(0x101), "the request was answered before its service ended")
            lw.gates[x] = True
        lw.start(then)
        lw.run()
        lw.judge_peer(p, {0x101: pred} if own else {0x101: pred, 0x102: pred2})
        judge_runs(lw, runs + runs2)
        w.note(x[:20], len(x), m, own, y)
    return scenario(name, body, 0, "a service at work on contents of every shape", netopts=dict(auto=True), early_env=False)


FIELDS = [("timeout", x) for x in (-2 ** 31, -1, 0, 1, 999, 3000, 2 ** 31 - 1)] + \
    [("id", x) for x in (-2 ** 31, -2, -1, 0, 1, 2 ** 31 - 1)]


def fields_body(w, k, ptype):
    """A request of every kind whatever its timeout and id are."""
    lw = ListenerWorld(w, k)
    names = ["echo", "bare", "empty", "service-only", "text", "boom", "noservice", "nomethod", "missing-method", "dangling-key",
             "wrong-class", "response-cmd"]
    n = names[w.s.choose(names, [0] * len(names))]
    f, x = FIELDS[w.s.choose(["%s=%d" % q for q in FIELDS], [0] * len(FIELDS))]
    rid = x if f == "id" else 0x101
    b, pred, runs = kind(n, rid, b"one", ptype=ptype, **({"timeout": x} if f == "timeout" else {}))
    if f == "timeout" and x == 1:
        pred = anyof(pred, failure(7))
    exp = {} if ptype == R.ONEWAY else {rid: pred}
    if k == "aio":
        b2, pred2, runs2 = kind("echo", 0x102, b"two")
        p = Peer(lw, [("send", b), ("send", b2)])
        exp[0x102] = pred2
        runs = runs + runs2
    else:
        p = Peer(lw, [("send", b)])
    lw.start(settle=5.0)
    lw.run()
    lw.judge_peer(p, exp)
    judge_runs(lw, runs)
    w.note(n, f, x)


def fields(k, name):
    return scenario(name, lambda w: fields_body(w, k, R.REQUEST), 0, "a request of every kind, timeout and id", netopts=dict(auto=True),
                    early_env=False)


def pauses(k, name):
    """Long pauses before, inside and between the requests of a connection."""
    def body(w):
        lw = ListenerWorld(w)
        n = k[w.s.choose(k, [0] * len(k))]
        T = SLOW[w.s.choose([str(x) for x in SLOW], [0] * len(SLOW))]
        b, pred, runs = kind(n, 0x101, b"first")
        b2, pred2, runs2 = kind("echo", 0x102, b"second")
        cuts = [0, 1, 13, 22, len(b) - 1, len(b)]
        c = cuts[w.s.choose(["@%d" % x for x in cuts], [0] * len(cuts))]
        gate = [False]
        p = Peer(lw, [("send", b[:c])] * (c > 0) + [("wait", lambda: gate[0], "")] + [("send", b[c:] + b2)])

        def then():
            w.s.quiesce()
            w.s.block(lambda: False, T, "pause")
            gate[0] = True
        lw.start(then)
        lw.run()
        lw.judge_peer(p, {0x101: pred, 0x102: pred2})
        judge_runs(lw, runs + runs2)
        w.check(not p.ended, "the listener ended the connection after a pause of %s s" % T)
        w.note(n, T, c)
    return scenario(name, body, 0, "pauses of up to %s s anywhere in a connection" % SLOW[-1], netopts=dict(auto=True),
                    time_horizon=10.0 ** 6, early_env=False)


def repeated(names, bound, name):
    """One request id used again on the same connection, after its first answer or while it is pending."""
    def body(w):
        lw = ListenerWorld(w)
        n1 = names[w.s.choose(names, [0] * len(names))]
        n2 = names[w.s.choose(names, [0] * len(names))]
        same = w.s.choose(["other body", "same body"], [0, 0])
        overlap = w.s.choose(["after", "while"], [0, 0])
        far = 0 if overlap else w.s.choose(["next", "later"], [0, 0])
        b1, e1, r1 = kind(n1, 0x77, b"one")
        b2, e2, r2 = kind(n2, 0x77, b"one" if same else b"two")
        bx, ex, rx = kind("echo", 0x78, b"x")
        steps = [("send", b1)]
        if not overlap:
            steps.append(("wait", lambda: p.frames, ""))
            if far:
                steps += [("send", bx), ("wait", lambda: len(p.frames) == 2, "")]
        p = Peer(lw, steps + [("send", b2)])
        lw.start()
        lw.run()
        w.check(p.bad is None and not p.ended, lambda: "%s %s" % (p.bad, p.ended))
        got = p.got(0x77)
        w.check(len(got) == 2 and len(p.frames) == 2 + far, lambda: "two requests with one id got %r" % p.frames)
        a, b = got
        ok = not e1(a) and not e2(b) or overlap and not e2(a) and not e1(b)
        w.check(ok, lambda: "two requests (%s, %s) with one id got %r" % (n1, n2, got))
        judge_runs(lw, r1 + r2 + (rx if far else []))
        w.note(n1, n2, same, overlap, far)
    return scenario(name, body, bound, "two requests with the same id on one connection", netopts=dict(auto=True))


MIX = ["echo", "boom", "empty", "noservice", "nomethod", "heartbeat", "dangling-key", "none", "missing-method", "bad-trace"]


def marathon(k, sizes, name, mix=None):
    """Long histories: many requests on one connection, together or one by one; many connections, together or in turn."""
    ways = ["connections-together", "connections-in-turn"] + (["one-write", "many-writes", "one-by-one"] if k == "aio" else [])
    mixes = [("echo",), tuple(MIX)] + [(x, "echo") for x in MIX[1:]] if mix is None else mix

    def body(w):
        lw = ListenerWorld(w, k)
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        how = ways[w.s.choose(ways, [0] * len(ways))]
        ks = mixes[w.s.choose([",".join(x) for x in mixes], [0] * len(mixes))]
        jobs = [kind(ks[i % len(ks)], 0x1000 + i, b"m%d" % i) for i in range(n)]
        peers = []

        def then():
            def new(i):
                p = Peer(lw, [], name="p%d" % i, manual=True)
                p.connect()
                peers.append(p)
                return p

            def send(p, b):
                p.steps.append(("send", b))
                p.step()
            if how == "connections-together":
                for i, (b, pred, rr) in enumerate(jobs):
                    send(new(i), b)
                w.s.quiesce()
            elif how == "connections-in-turn":
                for i, (b, pred, rr) in enumerate(jobs):
                    p = new(i)
                    send(p, b)
                    w.s.quiesce()
                    w.check(len(p.frames) == 1, lambda: "request %d (%s) of connection %d got %r" % (i, ks[i % len(ks)], i, p.frames))
                    p.steps.append(("close",))
                    p.step()
            else:
                p = new(0)
                if how == "one-write":
                    send(p, b"".join(b for b, _, _ in jobs))
                else:
                    for i, (b, pred, rr) in enumerate(jobs):
                        send(p, b)
                        if how == "one-by-one":
                            w.s.quiesce()
                            w.check(len(p.frames) == i + 1, lambda: "request %d (%s) on one connection: %r" % (
                                i, ks[i % len(ks)], p.frames[-3:]))
                w.s.quiesce()
        lw.start(then)
        lw.run()
        if len(peers) == 1 and n > 1:
            lw.judge_peer(peers[0], dict((0x1000 + i, pred) for i, (b, pred, rr) in enumerate(jobs)))
        else:
            for i, (b, pred, rr) in enumerate(jobs):
                lw.judge_peer(peers[i], {0x1000 + i: pred})
        judge_runs(lw, [x for b, pred, rr in jobs for x in rr])
        w.note(n, how, ks)
    return scenario(name, body, 0, "up to %d requests or connections (%s listener)" % (max(sizes), k),
                    netopts=dict(auto=True), early_env=False, horizon=400000, time_horizon=10 ** 6)


def two_peers(kinds, bound, name):
    """The same request ids on two connections: each answer goes to its own."""
    def body(w):
        lw = ListenerWorld(w)
        peers, exps, runs = [], [], []
        for j in range(2):
            exp, data = {}, b""
            for i, n in enumerate(kinds[j]):
                b, pred, rr = kind(n, 0x300 + i, b"p%d-%d" % (j, i))
                exp[0x300 + i] = pred
                data += b
                runs += rr
            peers.append(Peer(lw, [("send", data, "all")], name="p%d" % j))
            exps.append(exp)
        lw.start()
        lw.run()
        for p, e in zip(peers, exps):
            lw.judge_peer(p, e)
        judge_runs(lw, runs)
    return scenario(name, body, bound, "two connections %s" % (kinds,))


def timeouts(methods, bound, name, ms=(100, 100), clock=0):
    """Requests whose service may finish before or after their timeout has been answered."""
    def body(w):
        lw = ListenerWorld(w)
        exp, runs, data = {}, [], b""
        for i, (m, t) in enumerate(zip(methods, ms)):
            b, pred, rr = kind(m, 0x400 + i, b"t%d" % i, timeout=t)
            p1 = anyof(pred, failure(7)) if m.startswith("wait") and t > 0 else pred
            exp[0x400 + i] = p1
            runs += rr
            data += b
        b, pred, rr = kind("echo", 0x480, b"last")
        exp[0x480] = pred
        p = Peer(lw, [("send", data, "all"), ("wait", lambda: lw.s.now > 5.0, ""), ("send", b, "last")])
        lw.start(lambda: (w.s.quiesce(), w.s.block(lambda: False, 6.0, "later")), settle=1.0)
        lw.run()
        lw.judge_peer(p, exp)
        judge_runs(lw, runs + rr)
    return scenario(name, body, bound, "timeouts %s of %s" % (ms, methods), clock_cost=clock, time_horizon=10.0 ** 6)


def timely(bound):
    """A service that never finishes: TIMEOUT comes at the request's timeout and not before; without one, never."""
    def body(w):
        lw = ListenerWorld(w)
        lw.auto_gates = False
        ts = [50, 1, 999, 1001, 1900, 2000, 2500, 61001, 400000, 10 ** 7, 2 ** 31 - 1, -1, 0]
        t = ts[w.s.choose([str(x) for x in ts], [0] * len(ts))]
        b, _, _ = kind("wait", 0x500, b"never", timeout=t)
        b2, pred2, _ = kind("echo", 0x501, b"now", timeout=t)
        p = Peer(lw, [("send", b + b2, "all")])
        at = []
        marks = {}

        def then():
            w.s.quiesce()
            marks["at0"] = len(p.got(0x500))
            if t > 0:
                w.s.block(lambda: False, t / 1000.0 * 0.98, "before")
                marks["before"] = len(p.got(0x500))
                w.s.block(lambda: False, t / 1000.0 * 0.04, "after")
                w.s.quiesce()
                marks["after"] = len(p.got(0x500))
            else:
                w.s.block(lambda: False, 90000.0, "long")
                marks["long"] = len(p.got(0x500))
            lw.gates[b"never"] = True
        lw.start(then, settle=1.0)
        lw.run()
        w.check(marks.get("at0") == 0 and not marks.get("before") and not marks.get("long"),
                "a request was answered before its service finished or its timeout of %s ms passed" % t)
        if t > 0:
            w.check(marks["after"] == 1, "no answer at the request's timeout of %s ms" % t)
            lw.judge_peer(p, {0x500: failure(7), 0x501: pred2})
        else:
            lw.judge_peer(p, {0x500: success(b"e:never"), 0x501: pred2})
    return scenario("timely", body, bound, "when a timeout is answered", netopts=dict(auto=True), time_horizon=10.0 ** 7)


def own_timeouts(bound):
    """Concurrent requests that are never finished: each is answered with TIMEOUT at its own timeout."""
    T = [100, 300, 900, -1]
    perms = list(itertools.permutations(T))

    def body(w):
        lw = ListenerWorld(w)
        lw.auto_gates = False
        ts = perms[w.s.choose([str(p) for p in perms], [0] * len(perms))]
        how = w.s.choose(["one connection", "two connections", "one after the other"], [0] * 3)
        data = [kind("wait", 0x500 + i, b"t%d" % i, timeout=t)[0] for i, t in enumerate(ts)]
        if how == 0:
            peers = [Peer(lw, [("send", b"".join(data), "all")])]
        elif how == 1:
            peers = [Peer(lw, [("send", data[0] + data[2], "all")]), Peer(lw, [("send", data[1] + data[3], "all")])]
        else:
            peers = [Peer(lw, [("send", d, "%d" % i) for i, d in enumerate(data)])]
        seen = []

        def got():
            return [sum((p.got(0x500 + i) for p in peers), []) for i in range(4)]

        def then():
            w.s.quiesce()
            for a in T[:3]:
                w.s.block(lambda: False, w.s.t0 + a * 0.00098 - w.s.now, "before")
                seen.append((a, [len(g) for g in got()]))
                w.s.block(lambda: False, w.s.t0 + a * 0.00102 - w.s.now, "after")
                w.s.quiesce()
                seen.append((a + 1, [len(g) for g in got()]))
            for i in range(4):
                lw.gates[b"t%d" % i] = True
        lw.start(lambda: (setattr(w.s, "t0", w.s.now), then()), settle=2.0)
        lw.run()
        for a, n in seen:
            want = [int(0 < t < a) for t in ts]
            w.check(n == want, "requests with timeouts of %s ms: after %s %d ms %s of them were answered, expected %s" % (
                ts, "nearly" if a in T else "just over", a - (a not in T), n, want))
        g = got()
        for i, t in enumerate(ts):
            e = (failure(7) if t > 0 else success(b"e:t%d" % i))
            w.check(len(g[i]) == 1 and not e(g[i][0]), "request with a timeout of %s ms: %r" % (t, g[i]))
        w.note(ts, how)
    return scenario("own-timeouts", body, bound, "timeouts in every order", netopts=dict(auto=True), time_horizon=10.0 ** 6)


def busy(bound):
    """More requests than workers: the late ones wait for a worker and may time out without having run."""
    def body(w):
        lw = ListenerWorld(w)
        n = 32
        exp, data, runs = {}, b"", []
        for i in range(n):
            b, pred, rr = kind("wait", 0x600 + i, b"w%02d" % i, timeout=100 if i >= 30 else -1)
            exp[0x600 + i] = anyof(pred, failure(7, 4)) if i >= 30 else pred
            data += b
        lw.auto_gates = False
        p = Peer(lw, [("send", data, "all")])

        def then():
            w.s.quiesce()
            if w.s.choose(["late", "early"], [0, 0]) == 0:
                w.s.block(lambda: False, 1.0, "late")
            lw.auto_gates = True
            for k in lw.gates:
                lw.gates[k] = True
            w.s.quiesce()
            for k in lw.gates:
                lw.gates[k] = True
        lw.start(then, settle=2.0)
        lw.run()
        lw.judge_peer(p, exp)
        ran = [r.body for r in lw.runs]
        w.check(len(ran) == len(set(ran)), "a request was executed twice")
        for i in range(30):
            w.check(b"w%02d" % i in ran, "request %d was never executed" % i)
        for i in (30, 31):
            if p.got(0x600 + i)[0].status == 0:
                w.check(b"w%02d" % i in ran, "request %d succeeded without being executed" % i)
    return scenario("busy", body, bound, "32 concurrent requests", netopts=dict(auto=True), time_horizon=10.0 ** 6)


def scenarios(tier):
    t = tier == "thorough"
    return [
        single(GOOD + RESULTS + ERRORS + UNDISPATCHABLE, 1 if t else 0, "single"),
        orders(["wait", "wait"], 4 if t else 3, "orders2"),
        orders(["wait", "echo", "wait"], 3 if t else 2, "orders3"),
        orders(["wait", "boom", "noservice"], 3 if t else 2, "orders-mixed"),
        orders(["wait", "waitboom", "heartbeat"], 2 if t else 1, "orders-heartbeat", one_by_one=True),
        orders(["echo", "empty", "boom"], 3 if t else 2, "pressure", policy=True),
        orders(["wait", "wait", "nomethod"], 3 if t else 2, "pressure-orders", policy=True),
        orders(["big", "wait"], 4 if t else 2, "pressure-big", policy=True),
        # a kernel that takes nothing at once: every write has to wait, whatever its size
        orders(["huge", "huge", "echo"], 2 if t else 1, "stalled", policy=lambda tr, data: [0]),
        orders(["huge", "boom", "huge"], 2 if t else 1, "stalled-parts", policy=lambda tr, data: [len(data) // 2]),
        orders(["vast", "vast"], 2 if t else 1, "stalled-vast", policy=lambda tr, data: [0]),
        slow(["vast", "echo", "vast"], "slow-peer-vast"),
        slow(["echo", "boom", "echo"], "slow-peer"),
        slow(["huge", "noservice", "heartbeat"], "slow-peer-mixed"),
        slow(["dangling-key", "huge", "text"], "slow-peer-bad"),
        contents("aio", "contents"),
        fields("aio", "fields"),
        working("working"),
        pauses(["echo", "heartbeat", "boom", "dangling-key"], "pauses"),
        repeated(["echo", "wait", "boom", "noservice", "heartbeat"], 1 if t else 0, "same-id"),
        two_peers((["wait", "echo"], ["wait", "boom"]), 1 if t else 0, "two-peers"),
        two_peers((["wait"], ["wait"]), 2 if t else 1, "two-peers1"),
        timeouts(["wait", "wait"], 3 if t else 2, "timeouts"),
        timeouts(["wait", "echo", "waitboom"], 3 if t else 1, "timeouts3", ms=(100, 50, 200)),
        timeouts(["wait", "wait"], 3 if t else 2, "timeouts-none", ms=(-1, 100)),
        timely(1 if t else 0),
        own_timeouts(1 if t else 0),
        busy(0),
        marathon("aio", (5, 35, 130, 530) + ((1100, 2100) if t else ()), "marathon"),
    ]
