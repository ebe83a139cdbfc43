"""C06: the asyncio client shares one connection per address and recovers after loss."""
from mc.aioc import *
from checks.c05 import FServer


def live(net):
    return [c for c in net.conns if not c.client.closed and not c.server.closed and not c.client.got_eof
            and not c.client.got_rst]


def shared(kinds, bound, name, policy=False, dial_auto=False, trace=False, **opts):
    """Healthy network: one connection for all calls to one address."""
    def body(w):
        srv = Server(w, A)
        if policy:
            w.net.write_policy = lambda tr, data: [len(data), 0, 25]
        cw = ClientWorld(w)
        cw.trace = trace or None
        for i, k in enumerate(kinds):
            if k == "late":
                def late(i=i):
                    def run():
                        w.s.block(lambda: any(c.ended for c in w.calls), None, "wait-first")
                        cw.sync("c%d" % i, b"x%d" % i, auto=False)
                    w.thread(run, "late%d" % i)
                cw.starters.append(late)
            else:
                getattr(cw, k)("c%d" % i, b"x%d" % i)
        cw.start()
        w.run()
        for c in w.calls:
            w.check(c.ended and c.exc is None, lambda: "call %s failed on a healthy network: %s" % (
                c.name, short_tb(c.exc) if c.exc else "it never ended"))
        w.check(len(w.calls) == len(kinds), "a call never started")
        w.check(len(w.net.dial_log) == 1, "%d connections were opened to one address while the first was healthy"
                % len(w.net.dial_log))
        w.check(not w.net.conns[0].client.closed, "the client closed a healthy connection")
    return scenario(name, body, bound, "healthy network, calls: %s" % (kinds,), netopts=dict(dial_auto=dial_auto, auto=trace), **opts)


OTHERS = [B, (A[0], B[1]), (B[0], A[1]), (A[0], 12200), (A[0] + "0", A[1])]


def left_open(w):
    """Connections whose end the server announced, and which the client nevertheless holds open."""
    return [c for c in w.net.conns if c.client.got_eof and not c.client.closed and not c.client.got_rst]


def rounds_apart(depth, name):
    """All sequences of calls to, and losses of, the connections to two addresses: each has its own fate."""
    TO = {"a": A, "b": B}

    def body(w):
        menu = lambda c, f: [("ok", lambda: c.reply(f), 0)]
        srvs = {"a": Server(w, A, menu, name="A"), "b": Server(w, B, menu, name="B")}
        cw = ClientWorld(w, routes=dict(TO))
        alive, conns, trace = {"a": False, "b": False}, {"a": 0, "b": 0}, []

        def go():
            for i in range(depth):
                ops = []
                for k in "ab":
                    ops.append(("call-" + k, k, "call"))
                    if alive[k]:
                        ops += [("close-" + k, k, "close"), ("reset-" + k, k, "reset")]
                    ops.append(("refuse-" + k, k, "refuse"))
                if i == 0:
                    ops = [o for o in ops if o[1] == "a"]
                label, k, op = ops[w.s.choose([o[0] for o in ops], [0] * len(ops))]
                trace.append(label)
                srv = srvs[k]
                if op in ("close", "reset"):
                    getattr(srv.conns[-1], op)()
                    alive[k] = False
                else:
                    if op == "refuse":
                        w.net.refused.add(TO[k])
                    expect = op == "call" or alive[k]
                    n = len(w.calls)
                    content = b"%s%d" % (k.encode(), n)
                    (cw.sync if n % 2 else cw.future)("c%d" % n, content, k, auto=False)
                    c = w.calls[n]
                    w.check(c.ended and c.ok == expect, lambda: "after %s the call ended with %s" % (
                        trace, short_tb(c.exc) if c.exc else repr(c.value)))
                    w.check(not expect or c.value == b"r:" + content, "the call returned %r" % (c.value,))
                    if expect and not alive[k]:
                        alive[k] = True
                        conns[k] += 1
                    w.net.refused.discard(TO[k])
                w.s.quiesce()
                for x in "ab":
                    w.check(len(srvs[x].conns) == conns[x], lambda: "after %s there were %d connections to %s, expected %d" % (
                        trace, len(srvs[x].conns), x, conns[x]))
                    w.check(not alive[x] or srvs[x].conns[-1].state == "open", lambda: "after %s the healthy connection to %s is %s" % (
                        trace, x, srvs[x].conns[-1].state))
                w.check(not left_open(w), "the client holds a connection open that the server has closed")
        cw.start(go)
        w.run()
        for x in "ab":
            w.check(not srvs[x].bad(), srvs[x].bad())
        w.note(trace)
    return scenario(name, body, 0, "all sequences of %d calls and losses at two addresses" % depth,
                    netopts=dict(dial_auto=True, auto=True), early_env=False, horizon=400000)


def separate(bound):
    def body(w):
        other = OTHERS[w.s.choose(["other%d" % i for i in range(len(OTHERS))], [0] + [1] * (len(OTHERS) - 1))]
        sa, sb = Server(w, A, name="A"), Server(w, other, name="B")
        cw = ClientWorld(w, routes={"a": A, "b": A[0] if other[1] == 12200 else other})
        for i, a in enumerate("aba"):
            cw.sync("c%d" % i, b"%s%d" % (a.encode(), i), a)
        cw.start()
        w.run()
        for c in w.calls:
            w.check(c.ok, lambda: "call %s failed: %r" % (c.name, c))
        for srv, ch in ((sa, b"a"), (sb, b"b")):
            w.check(len(srv.conns) == 1, "%d connections to %s" % (len(srv.conns), srv.name))
            for _, f in srv.frames:
                w.check(f.content.startswith(ch), "%s received %r" % (srv.name, f))
    return scenario("two-addresses", body, bound, "calls to two addresses use one connection each",
                    netopts=dict(dial_auto=True))


def recover(kinds, faults, bound, name, policy=False, dials=("ok",), last=2):
    """Phase 1: calls with faults.  Then everything settles.  Phase 2: the server is healthy; calls must succeed."""
    def body(w):
        st = {"phase": 1, "faults": 0}
        srv = FServer(w, A, statuses=(), conn_faults=faults)
        orig = srv.conn_items

        def conn_items(c):
            if st["phase"] != 1:
                return []

            def counted(fn):
                def f():
                    st["faults"] += 1
                    fn()
                return f
            return [(l, counted(fn), k) for l, fn, k in orig(c)]
        srv.conn_menu = conn_items
        if policy:
            w.net.write_policy = lambda tr, data: [len(data), 0] if st["phase"] == 1 else None
        cw = ClientWorld(w)
        for i, k in enumerate(kinds):
            if k == "late":
                def late(i=i):
                    def run():
                        w.s.block(lambda: any(c.ended for c in w.calls), None, "wait-first")
                        cw.sync("c%d" % i, b"x%d" % i, auto=False)
                    w.thread(run, "late%d" % i)
                cw.starters.append(late)
            else:
                getattr(cw, k)("c%d" % i, b"x%d" % i)

        def phase2():
            # all calls of phase 1 end or have no way to end
            w.s.quiesce()
            st["phase"] = 2
            w.net.dial_outcomes = ("ok",)
            st["before"] = len(srv.conns)
            st["live"] = len(live(w.net))
            for i in range(last):
                cw.starters = []
                cw.sync("r%d" % i, b"r%d" % i)
                cw.starters[0]()
        cw.start(lambda: w.thread(phase2, "phase2"))
        w.run()
        w.check(st["phase"] == 2, "never became quiet")
        for c in w.calls:
            w.check(c.ended, "call %s never ended: %r" % (c.name, w.calls))
        for c in w.calls[len(kinds):]:
            w.check(c.exc is None and c.value == b"r:" + c.name.encode(), lambda: "after the connection was lost, the "
                    "server accepts and answers, but call %s ended with %s" % (
                        c.name, short_tb(c.exc) if c.exc else c.value))
        used = len(srv.conns)
        w.check(used <= 1 + st["faults"] + (1 if not st["faults"] and dials != ("ok",) else 0),
                "%d connections were opened although only %d were lost" % (used, st["faults"]))
        w.check(used - st["before"] <= (0 if st["live"] else 1), "%d new connections for the later calls although %d "
                "were alive" % (used - st["before"], st["live"]))
        n = len(live(w.net))
        w.check(n <= 1, "%d connections to one address are alive at the end" % n)
        w.check(not left_open(w), "the client holds a connection open that the server has closed")
    return scenario(name, body, bound, "calls %s with faults %s, then calls on a healthy server" % (kinds, faults),
                    netopts=dict(dial_auto=dials == ("ok",), dial_outcomes=dials))


def hung(kinds, bound):
    """One address never reacts to the dial; calls to another one are not held up."""
    def body(w):
        srv = Server(w, B)
        dead = [A, (B[0], A[1]), (A[0], B[1])][w.s.choose(["elsewhere", "same host", "same port"], [0, 1, 1])]
        w.net.silent.add(dead)
        cw = ClientWorld(w, routes={"a": dead, "b": B})
        first = w.s.choose(["hung-first", "hung-last"], [0, 0]) == 0

        def hang():
            cw.starters = []
            cw.sync("h", b"h", "a", timeout_ms=5000)
            cw.starters[0]()

        def go():
            if first:
                hang()
                w.s.quiesce()
            for i, k in enumerate(kinds):
                cw.starters = []
                getattr(cw, k)("c%d" % i, b"x%d" % i, "b", **(dict(timeout_ms=1000) if k == "sync" else {}))
                cw.starters[0]()
            if not first:
                hang()
        cw.start(go)
        w.run()
        for c in w.calls:
            if c.name == "h":
                w.check(c.ended and c.exc is not None, "the call to the silent address: %r" % c)
            else:
                w.check(c.ok, lambda: "call %s to a healthy address ended with %s while another address does not react"
                        % (c.name, short_tb(c.exc) if c.exc else "nothing"))
        w.check(len(srv.conns) == 1, "%d connections" % len(srv.conns))
    return scenario("hung-dial", body, bound, "a dial that hangs next to calls %s to another address" % (kinds,),
                    netopts=dict(dial_auto=True), time_horizon=100.0)


LOSSES = ["none", "idle", "idle-day", "close", "reset", "refuse", "close+refuse", "reset+refuse", "lose-during"]


def rounds(depth, name, repeat=1):
    """All sequences of ways to lose the connection between (or during) the calls of a long life."""
    def body(w):
        srv = Server(w, A, lambda c, f: [("lose", c.close, 0)] if f.content == b"lost" else [("ok", lambda: c.reply(f), 0)])
        cw = ClientWorld(w)
        seq = [LOSSES[w.s.choose(LOSSES, [0] * len(LOSSES))] for _ in range(depth)] * repeat
        st = {"alive": False, "conns": 0}
        i_ = [0]

        def call(content, expect):
            n = len(w.calls)
            (cw.sync if (n + n // 4) % 2 else cw.future)("c%d" % n, content, auto=False)
            c = w.calls[n]
            w.check(c.ok == expect and c.ended, lambda: "after %r (%d in all) call %d ended with %s" % (
                seq[:i_[0] + 1][-6:], len(seq), n, short_tb(c.exc) if c.exc else repr(c.value)))
            w.check(not expect or c.value == b"r:" + content, "call %d returned %r" % (n, c.value))

        def go():
            for i, how in enumerate(seq):
                i_[0] = i
                if how.startswith(("close", "reset")) and st["alive"]:
                    (srv.conns[-1].close if how.startswith("close") else srv.conns[-1].reset)()
                    st["alive"] = False
                    w.s.quiesce()
                if how.startswith("idle"):
                    w.s.block(lambda: False, 100.0 if how == "idle" else 10.0 ** (4 + i % 2), "idle")
                if how.endswith("refuse"):
                    w.net.refused.add(A)
                    call(b"refused%d" % i, st["alive"])
                    w.net.refused.discard(A)
                if how == "lose-during":
                    st["conns"] += not st["alive"]
                    call(b"lost", False)
                    st["alive"] = False
                    w.s.quiesce()
                st["conns"] += not st["alive"]
                st["alive"] = True
                call(b"x%d" % i, True)
                w.check(len(srv.conns) == st["conns"], "after %r the server saw %d connections, expected %d" % (
                    seq[:i + 1][-6:], len(srv.conns), st["conns"]))
                w.s.quiesce()
                w.check(not left_open(w), "the client holds a connection open that the server has closed")
        cw.start(go)
        w.run()
        w.check(len(srv.conns) == st["conns"], "connections")
        w.fingerprint = (name,) + tuple(seq[:depth])
    return scenario(name, body, 0, "all sequences of %d losses, each followed by a call%s" % (
                    depth, ", repeated %d times" % repeat if repeat > 1 else ""),
                    netopts=dict(dial_auto=True, auto=True), early_env=False, horizon=400000, time_horizon=10 ** 9)


def idle_loss(bound):
    """The connection is lost while idle; the next calls redial exactly once."""
    def body(w):
        srv = Server(w, A)
        cw = ClientWorld(w)

        def go():
            w.setup(lambda: cw.sync("c0", b"x0", auto=False))
            how = w.s.choose(["close", "reset"], [0, 0])
            (srv.conns[0].close if how == 0 else srv.conns[0].reset)()
            w.s.quiesce()
            for i in (1, 2):
                cw.starters = []
                (cw.sync if i == 1 else cw.future)("c%d" % i, b"x%d" % i)
                cw.starters[0]()
        cw.start(go)
        w.run()
        w.check(len(w.calls) == 3, "calls missing")
        for c in w.calls:
            w.check(c.ok, lambda: "call %s failed: %s" % (c.name, short_tb(c.exc) if c.exc else "never ended"))
        w.check(len(srv.conns) == 2, "%d connections were opened after one loss" % len(srv.conns))
        w.check(not left_open(w), "the client holds a connection open that the server has closed")
    return scenario("idle-loss", body, bound, "the idle connection is lost, then two calls at once")


def traced_loss(kind, bound, name, **opts):
    """The connection is lost at any moment of a call preempted between bytecodes; the next call recovers."""
    def body(w):
        st = {"lost": 0}
        srv = Server(w, A)
        srv.got = lambda c, f: c.reply(f)
        cw = ClientWorld(w)
        cw.trace = True

        def go():
            w.setup(lambda: cw.sync("c0", b"x0", auto=False))
            w.s.quiesce()
            how = w.s.choose(["close", "reset"], [0, 0])

            def breaker():
                if not w.calls[1].ended:
                    st["lost"] += 1
                    getattr(srv.conns[-1], ("close", "reset")[how])()
            cw.starters = []
            getattr(cw, kind)("c1", b"x1")
            cw.starters[0]()
            w.thread(breaker, "breaker", trace=False)
            w.s.block(lambda: w.calls[1].ended, 1e7, "wait-c1")
            w.s.quiesce()
            w.setup(lambda: cw.sync("c2", b"x2", auto=False))
        cw.start(go)
        w.run()
        w.check(len(w.calls) == 3 and all(c.ended for c in w.calls), lambda: "a call never ended: %r" % w.calls)
        for c in w.calls:
            if c.name != "c1" or not st["lost"]:
                w.check(c.ok, lambda: "call %s failed: %s" % (c.name, short_tb(c.exc)))
            w.check(not c.ok or kind == "oneway" or c.value == b"r:x" + c.name[1:].encode(), lambda: "call %r" % c)
        w.check(len(srv.conns) <= 1 + st["lost"], "%d connections, %d lost" % (len(srv.conns), st["lost"]))
        w.check(not left_open(w), "the client holds a connection open that the server has closed")
    return scenario(name, body, bound, "loss of the connection during a %s call preempted between bytecodes" % kind,
                    netopts=dict(dial_auto=True, auto=True), early_env=False, **opts)


def refused(bound):
    """The first dial is refused, later ones are accepted."""
    def body(w):
        srv = FServer(w, A, statuses=())
        w.net.refused.add(A)
        cw = ClientWorld(w)
        cw.sync("c0", b"x0", timeout_ms=500)
        cw.future("c1", b"x1")

        def later():
            w.s.block(lambda: all(c.ended for c in w.calls), None, "first-two")
            w.net.refused.discard(A)
            for i in (2, 3):
                cw.starters = []
                cw.sync("c%d" % i, b"x%d" % i)
                cw.starters[0]()
        cw.start(lambda: w.thread(later, "later"))
        w.run()
        w.check(len(w.calls) == 4, "a call never ended after a refused dial: %r" % w.calls)
        for c in w.calls[:2]:
            w.check(c.exc is not None, "call %s returned %r although nobody listened" % (c.name, c.value))
        for c in w.calls[2:]:
            w.check(c.ok, lambda: "after a refused dial the server listens, but call %s ended with %s"
                    % (c.name, short_tb(c.exc) if c.exc else "nothing"))
        w.check(len(srv.conns) == 1, "%d connections" % len(srv.conns))
    return scenario("refused-first", body, bound, "first calls refused, later calls must succeed")


def refusals(sizes, name):
    """n dials in a row are refused; as soon as the server listens again the very next call reaches it."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        gap = (0, 0.1, 20.0)[w.s.choose(["at once", "soon", "apart"], [0] * 3)]
        warm = w.s.choose(["never connected", "connected before"], [0, 0])
        srv = Server(w, A, lambda c, f: [("ok", lambda: c.reply(f), 0)])
        cw = ClientWorld(w)

        def call(content, expect):
            i = len(w.calls)
            (cw.sync if (i + i // 4) % 2 else cw.future)("c%d" % i, content, auto=False)
            c = w.calls[i]
            w.check(c.ended and c.ok == expect and (not expect or c.value == b"r:" + content), lambda: "%s: call %d ended with %s"
                    % (("after %d refused dials the server listens" % n) if expect else "the server does not listen", i,
                       short_tb(c.exc) if c.exc else repr(c.value)))

        def go():
            for turn in range(2):
                if warm or turn:
                    call(b"warm%d" % turn, True)
                    srv.conns[-1].close()
                    w.s.quiesce()
                w.net.refused.add(A)
                for i in range(n):
                    call(b"refused%d" % i, False)
                    if gap:
                        w.s.block(lambda: False, gap, "gap")
                w.net.refused.discard(A)
                call(b"again%d" % turn, True)
            w.check(len(srv.conns) == 2 + warm, "the server saw %d connections" % len(srv.conns))
        cw.start(go)
        w.run()
        w.note(n, gap, warm)
    return scenario(name, body, 0, "%s refused dials in a row, then the server listens" % (sizes,),
                    netopts=dict(dial_auto=True, auto=True), early_env=False, horizon=1000000, time_horizon=10 ** 6)


def addresses(sizes, name):
    """One client and very many addresses: each is dialled once, whatever the number of the others."""
    def body(w):
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        order = w.s.choose(["same order", "reverse", "one in between"], [0] * 3)
        srvs = [Server(w, ("10.1.%d.%d" % (i // 200, i % 200 + 1), 12200 + i % 3), lambda c, f: [("ok", lambda: c.reply(f), 0)],
                       name="s%d" % i) for i in range(n)]
        cw = ClientWorld(w, routes=dict(("i%d" % i, s.addr) for i, s in enumerate(srvs)))

        def call(k, i):
            j = len(w.calls)
            (cw.sync if (i + k) % 2 else cw.future)("r%d-%d" % (k, i), b"%d-%d" % (k, i), interface="i%d" % i, auto=False)
            c = w.calls[j]
            w.check(c.ok and c.value == b"r:%d-%d" % (k, i), lambda: "call %d to address %d of %d gave %s" % (
                k + 1, i, n, short_tb(c.exc) if c.exc else repr(c.value)))

        def go():
            for k in range(3):
                for i in range(n) if k != 1 or order != 1 else reversed(range(n)):
                    call(k, i)
                    if k and order == 2:
                        call(k, 0)
            w.s.quiesce()
            for i, s in enumerate(srvs):
                w.check(len(s.conns) == 1, lambda: "address %d of %d was dialled %d times" % (i, n, len(s.conns)))
            w.check(not left_open(w), "the client holds a connection open that the server has closed")
        cw.start(go)
        w.run()
        w.check(len(w.calls) == n * (5 if order == 2 else 3), "not all calls were made")
        w.note(n, order)
    return scenario(name, body, 0, "%s addresses called in turn" % (sizes,), netopts=dict(dial_auto=True, auto=True),
                    early_env=False, horizon=1000000, time_horizon=10 ** 6)


def scenarios(tier):
    t = tier == "thorough"
    return [
        shared(["sync", "future", "sync"], 2 if t else 1, "shared", dial_auto=False),
        shared(["sync", "future"], 3 if t else 2, "shared2", dial_auto=False),
        shared(["sync", "future", "late"], 3 if t else 2, "shared-late", policy=True, dial_auto=True),
        rounds_apart(7 if t else 5, "rounds-apart"),
        separate(2 if t else 1),
        recover(["sync", "future"], ("close", "reset"), 3 if t else 2, "recover", last=2 if t else 1),
        recover(["sync", "future", "sync"], ("reset",), 2 if t else 1, "recover3"),
        recover(["future", "future"], ("reset",), 3 if t else 2, "recover-blocked", policy=True, last=1),
        recover(["future", "future", "future"], ("reset",), 2 if t else 1, "recover-blocked3", policy=True, last=1),
        recover(["sync", "future"], (), 3 if t else 2, "recover-dial", dials=("ok", "refuse")),
        recover(["future", "sync", "late"], (), 2 if t else 1, "recover-dial3", dials=("ok", "refuse")),
        idle_loss(2 if t else 1),
        hung(["sync", "future"], 2 if t else 1),
        rounds(4 if t else 3, "rounds"),
        rounds(1, "rounds-long", 300 if t else 110),
        rounds(2, "rounds-long2", 100 if t else 24),
        addresses([2, 9, 33, 130, 600] + ([3000] if t else []), "addresses"),
        refused(2 if t else 1),
        refusals([1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 33, 65] + ([130, 520, 1030] if t else []), "refusals"),
        shared(["sync", "sync"], 2 if t else 1, "callers-sync", dial_auto=True, trace=True, early_env=False),
        shared(["future", "sync"], 2 if t else 1, "callers-async", dial_auto=False, trace=True, early_env=False),
        traced_loss("sync", 2 if t else 1, "callers-lost"),
        traced_loss("future", 2 if t else 1, "callers-lost-async"),
        traced_loss("sync", 2 if t else 1, "callers-lost-loop", op_trace=True),
    ]
