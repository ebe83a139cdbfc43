"""C27: a listener's lifecycle: it serves until shutdown, then stops accepting and its thread ends."""
from mc.lsn import *

KINDS = ("aio", "sock")


def pick(w, kinds=KINDS):
    return kinds[w.s.choose(kinds, [0] * len(kinds))]


def prepared(lw, n_run=None):
    """Make the listeners without exploring the construction."""
    lw.w.setup(lw.make)


def settle(w, secs=2.0):
    """Let everything that can happen happen, polling loops included."""
    w.s.quiesce()
    w.s.block(lambda: False, secs, "settle")
    w.s.quiesce()


def shut(lw, i=0, name="shutdown", trace=False):
    return lw.w.call(name, lambda: lw.listeners[i].shutdown(), trace=trace)


def judge_calls(w, calls):
    for c in calls:
        w.check(c.ended, lambda: "%s never returned" % c.name)
        w.check(c.exc is None, lambda: "%s raised %s" % (c.name, short_tb(c.exc)))


def judge_down(lw, i=0):
    """Nobody can connect and the thread that ran the listener has ended."""
    w = lw.w
    w.check(w.net.acceptor_for(lw.addrs[i]) is None, "a connection is accepted after the listener was shut down")
    c = lw.runners[i]
    w.check(c.ended, "the thread running the listener goes on after it was shut down")
    w.check(c.exc is None, lambda: "the thread running the listener died: %s" % short_tb(c.exc))


def restart(lw, i=0):
    """Another listener may take the address."""
    w = lw.w

    def again():
        from anthunder.listener.aio_listener import AioListener
        from anthunder.listener.sock_listener import SockListener
        k = lw.kind if isinstance(lw.kind, str) else lw.kind[i]
        l = (AioListener if k == "aio" else SockListener)(lw.addrs[i], "again")
        l.handler.register_interface("svc", lw.service("svc", "again"))
        lw.listeners.append(l)
        lw.w.call("again", l.run_forever)
        w.s.quiesce()
        w.check(w.net.acceptor_for(lw.addrs[i]) is not None, "a second listener cannot take the address")
    return again


def starting(name, bound, shutters, before_run=False):
    """shutdown at any moment of the startup, from one or two threads."""
    def body(w):
        lw = ListenerWorld(w, pick(w))

        def main():
            prepared(lw)
            cs = []
            if before_run:
                cs.append(shut(lw, 0, "early"))
                w.s.quiesce()
            c = w.call("run0", lw.listeners[0].run_forever, trace=True)
            lw.runners.append(c)
            cs += [shut(lw, 0, "shutdown%d" % i, trace=True) for i in range(shutters)]
            settle(w)
            judge_calls(w, cs)
            judge_down(lw)
            late = shut(lw, 0, "late")
            settle(w)
            judge_calls(w, [late])
            w.setup(restart(lw))
            lw.over = True
        w.thread(main, "main", trace=False)
        lw.run()
        w.note(lw.kind)
    return scenario(name, body, bound, "%d shutdowns during the startup" % shutters, netopts=dict(auto=True))


def serving(name, bound, steps, shutters=1, kinds=KINDS):
    """shutdown while connections are made and requests are in progress."""
    def body(w):
        lw = ListenerWorld(w, pick(w, kinds))
        exp = {}
        b1, pr1, _ = kind(steps[0], 0x1000, b"one")
        b2, pr2, _ = kind(steps[1], 0x1000, b"two")
        done = []

        def ended():
            return bool(done)
        p = Peer(lw, [("send", b1)], name="p")
        q = Peer(lw, [("send", b2)], name="q")
        late = Peer(lw, [("send", kind("echo", 0x1000, b"late")[0])], name="late", after=ended)

        def main():
            prepared(lw)
            lw.run_listener(0)
            w.setup(w.s.quiesce)
            lw.ready = True
            cs = [shut(lw, 0, "shutdown%d" % i) for i in range(shutters)]
            settle(w)
            judge_calls(w, cs)
            w.check(w.net.acceptor_for(lw.addrs[0]) is None, "a connection is accepted after the listener was shut down")
            for x, pred in ((p, pr1), (q, pr2)):
                # a connection made before the shutdown took effect was served as ever, or turned away
                if x.refused:
                    continue
                if x.frames:
                    lw.judge_peer(x, {0x1000: pred})
                else:
                    w.check(x.ended is not None, lambda: "%s is connected, not answered and not turned away" % x.name)
            for x in (p, q):
                if x.conn is not None:
                    x.conn.client.close()
            done.append(True)
            settle(w)
            w.check(late.refused, "a connection is accepted after the listener was shut down")
            judge_down(lw)
            w.setup(restart(lw))
            lw.over = True
        w.thread(main, "main")
        lw.run()
        w.note(lw.kind, [(x.refused, len(x.frames)) for x in (p, q)])
    return scenario(name, body, bound, "shutdown while %s and %s arrive" % tuple(steps), netopts=dict(auto=True))


def inprogress(name, bound, shutters=1, waits=(2.0,), **opts):
    """A request in progress when shutdown is called is answered; its connection is served to its end."""
    def body(w):
        k = pick(w)
        T = waits[w.s.choose([str(x) for x in waits], [0] * len(waits))] if len(waits) > 1 else waits[0]
        lw = ListenerWorld(w, k)
        lw.auto_gates = False
        b1, pr1, _ = kind("wait", 0x1000, b"slow")
        b2, pr2, _ = kind("echo", 0x1001, b"later")
        stage = [0]
        p = Peer(lw, [("send", b1), ("wait", lambda: stage[0] >= 2, "")] +
                 ([("send", b2)] if k == "aio" else []), name="p")
        # connected, and nothing sent until the shutdown is over
        idle = Peer(lw, [("wait", lambda: stage[0] >= 2, ""), ("send", kind("echo", 0x1000, b"idle")[0])], name="idle")

        def main():
            prepared(lw)
            lw.run_listener(0)
            w.setup(w.s.quiesce)
            lw.ready = True
            w.s.block(lambda: bool(lw.gates) and idle.conn is not None, None, "in-progress")
            w.s.quiesce()
            cs = [shut(lw, 0, "shutdown%d" % i) for i in range(shutters)]
            settle(w)
            judge_calls(w, cs)
            w.check(w.net.acceptor_for(lw.addrs[0]) is None, "a connection is accepted after the listener was shut down")
            settle(w, T)
            stage[0] = 1
            lw.gates[b"slow"] = True
            settle(w, T)
            w.check(not lw.runners[0].exc, lambda: "the thread running the listener died: %s" % lw.runners[0].exc)
            lw.judge_peer(p, {0x1000: pr1})
            stage[0] = 2
            settle(w)
            lw.judge_peer(p, {0x1000: pr1, 0x1001: pr2} if k == "aio" else {0x1000: pr1})
            lw.judge_peer(idle, {0x1000: success(b"e:idle")})
            for x in (p, idle):
                x.conn.client.close()
            settle(w)
            judge_down(lw)
            lw.over = True
        w.thread(main, "main")
        lw.run()
        w.note(k)
    return scenario(name, body, bound, "shutdown with a request in progress and an idle connection", netopts=dict(auto=True), **opts)


def from_service(name, bound):
    """The service itself shuts its listener down; with a oneway request or one that is answered."""
    def body(w):
        k = pick(w)
        oneway = w.s.choose(["two-way", "oneway"], [0, 0])
        lw = ListenerWorld(w, k)
        cs = []

        class Stopper(object):
            def __init__(self, ctx):
                pass

            def stop(self, body):
                c = w.call("shutdown", lambda: lw.listeners[0].shutdown(), thread=False)
                w.perform(c, lambda: lw.listeners[0].shutdown())
                cs.append(c)
                return b"stopped"
        b = req(0x1000, "stop", b"x", svc="stopper", ptype=R.ONEWAY if oneway else R.REQUEST)
        p = Peer(lw, [("send", b)], name="p")

        def main():
            prepared(lw)
            lw.listeners[0].handler.register_interface("stopper", Stopper)
            lw.run_listener(0)
            w.setup(w.s.quiesce)
            lw.ready = True
            settle(w)
            w.check(len(cs) == 1, "the service ran %d times" % len(cs))
            judge_calls(w, cs)
            lw.judge_peer(p, {} if oneway else {0x1000: success(b"stopped")})
            p.conn.client.close()
            settle(w)
            judge_down(lw)
            lw.over = True
        w.thread(main, "main")
        lw.run()
        w.note(k, oneway)
    return scenario(name, body, bound, "a service shuts its listener down", netopts=dict(auto=True))


def threading_(name, bound):
    """run_threading returns at once; the listener serves until shutdown."""
    def body(w):
        k = pick(w)
        lw = ListenerWorld(w, k)
        b1, pr1, _ = kind("echo", 0x1000, b"one")
        p = Peer(lw, [("send", b1), ("wait", lambda: p.frames, ""), ("close",)], name="p")

        def main():
            prepared(lw)
            before = len(w.s.threads)
            w.perform(w.call("run_threading", None, thread=False), lw.listeners[0].run_threading)
            judge_calls(w, w.calls)
            settle(w)
            lw.ready = True
            settle(w)
            lw.judge_peer(p, {0x1000: pr1})
            # idle for long: it goes on serving
            w.s.block(lambda: False, 100.0, "long")
            w.check(w.net.acceptor_for(lw.addrs[0]) is not None, "the listener stopped serving without a shutdown")
            c = shut(lw)
            settle(w)
            judge_calls(w, [c])
            w.check(w.net.acceptor_for(lw.addrs[0]) is None, "a connection is accepted after the listener was shut down")
            runner = w.s.threads[before]
            w.check(runner.done, "the thread running the listener goes on after it was shut down")
            w.setup(restart(lw))
            lw.over = True
        w.thread(main, "main")
        lw.run()
        w.note(k)
    return scenario(name, body, bound, "run_threading, idle, shutdown", netopts=dict(auto=True))


def two(name, bound):
    """Shutting one listener down leaves the other alone."""
    def body(w):
        ks = (pick(w), pick(w))
        which = w.s.choose(["first", "second"], [0, 0])
        lw = ListenerWorld(w, ks, n=2)
        done = []
        other = 1 - which
        b, pr, _ = kind("echo", 0x1000, b"during")
        p = Peer(lw, [("send", b)], addr=lw.addrs[other], name="p")
        q = Peer(lw, [("send", b)], addr=lw.addrs[other], name="q", after=lambda: bool(done))

        def main():
            prepared(lw)
            for i in range(2):
                lw.run_listener(i)
            w.setup(w.s.quiesce)
            lw.ready = True
            c = shut(lw, which)
            settle(w)
            judge_calls(w, [c])
            judge_down(lw, which)
            done.append(True)
            settle(w)
            for x in (p, q):
                lw.judge_peer(x, {0x1000: pr})
            w.check(not lw.runners[other].ended, "the other listener ended as well")
            lw.over = True
        w.thread(main, "main")
        lw.run()
        w.note(ks, which)
    return scenario(name, body, bound, "two listeners, one is shut down", netopts=dict(auto=True))


def abuse(name, bound):
    """No behaviour of peers ends a listener: it serves until shutdown."""
    def body(w):
        k = pick(w)
        lw = ListenerWorld(w, k)
        hows = ["connect-close", "connect-reset", "half", "garbage", "eof", "negative"]
        h = hows[w.s.choose(hows, [0] * len(hows))]
        steps = {"connect-close": [("close",)], "connect-reset": [("reset",)],
                 "half": [("send", req(0x1000)[:30]), ("reset",)], "garbage": [("send", b"\xff" * 64), ("close",)],
                 "eof": [("eof",)], "negative": [("send", req(0x1000, "boom")), ("reset",)]}[h]
        bad = Peer(lw, steps, name="bad")
        b, pr, _ = kind("echo", 0x1000, b"good")
        good = Peer(lw, [("send", b)], name="good")
        late = Peer(lw, [("send", b)], name="late", after=lambda: w.s.now > 1.0)

        def main():
            prepared(lw)
            lw.run_listener(0)
            w.setup(w.s.quiesce)
            lw.ready = True
            settle(w, 3.0)
            for x in (good, late):
                lw.judge_peer(x, {0x1000: pr})
            w.check(not lw.runners[0].ended, "the listener ended")
            for x in (bad, good, late):
                if x.conn is not None:
                    x.conn.client.close()
            c = shut(lw)
            settle(w)
            judge_calls(w, [c])
            judge_down(lw)
            lw.over = True
        w.thread(main, "main")
        lw.run()
        w.note(k, h)
    return scenario(name, body, bound, "a peer misbehaves, then shutdown", netopts=dict(auto=True))


def many(name, sizes):
    """Many connections are open when shutdown is called: idle ones, served ones and ones in progress."""
    def body(w):
        k = pick(w)
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        lw = ListenerWorld(w, k)
        lw.auto_gates = False
        ps = [Peer(lw, [], name="p%d" % i, manual=True) for i in range(n)]

        def main():
            prepared(lw)
            lw.run_listener(0)
            w.setup(w.s.quiesce)
            lw.ready = True
            want = {}
            for i, p in enumerate(ps):
                p.connect()
                if i % 3 == 0:
                    b, pr, _ = kind("wait", 0x1000 + i, b"w%d" % i)
                    want[i] = pr
                    p.step(("send", b))
                elif i % 3 == 1 and k == "aio":
                    b, pr, _ = kind("echo", 0x1000 + i, b"e%d" % i)
                    p.step(("send", b))
            settle(w)
            cs = [shut(lw)]
            settle(w)
            judge_calls(w, cs)
            w.check(w.net.acceptor_for(lw.addrs[0]) is None, "a connection is accepted after the listener was shut down")
            for i in sorted(want):
                lw.gates[b"w%d" % i] = True
            settle(w)
            for i, p in enumerate(ps):
                if i in want:
                    lw.judge_peer(p, {0x1000 + i: want[i]})
                elif i % 3 == 1 and k == "aio":
                    lw.judge_peer(p, {0x1000 + i: success(b"e:e%d" % i)})
                else:
                    b, pr, _ = kind("echo", 0x1000 + i, b"late%d" % i)
                    p.step(("send", b))
            settle(w)
            for i, p in enumerate(ps):
                if i not in want and not (i % 3 == 1 and k == "aio"):
                    lw.judge_peer(p, {0x1000 + i: success(b"e:late%d" % i)})
                if i % 2:
                    p.conn.client.close()
                else:
                    p.conn.client.reset()
            settle(w)
            judge_down(lw)
            w.setup(restart(lw))
            lw.over = True
        w.thread(main, "main")
        lw.run()
        w.note(k, n)
    return scenario(name, body, 0, "shutdown with %s connections" % (sizes,), netopts=dict(auto=True, dial_auto=True),
                    early_env=False, horizon=1000000)


def again(name, n):
    """Listeners come and go on one address, of either kind, each serving requests before its shutdown."""
    def body(w):
        from anthunder.listener.aio_listener import AioListener
        from anthunder.listener.sock_listener import SockListener
        kinds = w.s.choose(["aio", "sock", "alternating"], [0] * 3)
        lw = ListenerWorld(w, "aio")

        def main():
            lw.ready = True
            for i in range(n):
                k = (kinds + i) % 2 if kinds == 2 else kinds
                l = (AioListener if k == 0 else SockListener)(lw.addrs[0], "app%d" % i)
                l.handler.register_interface("svc", lw.service("svc", str(i)))
                c = w.call("run%d" % i, l.run_forever)
                w.s.quiesce()
                lw.kind = "aio" if k == 0 else "sock"
                for j in range(3):
                    p = Peer(lw, [], name="p%d.%d" % (i, j), manual=True)
                    p.connect()
                    b, pr, _ = kind("echo", 0x1000 + i, b"<%d.%d>" % (i, j))
                    p.step(("send", b))
                    settle(w)
                    lw.judge_peer(p, {0x1000 + i: pr})
                    p.conn.client.close()
                settle(w)
                s = w.call("shutdown%d" % i, l.shutdown)
                settle(w)
                judge_calls(w, [s])
                w.check(w.net.acceptor_for(lw.addrs[0]) is None, "a connection is accepted after the listener was shut down")
                w.check(c.ended, "the thread running listener %d goes on after it was shut down" % i)
                w.check(c.exc is None, lambda: "the thread running the listener died: %s" % short_tb(c.exc))
            lw.over = True
        w.thread(main, "main")
        lw.run()
        w.note(kinds)
    return scenario(name, body, 0, "%d listeners one after the other" % n, netopts=dict(auto=True, dial_auto=True),
                    early_env=False, horizon=1000000)


def scenarios(tier):
    t = tier == "thorough"
    return [
        starting("starting", 4 if t else 3, 1),
        starting("starting-two", 3 if t else 2, 2),
        starting("before-run", 4 if t else 3, 1, True),
        serving("serving", 3 if t else 2, ("echo", "wait")),
        serving("serving-two", 3 if t else 2, ("echo", "boom"), 2),
        inprogress("in-progress", 3 if t else 2, 2),
        inprogress("long-open", 0, 1, (12.0, 40.0, 100.0, 400.0), early_env=False, time_horizon=5000.0, horizon=100000),
        from_service("from-service", 5 if t else 4),
        threading_("run-threading", 4 if t else 3),
        two("two-listeners", 3 if t else 2),
        abuse("abuse", 2 if t else 1),
        many("many", (2, 9, 40, 110) if t else (2, 9, 40)),
        again("again", 30 if t else 8),
    ]
