"""C13: requests reach exactly the registered service, method, body and trace context."""
from mc.lsn import *
from checks import c11

IFACES = ("if.A", "if.B")


def tr(i, extra=()):
    d = {"rpc_trace_context.sofaTraceId": "trace-%d" % i, "rpc_trace_context.sofaRpcId": "0.%d" % (i + 1),
         "rpc_trace_context.penAttrs": "a=%d&b" % i}
    d.update(extra)
    return d


def ctx_of(r):
    return dict((k, str(v)) for k, v in r.ctx.baggage.items())


def want_ctx(i):
    return {"sofaTraceId": "trace-%d" % i, "sofaRpcId": "0.%d" % (i + 1), "penAttrs": "a=%d&b" % i}


class Tagged(object):
    """Service classes that tell who they are."""

    def __init__(self, lw):
        self.lw, self.n = lw, 0

    def make(self, listener, iface, variant):
        lw = self.lw
        self.n += 1
        tag = "%s/%s/%s#%d" % (listener, iface, variant, self.n)
        base = lw.service(iface, tag)

        class T(base):
            def who(self, body):
                self._run("who", body).done = True
                return ("%s|%r|%r" % (tag, self.a, sorted(self.k.items()))).encode() + b"|" + body

            def who_wait(self, body):
                r = self._run("who_wait", body)
                lw.gate(body)
                r.done = True
                return tag.encode() + b"|" + body
        if variant == "class":
            return tag, T, (), {}
        if variant == "args":
            return tag, T, (self.n, "x"), {"k": self.n + 100}
        if variant == "falsy":
            return tag, T, (None, 0, ""), {"k": None, "flag": False}
        if variant == "kwargs":
            return tag, T, (), {"ctx2": {"a": [self.n]}, "name": "n%d" % self.n}
        if variant == "factory":
            return tag, (lambda ctx, *a, **k: T(ctx, *a, **k)), ("f",), {}


def histories(kinds, depth, name, variants=("class", "args"), listeners=2):
    """Every sequence of registrations; after each all interfaces are called on all listeners."""
    def body(w):
        lw = ListenerWorld(w, list(kinds), n=listeners, services=())
        tg = Tagged(lw)
        model = {}
        expects = []
        ops = [(l, i, v) for l in range(listeners) for i in IFACES for v in variants]
        seq = [ops[w.s.choose(["%d:%s:%s" % o for o in ops], [0] * len(ops))] for _ in range(depth)]
        counter = [0]
        state = {"i": 0}

        def probe():
            ps = []
            for l in range(listeners):
                for i in IFACES:
                    counter[0] += 1
                    n = counter[0]
                    b = req(n, "who", b"body%d" % n, svc=i, extra=tr(n))
                    exp = model.get((l, i))
                    p = Peer(lw, [("send", b)], addr=lw.addrs[l], name="p%d" % n)
                    ps.append((p, n, exp, l, i))
            w.setup(lambda: w.s.quiesce())
            for p, n, exp, l, i in ps:
                if exp is None:
                    lw.judge_peer(p, {n: failure(6)})
                else:
                    tag, a, k = exp
                    lw.judge_peer(p, {n: success(("%s|%r|%r" % (tag, a, sorted(k.items()))).encode() + b"|body%d" % n)})
                    rs = [r for r in lw.runs if r.body == b"body%d" % n]
                    w.check(len(rs) == 1 and rs[0].method == "who", lambda: "request %d ran %r" % (n, rs))
                    w.check(ctx_of(rs[0]) == want_ctx(n), lambda: "request %d ran with the trace context %r"
                            % (n, ctx_of(rs[0])))
                w.check(all(r.body != b"body%d" % n or exp for r in lw.runs), "request %d was executed" % n)
                lw.w.s.env_sources.remove(p.actions)

        def then():
            probe()
            for l, i, v in seq:
                tag, cls, a, k = tg.make(l, i, v)
                lw.listeners[l].handler.register_interface(i, cls, *a, **k)
                model[(l, i)] = (tag, a, k)
                probe()
            objs = [id(r.obj) for r in lw.runs]
            w.check(len(objs) == len(set(objs)), "a service object served two requests")
            w.check(len(lw.built) == len(lw.runs), "%d service objects were made for %d requests"
                    % (len(lw.built), len(lw.runs)))
            state["done"] = True
        lw.start(then)
        lw.run()
        w.check(state.get("done"), "the history did not finish (%s)" % w.s.reason)
    return scenario(name, body, 0, "registrations on %s, all sequences of %d" % (kinds, depth),
                    netopts=dict(auto=True), horizon=40000)


def concurrent(k, n, bound, name, methods=None):
    """Concurrent requests with different contexts, bodies and interfaces."""
    def body(w):
        lw = ListenerWorld(w, k, services=())
        tg = Tagged(lw)
        tags = {}
        ms = methods or ["who_wait"] * n
        peers = []
        if k == "aio":
            data = b"".join(req(i, ms[i], b"b%d" % i, svc=IFACES[i % 2], extra=tr(i)) for i in range(n))
            peers = [(Peer(lw, [("send", data, "all")]), list(range(n)))]
        else:
            for i in range(n):
                peers.append((Peer(lw, [("send", req(i, ms[i], b"b%d" % i, svc=IFACES[i % 2], extra=tr(i)), "r%d" % i)],
                                   name="p%d" % i), [i]))
        mk = lw.make

        def make():
            mk()
            for i in IFACES:
                tag, cls, a, kk = tg.make(0, i, "class")
                lw.listeners[0].handler.register_interface(i, cls)
                tags[i] = tag
        lw.make = make
        lw.start()
        lw.run()
        for p, ids in peers:
            exp = {}
            for i in ids:
                t = tags[IFACES[i % 2]].encode()
                exp[i] = success(t + b"|b%d" % i if ms[i] == "who_wait" else t + b"|()|[]|b%d" % i)
            lw.judge_peer(p, exp)
        for i in range(n):
            rs = [r for r in lw.runs if r.body == b"b%d" % i]
            w.check(len(rs) == 1, lambda: "request %d ran %r" % (i, rs))
            w.check(ctx_of(rs[0]) == want_ctx(i), lambda: "request %d ran with the trace context %r" % (i, ctx_of(rs[0])))
        objs = [id(r.obj) for r in lw.runs]
        w.check(len(objs) == len(set(objs)) == len(lw.built), "service objects are shared or built in vain")
    return scenario(name, body, bound, "%d concurrent requests (%s)" % (n, k))


SAME = [{"sofaTraceId": "t1", "sofaRpcId": "0.1", "penAttrs": "a=1"}, {"sofaTraceId": "t1", "sofaRpcId": "0.1", "penAttrs": "a=2"},
        {"sofaTraceId": "t1", "sofaRpcId": "0.2", "penAttrs": "a=1"}, {"sofaTraceId": "t2", "sofaRpcId": "0.1", "penAttrs": "a=1"},
        {"sofaTraceId": "t1", "sofaRpcId": "0.1", "other": ""}, {"sofaTraceId": "t1"}, {"sofaRpcId": "0.1"}, {}]


def same_trace(k, name, n=2, auto=True, bound=0):
    """Requests whose trace contexts are equal or alike, one after the other, on one connection or several."""
    def body(w):
        lw = ListenerWorld(w, k, services=("svc", "svc2"))
        one = k == "aio" and w.s.choose(["one connection", "several"], [0, 0]) == 0
        ctx = [SAME[w.s.choose(["ctx%d" % i for i in range(len(SAME))], [0] * len(SAME))] for _ in range(n)]
        svcs = ["svc", ("svc", "svc2")[w.s.choose(["same service", "another"], [0, 0])]] + ["svc"] * n
        ids = [5, (6, 5)[w.s.choose(["another id", "same id"], [0, 0])] if not one else 6] + list(range(7, 7 + n))
        steps = []
        for i in range(n):
            x = dict(("rpc_trace_context." + a, b) for a, b in ctx[i].items())
            steps.append(("send", req(ids[i], "echo", b"same%d" % i, svc=svcs[i], extra=x), "r%d" % i))
        if one:
            ps = [(Peer(lw, [steps[0]] + sum([[("wait", lambda i=i: len(p0.frames) > i, "-"), s] for i, s in enumerate(steps[1:])], [])),
                   list(range(n)))]
            p0 = ps[0][0]
        else:
            ps = [(Peer(lw, [s], name="p%d" % i), [i]) for i, s in enumerate(steps)]
            for a, b in zip(ps, ps[1:]):
                b[0].after = lambda a=a: len(a[0].frames) > 0
        lw.start()
        lw.run()
        for p, mine in ps:
            lw.judge_peer(p, dict((ids[i], success(b"e:same%d" % i)) for i in mine))
        w.check(len(lw.runs) == n == len(lw.built), lambda: "%d objects for %d runs of %d requests" % (len(lw.built), len(lw.runs), n))
        w.check(len(set(id(r.obj) for r in lw.runs)) == n, "a service object served two requests")
        w.check(len(set(id(r.ctx) for r in lw.runs)) == n, "two requests were given the same trace context object")
        for i in range(n):
            rs = [r for r in lw.runs if r.body == b"same%d" % i]
            w.check(len(rs) == 1 and rs[0].svc == svcs[i], lambda: "request %d ran %r" % (i, rs))
            got = ctx_of(rs[0])
            w.check(all(got.get(a) == b for a, b in ctx[i].items()) and not set(got) - set(ctx[i]) - {"sofaTraceId", "sofaRpcId", "penAttrs"},
                    lambda: "request %d ran with the trace context %r instead of %r" % (i, got, ctx[i]))
    return scenario(name, body, bound, "%d requests with alike trace contexts (%s)" % (n, k), netopts=dict(auto=auto))


def reregister(k, bound, name):
    """A class is replaced while requests are under way: each is served by one of the two, wholly."""
    def body(w):
        lw = ListenerWorld(w, k, services=())
        tg = Tagged(lw)
        tags = []
        mk = lw.make

        def make():
            mk()
            tag, cls, a, kk = tg.make(0, IFACES[0], "class")
            tags.append(tag)
            lw.listeners[0].handler.register_interface(IFACES[0], cls)
        lw.make = make
        ps = [Peer(lw, [("send", req(1, "who", b"x%d" % i, svc=IFACES[0], extra=tr(i)), "r%d" % i)], name="p%d" % i)
              for i in range(2)]
        done = []

        def reg():
            tag, cls, a, kk = tg.make(0, IFACES[0], "args")
            tags.append(tag)
            lw.listeners[0].handler.register_interface(IFACES[0], cls, *a, **kk)
            done.append(lw.w.s.steps)
        late = Peer(lw, [("send", req(1, "who", b"late", svc=IFACES[0], extra=tr(7)), "late")], name="late",
                    after=lambda: bool(done))
        lw.start(lambda: w.thread(reg, "reg", trace=True))
        lw.run()
        cand = [("%s|()|[]" % tags[0]).encode(), ("%s|(2, 'x')|[('k', 102)]" % tags[1]).encode()]
        for i, p in enumerate(ps):
            lw.judge_peer(p, {1: anyof(*[success(c + b"|x%d" % i) for c in cand])})
        lw.judge_peer(late, {1: success(cand[1] + b"|late")})
    return scenario(name, body, bound, "registration concurrent with requests (%s)" % k, netopts=dict(auto=True))


NAMES = R.NAMES


def names(k, name, many=False):
    """Interfaces with confusable names: each request reaches the one it names or none."""
    def body(w):
        lw = ListenerWorld(w, k, services=())
        tg = Tagged(lw)
        r = w.s.choose(["all but none"] + ["only%d" % i for i in range(len(NAMES))] + ["all but %d" % i for i in range(len(NAMES))],
                       [0] * (1 + 2 * len(NAMES)))
        reg = NAMES if r == 0 else NAMES[r - 1:r] if r <= len(NAMES) else NAMES[:r - 1 - len(NAMES)] + NAMES[r - len(NAMES):]
        model = {}
        mk = lw.make

        def make():
            mk()
            for i in reg:
                tag, cls, a, kk = tg.make(0, NAMES.index(i), "class")
                lw.listeners[0].handler.register_interface(i, cls)
                model[i] = tag
        lw.make = make
        peers = []

        def then():
            for j, q in enumerate(NAMES):
                p = Peer(lw, [("send", req(j + 1, "who", b"n%d" % j, svc=q))], name="p%d" % j, manual=True)
                p.connect()
                p.step()
                peers.append(p)
                w.s.quiesce()
        lw.start(then)
        lw.run()
        w.check(len(peers) == len(NAMES), "not all requests were sent (%s)" % w.s.reason)
        for j, (q, p) in enumerate(zip(NAMES, peers)):
            lw.judge_peer(p, {j + 1: success(("%s|()|[]|n%d" % (model[q], j)).encode()) if q in model else failure(6)})
        w.check(len(lw.runs) == len(reg), lambda: "%d executions for %d served interfaces" % (len(lw.runs), len(reg)))
    return scenario(name, body, 0, "confusable interface names (%s)" % k, netopts=dict(auto=True), early_env=False,
                    horizon=40000)


def many(k, sizes, name):
    """Many interfaces on one listener."""
    def body(w):
        lw = ListenerWorld(w, k, services=())
        tg = Tagged(lw)
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        tags = []
        mk = lw.make

        def make():
            mk()
            for i in range(n):
                tag, cls, a, kk = tg.make(0, i, "class")
                lw.listeners[0].handler.register_interface("if.%d" % i, cls)
                tags.append(tag)
        lw.make = make
        peers = []

        def then():
            for j in list(range(n)) + [n, n + 1]:
                p = Peer(lw, [("send", req(j + 1, "who", b"n%d" % j, svc="if.%d" % j))], name="p%d" % j, manual=True)
                p.connect()
                p.step()
                peers.append(p)
                w.s.quiesce()
        lw.start(then)
        lw.run()
        for j, p in enumerate(peers):
            lw.judge_peer(p, {j + 1: success(("%s|()|[]|n%d" % (tags[j], j)).encode()) if j < n else failure(6)})
        w.check(len(lw.runs) == n, "%d executions for %d requests" % (len(lw.runs), n))
    return scenario(name, body, 0, "up to %d interfaces (%s)" % (max(sizes), k), netopts=dict(auto=True), early_env=False,
                    horizon=400000)


METHODS = ["echo", "Echo", "ECHO", "echo2", "ech", "echo ", "_echo", "\u65b9\u6cd5", "get_x", "m" * 200, "call", "method", "run",
           "handle", "ctx2"]
ODD = ["ctx", "a", "nothing", "echo.call", "echo()", ""]


def methods(k, name):
    """Methods with confusable names; attributes that are no methods."""
    def body(w):
        lw = ListenerWorld(w, k, services=())
        r = w.s.choose(["all"] + ["only%d" % i for i in range(len(METHODS))], [0] * (1 + len(METHODS)))
        have = METHODS if r == 0 else METHODS[r - 1:r]
        base = lw.service("svc", "t")
        d = {}
        for m in have:
            def f(self, body, m=m):
                self._run(m, body).done = True
                return m.encode() + b":" + body
            d[m] = f
        T = type("T", (base,), d)
        if "echo" not in d:
            T.echo = property(lambda self: (_ for _ in ()).throw(AttributeError("echo")))
        mk = lw.make

        def make():
            mk()
            lw.listeners[0].handler.register_interface("svc", T)
        lw.make = make
        peers = []
        asked = METHODS + ODD

        def then():
            for j, q in enumerate(asked):
                p = Peer(lw, [("send", req(j + 1, q, b"n%d" % j))], name="p%d" % j, manual=True)
                p.connect()
                p.step()
                peers.append(p)
                w.s.quiesce()
        lw.start(then)
        lw.run()
        w.check(len(peers) == len(asked), "not all requests were sent (%s)" % w.s.reason)
        for j, (q, p) in enumerate(zip(asked, peers)):
            lw.judge_peer(p, {j + 1: success(q.encode() + b":n%d" % j) if q in have else failure() if q in ODD else failure(6)})
        w.check(sorted(r.method for r in lw.runs) == sorted(have), lambda: "executed: %r" % [r.method for r in lw.runs])
    return scenario(name, body, 0, "confusable method names (%s)" % k, netopts=dict(auto=True), early_env=False, horizon=40000)


def target(k, name):
    """Requests whose header names the interface once, twice, or differently in its two places."""
    def body(w):
        lw = ListenerWorld(w, k, services=("if.A", "if.B"))
        vals = [None, "", "if.A", "if.B", "if.C"]
        a = vals[w.s.choose(["target:%s" % v for v in vals], [0] * 5)]
        b = vals[w.s.choose(["service:%s" % v for v in vals], [0] * 5)]
        first = w.s.choose(["target-first", "service-first"], [0, 0])
        h = [("sofa_head_target_service", a), ("service", b)][::-1 if first else 1]
        h = [("sofa_head_method_name", "echo")] + [x for x in h if x[1] is not None] + [("other", "if.B"), ("interface", "if.B")]
        p = Peer(lw, [("send", R.request(7, h, b"x"))])
        lw.start()
        lw.run()
        want = a or b
        lw.judge_peer(p, {7: failure(8) if not want else failure(6) if want == "if.C" else success(b"e:x")})
        w.check([r.svc for r in lw.runs] == ([want] if want in ("if.A", "if.B") else []),
                lambda: "target %r, service %r: executed on %r" % (a, b, [r.svc for r in lw.runs]))
    return scenario(name, body, 0, "where a request names its interface (%s)" % k, netopts=dict(auto=True))


def before_run(name):
    """Interfaces registered before the listener runs, on two listeners of different kinds, same interface names."""
    def body(w):
        ks = [("aio", "aio"), ("aio", "sock"), ("sock", "sock"), ("sock", "aio")]
        ks = ks[w.s.choose([str(k) for k in ks], [0] * len(ks))]
        sub = [((), IFACES), (IFACES[:1], IFACES[1:]), (IFACES, ()), (IFACES, IFACES), (IFACES[:1], IFACES[:1])]
        sub = sub[w.s.choose([str(x) for x in sub], [0] * len(sub))]
        lw = ListenerWorld(w, list(ks), n=2, services=())
        tg = Tagged(lw)
        mk = lw.make
        model = {}

        def make():
            mk()
            for l in range(2):
                for i in sub[l]:
                    tag, cls, a, k = tg.make(l, i, "factory")
                    lw.listeners[l].handler.register_interface(i, cls, *a, **k)
                    model[(l, i)] = tag
        lw.make = make
        ps = [(l, i, Peer(lw, [("send", req(1, "who", b"x", svc=i))], addr=lw.addrs[l], name="p%d%s" % (l, i)))
              for l in range(2) for i in IFACES]
        for a, b in zip(ps, ps[1:]):
            b[2].after = lambda a=a: not a[2].steps
        lw.start()
        lw.run()
        for l, i, p in ps:
            if (l, i) in model:
                lw.judge_peer(p, {1: success(("%s|('f',)|[]|x" % model[(l, i)]).encode())})
            else:
                lw.judge_peer(p, {1: failure(6)})
    return scenario(name, body, 0, "interfaces registered before the listeners run", netopts=dict(auto=True))


def scenarios(tier):
    t = tier == "thorough"
    sc = [
        before_run("before-run"),
        histories(("aio", "aio"), 4 if t else 3, "histories-aio"),
        histories(("sock", "sock"), 4 if t else 2, "histories-sock", *(() if t else (("class", "args", "falsy"),))),
        histories(("aio", "aio"), 3 if t else 2, "histories-args", ("args", "falsy", "kwargs")),
        histories(("aio", "sock"), 2 if t else 1, "histories-mixed", ("class", "args", "falsy", "kwargs", "factory")),
        concurrent("aio", 3, 3 if t else 2, "concurrent-aio"),
        concurrent("aio", 4, 2 if t else 1, "concurrent-aio-mixed", ["who", "who_wait", "who", "who_wait"]),
        concurrent("sock", 2, 2 if t else 1, "concurrent-sock"),
        concurrent("sock", 3, 0, "concurrent-sock3") if t else None,
        names("aio", "names-aio"),
        names("sock", "names-sock"),
        many("aio", (3, 40, 300), "many-aio"),
        many("sock", (3, 40, 300), "many-sock"),
        methods("aio", "methods-aio"),
        methods("sock", "methods-sock"),
        target("aio", "target-aio"),
        target("sock", "target-sock"),
        c11.contents("aio", "contents-aio"),
        c11.contents("sock", "contents-sock"),
        same_trace("aio", "same-trace-aio"),
        same_trace("sock", "same-trace-sock"),
        same_trace("aio", "same-trace-aio3", 3) if t else None,
        reregister("aio", 2 if t else 1, "reregister-aio"),
        reregister("sock", 2 if t else 1, "reregister-sock"),
    ]
    return [x for x in sc if x is not None]
