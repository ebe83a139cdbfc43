"""C23: routing follows subscriptions, and a mapped address is never silently replaced."""
from mc.aioc import *
from mc.aioc import MESH
from mc import http
from checks.c15 import BServer, BlockingWorld

MADDR = MESH
X = ("10.0.0.1", 7001)
Y = ("10.0.0.2", 7002)
HOST = "10.0.0.3"
HADDR = (HOST, 12200)
ADDRS = {"X": X, "Y": Y, "host": HOST}
DIAL = {"X": X, "Y": Y, "host": HADDR, "mesh": MADDR}
IFS = ("if.A", "if.B")


def answer_of(k):
    return [http.OK, http.Answer(200, b'{"success": false, "errorMessage": "no"}'), None, http.Answer(200, b"[]")][k]


class Routes(object):
    """A client of either kind with scripted servers behind every address."""

    def __init__(self, w, kind, mesh):
        import anthunder
        import mytracer
        self.w, self.kind, self.anthunder = w, kind, anthunder
        self.got = []
        for name, a in DIAL.items():
            srv = BServer(w, addr=a, name=name)
            srv.on_frame = lambda c, f, name=name: self._frame(name, c, f)
        self.SpanContext = mytracer.SpanContext
        w.s.http = lambda rec: http.OK if mesh else None
        self.mesh = mesh
        self.client = (anthunder.AioClient if kind == "aio" else anthunder.Client)("app")
        self.n = 0

    def _frame(self, name, c, f):
        if f.content.startswith(b"probe"):
            self.got.append((f.content, name))
            c.reply(f)
        elif f.cmdcode == R.C_HEARTBEAT:
            c.raw(R.heartbeat_response(f.rid))

    def resolve(self, i):
        """Where a call of the interface really goes."""
        self.n += 1
        p = b"probe%d" % self.n
        r = self.client.invoke_sync(i, "m", p, spanctx=self.SpanContext(), timeout_ms=2000)
        self.w.check(r == b"r:" + p, "a call of %s returned %r" % (i, r))
        where = [n for c, n in self.got if c == p]
        self.w.check(len(where) == 1, "a call went to %r" % where)
        return where[0]


def histories(depth, name, outcomes, full_probe=False):
    def body(w):
        kind = ("blocking", "aio")[w.s.choose(["blocking", "aio"], [0, 0])]
        mesh = not w.s.choose(["mesh", "no-mesh"], [0, 0])
        state = {}

        def run():
            rt = Routes(w, kind, mesh)
            SM = rt.anthunder.SERVICE_MAP
            model = {}
            trace = [kind, mesh]
            log = w.s.__dict__.setdefault("http_log", [])
            posts = []

            def mesh_op(op, ifs, k):
                del log[:]
                w.s.http = lambda rec: answer_of(k)
                getattr(rt.client, op)(*ifs)          # must not raise
                want = [("/services/" + op, {"serviceName": i}) for i in ifs] if mesh else []
                got = [(r.path, r.json) for r in log]
                w.check(got == want, lambda: "%s(%s) asked the sidecar for %r" % (op, ifs, got))
                if mesh and k == 0:
                    for i in ifs:
                        if op == "subscribe":
                            model.setdefault(i, "mesh")
                        else:
                            model.pop(i, None)

            def put(i, a):
                try:
                    SM[i] = ADDRS[a]
                except KeyError:
                    w.check(i in model, "an unmapped interface cannot be mapped")
                    return "refused"
                w.check(i not in model, "mapping an interface that is mapped already did not fail")
                model[i] = a
            for d in range(depth):
                ops = []
                for i in (IFS if model or d else IFS[:1]):
                    for k in (range(outcomes) if mesh else [0]):
                        ops.append(("sub:%s:%d" % (i, k), lambda i=i, k=k: mesh_op("subscribe", [i], k)))
                        ops.append(("unsub:%s:%d" % (i, k), lambda i=i, k=k: mesh_op("unsubscribe", [i], k)))
                    for a in ("X", "Y", "host") if i == IFS[0] else ("Y",):
                        ops.append(("map:%s:%s" % (i, a), lambda i=i, a=a: put(i, a)))
                ops.append(("sub-both", lambda: mesh_op("subscribe", list(IFS), 0)))
                ops.append(("unsub-both", lambda: mesh_op("unsubscribe", list(IFS), 0)))
                o = ops[w.s.choose([x[0] for x in ops], [0] * len(ops))]
                trace.append(o[0])
                o[1]()
                for i in IFS:
                    w.check((i in SM) == (i in model), lambda: "after %s the interface %s is %smapped" % (trace, i, "" if i in SM else "not "))
                    if i in model:
                        want = ADDRS.get(model[i], MADDR)
                        w.check(SM[i] == want, lambda: "after %s the interface %s is mapped to %r instead of %r" % (trace, i, SM[i], want))
                if full_probe or d == depth - 1:
                    for i in IFS:
                        at = rt.resolve(i)
                        w.check(at == model.get(i, "mesh"), lambda: "after %s a call of %s went to %s instead of %s" % (trace, i, at, model.get(i, "mesh")))
            w.note(trace)
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "the history did not finish (%s)" % w.s.reason)
    return scenario(name, body, 0, "all histories of %d operations on both clients, with and without mesh" % depth,
                    netopts=dict(auto=True, dial_auto=True), horizon=40000)


HOSTS = ["localhost", "h", "my-host", "a.b.c.", "10.0.0.30", "10.0.0.3.example.com", "12200", "HOST", "x" * 60, "a_b"]


def hosts(name):
    """A host given alone stands for the default port, whatever it looks like; next to the same host with other ports."""
    def body(w):
        kind = ("blocking", "aio")[w.s.choose(["blocking", "aio"], [0, 0])]
        h = HOSTS[w.s.choose(HOSTS, [0] * len(HOSTS))]
        kinds = [(h, (h, 12200)), ((h, 7001), (h, 7001)), ((h, 12201), (h, 12201)), (h + "2", (h + "2", 12200))]
        first = w.s.choose([str(i) for i in range(len(kinds))], [0] * len(kinds))
        kinds = kinds[first:] + kinds[:first]
        state = {}

        def run():
            rt = Routes(w, kind, False)
            for _, a in kinds:
                srv = BServer(w, addr=a, name=repr(a))
                srv.on_frame = lambda c, f, a=a: rt._frame(a, c, f)
            for i, (v, a) in enumerate(kinds):
                rt.anthunder.SERVICE_MAP["if%d" % i] = v
            for r in range(2):
                for i, (v, a) in enumerate(kinds):
                    at = rt.resolve("if%d" % i)
                    w.check(at == a, lambda: "a call of an interface mapped to %r went to %r" % (v, at))
            w.check(rt.resolve("elsewhere") == "mesh", "a call of an unmapped interface went elsewhere")
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "the calls did not finish (%s)" % w.s.reason)
        w.note(kind, h, first)
    return scenario(name, body, 0, "addresses given as a host alone", netopts=dict(auto=True, dial_auto=True), horizon=40000)


def names(name):
    """Operations on one of many confusable names leave the others' routes alone."""
    def body(w):
        kind = ("blocking", "aio")[w.s.choose(["blocking", "aio"], [0, 0])]
        n = len(R.NAMES)
        k = w.s.choose(["name%d" % i for i in range(n)], [0] * n)
        op = ["map", "sub", "map+unsub", "sub+unsub", "sub+unsub+map", "all+unsub", "all+map"]
        op = op[w.s.choose(op, [0] * len(op))]
        state = {}

        def run():
            rt = Routes(w, kind, True)
            SM = rt.anthunder.SERVICE_MAP
            x = R.NAMES[k]
            want = {}
            log = w.s.__dict__.setdefault("http_log", [])
            if op.startswith("all"):
                for i, y in enumerate(R.NAMES):
                    SM[y] = Y if i % 2 else X
                    want[y] = "Y" if i % 2 else "X"
            for o in op.split("+"):
                del log[:]
                if o == "map":
                    try:
                        SM[x] = HOST
                        w.check(x not in want, "a mapped interface was mapped again")
                        want[x] = "host"
                    except KeyError:
                        w.check(x in want, "an unmapped interface could not be mapped")
                elif o == "sub":
                    rt.client.subscribe(x)
                    want.setdefault(x, "mesh")
                elif o == "unsub":
                    rt.client.unsubscribe(x)
                    want.pop(x, None)
                if o in ("sub", "unsub"):
                    got = [(r.path, r.json) for r in log]
                    w.check(got == [("/services/%sscribe" % o, {"serviceName": x})], lambda: "%s(%r) asked for %r" % (o, x, got))
            for y in R.NAMES:
                at = rt.resolve(y)
                w.check(at == want.get(y, "mesh"), lambda: "after %s of %r a call of %r went to %s instead of %s" % (
                    op, x, y, at, want.get(y, "mesh")))
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "the history did not finish (%s)" % w.s.reason)
        w.note(kind, k, op)
    return scenario(name, body, 0, "confusable interface names", netopts=dict(auto=True, dial_auto=True), horizon=40000, early_env=False)


def many(sizes, name):
    """Many interfaces, mapped, subscribed and removed again."""
    def body(w):
        kind = ("blocking", "aio")[w.s.choose(["blocking", "aio"], [0, 0])]
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        state = {}

        def run():
            rt = Routes(w, kind, True)
            SM = rt.anthunder.SERVICE_MAP
            want = {}
            for i in range(n):
                x = "if.%d" % i
                if i % 3 == 2:
                    rt.client.subscribe(x)
                    want[x] = "mesh"
                else:
                    a = "XY"[i % 2]
                    SM[x] = ADDRS[a]
                    want[x] = a
            probe = sorted(set([0, 1, 2, n // 2, n - 2, n - 1, n]) | set(range(0, n, max(1, n // 20))))
            for r in range(2):
                for i in probe:
                    x = "if.%d" % i
                    at = rt.resolve(x)
                    w.check(at == want.get(x, "mesh"), lambda: "of %d interfaces, %s went to %s instead of %s" % (n, x, at, want.get(x)))
                for i in range(0, n, 2):
                    rt.client.unsubscribe("if.%d" % i)
                    want.pop("if.%d" % i, None)
            w.check(sorted(SM) == sorted(want), lambda: "%d interfaces are mapped instead of %d" % (len(SM), len(want)))
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "the history did not finish (%s)" % w.s.reason)
        w.note(kind, n)
    return scenario(name, body, 0, "up to %d interfaces" % max(sizes), netopts=dict(auto=True, dial_auto=True), horizon=400000, early_env=False)


def partial(name):
    """One subscribe for several interfaces of which the sidecar refuses some."""
    def body(w):
        state = {}
        ifs = ["i0", "i1", "i2"]
        kind = ("blocking", "aio")[w.s.choose(["blocking", "aio"], [0, 0])]
        op = ("subscribe", "unsubscribe")[w.s.choose(["subscribe", "unsubscribe"], [0, 0])]
        ks = [w.s.choose(["ok", "refused", "lost", "odd"], [0] * 4) for _ in ifs]
        premap = w.s.choose([str(m) for m in range(8)], [0] * 8)

        def run():
            rt = Routes(w, kind, True)
            SM = rt.anthunder.SERVICE_MAP
            want = {}
            for j, i in enumerate(ifs):
                if premap >> j & 1:
                    SM[i] = X
                    want[i] = X
            w.s.http = lambda rec: answer_of(ks[ifs.index(rec.json["serviceName"])])
            getattr(rt.client, op)(*ifs)
            for j, i in enumerate(ifs):
                if ks[j] == 0:
                    if op == "subscribe":
                        want.setdefault(i, MADDR)
                    else:
                        want.pop(i, None)
            w.check(dict(SM) == want, lambda: "%s with the answers %r left the routes %r instead of %r" % (op, ks, dict(SM), want))
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "%s did not return" % op)
        w.note(kind, op, ks, premap)
    return scenario(name, body, 0, "several interfaces in one call, each refused or not", netopts=dict(auto=True, dial_auto=True))


def mapping(depth, name):
    """All sequences of dictionary operations on the map: the first value stays until it is removed."""
    def body(w):
        def run():
            from anthunder.helpers.immutable_dict import ImmutableValueDict
            d = ImmutableValueDict()
            model = {}
            tr = []
            for n in range(depth):
                v = n
                ops = []
                for k in ("a", "b"):
                    ops += [("set", k), ("same", k), ("setdefault", k), ("del", k), ("pop", k), ("update", k), ("or", k)]
                ops += [("update2", None)]
                op, k = ops[w.s.choose(["%s:%s" % o for o in ops], [0] * len(ops))]
                tr.append((op, k))
                err = False
                try:
                    if op == "set":
                        d[k] = v
                    elif op == "same":
                        d[k] = model.get(k, v)
                    elif op == "setdefault":
                        r = d.setdefault(k, v)
                        model.setdefault(k, v)
                        w.check(r == model[k], lambda: "setdefault returned %r (%s)" % (r, tr))
                    elif op == "del":
                        del d[k]
                    elif op == "pop":
                        r = d.pop(k)
                        w.check(r == model.get(k), lambda: "pop returned %r (%s)" % (r, tr))
                    elif op == "update":
                        d.update({k: v})
                    elif op == "or":
                        d |= {k: v}
                    elif op == "update2":
                        d.update([("a", v)], b=v)
                except KeyError:
                    err = True
                if op in ("set", "same", "update", "or"):
                    w.check(err == (k in model), lambda: "assigning %s key %s (%s)" % ("a mapped" if k in model else "an unmapped", "failed" if err else "went through", tr))
                    model.setdefault(k, v)
                elif op == "update2":
                    w.check(err == bool(model), lambda: "update over %r %s" % (model, "failed" if err else "went through"))
                    for kk in "ab":
                        if kk in d:
                            model.setdefault(kk, v)
                elif op in ("del", "pop"):
                    w.check(err == (k not in model), lambda: "removing failed or not wrongly (%s)" % tr)
                    model.pop(k, None)
                w.check(dict(d) == model, lambda: "after %s the map holds %r instead of %r" % (tr, dict(d), model))
            w.note(tr)
        w.thread(run, "user")
        w.run()
    return scenario(name, body, 0, "all sequences of %d operations on the map" % depth)


def racing(progs, bound, name, start=()):
    """Threads writing the same keys; each word: sK=V  set, uK update, dK setdefault."""
    def body(w):
        res = []

        def main():
            import anthunder
            d = anthunder.SERVICE_MAP
            for k, v in start:
                d[k] = v

            def run(t, prog):
                for j, o in enumerate(prog.split()):
                    v = "%d.%d" % (t, j)
                    k = o[1]
                    ok = True
                    try:
                        if o[0] == "s":
                            d[k] = v
                        elif o[0] == "u":
                            d.update({k: v})
                        else:
                            ok = d.setdefault(k, v) == v
                    except KeyError:
                        ok = False
                    res.append((k, v, ok, d[k]))
            for t, p in enumerate(progs):
                w.thread(lambda t=t, p=p: run(t, p), "t%d" % t, trace=True)
            w.d = d
        w.thread(main, "main", trace=False)
        w.run()
        w.check(all(t.done for t in w.s.threads), "a thread never ended: %r" % w.s.threads)
        w.note(sorted(res))
        for k in set(r[0] for r in res):
            won = [r[1] for r in res if r[0] == k and r[2]] + [v for kk, v in start if kk == k]
            w.check(len(won) == 1, lambda: "%d assignments of one key went through: %r" % (len(won), sorted(res)))
            w.check(w.d[k] == won[0], lambda: "the key holds %r, the assignment that went through was %r" % (w.d[k], won[0]))
            seen = set(r[3] for r in res if r[0] == k)
            w.check(seen == set(won), lambda: "the key was seen with several values: %r" % sorted(res))
    return scenario(name, body, bound, "threads writing %s into the map" % (progs,))


def subscribing(bound, name, ops, unsub=False):
    """Subscriptions racing with direct mappings and with each other, sidecar answers included."""
    def body(w):
        state = {"writes": [], "done": 0}

        def main():
            import anthunder
            w.s.http = lambda rec: http.OK
            c = w.setup(lambda: anthunder.Client("app"))
            d = anthunder.SERVICE_MAP
            state["d"] = d

            def run(o):
                if o == "sub":
                    c.subscribe("k")
                elif o == "unsub":
                    c.unsubscribe("k")
                elif o == "read":
                    for _ in range(2):
                        v = d.get("k")
                        w.check(v in (None, X, Y, MADDR), "the interface resolves to %r" % (v,))
                else:
                    try:
                        d["k"] = ADDRS[o]
                        state["writes"].append(o)
                    except KeyError:
                        pass
                state["done"] += 1
            for j, o in enumerate(ops):
                w.thread(lambda o=o: run(o), "t%d" % j, trace=True)
        w.thread(main, "main", trace=False)
        w.run(lambda: state["done"] == len(ops))
        w.check(state["done"] == len(ops), "a thread never ended: %r" % w.s.threads)
        v = state["d"].get("k")
        w.note(sorted(state["writes"]), v)
        wr = state["writes"]
        if "unsub" not in ops:
            w.check(len(wr) <= 1, lambda: "%r both mapped the interface" % (wr,))
            w.check(v == (ADDRS[wr[0]] if wr else MADDR), lambda: "the interface is mapped to %r, written were %r" % (v, wr))
            w.check(wr or "sub" in ops, "nothing was mapped")
        else:
            w.check(v in [None, MADDR] + [ADDRS[x] for x in wr], lambda: "the interface is mapped to %r, written were %r" % (v, wr))
    return scenario(name, body, bound, "threads: %s" % (ops,))


def scenarios(tier):
    t = tier == "thorough"
    return [
        histories(4 if t else 3, "histories", 2 if not t else 3),
        histories(2, "histories-outcomes", 4, True),
        partial("partial"),
        hosts("hosts"),
        names("names"),
        many((3, 11, 40, 130, 300) + ((1100,) if t else ()), "many"),
        mapping(6 if t else 4, "map"),
        racing(["sa", "sa"], 4 if t else 3, "two-writers"),
        racing(["sa sb", "sb sa"], 3 if t else 2, "two-keys"),
        racing(["sa", "sa", "sa"], 3 if t else 2, "three-writers"),
        racing(["sa", "da", "ua"], 3 if t else 2, "mixed-writers"),
        racing(["sa", "sb ua"], 3 if t else 2, "mapped-already", [("a", "first")]),
        subscribing(3 if t else 2, "sub-map", ["sub", "X"]),
        subscribing(3 if t else 2, "sub-sub-map", ["sub", "sub", "Y"]),
        subscribing(3 if t else 2, "sub-unsub", ["sub", "unsub", "X"]),
        subscribing(2, "readers", ["sub", "read", "Y"]),
    ]
