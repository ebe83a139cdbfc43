"""C24: publishing covers exactly the registered interfaces, also while others register."""
from mc.lsn import *
from mc import http

IFS = ("if.A:1.0", "if.B", "\u4e2d")
KINDS = [("aio", "aio"), ("sock", "sock"), ("aio", "sock")]
PORTS = (7101, 7102)


class Svc(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def m(self, body):
        return body


def make(w, kinds, mesh=True, answer=None):
    import anthunder
    w.s.http = lambda rec: http.OK if mesh else None
    ls = []
    for i, k in enumerate(kinds):
        cls = anthunder.AioListener if k == "aio" else anthunder.SockListener
        ls.append(cls(("127.0.0.1", PORTS[i]), "app%d" % i))
    return ls


def announced(i, name):
    return ("/services/publish", {"serviceName": name, "port": str(PORTS[i]), "protocolType": "DEFAULT", "onlyPublishInCloud": False,
                                  "providerMetaInfo": {"protocol": "1", "version": "4.0", "serializeType": "protobuf", "appName": "app%d" % i}})


def revoked(name):
    return ("/services/unpublish", {"serviceName": name})


def key(x):
    return repr(x)


def histories(depth, name, kinds=KINDS, meshes=(True, False)):
    def body(w):
        ks = kinds[w.s.choose([str(k) for k in kinds], [0] * len(kinds))]
        mesh = meshes[w.s.choose([str(m) for m in meshes], [0] * len(meshes))] if len(meshes) > 1 else meshes[0]
        state = {}

        def run():
            ls = make(w, ks, mesh)
            w.s.http = lambda rec: http.OK
            log = w.s.__dict__.setdefault("http_log", [])
            model = [[], []]
            tr = [ks, mesh]
            for _ in range(depth):
                ops = [("reg:%d:%s" % (i, n), i, n) for i in range(2) for n in IFS]
                ops += [("pub:%d" % i, i, None) for i in range(2)] + [("unpub:%d" % i, i, False) for i in range(2)]
                o, i, n = ops[w.s.choose([x[0] for x in ops], [0] * len(ops))]
                tr.append(o)
                del log[:]
                want = []
                if n:
                    ls[i].handler.register_interface(n, Svc)
                    if n not in model[i]:
                        model[i].append(n)
                elif n is None:
                    ls[i].publish()
                    want = [announced(i, x) for x in model[i]]
                else:
                    ls[i].unpublish()
                    want = [revoked(x) for x in model[i]]
                if not mesh:
                    want = []
                got = [(r.path, r.json) for r in log]
                w.check(sorted(got, key=key) == sorted(want, key=key), lambda: "%s asked the sidecar for %r instead of %r" % (tr, got, want))
                w.check(all(r.method == "POST" and r.url.startswith("http://127.0.0.1:13330/") for r in log), lambda: "requests: %r" % log)
            w.note(tr)
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "the history did not finish")
    return scenario(name, body, 0, "all histories of %d registrations, publications and revocations on two listeners" % depth, lock_points=False)


def many(sizes, name):
    """Many interfaces, and interfaces with confusable names, published and revoked, one by one and together."""
    def body(w):
        ks = KINDS[w.s.choose([str(k) for k in KINDS], [0] * len(KINDS))]
        n = w.s.choose([str(x) for x in sizes] + ["names"], [0] * (len(sizes) + 1))
        ns = ["if.%d" % i for i in range(sizes[n])] if n < len(sizes) else R.NAMES
        often = w.s.choose(["once", "after-each"], [0, 0]) if len(ns) < 60 else 0
        state = {}

        def run():
            ls = make(w, ks)
            w.s.http = lambda rec: http.OK
            log = w.s.__dict__.setdefault("http_log", [])

            def ask(l, f, mk, names):
                del log[:]
                f()
                got = [(r.path, r.json) for r in log]
                w.check(sorted(got, key=key) == sorted([mk(x) for x in names], key=key),
                        lambda: "%d interfaces: asked the sidecar %d times, %r" % (len(names), len(got), got[:5]))
            ls[1].handler.register_interface("other", Svc)
            for i, x in enumerate(ns):
                ls[0].handler.register_interface(x, Svc)
                if often:
                    ask(0, ls[0].publish, lambda y: announced(0, y), ns[:i + 1])
            for r in range(2):
                ask(0, ls[0].publish, lambda y: announced(0, y), ns)
                ask(1, ls[1].publish, lambda y: announced(1, y), ["other"])
                ask(0, ls[0].unpublish, revoked, ns)
            ask(1, ls[1].unpublish, revoked, ["other"])
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "the history did not finish")
        w.note(ks, n, often)
    return scenario(name, body, 0, "up to %d interfaces" % max(sizes), lock_points=False, horizon=400000)


def failing(name):
    """The sidecar refuses one announcement: publishing fails; nothing else was announced, and a second try announces all."""
    def body(w):
        ks = KINDS[w.s.choose([str(k) for k in KINDS], [0] * len(KINDS))]
        bad = w.s.choose(["0", "1", "2"], [0] * 3)
        op = w.s.choose(["publish", "unpublish"], [0, 0])
        how = w.s.choose(["refused", "lost"], [0, 0])
        state = {}

        def run():
            ls = make(w, ks)
            for n in IFS:
                ls[0].handler.register_interface(n, Svc)
            ls[1].handler.register_interface("other", Svc)
            log = w.s.__dict__.setdefault("http_log", [])
            del log[:]
            w.s.http = lambda rec: (http.Answer(200, b'{"success": false}') if how == 0 else None) if rec.json["serviceName"] == IFS[bad] else http.OK
            f = ls[0].publish if op == 0 else ls[0].unpublish
            mk = (lambda n: announced(0, n)) if op == 0 else revoked
            try:
                f()
            except Exception:
                pass
            else:
                w.fail("publishing returned although the sidecar refused one interface")
            got = [(r.path, r.json) for r in log]
            w.check(len(got) == len(set(map(key, got))) and all(g in [mk(n) for n in IFS] for g in got), lambda: "asked the sidecar for %r" % got)
            del log[:]
            w.s.http = lambda rec: http.OK
            f()
            got = [(r.path, r.json) for r in log]
            w.check(sorted(got, key=key) == sorted([mk(n) for n in IFS], key=key), lambda: "the second try asked the sidecar for %r" % got)
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "the history did not finish")
        w.note(ks, bad, op, how)
    return scenario(name, body, 0, "an announcement is refused", lock_points=False)


def concurrent(kinds, ops, before, bound, name, op=True, after=()):
    """ops: per thread p (publish listener 0), u (unpublish), P/U (listener 1), or a list of interfaces to register on 0."""
    def body(w):
        res = {"done": 0, "order": []}

        def main():
            ls = w.setup(lambda: make(w, kinds))
            for n in before:
                ls[0].handler.register_interface(n, Svc)
                if len(ls) > 1:
                    ls[1].handler.register_interface("x" + n, Svc)
            del w.s.__dict__.setdefault("http_log", [])[:]
            res["ls"] = ls
            w.s.http = lambda rec: http.OK

            def run(o):
                if o == "p":
                    ls[0].publish()
                elif o == "u":
                    ls[0].unpublish()
                elif o == "P":
                    ls[1].publish()
                else:
                    for n in o:
                        ls[0].handler.register_interface(n, Svc)
                res["done"] += 1
            for i, o in enumerate(ops):
                w.thread(lambda o=o: run(o), "t%d" % i, trace=op)
        w.thread(main, "main", trace=False)
        w.run(lambda: res["done"] == len(ops))
        w.check(res["done"] == len(ops), lambda: "a thread never ended: %r" % w.s.threads)
        log = w.s.http_log
        got = [(r.path, r.json) for r in log]
        w.note(sorted(map(key, got)))
        late = [n for o in ops if isinstance(o, (list, tuple)) for n in o]
        for o, mk, pre in (("p", lambda n: announced(0, n), ""), ("u", revoked, ""), ("P", lambda n: announced(1, n), "x")):
            k = len([x for x in ops if x == o])
            for n in before:
                c = got.count(mk(pre + n))
                w.check(c == k, lambda: "the interface %s, registered before, was asked for %d times instead of %d (%r)" % (pre + n, c, k, got))
            if pre:
                continue
            for n in late:
                if n in before:
                    continue
                c = got.count(mk(n))
                w.check(c <= k, lambda: "the interface %s was asked for %d times" % (n, c))
        known = [mk(p + n) for n in list(before) + late for mk, p in ((lambda n: announced(0, n), ""), (revoked, ""), (lambda n: announced(1, n), "x"))]
        for g in got:
            w.check(g in known, lambda: "the sidecar was asked for %r" % (g,))
        # afterwards everything is announced

        def then():
            del log[:]
            res["ls"][0].publish()
            got = [(r.path, r.json) for r in log]
            want = [announced(0, n) for n in sorted(set(list(before) + late))]
            w.check(sorted(got, key=key) == sorted(want, key=key), lambda: "afterwards publishing asks for %r" % got)
        w.s.over, w.s.reason = False, None
        w.thread(then, "after", trace=False)
        w.run()
    return scenario(name, body, bound, "threads %s on %s, registered before: %s" % (ops, kinds, before), lock_points=False)


def scenarios(tier):
    t = tier == "thorough"
    b = 3 if t else 2
    return [
        histories(5 if t else 4, "histories", [("aio", "sock")] if not t else KINDS, (True,)),
        histories(4 if t else 3, "histories-kinds"),
        failing("failing"),
        many((0, 1, 2, 10, 33, 130, 300) + ((1100,) if t else ()), "many"),
        concurrent(["aio"], ["p", ["late"]], IFS[:2], b, "publish-aio"),
        concurrent(["sock"], ["p", ["late"]], IFS[:2], b, "publish-sock"),
        concurrent(["aio"], ["u", ["late"]], IFS[:2], b, "unpublish-aio"),
        concurrent(["sock"], ["u", ["late", "later"]], IFS[:2], b, "unpublish-sock"),
        concurrent(["aio"], ["p", [IFS[0], "late"]], IFS[:2], b, "again"),
        concurrent(["aio"], ["p", "u", ["late"]], IFS[:2], b - 1, "both"),
        concurrent(["aio", "sock"], ["p", "P", ["late"]], IFS[:2], b - 1, "two-listeners"),
        concurrent(["aio"], [["a", "b"], ["c", "d"]], IFS[:1], b, "registrations"),
    ]
