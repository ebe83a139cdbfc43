"""C22: mesh operations succeed only when acknowledged; startup registers exactly once."""
import itertools
import json

from mc.world import *          # noqa
from mc import http
from mc import refcodec as R

BASE = "http://127.0.0.1:13330/"


def answers():
    """(label, answer, acknowledged)"""
    import requests
    J = lambda o: json.dumps(o).encode()
    good = [("ok", http.Answer(200, J({"success": True})), True),
            ("ok-more", http.Answer(200, J({"success": True, "errorMessage": "x", "n": [1]})), True),
            ("ok-spaces", http.Answer(200, b' { "success" : true } '), True),
            ("ok-plain-type", http.Answer(200, J({"success": True}), "text/plain"), True)]
    bodies = [("false", J({"success": False})), ("message", J({"success": False, "errorMessage": "no"})), ("empty-object", J({})),
              ("null", J({"success": None})), ("text-true", J({"success": "true"})), ("one", J({"success": 1})), ("list", J({"success": [True]})),
              ("other-key", J({"Success": True})), ("nested", J({"result": {"success": True}})), ("array", J([{"success": True}])),
              ("just-true", b"true"), ("just-null", b"null"), ("number", b"1"), ("string", J("success")), ("not-json", b"<html>success: true</html>"),
              ("empty", b""), ("cut", b'{"success": true'), ("bad-utf8", b'{"success": "\xff"}'), ("empty-array", b"[]"),
              ("null-message", J({"success": False, "errorMessage": None})), ("object-message", J({"success": 0, "errorMessage": {"a": 1}}))]
    bad = [("200-" + n, http.Answer(200, b), False) for n, b in bodies]
    for st in (201, 202, 204, 206, 299, 300, 304, 400, 401, 403, 404, 500, 502, 503):
        bad.append(("%d-success" % st, http.Answer(st, J({"success": True})), False))
        bad.append(("%d-empty" % st, http.Answer(st, b""), False))
    bad += [("no-answer", None, False), ("timeout", requests.Timeout("t"), False), ("cut-off", requests.exceptions.ChunkedEncodingError("c"), False),
            ("reset", requests.ConnectionError("r"), False)]
    return good + bad


def mesh(appinfo=None):
    from anthunder.mesh.mesh_client import MeshClient, ApplicationInfo
    return MeshClient(appinfo or ApplicationInfo("app"))


def operations():
    from anthunder.mesh.mesh_client import PublishServiceRequest, ProviderMetaInfo
    pub = lambda n, **kw: PublishServiceRequest(serviceName=n, port="12200", providerMetaInfo=ProviderMetaInfo(
        protocol="1", version="4.0", serializeType="protobuf", appName="app"), **kw)
    meta = dict(protocol="1", version="4.0", serializeType="protobuf", appName="app")
    out = [("startup", lambda m: m.startup(), "configs/application", {"appName": "app"})]
    for s in ("com.alipay.test:1.0", "", "\u4e2d\u6587/ \"x\""):
        out += [("subscribe", lambda m, s=s: m.subscribe(s), "services/subscribe", {"serviceName": s}),
                ("unsubscribe", lambda m, s=s: m.unsubscribe(s), "services/unsubscribe", {"serviceName": s}),
                ("unpublish", lambda m, s=s: m.unpublish(s), "services/unpublish", {"serviceName": s}),
                ("publish", lambda m, s=s: m.publish(pub(s)), "services/publish",
                 {"serviceName": s, "providerMetaInfo": meta, "port": "12200", "protocolType": "DEFAULT", "onlyPublishInCloud": False})]
    out.append(("publish-all", lambda m: m.publish(pub("s", protocolType="", onlyPublishInCloud=True)), "services/publish",
                {"serviceName": "s", "providerMetaInfo": meta, "port": "12200", "protocolType": "", "onlyPublishInCloud": True}))
    return out


def judge_request(w, rec, endpoint, payload):
    w.check(rec.method == "POST" and rec.url == BASE + endpoint, lambda: "the request is %s %s" % (rec.method, rec.url))
    w.check(rec.json == payload and type(rec.json) is dict, lambda: "%s carries %r instead of %r" % (endpoint, rec.json, payload))
    ct = dict((k.lower(), v) for k, v in rec.headers.items()).get("content-type")
    w.check(ct and "json" in (ct.decode() if isinstance(ct, bytes) else ct), "the request is not marked as JSON: %r" % ct)


def attempt(fn):
    try:
        return True, fn()
    except S.Killed:
        raise
    except Exception as e:
        return False, e


def single(name):
    """Every operation against every answer, before and after a startup."""
    def body(w):
        ops, ans = operations(), answers()
        op = ops[w.s.choose(["%s#%d" % (o[0], i) for i, o in enumerate(ops)], [0] * len(ops))]
        pre = w.s.choose(["cold", "started", "start-failed"], [0, 0, 0])
        state = {}

        def run():
            for label, a, acked in ans:
                m = mesh()
                log = w.s.__dict__.setdefault("http_log", [])
                if pre:
                    w.s.http = lambda rec: http.OK if pre == 1 else None
                    attempt(m.startup)
                del log[:]
                w.s.http = lambda rec: a
                ok, r = attempt(lambda: op[1](m))
                if op[0] == "startup" and pre == 1:
                    w.check(ok and not log, lambda: "a second startup %s and made %d requests" % ("returned" if ok else "raised %r" % r, len(log)))
                    continue
                w.check(len(log) == 1, lambda: "%s made %d requests: %r" % (op[0], len(log), log))
                judge_request(w, log[0], op[2], op[3])
                w.check(ok == acked, lambda: "%s answered with %s %s" % (op[0], label, "returned %r" % (r,) if ok else "raised %r" % (r,)))
            state["ok"] = True
        w.thread(run, "user")
        w.run()
        w.check(state.get("ok"), "the operations did not finish")
        w.note(op[0], pre, op[3])
    return scenario(name, body, 0, "every operation against %d answers" % len(answers()), lock_points=False)


FIELDS = ["dataCenter", "zone", "registryEndPoint", "accessKey", "secretKey", "antShareCloud"]
VALS = {"antShareCloud": [False, True, None]}


def payloads(name):
    """Application fields: set, empty and missing."""
    def body(w):
        from anthunder.mesh.mesh_client import ApplicationInfo
        first = w.s.choose(["-", "", "v", "None"], [0] * 4)

        def run():
            log = w.s.__dict__.setdefault("http_log", [])
            w.s.http = lambda rec: http.OK
            opts = [[("missing",), ("v", "")] + ([("v", None)]) + [("v", "val-" + f)] if f != "antShareCloud" else [("missing",), ("v", False), ("v", True)] for f in FIELDS]
            opts[0] = [opts[0][first]]
            for combo in itertools.product(*opts):
                kw = dict((f, c[1]) for f, c in zip(FIELDS, combo) if c[0] == "v")
                for app in ("app", "", None):
                    del log[:]
                    mesh(ApplicationInfo(app, **kw)).startup()
                    want = dict((k, v) for k, v in kw.items() if v)
                    if app:
                        want["appName"] = app
                    w.check(len(log) == 1, "startup made %d requests" % len(log))
                    judge_request(w, log[0], "configs/application", want)
        w.thread(run, "user")
        w.run()
        w.note(first)
    return scenario(name, body, 0, "all combinations of application fields", lock_points=False)


CKW = [("data_center", "dataCenter", "dc"), ("zone", "zone", "z"), ("registry_end_point", "registryEndPoint", "r"), ("is_antsharecloud", "antShareCloud", True),
       ("access_key", "accessKey", "ak"), ("secret_key", "secretKey", "sk")]


def constructors(name):
    """Clients and listeners register their application with the fields they are given; without a sidecar they work on."""
    def body(w):
        which = w.s.choose(["AioClient", "Client", "AioListener", "SockListener"], [0] * 4)
        mask = w.s.choose([str(i) for i in range(64)], [0] * 64)
        outcome = w.s.choose(["ok", "refused", "no-answer"], [0] * 3)
        kw = dict((k, v) for i, (k, _, v) in enumerate(CKW) if mask >> i & 1)
        want = dict((f, v) for i, (_, f, v) in enumerate(CKW) if mask >> i & 1)
        want["appName"] = "app"
        state = {}

        def run():
            import anthunder
            w.s.http = lambda rec: [http.OK, http.Answer(200, b'{"success": false}'), None][outcome]
            if which < 2:
                o = (anthunder.AioClient, anthunder.Client)[which]("app", **kw)
                state["o"] = o
                o.subscribe("i")
                o.unsubscribe("i")
            else:
                o = (anthunder.AioListener, anthunder.SockListener)[which - 2](("127.0.0.1", 7101 + which), "app", **kw)
                state["o"] = o
                class Svc(object):
                    pass
                o.handler.register_interface("i", Svc)
                o.publish()
                o.unpublish()
            state["done"] = True
        w.thread(run, "user")
        w.run(lambda: state.get("done"))
        w.check(state.get("done"), "the constructor did not return")
        log = w.s.__dict__.get("http_log", [])
        w.check(len([r for r in log if r.path.endswith("configs/application")]) == 1, lambda: "the application was registered by %r" % (log,))
        judge_request(w, log[0], "configs/application", want)
        w.check(len(log) == (3 if outcome == 0 else 1), lambda: "the requests to the sidecar are %r" % (log,))
        w.note(which, mask, outcome)
    return scenario(name, body, 0, "constructors of clients and listeners", lock_points=False)


def startups(n, name):
    """All sequences of startup outcomes, one after the other."""
    def body(w):
        ans = [a for a in answers() if a[0] in ("ok", "200-false", "500-success", "no-answer", "200-not-json", "200-just-null", "timeout")]

        def run():
            m = mesh()
            log = w.s.__dict__.setdefault("http_log", [])
            started = False
            tr = []
            for i in range(n):
                a = ans[w.s.choose([x[0] for x in ans], [0] * len(ans))]
                tr.append(a[0])
                del log[:]
                w.s.http = lambda rec: a[1]
                ok, r = attempt(m.startup)
                if started:
                    w.check(ok and not log, lambda: "startup after a successful one: %r, requests %r" % (r, log))
                else:
                    w.check(len(log) == 1, lambda: "startup number %d made %d requests (%s)" % (i + 1, len(log), tr))
                    w.check(ok == a[2], lambda: "startup answered with %s %s (%s)" % (a[0], "returned" if ok else "raised %r" % r, tr))
                    started = ok
            w.note(tr)
        w.thread(run, "user")
        w.run()
    return scenario(name, body, 0, "all sequences of %d startups and answers" % n, lock_points=False)


def threads(n, each, bound, name, op=True, faults=True):
    """Threads starting one mesh client; every registration may be acknowledged or not."""
    def body(w):
        res = []
        log = w.s.__dict__.setdefault("http_log", [])
        acks = []

        def answer(rec):
            k = w.s.choose(["ok", "refuse", "lost"], [0, 0, 0]) if faults else 0
            acks.append(k == 0)
            return [http.OK, http.Answer(500), None][k]
        w.s.http = answer

        def main():
            m = mesh()

            def run():
                for _ in range(each):
                    a0 = len([x for x in acks if x])
                    ok, r = attempt(m.startup)
                    res.append((ok, len([x for x in acks if x]) > 0, r if not ok else None))
            for i in range(n):
                w.thread(run, "t%d" % i, trace=op)
        w.thread(main, "main", trace=False)
        w.run()
        w.check(all(t.done for t in w.s.threads), "a thread never ended: %r" % w.s.threads)
        w.note(acks, [r[0] for r in res])
        w.check(sum(acks) <= 1, lambda: "the application was registered %d times (%r)" % (sum(acks), acks))
        w.check(len([r for r in res if not r[0]]) == len([a for a in acks if not a]), lambda: "%d failed registrations, results %r" % (len([a for a in acks if not a]), res))
        for ok, acked, e in res:
            w.check(not ok or acked, "startup returned although nothing was acknowledged")
        if any(acks):
            w.check(acks[-1], "the application was registered again after success: %r" % acks)
    return scenario(name, body, bound, "%d threads, %d startups each, all answers" % (n, each), lock_points=False)


NAMES = R.NAMES + ["x" * 5000, "a,b", "a&b=c", "{}", '{"serviceName": "y"}', "\\", "%s", "%", "\t", "a\x00b", "/../configs/application", "?a=b"]


def marathon(name, n):
    """Long lives of one mesh client: many failed startups first, then many operations under all names, acknowledged or not."""
    def body(w):
        fails = [0, 1, 7, n][w.s.choose(["0", "1", "7", str(n)], [0] * 4)]
        every = [1, 2, 3, 10 ** 9][w.s.choose(["fail-all", "fail-2nd", "fail-3rd", "ok"], [0] * 4)]

        def run():
            from anthunder.mesh.mesh_client import PublishServiceRequest, ProviderMetaInfo
            m = mesh()
            log = w.s.__dict__.setdefault("http_log", [])
            bad = [a for a in answers() if not a[2]]
            meta = dict(protocol="1", version="4.0", serializeType="protobuf", appName="app")
            for i in range(fails):
                del log[:]
                w.s.http = lambda rec: bad[i * 7 % len(bad)][1]
                ok, r = attempt(m.startup)
                w.check(not ok and len(log) == 1, lambda: "startup number %d answered with %s returned (%d requests)"
                        % (i + 1, bad[i * 7 % len(bad)][0], len(log)))
            del log[:]
            w.s.http = lambda rec: http.OK
            ok, r = attempt(m.startup)
            w.check(ok and len(log) == 1, lambda: "startup after %d failed ones: %r, %d requests" % (fails, r, len(log)))
            for i in range(n):
                s = NAMES[i % len(NAMES)] + ("" if i < len(NAMES) else str(i))
                op = ("subscribe", "unsubscribe", "publish", "unpublish", "startup")[i % 5]
                a = bad[i * 11 % len(bad)] if i % every == every - 1 else ("ok", http.OK, True)
                del log[:]
                w.s.http = lambda rec: a[1]
                if op == "startup":
                    ok, r = attempt(m.startup)
                    w.check(ok and not log, lambda: "startup number %d after a successful one: %r, %r" % (i, r, log))
                    continue
                want = {"serviceName": s}
                if op == "publish":
                    fn = lambda: m.publish(PublishServiceRequest(serviceName=s, port=str(i), providerMetaInfo=ProviderMetaInfo(
                        protocol="1", version="4.0", serializeType="protobuf", appName="app")))
                    want.update(providerMetaInfo=meta, port=str(i), protocolType="DEFAULT", onlyPublishInCloud=False)
                else:
                    fn = lambda: getattr(m, op)(s)
                ok, r = attempt(fn)
                w.check(len(log) == 1, lambda: "operation %d, %s(%r), made %d requests" % (i, op, s[:40], len(log)))
                judge_request(w, log[0], "services/" + op, want)
                w.check(ok == a[2], lambda: "operation %d, %s(%r), answered with %s %s" % (
                    i, op, s[:40], a[0], "returned" if ok else "raised %r" % (r,)))
            w.note(fails, every)
        w.thread(run, "user")
        w.run()
    return scenario(name, body, 0, "up to %d failed startups, then %d operations" % (n, n), lock_points=False, horizon=1000000)


def fields(name):
    """Application fields of every shape reach the sidecar as they are."""
    def body(w):
        v = NAMES[w.s.choose([str(i) for i in range(len(NAMES))], [0] * len(NAMES))]

        def run():
            from anthunder.mesh.mesh_client import ApplicationInfo
            log = w.s.__dict__.setdefault("http_log", [])
            w.s.http = lambda rec: http.OK
            for f in ["appName"] + [x for x in FIELDS if x != "antShareCloud"]:
                del log[:]
                kw = {} if f == "appName" else {f: v}
                mesh(ApplicationInfo(v if f == "appName" else "app", **kw)).startup()
                want = dict(appName="app")
                want[f] = v
                w.check(len(log) == 1, "startup made %d requests" % len(log))
                judge_request(w, log[0], "configs/application", want)
        w.thread(run, "user")
        w.run()
        w.note(v)
    return scenario(name, body, 0, "application fields of every shape", lock_points=False)


def scenarios(tier):
    t = tier == "thorough"
    return [
        single("answers"), payloads("payloads"), constructors("constructors"), startups(5 if t else 4, "startups"),
        marathon("marathon", 1000 if t else 120), fields("fields"),
        threads(2, 1, 3 if t else 2, "two"),
        threads(2, 2, 2 if t else 1, "two-twice"),
        threads(3, 1, 2 if t else 1, "three"),
        threads(4, 1, 2 if t else 1, "four", op=False),
    ]
