"""Harness for the listeners: scripted peers that send requests and observed service objects."""
from . import refcodec as R
from . import sched as S
from .net import ScriptSink
from .world import *          # noqa

_scenario = scenario


def scenario(name, body, bound=0, about="", netopts=None, **opts):
    opts.setdefault("lock_points", False)
    return _scenario(name, body, bound, about, netopts, **opts)


L1 = ("127.0.0.1", 7101)
L2 = ("127.0.0.1", 7102)


class Peer(object):
    """A client written as a list of steps; each step is an environment action that becomes possible in turn.

    Steps: ("send", bytes[, label]) ("eof",) ("close",) ("reset",) ("wait", predicate, label) ("call", fn, label)
    """

    def __init__(self, lw, steps, addr=L1, name="p", cost=0, after=None, reading=True, manual=False):
        self.lw, self.steps, self.addr, self.name, self.cost = lw, list(steps), addr, name, cost
        self.conn = None
        self.refused = None
        self.sink = None
        self.bad = None
        self.frames = []
        self.ended = None            # how the server ended the connection
        self.mine = None             # how this side ended it
        self.after = after
        self.reading = reading
        lw.peers.append(self)
        if not manual:               # a manual peer is driven by the scenario: connect(), step()
            lw.w.s.env_sources.append(self.actions)

    def actions(self):
        if not self.lw.ready or (self.after and not self.after()):
            return []
        if self.conn is None:
            if self.refused is None:
                return [("%s.connect" % self.name, self.connect, self.cost)]
            return []
        if not self.steps:
            return []
        st = self.steps[0]
        if st[0] == "wait":
            if not st[1]():
                return []
            self.steps.pop(0)
            return self.actions()
        lab = st[2] if st[0] in ("send", "call") and len(st) > 2 else st[0]
        return [("%s.%s" % (self.name, lab), self.step, self.cost)]

    def connect(self):
        net = self.lw.w.net
        acc = net.acceptor_for(self.addr)
        self.lw.w.s.obs(self.name, "connect", acc is not None)
        if acc is None:
            self.refused = True
            return
        self.refused = False
        self.conn = net.new_conn(self.addr)
        self.sink = ScriptSink(self.conn.client, self._on, self._end)
        acc(self.conn)

    def step(self, st=None):
        st = st or self.steps.pop(0)
        self.lw.w.check(self.conn is not None, "nobody accepts connections at %s" % (self.addr,))
        self.lw.w.s.obs(self.name, st[0], st[2] if len(st) > 2 and st[0] in ("send", "call") else None)
        if st[0] == "send":
            if self.mine is None:
                self.conn.client.write(st[1])
        elif st[0] == "eof":
            self.mine = "eof"
            self.conn.client.write_eof()
        elif st[0] == "close":
            self.mine = "close"
            self.conn.client.close()
        elif st[0] == "reset":
            self.mine = "reset"
            self.conn.client.reset()
        elif st[0] == "call":
            st[1]()
        else:
            raise S.HarnessError("step %r" % (st,))

    def _on(self, sink):
        while self.bad is None:
            try:
                r = R.parse_one(bytes(sink.buf), "resp")
            except Exception as e:
                self.bad = "unparsable bytes from the listener: %r (%r)" % (e, bytes(sink.buf[:40]))
                return
            if r is None:
                return
            f, rest = r
            sink.buf[:] = rest
            e = R.sane_response(f)
            if e:
                self.bad = e
            self.frames.append(f)
            self.lw.w.s.obs(self.name, "got", f.rid, f.status, f.cmdcode, f.content[:20])

    def _end(self, sink, how):
        self.ended = how
        self.lw.w.s.obs(self.name, "end", how)

    def got(self, rid):
        return [f for f in self.frames if f.rid == rid]


class Run(object):
    """One execution of a service method."""
    __slots__ = ("svc", "method", "body", "ctx", "listener", "obj", "done", "args", "stage")

    def __repr__(self):
        return "%s.%s(%r)" % (self.svc, self.method, self.body[:20] if isinstance(self.body, bytes) else self.body)


class Boom(Exception):
    pass


class ListenerWorld(object):
    def __init__(self, w, kind="aio", n=1, mesh=False, services=("svc",), **kw):
        import mytracer
        self.w, self.s, self.kind, self.kw = w, w.s, kind, kw
        self.peers = []
        self.ready = False
        self.listeners = []
        self.n = n
        self.addrs = [L1, L2]
        self.runs = []
        self.built = []
        self.gates = {}
        self.delays = {}             # body -> virtual seconds the method "slow" takes
        self.released = set()
        self.auto_gates = True
        self.runners = []
        self.services = services
        self.over = False
        if mesh:
            from . import http
            w.s.http = lambda rec: http.OK
        w.s.env_sources.append(self._gate_actions)

    # -- services
    def service(self, name="svc", tag=None):
        lw = self

        class Svc(object):
            def __init__(self, ctx, *a, **k):
                self.ctx, self.a, self.k = ctx, a, k
                lw.built.append((name, tag, self))

            def _run(self, method, body):
                r = Run()
                r.svc, r.method, r.body, r.ctx, r.obj, r.listener = name, method, body, self.ctx, self, tag
                r.args = (self.a, tuple(sorted(self.k.items())))
                r.done = False
                lw.runs.append(r)
                lw.s.obs("run", name, tag, method, body if isinstance(body, bytes) else repr(body))
                return r

            def echo(self, body):
                self._run("echo", body).done = True
                return b"e:" + body

            def same(self, body):
                self._run("same", body).done = True
                return body

            def empty(self, body):
                self._run("empty", body).done = True
                return b""

            def none(self, body):
                self._run("none", body).done = True
                return None

            def text(self, body):
                self._run("text", body).done = True
                return "text"

            def number(self, body):
                self._run("number", body).done = True
                return 5

            def array(self, body):
                self._run("array", body).done = True
                return bytearray(b"ba")

            def boom(self, body):
                self._run("boom", body).done = True
                raise Boom("boom")

            def oserror(self, body):
                self._run("oserror", body).done = True
                raise FileNotFoundError(2, "nothing there")

            def reset_error(self, body):
                self._run("reset_error", body).done = True
                raise ConnectionResetError(104, "a connection of the service was reset")

            def keyerror(self, body):
                self._run("keyerror", body).done = True
                raise KeyError("k")

            def attrerror(self, body):
                self._run("attrerror", body).done = True
                raise AttributeError("a")

            def eoferror(self, body):
                self._run("eoferror", body).done = True
                raise EOFError()

            def timeouterror(self, body):
                self._run("timeouterror", body).done = True
                raise TimeoutError("t")

            def wait(self, body):
                r = self._run("wait", body)
                lw.gate(body)
                r.done = True
                return b"e:" + body

            def waitboom(self, body):
                r = self._run("waitboom", body)
                lw.gate(body)
                r.done = True
                raise Boom("boom")

            def slow(self, body):
                r = self._run("slow", body)
                lw.s.block(lambda: False, lw.delays[body], "service-delay")
                r.done = True
                return b"e:" + body

            def big(self, body):
                self._run("big", body).done = True
                return body * 3000

            def huge(self, body):
                self._run("huge", body).done = True
                return body * 150000

            def vast(self, body):
                self._run("vast", body).done = True
                return body * 1500000
        return Svc

    def gate(self, key):
        self.gates[key] = False
        self.s.block(lambda: self.gates.get(key), None, "service-gate")
        self.s.obs("released", key)

    def _gate_actions(self):
        out = []
        for k, v in sorted(self.gates.items()):
            if not v and self.auto_gates:
                out.append(("release:%s" % k.decode("latin1"), lambda k=k: self.gates.__setitem__(k, True), 0))
        return out

    # -- listeners
    def make(self):
        from anthunder.listener.aio_listener import AioListener
        from anthunder.listener.sock_listener import SockListener
        for i in range(self.n):
            k = self.kind if isinstance(self.kind, str) else self.kind[i]
            cls = AioListener if k == "aio" else SockListener
            l = cls(self.addrs[i], "app%d" % i, **self.kw)
            self.listeners.append(l)
            for s in self.services:
                l.handler.register_interface(s, self.service(s, i))
            l.initialize() if k == "aio" else None

    def run_listener(self, i=0):
        """run_forever of listener i as an observed call in its own thread"""
        l = self.listeners[i]
        c = self.w.call("run%d" % i, l.run_forever)
        self.runners.append(c)
        return c

    def start(self, then=None, settle=0.0, finish=True):
        """Main thread: make, run, let the peers act; ends the execution once all is quiet (and `settle` s passed)."""
        def main():
            def prep():
                self.make()
                for i in range(self.n):
                    self.run_listener(i)
                self.s.quiesce()
            self.w.setup(prep)
            for i in range(self.n):
                c = self.runners[i]
                if c.ended:
                    raise Fail("listener %d ended while starting: %s" % (i, short_tb(c.exc) if c.exc else c.value))
            self.ready = True
            if then:
                then()
            if finish:
                self.s.quiesce()
                if settle:
                    self.s.block(lambda: False, settle, "settle")
                    self.s.quiesce()
                self.over = True
        return self.w.thread(main, "main")

    def run(self):
        r = self.w.run(lambda: self.over)
        for c in self.runners:
            if c.ended and c.exc is not None:
                raise Fail("the thread running the listener died: %s" % short_tb(c.exc))
        return r

    # -- judging
    def judge_peer(self, p, expected, strict=True, optional=()):
        """expected: rid -> predicate(frame) -> error text or None; exactly one response for each, no other."""
        w = self.w
        w.check(p.bad is None, lambda: "%s: %s" % (p.name, p.bad))
        for rid, pred in expected.items():
            fs = p.got(rid)
            w.check(len(fs) == 1, lambda: "%s: request %d got %d responses instead of one: %r" % (p.name, rid, len(fs), fs))
            e = pred(fs[0])
            w.check(not e, lambda: "%s: request %d: %s" % (p.name, rid, e))
        for f in p.frames:
            if f.rid not in expected:
                if f.rid in optional:
                    w.check(f.status != 0 and len(p.got(f.rid)) == 1,
                            lambda: "%s: request %d must not succeed: %r" % (p.name, f.rid, f))
                    continue
                w.fail("%s: a response with id %d that no two-way request asked for: %r" % (p.name, f.rid, f))
        w.check(not p.sink.buf or not strict, lambda: "%s: an incomplete frame was sent: %r" % (p.name, bytes(p.sink.buf[:60])))


def success(content):
    def pred(f):
        if f.cmdcode != R.C_RESPONSE:
            return "command code %d" % f.cmdcode
        if f.status != 0:
            return "status %d instead of success" % f.status
        if f.content != content:
            return "content %r instead of %r" % (f.content[:40], content[:40])
    return pred


def failure(*statuses):
    def pred(f):
        if f.cmdcode != R.C_RESPONSE:
            return "command code %d" % f.cmdcode
        if f.status == 0:
            return "success (%r) instead of a failure" % f.content[:40]
        if statuses and f.status not in statuses:
            return "status %d instead of %s" % (f.status, statuses)
        if f.content:
            return None
    return pred


def heartbeat_ok(f):
    if f.cmdcode != R.C_HEARTBEAT:
        return "command code %d instead of a heartbeat" % f.cmdcode
    if f.status != 0:
        return "heartbeat status %d" % f.status


def anyof(*preds):
    def pred(f):
        es = [p(f) for p in preds]
        return None if any(e is None for e in es) else " / ".join(es)
    return pred


def head(method="echo", svc="svc", extra=()):
    d = {}
    if svc is not None:
        d["sofa_head_target_service"] = svc
        d["service"] = svc
    if method is not None:
        d["sofa_head_method_name"] = method
    d["sofa_head_target_app"] = "app"
    d["uid"] = ""
    d.update(extra)
    return d


def req(rid, method="echo", content=b"x", svc="svc", ptype=R.REQUEST, timeout=-1, extra=(), **kw):
    return R.request(rid, head(method, svc, extra), content, ptype=ptype, timeout=timeout, **kw)


# what one two-way request may do: name -> (bytes(rid), judgement of the response, method expected to run or None)
NOBODY = failure(6)
CLIENT = failure(8)
SERVICE = failure(1, 2, 3)
UNFIT = failure()


def kind(name, rid, content=b"x", **kw):
    """-> (bytes, predicate, [(method, body)] expected executions)"""
    if name in ("echo", "wait"):
        return req(rid, name, content, **kw), success(b"e:" + content), [(name, content)]
    if name == "same":
        return req(rid, name, content, **kw), success(content), [(name, content)]
    if name == "bare":  # nothing after the header
        return req(rid, "echo", b"", **kw), success(b"e:"), [("echo", b"")]
    if name == "empty":
        return req(rid, name, content, **kw), success(b""), [(name, content)]
    if name == "big":
        return req(rid, name, content, **kw), success(content * 3000), [(name, content)]
    if name == "huge":
        return req(rid, name, content, **kw), success(content * 150000), [(name, content)]
    if name == "vast":
        return req(rid, name, content, **kw), success(content * 1500000), [(name, content)]
    if name == "none":
        return req(rid, name, content, **kw), anyof(UNFIT, success(b"")), [(name, content)]
    if name == "array":
        return req(rid, name, content, **kw), anyof(UNFIT, success(b"ba")), [(name, content)]
    if name in ("text", "number"):
        return req(rid, name, content, **kw), UNFIT, [(name, content)]
    if name == "timeouterror":
        return req(rid, name, content, **kw), UNFIT, [(name, content)]
    if name in ("boom", "oserror", "reset_error", "keyerror", "attrerror", "eoferror", "waitboom"):
        return req(rid, name, content, **kw), SERVICE, [(name, content)]
    if name == "noservice":
        return req(rid, "echo", content, svc="nobody", **kw), NOBODY, []
    if name == "nomethod":
        return req(rid, "nothing", content, **kw), NOBODY, []
    if name == "missing-method":
        return req(rid, None, content, **kw), CLIENT, []
    if name == "empty-method":
        return req(rid, "", content, **kw), CLIENT, []
    if name == "missing-service":
        return req(rid, "echo", content, svc=None, **kw), CLIENT, []
    if name == "empty-service":
        return req(rid, "echo", content, svc="", **kw), CLIENT, []
    if name == "empty-header":
        return R.request(rid, (), content, **kw), CLIENT, []
    if name == "nothing":
        return R.request(rid, (), b"", **kw), CLIENT, []
    if name == "service-only":
        return R.request(rid, {"service": "svc", "sofa_head_method_name": "echo"}, content, **kw), \
            success(b"e:" + content), [("echo", content)]
    if name == "null-value":
        h = R.enc_map(head("echo")) + b"\0\0\0\3uid\xff\xff\xff\xff"
        return R.request(rid, (), content, hbytes=h, **kw), success(b"e:" + content), [("echo", content)]
    if name in ("big-header", "full-header", "many-headers", "long-key"):
        h = head("echo")
        if name == "big-header":
            h["sofa.v"] = "v" * 50000
        elif name == "many-headers":
            h.update(("x%04d" % i, "%d" % i) for i in range(3600))
        elif name == "long-key":
            h["k" * 40000] = "v"
        else:
            h["sofa.v"] = ""
            h["sofa.v"] = "v" * (65535 - len(R.enc_map(h)))
        return R.request(rid, h, content, **kw), success(b"e:" + content), [("echo", content)]
    # malformed inside a well-framed package
    if name == "bad-trace":
        return req(rid, "echo", content, extra={"rpc_trace_context.sofaRpcId": "0.x"}, **kw), UNFIT, []
    if name == "dangling-key":
        return R.request(rid, (), content, hbytes=R.enc_map(head("echo")) + b"\0\0\0\1a", **kw), UNFIT, []
    if name == "cut-string":
        return R.request(rid, (), content, hbytes=R.enc_map(head("echo"))[:-1] + b"\x7f", **kw), UNFIT, []
    if name == "negative-length":
        return R.request(rid, (), content, hbytes=b"\xff\xff\xff\xfe" + R.enc_map(head("echo")), **kw), UNFIT, []
    if name == "long-string":
        return R.request(rid, (), content, hbytes=b"\0\0\x10\0ab", **kw), UNFIT, []
    if name == "bad-utf8":
        return R.request(rid, (), content, hbytes=b"\0\0\0\1\xff\0\0\0\1a" + R.enc_map(head("echo")), **kw), UNFIT, []
    if name == "wrong-class":
        return req(rid, "echo", content, cls=b"com.alipay.Other", **kw), UNFIT, []
    if name in NEAR:
        return req(rid, "echo", content, cls=NEAR[name], **kw), UNFIT, []
    if name == "no-class":
        return req(rid, "echo", content, cls=b"", **kw), UNFIT, []
    if name == "response-cmd":
        return req(rid, "echo", content, cmdcode=R.C_RESPONSE, **kw), UNFIT, []
    if name == "heartbeat":
        return R.heartbeat_request(rid), heartbeat_ok, []
    if name == "heartbeat-full":
        return R.request(rid, head("echo"), content, cmdcode=R.C_HEARTBEAT, timeout=-1), heartbeat_ok, []
    raise S.HarnessError(name)


_C = b"com.alipay.sofa.rpc.core.request.SofaRequest"
NEAR = {"class-longer": _C + b"V2", "class-shorter": _C[:-1], "class-lower": _C.lower(), "class-upper": _C.upper(), "class-blank": _C + b" ",
        "class-leading": b" " + _C, "class-inner": b"x." + _C, "class-last": b"SofaRequest", "class-package": b"com.alipay.sofa.rpc.core.request",
        "class-response": b"com.alipay.sofa.rpc.core.response.SofaResponse", "class-nul": _C + b"\0", "class-twice": _C + _C}
LARGE = ["big-header", "full-header", "many-headers", "long-key"]
GOOD = ["echo", "empty", "big", "service-only", "null-value"] + LARGE
RESULTS = ["none", "text", "number", "array"]
ERRORS = ["boom", "oserror", "reset_error", "keyerror", "attrerror", "eoferror", "timeouterror"]
UNDISPATCHABLE = ["noservice", "nomethod", "missing-method", "empty-method", "missing-service", "empty-service", "empty-header",
                 "nothing"]
MALFORMED = ["bad-trace", "dangling-key", "cut-string", "negative-length", "long-string", "bad-utf8", "wrong-class",
             "no-class", "response-cmd", "class-longer", "class-response"]
NEARLY = sorted(NEAR)


def judge_runs(lw, expected):
    """The executions are exactly the expected (method, body) pairs, each once."""
    got = sorted((r.method, r.body) for r in lw.runs)
    want = sorted(expected)
    lw.w.check(got == want, lambda: "the services ran %r, expected %r" % (got[:8], want[:8]))
