"""C25: end to end, a call returns exactly what the service computed from its arguments."""
from mc.aioc import *
from mc.lsn import ListenerWorld, L1, scenario, GOOD, ERRORS, RESULTS, UNDISPATCHABLE
from mc.aioc import half

PAIRS = [("aio", "aio"), ("aio", "sock"), ("blocking", "aio"), ("blocking", "sock")]
EPS, GRACE = 0.001, 1.0

# method -> (value(content), may it fail, must it fail)
VALUE = dict(echo=lambda c: b"e:" + c, slow=lambda c: b"e:" + c, wait=lambda c: b"e:" + c, empty=lambda c: b"", big=lambda c: c * 3000,
             none=lambda c: b"", array=lambda c: b"ba")
EITHER = ("none", "array")
FAIL = ("boom", "oserror", "reset_error", "keyerror", "attrerror", "eoferror", "timeouterror", "waitboom", "text", "number",
        "nothing", "")
CONTENTS = [b"", b"x", bytes(range(256)), b"z" * 70000, b"\0", b" pad \r\n\0", b"None", R.response(1, b"r:x"), R.heartbeat_request(1)]


class E2E(object):
    """A real client of one kind calling a real listener of one kind."""

    def __init__(self, w, pair):
        import anthunder
        import mytracer
        self.w, self.pair = w, pair
        self.anthunder = anthunder
        self.SpanContext = mytracer.SpanContext
        anthunder.SERVICE_MAP["svc"] = L1
        anthunder.SERVICE_MAP["nobody"] = L1
        self.lw = ListenerWorld(w, pair[1])
        self.client = None
        self.calls = []
        self.over = False

    def make_client(self):
        self.client = (self.anthunder.AioClient if self.pair[0] == "aio" else self.anthunder.Client)("app")

    def plan(self, name, method, content, how="sync", svc="svc", timeout_ms=60000):
        c = Call(name)
        c.extra.update(method=method, content=content, how=how, svc=svc, timeout=timeout_ms)
        kw = dict(spanctx=self.SpanContext())
        if how == "sync":
            c.extra["fn"] = lambda: self.client.invoke_sync(svc, method, content, timeout_ms=timeout_ms, **kw)
        elif how == "oneway":
            c.extra["fn"] = lambda: self.client.invoke_oneway(svc, method, content, **kw)
        elif how == "async":
            c.extra["fn"] = lambda: self.client.invoke_async(svc, method, content, timeout_ms=timeout_ms, **kw) \
                .result(timeout_ms / 1000.0).content
        elif how == "callback":
            def fn():
                got = []
                f = self.client.invoke_async(svc, method, content, timeout_ms=timeout_ms, callback=got.append, **kw)
                f.result(timeout_ms / 1000.0)
                self.w.s.block(lambda: bool(got), 1.0, "callback")
                if len(got) != 1:
                    raise Fail("the callback was called %d times" % len(got))
                return got[0]
            c.extra["fn"] = fn
        self.w.calls.append(c)
        self.calls.append(c)
        return c

    def do(self, c):
        return self.w.perform(c, c.extra["fn"])

    def runs_of(self, c):
        return [r for r in self.lw.runs if r.body == c.extra["content"] and r.method == c.extra["method"]]

    def judge(self, surely=True):
        """surely: a call whose service returned in time must have succeeded."""
        w = self.w
        for c in self.calls:
            m, content, how = c.extra["method"], c.extra["content"], c.extra["how"]
            same = [x for x in self.calls if x.extra["method"] == m and x.extra["content"] == content and x.extra["svc"] == "svc"]
            w.check(c.ended, lambda: "call %s never ended" % c.name)
            runs = self.runs_of(c)
            w.check(len(runs) <= len(same), lambda: "%s ran %d times for %d calls" % (m, len(runs), len(same)))
            if isinstance(c.exc, Fail):
                raise c.exc
            if how == "oneway":
                w.check(c.exc is None, lambda: "the oneway call %s raised %s" % (c.name, short_tb(c.exc)))
                w.check(c.value is None, lambda: "the oneway call %s returned %r" % (c.name, c.value))
                continue
            t = c.extra["timeout"] / 1000.0
            w.check(c.t1 - c.t0 <= t + GRACE + EPS, lambda: "call %s took %.3f s, its timeout is %.3f s" % (c.name, c.t1 - c.t0, t))
            if c.exc is None:
                w.check(c.extra["svc"] == "svc" and m not in FAIL, lambda: "call %s of %s.%s returned %r although it cannot succeed"
                        % (c.name, c.extra["svc"], m, c.value))
                v = VALUE[m](content)
                w.check(type(c.value) is bytes and c.value == v, lambda: "call %s of %s(%r) returned %r instead of %r"
                        % (c.name, m, content[:30], c.value[:60] if isinstance(c.value, bytes) else c.value, v[:60]))
                w.check(runs and any(r.done for r in runs), lambda: "call %s succeeded but %s never ran" % (c.name, m))
            else:
                w.check(isinstance(c.exc, Exception), lambda: "call %s raised %r" % (c.name, c.exc))
                if surely and c.name not in (surely if isinstance(surely, dict) else {}):
                    w.check(m in FAIL or m in EITHER or c.extra["svc"] != "svc",
                            lambda: "call %s of %s(%r) failed although the service returned: %s"
                            % (c.name, m, content[:30], short_tb(c.exc)))
            w.note(c.name, m, "ok" if c.exc is None else "raised")
        known = [(x.extra["method"], x.extra["content"]) for x in self.calls if x.extra["svc"] == "svc"]
        for r in self.lw.runs:
            w.check((r.method, r.body) in known, lambda: "the service ran %r that nobody called" % r)

    def start(self, *seqs, **kw):
        """One thread per sequence of calls, on one client; quiet: let everything settle between calls."""
        quiet, trace = kw.get("quiet"), kw.get("trace")
        w = self.w

        def main():
            def prep():
                self.lw.make()
                self.lw.run_listener(0)
                w.s.quiesce()
                self.make_client()
                w.s.quiesce()
            w.setup(prep)
            self.lw.ready = True
            if kw.get("then"):
                kw["then"]()
                return

            def seq_body(seq):
                for c in seq:
                    self.do(c)
                    if quiet:
                        w.s.quiesce()
                    elif kw.get("pause"):
                        w.s.block(lambda: False, kw["pause"], "pause")
            if len(seqs) == 1:
                seq_body(seqs[0])
            else:
                ts = [w.thread(lambda seq=seq: seq_body(seq), "caller%d" % i, trace=trace) for i, seq in enumerate(seqs)]
                w.s.block(lambda: all(t.done for t in ts), None, "join")
            w.s.quiesce()
            # oneway requests arrive some time
            w.s.block(lambda: False, 2.0, "settle")
            w.s.quiesce()
            self.over = True
        w.thread(main, "main", trace=False)
        w.run(lambda: self.over)
        w.check(self.over, "the calls never ended")
        for c in self.lw.runners:
            if c.ended:
                w.fail("the listener ended: %s" % (short_tb(c.exc) if c.exc else c.value))

    def judge_oneway(self):
        for c in self.calls:
            if c.extra["how"] == "oneway":
                n = len(self.runs_of(c))
                want = 1 if c.extra["svc"] == "svc" and c.extra["method"] not in ("nothing", "") else 0
                self.w.check(n == want, lambda: "the oneway call %s ran %d times" % (c.name, n))


def pick(w, pairs=PAIRS):
    return pairs[w.s.choose(["%s->%s" % p for p in pairs], [0] * len(pairs))]


def hows(pair):
    return ["sync", "oneway"] + (["async", "callback"] if pair[0] == "aio" else [])


METHODS = ["echo", "empty", "big"] + ERRORS + RESULTS + ["nothing"]


def inputs(name):
    """Every method with every content through every pairing, one call after the other; then an ordinary one."""
    def body(w):
        pair = pick(w)
        how = hows(pair)[w.s.choose(hows(pair), [0] * len(hows(pair)))]
        e = E2E(w, pair)
        m = METHODS[w.s.choose(METHODS, [0] * len(METHODS))]
        cs = CONTENTS[:2] if m == "big" else CONTENTS
        ci = w.s.choose(["%d bytes" % len(c) for c in cs], [0] * len(cs))
        if how == "callback" and (m in FAIL or m in EITHER):
            how = "async"
        svc = ["svc", "nobody"][w.s.choose(["svc", "nobody"], [0, 0])] if m == "echo" and how != "callback" else "svc"
        calls = [e.plan("one", m, CONTENTS[ci], how, svc), e.plan("two", "echo", b"after")]
        e.start(calls, quiet=True)
        e.judge()
        e.judge_oneway()
    return scenario(name, body, 0, "every method and content through every pairing", netopts=dict(auto=True, dial_auto=True))


def segments(name, methods, bound, pairs=PAIRS):
    """One call, then another, requests and responses cut anywhere in the middle."""
    def body(w):
        e = E2E(w, pick(w, pairs))
        calls = [e.plan("c%d" % i, m, b"<%d>" % i) for i, m in enumerate(methods)]
        e.start(calls, quiet=True)
        e.judge()
    return scenario(name, body, bound, "calls of %s under segmentation" % (methods,),
                    netopts=dict(dial_auto=True, splits=half))


def concurrent(name, methods, bound, pairs, net, quiet=False, how="sync", trace=False):
    """Callers in their own threads, services that finish in any order."""
    def body(w):
        pair = pick(w, pairs)
        e = E2E(w, pair)
        seqs = []
        for i, ms in enumerate(methods):
            seqs.append([e.plan("c%d.%d" % (i, j), m, b"<%d.%d>" % (i, j), how if pair[0] == "aio" else "sync")
                         for j, m in enumerate(ms)])
        e.start(*seqs, trace=trace)
        # a listener that serves one request per connection turns calls away that share one
        e.judge(surely=pair[1] == "aio" or pair[0] == "blocking" and all(len(s) == 1 for s in seqs))
    return scenario(name, body, bound, "%d concurrent callers" % len(methods), netopts=net)


def timeouts(name, bound, pairs=PAIRS):
    """The service takes longer than the timeout: the call raises in time; what comes late goes to nobody else."""
    def body(w):
        pair = pick(w, pairs)
        e = E2E(w, pair)
        lw = e.lw
        lw.auto_gates = False
        # the late response may come at any moment around the next call
        rel = w.s.choose(["released-before", "released-during", "released-late"], [0] * 3)
        calls = [e.plan("slow", "wait", b"slow", timeout_ms=500), e.plan("next", "wait", b"next", timeout_ms=5000),
                 e.plan("last", "echo", b"last", timeout_ms=5000)]

        def releaser():
            w.s.block(lambda: b"slow" in lw.gates, None, "slow-begun")
            if rel == 0:
                w.s.block(lambda: calls[0].ended, None, "slow-over")
                lw.gates[b"slow"] = True
                w.s.block(lambda: b"next" in lw.gates, None, "next-begun")
            elif rel == 1:
                w.s.block(lambda: b"next" in lw.gates, None, "next-begun")
                lw.gates[b"slow"] = True
                w.s.quiesce()
            else:
                w.s.block(lambda: b"next" in lw.gates, None, "next-begun")
            lw.gates[b"next"] = True
            if rel == 2:
                w.s.block(lambda: calls[1].ended, None, "next-over")
                lw.gates[b"slow"] = True
        w.thread(releaser, "releaser", trace=False)
        e.start(calls, pause=0.0 if rel == 0 else None)
        c = calls[0]
        w.check(c.exc is not None, lambda: "call slow returned %r although its service was not done" % (c.value,))
        # an asyncio client shares one connection, which the threaded listener serves once
        e.judge(surely=pair != ("aio", "sock") and {"slow": 1})
    return scenario(name, body, bound, "a service slower than the timeout", netopts=dict(dial_auto=True, auto=True))


SLOW = [(0.0005, 1), (0.09, 100), (0.9, 999), (0.95, 1001), (1.4, 1500.5), (1.3, 1900), (1.95, 2000), (2.4, 2500),
        (60.5, 61000), (3000.0, 3600000)]


def within(name, pairs=PAIRS):
    """A service that takes most of the call's timeout: the call succeeds, whatever the timeout is."""
    def body(w):
        pair = pick(w, pairs)
        d, t = SLOW[w.s.choose(["%s s of %s ms" % x for x in SLOW], [0] * len(SLOW))]
        how = [h for h in hows(pair) if h != "oneway"]
        how = how[w.s.choose(how, [0] * len(how))]
        e = E2E(w, pair)
        e.lw.delays[b"s"] = d
        calls = [e.plan("slow", "slow", b"s", how, timeout_ms=t), e.plan("next", "echo", b"next")]
        e.start(calls, quiet=True)
        e.judge()
    return scenario(name, body, 0, "a service that takes most of the timeout", netopts=dict(dial_auto=True, auto=True),
                    time_horizon=10000.0, horizon=100000)


def cut(name, bound, methods, net, pairs=PAIRS):
    """The connection is cut at any moment: calls return exactly or raise; nothing runs twice; later calls succeed."""
    def body(w):
        pair = pick(w, pairs)
        e = E2E(w, pair)
        cuts = [0]

        def kill(c):
            def act():
                cuts[0] += 1
                for x in (c.client, c.server):
                    if not x.closed:
                        del x.flight[:]
                        x.flight_rst = True
                        w.net.kick(x)
            return act

        def faults():
            if cuts[0] or e.over or not e.lw.ready:
                return []
            return [("cut%d" % c.id, kill(c), 1) for c in w.net.conns if not (c.client.closed and c.server.closed)
                    and not (c.client.got_rst or c.server.got_rst)]
        w.s.env_sources.append(faults)
        calls = [e.plan("c%d" % i, m, b"<%d>" % i, timeout_ms=2000) for i, m in enumerate(methods)]
        last = e.plan("last", "echo", b"last", timeout_ms=2000)
        e.start(calls + [last], quiet=True)
        bad = [c.name for c in e.calls if c.exc is not None and c.extra["method"] in VALUE]
        w.check(len(bad) <= cuts[0] * 1, lambda: "one cut failed the calls %r" % bad)
        e.judge(surely=not cuts[0])
        for c in e.calls:
            w.check(c.exc is None or c.extra["method"] in VALUE or len(e.runs_of(c)) <= 1, "ran twice")
    return scenario(name, body, bound, "the connection is cut at any moment", netopts=net)


def listener_down(name, bound):
    """The listener is not there yet, or goes away: calls raise; they succeed once it is up."""
    def body(w):
        pair = pick(w)
        e = E2E(w, pair)
        lw = e.lw
        calls = [e.plan("early", "echo", b"early", timeout_ms=3000), e.plan("up", "echo", b"up", timeout_ms=3000),
                 e.plan("down", "echo", b"down", timeout_ms=3000)]

        def main():
            w.setup(e.make_client)
            e.do(calls[0])
            w.s.quiesce()
            lw.make()
            lw.run_listener(0)
            w.s.quiesce()
            e.do(calls[1])
            w.s.quiesce()
            lw.listeners[0].shutdown()
            w.s.block(lambda: False, 2.0, "settle")
            w.s.quiesce()
            for c in w.net.conns:
                for x in (c.client, c.server):
                    if not x.closed:
                        del x.flight[:]
                        x.flight_rst = True
                        w.net.kick(x)
            w.s.quiesce()
            e.do(calls[2])
            e.over = True
        w.thread(main, "main", trace=False)
        w.run(lambda: e.over)
        w.check(calls[0].ended and calls[0].exc is not None, "a call succeeded without a listener")
        w.check(calls[1].ended and calls[1].exc is None, lambda: "the call failed with the listener up: %s"
                % (short_tb(calls[1].exc) if calls[1].exc else "pending"))
        w.check(calls[2].ended and calls[2].exc is not None, lambda: "a call %r succeeded after the listener went away" % calls[2])
        w.note(pair)
    return scenario(name, body, bound, "calls before and after the listener's life", netopts=dict(auto=True))


def mixed(name, bound, net):
    """Two-way calls, oneway calls and asynchronous calls together on one asyncio client."""
    def body(w):
        e = E2E(w, ("aio", "aio"))
        seqs = [[e.plan("s", "wait", b"s")], [e.plan("o", "echo", b"o", "oneway"), e.plan("b", "boom", b"b")],
                [e.plan("a", "echo", b"a", "callback")]]
        e.start(*seqs)
        e.judge()
        e.judge_oneway()
    return scenario(name, body, bound, "kinds of calls together", netopts=net)


def two_clients(name, bound, net):
    """A blocking and an asyncio client with equal request ids share a listener."""
    def body(w):
        k = ("aio", "sock")[w.s.choose(["aio", "sock"], [0, 0])]
        e1 = E2E(w, ("aio", k))
        c1 = e1.plan("aio", "wait", b"one")
        c2 = e1.plan("blocking", "wait", b"two")
        kw = dict(spanctx=e1.SpanContext(), timeout_ms=60000)
        c2.extra["fn"] = lambda: cl[0].invoke_sync("svc", "wait", b"two", **kw)
        cl = []

        def then():
            w.setup(lambda: cl.append(e1.anthunder.Client("app")))
            ts = [w.thread(lambda c=c: e1.do(c), c.name) for c in (c1, c2)]
            w.s.block(lambda: all(t.done for t in ts), None, "join")
            e1.over = True
        e1.start(then=then)
        e1.judge()
    return scenario(name, body, bound, "two clients, one listener", netopts=net)


MIX = ["echo", "boom", "empty", "slow", "number", "nothing", "echo", "keyerror"]


def many(name, n, pairs=PAIRS):
    """Many calls of all kinds and outcomes, one after the other, on one client and one listener."""
    def body(w):
        pair = pick(w, pairs)
        e = E2E(w, pair)
        hs = hows(pair)
        calls = []
        for i in range(n):
            m = MIX[i * 5 % len(MIX)]
            how = hs[(i // len(MIX)) % len(hs)]
            if how == "callback" and m in FAIL:
                how = "async"
            c = b"<%d>" % i + b"x" * (i * i % 5000)
            e.lw.delays[c] = 0.05
            calls.append(e.plan("c%d" % i, m, c, how))
        # the threaded listener serves one request per connection, which an asyncio client shares
        e.start(calls, pause=0.2 if pair == ("aio", "sock") else 0.01)
        e.judge()
        e.judge_oneway()
    return scenario(name, body, 0, "%d calls in a row" % n, early_env=False, horizon=1000000, time_horizon=10**6,
                    netopts=dict(dial_auto=True, auto=True))


def crowd(name, sizes, pairs):
    """Many callers at once, several calls each."""
    def body(w):
        pair = pick(w, pairs)
        e = E2E(w, pair)
        n = sizes[w.s.choose([str(x) for x in sizes], [0] * len(sizes))]
        seqs = []
        for i in range(n):
            seq = []
            for j in range(3):
                c = b"<%d.%d>" % (i, j)
                e.lw.delays[c] = 0.01 * (i * 7 % n)
                seq.append(e.plan("c%d.%d" % (i, j), MIX[(i + 3 * j) % len(MIX)] if j < 2 else "slow", c))
            seqs.append(seq)
        e.start(*seqs)
        e.judge(surely=True)
    return scenario(name, body, 0, "%s callers at once, 3 calls each" % (sizes,), early_env=False, horizon=1000000,
                    time_horizon=10**6, netopts=dict(dial_auto=True, auto=True))


LONG = [4095, 4096, 4097, 65535, 65536, 65537, 262144, 262145, 1048577, (1 << 24) + 1]


def pattern(n):
    p = bytes(bytearray((i * 7 + i // 256) % 256 for i in range(65536)))
    return (p * (n // 65536 + 1))[:n]


def lengths(name, pairs=PAIRS):
    """Contents around every buffer size, with writes that take everything or little, in pieces of any size."""
    def body(w):
        pair = pick(w, pairs)
        n = LONG[w.s.choose([str(x) for x in LONG], [0] * len(LONG))]
        piece = [0, 1460, 65536][w.s.choose(["whole", "1460", "65536"], [0] * 3)]
        if n > 1 << 21 and piece:
            return
        if piece:
            # what a blocking socket takes and gives per call
            w.net.send_policy = lambda sk, data: [min(len(data), piece)]
            w.net.recv_policy = lambda sk, k: [min(k, piece)]
        e = E2E(w, pair)
        body_ = pattern(n)
        calls = [e.plan("long", "echo", body_), e.plan("next", "echo", b"next")]
        e.start(calls, quiet=True)
        e.judge()
    return scenario(name, body, 0, "contents of %s bytes" % (LONG,), horizon=1000000, early_env=False,
                    netopts=dict(dial_auto=True, auto=True))


def scenarios(tier):
    t = tier == "thorough"
    any_ = dict(dial_auto=True)
    seg = dict(dial_auto=True, splits=half)
    quick = dict(dial_auto=True, auto=True)
    AA, BA = [("aio", "aio")], [("blocking", "aio")]
    return [
        inputs("inputs"),
        segments("segments", ["echo"], 3 if t else 1),
        segments("segments-two", ["echo", "boom"], 2 if t else 1, AA + BA),
        concurrent("aio-two", [["wait"], ["wait"]], 3 if t else 2, AA, any_),
        concurrent("aio-three", [["wait"], ["boom"], ["echo"]], 2 if t else 1, AA, quick),
        concurrent("aio-two-two", [["wait", "echo"], ["waitboom", "echo"]], 2 if t else 1, AA, quick),
        concurrent("aio-async", [["wait"], ["big"]], 3 if t else 2, AA, quick, how="callback"),
        concurrent("blocking-two", [["wait", "echo"], ["wait", "boom"]], 2 if t else 1, BA, quick),
        concurrent("sock-two", [["wait"], ["echo"]], 3 if t else 2, [("aio", "sock"), ("blocking", "sock")], quick),
        concurrent("sock-seq", [["echo", "echo"]], 1 if t else 0, [("aio", "sock"), ("blocking", "sock")], any_),
        timeouts("timeouts", 2 if t else 1),
        within("within"),
        cut("cut", 2 if t else 1, ["wait"], any_, AA + BA),
        cut("cut-auto", 2 if t else 1, ["echo", "wait", "echo"], quick),
        listener_down("up-and-down", 2 if t else 1),
        mixed("mixed", 2 if t else 1, quick),
        many("many", 600 if t else 200),
        crowd("crowd", (17, 65, 140) if t else (17, 65), [("aio", "aio"), ("blocking", "aio"), ("blocking", "sock")]),
        lengths("lengths"),
        two_clients("two-clients", 2 if t else 1, quick),
    ] + ([concurrent("aio-two-segmented", [["wait"], ["echo"]], 1, AA, seg),
          two_clients("two-clients-any", 1, any_)] if t else [])
