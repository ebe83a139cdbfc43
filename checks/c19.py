"""C19: trace context crosses the wire unchanged and only its own."""
import itertools

from mc.lsn import *
from mc import lsn
from checks.c15 import BServer, BlockingWorld
from mc.aioc import ClientWorld, A

PRE = "rpc_trace_context."
KEYS = ["k", "penAttrs", "a.b", "", "prefix", "expand", "\u4e2d\u6587", "rpc_trace_context.", "rpc_trace_context.k", "Upper Case", "_x",
        "kwargs", "sofaTraceId2", "sofarpcid", "callerAppName", "samp", "values", "to_bytes", "baggage", "to_dict", "cls", "interface",
        "uid", "service", "self", "reference", "spanctx", "trace", ".", " k", "k ", "K", "operation_name", "tags",
        "start_time", "child_of", "references", "format", "carrier", "context", "span_context", "timeout", "timeout_ms", "callback", "header",
        "content", "method", "address"]
VALUES = ["v", "", "a.b=c&d", "\u4e2d\u6587\U0001f389", "0", " x ", "a\nb", "None", "x" * 300, "rpc_trace_context.k"]
RPCIDS = ["1", "0", "0.1", "1.2.3.4", "10.11", "0.0.0", "a.1", "1.2147483648"]
BADIDS = ["", ".", "1.", "x", "1.x", " ", "1.2.", "a", "1.1a", "\u00fc", "-"]
TIDS = ["t", "", "0a0f01", "7f00000115265500000001000123", "x.y", "\u00e9", " "]
NOISE = [{}, {"service": "s", "uid": ""}, {"pc_trace_context.sofaRpcId": "9"}, {"rpc_trace_context": "x", "rpc_trace_contextk": "x"},
         {"Rpc_trace_context.k": "1", "RPC_TRACE_CONTEXT.k": "2"}, {"x.rpc_trace_context.k": "3", " rpc_trace_context.k": "4"},
         {"sofaTraceId": "other", "sofaRpcId": "7", "": ""}]


def plain(ctx):
    return dict((k, str(v)) for k, v in ctx.baggage.items())


def carriers():
    class Like(dict):
        pass
    from anthunder.protocol import SofaHeader
    return [("dict", dict), ("SofaHeader", lambda d: SofaHeader(d)), ("subclass", Like)]


def check_extract(entries, noise, mk):
    """entries: what the context must hold (a missing trace id or rpc id must be made up)"""
    import mytracer
    import opentracing
    d = dict((PRE + k, v) for k, v in entries.items())
    carrier = mk(dict(noise, **d))
    before = dict(carrier)
    ctx = mytracer.tracer.extract(opentracing.Format.TEXT_MAP, carrier)
    if dict(carrier) != before:
        return None, "extracting changed the carrier %r into %r" % (before, dict(carrier))
    got, want = plain(ctx), dict(entries)
    if "sofaRpcId" not in want:
        if not got.get("sofaRpcId"):
            return None, "no rpc id for the carrier %r: %r" % (before, got)
        want["sofaRpcId"] = got["sofaRpcId"]
    if "sofaTraceId" not in want:
        if not got.get("sofaTraceId"):
            return None, "no trace id for the carrier %r: %r" % (before, got)
        want["sofaTraceId"] = got["sofaTraceId"]
    if got != want:
        return None, "the carrier %r gave the context %r instead of %r" % (before, got, want)
    return ctx, None


def check_round(entries, noise, mk):
    import mytracer
    import opentracing
    ctx, e = check_extract(entries, noise, mk)
    if e:
        return e
    want = plain(ctx)
    out = dict(noise)
    r = mytracer.tracer.inject(ctx, opentracing.Format.TEXT_MAP, out)
    expect = dict(noise)
    expect.update((PRE + k, v) for k, v in want.items())
    if out != expect:
        return "injecting %r into %r gave %r" % (want, noise, out)
    if r is not None and dict(r) != expect:
        return "inject returned %r" % (r,)
    if plain(ctx) != want:
        return "injecting changed the context from %r to %r" % (want, plain(ctx))
    used = dict((k, "left over") for k in expect if k.startswith(PRE))
    used.update(noise)
    mytracer.tracer.inject(ctx, opentracing.Format.TEXT_MAP, used)
    if used != expect:
        return "injecting %r into a carrier used before gave %r" % (want, used)
    again = mytracer.tracer.extract(opentracing.Format.TEXT_MAP, out)
    if plain(again) != want:
        return "extract(inject(ctx)) is %r instead of %r" % (plain(again), want)
    if again.baggage["sofaRpcId"] != ctx.baggage["sofaRpcId"] or again.baggage["sofaTraceId"] != ctx.baggage["sofaTraceId"]:
        return "ids compare unequal after extract(inject(ctx)): %r" % want
    return None


def direct(name, pairs):
    """All contexts with up to two baggage entries, through every kind of carrier."""
    def inner(rpc, tid, k1):
        n = 0
        base = {}
        if rpc is not None:
            base["sofaRpcId"] = rpc
        if tid is not None:
            base["sofaTraceId"] = tid
        for mk in carriers():
            for noise in NOISE:
                for v in VALUES:
                    for k2 in (KEYS[:33] if pairs else [None, "a.b"]):
                        d = dict(base)
                        if k1 is not None:
                            d[k1] = v
                        if k2 is not None:
                            d[k2] = v[:1] + "2"
                        n += 1
                        e = check_round(d, noise, mk[1])
                        if e:
                            return n, "%s: %s" % (mk[0], e), None
                    if k1 is None:
                        break
        return n, None, None
    return enumeration(name, [("rpcid", [None] + RPCIDS), ("traceid", [None] + TIDS), ("key", [None] + KEYS)], inner,
                       "inject and extract over all contexts and carriers of the alphabet")


def invalid(name):
    def inner(bad, k):
        import mytracer
        import opentracing
        n = 0
        for noise in NOISE:
            for tid in [None] + TIDS:
                n += 1
                d = dict(noise)
                d[PRE + "sofaRpcId"] = bad
                d[PRE + k] = "v"
                if tid is not None:
                    d[PRE + "sofaTraceId"] = tid
                try:
                    r = mytracer.tracer.extract(opentracing.Format.TEXT_MAP, d)
                except opentracing.InvalidCarrierException:
                    continue
                return n, "the carrier %r has an unusable rpc id and gave %r" % (d, plain(r)), None
        return n, None, None
    return enumeration(name, [("rpcid", BADIDS), ("key", KEYS)], inner, "unusable rpc ids")


def formats(name):
    def inner(fmt):
        import mytracer
        import opentracing
        f = getattr(opentracing.Format, fmt, fmt)
        for fn in (lambda: mytracer.tracer.extract(f, {}), lambda: mytracer.tracer.inject(mytracer.SpanContext(), f, {})):
            try:
                fn()
            except opentracing.UnsupportedFormatException:
                continue
            return 2, "format %r is not refused" % f, None
        return 2, None, None
    return enumeration(name, [("format", ["BINARY", "HTTP_HEADERS", "other"])], inner, "unsupported formats")


def header(name):
    """What a call puts on the wire: the header block built from a context, decoded independently."""
    def inner(rpc, k1, extra):
        import mytracer
        from anthunder.protocol import SofaHeader
        n = 0
        for k2 in [None] + KEYS:
            for v in VALUES:
                d = {"sofaRpcId": rpc, "sofaTraceId": "t"}
                if k1 is not None:
                    d[k1] = v
                if k2 is not None:
                    d[k2] = "2" + v[:5]
                ctx = mytracer.tracer.extract("text_map", dict((PRE + k, x) for k, x in d.items()))
                h = SofaHeader.build_header(ctx, "if.A", "m", **extra)
                n += 1
                got = R.dec_map(h.to_bytes())
                tr = dict((k, x) for k, x in got if k.startswith(PRE))
                if tr != dict((PRE + k, x) for k, x in d.items()):
                    return n, "the context %r goes out as %r" % (d, tr), None
                if len(got) != len(dict(got)):
                    return n, "a header key goes out twice: %r" % (got,), None
                o = dict((k, x) for k, x in got if not k.startswith(PRE))
                w = dict(sofa_head_target_service="if.A", sofa_head_method_name="m", service="if.A", sofa_head_target_app="", uid="")
                w.update((k, x) for k, x in extra.items() if not k.startswith(PRE))  # the trace context is not for them
                if o != w:
                    return n, "with the context %r the other headers are %r instead of %r" % (d, o, w), None
        return n, None, None
    return enumeration(name, [("rpcid", RPCIDS), ("key", [None] + KEYS), ("extra", [{}, {"own": "1"}, {"own": "1", PRE + "sofaTraceId": "other", PRE + "sofaRpcId": "7"}])],
                       inner, "header blocks built from all contexts")


CASES = [dict(sofaRpcId="0.1", sofaTraceId="t")] + [dict({"sofaRpcId": "1.2", "sofaTraceId": "t%d" % i}, **{k: VALUES[i % len(VALUES)]}) for i, k in enumerate(KEYS)]
CASES += [dict(sofaRpcId=r, sofaTraceId="t", k=VALUES[i % len(VALUES)]) for i, r in enumerate(RPCIDS)]
CASES += [{}, {"k": "only"}, {"sofaTraceId": "only"}, {"sofaRpcId": "3.4"}]


def listeners(k, name):
    """A request with each context: the service sees exactly it."""
    def body(w):
        i = w.s.choose([str(x) for x in range(len(CASES))], [0] * len(CASES))
        ni = w.s.choose([str(x) for x in range(len(NOISE) - 1)], [0] * (len(NOISE) - 1))
        d, noise = CASES[i], dict(NOISE[ni])
        noise.pop("service", None), noise.pop("uid", None)
        lw = ListenerWorld(w, k)
        ex = dict((PRE + kk, v) for kk, v in d.items())
        ex.update(noise)
        p = Peer(lw, [("send", req(1, "echo", b"a", extra=ex) )])
        q = Peer(lw, [("send", req(1, "echo", b"b", extra=noise))], name="q", after=lambda: bool(p.frames))
        lw.start()
        lw.run()
        lw.judge_peer(p, {1: success(b"e:a")})
        lw.judge_peer(q, {1: success(b"e:b")})
        for r in lw.runs:
            got = plain(r.ctx)
            want = dict(d) if r.body == b"a" else {}
            fresh = [x for x in ("sofaRpcId", "sofaTraceId") if x not in want]
            for x in fresh:
                w.check(got.get(x), "the service got no %s: %r" % (x, got))
                want[x] = got[x]
            w.check(got == want, lambda: "the service got the context %r, the request carried %r" % (got, ex if r.body == b"a" else noise))
        ids = [plain(r.ctx)["sofaTraceId"] for r in lw.runs]
        w.check(ids[0] != ids[1], "two requests got the same made-up trace")
        w.note(i, ni)
    return scenario(name, body, 0, "each context in a request to the %s listener" % k, netopts=dict(auto=True, dial_auto=True))


def wire_of(frames, content):
    out = []
    for f in frames:
        if f.content == content:
            out.append(dict((k, v) for k, v in f.header.items() if k.startswith(PRE)))
    return out


def clients(kind_, name):
    """A call with each context: the request on the wire carries exactly it; contexts of other calls stay out."""
    def body(w):
        import mytracer
        i = w.s.choose([str(x) for x in range(len(CASES))], [0] * len(CASES))
        d = dict(CASES[i])
        ctx = mytracer.tracer.extract("text_map", dict((PRE + k, v) for k, v in d.items()))
        other = mytracer.tracer.extract("text_map", {PRE + "sofaRpcId": "9", PRE + "sofaTraceId": "o", PRE + "o": "o"})
        want = dict((PRE + k, v) for k, v in plain(ctx).items())
        worder = dict((PRE + k, v) for k, v in plain(other).items())
        srv = BServer(w)
        srv.on_frame = lambda c, f: None if f.ptype == R.ONEWAY else c.reply(f)
        if kind_ == "blocking":
            bw = BlockingWorld(w)
            C = lambda fn, nm, **kw: fn(nm, **kw)
            calls = [bw.sync("one"), bw.sync("two"), bw.oneway("three"), bw.sync("four")]
            cx = [ctx, other, ctx, ctx]
            for c, x in zip(calls[:2] + calls[3:], [ctx, other, ctx]):
                c.extra["fn"] = (lambda nm, x: lambda: bw.client.invoke_sync("a", "m", nm.encode(), spanctx=x, timeout_ms=500))(c.name, x)
            calls[2].extra["fn"] = lambda: bw.client.invoke_oneway("a", "m", b"three", spanctx=ctx)
            bw.start(calls)
            bw.run()
        else:
            cw = ClientWorld(w)

            def then():
                inv = [("one", ctx, "s"), ("two", other, "s"), ("three", ctx, "o"), ("four", ctx, "a")]
                for nm, x, how in inv:
                    c = Call(nm)
                    w.calls.append(c)
                    if how == "s":
                        fn = lambda: cw.client.invoke_sync("a", "m", nm.encode(), spanctx=x, timeout_ms=500)
                    elif how == "o":
                        fn = lambda: cw.client.invoke_oneway("a", "m", nm.encode(), spanctx=x)
                    else:
                        fn = lambda: cw.client.invoke_async("a", "m", nm.encode(), spanctx=x, timeout_ms=500).result().content
                    w.perform(c, fn)
                w.s.quiesce()
                cw.over = True
            cw.over = False
            cw.start(then)
            w.run(lambda: cw.over)
        for c in w.calls:
            w.check(c.ended and c.exc is None, lambda: "call %s failed: %s" % (c.name, short_tb(c.exc) if c.exc else "pending"))
            x = worder if c.name == "two" else want
            got = wire_of([f for _, f in srv.frames], c.name.encode())
            w.check(got == [x], lambda: "call %s carries %r instead of %r" % (c.name, got, x))
        w.check(plain(ctx) == dict((k[len(PRE):], v) for k, v in want.items()), lambda: "the calls changed their context to %r" % plain(ctx))
        w.note(i)
    return scenario(name, body, 0, "each context in calls of the %s client" % kind_, netopts=dict(auto=True, dial_auto=True))


def concurrent(bound, name):
    """Calls from several threads, each with its own context, on one asyncio client."""
    def body(w):
        import mytracer
        cw = ClientWorld(w)
        srv = BServer(w)
        srv.on_frame = lambda c, f: c.reply(f)
        ctxs = [mytracer.tracer.extract("text_map", {PRE + "sofaRpcId": "%d" % i, PRE + "sofaTraceId": "t%d" % i, PRE + "k%d" % i: "v"}) for i in range(2)]

        def then():
            for i, x in enumerate(ctxs):
                c = Call("c%d" % i)
                w.calls.append(c)
                c.thread = w.s.spawn(lambda c=c, x=x: w.perform(c, lambda: cw.client.invoke_sync("a", "m", c.name.encode(), spanctx=x, timeout_ms=500)),
                                     c.name, True)
        cw.start(then)
        w.run(lambda: len(w.calls) == 2 and all(c.ended for c in w.calls))
        for c, x in zip(w.calls, ctxs):
            w.check(c.ended and c.exc is None, lambda: "call %s failed: %s" % (c.name, short_tb(c.exc) if c.exc else "pending"))
            want = dict((PRE + k, v) for k, v in plain(x).items())
            got = wire_of([f for _, f in srv.frames], c.name.encode())
            w.check(got == [want], lambda: "call %s carries %r instead of %r" % (c.name, got, want))
    return scenario(name, body, bound, "two threads calling with their own contexts", netopts=dict(auto=True, dial_auto=True))


def races(progs, bound, name):
    """Threads preempted between bytecodes; words: e extract, i inject, b build a header block, d decode one and extract,
    c start a child span."""
    def body(w):
        st = {}
        res = {}

        def main():
            from anthunder.protocol import SofaHeader
            import mytracer
            T = mytracer.tracer
            ds = [dict(sofaRpcId="%d.%d" % (t, t), sofaTraceId="t%d" % t, **{"k%d" % t: "v%d" % t, "k": str(t)}) for t in range(len(progs))]
            cs = [dict((PRE + k, v) for k, v in d.items()) for d in ds]

            def prep():
                ctxs = [T.extract("text_map", c) for c in cs]
                blocks = [SofaHeader.build_header(x, "if%d" % t, "m%d" % t).to_bytes() for t, x in enumerate(ctxs)]
                warm = T.start_span("w", child_of=T.extract("text_map", dict(cs[0]))).context
                T.inject(warm, "text_map", {})
                SofaHeader.from_bytes(blocks[0])
                return ctxs, blocks
            ctxs, blocks = w.setup(prep)

            def run(t):
                out = []
                for o in progs[t]:
                    if o == "e":
                        out.append(("e", plain(T.extract("text_map", cs[t])), ds[t]))
                    elif o == "i":
                        c = {}
                        T.inject(ctxs[t], "text_map", c)
                        out.append(("i", c, cs[t]))
                    elif o == "b":
                        b = SofaHeader.build_header(ctxs[t], "if%d" % t, "m%d" % t).to_bytes()
                        out.append(("b", sorted(R.dec_map(b)), sorted(R.dec_map(blocks[t]))))
                    elif o == "d":
                        out.append(("d", plain(T.extract("text_map", SofaHeader.from_bytes(blocks[t]))), ds[t]))
                    else:
                        s = T.start_span("op", child_of=T.extract("text_map", cs[t]))
                        out.append(("c", plain(s.context), dict(ds[t], sofaRpcId=ds[t]["sofaRpcId"] + ".1")))
                res[t] = out
            for t in range(len(progs)):
                w.thread(lambda t=t: run(t), "t%d" % t, trace=True)
        w.thread(main, "main", trace=False)
        w.run()
        w.check(len(res) == len(progs), "a thread never ended")
        for t, out in sorted(res.items()):
            for o, got, want in out:
                w.check(got == want, lambda: "thread %d, %s: %r instead of %r" % (t, o, got, want))
    return scenario(name, body, bound, "threads doing %s preempted between bytecodes" % (progs,))


LENS = [5000, 1024, 255, 256, 257, 1023, 2048, 4096, 8192, 10000, 20000, 32767, 32768, 40000, 66000]


def big(i, n):
    """The i-th kind of context with n baggage entries."""
    key, val = [(lambda j: "k%d" % j, lambda j: "v%d" % j), (lambda j: "k" * (j % 200 + 1) + str(j), lambda j: ""),
                (lambda j: R.NAMES[j % len(R.NAMES)] + str(j), lambda j: R.NAMES[-1 - j % len(R.NAMES)]),
                (lambda j: "a.%d" % j, lambda j: "x" * (j * 37 % 700)), (lambda j: "%s%d" % (PRE, j), lambda j: "%s%d" % (PRE, j)),
                (lambda j: "long%d" % j, lambda j: ("y%d" % j) * (LENS[j % len(LENS)] // 2))][i]
    return dict([("sofaRpcId", ".".join(str(j) for j in range(min(n, 150) + 1))), ("sofaTraceId", "t" * (n % 100 + 1))] + [(key(j), val(j)) for j in range(n)])


def size_of(d):
    return sum(8 + len((PRE + k).encode("utf8")) + len(v.encode("utf8")) for k, v in d.items()) + 300


def large(name, ns):
    """Contexts with many and with long entries, through every carrier, the header block and the wire decoder."""
    def inner(i, n):
        from anthunder.protocol import SofaHeader
        import mytracer
        d = big(i, n)
        c = 0
        for mk in carriers():
            c += 1
            e = check_round(d, {}, mk[1])
            if e:
                return c, "%d entries, %s: %s" % (n, mk[0], e[:600]), None
        if size_of(d) < 65535:
            ctx = mytracer.tracer.extract("text_map", dict((PRE + k, x) for k, x in d.items()))
            b = SofaHeader.build_header(ctx, "if.A", "m").to_bytes()
            got = dict((k[len(PRE):], x) for k, x in R.dec_map(b) if k.startswith(PRE))
            c += 1
            if got != d:
                return c, "a context of %d entries goes out with %d others" % (n, len(set(got.items()) ^ set(d.items()))), None
            back = plain(mytracer.tracer.extract("text_map", SofaHeader.from_bytes(b)))
            if back != d:
                return c, "a context of %d entries comes back with %d others" % (n, len(set(back.items()) ^ set(d.items()))), None
        return c, None, None
    return enumeration(name, [("kind", list(range(6))), ("entries", list(ns))], inner, "contexts of up to %d entries" % max(ns))


def hops(name, n):
    """A context that is passed on from process to process, with a child span at every hop or as it is."""
    def inner(d, child):
        from anthunder.protocol import SofaHeader
        import mytracer
        d = dict(d)
        ctx = mytracer.tracer.extract("text_map", dict((PRE + k, x) for k, x in d.items()))
        want = plain(ctx)
        for i in range(n):
            h = SofaHeader.from_bytes(SofaHeader.build_header(ctx, "if.%d" % i, "m").to_bytes())
            ctx = mytracer.tracer.extract("text_map", h)
            if plain(ctx) != want:
                return i, "hop %d: %r instead of %r" % (i, plain(ctx), want), None
            if child:
                ctx = mytracer.tracer.start_span("op", child_of=ctx).context
                want["sofaRpcId"] += ".1"
                if plain(ctx) != want:
                    return i, "child at hop %d: %r instead of %r" % (i, plain(ctx), want), None
        return n, None, None
    return enumeration(name, [("context", [c for c in CASES if "sofaRpcId" in c]), ("child", [False, True])], inner, "%d hops" % n)


def calls(kind_, ns, name):
    """Many calls, each with a context of its own (some large), to a listener: each service run sees its own."""
    def body(w):
        n = ns[w.s.choose([str(x) for x in ns], [0] * len(ns))]
        lw = ListenerWorld(w, kind_)
        ds = [big(i % 5, i * 31 % 40) for i in range(n)]

        def then():
            p = None
            for i, d in enumerate(ds):
                if p is None or kind_ == "sock" or i % 7 == 0:
                    p = Peer(lw, [], name="p%d" % i, manual=True)
                    p.connect()
                p.step(("send", req(i, "echo", b"<%d>" % i, extra=dict((PRE + k, v) for k, v in d.items()) if i % 3 else {})))
                if i % 2:
                    w.s.quiesce()
            w.s.quiesce()
        lw.start(then)
        lw.run()
        got = dict((r.body, plain(r.ctx)) for r in lw.runs)
        w.check(len(lw.runs) == n and len(got) == n, lambda: "%d runs for %d requests" % (len(lw.runs), n))
        ids = set()
        for i, d in enumerate(ds):
            g = got[b"<%d>" % i]
            if i % 3:
                w.check(g == d, lambda: "request %d: the service got %r" % (i, sorted(set(g.items()) ^ set(d.items()))[:10]))
            else:
                w.check(set(g) == set(("sofaTraceId", "sofaRpcId")), lambda: "request %d carried no context, the service got %r" % (i, g))
                ids.add(g["sofaTraceId"])
        w.check(len(ids) == (n + 2) // 3, "requests without a context share a made-up trace id")
    return scenario(name, body, 0, "up to %d requests with contexts of their own" % max(ns), netopts=dict(auto=True, dial_auto=True),
                    early_env=False, horizon=1000000, time_horizon=10 ** 6)


def scenarios(tier):
    t = tier == "thorough"
    return [
        direct("direct", t), invalid("invalid"), formats("formats"), header("header"),
        listeners("aio", "listener-aio"), listeners("sock", "listener-sock"),
        clients("aio", "client-aio"), clients("blocking", "client-blocking"),
        concurrent(2 if t else 1, "concurrent"),
        large("large", (1, 2, 9, 10, 33, 64, 65, 100, 128, 129, 200, 256, 257, 500) + ((1000, 3000) if t else ())),
        races(["e", "e"], 3 if t else 2, "races-extract"), races(["i", "i"], 3 if t else 2, "races-inject"),
        races(["b", "b"], 2 if t else 1, "races-build"), races(["d", "d"], 2 if t else 1, "races-decode"), races(["c", "c"], 2 if t else 1, "races-child"),
        races(["ei", "db"], 2 if t else 1, "races-mixed"),
        hops("hops", 200 if t else 60),
        calls("aio", (5, 70, 530) if t else (70,), "many-aio"), calls("sock", (5, 70, 530) if t else (70,), "many-sock"),
    ]
