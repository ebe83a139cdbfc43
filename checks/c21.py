"""C21: generated trace ids are unique within a process."""
import re

from mc.world import *          # noqa

MAX_PER_MS = 8001


def shape(w, t, pid, hosts, t0, t1):
    """host address (hex), milliseconds, sequence, process id"""
    if not isinstance(t, str):
        return "it is a %s" % type(t).__name__
    m = re.match(r"^([0-9a-f]{8})(\d+)$", t)
    if not m or not m.group(2).endswith(str(pid)):
        return "it does not start with the host address or end with the process id"
    if m.group(1) not in hosts:
        return "its host part %s is no address of this host" % m.group(1)
    mid = m.group(2)[:-len(str(pid))]
    ts, sq = mid[:-4], mid[-4:]
    if not ts or not (int(t0 * 1000) <= int(ts) <= int(t1 * 1000)):
        return "its time part %s is not the time %d it was made at" % (ts, t0 * 1000)
    if not 1000 <= int(sq) <= 9000:
        return "its sequence part is %s" % sq
    return None


def hosts():
    import socket
    a = socket.gethostbyname(socket.gethostname())
    return ["%02x%02x%02x%02x" % tuple(int(x) for x in a.split("."))]


MAKERS = [("TraceId", lambda m: str(m.TraceId())), ("SpanContext", lambda m: str(m.SpanContext().baggage["sofaTraceId"])),
          ("span", lambda m: str(m.new_span("x").context.baggage["sofaTraceId"])),
          ("extract", lambda m: str(m.tracer.extract("text_map", {}).baggage["sofaTraceId"]))]


def frozen(name):
    """As many ids as promised within one millisecond, in a row, from any starting point of the sequence."""
    def body(w):
        skips = [0, 1, 5, 4000, 7999, 8000, 8001, 12000]
        skip = skips[w.s.choose([str(s) for s in skips], [0] * len(skips))]
        maker = MAKERS[w.s.choose([m[0] for m in MAKERS], [0] * len(MAKERS))]
        steps = [0.0, 0.001, 0.0105, 3600.0]
        step = steps[w.s.choose([str(s) for s in steps], [0] * len(steps))]

        def run():
            import mytracer
            import os
            import time
            for _ in range(skip):
                mytracer.TraceId()
            w.s.block(lambda: False, 0.002, "sleep")
            hs = hosts()
            seen = set()
            for rnd in range(5 if step == 0.001 else 2 if step else 1):
                t0 = time.time()
                for i in range(MAX_PER_MS):
                    t = maker[1](mytracer)
                    e = shape(w, t, os.getpid(), hs, t0, time.time())
                    w.check(not e, lambda: "trace id %s: %s" % (t, e))
                    w.check(t not in seen, lambda: "the id %s was generated twice, the second time as number %d within a millisecond"
                            % (t, i + 1))
                    seen.add(t)
                if step:
                    w.s.block(lambda: False, step, "sleep")
        w.thread(run, "user")
        w.run()
        w.note(skip, maker[0], step)
    return scenario(name, body, 0, "8001 ids under a stopped clock, several starting points, then more after a clock step",
                    time_horizon=10 ** 5, horizon=10 ** 6)


def explicit(name):
    def inner(v):
        import mytracer
        n = 0
        for got in (str(mytracer.TraceId(v)), str(mytracer.SpanContext(sofaTraceId=v).baggage["sofaTraceId"]),
                    str(mytracer.tracer.extract("text_map", {"rpc_trace_context.sofaTraceId": v}).baggage["sofaTraceId"])):
            n += 1
            if got != v:
                return n, "the explicit trace id %r became %r" % (v, got), None
        if mytracer.TraceId(v) != mytracer.TraceId(v) or mytracer.TraceId(v) == mytracer.TraceId(v + "x") or mytracer.TraceId(v) == v:
            return n, "trace ids compare wrongly (%r)" % v, None
        return n, None, None
    return enumeration(name, [("id", ["", "0", "t", "0a0f01", "7f00000115265500000001000123", " x ", "é", "a.b", "None", "x" * 200])],
                       inner, "explicit trace ids")


def threads(counts, bound, name, skip=0):
    def body(w):
        import mytracer
        ids = []
        for _ in range(skip):
            mytracer.TraceId()

        def main():
            maker = MAKERS[0]

            def run(n):
                for _ in range(n):
                    ids.append(maker[1](mytracer))
            for i, n in enumerate(counts):
                w.thread(lambda n=n: run(n), "t%d" % i, trace=True)
        w.thread(main, "main", trace=False)
        w.run()
        w.check(all(t.done for t in w.s.threads), "a thread never ended: %r" % w.s.threads)
        w.check(len(ids) == sum(counts), "ids are missing")
        w.check(len(set(ids)) == len(ids), lambda: "a trace id was generated twice: %r" % (ids,))
        w.note([len(ids)])
    return scenario(name, body, bound, "threads generating %s ids within one millisecond" % (counts,))


def scenarios(tier):
    t = tier == "thorough"
    return [
        frozen("frozen"),
        explicit("explicit"),
        threads([2, 2], 4 if t else 2, "two"),
        threads([3, 1], 4 if t else 2, "three-one"),
        threads([1, 1, 1], 3 if t else 2, "three"),
        threads([2, 2], 3 if t else 1, "wrap", 8000),
        threads([1, 1], 3 if t else 1, "wrap1", 7999),
    ]
