"""C03: request ids are distinct and in range for all threads and across wrap-around."""
import importlib
import random
import sys

from mc.aioc import *
from mc.aioc import _scenario

MAX = 0x7fffffff


class start_at(object):
    """Import the id source again with the random start value under control."""

    def __init__(self, start):
        self.start = start

    def __enter__(self):
        import anthunder.helpers.request_id as m
        self.m = m
        s = self.start
        self.saved = dict((k, getattr(random, k)) for k in ("randint", "randrange", "getrandbits"))
        random.randint = lambda a, b: min(max(a, s), b)
        random.randrange = lambda a, b=None, step=1: min(max(0 if b is None else a, s), (a if b is None else b) - 1)
        random.getrandbits = lambda n: min(s, (1 << n) - 1)
        old = dict(vars(m))
        try:
            importlib.reload(m)
        finally:
            for k, v in self.saved.items():
                setattr(random, k, v)
        new = vars(m)
        for mod in list(sys.modules.values()):
            if getattr(mod, "__name__", "").split(".")[0] != "anthunder" or mod is m:
                continue
            for k, v in list(vars(mod).items()):
                if not k.startswith("__") and k in old and old[k] is v and new.get(k) is not v:
                    setattr(mod, k, new[k])
        return self

    def __exit__(self, *a):
        return False


def makers():
    from anthunder.protocol import BoltRequest, SofaHeader
    from anthunder.command.heartbeat import HeartbeatRequest
    h = SofaHeader(service="s")
    return dict(call=lambda: BoltRequest.new_request(h, b"x", timeout_ms=1000),
                beat=lambda: HeartbeatRequest.new_request())


def wire_id(w, p):
    f = R.parse_one(p.to_stream(), "req")[0]
    w.check(f.rid == p.request_id, "request %r is %r on the wire" % (p.request_id, f.rid))
    return f.rid


def judge(w, ids):
    w.check(all(isinstance(i, int) and 0 <= i <= MAX for i in ids), lambda: "ids out of range: %r" % (ids,))
    w.check(len(set(ids)) == len(ids), lambda: "two requests carry the same id: %r" % (ids,))


STARTS = [MAX, MAX - 1, MAX - 2, MAX - 5, 0, 1, 0x1234567]


def threads(plans, name, bound):
    """Threads create requests; a preemption may come before any bytecode of the repository."""
    def body(w):
        s = STARTS[w.s.choose(["start=%#x" % x for x in STARTS], [0] * len(STARTS))]
        with start_at(s):
            M = makers()
            got = []

            def user(plan):
                def run():
                    for k in plan:
                        got.append(M[k]())
                return run
            for i, p in enumerate(plans):
                w.thread(user(p), "t%d" % i, trace=True)
            w.run()
            w.check(len(got) == sum(map(len, plans)), "requests were not created")
            # what comes after is distinct as well
            got += [M["call"]() for _ in range(3)]
        judge(w, [wire_id(w, p) for p in got])
        w.note(len(got))
    return _scenario(name, body, bound, "%d threads creating requests" % len(plans), lock_points=False)


def sequence(name, n):
    """One thread draws a run of ids over every start value around the wrap-around."""
    def body(w):
        starts = [MAX - k for k in range(60)] + list(range(10)) + [2 ** k - 5 for k in range(4, 31)] + [10 ** k - 5 for k in range(2, 10)]
        s = starts[w.s.choose(["%#x" % x for x in starts], [0] * len(starts))]
        with start_at(s):
            M = makers()
            ids = [wire_id(w, M["beat" if i % 3 == 2 else "call"]()) for i in range(n)]
        judge(w, ids)
        w.note(len(ids))
    return _scenario(name, body, 0, "%d ids from every start value near the wrap-around" % n)


def long(name, n):
    """A long run of ids from several start values, the wrap-around in the middle of some."""
    def body(w):
        starts = [0, 1, MAX - n // 2, MAX - n + 1, MAX, 2 ** 30 - n // 2, 2 ** 24 - 7]
        s = starts[w.s.choose(["start=%#x" % x for x in starts], [0] * len(starts))]
        with start_at(s):
            M = makers()
            seen = set()
            for i in range(n):
                r = M["beat" if i % 1000 == 999 else "call"]().request_id
                w.check(isinstance(r, int) and 0 <= r <= MAX, lambda: "id %r is out of range" % (r,))
                w.check(r not in seen, lambda: "request %d carries the id %d of an earlier one" % (i, r))
                seen.add(r)
        w.note(len(seen))
    return _scenario(name, body, 0, "%d ids in a row" % n)


def retention(name, n):
    """Drawing ids keeps nothing: the process does not grow with the number of requests it made."""
    def body(w):
        s = STARTS[w.s.choose(["start=%#x" % x for x in STARTS], [0] * len(STARTS))]
        with start_at(s):
            M = makers()
            for _ in range(1000):
                M["call"]()
            a = sys.getallocatedblocks()
            for _ in range(n):
                M["call"]()
            grown = sys.getallocatedblocks() - a
        w.check(grown < n // 4, lambda: "%d requests left %d blocks of memory behind" % (n, grown))
        w.note("kept nothing")
    return _scenario(name, body, 0, "memory after %d requests" % n)


def scenarios(tier):
    t = tier == "thorough"
    return [
        threads([["call"], ["beat"]], "two", 3 if t else 2),
        threads([["call", "beat"], ["beat", "call"]], "two-by-two", 2 if t else 1),
        threads([["beat"], ["beat"]], "beats", 4 if t else 2),
        threads([["call"], ["beat"], ["call"]], "three", 2 if t else 1),
        sequence("sequence", 64),
        retention("retention", 4000),
        long("long", 2000000 if t else 200000),
    ]
