"""C12: a bad request harms nobody else: framing and isolation of the asyncio listener."""
from mc.lsn import *
from checks.c11 import marathon

ALL = MALFORMED + UNDISPATCHABLE + ["boom", "empty", "text", "heartbeat", "heartbeat-full"]


def build(names, base=0x1000):
    """-> stream, expected, runs, offsets where frames end"""
    data, exp, runs, ends = b"", {}, [], []
    for i, n in enumerate(names):
        b, pred, rr = kind(n, base + i, b"<%d>" % i)
        data += b
        exp[base + i] = (pred, rr)
        ends.append(len(data))
    return data, exp, ends


def check_all(lw, p, exp, more=()):
    lw.judge_peer(p, dict((r, e[0]) for r, e in exp.items()))
    judge_runs(lw, [x for e in exp.values() for x in e[1]] + list(more))
    lw.w.check(not p.ended, "the listener ended the connection (%s)" % p.ended)


def splits(middles, name, nsplits=1, region="all"):
    """[echo, X, echo] cut into segments at every place."""
    def body(w):
        lw = ListenerWorld(w)
        x = middles[w.s.choose(middles, [0] * len(middles))]
        data, exp, ends = build(["echo", x, "echo"])
        lo, hi = (0, len(data)) if region == "all" else (ends[0] - 2, ends[1] + 24)
        if nsplits == 0:
            parts = [data[i:i + 1] for i in range(len(data))]
        else:
            cuts = [lo]
            for _ in range(nsplits):
                c = cuts[-1] + 1 + w.s.choose(["+%d" % i for i in range(hi - cuts[-1] - 1)],
                                              [0] * (hi - cuts[-1] - 1))
                cuts.append(c)
            cuts = cuts[1:]
            parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        p = Peer(lw, [("send", q) for q in parts])
        lw.start()
        lw.run()
        check_all(lw, p, exp)
    return scenario(name, body, 0, "%d splits (0: every byte alone) of echo, X, echo" % nsplits,
                    netopts=dict(auto=True))


def ends(names, name, hows=("eof", "close", "reset"), together=(False,), other=True):
    """The stream stops after any number of bytes; the connection ends; another connection goes on."""
    def body(w):
        lw = ListenerWorld(w)
        lw.auto_gates = False
        data, exp, marks = build(names)
        k = w.s.choose(["@%d" % i for i in range(len(data))], [0] * len(data))
        how = hows[w.s.choose(hows, [0] * len(hows))]
        tog = together[w.s.choose([str(t) for t in together], [0] * len(together))]
        complete = [0x1000 + i for i, e in enumerate(marks) if e <= k]
        steps = []
        if k and not tog:
            # what was complete before was answered before the rest arrives
            last = max([0] + [e for e in marks if e <= k])
            if last:
                steps.append(("send", data[:last]))
                steps.append(("wait", lambda: w.s.now > 0.5, ""))
            if k > last:
                steps.append(("send", data[last:k]))
        elif k:
            steps.append(("send", data[:k]))
        steps.append((how,))
        p = Peer(lw, steps, name="bad", after=lambda: len(q.steps) <= 2)
        b1, pred1, r1 = kind("wait", 0x1000, b"other-wait")
        b2, pred2, r2 = kind("echo", 0x1001, b"other-echo")
        b3, pred3, r3 = kind("echo", 0x1002, b"other-later")
        q = Peer(lw, [("send", b1), ("send", b2), ("wait", lambda: w.s.now > 1.5, ""), ("send", b3)], name="good")

        def then():
            w.s.quiesce()
            w.s.block(lambda: False, 1.0, "one")
            w.s.quiesce()
            lw.gates[b"other-wait"] = True
            w.s.quiesce()
            w.s.block(lambda: False, 1.0, "two")
        lw.start(then)
        lw.run()
        w.check(p.bad is None, lambda: p.bad)
        lw.judge_peer(q, {0x1000: pred1, 0x1001: pred2, 0x1002: pred3})
        w.check(not q.ended, "the listener ended another connection (%s)" % q.ended)
        for rid, (pred, rr) in exp.items():
            fs = p.got(rid)
            if rid in complete:
                w.check(len(fs) == 1 or tog and not fs or how != "eof" and tog and not fs,
                        lambda: "complete request %d got %d responses" % (rid, len(fs)))
                e = pred(fs[0]) if fs else None
                w.check(not e, lambda: "request %d: %s" % (rid, e))
            else:
                w.check(len(fs) <= 1 and all(f.status for f in fs), lambda: "incomplete request %d got %r" % (rid, fs))
        w.check(all(f.rid in exp for f in p.frames), lambda: "responses to nobody: %r" % p.frames)
        want = [x for r in complete for x in exp[r][1]]
        got = [(r.method, r.body) for r in lw.runs if not r.body.startswith(b"other")]
        w.check(sorted(got) == sorted(want), lambda: "with %d of %d bytes received the services ran %r instead of %r"
                % (k, len(data), got, want))
        c = [x for x in w.net.conns if x is p.conn][0]
        w.check(how == "reset" or c.server.closed or c.server.wrote_eof,
                "the listener keeps the connection open that its peer ended")
    return scenario(name, body, 0, "%s cut at every offset, then %s" % (names, "/".join(hows)),
                    netopts=dict(auto=True))


def concurrent(names, bound, name, one_by_one=True, policy=False):
    """Bad requests while ordinary ones are in progress on the same connection, all orders."""
    def body(w):
        lw = ListenerWorld(w)
        if policy:
            w.net.write_policy = lambda tr, data: [len(data), 0, 7]
        data, exp, marks = build(names)
        parts = [data[a:b] for a, b in zip([0] + marks, marks)] if one_by_one else [data]
        p = Peer(lw, [("send", x, n) for x, n in zip(parts, names)])
        lw.start()
        lw.run()
        check_all(lw, p, exp)
    return scenario(name, body, bound, "%s in all orders of completion" % names)


def neighbours(kinds, bound, name):
    """Two connections, one of them sending bad requests or dying."""
    def body(w):
        lw = ListenerWorld(w)
        data, exp, _ = build(kinds[0])
        p = Peer(lw, [("send", data, "all")] + ([("reset",)] if kinds[2] == "reset" else []), name="p0")
        d2, exp2, _ = build(kinds[1], 0x1000)
        q = Peer(lw, [("send", d2, "all")], name="p1")
        lw.start()
        lw.run()
        lw.judge_peer(q, dict((r, e[0]) for r, e in exp2.items()))
        w.check(not q.ended, "the listener ended another connection")
        if kinds[2] != "reset":
            check_all(lw, p, exp, [x for e in exp2.values() for x in e[1]])
        else:
            w.check(p.bad is None, lambda: p.bad)
            for rid in exp:
                w.check(len(p.got(rid)) <= 1, "two responses to one request")
    return scenario(name, body, bound, "two connections %s" % (kinds,))


def deaths(name, n):
    """Connections that end at every offset of a request, one after the other or all held open until the last; a good
    connection is served throughout and after."""
    def body(w):
        lw = ListenerWorld(w)
        hold = w.s.choose(["in-turn", "together"], [0, 0])
        how = ["eof", "close", "reset"][w.s.choose(["eof", "close", "reset"], [0] * 3)]
        data, exp, marks = build(["dangling-key", "echo", "heartbeat"], 0x9000)
        good = Peer(lw, [], name="good", manual=True)
        bad = []

        def then():
            good.connect()
            for i in range(n):
                p = Peer(lw, [], name="bad%d" % i, manual=True)
                p.connect()
                bad.append(p)
                p.step(("send", data[:i * 13 % (marks[0] - 1) + 1]))
                if not hold:
                    w.s.quiesce()
                    p.step((how,))
                good.step(("send", kind("echo", i, b"g%d" % i)[0]))
                w.s.quiesce()
                w.check(len(good.frames) == i + 1, lambda: "request %d of the good connection got %r" % (i, good.frames[i:]))
            for p in bad:
                if p.mine is None:
                    p.step((how,))
            w.s.quiesce()
            good.step(("send", kind("echo", n, b"g%d" % n)[0]))
            w.s.quiesce()
        lw.start(then)
        lw.run()
        lw.judge_peer(good, dict((i, kind("echo", i, b"g%d" % i)[1]) for i in range(n + 1)))
        w.check(not good.ended, "the listener ended the good connection")
        judge_runs(lw, [("echo", b"g%d" % i) for i in range(n + 1)])
        for p in bad:
            w.check(p.bad is None and not any(f.status == 0 for f in p.frames), lambda: "an incomplete request got %r" % p.frames)
            c = [x for x in w.net.conns if x is p.conn][0]
            w.check(how == "reset" or c.server.closed or c.server.wrote_eof,
                    "the listener keeps a connection open that its peer ended")
        w.note(hold, how)
    return scenario(name, body, 0, "%d connections that end inside a request" % n, early_env=False, horizon=1000000,
                    time_horizon=10 ** 6, netopts=dict(auto=True))


def scenarios(tier):
    t = tier == "thorough"
    sc = [
        splits(ALL + [x for x in NEARLY if x not in ALL], "bytewise", 0),
        splits(["dangling-key", "bad-utf8", "wrong-class", "heartbeat", "heartbeat-full", "bad-trace"], "split1", 1,
               "all" if t else "middle"),
        ends(["echo"], "ends-first"),
        ends(["bare"], "ends-bare"),
        ends(["echo", "echo"], "ends"),
        ends(["noservice", "heartbeat", "dangling-key", "heartbeat-full", "echo"], "ends-mixed"),
        ends(["echo", "empty"], "ends-together", ("eof", "close", "reset"), (True,)),
        concurrent(["wait", "dangling-key", "wait"], 2 if t else 1, "concurrent-header"),
        concurrent(["wait", "bad-trace", "wait"], 2 if t else 1, "concurrent-trace"),
        concurrent(["wait", "wrong-class", "echo"], 2 if t else 1, "concurrent-class", policy=True),
        concurrent(["bad-utf8", "wait", "response-cmd"], 2 if t else 1, "concurrent-two", one_by_one=False),
        neighbours((["dangling-key", "wait"], ["wait"], None), 1 if t else 0, "neighbours"),
        neighbours((["wait"], ["wait"], "reset"), 1 if t else 0, "neighbours-reset"),
        marathon("aio", (1100, 530, 70) if t else (530,), "many-bad", [(x, "echo") for x in ALL] + [tuple(ALL)]),
        deaths("many-deaths", 300 if t else 70),
    ]
    if t:
        sc += [splits(["dangling-key", "bad-utf8", "wrong-class", "heartbeat"], "split2", 2, "middle"),
               ends(["bad-trace", "echo", "bad-utf8"], "ends-mixed2")]
    return sc
