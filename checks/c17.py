"""C17: the pool manager keeps one live pool per key and returns every connection."""
from mc.pools import *

MAXC = 2


class Boom(Exception):
    pass


class Man(object):
    """A pool manager whose pools are recorded."""

    def __init__(self, w, max_pools, **kw):
        import mysockpool
        import mysockpool.exceptions as X
        from mysockpool.pool_manager import PoolManager
        self.w, self.X = w, X
        self.log = log = ConnLog(w)
        self.pools = []            # every pool ever made, in order of creation
        self.closed = {}           # index -> times closed
        me = self

        class Pool(mysockpool.ConnectionPool):
            ConnectionCls = log.cls

            def __init__(self, key, *a, **k):
                self.index = len(me.pools)
                me.pools.append(self)
                self.key_ = key
                super(Pool, self).__init__(key, *a, **k)

            def close(self):
                me.closed[self.index] = me.closed.get(self.index, 0) + 1
                super(Pool, self).close()
        cls = type("Man", (PoolManager,), dict(PoolCls=Pool))
        kw = dict(dict(initial_connections=0, max_connections=MAXC, max_free_connections=MAXC, min_free_connections=0), **kw)
        self.man = cls(max_pools, **kw) if max_pools is not None else cls(**kw)

    def request(self, k):
        return self.man.connection_pool_from_pool_key(self.log.key(k))

    def scope(self, k):
        cm = self.man.connection_scope(self.log.key(k))
        return cm, cm.__enter__()

    def end(self, cm, exc=None):
        """The end of a with block; True if it behaved."""
        if exc is None:
            return not cm.__exit__(None, None, None)
        try:
            return not cm.__exit__(type(exc), exc, None)
        except S.Killed:
            raise
        except BaseException as e:
            same = e is exc
            strip(e)
            return same

    def judge(self, kept, lent=None):
        """kept: {key: index of its open pool}; lent: {key: connections lent out of open pools}"""
        w = self.w
        for p in self.pools:
            n = self.closed.get(p.index, 0)
            if kept.get(KEYS.index((p.key_.host, p.key_.port))) == p.index:
                w.check(n == 0, "a pool still kept was closed (pool %d)" % p.index)
            else:
                w.check(n == 1, "a pool no longer kept was closed %d times (pool %d)" % (n, p.index))

    def capacity(self, kept):
        """Nothing is lent any more."""
        w, log = self.w, self.log
        log.fail_next = 0
        for k in range(len(KEYS)):
            if k not in kept:
                w.check(log.open_count(k) == 0, lambda: "%d connections of closed pools stay open" % log.open_count(k))
                continue
            p = self.pools[kept[k]]
            free = log.open_count(k)
            w.check(free <= MAXC, "%d connections are kept, at most %d may be" % (free, MAXC))
            out = []
            while len(out) <= MAXC:
                try:
                    out.append(p.get_conn())
                except self.X.EmptyPoolError as e:
                    strip(e)
                    break
                w.check(log.by_id[out[-1].serial] == "open", "a closed connection was returned to its pool")
            w.check(len(set(id(c) for c in out)) == len(out), "one connection was returned to its pool twice")
            w.check(len(out) == MAXC, lambda: "all scopes over, %d of %d connections can be borrowed" % (len(out), MAXC))
            if free:
                w.check(log.open_count(k) == MAXC, lambda: "%d connections open with %d lent" % (log.open_count(k), MAXC))
            for c in out:
                p.put_conn(c)
            c = out = None


def histories(depth, max_pools, name, nkeys=3, extra=True, repeat=1):
    def body(w):
        def run():
            m = Man(w, max_pools)
            lru = []                       # (key, pool index), least recently used first
            scopes = []                    # (cm, key, pool index, conn serial)
            used = 0
            trace = []

            def requested(k, before):
                """The model of a request: returns the index of the pool that serves it."""
                for i, (q, ix) in enumerate(lru):
                    if q == k:
                        lru.append(lru.pop(i))
                        w.check(len(m.pools) == before, "a new pool was made for a key that has an open one")
                        return ix
                w.check(len(m.pools) == before + 1, "%d pools were made for one request" % (len(m.pools) - before))
                lru.append((k, before))
                del lru[:max(0, len(lru) - (max_pools or 10))]
                return before

            def req(k):
                before = len(m.pools)
                p = m.request(k)
                ix = requested(k, before)
                w.check(p is m.pools[ix], "a request got pool %s, the open one of the key is %d" % (getattr(p, "index", p), ix))
                w.check((p.key_.host, p.key_.port) == KEYS[k], "the pool belongs to another key")
                return "pool%d" % ix

            def scope(k):
                before = len(m.pools)
                armed, made = m.log.fail_next, m.log.made
                try:
                    cm, c = m.scope(k)
                except m.X.EmptyPoolError as e:
                    strip(e)
                    ix = requested(k, before)
                    n = len([s for s in scopes if s[2] == ix])
                    w.check(n == MAXC, "a scope found its pool empty with %d of %d lent" % (n, MAXC))
                    return "empty"
                except OSError as e:
                    strip(e)
                    requested(k, before)
                    w.check(armed and m.log.made > made, lambda: "a scope raised %r" % (e,))
                    return "failed"
                ix = requested(k, before)
                w.check(c.addr == KEYS[k], "the connection goes to another address")
                w.check(m.log.by_id[c.serial] == "open", "a scope got a closed connection")
                w.check(all(s[3] != c.serial for s in scopes), "a scope got a connection that is lent already")
                scopes.append((cm, k, ix, c.serial))
                return "conn"

            def end(i, exc):
                cm, k, ix, serial = scopes.pop(i)
                w.check(m.end(cm, Boom("body") if exc else None), "the exception of the body did not leave its scope unchanged")
                cm = None
                if ix not in [x for _, x in lru]:
                    w.check(m.log.by_id[serial] == "closed", "a connection returned to a closed pool stays open")

            def clear(how):
                if how:
                    m.man.__exit__(None, None, None)
                else:
                    m.man.clear()
                del lru[:]
            word = []
            for turn in range(depth * repeat):
                ks = list(range(min(used + 1, nkeys)))
                ops = [("pool%d" % k, lambda k=k: req(k), k) for k in ks]
                if len(scopes) < 3:
                    ops += [("scope%d" % k, lambda k=k: scope(k), k) for k in ks]
                if scopes:
                    ops += [("end-old", lambda: end(0, False), 0), ("raise-new", lambda: end(-1, True), 0)]
                    if len(scopes) > 1:
                        ops += [("raise-old", lambda: end(0, True), 0), ("end-new", lambda: end(-1, False), 0)]
                if repeat == 1:
                    ops.append(("clear", lambda: clear(False), 0))
                if extra and not m.log.fail_next:
                    ops.append(("fail-next", lambda: setattr(m.log, "fail_next", 1), 0))
                if turn < depth:
                    o = ops[w.s.choose([x[0] for x in ops], [0] * len(ops))]
                    word.append(o[0])
                    trace.append(o[0])
                else:
                    o = ([x for x in ops if x[0] == word[turn % depth]] or [("-", lambda: None, 0)])[0]
                if o[0][:4] in ("pool", "scop"):
                    used = max(used, o[2] + 1)
                r = o[1]()
                if turn < depth:
                    trace.append(r if isinstance(r, str) else "")
                o = ops = None
                m.judge(dict(lru))
            while scopes:
                end(-1, len(scopes) % 3)
            m.judge(dict(lru))
            m.capacity(dict(lru))
            clear(True)
            m.judge({})
            m.capacity({})
            w.note(trace)
        w.thread(run, "user")
        w.run()
    return scenario(name, body, 0, "all histories of %d operations over %d keys, at most %s pools%s" % (
        depth, nkeys, max_pools, ", %d times" % repeat if repeat > 1 else ""), horizon=100000)


def full(name):
    """More keys than pools: fill, use some again, go on; the default size included."""
    def body(w):
        size = [4, 9, None][w.s.choose(["4", "9", "default"], [0] * 3)]
        n = size or 10
        order = w.s.choose(["none", "first", "last", "odd", "all", "reversed"], [0] * 6)
        more = w.s.choose([str(i) for i in range(5)], [0] * 5)

        def run():
            m = Man(w, size)
            lru = []

            def req(k):
                before = len(m.pools)
                p = m.request(k)
                have = [x for x in lru if x[0] == k]
                if have:
                    lru.remove(have[0])
                    lru.append(have[0])
                    w.check(p is m.pools[have[0][1]] and len(m.pools) == before, "a kept pool was not used for its key")
                else:
                    w.check(len(m.pools) == before + 1 and p is m.pools[before], "a request made %d pools" % (len(m.pools) - before))
                    lru.append((k, before))
                    del lru[:max(0, len(lru) - n)]
                m.judge(dict(lru))
                c = p.get_conn()
                w.check(c.addr == KEYS[k], "the connection goes to another address")
                p.put_conn(c)
            ks = list(range(n))
            for k in ks:
                req(k)
            for k in [[], ks[:1], ks[-1:], ks[1::2], ks, ks[::-1]][order]:
                req(k)
            for k in range(n, min(n + more, len(KEYS))):
                req(k)
            for r in range(3):
                for k in range(min(n + more, len(KEYS))):
                    req(k)
            m.capacity(dict(lru))
            m.man.clear()
            m.judge({})
        w.thread(run, "user")
        w.run()
        w.note(size, order, more)
    return scenario(name, body, 0, "more keys than pools, sizes 4, 9 and the default", horizon=100000)


LEAVE = [("return", None), ("error", lambda X: Boom("body")), ("interrupt", lambda X: KeyboardInterrupt()), ("exit", lambda X: SystemExit(3)),
         ("generator-exit", lambda X: GeneratorExit()), ("base", lambda X: BaseException()), ("name", lambda X: NameError("n")),
         ("attribute", lambda X: AttributeError("a")), ("unbound", lambda X: UnboundLocalError("u")), ("key", lambda X: KeyError("k")),
         ("empty", lambda X: X.EmptyPoolError(None, "body")), ("closed", lambda X: X.ClosedPoolError(None, "body")),
         ("os", lambda X: ConnectionResetError(104, "reset")), ("timeout", lambda X: TimeoutError()), ("eof", lambda X: EOFError()),
         ("value", lambda X: ValueError("v"))]


def leaving(name):
    """A scope left by any kind of exception, alone, inside another one, or after its pool was evicted."""
    def body(w):
        i = w.s.choose([x[0] for x in LEAVE], [0] * len(LEAVE))
        where = ["alone", "outer", "inner", "other-key", "evicted", "cleared", "manager"]
        where = where[w.s.choose(where, [0] * len(where))]
        again = w.s.choose(["1", "2", "5"], [0] * 3)

        def run():
            m = Man(w, 2)
            for _ in range((1, 2, 5)[again]):
                exc = LEAVE[i][1](m.X) if LEAVE[i][1] else None
                cm, c = m.scope(0)
                serial = c.serial
                c = None
                cm2 = None
                if where in ("outer", "inner"):
                    cm2, c = m.scope(0)
                    w.check(c.serial != serial, "one connection is lent to two scopes")
                elif where == "other-key":
                    cm2, c = m.scope(1)
                elif where == "evicted":
                    m.request(1), m.request(2)
                elif where == "cleared":
                    m.man.clear()
                elif where == "manager":
                    # the with block of the manager around the scope is left by the exception as well
                    w.check(m.man.__enter__() is m.man, "the manager is not what its with block gets")
                c = None
                for x in ([cm2, cm] if where == "inner" else [cm, cm2]):
                    if x is not None:
                        w.check(m.end(x, exc if x is cm else None), "the end of the body (%s) did not leave its scope unchanged" % LEAVE[i][0])
                if where == "manager":
                    w.check(m.end(m.man, exc), "the end of the with block of the manager (%s) was not left unchanged" % LEAVE[i][0])
                    w.check(not m.log.open_count(0), "%d connections stay open after the with block of the manager (%s)"
                            % (m.log.open_count(0), LEAVE[i][0]))
                if where in ("evicted", "cleared", "manager"):
                    w.check(m.log.by_id[serial] == "closed", "a connection returned to a closed pool stays open")
                x = cm = cm2 = exc = None
            kept = dict((KEYS.index((p.key_.host, p.key_.port)), p.index) for p in m.pools if not m.closed.get(p.index))
            m.judge(kept)
            m.capacity(kept)
        w.thread(run, "user")
        w.run()
        w.note(LEAVE[i][0], where, again)
    return scenario(name, body, 0, "scopes left by exceptions of %d kinds" % len(LEAVE), horizon=20000)


# -- threads

def explain(hist, max_pools, start, final):
    """Is there an order of the requests that explains which pools they got?  final: {key: index}, closed set."""
    seen = set()

    def go(done, lru, known, closed):
        st = (done, lru)
        if st in seen:
            return False
        seen.add(st)
        if len(done) == len(hist):
            return dict(lru) == final
        first = min(h["end"] for i, h in enumerate(hist) if i not in done)
        for i, h in enumerate(hist):
            if i in done or h["begin"] > first:
                continue
            l = list(lru)
            if h["key"] is None:
                l = []
            else:
                d = dict(l)
                if h["key"] in d:
                    if d[h["key"]] != h["pool"]:
                        continue
                    l = [x for x in l if x[0] != h["key"]]
                elif h["pool"] in known:
                    continue
                l.append((h["key"], h["pool"]))
                l = l[max(0, len(l) - max_pools):]
            if go(done | frozenset([i]), tuple(l), known | frozenset([h["pool"]]), closed):
                return True
        return False
    return go(frozenset(), tuple(start), frozenset(ix for _, ix in start), None)


def threads(progs, max_pools, start, bound, name):
    """Programs: words pK (request), sK (scope), xK (scope whose body raises), C (clear)."""
    def body(w):
        st = {"clock": 0}
        hist = []

        def main():
            def prep():
                m = st["m"] = Man(w, max_pools)
                lru = []
                for k in start:
                    m.request(k)
                    lru.append((k, m.pools[-1].index))
                st["start"] = lru
            w.setup(prep)
            m = st["m"]

            def run(prog):
                for o in prog:
                    h = dict(key=None if o == "C" else int(o[1]), pool=None)
                    st["clock"] += 1
                    h["begin"] = st["clock"]
                    if o == "C":
                        m.man.clear()
                    elif o[0] == "p":
                        h["pool"] = m.request(h["key"]).index
                    else:
                        try:
                            cm, c = m.scope(h["key"])
                        except m.X.ClosedPoolError as e:
                            h["pool"] = e.pool.index
                            strip(e)
                            h["refused"] = True
                        else:
                            h["conn"] = c.serial
                            c = None
                            w.check(m.end(cm, Boom("body") if o[0] == "x" else None), "the exception of the body did not leave its scope")
                            cm = None
                    st["clock"] += 1
                    h["end"] = st["clock"]
                    if h["key"] is None or h["pool"] is not None:
                        hist.append(h)
            for k, p in enumerate(progs):
                w.thread(lambda p=p: run(p.split()), "u%d" % k, trace=True)
        w.thread(main, "main", trace=False)
        w.run()
        m = st["m"]
        w.check(all(t.done for t in w.s.threads), "a thread never ended: %r" % w.s.threads)

        def after():
            kept = {}
            for p in m.pools:
                if not m.closed.get(p.index):
                    k = KEYS.index((p.key_.host, p.key_.port))
                    w.check(k not in kept, "two open pools for one key")
                    kept[k] = p.index
            w.note(sorted((h["key"] or -1, h["pool"] or -1) for h in hist), sorted(kept.items()))
            w.check(len(kept) <= max_pools, "%d open pools, at most %d are kept" % (len(kept), max_pools))
            m.judge(kept)
            for h in hist:
                w.check(not h.get("refused") or m.closed.get(h["pool"]), "an open pool refused to lend")
            if not any(w_ in p for p in progs for w_ in "sx"):
                w.check(explain(hist, max_pools, st["start"], kept), lambda:
                        "no order of the requests explains the pools they got: %r, kept %r" % (hist, kept))
            m.capacity(kept)
            # the manager really keeps exactly these
            for k, ix in sorted(kept.items()):
                p = m.request(k)
                w.check(p.index == ix, "an open pool is not the one the manager keeps for its key")
            p = None
            m.man.clear()
            m.judge({})
            m.capacity({})
        w.s.over, w.s.reason = False, None
        w.thread(after, "after", trace=False)
        w.run()
    return scenario(name, body, bound, "threads running %s, at most %d pools, holding %s" % (progs, max_pools, start), horizon=60000)


def scenarios(tier):
    t = tier == "thorough"
    return [
        histories(6 if t else 5, 1, "one-pool", 2, extra=t),
        histories(6 if t else 5, 2, "two-pools", 3, extra=False),
        histories(5 if t else 4, 3, "three-pools", 4),
        histories(4 if t else 3, None, "default", 4),
        histories(4 if t else 3, 2, "cycles", 3, True, 30),
        full("full"), leaving("leaving"),
        threads(["p0", "p0"], 2, [], 3 if t else 2, "same-key"),
        threads(["p0 p1", "p1 p0"], 2, [], 3 if t else 2, "two-keys"),
        threads(["p0 p1", "p2 p0"], 1, [0], 2 if t else 1, "evicting"),
        threads(["p0 p0", "C"], 2, [0], 3 if t else 2, "clearing"),
        threads(["C", "C", "p0"], 2, [0, 1], 2 if t else 1, "two-clears"),
        threads(["s0", "s0"], 1, [], 3 if t else 2, "scopes"),
        threads(["s0", "x1"], 1, [0], 2 if t else 1, "scopes-evicting"),
        threads(["x0", "C"], 1, [0], 2, "scopes-clearing"),
        threads(["s0 x0", "s0", "p1"], 1, [], 1, "three"),
    ]
