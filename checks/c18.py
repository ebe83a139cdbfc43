"""C18: the recently-used container is an LRU map disposing each value exactly once."""
import itertools

from mc.world import *          # noqa

KEYS = "abc"


class Model(object):
    """The reference: an LRU map.  Whether overwriting a key counts as a use of it is left open (two variants)."""

    def __init__(self, size, touch):
        self.size, self.touch = size, touch
        self.items = []            # least recently used first
        self.gone = []

    def copy(self):
        m = Model(self.size, self.touch)
        m.items, m.gone = list(self.items), list(self.gone)
        return m

    def _find(self, k):
        for i, (q, v) in enumerate(self.items):
            if q == k:
                return i
        return None

    def apply(self, op, k, v):
        i = self._find(k)
        if op == "set":
            if i is not None:
                self.gone.append(self.items[i][1])
                if self.touch:
                    del self.items[i]
                    self.items.append((k, v))
                else:
                    self.items[i] = (k, v)
            else:
                self.items.append((k, v))
                if len(self.items) > self.size:
                    self.gone.append(self.items.pop(0)[1])
            return None
        if op in ("get", "getd", "in"):
            if i is None:
                return {"get": "KeyError", "getd": "default", "in": False}[op]
            it = self.items.pop(i)
            self.items.append(it)
            return True if op == "in" else it[1]
        if op == "setdefault":
            if i is None:
                self.apply("set", k, v)
                return v
            return self.apply("get", k, v)
        if op in ("del", "pop"):
            if i is None:
                return "KeyError"
            x = self.items.pop(i)[1]
            self.gone.append(x)
            return None if op == "del" else x
        if op == "clear":
            self.gone.extend(x for _, x in self.items)
            self.items = []
            return None
        if op == "len":
            return len(self.items)
        if op == "keys":
            return tuple(sorted(q for q, _ in self.items))
        raise AssertionError(op)


def apply(c, op, k, v):
    if op == "set":
        c[k] = v
        return None
    if op == "get":
        try:
            return c[k]
        except KeyError:
            return "KeyError"
    if op == "getd":
        return c.get(k, "default")
    if op == "in":
        return k in c
    if op == "setdefault":
        return c.setdefault(k, v)
    if op == "del":
        try:
            del c[k]
        except KeyError:
            return "KeyError"
        return None
    if op == "pop":
        try:
            return c.pop(k)
        except KeyError:
            return "KeyError"
    if op == "clear":
        return c.clear()
    if op == "len":
        return len(c)
    if op == "keys":
        return tuple(sorted(c.keys()))
    raise AssertionError(op)


OPS = [("set", "a"), ("set", "b"), ("set", "c"), ("get", "a"), ("get", "b"), ("getd", "c"), ("in", "a"),
       ("setdefault", "b"), ("del", "a"), ("del", "b"), ("pop", "c"), ("clear", None)]


def sequence(size, seq, falsy):
    from mysockpool.recently_used_container import RecentlyUsedContainer
    gone = []
    c = RecentlyUsedContainer(size, dispose_func=gone.append)
    models = [Model(size, True), Model(size, False)]
    for n, (op, k) in enumerate(seq):
        v = (None, 0, "")[n % 3] if falsy else "v%d" % n
        r = apply(c, op, k, v)
        alive = []
        want = None
        for m in models:
            want = m.apply(op, k, v)
            if r == want and type(r) == type(want) and sorted(map(repr, gone)) == sorted(map(repr, m.gone)) \
                    and len(c) == len(m.items) and sorted(c.keys()) == sorted(q for q, _ in m.items):
                alive.append(m)
        if not alive:
            m = models[0]
            return ("size %d, %s: the last operation returned %r, disposed so far %r, keys %r; the LRU map: %r, %r, %r"
                    % (size, seq[:n + 1], r, gone, sorted(c.keys()), want, m.gone, sorted(q for q, _ in m.items)))
        models = alive
    # drain: what is inside leaves through clear, once
    c.clear()
    models[0].apply("clear", None, None)
    if sorted(map(repr, gone)) != sorted(map(repr, models[0].gone)) or len(c):
        return "size %d, %s, then clear: disposed %r, expected %r" % (size, seq, gone, models[0].gone)
    return None


CORE = [o for o in OPS if o not in (("get", "b"), ("getd", "c"), ("in", "a"), ("del", "b"), ("setdefault", "b"))]


def sequences(depth, name, falsy=False, ops=OPS):
    def inner(size, o1, o2):
        n = 0
        for rest in itertools.product(ops, repeat=depth - 2):
            n += 1
            e = sequence(size, (o1, o2) + rest, falsy)
            if e:
                return n, e, None
        return n, None, None
    return enumeration(name, [("size", [0, 1, 2, 3]), ("op", ops), ("op", ops)], inner,
                       "all sequences of %d operations out of %d, sizes 0 to 3%s" % (depth, len(ops), ", falsy values" if falsy else ""))


def fillings(name, big):
    """Larger sizes: fill, touch each subset, overfill."""
    def inner(size, touched):
        from mysockpool.recently_used_container import RecentlyUsedContainer
        n = 0
        for extra in range(0, size + 2):
            n += 1
            gone = []
            c = RecentlyUsedContainer(size, gone.append) if size != 10 else RecentlyUsedContainer(dispose_func=gone.append)
            m = Model(size, True)
            seq = [("set", "k%d" % i) for i in range(size)] + \
                  [("get", "k%d" % i) for i in range(size) if touched >> (i % 8) & 1] + [("set", "n%d" % i) for i in range(extra)]
            for j, (op, k) in enumerate(seq):
                r, w = apply(c, op, k, j), m.apply(op, k, j)
                if r != w or gone != m.gone:
                    return n, "size %d, %s: %r, disposed %r; the LRU map: %r, %r" % (size, seq[:j + 1], r, gone, w, m.gone), None
        return n, None, None
    return enumeration(name, [("size", [4, 5, 10]), ("touched", list(range(256)))], inner,
                       "fill, look up a subset, insert more; sizes 4, 5 and the default 10")


def marathon(name, sizes, length, period=3):
    """Every short pattern of operations, repeated for long, the keys running through more values than fit."""
    ops = ["set", "get", "getd", "in", "setdefault", "del", "pop"]

    def inner(size, o1):
        from mysockpool.recently_used_container import RecentlyUsedContainer
        n = 0
        for rest in itertools.product(ops, repeat=period - 1):
            pat = (o1,) + rest
            for nkeys, stride in ((size + 1, 1), (size + 2, size), (2 * size + 3, 1)):
                n += 1
                gone = []
                c = RecentlyUsedContainer(size, gone.append)
                ms = [Model(size, True), Model(size, False)]
                for j in range(length):
                    op, k, v = pat[j % period], "k%d" % (j // 2 * stride % nkeys), j
                    r = apply(c, op, k, v)
                    ms = [m for m in ms if m.apply(op, k, v) == r and gone == m.gone]
                    if not ms:
                        return n, "size %d, %s repeated over %d keys: operation %d, %s(%r), returned %r, disposed lately %r; " \
                                  "the LRU map disagrees" % (size, pat, nkeys, j, op, k, r, gone[-3:]), None
                if not any(sorted(c.keys()) == sorted(q for q, _ in m.items) for m in ms):
                    return n, "size %d, %s repeated: the keys are %r" % (size, pat, sorted(c.keys())), None
        return n, None, None
    return enumeration(name, [("size", list(sizes)), ("op", ops)], inner, "every pattern of %d operations, repeated for %d operations"
                       % (period, length))


def nodispose(name):
    def inner(size):
        from mysockpool.recently_used_container import RecentlyUsedContainer
        n = 0
        for seq in itertools.product(OPS, repeat=3):
            n += 1
            c, m = RecentlyUsedContainer(size), Model(size, True)
            for i, (op, k) in enumerate(seq):
                r, w = apply(c, op, k, i), m.apply(op, k, i)
                if r != w:
                    return n, "size %d without dispose_func, %s: %r, expected %r" % (size, seq[:i + 1], r, w), None
        return n, None, None
    return enumeration(name, [("size", [0, 1, 2, 3])], inner, "without a dispose function, all sequences of 3 operations")


def reentrant(name):
    """A dispose function that uses the container itself (looks at it, inserts into it)."""
    def inner(size, o1, o2):
        from mysockpool.recently_used_container import RecentlyUsedContainer
        n = 0
        for rest in itertools.product(OPS, repeat=2):
            n += 1
            gone = []

            def dispose(v):
                inside = [q for q in c.keys()]
                if len(inside) > size:
                    raise Fail("%d values inside while a value is disposed, the size is %d" % (len(inside), size))
                gone.append(v)
            c = RecentlyUsedContainer(size, dispose)
            put = 0
            for i, (op, k) in enumerate((o1, o2) + rest):
                try:
                    apply(c, op, k, i)
                except Fail as e:
                    return n, str(e), None
            c.clear()
            if len(set(gone)) != len(gone):
                return n, "disposed twice: %r in %r" % (gone, (o1, o2) + rest), None
        return n, None, None
    return enumeration(name, [("size", [0, 1, 2]), ("op", OPS), ("op", OPS)], inner, "a dispose function that looks at the container")


# -- threads

def linearizable(hist, size, start, final):
    """hist: [(thread, begin, end, op, key, value, result)]; final: (keys, disposed)"""
    for touch in (True, False):
        m = Model(size, touch)
        for op, k, v in start:
            m.apply(op, k, v)
        seen = set()

        def go(done, m):
            st = (done, tuple(m.items), tuple(sorted(m.gone)))
            if st in seen:
                return False
            seen.add(st)
            if len(done) == len(hist):
                return (sorted(q for q, _ in m.items), sorted(m.gone)) == final
            first = min(h[2] for i, h in enumerate(hist) if i not in done)
            for i, h in enumerate(hist):
                if i in done or h[1] > first:
                    continue
                m2 = m.copy()
                if m2.apply(h[3], h[4], h[5]) == h[6] and go(done | frozenset([i]), m2):
                    return True
            return False
        if go(frozenset(), m):
            return True
    return False


def threads(size, start, progs, bound, name):
    def body(w):
        from mysockpool.recently_used_container import RecentlyUsedContainer
        gone, hist, clock = [], [], [0]
        c = RecentlyUsedContainer(size, dispose_func=gone.append)
        start_ = [(op, k, "s%d" % i) for i, (op, k) in enumerate(start)]

        def main():
            for op, k, v in start_:
                apply(c, op, k, v)

            def run(t, prog):
                for i, (op, k) in enumerate(prog):
                    v = "t%d.%d" % (t, i)
                    clock[0] += 1
                    b = clock[0]
                    r = apply(c, op, k, v)
                    clock[0] += 1
                    hist.append((t, b, clock[0], op, k, v, r))
            for t, prog in enumerate(progs):
                w.thread(lambda t=t, prog=prog: run(t, prog), "t%d" % t, trace=True)
        w.thread(main, "main", trace=False)
        w.run()
        w.check(all(t.done for t in w.s.threads), "a thread never ended: %r" % w.s.threads)
        keys = sorted(c.keys())
        w.note([h[3:] for h in sorted(hist)], keys, sorted(gone))
        w.check(len(set(gone)) == len(gone), lambda: "a value was disposed twice: %r" % (gone,))
        w.check(len(keys) <= size, lambda: "%d values inside, the size is %d" % (len(keys), size))
        w.check(linearizable(hist, size, start_, (keys, sorted(gone))), lambda:
                "no order of the operations explains their results: %r, keys %r, disposed %r"
                % ([h[3:] for h in sorted(hist)], keys, sorted(gone)))
    return scenario(name, body, bound, "threads %s on a container of size %d holding %s" % (progs, size, start))


def scenarios(tier):
    t = tier == "thorough"
    b = 4 if t else 2

    def P(*ss):
        names = dict(s="set", g="get", d="del", x="getd", l="len", q="setdefault", i="in", p="pop")
        return [[("clear", None) if s == "C" else ("keys", None) if s == "K" else ("len", None) if s == "L" else (names[s[0]], s[1])
                 for s in p.split()] for p in ss]
    scs = [
        sequences(5 if t else 4, "sequences"), sequences(7 if t else 5, "sequences-core", ops=CORE),
        sequences(5 if t else 4, "sequences-falsy", True),
        fillings("fillings", t), marathon("marathon", (1, 3, 10, 40) if t else (1, 4, 10), 300 if t else 120), nodispose("nodispose"), reentrant("reentrant"),
    ]
    for name, size, start, progs in [
            ("set-set", 2, "", ("sa sb", "sc sa")), ("same-key", 2, "sa", ("sa", "sa ga")), ("set-get", 2, "sa sb", ("sc", "ga", )),
            ("set-del", 2, "sa sb", ("sc sa", "da db")), ("del-del", 3, "sa sb", ("da", "da db")), ("set-clear", 2, "sa sb", ("sc sa", "C L")),
            ("clear-clear", 3, "sa sb", ("C", "C sa")), ("get-del", 3, "sa sb", ("ga xb", "da db")), ("set-keys", 1, "sa", ("sb sc", "K L")),
            ("get-clear", 2, "sa sb", ("ga gb", "C sa")), ("get-overwrite", 2, "sa sb", ("ga", "sa gb sc")), ("default-get", 2, "sa sb", ("xa", "sa gb sc")),
            ("default-default", 2, "", ("qa ga", "qa")), ("default-set", 2, "sb", ("qa", "sa")), ("default-del", 2, "sa", ("qa", "da")),
            ("pop-pop", 2, "sa sb", ("pa", "pa sc")), ("pop-set", 2, "sa sb", ("pa", "sa")), ("pop-set-full", 2, "sa sb", ("pa", "sc ga")),
            ("zero", 0, "", ("sa sb", "sa L")), ("one", 1, "sa", ("sb", "sc", "ga"))]:
        scs.append(threads(size, P(start)[0], P(*progs), b if len(progs) == 2 or not t else b - 1, name))
    scs.append(threads(2, P("sa")[0], P("sb", "ga sc", "da L"), 3 if t else 2, "three"))
    return scs
