"""C20: span ids form a tree: children and followers get fresh ids under their parent."""
import itertools

from mc.world import *          # noqa

TAGS = [None, {}, {"k": "v"}, {"operation_": 1, "ab": "cd", "x": None}]


def forms():
    """Every way to start a span: name -> fn(tracer module, span, kind, tags)."""
    from opentracing import Reference, ReferenceType
    import opentracing
    import mytracer
    T = mytracer.MyTracer
    CH, FO = ReferenceType.CHILD_OF, ReferenceType.FOLLOWS_FROM
    return {
        "child": [
            ("start_span(child_of=span)", lambda s, tags: T().start_span("op", child_of=s, tags=tags)),
            ("start_span(child_of=ctx)", lambda s, tags: T().start_span("op", child_of=s.context, tags=tags)),
            ("start_span(references=ref)", lambda s, tags: T().start_span("op", references=Reference(CH, s.context), tags=tags)),
            ("start_span(references=[ref])", lambda s, tags: T().start_span("op", references=[opentracing.child_of(s.context)], tags=tags)),
            ("child_span_of", lambda s, tags: mytracer.child_span_of(s, "op", **(tags or {}))),
            ("child_span_of(no name)", lambda s, tags: mytracer.child_span_of(s, **(tags or {}))),
            ("start_span(references=[ref, other])", lambda s, tags: T().start_span("op", references=[
                opentracing.child_of(s.context), opentracing.follows_from(mytracer.new_span("x").context)], tags=tags)),
            ("start_time", lambda s, tags: T().start_span("op", child_of=s, tags=tags, start_time=12.5)),
        ],
        "follow": [
            ("start_span(references=ref)", lambda s, tags: T().start_span("op", references=Reference(FO, s.context), tags=tags)),
            ("start_span(references=[ref])", lambda s, tags: T().start_span("op", references=[opentracing.follows_from(s.context)], tags=tags)),
            ("start_span(references=[ref, other])", lambda s, tags: T().start_span("op", references=[
                opentracing.follows_from(s.context), opentracing.child_of(mytracer.new_span("x").context)], tags=tags)),
            ("start_span(references=(ref,))", lambda s, tags: T().start_span("op", references=(Reference(FO, s.context),), tags=tags)),
            ("follows_span_from", lambda s, tags: mytracer.follows_span_from(s, "op", **(tags or {}))),
            ("follows_span_from(no name)", lambda s, tags: mytracer.follows_span_from(s, **(tags or {}))),
        ]}


ROOTS = [("fresh", {}), ("baggage", {"sofaTraceId": "t", "sofaRpcId": "1", "penAttrs": "a=b"}), ("zero", {"sofaRpcId": "0", "sofaTraceId": "t"}),
         ("deep", {"sofaRpcId": "0.1.12", "sofaTraceId": "t", "k": ""}), ("mixed", {"sofaRpcId": "a.1", "sofaTraceId": "t"}),
         ("nine", {"sofaRpcId": "1.9", "sofaTraceId": "t"})]


def root(kind):
    import mytracer
    d = dict(ROOTS)[kind]
    if kind == "fresh":
        return mytracer.new_span("root")
    import opentracing
    ctx = mytracer.tracer.extract(opentracing.Format.TEXT_MAP, dict(("rpc_trace_context." + k, v) for k, v in d.items()))

    # the context of the caller: a span of another process
    sp = mytracer.MySpan(mytracer.tracer, ctx)
    sp.set_operation_name("remote")
    return sp


def rid(span):
    return str(span.context.baggage["sofaRpcId"])


def rest(span):
    return dict((k, str(v)) for k, v in span.context.baggage.items() if k != "sofaRpcId")


def relation(kind, src, new):
    """The rpc id of the new span (text) relates to the one of its source."""
    a, b = src.split("."), new.split(".")
    if not b[-1].isdigit():
        return "its last segment is no number"
    if kind == "child":
        if len(b) != len(a) + 1 or b[:-1] != a or int(b[-1]) < 1:
            return "it does not extend the id of its parent by one segment"
    else:
        if len(b) != len(a) or b[:-1] != a[:-1]:
            return "it is no sibling of the id it follows"
        if int(b[-1]) <= int(a[-1]):
            return "it is not larger than the id it follows"
    return None


def step(spans, kind, i, form, tags, trace):
    before = [(rid(s), rest(s)) for s in spans]
    op = "%s of %s through %s, tags %r" % (kind, before[i][0], form[0], tags)
    trace.append(op)
    n = form[1](spans[i], dict(tags) if tags is not None else None)
    got = rid(n)
    e = relation(kind, before[i][0], got)
    if e:
        return "%s: got the id %s: %s (after %s)" % (op, got, e, trace[:-1])
    if rest(n) != before[i][1]:
        return "%s: its trace id and baggage are %r instead of %r" % (op, rest(n), before[i][1])
    for s, b in zip(spans, before):
        if (rid(s), rest(s)) != b:
            return "%s changed another span from %r to %r" % (op, b, (rid(s), rest(s)))
    if got in [b[0] for b in before]:
        return "%s: got the id %s, which another span of the trace has already (after %s)" % (op, got, trace[:-1])
    spans.append(n)
    return None


def histories(depth, name, roots, allforms=False):
    """All sequences of derivations from all spans that exist."""
    def inner(kind, first, second):
        F = forms()
        n = 0

        def go(prefix, left):
            for o in range(2 * (len(prefix) + 1)):
                p = prefix + [o]
                if left > 1:
                    for x in go(p, left - 1):
                        yield x
                else:
                    yield p
        for seq in go([first, second], depth - 2):
            n += 1
            spans, trace = [root(kind)], []
            for o in seq:
                k = ("child", "follow")[o % 2]
                e = step(spans, k, o // 2, F[k][0], None, trace)
                if e:
                    return n, "root %s: %s" % (kind, e), None
        return n, None, None
    return enumeration(name, [("root", roots), ("first", [0, 1]), ("second", [0, 1, 2, 3])], inner,
                       "all sequences of %d derivations over all spans so far" % depth)


PATTERNS = ["c", "f", "cf", "ccf", "cffc", "ccccf", "fffffc"]


def deep(name, n):
    """Long chains of derivations, each from the newest span; at every level also a sibling is derived."""
    def inner(kind, pat, sib):
        import collections
        F = forms()
        spans, count = [root(kind)], 0
        base = rest(spans[0])
        ids = collections.Counter([rid(spans[0])])
        cur = spans[0]
        for i in range(n):
            for k in [("child", "follow")[pat[i % len(pat)] == "f"]] + (["child"] if sib else []):
                a = rid(cur)
                s = F[k][0][1](cur, None)
                count += 1
                e = relation(k, a, rid(s))
                if e:
                    return count, "root %s, %s * %d: %s of %s got %s: %s" % (kind, pat, i, k, a, rid(s), e), None
                if rid(cur) != a or rest(s) != base:
                    return count, "root %s, %s * %d: %s changed %s or its baggage" % (kind, pat, i, k, a), None
                ids[rid(s)] += 1
                if ids[rid(s)] > 1:
                    return count, "root %s, %s * %d: %s of %s got %s, which another span has" % (kind, pat, i, k, a, rid(s)), None
                spans.append(s)
            cur = spans[-1 - int(sib)]
        return count, None, None
    return enumeration(name, [("root", ["fresh", "deep", "nine"]), ("pattern", PATTERNS), ("siblings", [False, True])], inner,
                       "chains of %d derivations" % n)


def wide(name, n):
    """Many children and followers of one span, through many alternations."""
    def inner(kind, pat):
        F = forms()
        r = root(kind)
        src = F["child"][0][1](r, None)
        ids, last = set([rid(r), rid(src)]), {}
        for i in range(n):
            k = ("child", "follow")[pat[i % len(pat)] == "f"]
            a = rid(src)
            s = F[k][0][1](src, None)
            e = relation(k, a, rid(s))
            if e or rid(src) != a or rest(s) != rest(r):
                return i + 1, "root %s, derivation %d (%s) of %s got %s: %s" % (kind, i, k, a, rid(s), e or "baggage or source changed"), None
            if rid(s) in ids:
                return i + 1, "root %s, derivation %d (%s) of %s got %s, which another span has" % (kind, i, k, a, rid(s)), None
            ids.add(rid(s))
        return n, None, None
    return enumeration(name, [("root", ["fresh", "deep", "nine"]), ("pattern", PATTERNS)], inner, "%d derivations from one span" % n)


def all_forms(name, depth):
    def inner(kind, k1, f1, tags1):
        F = forms()
        n = 0
        ops = [(k, f) for k in ("child", "follow") for f in F[k]]
        if f1 >= len(F[k1]):
            return 0, None, None
        for rest_ in itertools.product(range(len(ops)), repeat=depth - 1):
            for src in itertools.product(range(2), repeat=depth - 1):
                n += 1
                spans, trace = [root(kind)], []
                e = step(spans, k1, 0, F[k1][f1], tags1, trace)
                for o, i in zip(rest_, src):
                    if e:
                        break
                    k, f = ops[o]
                    e = step(spans, k, i % len(spans), f, TAGS[o % len(TAGS)], trace)
                if e:
                    return n, "root %s: %s" % (kind, e), None
        return n, None, None
    return enumeration(name, [("root", [r for r, _ in ROOTS]), ("kind", ["child", "follow"]), ("form", list(range(8))), ("tags", TAGS)],
                       inner, "all ways to start a span, with and without tags, sequences of %d" % depth)


def fresh(name):
    """Spans without a reference are roots of traces of their own."""
    def inner(n, tags):
        import mytracer
        ss = []
        for i in range(n):
            s = mytracer.new_span("op%d" % i, **(tags or {})) if i % 2 else mytracer.tracer.start_span("op%d" % i, tags=tags, references=[] if i else None)
            if "." in rid(s):
                return 1, "a root span has the id %s" % rid(s), None
            if s.operation_name != "op%d" % i:
                return 1, "the operation name is %r" % s.operation_name, None
            ss.append(s)
        ts = [rest(s)["sofaTraceId"] for s in ss]
        if len(set(ts)) != n:
            return n, "root spans share a trace id: %r" % ts, None
        return n, None, None
    return enumeration(name, [("n", [1, 2, 5]), ("tags", TAGS)], inner, "root spans")


def threads(progs, bound, name, kind="fresh"):
    """Programs of c (child of the root), f (follower of the root), C/F (of this thread's newest span), x/y (of the span
    all threads share)."""
    def body(w):
        made = [[] for _ in progs]

        def main():
            r = root(kind)
            import mytracer
            shared = mytracer.child_span_of(r, "shared")
            F = forms()

            def run(k, prog):
                mine = r
                for o in prog:
                    src = {"c": r, "f": r, "x": shared, "y": shared}.get(o, mine)
                    a = rid(src)
                    kd = "child" if o in "cCx" else "follow"
                    n = F[kd][0][1](src, None)
                    e = relation(kd, a, rid(n))
                    w.check(not e, lambda: "%s of %s got the id %s: %s" % (kd, a, rid(n), e))
                    w.check(rest(n) == rest(r), lambda: "trace id and baggage changed: %r instead of %r" % (rest(n), rest(r)))
                    made[k].append(rid(n))
                    mine = n
            made.append([rid(r), rid(shared)])
            for k, p in enumerate(progs):
                w.thread(lambda k=k, p=p: run(k, p), "t%d" % k, trace=True)
        w.thread(main, "main", trace=False)
        w.run()
        w.check(all(t.done for t in w.s.threads), "a thread never ended: %r" % w.s.threads)
        ids = [i for m in made for i in m]
        w.note(made)
        w.check(len(set(ids)) == len(ids), lambda: "two spans of one trace have the same id: %r" % (made,))
    return scenario(name, body, bound, "threads deriving %s from one root (%s)" % (progs, kind))


def scenarios(tier):
    t = tier == "thorough"
    b = 3 if t else 2
    return [
        histories(7 if t else 6, "histories", ["fresh", "deep"]),
        histories(6 if t else 5, "histories-roots", [r for r, _ in ROOTS]),
        all_forms("forms", 3 if t else 2),
        fresh("roots"),
        deep("deep", 300 if t else 100),
        wide("wide", 5000 if t else 1200),
        threads(["c", "c"], b, "children"),
        threads(["f", "f"], b - 1, "followers"),
        threads(["c", "x"], b - 1, "mixed"),
        threads(["y", "c"], b - 1, "sibling"),
        threads(["y", "y"], b - 1, "siblings"),
        threads(["xy", "yx"], b - 1, "both"),
        threads(["cF", "c"], b - 1, "follow-own"),
        threads(["c", "y", "f"], b - 1, "three", "deep"),
    ]
