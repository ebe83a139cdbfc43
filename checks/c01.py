"""C01: Bolt frames encode to the documented layout and decode to what was encoded."""
import itertools

from mc.world import enumeration
from mc import refcodec as R

STR = ["", "k", "v\x00w", "\u4e2d\u6587", "\U0001f389", "\u00e9", " ", "com.alipay.test.Sample:1.0", "x" * 127, "y" * 128, "z" * 255, "z" * 256,
       "\u20ac" * 86, "a=b&c"]
MAPS = [(), (("service", "com.alipay.test:1.0"),), (("a", ""), ("", "b")), (("\u4e2d", "\U0001f389"), ("k", "\x00")),
        tuple(("k%d" % i, "v" * i) for i in range(40)), (("k", "x" * (65535 - 9)),), (("k", "x" * (65535 - 10)),),
        (("k", "x" * 32768),), (("k", "x" * 247),)]
IDS = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x01020304, 0x7ffffffe, 0x7fffffff]
NEGIDS = [-1, -0x80000000]
TIMEOUTS = [-1, 1, 0, 127, 128, 255, 256, 65536, 0x01020304, 0x7fffffff, -0x80000000]
CONTENTS = [b"", b"\x00", b"a", b"\xff\x00\x7f\x80", bytes(range(256)), b"c" * 255, b"c" * 65535, b"c" * 65536, b"c" * 65537]
PTYPES, CMDS, CODECS = [0, 1, 2], [0, 1, 2], [1, 2, 11]
STATUSES = sorted(R.STATUS.values())


def P():
    import anthunder.protocol as p
    return p


def kinds():
    from anthunder.protocol import BoltRequest, BoltResponse
    from anthunder.command.heartbeat import HeartbeatRequest, HeartbeatResponse
    from anthunder.command.fail_response import FailResponse
    return dict(req=(BoltRequest, "req", R.REQ_CLASS), resp=(BoltResponse, "resp", R.RESP_CLASS),
                hbreq=(HeartbeatRequest, "req", None), hbresp=(HeartbeatResponse, "resp", None),
                fail=(FailResponse, "resp", None))


def same_frame(f, b, hdr, cls, want):
    """Judge the bytes b against the fields they were built from, with the independent parser."""
    r = R.parse_one(b, f)
    if r is None or r[1]:
        return "the length fields do not match the %d bytes that follow them" % len(b)
    fr = r[0]
    for k, v in want.items():
        if getattr(fr, k) != v:
            return "the frame carries %s=%r instead of %r" % (k, getattr(fr, k), v)
    if fr.proto != 1 or fr.ver2 != 1:
        return "the frame carries proto=%r ver2=%r" % (fr.proto, fr.ver2)
    if cls is not None and fr.cls != cls:
        return "the frame carries the class name %r" % (fr.cls,)
    try:
        got = R.dec_map(fr.hbytes)
    except R.Bad as e:
        return "the header block is malformed: %s" % e
    if sorted(got) != sorted(hdr):
        return "the frame carries the headers %r instead of %r" % (str(got)[:200], str(hdr)[:200])
    return None


def decoded(C, b, hdr, want, twosteps=False):
    if twosteps:
        n = C.bolt_header_size()
        bh = C.bolt_header_from_stream(b[:n])
        p = C.bolt_content_from_stream(b[n:], bh)
    else:
        p = C.from_stream(b)
    names = dict(rid="request_id", status="respstatus")
    for k, v in want.items():
        g = getattr(p, names.get(k, k))
        if g != v:
            return "decoding gives %s=%r instead of %r" % (k, g, v)
    if dict(p.header) != dict(hdr):
        return "decoding gives the headers %r instead of %r" % (str(dict(p.header))[:200], str(dict(hdr))[:200])
    if p.proto != 1 or p.ver2 != 1:
        return "decoding gives proto=%r ver2=%r" % (p.proto, p.ver2)
    if not isinstance(p.content, bytes):
        return "decoding gives a content of type %s" % type(p.content).__name__
    again = p.to_stream()
    if again != b:
        return "encoding the decoded package gives other bytes"
    return None


def one(kind, hdr, content, rid, ptype, cmd, codec, x):
    """x: the timeout of a request, the status of a response.  The class name of heartbeats and failures is left open."""
    from anthunder.protocol import SofaHeader
    C, f, cls = kinds()[kind]
    kw = dict(ptype=ptype, cmdcode=cmd, request_id=rid, codec=codec)
    want = dict(ptype=ptype, cmdcode=cmd, rid=rid, codec=codec, content=content)
    if f == "req":
        kw["timeout"] = want["timeout"] = x
    else:
        kw["respstatus"] = want["status"] = x
    p = C(SofaHeader(hdr), content, **kw)
    b = p.to_stream()
    if not isinstance(b, bytes):
        return "encoded to %s" % type(b).__name__
    e = same_frame(f, b, hdr, cls, want)
    if not e and p.to_stream() != b:
        e = "encoding twice gives different bytes"
    e = e or decoded(C, b, hdr, want) or decoded(C, b, hdr, want, True)
    if not e and (p.body_len != len(b) - C.bolt_header_size() or C.bolt_header_size() != (22 if f == "req" else 20)):
        e = "body_len %d / header size %d for a frame of %d bytes" % (p.body_len, C.bolt_header_size(), len(b))
    if e:
        return "%s %r header=%s content=%s: %s" % (kind, kw, str(hdr)[:80], content[:20], e)
    return None


def fields(name, kind, hdrs, contents, ids):
    def inner(hdr, content):
        n = 0
        big = len(content) > 1000 or sum(len(k) + len(v) for k, v in hdr) > 1000
        vals = TIMEOUTS if kinds()[kind][1] == "req" else STATUSES
        few = len(content) > 1 << 21
        for ptype, cmd, codec in itertools.product(PTYPES, CMDS, CODECS):
            for i, rid in enumerate(ids):
                for j, x in enumerate(vals):
                    if few and n:
                        continue
                    if big and (i + j + ptype + cmd + codec) % 5:
                        continue
                    n += 1
                    e = one(kind, hdr, content, rid, ptype, cmd, codec, x)
                    if e:
                        return n, e, None
        return n, None, None
    return enumeration(name, [("header", hdrs), ("content", contents)], inner,
                       "all combinations of the field alphabets of a %s" % kind)


def maps(name, width):
    def inner(k1, v1):
        from anthunder.protocol import SofaHeader
        n = 0
        rest = [()] + [((k, v),) for k in STR for v in STR]
        if width > 2:
            rest += [((k, v), (k2, v2)) for k in STR[:6] for v in STR[:6] for k2 in STR[:6] for v2 in STR[:6]]
        for r in rest:
            pairs = dict(((k1, v1),) + r)
            n += 1
            b = SofaHeader(pairs).to_bytes()
            if sorted(R.dec_map(b)) != sorted(pairs.items()):
                return n, "the map %r is encoded as %r" % (pairs, b), None
            if len(b) != sum(8 + len(k.encode("utf-8")) + len(v.encode("utf-8")) for k, v in pairs.items()):
                return n, "the map %r is encoded in %d bytes" % (pairs, len(b)), None
            if dict(SofaHeader.from_bytes(b)) != pairs:
                return n, "the map %r decodes to %r" % (pairs, dict(SofaHeader.from_bytes(b))), None
            rev = R.enc_map(list(pairs.items())[::-1])
            if dict(SofaHeader.from_bytes(rev)) != pairs:
                return n, "the block %r decodes to %r" % (rev, dict(SofaHeader.from_bytes(rev))), None
        return n, None, None
    return enumeration(name, [("key", STR), ("value", STR)], inner, "header maps")


ODDSTR = ["\x00", "\x00k", "k\x00", " k", "k ", "\tk", "k\n", "k\r\n", "\r\n", "\ufeff", "\ufeffk", "K", "k", "e\u0301", "\u00e9", "\u212b", "\u00c5",
          "\u2028", "\ufb01", "\u0130", "\u00df", "\uffff", "\U0010ffff", "\x7f", "\x80", "\u07ff", "\u0800", "\ud7ff", "\ue000", "None", "True", "0",
          "-1", "1.0", "null", "a,b", "a:b", "a=b", "'k'", '"k"', "%6b", "\\u006b", "{}", "rpc_trace_context.", "rpc_trace_context.x", "service"]


def odd_maps(name):
    """Strings that some library or another would strip, fold, normalise, quote or convert."""
    def inner(k1, v1):
        from anthunder.protocol import SofaHeader, BoltRequest
        n = 0
        for k2 in ODDSTR + ["zz"]:
            for v2 in (ODDSTR if k2 == "zz" else ODDSTR[:4]):
                pairs = {k1: v1}
                pairs[k2] = v2
                n += 1
                b = SofaHeader(pairs).to_bytes()
                if sorted(R.dec_map(b)) != sorted(pairs.items()):
                    return n, "the map %r is encoded as %r" % (pairs, b), None
                if dict(SofaHeader.from_bytes(b)) != pairs:
                    return n, "the map %r decodes to %r" % (pairs, dict(SofaHeader.from_bytes(b))), None
        f = BoltRequest(SofaHeader({k1: v1}), b"c", ptype=1, cmdcode=1, request_id=1).to_stream()
        if dict(BoltRequest.from_stream(f).header) != {k1: v1}:
            return n, "a request with the header %r decodes to %r" % ({k1: v1}, dict(BoltRequest.from_stream(f).header)), None
        return n, None, None
    return enumeration(name, [("key", ODDSTR), ("value", ODDSTR)], inner, "header maps of odd strings")


def code_points(name):
    """Every character there is, at the start and at the end of keys and values."""
    def inner(block):
        from anthunder.protocol import SofaHeader
        n = 0
        for lo in range(block, block + 0x1000, 64):
            cs = [chr(c) for c in range(lo, lo + 64) if not 0xd800 <= c < 0xe000]
            if not cs:
                continue
            pairs = dict((c + "k", c) for c in cs)
            pairs.update(("k" + c, c + "v" + c) for c in cs)
            n += len(pairs)
            b = SofaHeader(pairs).to_bytes()
            ref = R.dec_map(b)
            if len(ref) != len(pairs) or dict(ref) != pairs:
                return n, "a map with the characters from U+%04X is encoded wrongly" % lo, None
            if dict(SofaHeader.from_bytes(b)) != pairs:
                return n, "a map with the characters from U+%04X is decoded wrongly" % lo, None
        return n, None, None
    return enumeration(name, [("block", list(range(0, 0x110000, 0x1000)))], inner, "all characters in header maps")


def sizes(name, upto):
    """Maps of every number of entries, and strings of every length, around the powers of two up to what a frame holds."""
    around = sorted(set(list(range(0, 70)) + [x + d for x in (100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, upto) for d in (-1, 0, 1)] + [10000, 16383, 16384, 32750, 32767, 32768, 65500, 65519]))

    def inner(what, n):
        from anthunder.protocol import SofaHeader
        if what == "entries":
            pairs = dict(("k%d" % i, "v" * (i % 3)) for i in range(n))
        elif what == "long-key":
            pairs = {"k" * n: "v", "other": "w"}
        elif what == "long-value":
            pairs = {"k": "v" * n, "other": "w"}
        else:
            pairs = {"\u4e2d" * n: "\xe9" * n}
        b = SofaHeader(pairs).to_bytes()
        if sorted(R.dec_map(b)) != sorted(pairs.items()):
            return 1, "the map of size %d (%s) is encoded as %.200r" % (n, what, b), None
        if dict(SofaHeader.from_bytes(b)) != pairs:
            return 1, "the map of size %d (%s) decodes to another one" % (n, what), None
        k = 1
        if len(b) < 65536:
            for kind in ("req", "resp"):
                e = one(kind, tuple(sorted(pairs.items())), b"c", 7, 1, 1 if kind == "req" else 2, 1, 0)
                k += 1
                if e:
                    return k, e[:1000], None
        return k, None, None
    return enumeration(name, [("what", ["entries", "long-key", "long-value", "wide"]), ("n", around)], inner,
                       "maps of up to %d entries and strings of up to %d characters" % (max(around), max(around)))


def refusals(name):
    """One field at a time that does not fit."""
    BAD = dict(
        request_id=[None, 0x80000000, -0x80000001, 0xffffffff, 1 << 32, 1 << 40, "1", b"1", 1.5],
        timeout=[0x80000000, -0x80000001, 0xffffffff, 1 << 33, "1", b"1", float("inf"), float("nan")],
        ptype=[None, 3, -1, 256, 257, 127, "x"], cmdcode=[None, 3, -1, 65536, 65537, 0x100, "x"],
        codec=[None, 0, 3, 12, 256 + 11, -245, "x"], ver2=[None, 0, 2, 257, "x"], proto=[None, 0, 2, 13, 257, "x"],
        respstatus=[0xa, 0xf, 0x13, 65536, -1, None, "x"],
        content=["text", None, 5, [1], memoryview(b"ab"), bytearray(b"ab")],
        header=[None, {}, {"a": "b"}, b"", (("k", "x" * 65536),), (("k", "x" * 65528),), (("k" * 65535, "x" * 65535),),
                tuple(("k%06d" % i, "v" * 91) for i in range(700)),
                (("k", 1),), ((1, "v"),), (("k", None),), ((None, "v"),), (("k", b"v"),), ((b"k", "v"),), (("k", "\ud800"),)])

    def inner(kind, field):
        from anthunder.protocol import SofaHeader
        C, f, _ = kinds()[kind]
        n = 0
        if field == ("respstatus" if f == "req" else "timeout"):
            return 0, None, None
        for v in BAD[field]:
            for content in (b"", b"abc"):
                kw = dict(ptype=1, cmdcode=1, request_id=7, codec=11)
                kw["timeout" if f == "req" else "respstatus"] = 0
                hdr, c = SofaHeader(a="b"), content
                if field == "content":
                    c = v
                elif field == "header":
                    hdr = v if not isinstance(v, tuple) else SofaHeader(v)
                else:
                    kw[field] = v
                n += 1
                try:
                    b = C(hdr, c, **kw).to_stream()
                except Exception:
                    continue
                r = R.parse_one(b, f)
                if field == "content" and isinstance(v, (bytearray, memoryview)) and r and not r[1] \
                        and r[0].content == bytes(v):
                    continue
                if field == "header" and isinstance(v, dict) and r and not r[1] and r[0].header == v:
                    continue
                return n, "%s with %s=%s was encoded as %r" % (kind, field, repr(v)[:60], b[:60]), None
        return n, None, None
    return enumeration(name, [("kind", ["req", "resp", "hbreq", "hbresp", "fail"]), ("field", sorted(BAD))], inner,
                       "packages with one field that does not fit the wire format")


def builders(name):
    """Requests, responses, heartbeats and failures as the library builds them."""
    def inner(hdr, content):
        from anthunder.protocol import SofaHeader
        from anthunder.protocol.constants import PTYPE, RESPSTATUS
        K = kinds()
        n = 0

        def judge(what, p, f, hd, cls, want):
            b = p.to_stream()
            e = same_frame(f, b, hd, cls, want)
            if not e:
                fr = R.parse_one(b, f)[0]
                e = (R.sane_request if f == "req" else R.sane_response)(fr)
                if not e and p.request_id != fr.rid:
                    e = "request_id %r of the package is %r on the wire" % (p.request_id, fr.rid)
            return e and "%s: %s" % (what, e)
        for pt in (None, PTYPE.REQUEST, PTYPE.ONEWAY):
            for tm, wt in [(None, -1), (-1, -1), (1, 1), (1500, 1500), (2.0, 2), (0.3, 1), (1.5, 2), (99999.25, 100000), (0x7fffffff, 0x7fffffff)]:
                kw = {} if pt is None else dict(ptype=pt)
                n += 1
                p = K["req"][0].new_request(SofaHeader(hdr), content, timeout_ms=tm, **kw)
                e = judge("new_request(ptype=%s, timeout_ms=%s)" % (pt, tm), p, "req", hdr, R.REQ_CLASS,
                          dict(ptype=1 if pt is None else int(pt), cmdcode=1, content=content, timeout=wt, codec=11))
                if e:
                    return n, e, None
        for rid in IDS:
            n += 1
            e = judge("response_to(id %d)" % rid, K["resp"][0].response_to(content, request_id=rid), "resp", (), R.RESP_CLASS,
                      dict(ptype=0, cmdcode=2, content=content, rid=rid, status=0))
            e = e or judge("HeartbeatResponse.response_to(%d)" % rid, K["hbresp"][0].response_to(rid), "resp", (), None,
                           dict(ptype=0, cmdcode=0, content=b"", rid=rid, status=0))
            for st in STATUSES:
                e = e or judge("FailResponse.response_to(%d, %d)" % (rid, st),
                               K["fail"][0].response_to(rid, RESPSTATUS(st)), "resp", (), None,
                               dict(ptype=0, cmdcode=2, rid=rid, status=st))
            if e:
                return n, e, None
        seen = set()
        for i in range(3):
            n += 1
            p = K["hbreq"][0].new_request()
            e = judge("HeartbeatRequest.new_request()", p, "req", (), None, dict(ptype=1, cmdcode=0, content=b""))
            if e:
                return n, e, None
            seen.add(p.request_id)
        if len(seen) != 3:
            return n, "heartbeat requests share ids", None
        return n, None, None
    return enumeration(name, [("header", MAPS), ("content", CONTENTS)], inner, "packages built by the library")


def built_header(name):
    """build_header: the documented entries for a target service, plus what the caller adds."""
    def inner(iface, method, app):
        import mytracer
        from anthunder.protocol import SofaHeader
        n = 0
        for uid in ("", "u1", "\u4e2d"):
            for extra in ({}, {"x": "y"}, {"a.b": "", "\u4e2d": "\u6587"}):
                n += 1
                h = SofaHeader.build_header(mytracer.SpanContext(), iface, method, target_app=app, uid=uid, **extra)
                b = h.to_bytes()
                got = dict(R.dec_map(b))
                want = dict(extra, sofa_head_target_service=iface, sofa_head_method_name=method, sofa_head_target_app=app,
                            service=iface, uid=uid)
                for k, v in want.items():
                    if got.get(k) != v:
                        return n, "build_header(%r, %r, %r, %r) has %s=%r" % (iface, method, app, uid, k, got.get(k)), None
                stray = [k for k in got if k not in want and not k.startswith("rpc_trace_context.")]
                if stray:
                    return n, "build_header adds %r" % stray, None
        return n, None, None
    return enumeration(name, [("iface", STR[1:8]), ("method", STR[1:8]), ("app", STR[:6])], inner, "request headers")


def scenarios(tier):
    t = tier == "thorough"
    small = MAPS[:5]
    ids = IDS + NEGIDS
    return [
        fields("request", "req", MAPS, CONTENTS, ids if t else ids[::2] + [0x7fffffff]),
        fields("response", "resp", MAPS, CONTENTS, ids if t else ids[::2] + [0x7fffffff]),
        fields("heartbeat-request", "hbreq", small, CONTENTS[:3], ids if t else ids[::3]),
        fields("heartbeat-response", "hbresp", small, CONTENTS[:3], ids if t else ids[::3]),
        fields("fail-response", "fail", small, CONTENTS[:3], ids if t else ids[::3]),
        maps("maps", 3 if t else 2),
        odd_maps("odd-maps"),
        code_points("code-points"),
        sizes("sizes", 8000 if t else 3000),
        refusals("refusals"),
        builders("builders"),
        built_header("build-header"),
        fields("request-16M", "req", [MAPS[1]], [b"m" * ((1 << 24) + 1)], [1]),
        fields("response-16M", "resp", [MAPS[1]], [b"m" * ((1 << 24) + 1)], [1]),
    ]
