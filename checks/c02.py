"""C02: decoding arbitrary bytes terminates with the exact package or a protocol error."""
import itertools

from mc.world import enumeration
from mc import refcodec as R

HDR = (("service", "s:1"), ("k", "\u4e2d"), ("", "v"))
ENUMS = dict(proto=(1,), ptype=(0, 1, 2), cmdcode=(0, 1, 2), ver2=(1,), codec=(1, 2, 11))


def refs():
    return [("req", R.request(0x01020304, HDR, b"content", timeout=3000)),
            ("req", R.request(5, (), b"", ptype=2)),
            ("req", R.heartbeat_request(9)),
            ("resp", R.response(0x7fffffff, b"content", 0, HDR)),
            ("resp", R.response(3, b"", 7)),
            ("resp", R.heartbeat_response(4)),
            ("req", R.request(1, (("a", "b"),), b"xyz", cls=b""))]


def cls_of(kind):
    from anthunder.protocol import BoltRequest, BoltResponse
    return BoltRequest if kind == "req" else BoltResponse


def verdict(b, kind):
    """What the documented format says: (must_accept, fields) or None when it must be refused."""
    r = R.parse_one(b, kind)
    if r is None or r[1]:
        return None
    f = r[0]
    for k, ok in ENUMS.items():
        if getattr(f, k) not in ok:
            return None
    if kind == "resp" and f.status not in R.STATUS.values():
        return None
    try:
        f.header
    except R.Bad:
        return None
    return f


def judge(b, kind):
    from anthunder.protocol.exceptions import ProtocolError
    want = verdict(b, kind)
    C = cls_of(kind)
    for two in (False, True):
        try:
            if two:
                n = C.bolt_header_size()
                p = C.bolt_content_from_stream(b[n:], C.bolt_header_from_stream(b[:n]))
            else:
                p = C.from_stream(b)
        except ProtocolError:
            # a class name other than the documented one may be refused
            if want is None or want.cls not in (R.REQ_CLASS if kind == "req" else R.RESP_CLASS, b""):
                continue
            return "the well-formed %s frame %r is refused" % (kind, b)
        except Exception as e:
            return "decoding the %s frame %r raises %s: %s" % (kind, b, type(e).__name__, e)
        if want is None:
            return "the malformed %s frame %r is accepted as %s" % (kind, b, p)
        got = (p.proto, p.ptype, p.cmdcode, p.ver2, p.request_id, p.codec, p.timeout if kind == "req" else p.respstatus,
               dict(p.header), p.content)
        exp = (want.proto, want.ptype, want.cmdcode, want.ver2, want.rid, want.codec,
               want.timeout if kind == "req" else want.status, want.header, want.content)
        if got != exp:
            return "the %s frame %r is decoded as %r instead of %r" % (kind, b, got, exp)
    return None


def judge_block(b):
    from anthunder.protocol import SofaHeader
    from anthunder.protocol.exceptions import ProtocolError
    try:
        want = dict(R.dec_map(b))
    except R.Bad as e:
        want = None
    try:
        h = SofaHeader.from_bytes(b)
    except ProtocolError:
        return None if want is None else "the well-formed header block %r is refused" % (b,)
    except Exception as e:
        return "decoding the header block %r raises %s: %s" % (b, type(e).__name__, e)
    if want is None:
        return "the malformed header block %r is accepted as %r" % (b, dict(h))
    if dict(h) != want:
        return "the header block %r is decoded as %r instead of %r" % (b, dict(h), want)
    return None


def each(it, fn):
    n = acc = 0
    for b in it:
        n += 1
        e = fn(b)
        if e:
            return n, e, None
    return n, None, None


def lengths(name):
    """Every truncation and extensions of every reference frame."""
    def inner(i):
        kind, b = refs()[i]

        def gen():
            for k in range(len(b) + 1):
                yield b[:k]
                yield b[k:]
            for ext in (b"\0", b"\xff", b"\0\0\0\0", b"abc", b, R.enc_map(HDR)):
                yield b + ext
                yield ext + b
        return each(gen(), lambda x: judge(x, "req") or judge(x, "resp"))
    return enumeration(name, [("frame", list(range(len(refs()))))], inner, "truncations and extensions")


def corrupt(name, width, values=None):
    """Every corruption of `width` bytes; width 2 within the fixed header and first length words."""
    def inner(i, pos):
        kind, b = refs()[i]

        def gen():
            for v in range(256):
                x = bytearray(b)
                x[pos] = v
                if width == 1:
                    yield bytes(x)
                    continue
                if v not in values:
                    continue
                for p2 in range(pos + 1, len(b)):
                    for v2 in values:
                        y = bytearray(x)
                        y[p2] = v2
                        yield bytes(y)
        return each(gen(), lambda x: judge(x, kind))
    return enumeration(name, [("frame", list(range(len(refs())))),
                              ("pos", lambda vals: list(range(len(refs()[vals[0]][1]))))], inner,
                       "%d corrupted bytes" % width)


def fixed(name):
    """The three length fields over boundary values against bodies of several lengths."""
    def inner(cl, hl):
        def gen():
            for kind in ("req", "resp"):
                for tl in (0, 1, 8, 9, 16, 255, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff):
                    for body in (b"", b"a", R.enc_map((("", ""),)), R.enc_map((("a", ""),)), R.enc_map((("a", ""),)) * 2,
                                 b"\xff" * 16, b"\0" * 24, b"z" * 300):
                        x = 10 + (4 if kind == "req" else 2)
                        full = R.request(1) if kind == "req" else R.response(1)
                        yield kind, full[:x] + R.be(cl, 2, False) + R.be(hl, 2, False) + R.be(tl, 4, False) + body
        return each(gen(), lambda kx: judge(kx[1], kx[0]))
    vals = [0, 1, 8, 9, 16, 18, 255, 256, 0x7fff, 0x8000, 0xffff]
    return enumeration(name, [("class_len", vals), ("header_len", vals)], inner, "inconsistent length fields")


WORDS = [R.be(n, 4) for n in (0, 1, 2, 3, 4, 8, -1, -2, 0x7fffffff, -0x80000000, 256)]
TOKENS = WORDS + [b"a", b"b", b"\xc3\xa9", b"\xc3", b"\xa9", b"\xff", b"\0", b"abcd"]


def blocks(name, depth):
    """Every sequence of up to `depth` tokens as header block."""
    def inner(t1, t2):
        rest = itertools.chain.from_iterable(itertools.product(TOKENS, repeat=k) for k in range(depth - 1))
        return each((TOKENS[t1] + TOKENS[t2] + b"".join(r) for r in rest), judge_block)
    return enumeration(name, [("token", list(range(len(TOKENS)))), ("second", list(range(len(TOKENS))))], inner,
                       "header blocks of up to %d tokens" % depth)


ALPHA = [0x00, 0x01, 0x02, 0xff, 0xfe, 0x61, 0xc3, 0xa9]


def strings(name, upto):
    """Every byte string up to a length as header block."""
    def inner(a, b):
        def gen():
            yield b""
            yield bytes([a])
            for n in range(upto - 1):
                for r in itertools.product(ALPHA, repeat=n):
                    yield bytes((a, b) + r)
        return each(gen(), judge_block)
    return enumeration(name, [("first", ALPHA), ("second", ALPHA)], inner, "all byte strings up to %d bytes" % upto)


EDGE = [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf3,
        0xf4, 0xf5, 0xfe, 0xff]


def utf8(name, upto):
    """Every string of bytes at the edges of the UTF-8 ranges, as key and as value."""
    def inner(a):
        def gen():
            for n in range(upto):
                for r in itertools.product(EDGE, repeat=n):
                    s = bytes((a,) + r)
                    yield R.be(len(s), 4) + s + R.be(1, 4) + b"v"
                    yield R.be(1, 4) + b"k" + R.be(len(s), 4) + s
                    if n < 3:
                        t = b"a" + s + b"b"
                        yield R.be(len(t), 4) + t + R.be(len(t), 4) + t

        return each(gen(), judge_block)
    return enumeration(name, [("first", EDGE)], inner, "strings of up to %d bytes at the edges of UTF-8" % upto)


def nulls(name):
    """Java nulls anywhere in maps of several entries, alone and inside frames."""
    S = [(b"\xff\xff\xff\xff", ""), (R.be(0, 4), ""), (R.be(1, 4) + b"a", "a"), (R.be(2, 4) + b"\xc3\xa9", "\u00e9"),
         (R.be(4, 4) + b"\xff\xff\xff\xff", None), (R.be(4, 4) + b"\0\0\0\0", "\0\0\0\0")]

    def inner(n):
        def gen():
            for combo in itertools.product(S, repeat=n):
                yield b"".join(c[0] for c in combo)

        def both(h):
            return judge_block(h) or judge(R.request(1, hbytes=h, content=b"c"), "req") \
                or judge(R.response(1, b"c", hbytes=h), "resp")
        return each(gen(), both)
    return enumeration(name, [("strings", [0, 1, 2, 3, 4, 5])], inner, "Java null strings")


def types(name):
    """Unknown codes in every coded field."""
    def inner(field, kind):
        def gen():
            off, w = dict(proto=(0, 1), ptype=(1, 1), cmdcode=(2, 2), ver2=(4, 1), codec=(9, 1), status=(10, 2))[field]
            full = R.request(1, HDR, b"c") if kind == "req" else R.response(1, b"c", 0, HDR)
            if field == "status" and kind == "req":
                return
            for v in range(1 << (8 * w)):
                yield full[:off] + R.be(v, w, False) + full[off + w:]
        return each(gen(), lambda b: judge(b, kind))
    return enumeration(name, [("field", ["proto", "ptype", "cmdcode", "ver2", "codec", "status"]), ("kind", ["req", "resp"])],
                       inner, "every value of every coded field")


def long_blocks(name, upto):
    """Blocks of any number of strings, sound and with one defect at the start, in the middle or at the end."""
    UNITS = [b"a", b"\xc3\xa9", b"", b"x" * 37]
    BAD = [b"\xff", b"\xc3", b"\xed\xa0\x80"]

    def inner(unit, lo):
        def gen():
            for n in range(lo, upto, 16):
                ss = [R.be(len(u), 4) + u for u in (UNITS[unit] + (b"%d" % i if unit != 2 or i % 2 == 0 else b"") for i in range(n))]
                yield b"".join(ss)
                if n:
                    yield b"".join(ss)[:-1]
                    yield b"".join(ss)[1:]
                for x in (b"\0", b"\0\0\0", b"\0\0\0\1", b"\xff\xff\xff\xfe", b"\x7f\xff\xff\xff"):
                    yield b"".join(ss) + x
                for at in sorted(set((0, n // 2, n - 1))):
                    if not 0 <= at < n:
                        continue
                    for bad in [R.be(len(b), 4) + b for b in BAD] + [b"\xff\xff\xff\xff", b"\xff\xff\xff\xfe", R.be(1 << 20, 4) + b"a"]:
                        yield b"".join(ss[:at] + [bad] + ss[at + 1:])

        def both(h):
            e = judge_block(h)
            return e or (judge(R.request(1, hbytes=h, content=b"c"), "req") if len(h) < 65536 else None)
        return each(gen(), both)
    return enumeration(name, [("unit", list(range(len(UNITS)))), ("from", list(range(16)))], inner, "header blocks of up to %d strings" % upto)


def long_strings(name):
    """Strings of any length whose encoding is broken anywhere."""
    sizes = list(range(1, 140)) + [x + d for x in (255, 511, 1023, 2047, 4095, 8191, 16383, 32767, 65000) for d in range(4)]

    def inner(what, part):
        def gen():
            for n in sizes[part::8]:
                good = [b"a" * n, ("\u00e9" * n).encode()[:n - n % 2], (b"a" + ("\u4e2d" * n).encode())[:n - (n - 1) % 3]][what]
                yield R.be(len(good), 4) + good + R.be(1, 4) + b"v"
                yield R.be(1, 4) + b"k" + R.be(len(good), 4) + good
                for at in sorted(set((0, 1, n // 2, n - 2, n - 1))):
                    if 0 <= at < len(good):
                        for c in (b"\xff", b"\x80", b"\xc3", b"\0"):
                            bad = good[:at] + c + good[at + 1:]
                            yield R.be(len(bad), 4) + bad + R.be(1, 4) + b"v"
                            yield R.be(1, 4) + b"k" + R.be(len(bad), 4) + bad
                for d in (1, 2, 3, 4, 5, -1, -2):
                    if len(good) + d >= 0:
                        yield R.be(1, 4) + b"k" + R.be(len(good) + d, 4) + good
        return each(gen(), judge_block)
    return enumeration(name, [("what", [0, 1, 2]), ("part", list(range(8)))], inner, "long strings with defects")


def scenarios(tier):
    t = tier == "thorough"
    return [
        lengths("lengths"),
        corrupt("corrupt-1", 1),
        corrupt("corrupt-2", 2, (0, 1, 0x7f, 0x80, 0xff) if t else (0, 0xff)),
        fixed("length-fields"),
        blocks("blocks", 5 if t else 4),
        strings("strings", 8 if t else 6),
        utf8("utf-8", 4 if not t else 5),
        nulls("nulls"),
        types("codes"),
        long_blocks("long-blocks", 700 if t else 280),
        long_strings("long-strings"),
    ]
