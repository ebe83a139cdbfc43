"""An independent description of the Bolt v1 frame, written from the protocol comment and the Java documents, not
from the code under test.  Used as oracle and by the scripted peers."""

REQ_CLASS = b"com.alipay.sofa.rpc.core.request.SofaRequest"
RESP_CLASS = b"com.alipay.sofa.rpc.core.response.SofaResponse"
REQ_FIXED, RESP_FIXED = 22, 20
RESPONSE, REQUEST, ONEWAY = 0, 1, 2
C_HEARTBEAT, C_REQUEST, C_RESPONSE = 0, 1, 2
STATUS = dict(SUCCESS=0, ERROR=1, SERVER_EXCEPTION=2, UNKNOWN=3, SERVER_THREADPOOL_BUSY=4, ERROR_COMM=5,
              NO_PROCESSOR=6, TIMEOUT=7, CLIENT_SEND_ERROR=8, CODEC_EXCEPTION=9, CONNECTION_CLOSED=0x10,
              SERVER_SERIAL_EXCEPTION=0x11, SERVER_DESERIAL_EXCEPTION=0x12)


class Bad(Exception):
    pass


def be(n, width, signed=True):
    return int(n).to_bytes(width, "big", signed=signed)


def rd(b, off, width, signed=True):
    return int.from_bytes(b[off:off + width], "big", signed=signed)


def enc_map(pairs):
    out = bytearray()
    for k, v in (pairs.items() if isinstance(pairs, dict) else pairs):
        for s in (k, v):
            e = s if isinstance(s, bytes) else s.encode("utf-8")
            out += be(len(e), 4) + e
    return bytes(out)


def dec_map(b):
    """-> list of (key, value); raises Bad for anything the format does not allow."""
    out, off = [], 0
    ss = []
    while off < len(b):
        if off + 4 > len(b):
            raise Bad("dangling length")
        n = rd(b, off, 4)
        off += 4
        if n == -1:
            n = 0
        if n < 0:
            raise Bad("negative length")
        if off + n > len(b):
            raise Bad("string too long")
        try:
            ss.append(bytes(b[off:off + n]).decode("utf-8"))
        except UnicodeDecodeError:
            raise Bad("not utf-8")
        off += n
    if len(ss) % 2:
        raise Bad("dangling key")
    for i in range(0, len(ss), 2):
        out.append((ss[i], ss[i + 1]))
    return out


def request(rid, header=(), content=b"", ptype=REQUEST, cmdcode=C_REQUEST, timeout=-1, codec=11, cls=REQ_CLASS,
            proto=1, ver2=1, hbytes=None, content_len=None):
    h = enc_map(header) if hbytes is None else hbytes
    return (be(proto, 1) + be(ptype, 1) + be(cmdcode, 2) + be(ver2, 1) + be(rid, 4) + be(codec, 1) + be(timeout, 4)
            + be(len(cls), 2, False) + be(len(h), 2, False)
            + be(len(content) if content_len is None else content_len, 4, False) + cls + h + content)


def response(rid, content=b"", status=0, header=(), ptype=RESPONSE, cmdcode=C_RESPONSE, codec=11, cls=RESP_CLASS,
             proto=1, ver2=1, hbytes=None):
    h = enc_map(header) if hbytes is None else hbytes
    return (be(proto, 1) + be(ptype, 1) + be(cmdcode, 2) + be(ver2, 1) + be(rid, 4) + be(codec, 1) + be(status, 2)
            + be(len(cls), 2, False) + be(len(h), 2, False) + be(len(content), 4, False) + cls + h + content)


def heartbeat_request(rid):
    return request(rid, (), b"", cmdcode=C_HEARTBEAT, cls=b"", timeout=0)


def heartbeat_response(rid, status=0):
    return response(rid, b"", status, cmdcode=C_HEARTBEAT, cls=b"")


class Frame(object):
    __slots__ = ("proto", "ptype", "cmdcode", "ver2", "rid", "codec", "timeout", "status", "cls", "hbytes", "content",
                 "size", "raw")

    @property
    def header(self):
        return dict(dec_map(self.hbytes))

    def __repr__(self):
        return "Frame(ptype=%s cmd=%s id=%s %s cls=%r content=%r)" % (
            self.ptype, self.cmdcode, self.rid,
            "timeout=%s" % self.timeout if self.timeout is not None else "status=%s" % self.status,
            self.cls[-12:], self.content[:40])


def parse_one(b, kind):
    """-> (Frame, rest) or None when incomplete."""
    fixed = REQ_FIXED if kind == "req" else RESP_FIXED
    if len(b) < fixed:
        return None
    f = Frame()
    f.proto, f.ptype, f.cmdcode, f.ver2 = rd(b, 0, 1), rd(b, 1, 1), rd(b, 2, 2), rd(b, 4, 1)
    f.rid, f.codec = rd(b, 5, 4), rd(b, 9, 1)
    if kind == "req":
        f.timeout, f.status, o = rd(b, 10, 4), None, 14
    else:
        f.timeout, f.status, o = None, rd(b, 10, 2), 12
    cl, hl, tl = rd(b, o, 2, False), rd(b, o + 2, 2, False), rd(b, o + 4, 4, False)
    if len(b) < fixed + cl + hl + tl:
        return None
    p = fixed
    f.cls = bytes(b[p:p + cl])
    f.hbytes = bytes(b[p + cl:p + cl + hl])
    f.content = bytes(b[p + cl + hl:p + cl + hl + tl])
    f.size = fixed + cl + hl + tl
    f.raw = bytes(b[:f.size])
    return f, b[f.size:]


def parse_stream(b, kind):
    """-> (frames, rest)"""
    out = []
    b = bytes(b)
    while True:
        r = parse_one(b, kind)
        if r is None:
            return out, b
        out.append(r[0])
        b = r[1]


def sane_request(f):
    """Errors of a request frame against what a client of this library must send."""
    if f.proto != 1 or f.ver2 != 1 or f.codec != 11:
        return "wrong proto/ver2/codec in %r" % f
    if f.cmdcode == C_REQUEST:
        if f.cls != REQ_CLASS:
            return "wrong class name in %r" % f
        if f.ptype not in (REQUEST, ONEWAY):
            return "wrong ptype in %r" % f
    elif f.cmdcode == C_HEARTBEAT:
        if f.ptype != REQUEST:
            return "wrong ptype in %r" % f
    else:
        return "wrong cmdcode in %r" % f
    try:
        f.header
    except Bad as e:
        return "bad header block (%s) in %r" % (e, f)
    if not 0 <= f.rid <= 0x7fffffff:
        return "request id out of range in %r" % f
    return None


def sane_response(f):
    if f.proto != 1 or f.ver2 != 1 or f.codec != 11 or f.ptype != RESPONSE:
        return "wrong proto/ver2/codec/ptype in %r" % f
    if f.cmdcode == C_RESPONSE:
        if f.cls != RESP_CLASS:
            return "wrong class name in %r" % f
    elif f.cmdcode != C_HEARTBEAT:
        return "wrong cmdcode in %r" % f
    if f.status not in STATUS.values():
        return "unknown status in %r" % f
    try:
        f.header
    except Bad as e:
        return "bad header block (%s) in %r" % (e, f)
    return None


# contents that code is tempted to treat specially
ODD = [b"", b"\0", b" ", b"\r\n", b"a\0", b"\0a", b" a ", b"None", b"0", b"\xff\xfe", bytes(bytearray(range(256))),
       response(1, b"r:x"), heartbeat_request(1), b"z" * 4095, b"z" * 4096, b"z" * 65535, b"z" * 65536, b"z" * 65537, b"z" * 300001, b"z" * ((1 << 24) + 1)]


# interface names that are easily confused with one another
NAMES = ["com.x.Svc", "com.x.Svc:1.0", "com.x.Svc:1.0:group", "com.x.Svc:1.0@DEFAULT", "com.x.svc", "COM.X.SVC", "com.x.Svc ",
         " com.x.Svc", "com.x.Sv", "com.x.Svc2", "com.x", "Svc", "com/x/Svc", "com.x.Svc\n", u"\u670d\u52a1", u"\u00e9", u"e\u0301",
         "None", "0", "a" * 300, "a" * 299, "com.x.Svc#echo", "*", "service"]
