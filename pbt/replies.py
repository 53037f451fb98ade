"""Scripted replies of a peer as data, and what a master may make of them.

A reply part is {"k": kind, "resp": hex of a response PDU, ...}:
    (with "exc" drawn first, ok / tid / stale / pid / unit / len carry an exception reply)
    ok       the genuine reply                      tid      another transaction id ("d" is added to it)
    stale    reply to an earlier request ("back")   pid      another protocol id
    unit     another unit id / RTU address          len      another length field ("d" is added to it)
    raw      arbitrary bytes                        crc      RTU: bit "bit" of the frame flipped
"""
from hypothesis import strategies as st

from pbt import calls, gen, model

E2E = (1, 2, 3, 4, 5, 6, 7, 15, 16, 20, 22, 23)


@st.composite
def part(draw, c, kinds, framing):
    k = draw(st.sampled_from(kinds))
    p = {"k": k}
    if k == "raw":
        p["resp"] = draw(st.binary(min_size=1, max_size=24)).hex()
        return p
    resp = draw(calls.response(c))
    m = draw(st.integers(0, 9))
    if k == "exc":
        p["k"] = "ok"
        resp = bytes([c["fc"] | 0x80, draw(st.integers(1, 11))])
    elif k.startswith("exc-"):      # exception reply in a frame damaged as the kind says
        p["k"] = k = k[4:]
        resp = bytes([c["fc"] | 0x80, draw(st.integers(1, 11))])
    elif k == "fc":
        p["k"] = "ok"
        resp = bytes([draw(st.integers(0, 127).filter(lambda f: f != c["fc"]))]) + resp[1:]
    elif k == "wrong":      # a reply to a request of other size
        p["k"] = "ok"
        resp = resp[:-1] if m < 5 else resp + b"\0" * draw(st.integers(1, 2))
    p["resp"] = resp.hex()
    if k in ("tid", "len"):
        p["d"] = draw(st.sampled_from([-1, 1, 2, -2, 256, -256, 0x7fff, 0x8000])) if k == "tid" else \
            draw(st.sampled_from([-1, 1, 2, -2, -len(resp), -len(resp) - 1, 256]))
    elif k == "pid":
        p["d"] = draw(st.one_of(st.sampled_from([1, 256, 0xffff]), st.integers(1, 0xffff)))
    elif k == "unit":
        p["d"] = draw(st.one_of(st.sampled_from([1, 255, 128]), st.integers(1, 255)))
    elif k == "stale":
        p["back"] = draw(st.integers(1, 3))
    elif k == "crc":
        p["bit"] = draw(st.integers(0, 1 << 12))
    return p


def build(p, request, earlier, framing):
    """the bytes of a reply part for this request; earlier: requests before it"""
    data = bytes.fromhex(p["resp"])
    k = p["k"]
    if k == "raw":
        return data
    if framing == "tcp":
        tid, unit, pid, length = int.from_bytes(request[:2], "big"), request[6], 0, len(data) + 1
        if k == "tid":
            tid = (tid + p["d"]) & 0xffff
        elif k == "stale":
            if len(earlier) < p["back"]:
                tid = (tid - p["back"]) & 0xffff
            else:
                tid = int.from_bytes(earlier[-p["back"]][:2], "big")
        elif k == "pid":
            pid = p["d"]
        elif k == "unit":
            unit = (unit + p["d"]) & 0xff
        elif k == "len":
            length = max(0, length + p["d"])
        return model.tcp_frame(tid, unit, data, pid, length)
    addr = request[0]
    if k == "unit":
        addr = (addr + p["d"]) & 0xff
    f = bytearray(model.rtu_frame(addr, data))
    if k == "crc":
        b = p["bit"] % (8 * len(f))
        f[b // 8] ^= 1 << b % 8
    return bytes(f)


def frames(stream, request, framing):
    """PDUs of the frames in this stream which carry the identification of the request"""
    out = []
    if framing == "tcp":
        p = 0
        while len(stream) - p >= 7:
            n = int.from_bytes(stream[p + 4:p + 6], "big")
            end = p + 6 + n
            f = stream[p:end]
            if n >= 2 and len(f) == 6 + n and f[:2] == request[:2] and f[2:4] == b"\0\0" and f[6] == request[6]:
                out.append((p, end, f[7:]))
            p = max(end, p + 6)
        return out
    for k in range(4, len(stream) + 1):
        f = stream[:k]
        if f[0] == request[0] and model.crc16(f[:-2]) == f[-2] | f[-1] << 8:
            out.append((0, k, f[1:-2]))
    return out


def verdict(c, stream, request, framing):
    """("must", result) | ("exc", code) | ("may", [results], [exception codes]) for what the master receives after this request"""
    fs = frames(stream, request, framing)
    good = [(a, b, p) for a, b, p in fs if p[0] < 0x80 and calls.conforming(c, p)]
    if len(fs) == 1 and fs[0][:2] == (0, len(stream)):
        pdu = fs[0][2]
        if good:
            return "must", calls.result(c, pdu)
        if len(pdu) == 2 and pdu[0] == c["fc"] | 0x80:
            return "exc", pdu[1]
    return "may", [calls.result(c, p) for _, _, p in good], [p[1] for _, _, p in fs if p[0] > 0x80 and len(p) > 1]


def weaken(v):
    """refusing is allowed too"""
    return v if v[0] == "may" else ("may", [v[1]], []) if v[0] == "must" else ("may", [], [v[1]])


def check(engine, real, v, res, err, where):
    kind, want = v[:2]
    if kind == "must":
        if err is not None:
            raise engine.Violation("%s: genuine reply raised %s: %s" % (where, type(err).__name__, err)) from err
        engine.ensure(calls.same(res, want), "%s: returned %r, expected %r", where, res, want)
    elif kind == "exc":
        engine.ensure(isinstance(err, real.mexc.ModbusError) and err.get_exception_code() == want,
                      "%s: exception reply with code %r gave result %r / error %r", where, want, res, err)
    elif err is None:
        engine.ensure(any(calls.same(res, w) for w in want), "%s: returned %r, which no genuine reply carries", where, res)
    elif isinstance(err, real.mexc.ModbusError):
        code = err.get_exception_code()
        engine.ensure(code in v[2], "%s: reported the Modbus exception %r, which no exception reply to this request carries",
                      where, code)


@st.composite
def script(draw, c, kinds, framing, ends=("keep", "keep", "close", "rst"), max_parts=3):
    """{"parts": [...], "cuts": [...], "pause": bool, "end": keep|close|rst, "trunc": n or None}"""
    parts = draw(st.lists(part(c, kinds, framing), max_size=max_parts))
    s = {"parts": parts, "cuts": draw(st.lists(st.integers(1, 300), max_size=6)), "pause": draw(st.integers(0, 3)) == 0,
         "end": draw(st.sampled_from(ends))}
    if parts and draw(st.integers(0, 4)) == 0:
        s["trunc"] = draw(st.integers(0, 300))
    return s


@st.composite
def genuine(draw, c, ends=("keep",)):
    resp = draw(calls.response(c))
    if draw(st.integers(0, 4)) == 0:
        resp = bytes([c["fc"] | 0x80, draw(st.integers(1, 11))])
    return {"parts": [{"k": "ok", "resp": resp.hex()}], "pause": draw(st.integers(0, 3)) == 0,
            "cuts": draw(st.lists(st.integers(1, 300), max_size=6)), "end": draw(st.sampled_from(ends))}


def stream(s, request, earlier, framing):
    data = b"".join(build(p, request, earlier, framing) for p in s["parts"])
    if s.get("trunc") is not None:
        data = data[:s["trunc"] % (len(data) + 1)]
    return data


def steps(s, data):
    """script of the Peer"""
    out = []
    for i, piece in enumerate(x for x in gen.cut(data, [c for c in s["cuts"]]) if x):
        if i and s["pause"]:
            out.append(["pause"])
        out.append(["send", piece])
    if s["end"] != "keep":
        out.append([s["end"]])
    return out
