"""Master calls as data: strategies, the independent encoder, conforming responses and results.

A call is a JSON-able dict: {"fc", "slave", "addr", "qty", "out", "fmt", "waddr", "files", "am", "om",
"pdu", "raw"}; only the keys its function needs are present.
"""
import struct

from hypothesis import strategies as st

FCS = (1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 20, 22, 23, 43, 0)
E2E = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)

word = st.one_of(st.integers(0, 0xffff), st.sampled_from([0, 1, 255, 256, 0x7fff, 0x8000, 0xffff]))
sword = st.one_of(word, st.integers(-0x8000, -1), st.sampled_from([-1, -0x8000]))
slave_id = st.one_of(st.integers(1, 247), st.sampled_from([1, 2, 247, 248, 255]))
# data formats whose size is a whole number of registers
FORMATS = [">f", ">ff", ">i", ">I", ">hH", ">q", ">d", ">Hi", "<hh", "<I", ">4H", ">3h", "!HH", ">BBBB", ">bb", ">h", ">H"]


# formats for the response of functions which answer with an echo
ECHO_FORMATS = {5: [">hh", ">I", ">HBB", "<HH"], 6: [">Hh", ">I", ">HBB", "<hh"], 15: [">I", ">hh", ">BBH"], 22: [">hhh", ">HI", ">6B"]}


def fmt_values(draw, fmt):
    """values that struct packs with this format"""
    import re
    vals = []
    body = fmt[1:]
    for num, c in re.findall(r"(\d*)([a-zA-Z])", body):
        for _ in range(int(num or 1)):
            n = struct.calcsize(">" + c)
            if c in "fd":
                vals.append(draw(st.integers(-1000, 1000)) / 4.0)
            elif c.islower():
                vals.append(draw(st.integers(-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)))
            else:
                vals.append(draw(st.integers(0, (1 << (8 * n)) - 1)))
    return vals


@st.composite
def call(draw, fcs=FCS, slaves=slave_id):
    fc = draw(st.sampled_from(fcs))
    c = {"fc": fc, "slave": draw(slaves)}
    if fc in (1, 2):
        c["addr"] = draw(word)
        c["qty"] = draw(st.one_of(st.integers(1, 40), st.integers(1, 2000), st.sampled_from([1, 7, 8, 9, 16, 2000])))
    elif fc in (3, 4):
        c["addr"] = draw(word)
        if draw(st.integers(0, 3)) == 0:
            c["fmt"] = draw(st.sampled_from(FORMATS))
            c["qty"] = struct.calcsize(c["fmt"]) // 2
        else:
            c["qty"] = draw(st.one_of(st.integers(1, 20), st.integers(1, 125), st.sampled_from([1, 2, 125])))
    elif fc == 5:
        c["addr"] = draw(word)
        c["out"] = draw(st.sampled_from([0, 1, 1, 0xff00, 2, -1, True, False, 255, 65535]))
    elif fc == 6:
        c["addr"] = draw(word)
        c["out"] = draw(sword)
    elif fc == 8:
        c["addr"] = draw(word)
        c["out"] = draw(st.lists(st.integers(0, 255), min_size=2, max_size=10))
    elif fc == 15:
        c["addr"] = draw(word)
        n = draw(st.one_of(st.integers(1, 40), st.sampled_from([1, 7, 8, 9, 15, 16, 17, 1968]), st.integers(1, 1968)))
        bits = int.from_bytes(draw(st.binary(min_size=(n + 7) // 8, max_size=(n + 7) // 8)), "little")
        on = draw(st.sampled_from([1, 1, 1, True, 2, 255, 0xff00]))
        c["out"] = [on if (bits >> i) & 1 else (False if on is True else 0) for i in range(n)]
    elif fc == 16:
        c["addr"] = draw(word)
        if draw(st.integers(0, 3)) == 0:
            c["fmt"] = draw(st.sampled_from(FORMATS))
            c["out"] = fmt_values(draw, c["fmt"])
        else:
            c["out"] = draw(st.one_of(st.lists(sword, min_size=1, max_size=12),
                                      st.sampled_from([123, 122]).flatmap(
                                          lambda n: st.lists(sword, min_size=n, max_size=n))))
    elif fc == 20:
        n = draw(st.integers(1, 5))
        c["addr"] = draw(st.lists(word, min_size=n, max_size=n))
        c["qty"] = draw(st.lists(st.integers(1, 20), min_size=n, max_size=n))
        c["files"] = draw(st.lists(word, min_size=n, max_size=n))
    elif fc == 22:
        c["addr"], c["am"], c["om"] = draw(word), draw(word), draw(word)
    elif fc == 23:
        c["addr"], c["waddr"] = draw(word), draw(word)
        if draw(st.integers(0, 3)) == 0:
            c["fmt"] = draw(st.sampled_from(FORMATS))
            c["qty"] = struct.calcsize(c["fmt"]) // 2
        else:
            c["qty"] = draw(st.one_of(st.integers(1, 20), st.integers(1, 125)))
        c["out"] = draw(st.one_of(st.lists(sword, min_size=1, max_size=12),
                                  st.lists(sword, min_size=121, max_size=121)))
    elif fc == 43:
        c["out"] = [draw(st.integers(1, 4)), draw(st.integers(0, 255))]
    elif fc == 0:
        c["pdu"] = (bytes([draw(st.integers(1, 127))]) + draw(st.binary(max_size=20))).hex()
    if fc in ECHO_FORMATS and draw(st.integers(0, 7)) == 0:
        c["fmt"] = draw(st.sampled_from(ECHO_FORMATS[fc]))
    if isinstance(c.get("out"), list) and draw(st.booleans()):
        c["tuple"] = True
    if draw(st.integers(0, 7)) == 0:
        c["raw"] = True
    return c


def kwargs(c):
    """keyword arguments of Master.execute"""
    fc = c["fc"]
    k = {"slave": c["slave"], "function_code": fc, "starting_address": 0}
    if "addr" in c:
        k["starting_address"] = tuple(c["addr"]) if isinstance(c["addr"], list) else c["addr"]
    if "qty" in c:
        k["quantity_of_x"] = tuple(c["qty"]) if isinstance(c["qty"], list) else c["qty"]
    if "out" in c:
        k["output_value"] = tuple(c["out"]) if c.get("tuple") else c["out"]
    if "fmt" in c:
        k["data_format"] = c["fmt"]
    if "waddr" in c:
        k["write_starting_address_fc23"] = c["waddr"]
    if "files" in c:
        k["number_file"] = tuple(c["files"])
    if "am" in c:
        k["and_mask"], k["or_mask"] = c["am"], c["om"]
    if "pdu" in c:
        k["pdu"] = bytes.fromhex(c["pdu"])
    if c.get("raw"):
        k["returns_raw"] = True
    if "explen" in c:
        k["expected_length"] = c["explen"]
    return k


def _w(v):
    if not -0x8000 <= v <= 0xffff:
        raise ValueError(v)
    return (v & 0xffff).to_bytes(2, "big")


def encode(c):
    """the request PDU of the Modbus specification"""
    fc = c["fc"]
    u16 = lambda v: v.to_bytes(2, "big")   # noqa
    if fc in (1, 2, 3, 4):
        return bytes([fc]) + u16(c["addr"]) + u16(c["qty"])
    if fc == 5:
        return bytes([5]) + u16(c["addr"]) + (b"\xff\x00" if c["out"] else b"\x00\x00")
    if fc == 6:
        return bytes([6]) + u16(c["addr"]) + _w(c["out"])
    if fc == 7:
        return b"\x07"
    if fc == 8:
        return b"\x08" + u16(c["addr"]) + bytes(c["out"])
    if fc == 15:
        n = len(c["out"])
        bits = sum(1 << i for i, v in enumerate(c["out"]) if v)
        nb = (n + 7) // 8
        return b"\x0f" + u16(c["addr"]) + u16(n) + bytes([nb]) + bits.to_bytes(nb, "little")
    if fc == 16:
        if c.get("fmt"):
            data = struct.pack(c["fmt"], *c["out"])
        else:
            data = b"".join(_w(v) for v in c["out"])
        return b"\x10" + u16(c["addr"]) + u16(len(data) // 2) + bytes([len(data)]) + data
    if fc == 20:
        n = len(c["addr"])
        return bytes([20, 7 * n]) + b"".join(b"\x06" + u16(f) + u16(a) + u16(q) for f, a, q in
                                             zip(c["files"], c["addr"], c["qty"]))
    if fc == 22:
        return b"\x16" + u16(c["addr"]) + u16(c["am"]) + u16(c["om"])
    if fc == 23:
        data = b"".join(_w(v) for v in c["out"])
        return (b"\x17" + u16(c["addr"]) + u16(c["qty"]) + u16(c["waddr"]) + u16(len(data) // 2)
                + bytes([len(data)]) + data)
    if fc == 43:
        return bytes([43, 14] + c["out"])
    if fc == 0:
        return bytes.fromhex(c["pdu"])
    raise AssertionError(fc)


@st.composite
def response(draw, c):
    """a conforming (non exception) response PDU of this call"""
    fc = c["fc"]
    if fc in (1, 2):
        nb = (c["qty"] + 7) // 8
        v = int.from_bytes(draw(st.binary(min_size=nb, max_size=nb)), "little") & ((1 << c["qty"]) - 1)
        return bytes([fc, nb]) + v.to_bytes(nb, "little")
    if fc in (3, 4, 23):
        n = 2 * c["qty"]
        return bytes([fc, n]) + draw(st.binary(min_size=n, max_size=n))
    if fc in (5, 6, 8, 22):
        return encode(c)
    if fc in (15, 16):
        return encode(c)[:5]
    if fc == 7:
        return bytes([7, draw(st.integers(0, 255))])
    if fc == 20:
        body = b"".join(bytes([2 * q + 1, 6]) + draw(st.binary(min_size=2 * q, max_size=2 * q)) for q in c["qty"])
        return bytes([20, len(body)]) + body
    if fc == 43:
        objs = draw(st.lists(st.binary(max_size=6), min_size=1, max_size=3))
        return bytes([43, 14, c["out"][0], 0x83, 0, 0, len(objs)]) + b"".join(
            bytes([i, len(o)]) + o for i, o in enumerate(objs))
    rfc = bytes.fromhex(c["pdu"])[0]
    return bytes([rfc]) + draw(st.binary(min_size=1, max_size=12))


def result(c, resp):
    """what Master.execute must return for this conforming response"""
    fc = c["fc"]
    if c.get("raw"):
        return resp[2:] if fc in (1, 2, 3, 4, 20, 23) else resp[1:]
    if fc in (1, 2):
        v = int.from_bytes(resp[2:], "little")
        return tuple((v >> i) & 1 for i in range(c["qty"]))
    if fc in (3, 4, 23):
        if c.get("fmt"):
            return struct.unpack(c["fmt"], resp[2:])
        return tuple(int.from_bytes(resp[i:i + 2], "big") for i in range(2, len(resp), 2))
    if fc in ECHO_FORMATS and c.get("fmt"):
        return struct.unpack(c["fmt"], resp[1:])
    if fc in (5, 6, 15, 16, 22):
        return tuple(int.from_bytes(resp[i:i + 2], "big") for i in range(1, len(resp), 2))
    if fc == 7:
        return (resp[1],)
    if fc == 8:
        return (int.from_bytes(resp[1:3], "big"),) + tuple(resp[3:])
    if fc == 20:
        out, p = [], 2
        for q in c["qty"]:
            p += 2
            out.append(tuple(int.from_bytes(resp[p + 2 * i:p + 2 * i + 2], "big") for i in range(q)))
            p += 2 * q
        return tuple(out)
    if fc == 43:
        return tuple(resp[1:])
    return struct.unpack(c.get("fmt", ""), resp[1:])


def same(a, b):
    """equality of results, NaN included, independent of bytes/bytearray"""
    if isinstance(a, (bytes, bytearray)) or isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)) and bytes(a) == bytes(b)
    return repr(a) == repr(b) or a == b


def conforming(c, resp):
    """is this (non exception) response PDU a conforming answer to the call?  None = the specification leaves it open"""
    fc = c["fc"]
    if fc == 0:
        # raw: the caller's data format is all the master can check
        if c.get("raw"):
            return len(resp) >= 2
        return len(resp) == 1 + struct.calcsize(c.get("fmt", ""))
    if len(resp) < 2 or resp[0] != fc:
        return False
    if fc in (1, 2):
        nb = (c["qty"] + 7) // 8
        return resp[1] == nb and len(resp) == 2 + nb
    if fc in (3, 4, 23):
        return resp[1] == 2 * c["qty"] and len(resp) == 2 + resp[1]
    if fc in (5, 6, 15, 16):
        return len(resp) == 5
    if fc == 7:
        return len(resp) == 2
    if fc == 22:
        return len(resp) == 7
    if fc == 8:
        return len(resp) == 3 + len(c["out"])
    if fc == 20:
        if len(resp) != 2 + resp[1]:
            return False
        p = 2
        for q in c["qty"]:
            if p >= len(resp) or resp[p] != 2 * q + 1:
                return False
            p += 2 + 2 * q
        return p == len(resp)
    return True
