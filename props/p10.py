"""P10 RTU master on a noisy line: generated corruption, leftovers, silences and fragmentation of serial replies"""
from hypothesis import strategies as st

from pbt import calls, engine, gen, model

ID = "P10"
RULE = ("a case is 1-5 calls on one RtuMaster; each has leftovers on the line before it and gets a genuine, excepting, damaged "
        "(bit flips, bursts, cut, extended, swapped CRC, foreign address or function), random or no reply, cut in fragments "
        "and possibly interrupted by a silence; non-trivial = a damaged reply differs from a genuine one by at most 2 bits or "
        "is a genuine reply of another slave, or leftovers were present before a genuine reply")
EXAMPLES = {"quick": 1500, "thorough": 40000}
ASSUMPTIONS = ["the serial port is a pyserial-like stand-in",
               "a stream that starts with a conforming frame followed by surplus bytes may be accepted or refused"]


@st.composite
def _step(draw):
    c = draw(calls.call())
    if c["fc"] == 0:
        c.pop("fmt", None)
        c["raw"] = True
    else:
        c.pop("raw", None)
    resp = draw(calls.response(c))
    if draw(st.integers(0, 4)) == 0:
        fc = calls.encode(c)[0]
        resp = bytes([fc | 0x80, draw(st.integers(1, 11))])
    good = model.rtu_frame(c["slave"], resp)
    how = draw(st.sampled_from(["ok"] * 5 + ["flip"] * 3 + ["burst", "cut", "cut", "extend", "swapcrc", "addr", "addr", "addr0", "fc",
                                             "random", "none", "resum", "shift", "byte"]))
    b = bytearray(good)
    if how == "flip":
        for bit in draw(st.lists(st.integers(0, 8 * len(b) - 1), min_size=1, max_size=3, unique=True)):
            b[bit // 8] ^= 1 << bit % 8
    elif how == "byte":
        i = draw(st.integers(0, len(b) - 1))
        b[i] = draw(st.integers(0, 255).filter(lambda v: v != b[i]))
    elif how == "burst":
        start = draw(st.integers(0, 8 * len(b) - 2))
        n = min(draw(st.integers(2, 16)), 8 * len(b) - start)
        mask = draw(st.integers(1, (1 << n) - 1))
        v = int.from_bytes(b, "big") ^ (mask << (8 * len(b) - start - n))
        b = bytearray(v.to_bytes(len(b), "big"))
    elif how == "cut":
        b = b[:draw(st.integers(0, len(b) - 1))]
    elif how == "extend":
        b += draw(st.binary(min_size=1, max_size=5))
    elif how == "swapcrc":
        b[-2], b[-1] = b[-1], b[-2]
    elif how == "addr":      # a correct frame of another slave
        other = draw(st.one_of(st.integers(1, 255), st.sampled_from([(c["slave"] + 1) % 256 or 1, c["slave"] ^ 0x80 or 1]))
                     .filter(lambda a: a != c["slave"]))
        b = bytearray(model.rtu_frame(other, resp))
    elif how == "addr0":
        b = bytearray(model.rtu_frame(0, resp))
    elif how == "fc":        # a correct frame of another function
        r = bytes([draw(st.integers(0, 127).filter(lambda f: f != resp[0]))]) + resp[1:]
        b = bytearray(model.rtu_frame(c["slave"], r))
    elif how == "resum":     # damaged data under a fresh CRC, truncated or extended
        r = bytearray(resp)
        r = r[:-1] if draw(st.booleans()) else r + draw(st.binary(min_size=1, max_size=2))
        b = bytearray(model.rtu_frame(c["slave"], bytes(r)))
    elif how == "shift":
        b = bytearray(draw(st.binary(min_size=1, max_size=3))) + b
    elif how == "random":
        b = bytearray(draw(st.binary(min_size=1, max_size=40)))
    elif how == "none":
        b = bytearray()
    left = b""
    k = draw(st.integers(0, 5))
    if k == 0:
        left = draw(st.binary(min_size=1, max_size=20))
    elif k == 1:    # leftover of an earlier reply, whole or its tail
        left = bytes(good[draw(st.integers(0, len(good) - 1)):])
        if draw(st.booleans()):
            left = model.rtu_frame(c["slave"], draw(calls.response(c)))
    s = {"call": c, "how": how, "bytes": bytes(b).hex(), "left": left.hex(), "cuts": draw(gen.chunks(len(b), 5))}
    if len(b) > 1 and draw(st.integers(0, 9)) == 0:
        s["gap"] = draw(st.integers(1, len(b) - 1))
    if draw(st.integers(0, 4)) == 0:
        s["trail"] = draw(st.binary(max_size=4)).hex()
    if draw(st.integers(0, 5)) == 0:
        # the echo of the request itself is disturbed (used when the master expects one)
        k = draw(st.sampled_from(["none", "cut", "flip", "twice"]))
        if k == "none":
            s["echo"] = ["cut", 0]
        elif k == "cut":
            s["echo"] = ["cut", draw(st.integers(1, 40))]
        elif k == "flip":
            s["echo"] = ["flip", draw(st.integers(0, 400))]
        else:
            s["echo"] = ["twice"]
    return s


def strategy(tier):
    return st.fixed_dictionaries({"echo": st.booleans(), "sw": st.sampled_from([False, False, False, True]),
                                  "steps": st.lists(_step(), min_size=1, max_size=5)})


class Restless(BaseException):
    pass


def spoil(echo, req):
    """what the adapter sends back for the request"""
    if echo is None:
        return req
    if echo[0] == "cut":
        return req[:min(echo[1], len(req) - 1)]
    if echo[0] == "twice":
        return req + req
    b = bytearray(req)
    bit = echo[1] % (8 * len(b))
    b[bit // 8] ^= 1 << bit % 8
    return bytes(b)


def allowed(c, stream):
    """results a reader of this stream may return, and whether it must return the (single) one"""
    out = []
    for k in range(4, len(stream) + 1):
        f = stream[:k]
        if f[0] == c["slave"] and model.crc16(f[:-2]) == f[-2] | f[-1] << 8 and f[1] <= 0x80:
            if calls.conforming(c, f[1:-2]):
                out.append((k, f[1:-2]))
    return out


def run_case(case, ctx):
    from pbt import fakeserial, real
    from modbus_tk import modbus_rtu


    class Port(fakeserial.Port):
        def read(self, size=1):
            data = fakeserial.Port.read(self, size)
            self.fruitless = 0 if data else self.fruitless + 1
            if self.fruitless > 300:     # the line is silent and the master does not stop reading
                raise Restless()
            return data
    port = Port()
    port.fruitless = 0
    m = modbus_rtu.RtuMaster(port)
    m.handle_local_echo = case["echo"]
    if case["sw"]:
        m.set_timeout(600.0, use_sw_timeout=True)
    script = {}

    def on_write(data):
        if case["echo"]:
            port.feed([x for x in [spoil(script["echo"], data)] if x])
        port.feed(script["items"])

    port.on_write = on_write
    for n, s in enumerate(case["steps"]):
        c = s["call"]
        stream = bytes.fromhex(s["bytes"])
        trail = bytes.fromhex(s.get("trail", ""))
        full = stream
        cuts = list(s["cuts"])
        if "gap" in s:
            full, rest = stream[:s["gap"]], stream[s["gap"]:]
            items = gen.cut(full, [x for x in cuts if x < len(full)]) + [fakeserial.GAP, rest]
        else:
            items = [x for x in gen.cut(stream, cuts) if x]
            if trail:       # arrives after the end of the reply: never part of it
                items += [fakeserial.GAP, trail]
        script["items"] = items
        script["echo"] = echo = s.get("echo") if case["echo"] else None
        port.fruitless = 0
        port.rx.clear()
        left = bytes.fromhex(s["left"])
        if left:
            port.feed([left])
        nw = len(port.written)
        where = "step %d %r (%s) line %s left %s echo %r" % (n, c, s["how"], stream.hex(), left.hex(), echo)
        try:
            res, err = m.execute(**calls.kwargs(c)), None
        except Exception as e:
            res, err = None, e
        except Restless:
            raise engine.Violation(where + ": the call does not end, the line is silent")
        engine.ensure(len(port.written) == nw + 1, "%s: %d frames sent", where, len(port.written) - nw)
        req = port.written[-1]
        engine.ensure(req == model.rtu_frame(c["slave"], calls.encode(c)), "%s: sent %s", where, req.hex())
        ctx.label(s["how"] + (" gap" if "gap" in s else ""))
        if echo is not None:
            ctx.label("echo " + echo[0])
            if err is None:
                # nothing else than what a frame of the slave says
                heard = spoil(echo, req) + full
                engine.ensure(any(calls.same(res, calls.result(c, r)) for i in range(len(heard)) for k, r in allowed(c, heard[i:])),
                              "%s: accepted, returned %r", where, res)
            elif echo[0] == "flip" and s["how"] == "none":
                engine.ensure(not isinstance(err, real.mexc.ModbusError), "%s: reported %r as sent by the slave", where, err)
            continue
        ok = allowed(c, full)
        whole = [r for k, r in ok if k == len(full)]
        exc = None
        if len(full) == 5 and full[0] == c["slave"] and full[1] > 0x80 and model.crc16(full[:3]) == full[3] | full[4] << 8:
            exc = full[2]
        if len(ok) == 1 and whole:
            want = calls.result(c, whole[0])
            engine.ensure(err is None and calls.same(res, want), "%s: genuine reply gave %r / %r, expected %r", where, res, err, want)
            if left:
                ctx.nontrivial()
        elif exc is not None and full[1] & 0x7f == calls.encode(c)[0]:
            engine.ensure(isinstance(err, real.mexc.ModbusError) and err.get_exception_code() == exc,
                          "%s: exception reply gave %r / %r", where, res, err)
        elif err is not None and not (len(full) >= 5 and any(
                full[0] == c["slave"] and full[1] > 0x80 and model.crc16(full[:k - 2]) == full[k - 2] | full[k - 1] << 8
                for k in range(5, len(full) + 1))):
            # whatever it is, it is not what the slave said
            engine.ensure(not isinstance(err, real.mexc.ModbusError), "%s: reported %r as sent by the slave", where, err)
            if s["how"] in ("flip", "addr", "byte", "swapcrc"):
                ctx.nontrivial()
        elif err is None:
            good = [r for k, r in ok if calls.same(res, calls.result(c, r))]
            engine.ensure(good, "%s: accepted, returned %r", where, res)
        elif s["how"] in ("flip", "addr", "byte", "swapcrc"):
            ctx.nontrivial()
