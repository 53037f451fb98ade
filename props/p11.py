"""P11 RTU server: generated sequences of valid, damaged and foreign frames, port failures and fragmentation"""
from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P11"
RULE = ("a case is an RtuServer thread with 1-3 slaves (missing slaves an error or not) and 3-14 events on its line: a frame "
        "(valid, CRC damaged, cut, extended, of a foreign id, too short, random, broadcast, with noise or another frame in front), a frame with the next one already "
        "pending behind it, a read failure of the port; each in generated fragments; non-trivial = a damaged or foreign write "
        "frame hit existing memory and a valid frame was answered with data afterwards")
EXAMPLES = {"quick": 400, "thorough": 10000}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["the serial port is a pyserial-like stand-in; frames are separated by silences longer than the timeout"]


@st.composite
def _frame(draw, lay):
    """[kind, frame hex, slave id or None, pdu hex]"""
    sid = draw(st.sampled_from(sorted(lay)))
    pdu = draw(gen.request_pdu(lay[sid], other_fc=True))
    good = model.rtu_frame(sid, pdu)
    kind = draw(st.sampled_from(["ok"] * 7 + ["flip", "flip", "cut", "extend", "prefix", "swap", "short", "random", "zero",
                                             "foreign", "foreign", "broadcast"]))
    b = bytearray(good)
    if kind == "flip":
        for bit in draw(st.lists(st.integers(0, 8 * len(b) - 1), min_size=1, max_size=3, unique=True)):
            b[bit // 8] ^= 1 << bit % 8
    elif kind == "cut":
        b = b[:draw(st.integers(1, len(b) - 1))]
    elif kind == "extend":
        b += draw(st.binary(min_size=1, max_size=4))
    elif kind == "prefix":      # a frame with something in front of it: noise, or an earlier frame
        if draw(st.integers(0, 2)) == 0:
            b = bytearray(good + model.rtu_frame(sid, draw(gen.request_pdu(lay[sid], other_fc=False))))
        else:
            b = bytearray(draw(st.binary(min_size=1, max_size=9))) + b
    elif kind == "swap":
        b[-1], b[-2] = b[-2], b[-1]
    elif kind == "short":
        b = b[:draw(st.integers(1, 3))]
    elif kind == "random":
        b = bytearray(draw(st.binary(min_size=1, max_size=30)))
    elif kind == "zero":
        b[-2:] = b"\0\0"
    elif kind == "foreign":
        other = draw(st.one_of(st.integers(1, 255), st.sampled_from([sid ^ 1, sid + 1, 255])).filter(
            lambda x: x not in lay and 0 < x < 256))
        b = bytearray(model.rtu_frame(other, pdu))
    elif kind == "broadcast":
        b = bytearray(model.rtu_frame(0, pdu))
    f = bytes(b)
    if len(f) >= 4 and model.crc16(f[:-2]) == f[-2] | f[-1] << 8 and kind not in ("ok", "foreign", "broadcast"):
        kind = "ok" if f == good else "skip"
    elif len(f) == 3 and model.crc16(f[:-2]) == f[-2] | f[-1] << 8:
        kind = "skip"
    return {"kind": kind, "frame": f.hex(), "cuts": draw(gen.chunks(len(f), 5)), "sid": sid, "pdu": pdu.hex()}


@st.composite
def _case(draw):
    slaves = {}
    for sid in draw(st.lists(st.sampled_from([1, 2, 17, 247, 255]), min_size=1, max_size=3, unique=True)):
        unsigned = draw(st.booleans())
        layout = draw(gen.layouts(max_blocks=4, big=draw(st.booleans())))
        slaves[str(sid)] = {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned))}
    lay = {int(k): v["layout"] for k, v in slaves.items()}
    events = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.integers(0, 11))
        if k <= 8:
            events.append({"op": "frames", "frames": [draw(_frame(lay))]})
        elif k == 9:
            events.append({"op": "frames", "frames": [draw(_frame(lay)), draw(_frame(lay))]})
        elif k == 10:
            events.append({"op": "fail", "reopen_failures": draw(st.sampled_from([0, 0, 0, 1, 2]))})
        else:   # the port fails in the middle of a frame
            f = draw(_frame(lay))
            n = len(f["frame"]) // 2
            nxt = draw(_frame(lay)) if draw(st.booleans()) else None      # arrives at once on the reopened port
            events.append({"op": "partfail", "frame": f, "at": draw(st.integers(1, n)), "next": nxt,
                           "reopen_failures": draw(st.sampled_from([0, 0, 0, 1]))})
    return {"slaves": slaves, "events": events, "missing": draw(st.booleans())}


def strategy(tier):
    return _case()


def run_case(case, ctx):
    from pbt import fakeserial, real
    from modbus_tk import modbus_rtu
    port = fakeserial.Port()
    srv = modbus_rtu.RtuServer(port, error_on_missing_slave=case["missing"])
    models, slaves = {}, {}
    for sid, d in case["slaves"].items():
        s = slaves[sid] = srv.add_slave(int(sid), unsigned=d["unsigned"])
        models[sid] = model.ModelSlave(d["unsigned"])
        real.build_slave(s, d["layout"], d["init"])
        real.build_model(models[sid], d["layout"], d["init"])
    srv.start()
    silent = False
    try:
        engine.ensure(port.wait_idle(), "the server never waits for a request")
        for n, ev in enumerate(case["events"]):
            where = "event %d %r" % (n, ev)
            nw = len(port.written)
            items, want, flexible = [], [], False
            if ev["op"] == "frames":
                for i, f in enumerate(ev["frames"]):
                    if f["kind"] == "skip":
                        continue
                    data = bytes.fromhex(f["frame"])
                    items += gen.cut(data, f["cuts"]) + [fakeserial.GAP]
                    if f["kind"] in ("ok", "broadcast"):
                        want.append(f)
                    ctx.label(f["kind"])
                    if f["kind"] in ("flip", "cut", "swap", "foreign", "prefix", "extend") and bytes.fromhex(f["pdu"])[0] in gen.WRITES:
                        silent = True
                # every frame but the last has a new request pending behind it
                pend = [f for f in ev["frames"] if f["kind"] != "skip"]
                want = [(f, f is pend[-1]) for f in want]
                if len(pend) > 1:
                    ctx.label("pending")
            elif ev["op"] == "fail":
                port.open_failures = ev["reopen_failures"]
                items = [fakeserial.FAIL]
                ctx.label("port failure")
            else:
                data = bytes.fromhex(ev["frame"]["frame"])[:ev["at"]]
                whole = ev["at"] == len(ev["frame"]["frame"]) // 2
                port.open_failures = ev["reopen_failures"]
                items = gen.cut(data, ev["frame"]["cuts"]) + [fakeserial.FAIL]
                ctx.label("failure inside a frame")
                # a frame that was complete when the port failed may be handled or dropped: not generated
                if whole or (len(data) >= 3 and model.crc16(data[:-2]) == data[-2] | data[-1] << 8):
                    continue
                f = ev.get("next")
                if f and f["kind"] != "skip":
                    ctx.label("frame right after a failure")
                    port.after_open = gen.cut(bytes.fromhex(f["frame"]), f["cuts"]) + [fakeserial.GAP]
                    want = [(f, True)] if f["kind"] in ("ok", "broadcast") else []
            port.feed(items)
            engine.ensure(port.wait_idle(), "%s: the server does not come back to waiting for requests", where)
            port.open_failures = 0
            got = b"".join(port.written[nw:])
            exp = b""
            for f, last in want:
                if f["kind"] == "broadcast":
                    for ms in models.values():
                        out = ms.judge(bytes.fromhex(f["pdu"]))
                        if out.kind == "reply":
                            ms.apply(out)
                    continue
                ms = models[str(f["sid"])]
                pdu = bytes.fromhex(f["pdu"])
                out = ms.judge(pdu)
                if out.kind == "reply":
                    ms.apply(out)
                    reply = model.rtu_frame(f["sid"], out.reply)
                    if last and out.reply[0] < 0x80 and any(out.reply[1:]) and silent:
                        ctx.nontrivial()
                elif out.kind == "exc":
                    reply = [model.rtu_frame(f["sid"], bytes([pdu[0] | 0x80, code])) for code in sorted(out.codes)]
                else:
                    raise AssertionError((f, out.kind))
                if last:
                    exp = reply
            okay = got in exp if isinstance(exp, list) else got == exp
            engine.ensure(okay, "%s: server sent %s, expected %s", where, got.hex(),
                          [x.hex() for x in exp] if isinstance(exp, list) else exp.hex())
            for sid in slaves:
                d = real.diff(real.snapshot(slaves[sid], case["slaves"][sid]["layout"]), models[sid].snapshot())
                engine.ensure(d is None, "after %s slave %s: %s", where, sid, d)
    finally:
        srv.stop()
