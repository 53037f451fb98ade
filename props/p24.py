"""P24 framing round trips, CRC against a bitwise reference, transaction id sequence"""
import struct

from hypothesis import strategies as st

from pbt import engine, model, sched

ID = "P24"
RULE = ("a case is 1-5 exchanges (request PDU, id, response PDU; TCP or RTU) built and parsed by the query classes, one damage per "
        "exchange (cut, extended, altered bits, ids of another exchange), and 1-4 byte strings for the CRC; or 2-4 threads which "
        "build 1-4 requests each, under a schedule of preemptions at lines or bytecodes; non-trivial = the damage was refused on "
        "both a request and a response, or a thread was preempted while another went on")
EXAMPLES = {"quick": 2500, "thorough": 60000}
ASSUMPTIONS = ["one damage in 65536 passes a CRC by design: the reference CRC decides which"]


@st.composite
def _pdu(draw):
    k = draw(st.integers(0, 6))
    if k < 4:
        return draw(st.binary(min_size=1, max_size=20))
    if k == 4:
        return draw(st.binary(min_size=1, max_size=253))
    return draw(_long(draw(st.sampled_from([253, 252, 251, 250, 249, 248, 128, 127, 200])), 1))


@st.composite
def _long(draw, n, least):
    """n bytes of which the first, the last and a repeated pattern are generated"""
    n = max(n, least)
    pat = draw(st.binary(min_size=1, max_size=5))
    tail = draw(st.binary(min_size=1, max_size=4))
    return ((pat * n)[:n - len(tail)] + tail)[:n]


@st.composite
def _exchange(draw):
    pdu, resp = draw(_pdu()), draw(_pdu())
    e = {"kind": draw(st.sampled_from(["tcp", "rtu"])), "id": draw(st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 255]))),
         "pdu": pdu.hex(), "resp": resp.hex()}
    how = draw(st.sampled_from(["cut", "extend", "bits", "ids"]))
    e["how"] = how
    if how == "cut":
        e["n"] = draw(st.integers(1, 260))
    elif how == "extend":
        e["tail"] = draw(st.binary(min_size=1, max_size=5)).hex()
    elif how == "bits":
        e["bits"] = draw(st.lists(st.integers(0, 2200), min_size=1, max_size=4, unique=True))
    else:
        e["field"] = draw(st.sampled_from(["tid", "pid", "unit"]))
        e["d"] = draw(st.one_of(st.sampled_from([1, 0xff, 0x80, 0x100, 0xffff]), st.integers(1, 0xffff)))
    return e


def strategy(tier):
    threads = st.fixed_dictionaries({"threads": st.lists(st.integers(1, 4), min_size=2, max_size=4), "shared": st.booleans(),
                                     "schedule": sched.schedules(8, 40), "fine": st.booleans()})
    return st.integers(0, 7).flatmap(lambda k: _single() if k else threads)


def _single():
    return st.fixed_dictionaries({"exchanges": st.lists(_exchange(), min_size=1, max_size=5),
                                  "crc": st.lists(st.one_of(
                                      st.binary(max_size=12), st.binary(max_size=300),
                                      st.integers(120, 300).flatmap(lambda n: _long(n, 1))), min_size=1, max_size=4)
                                  .map(lambda l: [x.hex() for x in l])})


FIXED = [{"ids": 140000}]


def damage(e, f):
    if e["how"] == "cut":
        return f[:max(0, len(f) - e["n"])]
    if e["how"] == "extend":
        return f + bytes.fromhex(e["tail"])
    b = bytearray(f)
    for bit in e.get("bits", ()):
        bit %= 8 * len(b)
        b[bit // 8] ^= 1 << bit % 8
    return bytes(b)


def tcp_ok(f):
    return len(f) >= 7 and int.from_bytes(f[4:6], "big") == len(f) - 6


def rtu_ok(f):
    return len(f) >= 3 and model.crc16(f[:-2]) == f[-2] | f[-1] << 8


def note_tid(ctx, tid, where):
    """transaction ids do not repeat within 65535 consecutive requests"""
    st_ = ctx.store.setdefault("tids", {"n": 0, "last": {}})
    engine.ensure(isinstance(tid, int) and 0 <= tid <= 0xffff, "%s: transaction id %r", where, tid)
    st_["n"] += 1
    prev = st_["last"].get(tid)
    engine.ensure(prev is None or st_["n"] - prev >= 65535, "%s: transaction id %d used again after %s requests", where, tid,
                  st_["n"] - (prev or 0))
    st_["last"][tid] = st_["n"]


def run_case(case, ctx):
    real = sched.load()
    from modbus_tk import modbus_rtu, modbus_tcp, utils
    if "ids" in case:
        qs = [modbus_tcp.TcpQuery() for _ in range(3)]
        for n in range(case["ids"]):
            q = qs[n % 3] if n % 5 else modbus_tcp.TcpQuery()
            f = q.build_request(b"\x07", n % 256)
            engine.ensure(bytes(f[2:]) == struct.pack(">HHB", 0, 2, n % 256) + b"\x07", "request %d is %s", n, bytes(f).hex())
            note_tid(ctx, int.from_bytes(f[:2], "big"), "request %d" % n)
        ctx.label("consecutive ids", case["ids"])
        return
    if "threads" in case:
        s = sched.Scheduler(case["schedule"], case["fine"])
        frames, common = [], modbus_tcp.TcpQuery()

        def body(n):
            def go():
                for _ in range(n):
                    q = common if case["shared"] else modbus_tcp.TcpQuery()
                    f = q.build_request(b"\x07", 9)
                    frames.append(bytes(f))
            return go
        for n in case["threads"]:
            s.spawn(body(n))
        try:
            s.run()
        except (sched.Deadlock, sched.StepLimit) as e:
            raise engine.Violation(str(e))
        for n, f in enumerate(frames):
            engine.ensure(f[2:] == bytes.fromhex("000000020907"), "threads: request %d is %s", n, f.hex())
        tids = [int.from_bytes(f[:2], "big") for f in frames]
        if case["shared"]:
            # one query is not for several threads: only the frames are looked at
            ctx.store.pop("tids", None)
        else:
            # which of them came first is open
            engine.ensure(len(set(tids)) == len(tids), "%d threads built requests with the transaction ids %r", len(case["threads"]), tids)
            st_ = ctx.store.setdefault("tids", {"n": 0, "last": {}})
            st_["n"] += len(tids)
            for tid in tids:
                prev = st_["last"].get(tid)
                engine.ensure(prev is None or st_["n"] - prev >= 65535, "threads: transaction id %d used again after %s requests", tid,
                              st_["n"] - (prev or 0))
            for tid in tids:
                st_["last"][tid] = st_["n"] - len(tids) + 1
        ctx.label("threads", len(case["threads"]))
        if s.switches:
            ctx.nontrivial()
        return
    refused = set()

    def refuse(fct, frame, what, side):
        try:
            r = fct(frame)
        except Exception:
            refused.add(side)
            return
        raise engine.Violation("%s was accepted: %s parsed to %r" % (what, frame.hex(), r))

    for n, e in enumerate(case["exchanges"]):
        where = "exchange %d %r" % (n, e)
        pdu, resp = bytes.fromhex(e["pdu"]), bytes.fromhex(e["resp"])
        tcp = e["kind"] == "tcp"
        cls = modbus_tcp.TcpQuery if tcp else modbus_rtu.RtuQuery
        mq, sq = cls(), cls()
        f = bytes(mq.build_request(pdu, e["id"]))
        if tcp:
            tid = int.from_bytes(f[:2], "big")
            note_tid(ctx, tid, where)
            want = model.tcp_frame(tid, e["id"], pdu)
        else:
            want = model.rtu_frame(e["id"], pdu)
        engine.ensure(f == want, "%s: request frame %s, expected %s", where, f.hex(), want.hex())
        # damaged request
        g = damage(e, f)
        ok = tcp_ok if tcp else rtu_ok
        if ok(g):
            # only the identification changed (TCP) or the damage has a right CRC: it must parse to what it says
            sid, p = cls().parse_request(g)
            engine.ensure(sid == g[6 if tcp else 0] and bytes(p) == (g[7:] if tcp else g[1:-2]), "%s: %s parsed to %r", where, g.hex(),
                          (sid, p))
        else:
            refuse(cls().parse_request, g, "%s: damaged request" % where, "request")
        sid, p = sq.parse_request(f)
        engine.ensure(sid == e["id"] and bytes(p) == pdu, "%s: request parsed to id %r pdu %s", where, sid, real.show(p))
        r = bytes(sq.build_response(resp))
        want = model.tcp_frame(tid, e["id"], resp) if tcp else model.rtu_frame(e["id"], resp)
        engine.ensure(r == want, "%s: response frame %s, expected %s", where, r.hex(), want.hex())
        # damaged response
        g = damage(e, r)
        if e["how"] == "ids":
            if tcp:
                off, size = {"tid": (0, 2), "pid": (2, 2), "unit": (6, 1)}[e["field"]]
                mask = 256 ** size - 1
                v = (int.from_bytes(r[off:off + size], "big") + e["d"]) & mask
                g = r[:off] + v.to_bytes(size, "big") + r[off + size:]
            else:
                g = model.rtu_frame((e["id"] + e["d"]) & 0xff, resp)
        same = g[:4] == r[:4] and g[6:7] == r[6:7] if tcp else g[:1] == r[:1]
        if ok(g) and same:
            p = mq.parse_response(g)
            engine.ensure(bytes(p) == (g[7:] if tcp else g[1:-2]), "%s: %s parsed to %s", where, g.hex(), real.show(p))
        else:
            refuse(mq.parse_response, g, "%s: damaged response" % where, "response")
        if n:   # the response of another exchange
            other = cls()
            o = other.build_request(pdu, e["id"])
            if tcp:
                note_tid(ctx, int.from_bytes(o[:2], "big"), where)
                refuse(other.parse_response, r, "%s: response to another request" % where, "response")
        p = mq.parse_response(r)
        engine.ensure(bytes(p) == resp, "%s: response parsed to %s", where, real.show(p))
        ctx.label("%s %s" % (e["kind"], e["how"]))
    for h in case["crc"]:
        data = bytes.fromhex(h)
        ref = model.crc16(data)
        got = utils.calculate_crc(bytearray(data))
        engine.ensure(got == (ref & 0xff) << 8 | ref >> 8, "CRC of %s is %#06x on the line, expected %#06x", h, got,
                      (ref & 0xff) << 8 | ref >> 8)
        engine.ensure(utils.calculate_crc(data) == got, "CRC of %s differs for bytes and bytearray", h)
        engine.ensure(utils.swap_bytes(got) == ref, "swap_bytes(%#x) is %#x", got, utils.swap_bytes(got))
    if len(refused) == 2:
        ctx.nontrivial()
