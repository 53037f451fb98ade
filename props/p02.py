"""P02 all-or-nothing: byte-level mutations of request PDUs, memory compared before and after"""
from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P02"
RULE = ("a case is a slave with data and 1-8 request PDUs made by truncating, extending, flipping or splicing well-formed "
        "requests, or random bytes, sent through Databank.handle_request under TCP or RTU framing; non-trivial = a write "
        "function was refused or malformed while its range holds data")
EXAMPLES = {"quick": 1500, "thorough": 40000}
ASSUMPTIONS = ["bytes after a complete request PDU may be ignored or make the request invalid"]


@st.composite
def _mutate(draw, pdu):
    kind = draw(st.integers(0, 9))
    if kind <= 3:
        return pdu[:draw(st.integers(0, len(pdu)))]
    if kind == 4:
        return pdu[:max(0, len(pdu) - draw(st.integers(1, 3)))]
    if kind == 5:
        return pdu + draw(st.binary(min_size=1, max_size=6))
    if kind <= 7 and pdu:
        b = bytearray(pdu)
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, min(len(b) - 1, 11)))
            b[i] = draw(st.integers(0, 255))
        return bytes(b)
    if kind == 8:
        return draw(st.binary(max_size=20))
    return pdu


@st.composite
def _case(draw):
    unsigned = draw(st.booleans())
    layout = draw(gen.layouts())
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        pdu = draw(gen.request_pdu(layout, fcs=(15, 16, 23, 22, 5, 6, 15, 16, 23, 1, 3)))
        ops.append(draw(_mutate(pdu)).hex())
    return {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned)),
            "tcp": draw(st.booleans()), "ops": ops, "last": draw(gen.request_pdu(layout, bad=False)).hex()}


def strategy(tier):
    return _case()


def _send(real, db, tcp, pdu, n):
    """one request through the databank: response PDU, or the raw return value when it is not a frame"""
    if tcp:
        from modbus_tk import modbus_tcp
        r = db.handle_request(modbus_tcp.TcpQuery(), model.tcp_frame(n + 1, 1, pdu))
        return bytes(r[7:]) if r and len(r) > 7 else r
    from modbus_tk import modbus_rtu
    r = db.handle_request(modbus_rtu.RtuQuery(), model.rtu_frame(1, pdu))
    return bytes(r[1:-2]) if r and len(r) > 3 else r


def run_case(case, ctx):
    from pbt import real
    db = real.modbus.Databank()
    slave = db.add_slave(1, unsigned=case["unsigned"])
    ms = model.ModelSlave(case["unsigned"])
    real.build_slave(slave, case["layout"], case["init"])
    real.build_model(ms, case["layout"], case["init"])
    for n, op in enumerate(case["ops"] + [case["last"]]):
        pdu = bytes.fromhex(op)
        out = ms.judge(pdu)
        before = ms.snapshot()
        try:
            resp = _send(real, db, case["tcp"], pdu, n)
        except Exception as e:
            if not (out.kind == "loose" and not out.writes):
                raise
            resp = None     # function code above 127: no reply can be built
        ms.apply(out)
        after = ms.snapshot()
        got = real.snapshot(slave, case["layout"])
        where = "request %d (%s)" % (n, op[:60])
        allowed = {"reply": [after], "exc": [before], "short": [before]}.get(out.kind, [before, after])
        ctx.label("%s fc%s" % (out.kind, pdu[0] if pdu and pdu[0] in gen.SUPPORTED else "other"))
        if out.kind in ("exc", "short") and pdu and pdu[0] in gen.WRITES and case["init"]:
            ctx.nontrivial()
        if got not in allowed:
            raise engine.Violation("after %s, judged %s (%s): %s" % (
                where, out.kind, out.why, real.diff(got, allowed[0])))
        if got == before:
            for name, b in ms.names.items():
                b.values[:] = before[name]
        if out.kind in ("reply", "exc"):
            real.check_response(out, resp, where)
