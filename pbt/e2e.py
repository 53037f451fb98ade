"""Calls through a real master against a modelled server: generation and judgement"""
import struct

from hypothesis import strategies as st

from pbt import calls, engine, gen


def pdu_to_call(pdu, slave, signed_args):
    """the master call which encodes to this request PDU (payload sizes the master cannot encode are clamped)"""
    fc = pdu[0]
    c = {"fc": fc, "slave": slave}
    if fc in (1, 2, 3, 4):
        c["addr"], c["qty"] = struct.unpack(">HH", pdu[1:5])
    elif fc == 5:
        c["addr"], v = struct.unpack(">HH", pdu[1:5])
        c["out"] = 1 if v else 0
    elif fc == 6:
        c["addr"], c["out"] = struct.unpack(">Hh" if signed_args is True else ">HH", pdu[1:5])
    elif fc == 15:
        c["addr"], q = struct.unpack(">HH", pdu[1:5])
        q = min(q, 2040)
        n = int.from_bytes(pdu[6:], "little")
        c["out"] = [(n >> i) & 1 for i in range(q)]
    elif fc == 16:
        c["addr"], q = struct.unpack(">HH", pdu[1:5])
        c["out"] = _regs(pdu[6:], min(q, 127), signed_args)
    elif fc == 22:
        c["addr"], c["am"], c["om"] = struct.unpack(">HHH", pdu[1:7])
    elif fc == 23:
        c["addr"], c["qty"], c["waddr"], wq = struct.unpack(">HHHH", pdu[1:9])
        wq = min(wq, 126)
        if wq in (122, 123):
            wq = 121
        c["out"] = _regs(pdu[10:], wq, signed_args)
    return c


def _regs(data, n, signed):
    data = (data + bytes(2 * n))[:2 * n]
    words = struct.unpack(">%dH" % n, data)
    # signed: False, True or "mixed" (every other value)
    return [w - 0x10000 if w > 0x7fff and (signed is True or signed and i % 2) else w for i, w in enumerate(words)]


@st.composite
def e2e_call(draw, layouts):
    """layouts: {slave id: layout}"""
    sid = draw(st.sampled_from(sorted(layouts)))
    if draw(st.integers(0, 29)) == 0:
        c = draw(calls.call(fcs=(8, 20, 43), slaves=st.just(sid)))
        c.pop("raw", None)
        return c
    pdu = draw(gen.request_pdu(layouts[sid], other_fc=False, bad=False))
    c = pdu_to_call(pdu, sid, draw(st.sampled_from([False, True, "mixed"])))
    if c["fc"] in (3, 4, 23) and draw(st.integers(0, 7)) == 0:
        c["fmt"] = draw(st.sampled_from([">%dh", "<%dH", ">%dH"])) % c["qty"]
    return c


def judge(ctx, c, ms, execute, real, where):
    """run a call and compare with the model ms of its slave; returns (kind, result)"""
    pdu = calls.encode(c)
    out = ms.judge(pdu)
    try:
        res, err = execute(**calls.kwargs(c)), None
    except Exception as e:
        res, err = None, e
    ctx.label("%s fc%d" % (out.kind, c["fc"]))
    if out.kind == "reply":
        if err is not None:
            raise engine.Violation("%s: %r raised %s: %s" % (where, c, type(err).__name__, err)) from err
        want = calls.result(c, out.reply)
        engine.ensure(calls.same(res, want), "%s: %r returned %r, expected %r", where, c, res, want)
        ms.apply(out)
    elif out.kind == "exc":
        ok = isinstance(err, real.mexc.ModbusError) and err.get_exception_code() in out.codes
        engine.ensure(ok, "%s: %r gave result %r / error %r, expected a Modbus error with code in %s",
                      where, c, res, err, sorted(out.codes))
    else:
        raise AssertionError("call %r judged %r" % (c, out))
    return out.kind, res
