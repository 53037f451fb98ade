"""P05 master decoding: conforming and non-conforming response PDUs under a correct envelope"""
from hypothesis import strategies as st

from pbt import calls, engine

ID = "P05"
RULE = ("a case is 1-6 calls on one TCP or RTU master, each answered by a conforming response, an exception response or a "
        "response made non-conforming in one way (function code, byte count, quantity, cut, extended) inside a correct "
        "envelope; non-trivial = a data carrying response was decoded and a wrong one refused")
EXAMPLES = {"quick": 2500, "thorough": 60000}
ASSUMPTIONS = ["with returns_raw the byte count is only compared with the data, not with the quantity",
               "the echo of a write is returned as sent by the slave"]


@st.composite
def _step(draw):
    c = draw(calls.call())
    fc = c["fc"]
    resp = draw(calls.response(c))
    if fc == 0:
        if draw(st.booleans()):
            c.pop("raw", None)
            c["fmt"] = ">%dB" % (len(resp) - 1)
        else:
            c["raw"] = True
    elif fc in (5, 6, 15, 22) and draw(st.integers(0, 5)) == 0:
        pass
    k = draw(st.integers(0, 9))
    if k <= 3:
        return {"call": c, "kind": "ok", "resp": resp.hex()}
    if k == 4:
        code = draw(st.integers(1, 255))
        rfc = (calls.encode(c)[0]) | 0x80
        return {"call": c, "kind": "exc", "resp": bytes([rfc, code]).hex(), "code": code}
    c.pop("raw", None)
    if fc == 0:
        return {"call": c, "kind": "ok", "resp": resp.hex()} if "fmt" in c else {
            "call": dict(c, raw=True), "kind": "ok", "resp": resp.hex()}
    b = bytearray(resp)
    opts = ["fc"] * 2
    if fc != 43:
        opts += ["cut", "extend"] * 2
    if fc in (1, 2, 3, 4, 20, 23):
        opts += ["count"] * 2
    if fc in (1, 2, 3, 4, 23):
        opts += ["other qty"] * 3
    if fc == 20:
        opts += ["sub length"] * 2
    how = draw(st.sampled_from(opts))
    if how == "fc":
        other = draw(st.one_of(st.sampled_from([f for f in (1, 2, 3, 4, 5, 6, 15, 16, 22, 23, fc ^ 1, fc + 1, 0)
                                                if f != fc]), st.integers(0, 128).filter(lambda f: f != fc)))
        b[0] = other
    elif how == "cut":
        b = b[:draw(st.integers(0, len(b) - 1))]
    elif how == "extend":
        b += draw(st.binary(min_size=1, max_size=4))
    elif how == "count":
        b[1] = draw(st.one_of(st.integers(0, 255), st.sampled_from([(b[1] + 1) % 256, (b[1] - 1) % 256])).filter(
            lambda v: v != b[1]))
    elif how == "other qty":
        unit = 1 if fc < 3 else 2
        n = b[1] // unit
        m = draw(st.one_of(st.sampled_from([n - 1, n + 1, 1, 2, 0]), st.integers(0, 250 // unit)).filter(
            lambda v: v != n and 0 <= v <= 255 // unit))
        data = (bytes(b[2:]) * (m // max(1, n) + 2) + bytes(512))[:m * unit]
        b = bytearray([fc, m * unit]) + data
    elif how == "sub length":
        p = 2
        i = draw(st.integers(0, len(c["qty"]) - 1))
        for q in c["qty"][:i]:
            p += 2 * q + 2
        b[p] = draw(st.integers(0, 255).filter(lambda v: v != b[p]))
    return {"call": c, "kind": how, "resp": bytes(b).hex()}


def strategy(tier):
    return st.fixed_dictionaries({"master": st.sampled_from(["tcp", "rtu"]),
                                  "steps": st.lists(_step(), min_size=1, max_size=6)})


def run_case(case, ctx):
    from pbt import masters, real
    m = masters.make(case["master"])
    seen = set()
    for n, s in enumerate(case["steps"]):
        c = s["call"]
        resp = bytes.fromhex(s["resp"])
        m.reply = lambda request: m.wrap(request, resp)
        where = "%s call %d %r answered %s" % (case["master"], n, c, s["resp"][:80])
        try:
            res, err = m.execute(**calls.kwargs(c)), None
        except Exception as e:
            res, err = None, e
        ctx.label("%s fc%d" % (s["kind"], c["fc"]))
        if s["kind"] == "ok":
            engine.ensure(err is None, "%s: conforming response raised %s: %s", where, type(err).__name__, err)
            want = calls.result(c, resp)
            engine.ensure(calls.same(res, want), "%s: returned %r, expected %r", where, res, want)
            seen.add("ok")
        elif s["kind"] == "exc":
            engine.ensure(isinstance(err, real.mexc.ModbusError) and err.get_exception_code() == s["code"],
                          "%s: exception response gave %r / %r", where, res, err)
        else:
            engine.ensure(err is not None, "%s (%s): wrong response accepted, returned %r", where, s["kind"], res)
            seen.add("bad")
    if len(seen) == 2:
        ctx.nontrivial()
