"""P08 RTU over TCP: fragmentation, exceptions, corruption and broken connections against a scripted peer"""
import time

from hypothesis import strategies as st

from pbt import calls, engine, gen, replies

ID = "P08"
RULE = ("a case is 2-7 calls on one RtuOverTcpMaster connected to a scripted peer; each gets a genuine or exception reply, a "
        "reply with surplus bytes behind it, with flipped bits, of another slave, of other function or size, raw bytes or none, cut in segments, possibly "
        "truncated, and the connection is kept, closed or reset; non-trivial = a genuine reply in several segments was "
        "accepted and a broken or corrupted one reported")
EXAMPLES = {"quick": 600, "thorough": 15000}
CASE_TIMEOUT = 150
KINDS = ["ok", "exc", "exc", "exc-crc", "exc-unit", "crc", "crc", "crc", "unit", "fc", "wrong", "raw"]
FCS = (1, 2, 3, 4, 5, 6, 7, 15, 16, 20, 22, 23, 8, 0)
ASSUMPTIONS = ["calls whose reply length the master cannot know (function 43, raw without expected_length) are not part of the claim"]


@st.composite
def _step(draw):
    c = draw(calls.call(fcs=FCS))
    c.pop("raw", None)
    if c["fc"] == 0:        # a raw read with the length and format given by the caller
        q = draw(st.integers(1, 20))
        c = {"fc": 3, "slave": c["slave"], "addr": draw(calls.word), "qty": q}
        c["explen"] = 2 * q + 5
    if draw(st.integers(0, 2)) == 0:
        s = draw(replies.genuine(c, ("keep", "keep", "keep", "keep", "close")))
        if s["end"] == "keep" and draw(st.integers(0, 2)) == 0:
            # more bytes than the reply: the reply a second time, another frame, anything
            s["surplus"] = draw(st.one_of(st.just("again"), st.binary(min_size=1, max_size=12).map(bytes.hex),
                                          calls.response(c).map(lambda r: replies.model.rtu_frame(c["slave"], r).hex())))
        return {"call": c, "script": s}
    s = draw(replies.script(c, KINDS, "rtu", ends=("close", "close", "rst", "keep"), max_parts=1))
    if s["parts"] and s.get("trunc") is None and draw(st.booleans()):
        s["trunc"] = draw(st.integers(0, 260))
    return {"call": c, "script": s}


def strategy(tier):
    return st.lists(_step(), min_size=2, max_size=7).flatmap(
        lambda s: st.integers(0, 9).map(lambda k: {"steps": s, "files": k == 0}))


def run_case(case, ctx):
    from pbt import net, real
    from modbus_tk import modbus_rtu_over_tcp
    files = net.ManyFiles(case.get("files"))
    peer = net.Peer("rtu")
    m = modbus_rtu_over_tcp.RtuOverTcpMaster(peer.addr, peer.port, net.WAIT)
    seen = set()
    try:
        for n, s in enumerate(case["steps"]):
            c, sc = s["call"], s["script"]
            box = {}

            def answer(req):
                box["req"] = req
                box["data"] = replies.stream(sc, req, [], "rtu")
                if "surplus" in sc:
                    box["data"] += box["data"] if sc["surplus"] == "again" else bytes.fromhex(sc["surplus"])
                return replies.steps(sc, box["data"])

            plain = len(sc["parts"]) == 1 and sc["parts"][0]["k"] == "ok" and sc.get("trunc") is None
            resp = bytes.fromhex(sc["parts"][0]["resp"]) if plain else b""
            genuine = plain and (calls.conforming(c, resp) or (len(resp) == 2 and resp[0] == c["fc"] | 0x80))
            must_end = genuine or sc["end"] != "keep"
            m.set_timeout(net.WAIT if must_end else 0.03)
            peer.need = 4 + len(c.get("out", ())) if c["fc"] == 8 else None
            peer.push(answer)
            t0 = time.time()
            try:
                res, err = m.execute(**calls.kwargs(c)), None
            except Exception as e:
                res, err = None, e
            peer.wait_done()
            took = time.time() - t0
            where = "call %d %r script %r sent %s" % (n, c, sc, box["data"].hex())
            engine.ensure(box["req"] == replies.model.rtu_frame(c["slave"], calls.encode(c)),
                          "%s: request on the line is %s", where, box["req"].hex())
            v = replies.verdict(c, box["data"], box["req"], "rtu")
            if v[0] != "may" and (not must_end or sc["end"] == "rst"):
                v = replies.weaken(v)
            replies.check(engine, real, v, res, err, where)
            # the peer has closed: waiting for the timeout means the end of the connection went unnoticed
            engine.ensure(took < net.WAIT - 1, "%s: the call waited for its timeout although the connection was closed "
                          "or the reply complete", where)
            ctx.label("%s %s -> %s" % (sc["parts"][0]["k"] if sc["parts"] else "nothing",
                                       sc["end"] + (" cut" if sc.get("trunc") is not None else ""),
                                       "surplus" if "surplus" in sc else "result" if err is None else type(err).__name__))
            if v[0] == "must" and len(sc["cuts"]) > 1:
                seen.add("good")
            if v[0] == "may" and err is not None:
                seen.add("bad")
            if not genuine or sc["end"] != "keep" or "trunc" in sc:
                m.close()       # what happens on a used connection is P14
    finally:
        m.close()
        peer.close()
        files.close()
    if len(seen) == 2:
        ctx.nontrivial()
