"""P09 TCP master against a peer which sends wrong, stale, duplicated, truncated and genuine replies"""
from hypothesis import strategies as st

from pbt import calls, engine, replies

ID = "P09"
RULE = ("a case is 2-7 calls on one TcpMaster connected to a scripted peer; each is answered by 0-3 reply parts (genuine, "
        "exception, other transaction/protocol/unit id, other length, other function or size, reply to an earlier request, "
        "raw bytes), cut in segments, possibly truncated, possibly followed by a close or reset; non-trivial = a well-formed "
        "wrong reply was refused and a genuine one cut in several segments accepted")
EXAMPLES = {"quick": 700, "thorough": 15000}
CASE_TIMEOUT = 150
KINDS = ["ok", "ok", "exc", "exc-tid", "exc-stale", "exc-pid", "exc-unit", "exc-len", "tid", "tid", "stale", "stale", "pid", "unit", "len", "fc", "wrong", "raw"]


@st.composite
def _step(draw):
    c = draw(calls.call(fcs=replies.E2E))
    c.pop("raw", None)
    if draw(st.integers(0, 11)) == 0:
        c["slave"] = 0      # a TCP device that answers at unit 0
    if draw(st.integers(0, 2)) == 0:
        return {"call": c, "script": draw(replies.genuine(c, ("keep", "keep", "keep", "keep", "close", "rst")))}
    return {"call": c, "script": draw(replies.script(c, KINDS, "tcp"))}


def strategy(tier):
    return st.lists(_step(), min_size=2, max_size=7).map(lambda s: {"steps": s})


def run_case(case, ctx):
    from pbt import net, real
    from modbus_tk import modbus_tcp
    peer = net.Peer()
    m = modbus_tcp.TcpMaster(peer.addr, peer.port, net.WAIT)
    earlier, clean, seen = [], True, set()
    try:
        for n, s in enumerate(case["steps"]):
            c, sc = s["call"], s["script"]
            box = {}

            def answer(req):
                box["req"] = req
                box["data"] = replies.stream(sc, req, earlier, "tcp")
                return replies.steps(sc, box["data"])

            plain = len(sc["parts"]) == 1 and sc["parts"][0]["k"] == "ok" and sc.get("trunc") is None
            may_wait = not plain and sc["end"] == "keep"
            m.set_timeout(0.02 if may_wait else net.WAIT)
            peer.push(answer)
            try:
                res, err = m.execute(**calls.kwargs(c)), None
            except Exception as e:
                res, err = None, e
            where = "call %d %r script %r" % (n, c, sc)
            peer.wait_done()
            where += " sent " + box["data"].hex()
            engine.ensure(box["req"][6:] == bytes([c["slave"]]) + calls.encode(c) and box["req"][2:4] == b"\0\0",
                          "%s: request on the line is %s", where, box["req"].hex())
            v = replies.verdict(c, box["data"], box["req"], "tcp")
            if v[0] != "may" and (not plain or not clean or sc["end"] == "rst"):
                # leftovers of the last exchange, or a reset that may destroy the reply: refusing is allowed
                v = replies.weaken(v)
            replies.check(engine, real, v, res, err, where)
            for p in sc["parts"]:
                ctx.label("part " + p["k"])
            ctx.label("%s -> %s" % (v[0], "result" if err is None else "error"))
            if v[0] == "must" and len(sc["cuts"]) > 1:
                seen.add("good")
            if v[0] == "may" and any(p["k"] in ("tid", "stale", "pid", "unit") for p in sc["parts"]) and err is not None:
                seen.add("bad")
            earlier.append(box["req"])
            clean = plain and sc["end"] == "keep"
            if not clean and (sc["end"] != "keep" or n % 2):
                m.close()
                clean = True
    finally:
        m.close()
        peer.close()
    if len(seen) == 2:
        ctx.nontrivial()
