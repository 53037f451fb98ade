"""P14 recovery: generated histories of failures, each followed (sooner or later) by a working exchange"""
import time

from hypothesis import strategies as st

from pbt import calls, engine, replies

ID = "P14"
RULE = ("a case is a TcpMaster (mostly) or RtuOverTcpMaster and 2-9 steps: working exchange, peer absent, connection closed or "
        "reset before / during / after a reply or between calls, reply that comes after the timeout, unsolicited bytes, "
        "Modbus error, invalid reply, application closing the master (in 1 case of 8 with more open files than select can watch); non-trivial = at least two kinds of failure were "
        "reported and a working exchange succeeded after each")
EXAMPLES = {"quick": 450, "thorough": 12000}
CASE_TIMEOUT = 200
FCS = (1, 2, 3, 4, 5, 6, 15, 16, 22, 23)


@st.composite
def _step(draw, framing):
    c = draw(calls.call(fcs=FCS))
    c.pop("raw", None)
    resp = draw(calls.response(c)).hex()
    op = draw(st.sampled_from(["good"] * 7 + ["absent", "between", "between", "late", "late", "noise", "exc", "exc", "script",
                                             "script", "script", "appclose", "silent"]))
    s = {"op": op, "call": c, "resp": resp, "cuts": draw(st.lists(st.integers(1, 300), max_size=4))}
    if op == "good":
        s["end"] = draw(st.sampled_from(["keep", "keep", "keep", "close", "rst"]))
    elif op == "between":
        s["how"] = draw(st.sampled_from(["close", "rst"]))
    elif op == "noise":
        s["data"] = draw(st.binary(min_size=1, max_size=30)).hex()
        s["times"] = draw(st.sampled_from([1, 1, 1, 40, 140]))
    elif op == "exc":
        s["resp"] = bytes([c["fc"] | 0x80, draw(st.integers(1, 11))]).hex()
    elif op == "script":
        kinds = ["ok", "tid", "stale", "pid", "unit", "len", "fc", "wrong", "raw", "exc-tid", "exc-stale",
                 "exc-pid", "exc-unit"] if framing == "tcp" else \
            ["ok", "crc", "unit", "fc", "wrong", "raw", "exc-crc", "exc-unit"]
        s["script"] = draw(replies.script(c, kinds, framing, ends=("keep", "close", "rst", "close", "rst"),
                                          max_parts=2))
    return s


@st.composite
def _case(draw):
    framing = draw(st.sampled_from(["tcp", "tcp", "tcp", "rtu"]))
    steps = draw(st.lists(_step(framing), min_size=2, max_size=9))
    return {"framing": framing, "steps": steps, "files": draw(st.integers(0, 7)) == 0}


def strategy(tier):
    return _case()


def run_case(case, ctx):
    from pbt import net, real
    from modbus_tk import modbus_rtu_over_tcp, modbus_tcp
    fr = case["framing"]
    files = net.ManyFiles(case.get("files"))
    peer = net.Peer(fr)
    cls = modbus_tcp.TcpMaster if fr == "tcp" else modbus_rtu_over_tcp.RtuOverTcpMaster
    m = cls(peer.addr, peer.port, net.WAIT)
    earlier = []
    suspect = False     # something went wrong which no call has reported yet
    failed = set()
    recovered = set()
    try:
        for n, s in enumerate(list(case["steps"]) + [None]):
            if s is None:       # always end with a working exchange, twice when a failure may be unreported
                s = {"op": "good", "call": {"fc": 3, "slave": 1, "addr": 7, "qty": 2}, "resp": "030412345678", "cuts": [],
                     "end": "keep"}
            c, op = s["call"], s["op"]
            if op == "appclose":
                m.close()
                continue
            if op == "between":
                if s["how"] == "rst":
                    import socket
                    import struct
                    for k in peer.conns:
                        try:
                            k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        except OSError:
                            pass
                peer.drop_connections()
                suspect = True
                continue
            if op == "noise":
                peer.inject(bytes.fromhex(s["data"]) * s["times"])
                suspect = True
                continue
            tries = 2 if op == "good" and suspect else 1
            for attempt in range(tries):
                box = {}

                def answer(req):
                    box["req"] = req
                    if op in ("silent", "late"):
                        return []
                    sc = s.get("script") or {"parts": [{"k": "ok", "resp": s["resp"]}], "cuts": s["cuts"], "pause": False,
                                             "end": s.get("end", "keep")}
                    box["data"] = replies.stream(sc, req, earlier, fr)
                    return replies.steps(sc, box["data"])

                quick = op in ("silent", "late") or (op == "script" and s["script"]["end"] == "keep")
                m.set_timeout(0.03 if quick else net.WAIT)
                if op == "absent":
                    peer.unlisten()
                    peer.drop_connections()
                else:
                    peer.push(answer)
                try:
                    res, err = m.execute(**calls.kwargs(c)), None
                except Exception as e:
                    res, err = None, e
                where = "step %d %r attempt %d" % (n, s, attempt)
                if op == "absent":
                    peer.listen()
                    engine.ensure(err is not None, "%s: nobody was there and the call returned %r", where, res)
                    failed.add(op)
                    suspect = False
                    break
                arrived = True
                if suspect and err is not None:
                    # the request may have gone down with the old connection
                    try:
                        peer.done.get(timeout=1.0)
                    except net.queue.Empty:
                        arrived = False
                        try:
                            peer.scripts.get_nowait()
                        except net.queue.Empty:
                            peer.wait_done()
                            arrived = True
                else:
                    peer.wait_done()
                if op == "late" and arrived:
                    earlier.append(box["req"])
                    peer.inject(replies.build({"k": "ok", "resp": s["resp"]}, box["req"], [], fr))
                if op in ("silent", "late"):
                    engine.ensure(err is not None, "%s: no reply was sent and the call returned %r", where, res)
                    failed.add(op)
                    suspect = False
                    continue
                if not arrived:
                    engine.ensure(op != "good" or attempt + 1 < tries, "%s: raised %r although the server works and the last "
                                  "call had reported the failure", where, err)
                    suspect = False
                    continue
                if op != "late":
                    earlier.append(box["req"])
                v = replies.verdict(c, box["data"], box["req"], fr)
                where += " sent %s" % box["data"].hex()
                if op == "good":
                    if suspect and err is not None and attempt + 1 < tries:
                        suspect = False
                        continue        # this call reports the unreported failure
                    if s["end"] == "rst" and v[0] == "must":
                        v = replies.weaken(v)
                    replies.check(engine, real, v, res, err, where)
                    recovered.update(failed)
                    suspect = s["end"] != "keep" and err is None
                    break
                if v[0] != "may" and (suspect or op == "script"):
                    v = replies.weaken(v)
                replies.check(engine, real, v, res, err, where)
                failed.add(op if op != "script" else "script " + s["script"]["end"])
                suspect = err is None and op == "script"
                if op == "script":
                    time.sleep(0.005)   # the rest of what the peer has sent
            ctx.label("%s %s" % (fr, op))
    finally:
        m.close()
        peer.close()
        files.close()
    if case.get("files"):
        ctx.label("many open files")
    if len(recovered) >= 2:
        ctx.nontrivial()
