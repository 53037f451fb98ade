"""P16 slave ids: generated histories of slave management mixed with request frames"""
import struct

from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P16"
RULE = ("a case is a server (TCP or RTU framing, missing slaves an error or not) and 4-25 steps: add/get/remove slaves (also "
        "duplicate, unknown and invalid ids), remove all, and request frames for existing, removed and unknown ids; "
        "non-trivial = a write reached one of several slaves, and a request to an unknown or removed id was silent")
EXAMPLES = {"quick": 1500, "thorough": 40000}
LAYOUT = [[1, 0, 10], [2, 0, 10], [3, 0, 8], [4, 0, 8]]
IDS = [1, 2, 3, 128, 254, 255]


@st.composite
def _steps(draw):
    live, dead, steps = set(), set(), []
    for _ in range(draw(st.integers(4, 25))):
        op = draw(st.sampled_from(["add"] * 4 + ["get"] + ["remove"] * 2 + ["removeall"] + ["req"] * 10))
        if op == "removeall":
            if draw(st.integers(0, 3)):
                op = "req"
            else:
                steps.append([op])
                dead |= live
                live.clear()
                continue
        pools = [IDS, list(range(1, 256)), [0, -1, 256, 300] if op != "req" else IDS]
        k = draw(st.integers(0, 9))
        if op != "add" and live and k <= 6:
            sid = draw(st.sampled_from(sorted(live)))
        elif op in ("req", "add") and dead and k <= 8:
            sid = draw(st.sampled_from(sorted(dead)))
        else:
            sid = draw(st.sampled_from(pools[draw(st.sampled_from([0, 0, 0, 1, 2]))]))
        if op == "add":
            steps.append([op, sid, draw(st.sampled_from([True, True, False, None]))])
            if 1 <= sid <= 255:
                live.add(sid)
                dead.discard(sid)
        elif op == "req":
            steps.append([op, sid, draw(gen.request_pdu(LAYOUT)).hex()])
        else:
            steps.append([op, sid])
            if op == "remove" and sid in live:
                live.discard(sid)
                dead.add(sid)
    return steps


def strategy(tier):
    return st.fixed_dictionaries({
        "server": st.sampled_from(["tcp", "rtu"]), "missing": st.booleans(), "via": st.sampled_from(["server", "db"]),
        "steps": _steps()})


def run_case(case, ctx):
    from pbt import fakeserial, real
    from modbus_tk import modbus_rtu, modbus_tcp
    if case["server"] == "tcp":
        srv = modbus_tcp.TcpServer(1, "127.0.0.1", error_on_missing_slave=case["missing"])
        query = modbus_tcp.TcpQuery
    else:
        srv = modbus_rtu.RtuServer(fakeserial.Port(), error_on_missing_slave=case["missing"])
        query = modbus_rtu.RtuQuery
    db = srv.get_db()
    api = srv if case["via"] == "server" else db
    live, models = {}, {}       # id -> real slave / model
    gone = []                   # (real slave, model) of removed slaves
    count = 0
    wrote = silent = False
    for n, s in enumerate(case["steps"]):
        where = "step %d %r" % (n, s)
        op = s[0]
        err = res = None
        if op in ("add", "get", "remove", "removeall"):
            try:
                if op == "add":
                    res = api.add_slave(s[1]) if s[2] is None else api.add_slave(s[1], s[2])
                elif op == "get":
                    res = api.get_slave(s[1])
                elif op == "remove":
                    res = api.remove_slave(s[1])
                else:
                    res = api.remove_all_slaves()
            except Exception as e:
                err = e
            known = len(s) > 1 and s[1] in live
            ctx.label("%s %s" % (op, "ok" if err is None else type(err).__name__))
            if op == "add":
                if not 1 <= s[1] <= 255:
                    engine.ensure(err is not None, "%s: invalid id accepted", where)
                elif known:
                    engine.ensure(isinstance(err, real.mexc.DuplicatedKeyError), "%s: %r instead of DuplicatedKeyError", where, err)
                else:
                    engine.ensure(err is None, "%s: refused: %r", where, err)
                    live[s[1]], models[s[1]] = res, model.ModelSlave(s[2] is not False)
                    count += 1
                    init = [[2, 0, [count * 16 + k for k in range(8)]], [3, 0, [count]], [0, 0, [count & 1, 1]]]
                    real.build_slave(res, LAYOUT, init)
                    real.build_model(models[s[1]], LAYOUT, init)
            elif op == "get":
                if known:
                    engine.ensure(err is None and res is live[s[1]], "%s: returned %r / %r", where, res, err)
                else:
                    engine.ensure(isinstance(err, real.mexc.MissingKeyError), "%s: %r instead of MissingKeyError", where, err or res)
            elif op == "remove":
                if known:
                    engine.ensure(err is None, "%s: raised %r", where, err)
                    gone.append((live.pop(s[1]), models.pop(s[1])))
                else:
                    engine.ensure(isinstance(err, real.mexc.MissingKeyError), "%s: %r instead of MissingKeyError", where, err)
            else:
                engine.ensure(err is None, "%s: raised %r", where, err)
                gone.extend((live[i], models[i]) for i in live)
                live.clear()
                models.clear()
        else:
            pdu = bytes.fromhex(s[2])
            frame = model.tcp_frame(0x1200 + n, s[1], pdu) if case["server"] == "tcp" else model.rtu_frame(s[1], pdu)
            resp = db.handle_request(query(), frame)
            ms = models.get(s[1])
            if ms is None:
                engine.ensure(not resp, "%s: answered %s although there is no such slave", where, real.show(resp))
                silent = True
                ctx.label("request to unknown id")
            else:
                out = ms.judge(pdu)
                engine.ensure(isinstance(resp, (bytes, bytearray)) and resp, "%s: no reply but %r", where, resp)
                resp = bytes(resp)
                if case["server"] == "tcp":
                    engine.ensure(resp[:7] == struct.pack(">HHHB", 0x1200 + n, 0, len(resp) - 6, s[1]), "%s: header %s", where,
                                  resp[:7].hex())
                    body = resp[7:]
                else:
                    engine.ensure(resp == model.rtu_frame(s[1], resp[1:-2]), "%s: reply frame %s", where, resp.hex())
                    body = resp[1:-2]
                real.check_response(out, body, where)
                if out.kind == "reply":
                    ms.apply(out)
                    if out.writes and len(live) > 1:
                        wrote = True
                ctx.label("request %s" % out.kind)
        for i in live:
            d = real.diff(real.snapshot(live[i], LAYOUT), models[i].snapshot())
            engine.ensure(d is None, "after %s slave %d: %s", where, i, d)
        for r, ms in gone:
            d = real.diff(real.snapshot(r, LAYOUT), ms.snapshot())
            engine.ensure(d is None, "after %s a removed slave changed: %s", where, d)
    if wrote and silent:
        ctx.nontrivial()
