"""P15 broadcasts: generated sets of slaves and request PDUs addressed to id 0"""
from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P15"
RULE = ("a case is 1-4 slaves with different layouts and 1-8 requests sent to id 0 (writes, reads, unknown functions, mutated, "
        "truncated, random PDUs), through a databank with TCP or RTU queries, a real TcpServer or an RtuServer thread, "
        "optionally with a hook that fails on one slave; non-trivial = one broadcast was applied by one slave and refused by "
        "another")
EXAMPLES = {"quick": 900, "thorough": 25000}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["a malformed PDU may be applied by a slave or not, as a whole", "function 23 counts as a write",
               "the slave whose hook fails may miss the broadcast"]
PROBE = 200


@st.composite
def _pdu(draw, lay):
    sid = draw(st.sampled_from(sorted(lay)))
    w = draw(st.integers(0, 9))
    pdu = draw(gen.request_pdu(lay[sid], fcs=gen.WRITES if w < 8 else gen.SUPPORTED))
    k = draw(st.integers(0, 11))
    if k == 0:
        pdu = pdu[:draw(st.integers(0, len(pdu) - 1))]
    elif k == 1:
        i = draw(st.integers(0, len(pdu) - 1))
        pdu = pdu[:i] + bytes([draw(st.integers(0, 255))]) + pdu[i + 1:]
    elif k == 2:
        pdu = draw(st.binary(max_size=10))
    return pdu.hex()


@st.composite
def _case(draw):
    slaves, lay = {}, {}
    ids = draw(st.lists(st.sampled_from([1, 2, 3, 17, 247, 255]), min_size=1, max_size=4, unique=True))
    shared = draw(gen.layouts(max_blocks=3, big=draw(st.booleans()), types=(1, 3)))
    for i in ids:
        unsigned = draw(st.booleans())
        layout = draw(gen.layouts(max_blocks=3, big=False))
        if draw(st.booleans()):
            # the same registers as the others, so that one request fits several slaves
            layout = [b for b in shared if draw(st.integers(0, 4)) > 0] or layout
        slaves[str(i)] = {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned))}
        lay[i] = layout
    case = {"how": draw(st.sampled_from(["db-tcp", "db-tcp", "db-rtu", "db-rtu", "tcp", "rtu"])), "slaves": slaves,
            "pdus": draw(st.lists(_pdu(lay), min_size=1, max_size=8)), "missing": draw(st.booleans())}
    if draw(st.integers(0, 4)) == 0:
        case["failing"] = [draw(st.sampled_from(ids)), draw(st.sampled_from(["Exception", "ModbusError", "KeyError", "Invalid"]))]
    return case


def strategy(tier):
    return _case()


def run_case(case, ctx):
    from pbt import fakeserial, net, real
    from modbus_tk import modbus_rtu, modbus_tcp
    real.clear_hooks()
    how = case["how"]
    conn = srv = port = None
    if how == "rtu":
        port = fakeserial.Port()
        srv = modbus_rtu.RtuServer(port, error_on_missing_slave=case["missing"])
        srv.start()
        db = srv.get_db()
    elif how == "tcp":
        db = modbus_tcp_server(ctx, net)
        db.remove_all_slaves()
        db.error_on_missing_slave = case["missing"]
        db.add_slave(PROBE)
        conn = net.Raw(*ctx.store["srv"][1:])
    else:
        db = real.modbus.Databank(error_on_missing_slave=case["missing"])
    models, slaves = {}, {}
    for sid, d in case["slaves"].items():
        s = slaves[sid] = db.add_slave(int(sid), unsigned=d["unsigned"])
        models[sid] = model.ModelSlave(d["unsigned"])
        real.build_slave(s, d["layout"], d["init"])
        real.build_model(models[sid], d["layout"], d["init"])
    fail = case.get("failing")
    if fail:
        errors = {"Exception": Exception, "KeyError": KeyError, "ModbusError": lambda m: real.mexc.ModbusError(4),
                  "Invalid": real.mexc.ModbusInvalidRequestError}
        bad = slaves[str(fail[0])]

        def hook(args):
            if args[0] is bad:
                raise errors[fail[1]]("raised by a hook")
        real.hooks.install_hook("modbus.Slave.handle_request", hook)
    try:
        for n, hexpdu in enumerate(case["pdus"]):
            pdu = bytes.fromhex(hexpdu)
            where = "%s broadcast %d %s" % (how, n, hexpdu)
            if how == "db-tcp":
                got = db.handle_request(modbus_tcp.TcpQuery(), model.tcp_frame(n, 0, pdu))
            elif how == "db-rtu":
                got = db.handle_request(modbus_rtu.RtuQuery(), model.rtu_frame(0, pdu))
            elif how == "rtu":
                nw = len(port.written)
                port.feed([model.rtu_frame(0, pdu), fakeserial.GAP])
                engine.ensure(port.wait_idle(), "%s: the server does not come back to waiting", where)
                got = b"".join(port.written[nw:])
            else:
                conn.send(model.tcp_frame(n, 0, pdu))
                conn.send(model.tcp_frame(0x700 + n, PROBE, b"\x07"))
                try:
                    tid, _, unit, resp = conn.recv_frame()
                except net.Closed as e:
                    raise engine.Violation("%s: %s" % (where, e))
                got = None if (tid, unit) == (0x700 + n, PROBE) else (tid, unit, resp)
            engine.ensure(not got, "%s was answered with %r", where, got)
            kinds = set()
            for sid, ms in models.items():
                before = ms.snapshot()
                out = ms.judge(pdu)
                now = real.snapshot(slaves[sid], case["slaves"][sid]["layout"])
                if out.kind in ("reply", "exc"):
                    if out.kind == "reply" and out.writes:
                        ms.apply(out)
                    d = real.diff(now, ms.snapshot())
                    if d is not None and fail and str(fail[0]) == sid and real.diff(now, before) is None:
                        real_to_model(ms, before)
                        d = None
                    engine.ensure(d is None, "after %s slave %s (%s): %s", where, sid, out.kind, d)
                    kinds.add(out.kind if out.kind == "exc" else "applied" if out.writes else "read")
                else:
                    if real.diff(now, before) is not None:
                        ms.apply(out)
                        d = real.diff(now, ms.snapshot())
                        engine.ensure(out.kind != "short" and d is None, "after %s slave %s (malformed): %s", where, sid, d or
                                      real.diff(now, before))
                    kinds.add("malformed")
            for k in kinds:
                ctx.label("%s %s" % (how, k))
            if "applied" in kinds and "exc" in kinds:
                ctx.nontrivial()
    finally:
        real.clear_hooks()
        if conn:
            conn.close()
        if how == "rtu":
            srv.stop()


def real_to_model(ms, snap):
    for name, vals in snap.items():
        ms.names[name].values[:] = vals


def modbus_tcp_server(ctx, net):
    if "srv" not in ctx.store:
        ctx.store["srv"] = net.start_server()
    return ctx.store["srv"][0].get_db()
