"""P26 the pymodbus-style client: histories of calls over real TCP connections against the reference slave"""
from hypothesis import strategies as st

from pbt import calls, engine, gen, model

ID = "P26"
RULE = ("a case is a client made with any subset of its arguments (by position or name), and 2-24 steps: its reads and writes with "
        "valid and invalid addresses, quantities and values, calls of a native master, accesses of the server application, open, "
        "close, also against a port where nobody listens; non-trivial = the client read data somebody else wrote and its own write "
        "was seen by the others")
EXAMPLES = {"quick": 700, "thorough": 15000}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["the unit id of the client is 1, its default port 502 on 127.0.0.1 (left out when the port cannot be bound)"]


@st.composite
def _case(draw):
    unsigned = draw(st.integers(0, 3)) > 0
    layout = draw(gen.layouts(max_blocks=4))
    have = set(b[0] for b in layout)
    steps = []
    for _ in range(draw(st.integers(2, 24))):
        k = draw(st.integers(0, 19))
        if k <= 8:
            fc = draw(st.sampled_from([f for f in (1, 2, 4) for _ in range(6 if f in have else 1)]))
            a, q = draw(gen.addr_qty(layout, fc, 125 if fc == 4 else 2000))
            if draw(st.integers(0, 19)) == 0:
                a, q = draw(st.sampled_from([(a, -1), (a, 65536), (-1, q), (65536, q), (70000, q), (a, 65536 + q)]))
            steps.append(["read", fc, a, q, draw(st.integers(0, 7)) == 0])
        elif k <= 12:
            fc = draw(st.sampled_from([f for f, t in ((5, 1), (6, 3)) for _ in range(6 if t in have else 1)]))
            a, _ = draw(gen.addr_qty(layout, 1 if fc == 5 else 3, 3))
            if fc == 5:
                v = draw(st.sampled_from([0, 1, True, False, 2, 255, -1, 0xff00]))
            else:
                v = draw(st.one_of(st.integers(0, 0xffff), st.integers(-0x8000, -1), st.sampled_from([65536, 70000, -32769, -65536, 1 << 32])))
            if draw(st.integers(0, 19)) == 0:
                a = draw(st.sampled_from([-1, 65536, 65536 + a, -65536]))
            steps.append(["write", fc, a, v, draw(st.booleans())])
        elif k <= 15:
            b = draw(st.integers(0, len(layout) - 1))
            typ, start, size = layout[b]
            off = draw(st.integers(0, size - 1))
            n = draw(st.integers(1, min(size - off, 8)))
            lo, hi = (0, 1) if typ < 3 else ((0, 0xffff) if unsigned else (-0x8000, 0x7fff))
            steps.append(["set", b, off, draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))])
        elif k == 16:
            steps.append(["native", draw(gen.request_pdu(layout, fcs=(1, 2, 3, 4, 5, 6), other_fc=False, bad=False)).hex()])
        else:
            steps.append([draw(st.sampled_from(["open", "close", "close", "last_error", "drop"]))])
    return {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned)), "steps": steps,
            "give": [draw(st.integers(0, 3)) > 0, draw(st.integers(0, 3)) > 0, draw(st.booleans())],
            "how": draw(st.sampled_from(["name", "position", "None", "extra"])), "dead": draw(st.integers(0, 9)) == 0}


def strategy(tier):
    return _case()


def setup(ctx):
    from pbt import net, real
    from modbus_tk import modbus_tcp
    db = real.modbus.Databank()
    own = net.address()
    ctx.store["db"] = db
    ctx.store["servers"] = []
    ctx.store["at"] = {}
    for name, addr, port in (("both", own, net.free_port(own)), ("port", "127.0.0.1", None), ("host", own, 502),
                             ("none", "127.0.0.1", 502)):
        if port is None:
            # a port of this worker alone, outside of the range of ephemeral ports
            for port in range(20000 + 31 * ctx.shard, 20031 + 31 * ctx.shard):
                if can_bind(addr, port):
                    break
        elif port == 502 and not can_bind(addr, port):
            continue
        failed = []

        def on_exception(a):
            failed.append(a)
        real.hooks.install_hook("modbus.Server.on_exception", on_exception)
        srv = modbus_tcp.TcpServer(port, addr, databank=db)
        srv.start()
        import time
        end = time.time() + net.WAIT
        ok = False
        while time.time() < end and not failed and not ok:
            ok = answers(addr, port, srv, real)
        real.hooks.uninstall_hook("modbus.Server.on_exception", on_exception)
        if failed or not ok:
            if name in ("both",):
                raise engine.Violation("the server does not start on %s:%d" % (addr, port))
            srv.stop()
            continue
        ctx.store["servers"].append(srv)
        ctx.store["at"][name] = (addr, port)
    ctx.store["deadport"] = net.free_port(own)


def answers(addr, port, srv, real):
    """this very server answers there (another worker may own the address)"""
    import time
    from pbt import net
    srv.remove_all_slaves()
    srv.add_slave(1).add_block("x", 3, 0x1234, 1)
    import os
    srv.get_slave(1).set_values("x", 0x1234, os.getpid() & 0xffff)
    try:
        c = net.Raw(addr, port)
        c.send(model.tcp_frame(1, 1, b"\x03\x12\x34\x00\x01"))
        r = c.recv_frame()[3]
        c.close()
        return r == b"\x03\x02" + (os.getpid() & 0xffff).to_bytes(2, "big")
    except (OSError, net.Closed):
        time.sleep(0.01)
        return False


def can_bind(addr, port):
    import socket
    s = socket.socket()
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind((addr, port))
        s.listen(1)
        return True
    except OSError:
        return False
    finally:
        s.close()


def teardown(ctx):
    for s in ctx.store["servers"]:
        s.stop()


def run_case(case, ctx):
    from pbt import net, real
    from modbus_tk import modbus_tcp, pymodbusclient
    db = ctx.store["db"]
    db.remove_all_slaves()
    slave = db.add_slave(1, unsigned=case["unsigned"])
    db.add_slave(2).add_block("b0", 3, 0, 10)
    ms = model.ModelSlave(case["unsigned"])
    real.build_slave(slave, case["layout"], case["init"])
    real.build_model(ms, case["layout"], case["init"])
    give_host, give_port, give_timeout = case["give"]
    name = "both" if give_host and give_port else "host" if give_host else "port" if give_port else "none"
    if name not in ctx.store["at"]:
        ctx.label("not available: " + name)
        name, give_host, give_port = "both", True, True
    addr, port = ctx.store["at"][name]
    dead = case["dead"] and name == "both"
    if dead:
        port = ctx.store["deadport"]
    kw = {}
    if give_host:
        kw["host"] = addr
    if give_port:
        kw["port"] = port
    if give_timeout:
        kw["timeout"] = net.WAIT
    if case["how"] == "None":
        for k in ("host", "port", "timeout"):
            kw.setdefault(k, None)
    if case["how"] == "extra":
        kw["auto_open"] = True
    if case["how"] == "position" and give_host and give_port:
        a = [kw.pop("host"), kw.pop("port")]
        client = pymodbusclient.PyModbusClientTCP(*a, **kw)
    else:
        client = pymodbusclient.PyModbusClientTCP(**kw)
    master = modbus_tcp.TcpMaster(addr, port, net.WAIT)
    ensure = engine.ensure
    is_open = False
    foreign = own = 0
    mine = set()
    ensure(not client.is_open(), "a new client says it is open")
    try:
        for n, st_ in enumerate(case["steps"]):
            k, where = st_[0], "step %d %r" % (n, st_)
            if k in ("read", "write"):
                fc, a = st_[1], st_[2]
                if k == "read":
                    q = 1 if st_[4] else st_[3]
                    c = {"fc": fc, "slave": 1, "addr": a, "qty": q}
                    fct = {1: client.read_coils, 2: client.read_discrete_inputs, 4: client.read_input_registers}[fc]
                    args = (a,) if st_[4] else (a, q)
                else:
                    c = {"fc": fc, "slave": 1, "addr": a, "out": st_[3]}
                    fct = client.write_single_coil if fc == 5 else client.write_single_register
                    args = (a, st_[3], 1) if st_[4] and fc == 5 else (a, st_[3])
                try:
                    res, err = fct(*args), None
                except Exception as e:      # noqa
                    res, err = None, e
                if not all(0 <= x <= 0xffff for x in (a, c.get("qty", 0))) or fc == 6 and not -0x8000 <= c["out"] <= 0xffff:
                    ensure(err is not None, "%s does not fit the protocol and gave %r", where, res)
                    ctx.label("does not fit")
                    is_open = is_open or bool(client.is_open())
                elif dead:
                    ensure(err is not None, "%s: no server and the result is %r", where, res)
                    ctx.label("no server")
                else:
                    pdu = calls.encode(c)
                    out = ms.judge(pdu)
                    ctx.label("%s fc%d" % (out.kind, fc))
                    if out.kind == "reply":
                        if err is not None:
                            raise engine.Violation("%s raised %r" % (where, err)) from err
                        ms.apply(out)
                        if k == "read":
                            want = list(calls.result(c, out.reply))
                            ensure(len(res) == len(want) and list(res) == want, "%s returned %r, expected %r", where, res, want)
                            if any(want) and mine != {"client"}:
                                foreign += 1
                        else:
                            mine.add("client")
                            own += 1
                            ensure(fc == 5 or res, "%s: the register was written and the result is %r", where, res)
                    else:
                        ensure(isinstance(err, real.mexc.ModbusError) and err.get_exception_code() in out.codes,
                               "%s gave %r / %r, expected a Modbus error with code in %s", where, res, err, sorted(out.codes))
                    is_open = True
            elif k == "native":
                if not dead:
                    from pbt import e2e
                    e2e.judge(ctx, e2e.pdu_to_call(bytes.fromhex(st_[1]), 1, False), ms, master.execute, real, where)
                    mine.add("native")
            elif k == "set":
                b, off, vals = st_[1:]
                start = case["layout"][b][1]
                slave.set_values("b%d" % b, start + off, vals)
                ms.names["b%d" % b].values[off:off + len(vals)] = vals
                mine.add("app")
            elif k == "open":
                try:
                    res = client.open()
                    ensure(not dead, "%s: opened and there is no server", where)
                    ensure(res, "%s: opened and the result is %r", where, res)
                    is_open = True
                except OSError as e:
                    ensure(dead, "%s: %r", where, e)
            elif k == "close":
                res = client.close()
                ensure(res, "%s: closed and the result is %r", where, res)
                is_open = False
            elif k == "drop":
                client.close()
                client.open() if not dead else None
                is_open = not dead
            else:
                client.last_error()
            ensure(bool(client.is_open()) == is_open, "%s: is_open is %r, expected %r", where, client.is_open(), is_open)
            d = real.diff(real.snapshot(slave, case["layout"]), ms.snapshot())
            ensure(d is None, "after %s: %s", where, d)
            ensure(list(db.get_slave(2).get_values("b0", 0, 10)) == [0] * 10, "%s: another slave was written", where)
    finally:
        client.close()
        master.close()
    ctx.label("arguments: " + name)
    if foreign and own:
        ctx.nontrivial()
