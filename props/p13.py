"""P13 hostile TCP clients and failing hooks, watched by healthy clients"""
import socket
import struct
import threading
import time

from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P13"
RULE = ("a case is 2-9 hostile actions on one TcpServer (random bytes, frames with wrong length fields, truncated or mutated PDUs, "
        "connect/leave bursts, half frames, frames in drips, crowds of idle connections, resets, unread replies, hooks raising or closing the connection for the hostile client's traffic), each followed "
        "by a well-formed request of a healthy client on an old or a new connection, judged with the model; non-trivial = some "
        "malformed frame was sent as a whole and some client left abruptly or some hook raised")
EXAMPLES = {"quick": 350, "thorough": 9000}
CASE_TIMEOUT = 240
ASSUMPTIONS = ["a hook raises only for the traffic of the hostile client (unit 66 or its connection)"]
HOSTILE = 66
HBASE = 60000
HOOKS = {
    "modbus_tcp.TcpServer.on_connect": "sock", "modbus_tcp.TcpServer.on_disconnect": "sock",
    "modbus_tcp.TcpServer.after_recv": "sock", "modbus_tcp.TcpServer.before_send": "sock",
    "modbus_tcp.TcpServer.after_send": "sock", "modbus_tcp.TcpServer.on_error": "sock",
    "modbus.Server.before_handle_request": "bytes", "modbus.Server.after_handle_request": "bytes",
    "modbus.Slave.handle_request": "slave", "modbus.Slave.handle_write_multiple_registers_request": "slave",
    "modbus.Slave.handle_read_holding_registers_request": "slave", "modbus.Slave.on_exception": "slave",
    "modbus.Databank.on_error": "any", "modbus.ModbusBlock.setitem": "block",
}


@st.composite
def hostile_bytes(draw, lay):
    """a stream of frames and garbage: [hex, complete]"""
    out = b""
    for _ in range(draw(st.integers(1, 4))):
        unit = draw(st.sampled_from([1, 1, 2, 2, HOSTILE, 77, 0]))
        tid = draw(st.integers(0, 0x7fff))
        pdu = draw(gen.request_pdu(lay.get(unit, lay[1])))
        k = draw(st.integers(0, 9))
        delta = 0
        if k <= 2:
            pdu = pdu[:draw(st.integers(0, len(pdu) - 1))]
        elif k <= 4:
            i = draw(st.integers(0, min(len(pdu) - 1, 9)))
            pdu = pdu[:i] + bytes([draw(st.integers(0, 255))]) + pdu[i + 1:]
        elif k == 5:
            pdu = draw(st.binary(max_size=12))
        elif k == 6:
            delta = draw(st.sampled_from([-1, -2, 1, -len(pdu), -len(pdu) - 1]))
        elif k == 7:
            out += draw(st.binary(min_size=1, max_size=20))
            continue
        n = max(0, len(pdu) + 1 + delta)
        out += struct.pack(">HHHB", tid, draw(st.sampled_from([0, 0, 0, 5])), n, unit) + pdu
    return out


def parse(data):
    """what a reader of the length fields sees: ([(tid, pid, unit, pdu, ok)], rest)"""
    out, p = [], 0
    while len(data) - p >= 7:
        tid, pid, n, unit = struct.unpack(">HHHB", data[p:p + 7])
        end = max(p + 7, p + 6 + n)
        if end > len(data):
            break
        out.append((tid, pid, unit, data[p + 7:end], n >= 1))
        p = end
    return out, data[p:]


@st.composite
def _case(draw):
    slaves, lay = {}, {}
    for i in (1, 2):
        unsigned = draw(st.booleans())
        layout = draw(gen.layouts(max_blocks=4, big=False))
        slaves[str(i)] = {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned))}
        lay[i] = layout
    lay[HOSTILE] = [[3, HBASE, 30], [1, HBASE, 30]]
    ops, hooked = [], False
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(["bytes"] * 6 + ["burst", "leave", "leave", "hook", "hook", "hook", "unhook", "quit", "linger", "crowd"]))
        if k == "crowd" and draw(st.booleans()):
            k = "leave"
        if k == "linger" and (any(o["op"] == "linger" for o in ops) or draw(st.integers(0, 3)) > 0):
            k = "bytes"
        if k == "bytes" and hooked and draw(st.integers(0, 3)) > 0:
            k = "unhook"
        hooked = k == "hook" or (hooked and k != "unhook")
        op = {"op": k}
        if k == "bytes":
            op["data"] = draw(hostile_bytes(lay)).hex()
            op["rst"] = draw(st.booleans())
        elif k == "burst":
            op["n"] = draw(st.integers(1, 6))
            op["rst"] = draw(st.booleans())
        elif k == "leave":      # leaves in the middle of a frame
            data = draw(hostile_bytes(lay))
            op["data"] = data[:draw(st.integers(0, len(data)))].hex()
            op["rst"] = draw(st.booleans())
        elif k == "crowd":
            op["n"] = draw(st.sampled_from([9, 20, 40, 70]))
        elif k == "linger":
            op["data"] = draw(st.sampled_from(["00", "000100000006", "00010000000601", "0001000000ff0103"]))
        elif k == "hook":
            op["name"] = draw(st.sampled_from(sorted(HOOKS)))
            op["error"] = draw(st.sampled_from(["Exception", "KeyError", "ModbusError", "OSError", "ValueError", "Invalid"]))
            if HOOKS[op["name"]] == "sock" and draw(st.booleans()):
                op["error"] = draw(st.sampled_from(["close", "close", "shutdown", "close, raise"]))
            op["pdu"] = draw(gen.request_pdu(lay[HOSTILE])).hex()
            op["close"] = draw(st.booleans())
        who = draw(st.sampled_from([1, 2]))
        op["check"] = [who, draw(gen.request_pdu(lay[who])).hex(), draw(st.booleans())]
        ops.append(op)
    return {"slaves": slaves, "ops": ops}


def strategy(tier):
    return _case()


_S = {"1": {"unsigned": True, "layout": [[3, 0, 10], [1, 0, 2000]], "init": [[0, 0, [5, 6, 7]]]},
      "2": {"unsigned": False, "layout": [[3, 0, 10]], "init": []}}
FIXED = [
    {"slaves": _S, "ops": [{"op": "linger", "data": "00", "check": [1, "060000002b", True]},
                           {"op": "idle", "seconds": 9, "check": [1, "0300000003", False]}]},
    {"slaves": _S, "ops": [{"op": "unread", "requests": 50000, "check": [1, "0300000003", True]},
                           {"op": "quit", "check": [1, "060000002a", False]}]},
    {"slaves": _S, "ops": [{"op": "drip", "check": [1, "060000002b", True]}, {"op": "quit", "check": [1, "0300000003", False]}]},
    {"slaves": _S, "ops": [{"op": "crowd", "n": 560, "check": [1, "060000002b", False]}, {"op": "quit", "check": [1, "0300000003", False]}]},
    {"slaves": _S, "ops": [{"op": "bytes", "data": "000100000006" + "01" + "1000000002", "rst": False,
                            "check": [1, "0300000003", True]}]},
    {"slaves": _S, "ops": [{"op": "hook", "name": "modbus_tcp.TcpServer.on_error", "error": "ValueError", "pdu": "0300000001",
                            "close": True, "check": [1, "0300000003", True]},
                           {"op": "leave", "data": "0001", "rst": True, "check": [1, "0300000003", False]},
                           {"op": "hook", "name": "modbus_tcp.TcpServer.on_connect", "error": "close", "pdu": "0300000001",
                            "close": False, "check": [1, "0300000003", True]},
                           {"op": "hook", "name": "modbus_tcp.TcpServer.on_connect", "error": "OSError", "pdu": "0300000001",
                            "close": True, "check": [1, "0300000003", True]}]},
]


def setup(ctx):
    from pbt import net
    ctx.store["srv"] = net.start_server()


def teardown(ctx):
    ctx.store["srv"][0].stop()


def run_case(case, ctx):
    from pbt import net, real
    srv, addr, port = ctx.store["srv"]
    srv.remove_all_slaves()
    real.clear_hooks()
    models, slaves = {}, {}
    for sid, d in case["slaves"].items():
        s = slaves[int(sid)] = srv.add_slave(int(sid), unsigned=d["unsigned"])
        ms = models[int(sid)] = model.ModelSlave(d["unsigned"])
        real.build_slave(s, d["layout"], d["init"])
        real.build_model(ms, d["layout"], d["init"])
    hs = srv.add_slave(HOSTILE)
    hs.add_block("h3", 3, HBASE, 30)
    hs.add_block("h1", 1, HBASE, 30)
    ports = set()
    errors = {"Exception": Exception, "KeyError": KeyError, "OSError": OSError, "ValueError": ValueError,
              "ModbusError": lambda m: real.mexc.ModbusError(4), "Invalid": real.mexc.ModbusInvalidRequestError}
    raised = [0]

    def hook(kind, error):
        def fct(args):
            mine = True
            if kind == "sock":
                try:
                    mine = args[1].getpeername()[1] in ports
                except OSError:
                    pass
            elif kind == "bytes":
                mine = bool(args[1]) and len(args[1]) > 6 and args[1][6] == HOSTILE
            elif kind == "slave":
                mine = args[0] is hs
            elif kind == "block":
                mine = args[0].starting_address == HBASE
            if mine:
                raised[0] += 1
                if error in ("close", "shutdown", "close, raise"):      # the application turns this client away
                    if listens(args[1]):
                        return
                    if error == "shutdown":
                        try:
                            args[1].shutdown(socket.SHUT_RDWR)
                        except OSError:
                            pass
                    else:
                        args[1].close()
                    if error != "close, raise":
                        return
                    raise Exception("raised by a hook")
                raise errors[error]("raised by a hook")
        return fct

    def connect():
        c = net.Raw(addr, port)
        ports.discard(c.s.getsockname()[1])
        return c

    healthy = connect()
    tid = [0x100]

    def ask(conn, unit, pdu):
        tid[0] = (tid[0] + 1) & 0x7fff
        conn.send(model.tcp_frame(tid[0], unit, pdu))
        return tid[0]

    def hostile():
        c = net.Raw(addr, port)
        ports.add(c.s.getsockname()[1])
        return c

    open_hostiles = []
    whole = left = hooked = False
    try:
        for n, op in enumerate(case["ops"]):
            where = "action %d %r" % (n, op)
            k = op["op"]
            ctx.label(k)
            if k == "bytes":
                data = bytes.fromhex(op["data"])
                frames, rest = parse(data)
                if hooked and any(f[2] in (0, 1, 2) for f in frames):
                    ctx.label("skipped: hooks decide whether it is executed")
                    continue
                skip = False
                todo = []
                for f in frames:
                    outs = {}
                    for u in ((1, 2) if f[2] == 0 else (f[2],)):
                        if u in models and f[4]:
                            outs[u] = models[u].judge(f[3])
                            if outs[u].kind in ("surplus", "loose"):
                                skip = True
                            elif outs[u].kind == "reply":
                                models[u].apply(outs[u])
                    todo.append((f, outs))
                if skip:
                    # the library may or may not execute it: not judged (the models have to be rebuilt)
                    ctx.label("discarded: open to interpretation")
                    return
                c = hostile()
                try:
                    c.send(data[:len(data) - len(rest)])
                    t = None if hooked else ask(c, HOSTILE, b"\x07")
                    if t is not None:
                        whole = whole or any(not o or any(x.kind != "reply" for x in o.values()) for _, o in todo)
                        replies(ctx, c, todo, t, where)
                    if rest:
                        c.send(rest)
                except (net.Closed, OSError):
                    ctx.label("hostile connection closed by the server")
                (c.reset if op["rst"] else c.close)()
            elif k == "burst":
                cs = [hostile() for _ in range(op["n"])]
                for c in cs:
                    (c.reset if op["rst"] else c.close)()
                left = True
            elif k == "leave":
                data = bytes.fromhex(op["data"])
                frames, _ = parse(data)
                if any(f[2] in (0, 1, 2) for f in frames):
                    data = data[:0]     # whole frames that may or may not be executed before the reset
                c = hostile()
                c.send(data)
                (c.reset if op["rst"] else c.close)()
                left = True
            elif k == "idle":       # nobody says anything for a long time
                time.sleep(op["seconds"])
            elif k == "crowd":      # connections that stay and do nothing
                if not net.room(2 * op["n"] + 200):
                    ctx.label("skipped: too few open files allowed")
                    continue
                try:
                    for _ in range(op["n"]):
                        open_hostiles.append(hostile())
                except (net.Closed, OSError, engine.Violation):
                    ctx.label("the crowd was not let in")
            elif k == "linger":
                c = hostile()
                c.send(bytes.fromhex(op["data"]))
                open_hostiles.append(c)
            elif k == "drip":
                # a frame whose bytes come one by one, each just before the server would give up
                c = hostile()
                c.send(struct.pack(">HHHB", 1, 0, 250, HOSTILE))
                dripping = threading.Thread(target=drip, args=(c,))
                dripping.start()
                time.sleep(0.3)
                left = True
            elif k == "unread":
                c = hostile_small(net, addr, port, ports)
                open_hostiles.append(c)
                c.s.settimeout(0.3)
                try:
                    req = model.tcp_frame(1, 1, b"\x01\x00\x00\x07\xd0")
                    for _ in range(op["requests"] // 100):
                        c.send(req * 100)
                except OSError:
                    pass
                left = True
                # the server must have tried to send more than the client's buffers hold
                t0 = time.time()
                while time.time() - t0 < 10:
                    t1 = time.time()
                    t = ask(healthy, HOSTILE, b"\x07")
                    got = healthy.recv_frame()
                    engine.ensure(got == (t, 0, HOSTILE, b"\x07\x00"), "%s: healthy client got %r", where, got)
                    if time.time() - t1 > 0.5:
                        ctx.label("server waited for a client that does not read")
                        break
            elif k == "hook":
                real.hooks.install_hook(op["name"], hook(HOOKS[op["name"]], op["error"]))
                hooked = True
                c = hostile()
                try:
                    ask(c, HOSTILE, bytes.fromhex(op["pdu"]))
                    ask(c, HOSTILE, b"\x10" + struct.pack(">HHB", HBASE, 1, 2) + b"\0\1")
                except OSError:
                    pass
                if op["close"]:
                    c.close()
                else:
                    open_hostiles.append(c)
            elif k == "unhook":
                real.clear_hooks()
                hooked = False
            elif k == "quit":
                for c in open_hostiles:
                    c.reset()
                open_hostiles = []
            # the healthy client
            unit, pdu, fresh = op["check"]
            pdu = bytes.fromhex(pdu)
            if fresh:
                healthy.close()
                healthy = connect()
            out = models[unit].judge(pdu)
            try:
                t = ask(healthy, unit, pdu)
                got = healthy.recv_frame()
            except (net.Closed, OSError) as e:
                raise engine.Violation("%s: healthy client lost its connection: %s" % (where, e))
            except engine.Violation as e:
                raise engine.Violation("%s: healthy client: %s" % (where, e))
            if k == "drip":
                if not dripping.is_alive():
                    ctx.finding("slow-drip", "%s: a healthy client was not answered while another one was sending" % where)
                dripping.join()
                c.close()
            engine.ensure(got[:3] == (t, 0, unit), "%s: healthy client got tid/pid/unit %r", where, got[:3])
            real.check_response(out, got[3], where + " healthy client")
            if out.kind == "reply":
                models[unit].apply(out)
            for sid in models:
                d = real.diff(real.snapshot(slaves[sid], case["slaves"][str(sid)]["layout"]), models[sid].snapshot())
                engine.ensure(d is None, "after %s slave %s: %s", where, sid, d)
        if raised[0]:
            ctx.label("cases with raising hooks")
        if whole and (left or raised[0]):
            ctx.nontrivial()
    finally:
        real.clear_hooks()
        healthy.close()
        for c in open_hostiles:
            c.close()


def listens(s):
    try:
        return bool(s.getsockopt(socket.SOL_SOCKET, socket.SO_ACCEPTCONN))
    except OSError:
        return False


def drip(c):
    try:
        for _ in range(8):
            time.sleep(0.4)
            c.send(b"\0")
    except OSError:
        pass


def hostile_small(net, addr, port, ports):
    c = net.Raw(addr, port, rcvbuf=2048)
    ports.add(c.s.getsockname()[1])
    return c


def replies(ctx, c, todo, probe, where):
    """read what the server says to these frames; `probe` is the transaction id of a last, good request"""
    pend = list(todo)
    while True:
        first = c.recv_exact(1)
        if first[0] >= 0x80:
            bare = first + c.recv_exact(1)
            # which request?  the first pending one this could answer
            while pend:
                f, outs = pend.pop(0)
                fc = f[3][0] if f[3] and f[4] else 1
                if bare == bytes([(fc | 0x80) & 0xff, 4]):
                    ctx.finding("bare-error-reply", "%s: the reply %s to %r has no MBAP header" % (where, bare.hex(), f))
                    break
            else:
                raise engine.Violation("%s: bytes %s on the line are not a frame" % (where, bare.hex()))
            continue
        head = first + c.recv_exact(6)
        tid, pid, n, unit = struct.unpack(">HHHB", head)
        engine.ensure(2 <= n <= 254, "%s: reply header %s", where, head.hex())
        pdu = c.recv_exact(n - 1)
        if (tid, pid, unit, pdu) == (probe, 0, HOSTILE, b"\x07\x00"):
            # requests that must be answered have been answered
            for f, outs in pend:
                if f[2] in outs and outs[f[2]].kind in ("reply", "exc"):
                    raise engine.Violation("%s: no reply to the well-formed request %r" % (where, f))
            return
        while pend:
            f, outs = pend.pop(0)
            out = outs.get(f[2])
            if (tid, pid, unit) == f[:3] and f[3] and pdu[0] & 0x7f == f[3][0] & 0x7f:
                if out is not None and out.kind == "reply":
                    engine.ensure(pdu == out.reply, "%s: reply %s to %r, expected %s", where, pdu.hex(), f, out.reply.hex())
                elif out is not None and out.kind == "exc":
                    engine.ensure(len(pdu) == 2 and pdu[1] in out.codes, "%s: reply %s to %r, expected one of %s", where,
                                  pdu.hex(), f, sorted(out.codes))
                break
            if out is not None and out.kind in ("reply", "exc"):
                raise engine.Violation("%s: no reply to the well-formed request %r before %s" % (where, f, pdu.hex()))
        else:
            raise engine.Violation("%s: reply %s%s matches no request" % (where, head.hex(), pdu.hex()))
