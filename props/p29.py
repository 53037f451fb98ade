"""P29 timeouts: which timeout is in force after a generated history, seen from the calls themselves"""
import socket
import threading
import time

from hypothesis import strategies as st

from pbt import calls, engine, model

ID = "P29"
RULE = ("a case is a TcpMaster, RtuOverTcpMaster, PyModbusClientTCP or SimulatorRpcClient with real peers, or an RtuMaster / RtuServer on "
        "a serial port, created with or without a timeout, and 2-8 steps: set the timeout, exchange with the peer answering at once, "
        "late but within the timeout, partly or never, the peer or the application closing the connection, a peer which does not "
        "accept; non-trivial = the timeout was changed, or the connection was made again, before a call whose outcome depends on it")
EXAMPLES = {"quick": 60, "thorough": 1200}
SHARDS = {"quick": 8, "thorough": 8}
CASE_TIMEOUT = 75
ASSUMPTIONS = ["short timeouts are 0.03-0.12 s and long ones 40 s or more; an answer that takes 0.2 s is within a long one, and a call with "
               "a short one may take 12 s more on a busy machine, and 2 s more but not three times in a row",
               "the timeout of a master is the longest silence it accepts; a peer that sends byte by byte is P13's subject"]
SHORT, LONG = (0.03, 0.06, 0.12), (40.0, 90, 60.5)
SLACK = 12.0
BAUDS = [50, 300, 1200, 9600, 14400, 19199, 19200, 19201, 38400, 57600, 115200, 921600]


@st.composite
def _net(draw):
    kind = draw(st.sampled_from(["tcp", "tcp", "rtu", "pymodbus", "rpc"]))
    how = draw(st.sampled_from(["position", "name", "default"]))
    now = None if how == "default" else draw(st.sampled_from(SHORT + LONG))
    case = {"kind": kind, "how": how, "timeout": now, "steps": []}
    t = {"rpc": 0.5}.get(kind, 5.0) if now is None else now
    for _ in range(draw(st.integers(2, 6))):
        op = draw(st.sampled_from(["set", "set", "silent", "silent", "call", "call", "part", "drop", "appclose", "full", "zero"]))
        if kind == "rpc" and op in ("set", "drop", "appclose", "zero"):
            op = "silent"
        if op == "full":
            case["steps"].append(["full", draw(st.sampled_from(SHORT))])
        elif op == "set":
            t = draw(st.sampled_from(SHORT + LONG))
            case["steps"].append(["set", t])
        elif op in ("silent", "part", "call"):
            if t == 0.5 or t == 5.0:
                op = "call"
            # what is asked depends on the timeout in force
            if t < 1 and op == "call" and t != 0.5:
                op = "silent"
            elif t > 1 and op != "call":
                op = "call"
            if op == "part":
                case["steps"].append([op, draw(st.integers(1, 9))])
            elif op == "call":
                case["steps"].append([op, draw(st.sampled_from([0, 0, 0.2])) if t > 1 else 0])
            else:
                case["steps"].append([op])
        else:
            case["steps"].append([op])
    return case


@st.composite
def _serial(draw):
    steps = []
    kind = draw(st.sampled_from(["serial", "serial", "server"]))
    for _ in range(draw(st.integers(2, 9))):
        op = draw(st.sampled_from(["set", "set", "call", "call", "silent", "close", "babble"] if kind == "serial" else
                                  ["set", "call", "call", "call", "stop", "fail"]))
        if op == "set":
            t = draw(st.one_of(st.sampled_from([0.01, 0.5, 1.0, 5, 0.00123]), st.floats(0.001, 30)))
            sw = kind == "serial" and draw(st.integers(0, 3)) == 0
            steps.append(["set", t, sw])
        elif op == "babble":
            steps.append(["babble", draw(st.sampled_from([0.02, 0.05]))])
        elif op == "call":
            steps.append(["call", draw(st.integers(1, 20))])
        elif op == "fail":
            steps.append(["fail", draw(st.integers(0, 2))])
        else:
            steps.append([op])
    return {"kind": kind, "baud": draw(st.one_of(st.sampled_from(BAUDS), st.integers(50, 200000))),
            "char": draw(st.one_of(st.none(), st.sampled_from([1.5, 1, 3.0, 10]))),
            "frame": draw(st.one_of(st.none(), st.sampled_from([3.5, 1, 5, 20.0]))),
            "t0": draw(st.one_of(st.none(), st.none(), st.sampled_from([0.002, 0.01, 1]))) if kind == "serial" else None,
            "before": draw(st.one_of(st.none(), st.sampled_from([1.0, 77]))), "open": draw(st.booleans()), "steps": steps}


def strategy(tier):
    return st.integers(0, 1).flatmap(lambda k: _net() if k else _serial())


def run_case(case, ctx):
    if case["kind"] in ("serial", "server"):
        serial_master(case, ctx) if case["kind"] == "serial" else serial_server(case, ctx)
    else:
        net_master(case, ctx)


# -- masters of a network ------------------------------------------------------------------------
READ = {"fc": 4, "slave": 1, "addr": 5, "qty": 3}
VALUES = [7, 0x1234, 0xffff]


class Full(object):
    """a port which listens and does not complete any connection"""

    def __init__(self, addr):
        self.ls = socket.socket()
        self.ls.bind((addr, 0))
        self.ls.listen(0)
        self.port = self.ls.getsockname()[1]
        self.fill = []
        self.works = False
        for _ in range(8):
            c = socket.socket()
            c.settimeout(0.25)
            self.fill.append(c)
            try:
                c.connect((addr, self.port))
            except OSError:
                self.works = True
                break

    def close(self):
        for c in self.fill:
            c.close()
        self.ls.close()


def net_master(case, ctx):
    from pbt import net, real
    from modbus_tk import modbus_rtu_over_tcp, modbus_tcp, pymodbusclient, simulator_rpc_client
    ensure = engine.ensure
    kind = case["kind"]
    framing = "rtu" if kind == "rtu" else "tcp"
    peer = RpcPeer() if kind == "rpc" else net.Peer(framing)
    args, kw = [peer.addr, peer.port], {}
    t = case["timeout"]
    if case["how"] == "position":
        args.append(t)
    elif case["how"] == "name":
        kw[{"tcp": "timeout_in_sec", "rtu": "timeout_in_sec"}.get(kind, "timeout")] = t
    else:
        t = 0.5 if kind == "rpc" else 5.0
    cls = {"tcp": modbus_tcp.TcpMaster, "rtu": modbus_rtu_over_tcp.RtuOverTcpMaster, "pymodbus": pymodbusclient.PyModbusClientTCP,
           "rpc": simulator_rpc_client.SimulatorRpcClient}[kind]

    def make(*a, **k):
        obj = cls(*a, **k)
        return obj, (obj.client if kind == "pymodbus" else obj)
    m, inner = make(*args, **kw)

    def ask(obj):
        if kind == "pymodbus":
            return obj.read_input_registers(READ["addr"], READ["qty"])
        if kind == "rpc":
            return obj.has_slave(5)
        return list(obj.execute(**calls.kwargs(READ)))
    want = True if kind == "rpc" else VALUES
    changed = made = suspect = False
    reply = b"\x04\x06" + b"".join(v.to_bytes(2, "big") for v in VALUES)

    def frame(req):
        return net.tcp_reply(req, reply) if framing == "tcp" else model.rtu_frame(READ["slave"], reply)

    def timed(f):
        t1 = time.monotonic()
        try:
            res, err = f(), None
        except Exception as e:
            res, err = None, e
        return res, err, time.monotonic() - t1

    def short(where, res, err, dt, t):
        ensure(err is not None, "%s: there was no answer and the call returned %r", where, res)
        ensure(dt >= 0.9 * t - 0.002, "%s: gave up after %.4f s, the timeout is %r: %r", where, dt, t, err)
        ensure(dt <= t + SLACK, "%s: gave up after %.2f s only, the timeout is %r: %r", where, dt, t, err)
    try:
        for n, s in enumerate(case["steps"]):
            op = s[0]
            where = "%s step %d %r" % (kind, n, s)
            ctx.label("%s %s" % (kind, op))
            if kind != "rpc":
                ensure(inner.get_timeout() == t, "%s: get_timeout is %r, the timeout is %r", where, inner.get_timeout(), t)
            if op == "set":
                changed = changed or (s[1] < 1) != (t < 1)
                t = s[1]
                inner.set_timeout(t)
                ensure(inner.get_timeout() == t, "%s: get_timeout is %r", where, inner.get_timeout())
            elif op == "drop":
                suspect = suspect or bool(peer.conns)
                peer.drop_connections()
                made = True
            elif op == "appclose":
                m.close()
                made = True
            elif op == "zero":
                # an answer that is not there at once is no answer
                m.close()
                made = True
                other, oinner = make(peer.addr, peer.port, 60.0)
                try:
                    peer.push(lambda req: [["send", frame(req)]])
                    res, err, dt = timed(lambda: ask(other))
                    peer.wait_done()
                    ensure(err is None and res == want, "%s: the first call gave %r / %r", where, res, err)
                    oinner.set_timeout(0)
                    ensure(oinner.get_timeout() == 0, "%s: get_timeout is %r", where, oinner.get_timeout())
                    peer.push(lambda req: [])
                    res, err, dt = timed(lambda: ask(other))
                    peer.wait_done()
                    short(where, res, err, dt, 0)
                    ctx.nontrivial()
                finally:
                    other.close()
            elif op == "full":
                f = Full(peer.addr)
                try:
                    if not f.works:
                        continue
                    # the timeout is set before the connection is made
                    other, _ = make(peer.addr, f.port, s[1])
                    res, err, dt = timed(lambda: ask(other))
                    short(where, res, err, dt, s[1])
                    ctx.nontrivial()
                finally:
                    f.close()
            else:
                slow = 0
                for attempt in (0, 1, 2, 3):
                    if kind == "rpc":
                        peer.mode = (op, s[1] if len(s) > 1 else 0)
                    else:
                        def answer(req):
                            if op == "silent":
                                return []
                            if op == "part":
                                return [["send", frame(req)[:s[1]]]]
                            return [["pause"]] * int(s[1] / 0.002) + [["send", frame(req)]]
                        peer.push(answer)
                    res, err, dt = timed(lambda: ask(m))
                    if suspect and attempt == 0:
                        # the request may have gone down with the old connection
                        try:
                            peer.done.get(timeout=2.0)
                        except net.queue.Empty:
                            ensure(err is not None, "%s: returned %r", where, res)
                            try:
                                peer.scripts.get_nowait()
                                continue
                            except net.queue.Empty:
                                peer.wait_done()
                    elif kind != "rpc":
                        peer.wait_done()
                    suspect = False
                    if op == "call":
                        ensure(err is None and res == want, "%s: the answer came after %r s, the timeout is %r and the call gave "
                               "%r / %r after %.3f s", where, s[1], t, res, err, dt)
                    else:
                        short(where, res, err, dt, t)
                        if dt > t + 2:
                            # a busy machine does not do this three times
                            slow += 1
                            ensure(slow < 3, "%s: gave up after %.2f s only, the timeout is %r: %r", where, dt, t, err)
                            continue
                    if changed or made or case["how"] != "default":
                        ctx.nontrivial()
                    break
    finally:
        if kind != "rpc":
            m.close()
        peer.close()


class RpcPeer(object):
    """answers has_slave commands like the simulator, or does not"""

    def __init__(self):
        from pbt import net
        self.addr = net.address()
        self.ls = socket.socket()
        self.ls.bind((self.addr, 0))
        self.port = self.ls.getsockname()[1]
        self.ls.listen(10)
        self.mode = ("call", 0)
        self.conns = []
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        while True:
            try:
                c, _ = self.ls.accept()
                self.conns.append(c)
                c.recv(1024)
                op, x = self.mode
                if op == "call":
                    if x:
                        time.sleep(x)
                    c.sendall(b"has_slave done: 1")
                    c.close()
                elif op == "part":
                    c.sendall(b"has_slave done: 1"[:x])
            except OSError:
                if self.ls.fileno() < 0:
                    return

    def close(self):
        try:
            self.ls.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.ls.close()
        for c in self.conns:
            c.close()
        self.thread.join()


# -- serial --------------------------------------------------------------------------------------
def inter_char(baud):
    """11 bits per character; over 19200 baud the fixed delays of the specification (t1.5 = 750 us)"""
    return 11.0 / baud if baud <= 19200 else 0.0005


def close_to(a, b):
    return a is not None and abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def make_port(case):
    from pbt import fakeserial

    class P(fakeserial.Port):
        babble = 0
        seen = ()

        def read(self, size=1):
            if self.seen is not None:
                self.seen.append((self.timeout, self.inter_byte_timeout))
            if self.babble:
                # a timeout which never happens: one byte is always there
                if time.monotonic() > self.until:
                    raise engine.Violation("the call did not end though its software timeout is over since %r s" % SLACK)
                time.sleep(0.001)
                return b"\x55"
            return fakeserial.Port.read(self, size)
    port = P(is_open=case["open"])
    port.seen = []
    port.baudrate = case["baud"]
    port.timeout = case["before"]
    return port


def serial_master(case, ctx):
    from pbt import real  # noqa: F401
    from modbus_tk import modbus_rtu
    ensure = engine.ensure
    port = make_port(case)
    kw = {}
    if case["char"] is not None:
        kw["interchar_multiplier"] = case["char"]
    if case["frame"] is not None:
        kw["interframe_multiplier"] = case["frame"]
    if case["t0"] is not None:
        kw["t0"] = case["t0"]
    m = modbus_rtu.RtuMaster(port, **kw)
    t0 = case["t0"] or inter_char(case["baud"])
    inter = (case["char"] or 1.5) * t0
    t = (case["frame"] or 3.5) * t0
    sw = changed = False
    reply = [b""]
    port.on_write = lambda data: port.feed([reply[0]])
    for n, s in enumerate(case["steps"]):
        op = s[0]
        where = "serial step %d %r" % (n, s)
        ctx.label("serial " + op)
        ensure(close_to(m.get_timeout(), t), "%s: get_timeout is %r, the timeout is %r", where, m.get_timeout(), t)
        del port.seen[:]
        if op == "set":
            t, sw = s[1], s[2]
            if sw:
                t = max(t, 5.0)
                m.set_timeout(t, use_sw_timeout=True)
            else:
                m.set_timeout(t)
            changed = True
        elif op == "close":
            m.close()
        elif op == "babble":
            # the timeout of the port does not work: a software timeout ends the call
            t, sw = s[1], True
            m.set_timeout(t, True)
            port.babble = 1
            t1 = time.monotonic()
            port.until = t1 + t + SLACK
            try:
                m.execute(1, 0, 0, pdu=b"\x41\x01", returns_raw=True)
                err = None
            except engine.Violation:
                raise
            except Exception as e:
                err = e
            port.babble = 0
            ensure(err is not None, "%s: noise was accepted", where)
            ensure(time.monotonic() - t1 >= 0.9 * t, "%s: gave up after %.3f s", where, time.monotonic() - t1)
            t = 9.0
            m.set_timeout(t, True)
            ctx.nontrivial()
            continue
        else:
            q = s[1] if op == "call" else 3
            pdu = bytes([3, 2 * q]) + bytes(range(2 * q))
            reply[0] = model.rtu_frame(1, pdu) if op == "call" else b""
            try:
                res, err = m.execute(1, 3, 0, q), None
            except Exception as e:
                res, err = None, e
            ensure((err is None) == (op == "call"), "%s: gave %r / %r", where, res, err)
            ensure(port.seen, "%s: nothing was read", where)
            if changed or kw:
                ctx.nontrivial()
        for got in port.seen + [(port.timeout, port.inter_byte_timeout)]:
            ensure(close_to(got[0], t), "%s: the timeout of the port is %r, expected %r", where, got[0], t)
            ensure(close_to(got[1], inter), "%s: the inter byte timeout of the port is %r, expected %r", where, got[1], inter)


def serial_server(case, ctx):
    from pbt import real  # noqa: F401
    from modbus_tk import modbus_rtu
    ensure = engine.ensure
    port = make_port(case)
    kw = {}
    if case["char"] is not None:
        kw["interchar_multiplier"] = case["char"]
    if case["frame"] is not None:
        kw["interframe_multiplier"] = case["frame"]
    srv = modbus_rtu.RtuServer(port, **kw)
    srv.add_slave(1).add_block("h", 3, 0, 30)
    t0 = inter_char(case["baud"])
    inter = (case["char"] or 1.5) * t0
    t = (case["frame"] or 3.5) * t0
    ensure(close_to(port.timeout, t) and close_to(srv.get_timeout(), t), "the timeout of the port is %r, of the server %r, expected %r",
           port.timeout, srv.get_timeout(), t)
    running = changed = False

    def idle(where):
        ensure(port.wait_idle(), "%s: the server does not wait for a request", where)
    try:
        for n, s in enumerate(case["steps"] + [["stop"]]):
            op = s[0]
            where = "server step %d %r" % (n, s)
            ctx.label("server " + op)
            if op == "set":
                t = min(s[1], 0.05)         # the server also waits that long after each answer
                srv.set_timeout(t)
                ensure(srv.get_timeout() == t, "%s: get_timeout is %r", where, srv.get_timeout())
                changed = True
            elif op == "stop":
                if running:
                    srv.stop()
                    running = False
                    ensure(close_to(port.timeout, t), "%s: the timeout of the port is %r, expected %r", where, port.timeout, t)
            elif op in ("call", "fail"):
                if case["frame"] and t > 0.4:
                    t = 0.01
                    srv.set_timeout(t)
                if not running:
                    srv.start()
                    running = True
                idle(where)
                if op == "fail":
                    port.open_failures = s[1]
                    from pbt import fakeserial
                    port.feed([fakeserial.FAIL])
                    idle(where)
                    port.open_failures = 0
                    continue
                del port.seen[:]
                nw = len(port.written)
                port.feed([model.rtu_frame(1, bytes([3, 0, 0, 0, s[1]])), "gap"])
                idle(where)
                ensure(b"".join(port.written[nw:]) == model.rtu_frame(1, bytes([3, 2 * s[1]]) + bytes(2 * s[1])),
                       "%s: answered %r", where, port.written[nw:])
                # the rest of a request is read with the timeout of the server; the wait for its first byte has no timeout
                rest = [x for x in port.seen if x[0] is not None]
                ensure(rest, "%s: the rest of the request was read without a timeout", where)
                for got in port.seen:
                    ensure(got[0] is None or close_to(got[0], t), "%s: the timeout of the port is %r, expected %r", where, got[0], t)
                    ensure(close_to(got[1], inter), "%s: the inter byte timeout of the port is %r, expected %r", where, got[1], inter)
                if changed or kw:
                    ctx.nontrivial()
            ensure(close_to(srv.get_timeout(), t), "%s: get_timeout is %r, expected %r", where, srv.get_timeout(), t)
    finally:
        srv.stop()
