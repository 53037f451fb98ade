"""P18 masters shared by threads: generated calls and schedules over in-memory lines that pair requests and replies"""
import socket
import struct

from hypothesis import strategies as st

from pbt import calls, engine, model, sched

ID = "P18"
RULE = ("a case is 1-3 masters (TCP on a socket pair, RTU or RTU over TCP), each with its own line or, for RTU, on the port of another one, 2-4 threads with 1-3 calls "
        "each, per call a good answer, an exception answer or a failure (no answer, other transaction id or CRC, bad argument, "
        "raising hook), and a schedule of up to 8 preemptions; non-trivial = two calls on the same line overlapped in time")
EXAMPLES = {"quick": 1600, "thorough": 40000}
CASE_TIMEOUT = 60
ASSUMPTIONS = ["the line is in memory and answers at once; switch points are source lines or bytecodes of modbus_tk and lock "
               "operations"]
FAULTS = ["drop", "damage", "arg", "hook", "hook-recv", "unit"]


@st.composite
def _call(draw, addr):
    fc = draw(st.sampled_from([3, 3, 3, 4, 1, 2, 6, 16, 5, 15, 23, 22]))
    c = {"fc": fc, "slave": draw(st.sampled_from([1, 1, 2])), "addr": addr}
    if fc in (1, 2, 3, 4):
        c["qty"] = draw(st.sampled_from([1, 2, 2, 3, 9]))
    elif fc in (5, 6):
        c["out"] = draw(st.integers(0, 1))
    elif fc in (15, 16):
        c["out"] = draw(st.lists(st.integers(0, 1), min_size=1, max_size=3))
    elif fc == 22:
        c["am"], c["om"] = draw(st.integers(0, 0xffff)), draw(st.integers(0, 0xffff))
    else:
        c["qty"], c["waddr"], c["out"] = draw(st.integers(1, 3)), addr, draw(st.lists(st.integers(0, 9), min_size=1, max_size=3))
    k = draw(st.integers(0, 9))
    if k == 0:
        c["fault"] = "exc%d" % draw(st.integers(1, 11))
    elif k == 1:
        c["fault"] = draw(st.sampled_from(FAULTS))
    return c


@st.composite
def _case(draw):
    nm = draw(st.sampled_from([1, 1, 1, 2, 3]))
    masters = [draw(st.sampled_from(["tcp", "rtu", "rtu-echo", "rtu-over-tcp", "tcp"])) for _ in range(nm)]
    if nm > 1 and draw(st.booleans()):
        # several masters on one port
        masters[0] = draw(st.sampled_from(["rtu", "rtu", "rtu-echo"]))
        masters[1:] = [draw(st.sampled_from(["same", "same", k])) for k in masters[1:]]
    threads, n = [], 0
    for _ in range(draw(st.integers(2, 4))):
        t = []
        for _ in range(draw(st.integers(1, 3))):
            t.append([draw(st.integers(0, nm - 1)), draw(_call(100 + 16 * n))])
            n += 1
        threads.append(t)
    return {"masters": masters, "threads": threads, "schedule": draw(sched.schedules(8, 200)),
            "fine": draw(st.integers(0, 5)) == 0, "opened": draw(st.booleans())}


def strategy(tier):
    return _case()


def good_pdu(c):
    """the answer of the slave: recognisable from the address of the request"""
    fc, a = c["fc"], c["addr"] + 7 * c["slave"]
    if fc in (1, 2):
        n = (c["qty"] + 7) // 8
        v = (a * 2654435761) & ((1 << c["qty"]) - 1)
        return bytes([fc, n]) + v.to_bytes(n, "little")
    if fc in (3, 4, 23):
        return bytes([fc, 2 * c["qty"]]) + b"".join(struct.pack(">H", a + i) for i in range(c["qty"]))
    if fc in (15, 16):
        return calls.encode(c)[:5]
    return calls.encode(c)


class Peer(object):
    """what is at the other end of a line: bytes in, bytes out"""

    def __init__(self, framing, table, sch):
        self.framing, self.table, self.sched = framing, table, sch
        self.log = []
        self.port = None

    def answer(self, data):
        data = bytes(data)
        self.log.append(("send", self.sched.tick(), self.sched.current))
        if self.framing == "tcp":
            if len(data) < 8 or int.from_bytes(data[4:6], "big") != len(data) - 6:
                raise engine.Violation("a broken frame was sent: %s" % data.hex())
            unit, pdu = data[6], data[7:]
        else:
            if len(data) < 4 or model.crc16(data[:-2]) != data[-2] | data[-1] << 8:
                raise engine.Violation("a broken frame was sent: %s" % data.hex())
            unit, pdu = data[0], data[1:-2]
        c = self.table.get((unit, pdu))
        if c is None:
            raise engine.Violation("nobody made the request that was sent: %s" % data.hex())
        fault = c.get("fault", "")
        if fault == "drop":
            return b""
        resp = good_pdu(c)
        if fault.startswith("exc"):
            resp = bytes([c["fc"] | 0x80, int(fault[3:])])
        u = unit ^ 3 if fault == "unit" else unit
        if self.framing == "tcp":
            tid = int.from_bytes(data[:2], "big")
            return model.tcp_frame(tid ^ (0x5555 if fault == "damage" else 0), u, resp)
        f = bytearray(model.rtu_frame(u, resp))
        if fault == "damage":
            f[-1] ^= 0x10
        return bytes(f)

    def received(self):
        self.log.append(("recv", self.sched.tick(), self.sched.current))


def make_sock(peer):
    a, b = socket.socketpair()

    class LineSock(socket.socket):
        def send(self, data, *flags):
            reply = peer.answer(data)
            if reply:
                b.sendall(reply)
            return len(data)

        def sendall(self, data, *flags):
            self.send(data)

        def recv(self, n, *flags):
            d = socket.socket.recv(self, n, *flags)
            peer.received()
            return d
    s = LineSock(fileno=a.detach())
    s.settimeout(0.02)
    return s, b


class LineSerial(object):
    name = port = "line"
    baudrate, timeout, inter_byte_timeout = 115200, 1.0, None

    def __init__(self, peer, echo, is_open):
        self.peer, self.echo, self.is_open = peer, echo, is_open
        self.rx = b""

    def open(self):
        self.is_open = True

    def close(self):
        self.is_open = False

    def write(self, data):
        if not self.is_open:
            raise OSError("port is closed")
        reply = self.peer.answer(data)
        if self.echo:
            self.rx += bytes(data)
        self.rx += reply
        return len(data)

    def read(self, size=1):
        if not self.is_open:
            raise OSError("port is closed")
        d, self.rx = self.rx[:size], self.rx[size:]
        self.peer.received()
        return d

    def flush(self):
        pass

    def reset_input_buffer(self):
        self.rx = b""

    def reset_output_buffer(self):
        pass

    @property
    def in_waiting(self):
        return len(self.rx)

    def cancel_read(self):
        pass


def make_master(kind, peer, opened, ends, port):
    from modbus_tk import modbus_rtu, modbus_rtu_over_tcp, modbus_tcp
    if kind == "same":
        m = modbus_rtu.RtuMaster(port)
        m.handle_local_echo = port.echo
        return m
    if kind.startswith("rtu") and kind != "rtu-over-tcp":
        port = LineSerial(peer, kind == "rtu-echo", opened)
        peer.port = port
        m = modbus_rtu.RtuMaster(port)
        m.handle_local_echo = kind == "rtu-echo"
        return m
    base = modbus_tcp.TcpMaster if kind == "tcp" else modbus_rtu_over_tcp.RtuOverTcpMaster

    class M(base):
        opens = 0

        def _do_open(self):
            self.opens += 1
            self._sock, b = make_sock(peer)
            ends.append(b)
    m = M(timeout_in_sec=0.02)
    if opened:
        m.open()
    return m


def run_case(case, ctx):
    real = sched.load()
    real.clear_hooks()
    s = sched.Scheduler(case["schedule"], case["fine"])
    ends, table, marked = [], {}, {}
    for th in case["threads"]:
        for _, c in th:
            table[c["slave"], calls.encode(c)] = c
            if c.get("fault") in ("hook", "hook-recv"):
                marked[calls.encode(c)] = c["fault"]
    peers = []
    for k in case["masters"]:
        peers.append(peers[0] if k == "same" else Peer("tcp" if k == "tcp" else "rtu", table, s))
    masters = []
    for k, p in zip(case["masters"], peers):
        masters.append(make_master(k, p, case["opened"], ends, peers[0].port))
        if k == "same":
            ctx.label("masters on one port")

    current = {}

    def on_send(args):
        current[id(args[0])] = bytes(args[1])
        for pdu, f in marked.items():
            if pdu in bytes(args[1]) and f == "hook":
                raise ValueError("raised by a hook")

    def on_recv(args):
        for pdu, f in marked.items():
            if f == "hook-recv" and pdu in current.get(id(args[0]), b""):
                raise ValueError("raised by a hook")
    if marked:
        real.hooks.install_hook("modbus.Master.before_send", on_send)
        real.hooks.install_hook("modbus.Master.after_recv", on_recv)
    hist = []

    def body(todo):
        def go():
            for mi, c in todo:
                kw = calls.kwargs(c)
                if c.get("fault") == "arg":
                    kw["starting_address"] = 70000
                t0 = s.tick()
                try:
                    r = ("ok", masters[mi].execute(**kw))
                except Exception as e:      # noqa
                    r = ("err", e)
                hist.append((t0, s.tick(), mi, c, r))
        return go
    for th in case["threads"]:
        s.spawn(body(th))
    try:
        try:
            s.run()
        except (sched.Deadlock, sched.StepLimit) as e:
            raise engine.Violation(str(e))
    finally:
        real.clear_hooks()
        for m in masters:
            try:
                m.close()
            except Exception:
                pass
        for b in ends:
            b.close()
    for t0, t1, mi, c, (k, r) in hist:
        if k == "err" and isinstance(r, engine.Violation):
            raise r
        fault = c.get("fault", "")
        where = "call %r on %s master %d" % (c, case["masters"][mi], mi)
        if fault.startswith("exc"):
            engine.ensure(k == "err" and isinstance(r, real.mexc.ModbusError) and r.get_exception_code() == int(fault[3:]),
                          "%s: expected its exception code, got %r", where, r)
        elif fault:
            engine.ensure(k == "err", "%s: returned %r", where, r)
        else:
            engine.ensure(k == "ok" and calls.same(r, calls.result(c, good_pdu(c))), "%s: gave %r, expected %r", where, r,
                          calls.result(c, good_pdu(c)))
        ctx.label((fault or "good").rstrip("0123456789"))
    # one exchange at a time on every line: no request between another request and the end of its reply
    for i, p in enumerate(peers):
        spans, last = [], {}
        for what, t, who in p.log:
            if what == "send":
                last[who] = [t, t]
                spans.append(last[who])
            elif who in last:
                last[who][1] = t
        for x, y in zip(spans, spans[1:]):
            engine.ensure(x[1] < y[0], "two exchanges are mixed on the line of master %d", i)
    over = any(peers[a[2]] is peers[b[2]] and a[0] < b[1] and b[0] < a[1] for i, a in enumerate(hist) for b in hist[i + 1:])
    ctx.label("overlapping" if over else "not overlapping")
    ctx.label("preemptions", s.switches)
    if over:
        ctx.nontrivial()
