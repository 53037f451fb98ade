"""P22 life cycle of servers: generated start/stop/traffic histories over TCP, and generated schedules of start, stop and the loop"""
import socket
import struct
import threading
import time

from hypothesis import strategies as st

from pbt import engine, model, net, sched

ID = "P22"
RULE = ("a case is either a history of 3-14 start, stop, request, connection, data and port-in-use operations on a real TcpServer "
        "or a CompositeServer with a TCP and an RTU server, or a history of start, stop (also from a second thread), request and failing-open operations on an RtuServer or a Server "
        "subclass under a generated schedule of up to 8 preemptions; non-trivial = the server was stopped while it ran and then "
        "started again and used, or its initialisation failed and a later start worked")
EXAMPLES = {"quick": 1100, "thorough": 24000}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["a stop is sequential in the TCP histories; its timing against the loop is generated in the scheduled histories",
               "nobody starts a server while another thread stops it",
               "after a failed initialisation the application calls stop before it starts again"]
SIZE = 20


@st.composite
def _tcp(draw):
    ops, running, busy, n = [], False, False, 0
    want = draw(st.integers(4, 14))
    while len(ops) < want:
        if running:
            k = draw(st.sampled_from(["req", "req", "req", "hold", "burst", "stop", "stop", "set", "again", "slave"]))
        else:
            k = draw(st.sampled_from(["start", "start", "start", "set", "stop", "busy", "slave", "nothing"]))
        if k == "busy":
            if busy:
                k = "free"
            busy = not busy
        if k == "start":
            if busy and draw(st.integers(0, 2)):
                ops.append(["free"])
                busy = False
            running = not busy
        elif k == "stop":
            running = False
        elif k in ("req", "set"):
            n += 1
            k = [k, draw(st.booleans()), draw(st.integers(0, SIZE - 1)), n]
        elif k == "hold":
            k = [k, draw(st.integers(0, 9)) == 0]
        elif k == "burst":
            k = [k, draw(st.integers(1, 4))]
        elif k == "nothing":
            continue
        ops.append(k if isinstance(k, list) else [k])
    return {"kind": "tcp", "ops": ops, "composite": draw(st.integers(0, 2)) == 0, "ping": draw(st.integers(0, 14)) > 0, "timeout": draw(st.sampled_from([1, 1, 5, 0.5]))}


@st.composite
def _sched(draw):
    kind = draw(st.sampled_from(["rtu", "rtu", "server"]))
    ops, running, n = [], False, 0
    want = draw(st.integers(2, 9))
    while len(ops) < want:
        if running:
            k = draw(st.sampled_from(["req", "req", "stop", "stop", "stop", "set", "again", "send", "req", "lost"]))
        else:
            k = draw(st.sampled_from(["start", "start", "start", "set", "stop", "fail"]))
        n += 1
        if k == "start":
            running = True
        elif k == "stop":
            running = False
        elif k == "send":
            ops += [["send", n], ["stop"]]
            running = False
            continue
        elif k == "fail":
            ops += [["fail"], ["start"], ["stop"]]
            continue
        elif k == "lost":
            ops.append(["lost", draw(st.integers(0, 3))])
            continue
        ops.append([k, n] if k in ("req", "set", "send") else [k])
    other = []
    if draw(st.booleans()):
        # a stop from another thread, at any time after the start: nobody starts the server while it is being stopped
        first = [op for op in ops if op[0] == "set"][:2]
        ops = first + [["start"]] + [op for op in ops if op[0] in ("req", "set", "lost")] + [["stop"]]
        other = draw(st.lists(st.sampled_from(["stop", "stop", "read", "write"]), min_size=1, max_size=3))
    return {"kind": kind, "ops": ops, "other": other, "open": draw(st.booleans()), "raising_hook": draw(st.integers(0, 3)) == 0,
            "schedule": draw(sched.schedules(8, 200)), "fine": draw(st.integers(0, 5)) == 0,
            "quick": draw(st.lists(st.booleans(), max_size=12))}


def strategy(tier):
    return st.integers(0, 12).flatmap(lambda k: _tcp() if k == 0 else _sched())


def run_case(case, ctx):
    real = sched.load()
    real.clear_hooks()
    try:
        if case["kind"] == "tcp":
            run_tcp(case, ctx, real)
        else:
            run_sched(case, ctx, real)
    finally:
        real.clear_hooks()


# -- histories over TCP --------------------------------------------------------------------------
def run_tcp(case, ctx, real):
    from modbus_tk import modbus_tcp
    addr = net.address()
    port = net.free_port(addr)
    line = None
    if case["composite"]:
        from pbt import fakeserial
        from modbus_tk import modbus_rtu, simulator
        line = fakeserial.Line()
        srv = simulator.CompositeServer([modbus_tcp.TcpServer, modbus_rtu.RtuServer], [(port, addr, case["timeout"]), (line.server,)])
        line_master = modbus_rtu.RtuMaster(line.master)
        line_master.set_timeout(600.0)
        ctx.label("composite")
    else:
        srv = modbus_tcp.TcpServer(port, addr, timeout_in_sec=case["timeout"])
    srv.add_slave(1).add_block("h", 3, 0, SIZE)
    values = [0] * SIZE
    failed = threading.Event()
    real.hooks.install_hook("modbus.Server.on_exception", lambda a: failed.set())
    before = set(threading.enumerate())
    running, busy, held, slaves, stops, good = False, None, [], [1], 0, 0
    started = False

    def write(reg, value, conn=None):
        c = conn or net.Raw(addr, port)
        try:
            c.send(model.tcp_frame(value, 1, struct.pack(">BHH", 6, reg, value)))
            r = c.recv_frame()
        except net.Closed as e:
            raise engine.Violation("a running server closed the connection: %s" % e)
        except OSError as e:
            raise engine.Violation("a running server refused a connection: %s" % e)
        engine.ensure(r == (value, 0, 1, struct.pack(">BHH", 6, reg, value)), "answer %r", r)
        values[reg] = value
        if conn is None:
            c.close()

    def read():
        c = net.Raw(addr, port)
        try:
            c.send(model.tcp_frame(7, 1, struct.pack(">BHH", 3, 0, SIZE)))
            r = c.recv_frame()
        except net.Closed as e:
            raise engine.Violation("a running server closed the connection: %s" % e)
        engine.ensure(r[3] == struct.pack(">BB%dH" % SIZE, 3, 2 * SIZE, *values), "the server shows %s, expected %r", r[3].hex(),
                      values)
        c.close()
        read_line()

    def read_line():
        if line is None:
            return
        engine.ensure(line.server.wait_idle(), "the RTU server was started and does not read")
        try:
            got = line_master.execute(1, 3, 0, SIZE)
        except Exception as e:
            raise engine.Violation("a request on the serial line of a running server ended with %r" % e)
        engine.ensure(list(got) == values, "the server shows %r on the serial line, expected %r", got, values)

    def stop():
        nonlocal running, stops
        done = threading.Event()

        def ping():
            # connections make the loop of the server turn
            while not done.is_set():
                try:
                    net.Raw(addr, port).close()
                except OSError:
                    pass
                done.wait(0.003)
        t = None
        if case["ping"] and running:
            t = threading.Thread(target=ping)
            t.start()
        try:
            srv.stop()
            left = [x for x in threading.enumerate() if x not in before and x is not t]
        finally:
            done.set()
            if t:
                t.join()
        engine.ensure(not left, "stop returned and the thread of the server still runs")
        if running:
            stops += 1
        running = False
        if line is not None and started:
            engine.ensure(not line.server.is_open, "the server was stopped and its serial port is open")
        if not busy:
            engine.ensure(not net.can_connect(addr, port), "a stopped server accepts connections")
        for c in held:
            try:
                c.send(model.tcp_frame(9, 1, struct.pack(">BHH", 3, 0, 1)))
                c.recv_exact(1)
            except (net.Closed, OSError):
                c.close()
                continue
            raise engine.Violation("a stopped server answered on a connection")
        del held[:]

    try:
        for op in case["ops"]:
            k = op[0]
            ctx.label("tcp " + k)
            if k == "start":
                failed.clear()
                srv.start()
                started = True
                if busy:
                    engine.ensure(failed.wait(net.WAIT), "the port is in use and modbus.Server.on_exception was not called")
                    read_line()
                    stop()
                else:
                    net.wait_connect(addr, port)
                    running = True
                    if stops:
                        good += 1
                    read()
            elif k == "stop":
                stop()
            elif k == "again":
                try:
                    srv.start()
                except Exception:
                    pass
                read()
            elif k == "busy":
                busy = socket.socket()
                busy.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    busy.bind((addr, port))
                    busy.listen(5)
                except OSError as e:
                    raise engine.Violation("a stopped server still holds its port: %s" % e)
            elif k == "free":
                busy.close()
                busy = None
                stops += 1
            elif k == "req":
                if op[1]:
                    held.append(net.Raw(addr, port))
                write(op[2], op[3], held[-1] if op[1] else None)
                if op[3] % 3 == 0:
                    got = list(srv.get_slave(1).get_values("h", 0, SIZE))
                    engine.ensure(got == values, "memory is %r, expected %r", got, values)
            elif k == "set":
                srv.get_slave(1).set_values("h", op[2], op[3])
                values[op[2]] = op[3]
            elif k == "hold":
                held.append(net.Raw(addr, port))
                if op[1]:
                    held[-1].send(b"\0\1\0")        # part of a request
            elif k == "burst":
                # requests which nobody reads the answers of
                c = net.Raw(addr, port)
                held.append(c)
                for i in range(op[1]):
                    c.send(model.tcp_frame(i, 1, struct.pack(">BHH", 3, 0, 2)))
                for i in range(op[1]):
                    c.recv_frame()
            elif k == "slave":
                slaves.append(len(slaves) + 1)
                srv.add_slave(slaves[-1]).add_block("h", 3, 0, 2)
        if not running:
            if busy:
                busy.close()
                busy = None
            srv.start()
            started = True
            net.wait_connect(addr, port)
            running = True
        for i in slaves:
            srv.get_slave(i)
        read()
    finally:
        if busy:
            busy.close()
        try:
            stop()
        finally:
            for c in held:
                c.close()
    # the port can be taken by another server at once
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        s.bind((addr, port))
        s.listen(1)
    except OSError as e:
        raise engine.Violation("a stopped server still holds its port: %s" % e)
    finally:
        s.close()
    if good:
        ctx.nontrivial()


# -- scheduled histories -------------------------------------------------------------------------
class SPort(object):
    """a serial port for scheduled threads"""
    name = port = "line"
    baudrate, timeout, inter_byte_timeout = 115200, 1.0, None

    def __init__(self, s, is_open, quick):
        self.s, self.is_open, self.quick = s, is_open, quick
        self.rx, self.tx = b"", b""
        self.cancelled = self.broken = False
        self.failures = self.opens = self.closes = self.reads = 0

    def open(self):
        self.s.point()
        self.opens += 1
        if self.failures:
            self.failures -= 1
            raise OSError("could not open port")
        self.is_open = True

    def close(self):
        self.is_open = False
        self.closes += 1

    def read(self, size=1):
        self.s.point()
        self.reads += 1
        if not self.is_open:
            raise OSError("port is closed")

        def empty():
            return not self.rx and not self.cancelled and self.is_open and not self.broken
        if self.timeout is None:
            self.s.block(empty, "a byte")
        elif empty():
            # the timeout may be over before any other thread got anywhere
            if self.quick and self.quick.pop(0):
                self.s.point()
            else:
                self.s.idle()
        if self.broken:
            self.broken = False
            raise OSError("read failed")
        if self.cancelled:
            self.cancelled = False
            return b""
        if not self.is_open:
            raise OSError("port was closed")
        d, self.rx = self.rx[:size], self.rx[size:]
        return d

    def write(self, data):
        self.s.point()
        if not self.is_open:
            raise OSError("port is closed")
        self.tx += bytes(data)
        return len(data)

    def flush(self):
        pass

    def reset_input_buffer(self):
        self.rx = b""

    def reset_output_buffer(self):
        pass

    @property
    def in_waiting(self):
        return len(self.rx)

    def cancel_read(self):
        self.s.point()
        self.cancelled = True
        self.s.point()


def run_sched(case, ctx, real):
    from modbus_tk import modbus_rtu
    s = sched.Scheduler(case["schedule"], case["fine"])
    port = SPort(s, case["open"] and ["fail"] not in case["ops"], list(case.get("quick", ())))
    log = []
    state = {"fail": 0, "errors": 0, "stopped": False, "used": 0, "started": False, "up": False, "restarts": 0, "failed": 0}

    class G(real.modbus.Server):
        def _do_init(self):
            s.point()
            if state["fail"]:
                state["fail"] -= 1
                log.append("fail")
                raise ValueError("init failed")
            log.append("init")

        def _do_run(self):
            log.append("run")
            s.idle()

        def _do_exit(self):
            s.point()
            log.append("exit")
    rtu = case["kind"] == "rtu"
    srv = modbus_rtu.RtuServer(port) if rtu else G()
    srv.add_slave(1).add_block("h", 3, 0, SIZE)
    slave = srv.get_slave(1)

    def on_exception(args):
        state["errors"] += 1
        if case["raising_hook"]:
            raise ValueError("raised by a hook")
    real.hooks.install_hook("modbus.Server.on_exception", on_exception)
    ensure = engine.ensure
    values = [0] * SIZE
    helper = []
    others = bool(case["other"])

    def gone(where):
        """the server has finished"""
        left = [m.name for m in s.threads if m not in helper and not m.done]
        ensure(not left, "%s: stop returned and the thread of the server still runs", where)
        if rtu:
            ensure(not port.is_open or not state["started"], "%s: a stopped server still has its port open", where)
        else:
            ensure(not log or log[-1] in ("exit", "fail"), "%s: stop returned after %r", where, log[-4:])

    def answered(n):
        """a request and its answer; None when another thread stopped the server"""
        if not rtu:
            m = log.count("run")
            s.block(lambda: log.count("run") == m and not state["stopped"], "the loop of the server")
            return None if state["stopped"] else True
        reg = n % SIZE
        pdu = struct.pack(">BHH", 6, reg, n)
        port.tx = b""
        # after a failure of the port: the server reads again
        s.block(lambda: (port.broken or not port.is_open) and not state["stopped"], "the port to be opened")
        if state["stopped"]:
            return None
        port.rx += model.rtu_frame(1, pdu)
        want = model.rtu_frame(1, pdu)
        s.block(lambda: len(port.tx) < len(want) and not state["stopped"], "an answer")
        if state["stopped"]:
            return None
        ensure(port.tx == want, "the answer is %s", port.tx.hex())
        values[reg] = n
        ensure(list(slave.get_values("h", 0, SIZE)) == values, "the memory is %r, expected %r",
               slave.get_values("h", 0, SIZE), values)
        state["used"] += 1
        return True

    def main():
        running, reads = False, 0
        for op in case["ops"]:
            k = op[0]
            ctx.label("%s %s" % (case["kind"], k))
            if k == "start":
                if running:
                    continue
                if state["failed"] or state["restarts"]:
                    state["restarts"] += 1
                state["started"] = True
                port.rx = b""
                reads = port.reads
                srv.start()
                running = True
                state["up"] = True
            elif k == "stop":
                srv.stop()
                if not others:
                    gone("stop")
                    if running and not state["fail"]:
                        state["restarts"] = max(1, state["restarts"])
                running = False
                state["fail"] = port.failures = 0
                port.broken = False
            elif k == "again":
                try:
                    srv.start()
                except Exception:
                    pass
            elif k == "fail":
                if not running:
                    state["fail"] = port.failures = 1
                    state["failed"] += 1
            elif k == "lost":
                if rtu and running:
                    # once the loop of the server has begun
                    s.block(lambda: port.reads == reads and not state["stopped"], "the server to read")
                    port.failures, port.broken = op[1], True
                    if op[1]:
                        s.point()
            elif k == "set":
                slave.set_values("h", op[1] % SIZE, op[1])
                values[op[1] % SIZE] = op[1]
            elif k == "req" and running:
                answered(op[1])
            elif k == "send" and running and not others:
                # the server is stopped while it has a request in its hands
                port.rx += model.rtu_frame(9, struct.pack(">BHH", 6, 0, 77))
        # whatever happened: stop, start and use it again
        if others:
            s.block(lambda: not helper[1].done, "the second thread")
        state["stopped"] = False
        srv.stop()
        # the thread which is stopped by both callers may still leave its last line
        s.block(lambda: any(m not in helper and not m.done for m in s.threads), "the end of the server")
        gone("last stop")
        ensure(list(slave.get_values("h", 0, SIZE)) == values or others, "the memory is %r, expected %r",
               slave.get_values("h", 0, SIZE), values)
        values[:] = slave.get_values("h", 0, SIZE)
        state["fail"] = port.failures = 0
        port.rx, port.cancelled, port.broken = b"", False, False
        seen = port.reads
        s.idle()
        ensure(port.reads == seen, "a stopped server reads from its port")
        n0 = len(log)
        srv.start()
        answered(900)
        srv.stop()
        gone("stop after the restart")
        if not rtu:
            ensure(log[n0] == "init" and log[-1] == "exit" and set(log[n0 + 1:-1]) == {"run"}, "calls of the loop: %r", log[n0:][:9])

    def second():
        s.block(lambda: not state["up"], "the start")
        for k in case["other"]:
            if k == "stop":
                state["stopped"] = True
                srv.stop()
            elif k == "read":
                slave.get_values("h", 0, 3)
            else:
                srv.add_slave(40)
                srv.remove_slave(40)
    helper.append(s.spawn(main, "main"))
    if others:
        helper.append(s.spawn(second, "second"))
    try:
        s.run()
    except (sched.Deadlock, sched.StepLimit) as e:
        raise engine.Violation(str(e))
    if not rtu:
        # every run of the server: init first, exit last
        text = " ".join(log)
        for part in text.replace("exit", "exit\n").replace("fail", "fail\n").splitlines():
            words = part.split()
            ensure(words == ["fail"] or (words[0] == "init" and words[-1] == "exit" and set(words[1:-1]) <= {"run"}),
                   "calls of the server: %r", words[:6])
    ctx.label("preemptions", s.switches)
    if others:
        ctx.label("stopped by another thread")
    if state["failed"] or state["restarts"] or others:
        ctx.nontrivial()
