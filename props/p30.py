"""P30 nothing is used up: cycles of operations repeated many times, with descriptors, threads and memory counted"""
import gc
import os
import select
import socket
import struct
import sys
import threading
import time

from hypothesis import strategies as st

from pbt import calls, engine, gen, model

ID = "P30"
RULE = ("a case is a cycle of 1-7 operations - requests and API calls on a databank, clients coming and going at a TcpServer with "
        "restarts, masters (TCP, RTU over TCP, pymodbus-style, RPC client) against a peer that answers, fails or is absent, an RTU "
        "master and server with failing ports, worker threads - repeated 30 to 100 times after a warm-up; descriptors, threads and "
        "allocated blocks are counted between the rounds; non-trivial = the cycle has an operation that fails and one that works")
EXAMPLES = {"quick": 140, "thorough": 4000}
CASE_TIMEOUT = 200
ASSUMPTIONS = ["memory that grows in every one of 8 rounds, by a block per cycle or more, grows for ever (a bounded cache is allowed)",
               "a master whose connection failed is closed by the application (or replaced)"]
FCS = (1, 2, 3, 4, 5, 6, 15, 16, 22, 23)
LAYOUT = [[1, 0, 40], [2, 10, 30], [3, 0, 40], [4, 5, 20]]
SOCK_HOOKS = ["modbus_tcp.TcpServer.on_connect", "modbus_tcp.TcpServer.on_disconnect", "modbus_tcp.TcpServer.after_recv",
              "modbus_tcp.TcpServer.before_send", "modbus_tcp.TcpServer.after_send", "modbus_tcp.TcpServer.on_error"]
HOOKS = ["modbus.Server.before_handle_request", "modbus.Server.after_handle_request", "modbus.Slave.handle_request",
         "modbus.Slave.handle_write_multiple_registers_request", "modbus.Slave.on_exception", "modbus.Databank.on_error",
         "modbus.ModbusBlock.setitem"]

LINES = ["add_slave 3", "add_slave 1", "remove_slave 2", "remove_slave 9", "has_slave 1", "has_slave x", "remove_all_slaves", "add_block 1 new%d 3 500 9",
         "add_block 1 new 3 0 9", "remove_block 1 b1", "remove_block 1 new%d", "remove_all_blocks 2", "set_values 1 b2 0 %d 1 2", "set_values 1 b2 39 1 2",
         "get_values 1 b2 0 40", "get_values 1 b9 0 4", "install_hook modbus.Server.before_handle_request f1",
         "install_hook modbus.ModbusBlock.setitem f1", "install_hook modbus.Slave.on_exception nobody", "uninstall_hook modbus.Slave.on_exception f1",
         "set_verbose 1", "set_verbose 0", "set_verbose", "echo %d", "boom", "nothing", "unknown%d", "", "  ", "add_slave"]


@st.composite
def _pdu(draw):
    pdu = draw(gen.request_pdu(LAYOUT))
    k = draw(st.integers(0, 5))
    if k == 0:
        pdu = pdu[:draw(st.integers(0, len(pdu) - 1))]
    elif k == 1:
        pdu = draw(st.binary(min_size=1, max_size=12))
    return pdu.hex()


@st.composite
def _api(draw):
    k = draw(st.sampled_from(["slave", "slave", "block", "block", "set", "get", "hook", "hook", "clear"]))
    if k == "slave":
        return [k, draw(st.integers(0, 5)), draw(st.sampled_from(["add", "remove", "again"]))]
    if k == "block":
        return [k, draw(st.integers(1, 2)), draw(st.sampled_from(["add", "remove", "again", "bad"])), draw(st.integers(0, 3))]
    if k in ("set", "get"):
        return [k, 1, draw(st.integers(0, 3)), draw(st.integers(-1, 45)), draw(st.integers(1, 5))]
    if k == "hook":
        return [k, draw(st.sampled_from(HOOKS)), draw(st.sampled_from(["none", "raise", "modbus"])), draw(st.booleans())]
    return [k]


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(["db", "db", "server", "server", "server", "master", "master", "master", "rtu", "rtu", "worker", "sim"]))
    ops = []
    n = draw(st.integers(1, 7))
    case = {"kind": kind, "ops": ops}
    if kind == "db":
        for _ in range(n):
            if draw(st.booleans()):
                ops.append(["req", draw(st.sampled_from(["tcp", "rtu"])), draw(st.sampled_from([1, 1, 1, 2, 0, 9])), draw(_pdu()),
                            draw(st.integers(0, 9)) == 0])
            else:
                ops.append(draw(_api()))
    elif kind == "server":
        for _ in range(n):
            k = draw(st.sampled_from(["client"] * 8 + ["api", "api", "sockhook", "restart"]))
            if k == "restart" and (any(o[0] == k for o in ops) or draw(st.booleans())):
                k = "client"        # stopping takes up to a second
            if k == "client":
                frames = draw(st.lists(st.tuples(st.sampled_from([1, 1, 2, 0, 9]), _pdu()), max_size=3))
                ops.append([k, [list(f) for f in frames], draw(st.sampled_from(["none", "none", "half", "junk"])),
                            draw(st.sampled_from(["close", "rst", "shut", "stay"]))])
            elif k == "api":
                ops.append(draw(_api()))
            elif k == "sockhook":
                ops.append([k, draw(st.sampled_from(SOCK_HOOKS)), draw(st.sampled_from(["none", "raise", "close"]))])
            else:
                ops.append([k])
        case["missing"] = draw(st.booleans())
    elif kind == "master":
        case["what"] = draw(st.sampled_from(["tcp", "tcp", "rtu", "py", "rpc"]))
        for _ in range(n):
            k = draw(st.sampled_from(["call"] * 8 + ["absent", "absent", "close", "open", "new", "drop", "hook"]))
            if k == "call":
                c = draw(calls.call(fcs=FCS, slaves=st.just(1)))
                c.pop("raw", None)
                c.pop("fmt", None)
                ops.append([k, c, draw(calls.response(c)).hex(),
                            draw(st.sampled_from(["good"] * 4 + ["exc", "wrong", "part", "close", "rst", "silent", "surplus", "badid"]))])
            elif k == "hook":
                ops.append([k, draw(st.sampled_from(["before_connect", "after_connect", "before_send", "after_recv", "before_close",
                                                     "after_close"]))])
            else:
                ops.append([k])
    elif kind == "rtu":
        case["echo"] = draw(st.booleans())
        for _ in range(n):
            k = draw(st.sampled_from(["call"] * 6 + ["junk", "fail", "openfail", "mfail", "close", "restart", "api"]))
            if k == "call":
                c = draw(calls.call(fcs=FCS, slaves=st.just(1)))
                c.pop("raw", None)
                ops.append([k, c])
            elif k == "junk":
                ops.append([k, draw(st.binary(min_size=1, max_size=20)).hex()])
            elif k == "api":
                ops.append(draw(_api()))
            else:
                ops.append([k])
    elif kind == "sim":
        for _ in range(n):
            k = draw(st.sampled_from(["line", "line", "line", "console", "raw", "modbus"]))
            if k == "raw":
                ops.append([k, draw(st.sampled_from(["", "ff00", "0a", draw(st.binary(max_size=8)).hex()])),
                            draw(st.sampled_from(["read", "close", "rst"]))])
            elif k == "modbus":
                ops.append([k, draw(_pdu())])
            else:
                ops.append([k, draw(st.sampled_from(LINES))])
    else:
        for _ in range(n):
            ops.append([draw(st.sampled_from(["thread", "server"])), draw(st.sampled_from(["", "init", "main", "exit"])),
                        draw(st.sampled_from(["", "start", "stop"])), draw(st.integers(0, 2))])
    return case


def strategy(tier):
    return _case()


_C = {"fc": 3, "slave": 1, "addr": 0, "qty": 2}
FIXED = [
    {"kind": "master", "what": w, "ops": [["absent"], ["close"], ["call", _C, "030400010002", "good"],
                                          ["call", _C, "030400010002", "rst"], ["absent"]]} for w in ("tcp", "rtu", "py", "rpc")
] + [
    {"kind": "sim", "ops": [["line", "add_slave 3"], ["console", "unknown%d"], ["raw", "", "rst"], ["raw", "ff00", "read"], ["modbus", "0300000002"]]},
    {"kind": "master", "what": "tcp", "ops": [["hook", "after_connect"], ["absent"]]},
    {"kind": "server", "missing": True, "ops": [["client", [[1, "0300000002"]], "half", "rst"], ["client", [[9, "0300000002"]], "junk", "close"],
                                                ["restart"], ["client", [[1, "0300000002"]], "none", "stay"]]},
    {"kind": "server", "missing": True, "ops": [["sockhook", SOCK_HOOKS[0], "raise"], ["client", [[1, "0300000002"]], "none", "stay"],
                                                ["client", [[1, "07"]], "none", "stay"], ["restart"]]},
]


class Peer(object):
    """answers every connection in one thread, according to `mode`; keeps nothing"""

    def __init__(self, addr, framing):
        self.framing = framing
        self.ls = socket.socket()
        self.ls.bind((addr, 0))
        self.ls.listen(20)
        self.addr, self.port = self.ls.getsockname()
        self.mode = ("good", b"")
        self.conns = {}
        self.stopped = False
        self.r, self.w = socket.socketpair()
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        while not self.stopped:
            p = select.poll()
            by = {self.r.fileno(): self.r, self.ls.fileno(): self.ls}
            for c in self.conns:
                by[c.fileno()] = c
            for fd in by:
                p.register(fd, select.POLLIN)
            for fd, _ in p.poll(1000):
                c = by[fd]
                if c is self.r:
                    c.recv(100)
                elif c is self.ls:
                    n = c.accept()[0]
                    n.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    self.conns[n] = b""
                else:
                    self.data(c)
        for c in list(self.conns):
            self.drop(c)
        self.ls.close()
        self.r.close()

    def drop(self, c, rst=False):
        if rst:
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        del self.conns[c]
        c.close()

    def data(self, c):
        try:
            d = c.recv(2000)
        except OSError:
            d = b""
        if not d:
            return self.drop(c)
        buf = self.conns[c] = self.conns[c] + d
        mode, pdu = self.mode
        if self.framing == "rpc":
            if mode in ("silent",):
                return
            if mode == "rst":
                return self.drop(c, True)
            word = buf.decode("latin-1").split(" ")[0]
            text = {"good": word + " done: 1\r\n", "exc": word + " error: no\r\n", "wrong": "\xff\xfe", "part": word + " do",
                    "close": ""}.get(mode, "something else")
            try:
                c.sendall(text.encode("latin-1"))
            except OSError:
                pass
            return self.drop(c)
        if self.framing == "tcp":
            if len(buf) < 7 or len(buf) < 6 + (buf[4] << 8 | buf[5]):
                return
            tid, unit = buf[0] << 8 | buf[1], buf[6]
            good = model.tcp_frame(tid ^ (mode == "badid"), unit, pdu)
        else:
            if not self.rtu_whole(buf):
                return
            good = model.rtu_frame((buf[0] + (mode == "badid")) & 0xff, pdu)
        self.conns[c] = b""
        try:
            if mode == "silent":
                return
            if mode == "rst":
                return self.drop(c, True)
            if mode == "part":
                c.sendall(good[:len(good) // 2])
                return self.drop(c)
            if mode == "close":
                return self.drop(c)
            c.sendall(good + (good if mode == "surplus" else b""))
        except OSError:
            self.drop(c)

    @staticmethod
    def rtu_whole(b):
        if len(b) < 4:
            return False
        fc = b[1]
        if fc in (15, 16):
            return len(b) >= 7 and len(b) >= 9 + b[6]
        if fc == 23:
            return len(b) >= 11 and len(b) >= 13 + b[10]
        return len(b) >= (10 if fc == 22 else 8)

    def close(self):
        self.stopped = True
        self.w.send(b"x")
        self.thread.join()
        self.w.close()


def fds():
    return len(os.listdir("/proc/self/fd"))


def vary(pdu, n):
    """the request with other register values in each cycle"""
    if pdu[:1] in (b"\x06", b"\x10", b"\x16", b"\x17") and len(pdu) > 4:
        return pdu[:-2] + struct.pack(">H", n & 0x7fff)
    if pdu[:1] == b"\x0f" and len(pdu) > 6:
        return pdu[:-1] + bytes([n & 255])
    return pdu


class Meter(object):
    """counts what is in use between rounds of cycles"""

    def __init__(self, cycle, per_round):
        self.cycle, self.k = cycle, per_round
        self.n = 0

    def settle(self, read, bound, what):
        from pbt import net
        end = time.time() + net.WAIT
        v = read()
        while v > bound:
            if time.time() > end:
                return v
            time.sleep(0.005)
            gc.collect()
            v = read()
        return v

    def round(self, n):
        for _ in range(n):
            self.n += 1
            self.cycle(self.n)
        gc.collect()
        gc.collect()

    def run(self):
        self.round(3)
        time.sleep(0.01)
        nfd, nth = fds(), threading.active_count()
        blocks = sys.getallocatedblocks()
        grown, total = True, 0
        for r in range(3):
            self.round(self.k)
            total += self.k
            v = self.settle(fds, nfd + self.k // 2 - 1, "fd")
            engine.ensure(v < nfd + self.k // 2, "%d descriptors in use after 3 cycles, %d after %d more", nfd, v, total)
            v = self.settle(threading.active_count, nth + self.k // 2 - 1, "thread")
            engine.ensure(v < nth + self.k // 2, "%d threads after 3 cycles, %d after %d more", nth, v, total)
            now = sys.getallocatedblocks()
            grown = grown and now - blocks >= self.k
            blocks = now
            if not grown:
                break
        if not grown:
            return
        # memory grew in each round: does it go on like this?
        first, at = blocks, total
        for r in range(5):
            self.round(8 * self.k)
            total += 8 * self.k
            now = sys.getallocatedblocks()
            if now - blocks < 8 * self.k:
                return
            blocks = now
        raise engine.Violation("memory grows with every repetition: %d blocks more after %d cycles" % (blocks - first, total - at))


def run_case(case, ctx):
    from pbt import real
    real.clear_hooks()
    try:
        seen = KINDS[case["kind"]](case, ctx)
    finally:
        real.clear_hooks()
    if len(seen) == 2:
        ctx.nontrivial()


def fresh(db):
    db.remove_all_slaves()
    for i in (1, 2):
        s = db.add_slave(i, unsigned=i == 1)
        for n, (typ, start, size) in enumerate(LAYOUT):
            s.add_block("b%d" % n, typ, start, size)


def api(op, db, real, installed, n=0):
    """True if it worked"""
    k = op[0]
    try:
        if k == "slave":
            if op[2] == "remove":
                db.remove_slave(op[1])
            else:
                db.add_slave(op[1] + 5 * (op[2] == "add")).add_block("x", 3, 0, 5)
        elif k == "block":
            s = db.get_slave(op[1])
            if op[2] == "remove":
                s.remove_block("b%d" % op[3])
            elif op[2] == "again":
                s.remove_block("b%d" % op[3])
                s.add_block("b%d" % op[3], *LAYOUT[op[3]])
            else:
                s.add_block("new%d-%d" % (op[3], n), LAYOUT[op[3]][0], 100 if op[2] == "add" else 0, 10)
        elif k == "set":
            db.get_slave(1).set_values("b%d" % op[2], op[3], [n & 0x7fff] * op[4])
        elif k == "get":
            db.get_slave(1).get_values("b%d" % op[2], op[3], op[4])
        elif k == "hook":
            def fct(args, how=op[2]):
                if how == "raise":
                    raise ValueError("hook")
                if how == "modbus":
                    raise real.mexc.ModbusError(4)
            real.hooks.install_hook(op[1], fct)
            installed.append((op[1], fct, op[3]))
        else:
            db.remove_all_slaves()
        return True
    except Exception:
        return False


def uninstall(installed, real):
    for name, fct, single in installed:
        try:
            real.hooks.uninstall_hook(name, fct if single else None)
        except ValueError:
            pass        # all of this name are gone
    del installed[:]


def run_db(case, ctx):
    from pbt import real
    from modbus_tk import modbus_rtu, modbus_tcp
    db = real.modbus.Databank(error_on_missing_slave=True)
    seen, installed = set(), []

    def cycle(n):
        fresh(db)
        for op in case["ops"]:
            if op[0] == "req":
                pdu = vary(bytes.fromhex(op[3]), n)
                f = model.tcp_frame(n & 0xffff, op[2], pdu) if op[1] == "tcp" else model.rtu_frame(op[2], pdu)
                q = modbus_tcp.TcpQuery() if op[1] == "tcp" else modbus_rtu.RtuQuery()
                try:
                    r = db.handle_request(q, f[:-1] if op[4] else f)
                    seen.add(bool(r) and not (r[7 if op[1] == "tcp" else 1] & 0x80 if len(r) > 7 else True))
                except Exception:
                    seen.add(False)
            else:
                seen.add(api(op, db, real, installed, n))
        uninstall(installed, real)

    Meter(cycle, 25).run()
    ctx.label("db")
    return seen


def run_server(case, ctx):
    from pbt import net, real
    from modbus_tk import modbus_tcp
    base = fds(), threading.active_count()
    addr = net.address()
    port = net.free_port(addr)
    srv = modbus_tcp.TcpServer(port, addr, error_on_missing_slave=case["missing"])
    srv.start()
    net.wait_connect(addr, port)
    seen, installed, stay = set(), [], []

    def cycle(n):
        fresh(srv.get_db())
        for op in case["ops"]:
            if op[0] == "client":
                c = net.Raw(addr, port)
                try:
                    for unit, pdu in op[1]:
                        c.send(model.tcp_frame(n & 0xffff, unit, vary(bytes.fromhex(pdu), n)))
                    if op[1] and op[1][-1][0] == 1:
                        # wait for something, unless hooks or the request keep the server silent
                        c.s.settimeout(0.002)
                        try:
                            d = c.s.recv(1000)
                            seen.add(bool(d) and d[-2] & 0x80 == 0)
                        except socket.timeout:
                            pass
                    if op[2] == "half":
                        c.send(b"\0\1\0\0\0")
                        seen.add(False)
                    elif op[2] == "junk":
                        c.send(b"\xff\xff\xff\xff\0\0\1")
                        seen.add(False)
                except OSError:
                    seen.add(False)
                if op[3] == "stay" and op[2] != "half":
                    stay.append(c)
                elif op[3] == "shut" and op[2] != "half":
                    try:
                        c.s.shutdown(socket.SHUT_WR)
                        while c.s.recv(1000):
                            pass
                    except OSError:
                        pass
                    c.close()
                else:
                    (c.reset if op[3] == "rst" else c.close)()
            elif op[0] == "sockhook":
                def fct(args, how=op[2]):
                    if how == "close":
                        try:
                            if not args[1].getsockopt(socket.SOL_SOCKET, socket.SO_ACCEPTCONN):
                                args[1].close()
                        except OSError:
                            pass
                    elif how == "raise":
                        raise ValueError("hook")
                real.hooks.install_hook(op[1], fct)
                installed.append((op[1], fct, True))
            elif op[0] == "restart":
                uninstall(installed, real)
                srv.stop()
                srv.start()
                net.wait_connect(addr, port)
                seen.add(True)
            else:
                api(op, srv.get_db(), real, installed, n)
        for c in stay:
            c.close()
        del stay[:]
        uninstall(installed, real)
        probe(addr, port, srv.get_db())

    slow = sum(1 for o in case["ops"] if o[0] == "restart" or (o[0] == "client" and o[2] != "none"))
    try:
        Meter(cycle, 4 if slow else 10).run()
        ctx.label("server")
    finally:
        for c in stay:
            c.close()
        uninstall(installed, real)
        srv.stop()
    released(base, "the server was stopped")
    return seen


def released(base, where):
    m = Meter(None, 0)
    gc.collect()
    n = m.settle(fds, base[0], "fd")
    engine.ensure(n <= base[0], "%s: %d descriptors in use, %d before it was made", where, n, base[0])
    n = m.settle(threading.active_count, base[1], "thread")
    engine.ensure(n <= base[1], "%s: %d threads, %d before it was made", where, n, base[1])


def run_master(case, ctx):
    from pbt import net, real
    from modbus_tk import modbus_rtu_over_tcp, modbus_tcp, pymodbusclient, simulator_rpc_client
    what = case["what"]
    peer = Peer(net.address(), {"py": "tcp"}.get(what, what))
    dead = net.free_port(net.address())
    base = fds(), threading.active_count()
    seen, box = set(), {}

    def make():
        if what == "rpc":
            return simulator_rpc_client.SimulatorRpcClient(peer.addr, peer.port, net.WAIT)
        if what == "py":
            return pymodbusclient.PyModbusClientTCP(peer.addr, peer.port, net.WAIT)
        cls = modbus_tcp.TcpMaster if what == "tcp" else modbus_rtu_over_tcp.RtuOverTcpMaster
        return cls(peer.addr, peer.port, net.WAIT)

    def timeout(m, t):
        if what == "rpc":
            m.timeout = t
        else:
            (m.client if what == "py" else m).set_timeout(t)

    def call(m, c):
        if what == "rpc":
            return m.add_slave(c["addr"])
        if what == "py":
            fc = c["fc"]
            if fc in (1, 2, 4):
                return {1: m.read_coils, 2: m.read_discrete_inputs, 4: m.read_input_registers}[fc](c["addr"], c["qty"])
            return m.client.execute(**calls.kwargs(c))
        return m.execute(**calls.kwargs(c))

    def point(m, port):
        t = m.client if what == "py" else m
        if what == "rpc":
            t.port = port
        else:
            t._port = port      # noqa: the address of a master cannot be changed otherwise

    def cycle(n):
        hooked = None
        for op in case["ops"]:
            m = box["m"]
            k = op[0]
            try:
                if k == "call":
                    c, pdu = op[1], bytes.fromhex(op[2])
                    if op[3] == "exc":
                        pdu = bytes([c["fc"] | 0x80, 2])
                    elif op[3] == "wrong":
                        pdu = pdu[:-1] or b"\x01"
                    elif c["fc"] in (3, 4):
                        pdu = pdu[:-2] + struct.pack(">H", n & 0xffff)
                    peer.mode = (op[3], pdu)
                    # an RTU reply of wrong length ends with the timeout
                    quick = op[3] == "silent" or what == "rtu" and op[3] in ("wrong", "badid")
                    timeout(m, 0.004 if quick else net.WAIT)
                    call(m, c)
                    seen.add(True)
                elif k == "absent":
                    # the peer is there, but refuses: a master that has no connection cannot make one
                    if what != "rpc":
                        m.close()
                    point(m, dead)
                    try:
                        call(m, {"fc": 1, "slave": 1, "addr": 1, "qty": 1})
                        raise engine.Violation("a call succeeded although nobody listens")
                    except OSError:
                        seen.add(False)
                    finally:
                        point(m, peer.port)
                elif k == "hook":
                    if what != "rpc" and not hooked:
                        name = "modbus_tcp.TcpMaster." + op[1]

                        def fct(args):
                            raise ValueError("hook")
                        real.hooks.install_hook(name, fct)
                        hooked = (name, fct)
                elif what == "rpc":
                    pass
                elif k == "open":
                    m.open()
                elif k == "close":
                    m.close()
                elif k == "new":
                    m.close()
                    box["m"] = make()
                else:
                    box["m"] = make()
            except engine.Violation:
                raise
            except Exception:
                seen.add(False)
        if hooked:
            real.hooks.uninstall_hook(*hooked)
        if what != "rpc":
            box["m"].close()

    box["m"] = make()
    try:
        Meter(cycle, 10).run()
        ctx.label("master " + what)
        if what != "rpc":
            box["m"].close()
        # the master still exists
        released(base, "the master was closed")
    finally:
        box.clear()
        peer.close()
    return seen


def run_rtu(case, ctx):
    from pbt import fakeserial, net, real
    from modbus_tk import modbus_rtu
    base = fds(), threading.active_count()
    line = fakeserial.Line(None, case["echo"])
    srv = modbus_rtu.RtuServer(line.server)
    master = modbus_rtu.RtuMaster(line.master)
    master.handle_local_echo = case["echo"]
    seen, installed = set(), []
    srv.start()

    def cycle(n):
        fresh(srv.get_db())
        for op in case["ops"]:
            engine.ensure(line.server.wait_idle(), "the server does not wait for the next request")
            if op[0] == "call":
                try:
                    c = dict(op[1])
                    if c["fc"] == 6:
                        c["out"] = n & 0x7fff
                    master.execute(**calls.kwargs(c))
                    seen.add(True)
                except Exception:
                    seen.add(False)
            elif op[0] == "junk":
                line.server.feed([bytes.fromhex(op[1])])
            elif op[0] in ("fail", "openfail"):
                line.server.open_failures = 1 if op[0] == "openfail" else 0
                line.server.feed([fakeserial.FAIL])
                seen.add(False)
            elif op[0] == "mfail":
                line.master.feed([fakeserial.FAIL])
            elif op[0] == "close":
                master.close()
            elif op[0] == "restart":
                srv.stop()
                line.server.rx.clear()
                srv.start()
            else:
                api(op, srv.get_db(), real, installed, n)
        uninstall(installed, real)
        engine.ensure(line.server.wait_idle(), "the server does not wait for the next request")
        for p in (line.master, line.server):
            p.rx.clear()
            del p.written[:]
        del line.to_server[:], line.to_master[:]

    slow = any(o[0] in ("restart", "openfail") for o in case["ops"])
    try:
        Meter(cycle, 4 if slow else 8).run()
        ctx.label("rtu")
    finally:
        master.close()
        srv.stop()
    released(base, "the server was stopped")
    return seen


def run_worker(case, ctx):
    from pbt import real
    from modbus_tk import utils
    seen = set()

    class Srv(real.modbus.Server):
        def __init__(self, f):
            real.modbus.Server.__init__(self)
            self.f = f

        def _do_init(self):
            self.f[0]()

        def _do_run(self):
            self.f[1]()

        def _do_exit(self):
            self.f[2]()

    def cycle(n):
        for kind, bad, twice, runs in case["ops"]:
            ran = threading.Event()
            count = [0]

            def step(name):
                if name == "main":
                    count[0] += 1
                    if count[0] > runs:
                        ran.set()
                        time.sleep(0.0002)
                    else:
                        return
                if name == bad:
                    ran.set()
                    raise ValueError(name)
            f = [lambda: step("init"), lambda: step("main"), lambda: step("exit")]
            if kind == "thread":
                w = utils.WorkerThread(f[1], (), f[0], f[2])
            else:
                w = Srv(f)
            hook = threading.excepthook
            threading.excepthook = lambda a: None
            try:
                if twice == "stop":
                    w.stop()
                w.start()
                if twice == "start":
                    try:
                        w.start()
                    except Exception:
                        pass
                ran.wait(10)
                w.stop()
                seen.add(not bad)
            finally:
                threading.excepthook = hook

    base = fds(), threading.active_count()
    Meter(cycle, 8).run()
    released(base, "every thread was stopped")
    ctx.label("worker")
    return seen


def run_sim(case, ctx):
    from pbt import net, real
    from props import p23
    if "sim" not in ctx.store:
        p23.setup(ctx)
    addr, ports = ctx.store["modbus"]
    db = ctx.store["server"].get_db()
    seen = set()
    errors = sys.stderr

    def cycle(n):
        fresh(db)
        for op in case["ops"]:
            if op[0] in ("line", "console"):
                got = p23.say(ctx, "rpc" if op[0] == "line" else "console", op[1].replace("%d", str(n)))
                seen.add(" done: " in got)
            elif op[0] == "raw":
                c = net.Raw(*ctx.store["rpc"])
                c.s.sendall(bytes.fromhex(op[1]))
                if op[2] == "read":
                    c.s.shutdown(socket.SHUT_WR)
                    while c.s.recv(1000):
                        pass
                (c.reset if op[2] == "rst" else c.close)()
                seen.add(False)
            else:
                c = net.Raw(addr, ports[n & 1])
                c.send(model.tcp_frame(n & 0xffff, 1, vary(bytes.fromhex(op[1]), n)))
                c.send(model.tcp_frame(n & 0xffff, 1, b"\x07"))
                c.close()
        real.clear_hooks()
        engine.ensure(p23.say(ctx, "rpc", "set_verbose 0").strip() == "set_verbose done: 0", "wrong answer to set_verbose")
        for p in ports:
            probe(addr, p, db)

    sys.stderr = open(os.devnull, "w")
    try:
        Meter(cycle, 6).run()
        ctx.label("sim")
    except BaseException:
        p23.relaunch(ctx)
        raise
    finally:
        sys.stderr.close()
        sys.stderr = errors
    return seen


def probe(addr, port, db):
    """the server has dealt with everything that came before"""
    from pbt import net
    fresh(db)
    c = net.Raw(addr, port)
    c.send(model.tcp_frame(5, 1, b"\x07"))
    engine.ensure(c.recv_frame() == (5, 0, 1, b"\x07\0"), "wrong reply to the probe")
    c.close()


KINDS = {"sim": run_sim, "db": run_db, "server": run_server, "master": run_master, "rtu": run_rtu, "worker": run_worker}
