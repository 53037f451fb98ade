"""P21 observers: the same traffic with and without verbose mode, debug logging and passive hooks (metamorphic relation)"""
import io
import logging
import re
import struct
import sys
import threading

from hypothesis import strategies as st

from pbt import calls, e2e, engine, gen, model, replies
from props import p20

ID = "P21"
RULE = ("a case is a history for one of: TcpServer with raw clients, RTU master and server on a line, a TCP or RTU-over-TCP "
        "master with a scripted peer, a databank called directly (well-formed, malformed, truncated, broadcast requests, bad "
        "arguments, block management); it is run twice, the second time with verbose mode, debug logging (formatted, or by the handlers of modbus_tk) and/or "
        "passive hooks on every documented site; non-trivial = a malformed or refused exchange and a successful one both "
        "happened and at least 10 records or hook calls were observed")
EXAMPLES = {"quick": 450, "thorough": 9000}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["a difference is reported when three paired runs in a row differ in the same way"]
LAYOUT = [[1, 0, 30], [2, 5, 20], [3, 0, 130], [4, 10, 12], [3, 200, 8]]
SIDS = (1, 9)
LAY = {i: LAYOUT for i in SIDS}


@st.composite
def _frame(draw, how):
    """a request frame, often damaged"""
    pdu = draw(gen.request_pdu(LAYOUT))
    unit = draw(st.sampled_from([1, 1, 9, 9, 0, 77]))
    k = draw(st.integers(0, 11))
    if k == 0:
        pdu = pdu[:draw(st.integers(0, len(pdu) - 1))]
    elif k == 1:
        i = draw(st.integers(0, len(pdu) - 1))
        pdu = pdu[:i] + bytes([draw(st.integers(0, 255))]) + pdu[i + 1:]
    elif k == 2:
        pdu = draw(st.binary(max_size=9))
    if how == "tcp":
        f = model.tcp_frame(draw(st.integers(0, 0xffff)), unit, pdu, draw(st.sampled_from([0, 0, 0, 1])),
                            len(pdu) + 1 + draw(st.sampled_from([0] * 9 + [-1, 1, -2])) if pdu else None)
    else:
        f = model.rtu_frame(unit, pdu)
    k = draw(st.integers(0, 14))
    if k == 0:
        f = f[:draw(st.integers(0, len(f) - 1))]
    elif k == 1:
        f = f[:-1] + bytes([f[-1] ^ 1])
    elif k == 2:
        f = draw(st.binary(max_size=12))
    return f.hex()


@st.composite
def _case(draw):
    how = draw(st.sampled_from(["server", "server", "line", "line", "tcp", "rtu-over-tcp", "db", "db"]))
    steps = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.integers(0, 9))
        if how == "server":
            if k <= 7:
                steps.append(["raw", draw(st.lists(_frame("tcp"), min_size=1, max_size=3))])
            else:
                steps.append(["restart"])
        elif how == "line":
            if k <= 3:
                steps.append(["call", draw(e2e.e2e_call(LAY))])
            elif k == 4:
                c = draw(calls.call())
                c.pop("raw", None)
                k2 = draw(st.integers(0, 3))
                if k2 == 0:
                    c["slave"] = 300
                elif k2 == 1:
                    c["fc"] = 99
                elif k2 == 2 and c["fc"] == 16:
                    c["out"] = [70000]
                steps.append(["call", c])
            elif k <= 7:
                steps.append(["raw", [draw(_frame("rtu"))]])
            else:
                steps.append([draw(st.sampled_from(["restart", "close"]))])
        elif how == "db":
            if k <= 6:
                f = draw(st.sampled_from(["tcp", "rtu"]))
                steps.append(["req", f, draw(_frame(f))])
            elif k == 7:
                steps.append(["set", draw(st.sampled_from(SIDS)), draw(st.integers(0, 4)), draw(st.integers(0, 210)),
                              draw(st.lists(st.integers(0, 1), min_size=0, max_size=4))])
            elif k == 8:
                steps.append(["block", draw(st.sampled_from(SIDS)), "b%d" % draw(st.integers(0, 8)),
                              draw(st.integers(0, 5)), draw(st.integers(-2, 300)), draw(st.integers(-1, 40))])
            else:
                steps.append([draw(st.sampled_from(["remove_block", "remove_slave", "add_slave"])),
                              draw(st.sampled_from(SIDS + (3,))), "b%d" % draw(st.integers(0, 6))])
        else:
            c = draw(calls.call(fcs=replies.E2E))
            c.pop("raw", None)
            if k <= 3:
                s = draw(replies.genuine(c))
            elif how == "tcp":
                s = draw(replies.script(c, ["ok", "exc", "tid", "pid", "unit", "len", "fc", "wrong", "raw"], "tcp", ("close",)))
            else:
                s = draw(replies.script(c, ["ok", "exc", "unit", "crc", "fc", "wrong", "raw"], "rtu", ("close",)))
            steps.append(["scripted", c, s])
            if k == 9:
                steps.append(["close"])
    obs = {"verbose": draw(st.integers(0, 4)) > 0, "debug": draw(st.integers(0, 4)) > 0, "hooks": draw(st.integers(0, 4)) > 0}
    if obs["debug"]:
        obs["logger"] = draw(st.sampled_from(["own", "own", "console", "udp", "dummy"]))
    return {"how": how, "steps": steps, "obs": obs, "thread": draw(st.sampled_from(["main", "main", "Größe", "温度 100%s"]))}


def strategy(tier):
    return _case()


class Handler(logging.Handler):
    """formats every record and lets formatting errors out, as the handlers of modbus_tk do"""

    def __init__(self):
        logging.Handler.__init__(self)
        self.n = 0
        self.setFormatter(logging.Formatter("%(asctime)s\t%(levelname)s\t%(module)s.%(funcName)s\t%(threadName)s\t%(message)s"))

    def emit(self, record):
        self.format(record)
        self.n += 1


def err_key(real, e):
    if e is None:
        return None
    if isinstance(e, real.mexc.ModbusError):
        return ["ModbusError", e.get_exception_code()]
    return [type(e).__name__, re.sub(r"[0-9]+", "#", str(e))]


class Count(logging.Filter):
    n = 0

    def filter(self, record):
        self.n += 1
        return True


class Observers(object):
    def __init__(self, obs, real):
        self.real, self.obs, self.calls = real, obs, 0
        self.logger = logging.getLogger("modbus_tk")
        self.handler = None
        self.level = self.logger.level
        self.before = list(self.logger.handlers)
        self.stdout = sys.stdout
        self.filter = Count()

    def __enter__(self):
        if self.obs.get("debug"):
            kind = self.obs.get("logger", "own")
            if kind == "own":
                self.handler = Handler()
                self.logger.addHandler(self.handler)
                self.logger.setLevel(logging.DEBUG)
            else:
                # the handlers which come with modbus_tk
                from modbus_tk import utils
                sys.stdout = io.StringIO()
                utils.create_logger(kind)
            self.logger.addFilter(self.filter)
        if self.obs.get("hooks"):
            names = set(re.findall(r"^\s*(modbus[\w.]+)\(", self.real.hooks.install_hook.__doc__ or "", re.M))
            for sites in p20.SITES.values():
                names.update(sites)

            def passive(args):
                self.calls += 1
            for n in sorted(names):
                self.real.hooks.install_hook(n, passive)
        return self

    def __exit__(self, *a):
        self.real.clear_hooks()
        for h in list(self.logger.handlers):
            if h not in self.before:
                self.logger.removeHandler(h)
                if hasattr(h, "_sock"):
                    h._sock.close()
        sys.stdout = self.stdout
        self.logger.removeFilter(self.filter)
        self.logger.setLevel(self.level)

    @property
    def seen(self):
        return self.calls + self.filter.n


def memory(real, db):
    out = {}
    for sid in SIDS:
        try:
            s = db.get_slave(sid)
        except Exception as e:
            out[sid] = type(e).__name__
            continue
        for i in range(9):
            for typ, start, size in LAYOUT:
                try:
                    out["%d b%d %d %d" % (sid, i, start, size)] = list(s.get_values("b%d" % i, start, size))
                except Exception:
                    pass
    return out


def populate(db, real):
    for sid in SIDS:
        s = db.add_slave(sid, unsigned=sid == 1)
        real.build_slave(s, LAYOUT, [[2, 0, [1, 2, 3, 0x7fff]], [0, 0, [1, 0, 1, 1, 1]]])


def run(case, obs, ctx, count=False):
    """one run; returns the list of everything that can be observed"""
    from pbt import real
    real.clear_hooks()
    with Observers(obs, real) as o:
        me = threading.current_thread()
        name, me.name = me.name, case.get("thread", me.name)
        try:
            log = RUNNERS[case["how"]](case["steps"], real, bool(obs.get("verbose")))
        finally:
            me.name = name
        return log, o.seen


def run_db(steps, real, verbose):
    from modbus_tk import modbus_rtu, modbus_tcp
    db = real.modbus.Databank()
    populate(db, real)
    log = []
    for s in steps:
        try:
            if s[0] == "req":
                q = modbus_tcp.TcpQuery() if s[1] == "tcp" else modbus_rtu.RtuQuery()
                r = db.handle_request(q, bytes.fromhex(s[2]))
                r = bytes(r).hex() if isinstance(r, (bytes, bytearray)) else r
            elif s[0] == "set":
                r = db.get_slave(s[1]).set_values("b%d" % s[2], s[3], s[4])
            elif s[0] == "block":
                r = db.get_slave(s[1]).add_block(*s[2:])
            elif s[0] == "remove_block":
                r = db.get_slave(s[1]).remove_block(s[2])
            elif s[0] == "remove_slave":
                r = db.remove_slave(s[1])
            else:
                r = db.add_slave(s[1]) and None
            log.append(["ok", r])
        except Exception as e:
            log.append(["err", err_key(real, e)])
        log.append(memory(real, db))
    return log


def run_line(steps, real, verbose):
    from pbt import fakeserial
    from modbus_tk import modbus_rtu
    line = fakeserial.Line()
    line.master.is_open = line.server.is_open = False
    srv = modbus_rtu.RtuServer(line.server)
    master = modbus_rtu.RtuMaster(line.master)
    srv.set_verbose(verbose)
    master.set_verbose(verbose)
    populate(srv.get_db(), real)
    srv.start()
    log = []
    try:
        for s in steps:
            engine.ensure(line.server.wait_idle(), "the server does not come back to waiting")
            if s[0] == "call":
                try:
                    r = master.execute(**calls.kwargs(s[1]))
                    log.append(["ok", repr(bytes(r) if isinstance(r, (bytes, bytearray)) else r)])
                except Exception as e:
                    log.append(["err", err_key(real, e)])
            elif s[0] == "raw":
                line.server.feed([bytes.fromhex(f) for f in s[1]] + [fakeserial.GAP])
            elif s[0] == "restart":
                srv.stop()
                log.append(["port", line.server.is_open])
                srv.start()
            else:
                master.close()
                log.append(["port", line.master.is_open])
            engine.ensure(line.server.wait_idle(), "the server does not come back to waiting")
            log.append([[x.hex() for x in line.to_server], [x.hex() for x in line.to_master]])
            del line.to_server[:], line.to_master[:]
            log.append(memory(real, srv.get_db()))
    finally:
        master.close()
        srv.stop()
    return log


def run_server(steps, real, verbose):
    """raw TCP clients; the loop of the server is run step by step by this thread"""
    from pbt import net
    from modbus_tk import modbus_tcp
    import socket
    addr = net.address()
    port = net.free_port(addr)
    srv = modbus_tcp.TcpServer(port, addr)
    srv.set_verbose(verbose)
    populate(srv.get_db(), real)
    srv._do_init()
    log = []
    try:
        for s in steps:
            if s[0] == "restart":
                srv._do_exit()
                srv._do_init()
                continue
            raw = net.Raw(addr, port)
            box = []

            def client():
                try:
                    raw.send(b"".join(bytes.fromhex(f) for f in s[1]))
                    raw.s.shutdown(socket.SHUT_WR)
                    while True:
                        d = raw.s.recv(4096)
                        if not d:
                            break
                        box.append(d)
                except OSError:
                    box.append(b"(reset)")
            t = threading.Thread(target=client, daemon=True)
            t.start()
            for _ in range(50):
                t.join(0.003)
                if not t.is_alive():
                    break
                srv._do_run()
            engine.ensure(not t.is_alive(), "the server does not end a connection closed by its client")
            raw.close()
            log.append(b"".join(x for x in box if x != b"(reset)").hex())
            log.append(memory(real, srv.get_db()))
    finally:
        srv._do_exit()
    return log


def run_scripted(framing):
    def go(steps, real, verbose):
        from pbt import net
        from modbus_tk import modbus_rtu_over_tcp, modbus_tcp
        peer = net.Peer(framing)
        cls = modbus_tcp.TcpMaster if framing == "tcp" else modbus_rtu_over_tcp.RtuOverTcpMaster
        m = cls(peer.addr, peer.port, net.WAIT)
        m.set_verbose(verbose)
        log = []
        try:
            for s in steps:
                if s[0] == "close":
                    m.close()
                    log.append(["accepted", peer.accepted])
                    continue
                c, sc = s[1], s[2]
                box = {}

                def answer(req):
                    box["req"] = bytes(req)
                    return replies.steps(sc, replies.stream(sc, req, [], framing))
                peer.push(answer)
                try:
                    r = m.execute(**calls.kwargs(c))
                    log.append(["ok", repr(r)])
                except Exception as e:
                    log.append(["err", err_key(real, e)])
                peer.wait_done()
                # the transaction id differs from run to run
                log.append(box["req"][2 if framing == "tcp" else 0:].hex())
        finally:
            m.close()
            peer.close()
        return log
    return go


RUNNERS = {"db": run_db, "line": run_line, "server": run_server, "tcp": run_scripted("tcp"), "rtu-over-tcp": run_scripted("rtu")}


def run_case(case, ctx):
    runs = []
    for attempt in range(3):
        a, _ = run(case, {}, ctx)
        b, seen = run(case, case["obs"], ctx)
        if a == b:
            break
        runs.append((a, b))
        ctx.label("retried")
    else:
        # reported only when each side is reproducible by itself
        if all(r == runs[0] for r in runs):
            i = [x == y for x, y in zip(a, b)].index(False) if len(a) == len(b) else -1
            raise engine.Violation("observers %r change the behaviour at event %d of %s: without %r, with %r" % (
                case["obs"], i, case["how"], str(a[i])[:600], str(b[i])[:600]))
        ctx.label("not reproducible")
    ctx.label(case["how"])
    flat = str(a)
    bad = "'err'" in flat or case["how"] in ("server", "line") and any(s[0] == "raw" for s in case["steps"])
    if bad and seen >= 10:
        ctx.nontrivial()
