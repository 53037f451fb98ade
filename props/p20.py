"""P20 hooks: generated install/uninstall/traffic histories against a reference registry that predicts every event"""
import socket
import struct
import threading

from hypothesis import strategies as st

from pbt import calls, e2e, engine, gen, model

ID = "P20"
RULE = ("a case is 2 slaves, one framing (TCP, RTU line, RTU over TCP with a scripted peer) and 4-22 steps: install or "
        "uninstall a hook at a documented site (hooks return nothing, a falsy or true value, a modified request or response, "
        "or raise a ModbusError in the slave), a master call, a broadcast, a direct write, close/reopen; every event (site, "
        "order, arguments) is predicted; or a hook that fails at a databank, TCP server, RTU server or plain server with hooks at the "
        "error site; non-trivial = a replacement by a hook was used and another hook ran on the result, or an error hook ran")
EXAMPLES = {"quick": 900, "thorough": 15000}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["the two hooks of one event that the library calls on two layers (Master and TcpMaster) are two sites",
               "modbus.ModbusBlock.setitem may be called once per value or once per slice, but must describe the whole write"]

LAYOUT = [[1, 0, 24], [2, 0, 16], [3, 10, 20], [4, 0, 8], [3, 40, 6]]
SIDS = (1, 9)
FN = {1: "read_coils", 2: "read_discrete_inputs", 3: "read_holding_registers", 4: "read_input_registers",
      5: "write_single_coil", 6: "write_single_register", 7: "read_exception_status", 15: "write_multiple_coils",
      16: "write_multiple_registers", 22: "mask_write_register", 23: "read_write_multiple_registers"}
FN_SITES = {fc: "modbus.Slave.handle_%s_request" % n for fc, n in FN.items()}
COMMON = {
    "modbus.Master.before_send": "req", "modbus.Master.after_send": "void", "modbus.Master.after_recv": "resp",
    "modbus.Server.before_handle_request": "req", "modbus.Server.after_handle_request": "resp",
    "modbus.Slave.handle_request": "slave", "modbus.Slave.on_handle_broadcast": "void", "modbus.Slave.on_exception": "void",
    "modbus.ModbusBlock.setitem": "void", "modbus.Databank.on_error": "void",
}
TCP_MASTER = {"modbus_tcp.TcpMaster.before_connect": "void", "modbus_tcp.TcpMaster.after_connect": "void",
              "modbus_tcp.TcpMaster.before_close": "void", "modbus_tcp.TcpMaster.after_close": "void",
              "modbus_tcp.TcpMaster.before_send": "req"}
SITES = {
    "tcp": dict(TCP_MASTER, **{
        "modbus_tcp.TcpMaster.after_recv": "resp",
        "modbus_tcp.TcpServer.on_connect": "void", "modbus_tcp.TcpServer.on_disconnect": "void",
        "modbus_tcp.TcpServer.after_recv": "head", "modbus_tcp.TcpServer.before_send": "resp",
        "modbus_tcp.TcpServer.after_send": "void", "modbus_tcp.TcpServer.on_error": "void"}),
    "rtu": {
        "modbus_rtu.RtuMaster.before_open": "void", "modbus_rtu.RtuMaster.after_close": "void",
        "modbus_rtu.RtuMaster.before_send": "req", "modbus_rtu.RtuMaster.after_recv": "resp",
        "modbus_rtu.RtuServer.before_close": "void", "modbus_rtu.RtuServer.after_close": "void",
        "modbus_rtu.RtuServer.before_open": "void", "modbus_rtu.RtuServer.after_open": "void",
        "modbus_rtu.RtuServer.after_read": "req", "modbus_rtu.RtuServer.before_write": "resp",
        "modbus_rtu.RtuServer.after_write": "void", "modbus_rtu.RtuServer.on_error": "void"},
    "rtu-over-tcp": dict(TCP_MASTER, **{"modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv": "resp"}),
}
for _k in SITES:
    SITES[_k].update(COMMON)
    SITES[_k].update({s: "fn" for s in FN_SITES.values()})
SERVER_SIDE = ("modbus_rtu.RtuServer.", "modbus.Server.")


# -- generation -------------------------------------------------------------------------------
@st.composite
def _behaviour(draw, how, site):
    kind = SITES[how][site]
    if draw(st.integers(0, 9)) < 3:
        return ["none"]
    if kind == "req":
        if how == "rtu" and site.startswith(SERVER_SIDE) and draw(st.integers(0, 5)) == 0:
            return ["empty"]
        return draw(st.sampled_from([["addr", 1], ["addr", 2], ["addr", 0xffff], ["unit", 1], ["unit", 9]]))
    if kind == "head":
        return ["unit", draw(st.sampled_from(SIDS))]
    if kind == "resp":
        if how == "rtu" and site.startswith(SERVER_SIDE) and draw(st.integers(0, 5)) == 0:
            return ["empty"]
        return ["xor", draw(st.sampled_from([1, 2, 8, 0x80]))]
    if kind == "slave":
        return draw(st.sampled_from([["pattern"], ["pattern"], ["exc", 3], ["raise", 4], ["raise", 1], ["raise", 6]]))
    if kind == "fn":
        return draw(st.sampled_from([["raise", 4], ["raise", 2], ["value", "0101"]]))
    return ["const", draw(st.sampled_from([0, False, "", "x", 1, [], {}]))]


TRAFFIC = {"tcp": 60, "rtu": 60, "rtu-over-tcp": 60}


@st.composite
def _case(draw):
    how = draw(st.sampled_from(["tcp", "tcp", "rtu", "rtu", "rtu", "rtu-over-tcp"]))
    sites = sorted(SITES[how])
    flow = [s for s in sites if SITES[how][s] not in ("fn",)]
    steps, installed = [], []
    lay = {i: LAYOUT for i in SIDS}
    for _ in range(draw(st.integers(4, 22))):
        k = draw(st.integers(0, 19))
        if k <= 7:
            site = draw(st.sampled_from(flow if draw(st.integers(0, 3)) else sites))
            same = [h for h in installed if h[0] == site]
            if same and draw(st.integers(0, 4)) == 0:
                h = draw(st.sampled_from(same))                 # the same function once more
            else:
                h = [site, len(steps), draw(_behaviour(how, site))]
            installed.append(h)
            steps.append(["install"] + h)
        elif k <= 8 and installed:
            h = draw(st.sampled_from(installed))
            if draw(st.booleans()):
                installed.remove(h)                             # the first occurrence, as list.remove does
                steps.append(["uninstall", h[0], h[1]])
            else:
                installed = [x for x in installed if x[0] != h[0]]
                steps.append(["uninstall", h[0], None])
        elif k <= 15:
            c = draw(e2e.e2e_call(lay))
            while c["fc"] not in FN:
                c = draw(e2e.e2e_call(lay))
            steps.append(["call", c])
        elif k == 16 and how != "rtu-over-tcp":
            steps.append(["pdu", draw(gen.request_pdu(LAYOUT, bad=False)).hex(), draw(st.sampled_from([0, 0, 1, 9]))])
        elif k == 17:
            b = draw(st.integers(0, len(LAYOUT) - 1))
            n = draw(st.integers(1, 3))
            off = draw(st.integers(0, LAYOUT[b][2] - n))
            steps.append(["set", draw(st.sampled_from(SIDS)), b, off, draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))])
        elif k == 18:
            steps.append(["close"])
        else:
            steps.append(["restart"] if how == "rtu" else ["close"])
    return {"how": how, "steps": steps}


@st.composite
def _errors(draw):
    """hooks which fail (and nothing else does): the error hooks must be called for it"""
    what = draw(st.sampled_from(["db", "db", "db", "tcp", "rtu", "server"]))
    case = {"how": "errors", "what": what, "hooks": draw(st.lists(st.sampled_from(["none", "none", "const", "false"]), min_size=1, max_size=4))}
    if what == "db":
        n = draw(st.integers(1, 4))
        fc = draw(st.sampled_from([3, 5, 6, 15, 16, 22, 23]))
        site = draw(st.sampled_from(["modbus.Slave.handle_request", FN_SITES[fc]] + (["modbus.ModbusBlock.setitem"] if fc != 3 else [])))
        steps = draw(st.lists(st.tuples(st.sampled_from(["tcp", "rtu"]), st.integers(1 if fc == 3 else 0, n), st.integers(0, 9)).map(list),
                              min_size=1, max_size=4))
        case.update(n=n, fc=fc, site=site, steps=steps, fail=draw(st.lists(st.integers(1, n), min_size=1, max_size=n, unique=True)))
    elif what == "tcp":
        case.update(site="modbus_tcp.TcpServer." + draw(st.sampled_from(["on_connect", "on_disconnect", "after_recv"])), times=draw(st.integers(1, 3)))
    elif what == "rtu":
        case.update(site="modbus_rtu.RtuServer." + draw(st.sampled_from(["after_read", "before_write", "after_write"])), times=draw(st.integers(1, 3)))
    else:
        case.update(site=draw(st.sampled_from(["init", "run"])), times=draw(st.integers(1, 3)))
    return case


def strategy(tier):
    return st.integers(0, 6).flatmap(lambda k: _errors() if k == 0 else _case())


# -- mutators (total functions on frames, None-free) --------------------------------------------
def split(how, frame):
    frame = bytes(frame)
    if how == "tcp":
        return frame[:6], frame[6:7], frame[7:]
    return b"", frame[:1], frame[1:-2]


def join(how, head, unit, pdu):
    if how == "tcp":
        return head[:4] + struct.pack(">H", len(pdu) + 1) + unit + pdu
    return model.rtu_frame(unit[0], pdu)


def mutate(how, beh, frame):
    frame = bytes(frame) if isinstance(frame, (bytes, bytearray)) else b""
    if beh[0] == "empty":
        return b""
    if beh[0] == "unit" and how == "tcp" and len(frame) == 7:       # the header alone
        return frame[:6] + bytes([beh[1]])
    if len(frame) < (8 if how == "tcp" else 4):
        return frame
    head, unit, pdu = split(how, frame)
    if beh[0] == "unit":
        unit = bytes([beh[1]])
    elif beh[0] == "addr" and len(pdu) >= 5:
        pdu = pdu[:1] + struct.pack(">H", (struct.unpack(">H", pdu[1:3])[0] + beh[1]) & 0xffff) + pdu[3:]
    elif beh[0] == "xor":
        pdu = pdu[:-1] + bytes([pdu[-1] ^ beh[1]])
    return join(how, head, unit, pdu)


def pattern(pdu):
    """a conforming response to a well formed request, recognisable"""
    fc = pdu[0]
    if fc in (1, 2):
        n = (struct.unpack(">H", pdu[3:5])[0] + 7) // 8 & 0xff
        return bytes([fc, n]) + b"\x55" * n
    if fc in (3, 4, 23):
        n = 2 * struct.unpack(">H", pdu[3:5])[0] & 0xff
        return bytes([fc, n]) + b"\xa5" * n
    if fc in (15, 16):
        return pdu[:5]
    if fc == 7:
        return b"\x07\x2a"
    return bytes(pdu)


class Registry(object):
    """the reference: which hooks are called, with what, and which value flows on"""

    def __init__(self, how):
        self.how, self.hooks = how, {}
        self.replaced = self.rerun = 0

    def event(self, site, value, out, *args):
        """append the expected calls to out; returns the value returned by the hooks (None if none)"""
        for hid, beh in self.hooks.get(site, []):
            out.append((site, hid, value if value is None else bytes(value)) + args)
            if self.replaced and value is not None:
                self.rerun = 1
            if beh[0] != "none":
                if beh[0] in ("empty", "unit", "addr", "xor", "pattern", "exc"):
                    self.replaced = 1
                return beh
        return None

    def flow(self, site, value, out, *args):
        beh = self.event(site, value, out, *args)
        return value if beh is None else mutate(self.how, beh, value)


class Ambiguous(Exception):
    """several exception codes are right: the case ends here"""


def queued(sock):
    """bytes given to a TCP socket so far; None when the platform does not tell"""
    try:
        info = sock.getsockopt(socket.IPPROTO_TCP, socket.TCP_INFO, 256)
        return struct.unpack("=Q", info[200:208])[0] + struct.unpack("=I", info[144:148])[0]
    except (OSError, AttributeError, struct.error):
        return None


def connected(sock):
    try:
        sock.getpeername()
        return True
    except OSError:
        return False
    except AttributeError:
        return None


class World(object):
    """the real system with recording hooks"""

    def __init__(self, case, ctx):
        from pbt import fakeserial, net, real
        from modbus_tk import modbus_rtu, modbus_rtu_over_tcp, modbus_tcp
        self.real, self.net, self.how = real, net, case["how"]
        self.events, self.lock = [], threading.Lock()
        self.fcts = {}
        self.caller = None
        self.models, self.slaves = {}, {}
        self.raw = None
        if self.how == "rtu":
            self.line = fakeserial.Line()
            self.line.master.is_open = self.line.server.is_open = False
            self.srv = modbus_rtu.RtuServer(self.line.server)
            self.master = modbus_rtu.RtuMaster(self.line.master)
            self.srv.start()
            engine.ensure(self.line.server.wait_idle(), "the RTU server never waits for a request")
        elif self.how == "tcp":
            addr = net.address()
            port = net.free_port(addr)
            self.srv = modbus_tcp.TcpServer(port, addr)
            self.srv._do_init()         # the loop of the server is run step by step by this thread
            self.master = modbus_tcp.TcpMaster(addr, port, net.WAIT)
            self.addr = addr, port
        else:
            self.srv = modbus_tcp.TcpServer(1, "127.0.0.1")     # never started: holds the slaves and judges nothing
            self.peer = net.Peer("rtu")
            self.master = modbus_rtu_over_tcp.RtuOverTcpMaster(self.peer.addr, self.peer.port, net.WAIT)
        self.db = self.srv.get_db()
        for sid in SIDS:
            self.slaves[sid] = self.srv.add_slave(sid)
            self.models[sid] = model.ModelSlave(True)
            real.build_slave(self.slaves[sid], LAYOUT)
            real.build_model(self.models[sid], LAYOUT)
        self.opened = False
        self.srv_sent = 0           # bytes the TCP server has sent on the connection of the master

    def progress(self, site, args):
        """what has happened on the line when a hook is called: bytes sent by the side of the hook, or open or not"""
        what = site.split(".")[-1]
        if site.startswith(("modbus.Master.", "modbus_tcp.TcpMaster.", "modbus_rtu.RtuMaster.")):
            if what in ("before_send", "after_send"):
                return len(self.line.to_server) if self.how == "rtu" else queued(getattr(self.master, "_sock", None))
            if what in ("before_open", "after_close", "before_connect", "after_connect", "before_close"):
                return self.line.master.is_open if self.how == "rtu" else connected(getattr(self.master, "_sock", None))
        elif what in ("before_send", "after_send"):
            return queued(args[1])
        elif what in ("before_write", "after_write"):
            return len(self.line.to_master)
        elif what in ("before_open", "after_open", "before_close", "after_close"):
            return self.line.server.is_open
        return None

    def base(self):
        """progress before a step"""
        self.base_master = len(self.line.to_server) if self.how == "rtu" else \
            queued(getattr(self.master, "_sock", None)) if self.opened else 0
        self.base_server = len(self.line.to_master) if self.how == "rtu" else self.srv_sent if self.opened else 0

    def check_progress(self, got, sent, where):
        """before_ hooks are called before and after_ hooks after what they are named for; sent: an answer was sent"""
        for g in got:
            site, prog = g[0], g[5]
            what = site.split(".")[-1]
            if prog is None:
                continue
            if what in ("before_send", "after_send", "before_write", "after_write"):
                master = "Master." in site
                base = self.base_master if master else self.base_server
                if base is None or not master and not sent:
                    continue
                if what.startswith("before"):
                    ok = prog == base
                else:
                    ok = prog > base
            else:
                ok = prog == (what in ("after_open", "after_connect", "before_close"))
            engine.ensure(ok, "%s: %s was called %s", where, site,
                          "too late" if what.startswith("before") else "too early")

    def make(self, site, hid, beh):
        """the hook function"""
        if (site, hid) in self.fcts:
            return self.fcts[site, hid]
        how, mexc = self.how, self.real.mexc

        def hook(args):
            vals = tuple(bytes(a) if isinstance(a, bytearray) else a for a in args)
            extra = None
            if site == "modbus.ModbusBlock.setitem":
                extra = args[0][:]
            prog = self.progress(site, args)
            with self.lock:
                self.events.append((site, hid, threading.get_ident(), vals, extra, prog))
            if beh[0] == "none":
                return None
            if beh[0] == "const":
                return beh[1]
            if beh[0] == "raise":
                raise mexc.ModbusError(beh[1])
            if beh[0] == "pattern":
                return pattern(bytes(args[1]))
            if beh[0] == "exc":
                return bytes([args[1][0] | 0x80, beh[1]])
            if beh[0] == "value":
                return bytes.fromhex(beh[1])
            return mutate(how, beh, args[-1])
        self.fcts[site, hid] = hook
        return hook

    def run(self, fct, want_server=True):
        """run a master operation, the TCP server loop being driven meanwhile; returns (result, error)"""
        box = {}

        def body():
            self.caller = threading.get_ident()
            try:
                box["res"] = fct()
            except Exception as e:      # noqa
                box["err"] = e
        if self.how != "tcp":
            body()
            if self.how == "rtu":
                engine.ensure(self.line.server.wait_idle(), "the RTU server does not come back to waiting")
        else:
            t = threading.Thread(target=body, daemon=True)
            t.start()
            n = 0
            while True:
                t.join(0.002)
                if not t.is_alive():
                    break
                self.srv._do_run()
                n += 1
                engine.ensure(n < 60, "the master does not get an answer from the TCP server loop")
        return box.get("res"), box.get("err")

    def close(self):
        self.real.clear_hooks()
        if self.raw:
            self.raw.close()
        self.master.close()
        if self.how == "rtu":
            self.srv.stop()
        elif self.how == "tcp":
            self.srv._do_exit()
        else:
            self.peer.close()


def slave_part(w, reg, ms, slave, pdu, out, broadcast, info):
    """expected events and response PDU of one slave; None = the function hook returned a value (finding)"""
    beh = reg.event("modbus.Slave.handle_request", pdu, out, slave)
    fc = pdu[0]
    code = None
    if beh is not None and beh[0] != "raise":
        return pattern(pdu) if beh[0] == "pattern" else bytes([fc | 0x80, beh[1]])
    if beh is not None:
        code = beh[1]
    elif broadcast and fc in (1, 2, 3, 4):
        return b""
    else:
        if fc in FN_SITES:
            b2 = reg.event(FN_SITES[fc], pdu, out, slave)
            if b2 is not None and b2[0] == "raise":
                code = b2[1]
            elif b2 is not None:
                info["value"] = bytes.fromhex(b2[1])
        if code is None:
            o = ms.judge(pdu)
            engine.ensure(o.kind in ("reply", "exc"), "generated a malformed request %s" % pdu.hex())
            if o.kind == "reply":
                if o.writes:
                    info.setdefault("writes", []).append((slave, bool(o.writes)))
                ms.apply(o)
                if broadcast:
                    reg.event("modbus.Slave.on_handle_broadcast", None, out, slave)
                return o.reply
            if len(o.codes) > 1:
                raise Ambiguous()
            code = min(o.codes)
    reg.event("modbus.Slave.on_exception", None, out, slave, fc)
    return bytes([fc | 0x80, code])


def server_part(w, reg, frame, out, info):
    """expected events from the complete request frame as received; returns the reply frame (b"" = none)"""
    frame = reg.flow("modbus.Server.before_handle_request", frame, out, w.srv)
    resp = b""
    if frame:
        head, unit, pdu = split(w.how, frame)
        if unit[0] == 0:
            for sid in SIDS:
                sub = {}
                slave_part(w, reg, w.models[sid], w.slaves[sid], pdu, out, True, sub)
                info.setdefault("writes", []).extend(sub.get("writes", []))
            resp = None
        elif unit[0] in SIDS:
            r = slave_part(w, reg, w.models[unit[0]], w.slaves[unit[0]], pdu, out, False, info)
            resp = join(w.how, head, unit, r)
    resp = resp or b""
    resp = reg.flow("modbus.Server.after_handle_request", resp, out, w.srv)
    return resp


def check_events(w, got, want, where):
    """the recorded events against the predicted ones, setitem apart"""
    got = [g for g in got if g[0] != "modbus.ModbusBlock.setitem"]
    show = lambda: "expected %s, got %s" % ([(x[0], x[1], x[2] and x[2].hex()) for x in want],    # noqa
                                           [(g[0], g[1], [a.hex() if isinstance(a, bytes) else str(a)[:60] for a in g[3]]) for g in got])
    engine.ensure([(g[0], g[1]) for g in got] == [(x[0], x[1]) for x in want], "%s: hooks called: %s", where, show())
    for g, x in zip(got, want):
        args = g[3]
        site, value, objs = x[0], x[2], x[3:]
        engine.ensure(args[0] is objs[0], "%s: %s called with %r first instead of %r", where, site, args[0], objs[0])
        if value is not None:
            engine.ensure((args[-1] or b"") == value, "%s: %s called with %r, expected %s; %s", where, site, args[-1],
                          value.hex(), show())
        if site == "modbus.Slave.on_exception":
            engine.ensure(args[1] == objs[1] and isinstance(args[2], w.real.mexc.ModbusError),
                          "%s: on_exception called with %r", where, args)
        if site.startswith("modbus_tcp.TcpServer."):
            engine.ensure(hasattr(args[1], "fileno"), "%s: %s called with %r", where, site, args)


def check_setitem(w, reg, got, wrote, where):
    got = [g for g in got if g[0] == "modbus.ModbusBlock.setitem"]
    hooks = reg.hooks.get("modbus.ModbusBlock.setitem", [])
    if not hooks:
        engine.ensure(not got, "%s: uninstalled setitem hook called", where)
        return
    group = []
    for hid, beh in hooks:
        group.append(hid)
        if beh[0] != "none":
            break
    engine.ensure(bool(got) == bool(wrote), "%s: %d setitem events for %d writes", where, len(got), len(wrote))
    engine.ensure(len(got) % len(group) == 0, "%s: setitem hooks %r, expected groups of %r", where, [g[1] for g in got], group)
    last = {}
    for i in range(0, len(got), len(group)):
        part = got[i:i + len(group)]
        engine.ensure([g[1] for g in part] == group, "%s: setitem hooks %r, expected groups of %r", where,
                      [g[1] for g in got], group)
        engine.ensure(all(g[3] == part[0][3] for g in part), "%s: setitem hooks of one event got different arguments", where)
        block, item, value = part[0][3]
        before = list(part[0][4])
        if id(block) in last:
            engine.ensure(last[id(block)][1] == before, "%s: a value was written without a setitem event", where)
        before[item] = value
        last[id(block)] = (block, before)
    for block, data in last.values():
        engine.ensure(list(block[:]) == data, "%s: the setitem events do not describe the write", where)


def run_case(case, ctx):
    from pbt import real
    real.clear_hooks()
    if case["how"] == "errors":
        try:
            return ERRORS[case["what"]](case, ctx, real)
        finally:
            real.clear_hooks()
    w = World(case, ctx)
    try:
        _run(case, ctx, w, real)
    except Ambiguous:
        ctx.label("ends at a request with several right exception codes")
    finally:
        w.close()


def _run(case, ctx, w, real):
    how = w.how
    reg = Registry(how)
    for n, step in enumerate(case["steps"]):
        where = "%s step %d %s" % (how, n, step)
        del w.events[:]
        mine, theirs, info = [], [], {}
        if step[0] == "install":
            _, site, hid, beh = step
            real.hooks.install_hook(site, w.make(site, hid, beh))
            reg.hooks.setdefault(site, []).append((hid, beh))
            continue
        if step[0] == "uninstall":
            _, site, hid = step
            if hid is None:
                real.hooks.uninstall_hook(site)
                reg.hooks[site] = []
            else:
                real.hooks.uninstall_hook(site, w.fcts[site, hid])
                for i, (h, _) in enumerate(reg.hooks[site]):
                    if h == hid:
                        del reg.hooks[site][i]
                        break
            continue
        reg.replaced = reg.rerun = 0
        w.base()
        if step[0] == "call":
            do_call(w, reg, step[1], mine, theirs, info, where, ctx, real)
        elif step[0] == "pdu":
            do_pdu(w, reg, bytes.fromhex(step[1]), step[2], theirs, info, where, n)
            w.caller = None
        elif step[0] == "set":
            _, sid, b, off, vals = step
            w.caller = None
            w.slaves[sid].set_values("b%d" % b, LAYOUT[b][1] + off, vals)
            w.models[sid].names["b%d" % b].values[off:off + len(vals)] = vals
            info["writes"] = [(w.slaves[sid], True)]
        elif step[0] == "close":
            _, err = w.run(w.master.close)
            engine.ensure(err is None, "%s: close raised %r", where, err)
            if how == "rtu":
                if w.opened:
                    reg.event("modbus_rtu.RtuMaster.after_close", None, mine, w.master)
            elif w.opened:
                for s in ("before_close", "after_close"):
                    reg.event("modbus_tcp.TcpMaster." + s, None, mine, w.master)
                if how == "tcp":
                    w.srv._do_run()
                    reg.event("modbus_tcp.TcpServer.on_disconnect", None, theirs, w.srv)
            w.opened = False
        elif step[0] == "restart":
            w.caller = None
            w.srv.stop()
            for s in ("before_close", "after_close"):
                reg.event("modbus_rtu.RtuServer." + s, None, theirs, w.srv)
            w.srv.start()
            engine.ensure(w.line.server.wait_idle(), "%s: the server does not run after a restart", where)
            for s in ("before_open", "after_open"):
                reg.event("modbus_rtu.RtuServer." + s, None, theirs, w.srv)
        got = list(w.events)
        check_events(w, [g for g in got if g[2] == w.caller], mine, where + " (master side)")
        check_events(w, [g for g in got if g[2] != w.caller], theirs, where + " (server side)")
        w.check_progress(got, info.get("sent"), where)
        check_setitem(w, reg, got, info.get("writes", []), where)
        for sid in SIDS:
            d = real.diff(real.snapshot(w.slaves[sid], LAYOUT), w.models[sid].snapshot())
            engine.ensure(d is None, "after %s slave %d: %s", where, sid, d)
        ctx.label("%s %s" % (how, step[0]))
        if reg.rerun:
            ctx.nontrivial()


def do_call(w, reg, c, mine, theirs, info, where, ctx, real):
    how = w.how
    req_pdu = calls.encode(c)
    # the frame the master builds (the transaction id is its own choice)
    if not w.opened:
        if how == "rtu":
            reg.event("modbus_rtu.RtuMaster.before_open", None, mine, w.master)
        else:
            for s in ("before_connect", "after_connect"):
                reg.event("modbus_tcp.TcpMaster." + s, None, mine, w.master)
            if how == "tcp":
                reg.event("modbus_tcp.TcpServer.on_connect", None, theirs, w.srv)
    box = {}

    def script(request):
        box["wire"] = bytes(request)
        box["resp"] = server_answer(request)
        return [["send", box["resp"]]]

    def server_answer(frame):
        # RTU over TCP: the scripted peer answers what the model says
        unit, pdu = frame[0], bytes(frame[1:-2])
        if unit not in w.models:
            return model.rtu_frame(unit, bytes([pdu[0] | 0x80, 11]))
        o = w.models[unit].judge(pdu)
        if o.kind == "reply":
            w.models[unit].apply(o)
            sync(w, unit, real)
            return model.rtu_frame(unit, o.reply)
        return model.rtu_frame(unit, bytes([pdu[0] | 0x80, min(o.codes)]))

    # the transaction id: seen on the wire of the first hook or of the server; taken from the class before the call
    tid0 = None
    if how == "tcp":
        from modbus_tk import modbus_tcp
        q = modbus_tcp.TcpQuery()
        f = q.build_request(b"\x07", 1)
        tid0 = struct.unpack(">H", bytes(f[:2]))[0]
        # consecutive ids do not repeat, but how they follow is the library's choice: learnt from the next frame
    seen = {}
    orig = w.master._send

    def spy(frame):
        seen["frame"] = bytes(frame)
        return orig(frame)
    w.master._send = spy
    if how == "rtu-over-tcp":
        w.peer.push(script)
    try:
        res, err = w.run(lambda: w.master.execute(**calls.kwargs(c)))
    finally:
        del w.master._send
    w.opened = True
    engine.ensure("frame" in seen, "%s: nothing was sent (%r)", where, err)
    if how == "tcp":
        # the id chosen by the master, from the frame (hooks never change it)
        frame = seen["frame"][:2] + b"\0\0" + struct.pack(">H", len(req_pdu) + 1) + bytes([c["slave"]]) + req_pdu
        engine.ensure(frame[:2] != struct.pack(">H", tid0), "%s: transaction id repeated", where)
    else:
        frame = model.rtu_frame(c["slave"], req_pdu)
    f0 = frame
    frame = reg.flow("modbus.Master.before_send", frame, mine, w.master)
    engine.ensure(seen["frame"] == frame, "%s: frame %s given to the line, expected %s", where, seen["frame"].hex(), frame.hex())
    layer = "modbus_rtu.RtuMaster" if how == "rtu" else "modbus_tcp.TcpMaster"
    frame = reg.flow(layer + ".before_send", frame, mine, w.master)
    reg.event("modbus.Master.after_send", None, mine, w.master)
    if how == "tcp":
        h = reg.event("modbus_tcp.TcpServer.after_recv", frame[:7], theirs, w.srv)
        if h is not None:
            frame = mutate(how, h, frame[:7]) + frame[7:]
        resp = server_part(w, reg, frame, theirs, info)
        resp = reg.flow("modbus_tcp.TcpServer.before_send", resp, theirs, w.srv)
        reg.event("modbus_tcp.TcpServer.after_send", resp, theirs, w.srv)
        w.srv_sent = w.base_server + len(resp)
        info["sent"] = bool(resp)
    elif how == "rtu":
        frame = reg.flow("modbus_rtu.RtuServer.after_read", frame, theirs, w.srv)
        resp = server_part(w, reg, frame, theirs, info)
        resp = reg.flow("modbus_rtu.RtuServer.before_write", resp, theirs, w.srv)
        reg.event("modbus_rtu.RtuServer.after_write", resp, theirs, w.srv)
        info["sent"] = bool(resp)
    else:
        engine.ensure(box.get("wire") == frame, "%s: %r on the wire, expected %s", where, box.get("wire"), frame.hex())
        resp = box["resp"]
    if how == "rtu-over-tcp":
        resp = reg.flow("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", resp, mine, w.master)
    else:
        resp = reg.flow(layer + ".after_recv", resp, mine, w.master)
    resp = reg.flow("modbus.Master.after_recv", resp, mine, w.master)
    # what the master makes of the final response
    head, unit, pdu = split(how, resp)
    ok = len(pdu) >= 2 and unit == f0[6:7] if how == "tcp" else len(pdu) >= 2 and unit == f0[:1]
    if ok and pdu[0] > 0x80:
        good = isinstance(err, real.mexc.ModbusError) and err.get_exception_code() == pdu[1]
    elif ok and calls.conforming(c, pdu):
        good = err is None and calls.same(res, calls.result(c, pdu))
    else:
        good = err is not None
    engine.ensure(good, "%s: result %r, error %r after the response %s", where, res, err, resp.hex())
    if "value" in info:
        ctx.finding("function-hook-return-ignored",
                    "%s: the value returned by the hook of the function is not used" % where)


def sync(w, unit, real):
    """RTU over TCP: keep the (unused) real slave equal to its model, without setitem events"""
    for name, vals in w.models[unit].snapshot().items():
        if list(w.slaves[unit].get_values(name, w.models[unit].names[name].start, len(vals))) != vals:
            n = len(w.events)
            w.slaves[unit].set_values(name, w.models[unit].names[name].start, vals)
            del w.events[n:]


def do_pdu(w, reg, pdu, unit, theirs, info, where, n):
    """a request frame from a raw client (broadcasts, unknown functions); the master is not involved"""
    how = w.how
    frame = join(how, struct.pack(">HHH", n, 0, 0), bytes([unit]), pdu)
    f0 = frame
    if how == "rtu":
        nw = len(w.line.to_master)
        w.line.server.feed([frame])
        engine.ensure(w.line.server.wait_idle(), "%s: the server does not come back to waiting", where)
        got = b"".join(w.line.to_master[nw:])
        with w.line.master.cond:
            w.line.master.rx.clear()
        frame = reg.flow("modbus_rtu.RtuServer.after_read", frame, theirs, w.srv)
        resp = server_part(w, reg, frame, theirs, info)
        resp = reg.flow("modbus_rtu.RtuServer.before_write", resp, theirs, w.srv)
        reg.event("modbus_rtu.RtuServer.after_write", resp, theirs, w.srv)
        info["sent"] = bool(resp)
        engine.ensure(got == resp, "%s: %s on the line, expected %s", where, got.hex(), resp.hex())
        return
    raw = w.net.Raw(*w.addr)
    w.base_server = 0
    w.srv._do_run()
    reg.event("modbus_tcp.TcpServer.on_connect", None, theirs, w.srv)
    raw.send(frame)
    w.srv._do_run()
    h = reg.event("modbus_tcp.TcpServer.after_recv", frame[:7], theirs, w.srv)
    if h is not None:
        frame = mutate(how, h, frame[:7]) + frame[7:]
    resp = server_part(w, reg, frame, theirs, info)
    if resp:
        resp = reg.flow("modbus_tcp.TcpServer.before_send", resp, theirs, w.srv)
        info["sent"] = True
        got = raw.recv_exact(len(resp))
        reg.event("modbus_tcp.TcpServer.after_send", resp, theirs, w.srv)
        engine.ensure(got == resp, "%s: answer %s, expected %s", where, got.hex(), resp.hex())
    raw.close()
    w.srv._do_run()
    reg.event("modbus_tcp.TcpServer.on_disconnect", None, theirs, w.srv)


# -- error hooks --------------------------------------------------------------------------------
class Failing(object):
    """hooks at the error site which record, and a hook at the failing site"""

    def __init__(self, case, real, site):
        self.case, self.calls, self.raised, self.on = case, [], [], True
        for n, how in enumerate(case["hooks"]):
            real.hooks.install_hook(site, self.recorder(n, how))
        self.chain = []
        for n, how in enumerate(case["hooks"]):
            self.chain.append(n)
            if how != "none":
                break

    def recorder(self, n, how):
        def hook(args):
            self.calls.append((n, tuple(args)))
            return {"none": None, "const": b"x", "false": b""}[how]
        return hook

    def hook(self, args):
        if self.on:
            e = ValueError("failure %d" % len(self.raised))
            self.raised.append(e)
            raise e

    def check(self, where, args, count=None):
        """the chain of the hooks was called once for each exception raised, args(exception) -> predicate on the arguments"""
        engine.ensure(self.raised and (count is None or len(self.raised) == count), "%s: the hook was called %d times", where, len(self.raised))
        got = [c[0] for c in self.calls]
        engine.ensure(got == self.chain * len(self.raised), "%s: %d failures, error hooks called: %s, expected %s for each failure", where,
                      len(self.raised), got, self.chain)
        for i, (_, a) in enumerate(self.calls):
            exc = self.raised[i // len(self.chain)]
            engine.ensure(args(exc, a), "%s: error hook called with %r (the error is %r)", where, a, exc)
        del self.calls[:], self.raised[:]


def db_errors(case, ctx, real):
    from modbus_tk import modbus_rtu, modbus_tcp
    db = real.modbus.Databank()
    slaves, memory = [], []
    for i in range(1, case["n"] + 1):
        memory.append({t: [] for t in (1, 2, 3, 4)})
        slaves.append(db.add_slave(i, memory=memory[-1]))
        real.build_slave(slaves[-1], [[1, 0, 16], [3, 0, 16]])
    bad = [slaves[i - 1] for i in case["fail"]]
    f = Failing(case, real, "modbus.Databank.on_error")

    def hook(args):
        s = args[0]
        if any(s is b or any(s is x for x in blocks(b)) for b in bad):
            f.hook(args)

    def blocks(s):
        return [b for t in memory[slaves.index(s)].values() for b in t]
    real.hooks.install_hook(case["site"], hook)
    fc = case["fc"]
    for n, (how, unit, a) in enumerate(case["steps"]):
        addr = bytes([0, a])
        pdu = bytes([fc]) + addr + {3: b"\0\1", 5: b"\xff\0", 6: b"\0\7", 15: b"\0\1\1\1", 16: b"\0\1\2\0\5", 22: b"\0\0\0\1",
                                   23: b"\0\1" + addr + b"\0\1\2\0\6"}[fc]
        frame = model.tcp_frame(n, unit, pdu) if how == "tcp" else model.rtu_frame(unit, pdu)
        try:
            db.handle_request(modbus_tcp.TcpQuery() if how == "tcp" else modbus_rtu.RtuQuery(), frame)
        except Exception as e:
            raise engine.Violation("handle_request raised %r after a hook failed" % e) from e
        count = len(bad) if unit == 0 else unit in case["fail"]
        where = "step %d %s: %s at %s" % (n, how, "broadcast" if unit == 0 else "request to %d" % unit, case["site"])
        if count:
            f.check(where, lambda exc, a: len(a) == 3 and a[0] is db and a[1] is exc and bytes(a[2]) == pdu, count)
            ctx.label("databank error, broadcast" if unit == 0 else "databank error")
        engine.ensure(not f.calls, "%s: on_error was called without an error", where)
    ctx.nontrivial()


def tcp_errors(case, ctx, real):
    from pbt import net
    from modbus_tk import modbus_tcp
    addr = net.address()
    port = net.free_port(addr)
    srv = modbus_tcp.TcpServer(port, addr)
    srv.add_slave(1)
    srv.start()
    try:
        net.wait_connect(addr, port)

        def probe():
            c = net.Raw(addr, port)
            c.send(model.tcp_frame(9, 1, b"\x07"))
            engine.ensure(c.recv_frame() == (9, 0, 1, b"\x07\0"), "wrong answer")
            return c
        probe().close()
        probe().close()
        f = Failing(case, real, "modbus_tcp.TcpServer.on_error")
        what = case["site"].split(".")[-1]
        for n in range(case["times"]):
            c = probe() if what == "on_disconnect" else None
            real.hooks.install_hook(case["site"], f.hook)
            if c is None:
                c = net.Raw(addr, port)
                c.send(model.tcp_frame(9, 1, b"\x07"))
                c.s.settimeout(net.WAIT)
                try:
                    c.s.recv(100)       # an answer or the end of the connection
                except ConnectionError:
                    pass
                real.hooks.uninstall_hook(case["site"], f.hook)
                c.close()
            else:
                # nobody else is connected
                c.close()
                import time
                end = time.time() + net.WAIT
                while not f.calls and time.time() < end:
                    time.sleep(0.002)
                real.hooks.uninstall_hook(case["site"], f.hook)
            p = probe()
            f.check("%s, time %d" % (case["site"], n), lambda exc, a: len(a) == 3 and a[0] is srv and hasattr(a[1], "fileno") and a[2] is exc)
            p.close()
            probe().close()
        ctx.label("TCP server error at " + what)
        ctx.nontrivial()
    finally:
        srv.stop()


def rtu_errors(case, ctx, real):
    from pbt import fakeserial
    from modbus_tk import modbus_rtu
    line = fakeserial.Line(None, False)
    srv = modbus_rtu.RtuServer(line.server)
    srv.add_slave(1)
    f = Failing(case, real, "modbus_rtu.RtuServer.on_error")
    real.hooks.install_hook(case["site"], f.hook)
    srv.start()
    try:
        for n in range(case["times"]):
            engine.ensure(line.server.wait_idle(), "the RTU server does not wait for a request")
            line.server.feed([model.rtu_frame(1, b"\x07")])
            engine.ensure(line.server.wait_idle(), "the RTU server does not come back after a hook failed")
            f.check("%s, time %d" % (case["site"], n), lambda exc, a: len(a) == 2 and a[0] is srv and a[1] is exc, 1)
        ctx.label("RTU server error")
        ctx.nontrivial()
    finally:
        f.on = False
        srv.stop()


def server_errors(case, ctx, real):
    import time
    from pbt import net
    f = Failing(case, real, "modbus.Server.on_exception")

    class Srv(real.modbus.Server):
        def _do_init(self):
            if case["site"] == "init":
                f.hook(())

        def _do_run(self):
            f.hook(())
    for n in range(case["times"]):
        srv = Srv()
        srv.start()
        end = time.time() + net.WAIT
        while len(f.calls) < len(f.chain) and time.time() < end:
            time.sleep(0.001)
        srv.stop()
        f.check("a server failed (%s), time %d" % (case["site"], n), lambda exc, a: len(a) == 2 and a[0] is srv and a[1] is exc, 1)
    ctx.label("server error")
    ctx.nontrivial()


ERRORS = {"db": db_errors, "tcp": tcp_errors, "rtu": rtu_errors, "server": server_errors}
