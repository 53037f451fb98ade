"""P23 the simulator: histories of command lines over the console and RPC against the reference slave"""
from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P23"
RULE = ("a case is 3-30 steps: command lines on the console or over RPC (correct, with a token missing, added or replaced, "
        "unknown, random text or bytes), calls of SimulatorRpcClient, several clients at once, Modbus requests, accesses of the "
        "application, rude RPC clients, quit and restart; non-trivial = a command changed memory which a Modbus request then "
        "read, a command was refused and both interfaces were used")
EXAMPLES = {"quick": 700, "thorough": 8000}
CASE_TIMEOUT = 150
ASSUMPTIONS = ["the command line is sent in one piece of at most 1024 bytes (longer ones: known finding)",
               "text typed on the console is valid in the encoding of the console, one line at a time",
               "commands end within the time the interfaces wait for them (slower ones: known finding)"]
SLOW = 2.6
FIXED = [{"slow": SLOW, "steps": []},
         {"steps": [["client", "add_slave", [1]], ["client", "add_block", [1, "a", 3, 0, 400]],
                    ["client", "set_values", [1, "a", 0, [12345] * 300]], ["client", "get_values", [1, "a", 0, 400]]]}]

NAMES = ["a", "b", "c", "b1", "\u00e9t\u00e9", "x:y"]
HOOKS = ["modbus.Server.before_handle_request", "modbus.Server.after_handle_request", "modbus.Slave.handle_request", "my.own"]
FCTS = ["f0", "f1", "f2"]
JUNK = ["", "x", "-1", "0", "0x10", "1.5", "99999", "1e3", "None", "quit", "add_slave", "1;2", "\u00e9", "%d", "{0}", "%s%n", "'", "1\t2"]


@st.composite
def _command(draw, live):
    """tokens of a correct looking command; `live` follows the configuration {id: {name: (typ, start, size)}}"""
    ids = sorted(live)
    sid = draw(st.sampled_from(ids)) if ids and draw(st.integers(0, 12)) else draw(st.sampled_from([1, 2, 3, 255, 0, 256, 17]))
    blocks = live.get(sid, {})
    k = draw(st.sampled_from(["add_block"] * 4 + ["set_values"] * 16 + ["get_values"] * 7 + ["has_slave", "has_slave", "remove_slave",
                             "remove_block", "remove_all_blocks", "remove_all_slaves", "set_verbose", "install_hook", "install_hook",
                             "uninstall_hook", "echo", "boom", "nothing"] + ["add_slave"] * (2 if ids else 12)))
    if k == "add_slave":
        if draw(st.integers(0, 3)):
            sid = draw(st.sampled_from([i for i in (1, 2, 3, 255) if i not in live] or [1]))
        if 0 < sid < 256:
            live.setdefault(sid, {})
        return [k, sid]
    if k in ("has_slave", "remove_all_blocks", "remove_slave"):
        if k == "remove_slave":
            live.pop(sid, None)
        elif k == "remove_all_blocks":
            blocks.clear()
        return [k, sid]
    if k == "remove_all_slaves":
        if draw(st.booleans()):
            return ["has_slave", sid]
        live.clear()
        return [k]
    if k == "add_block":
        name = draw(st.sampled_from([n for n in NAMES if n not in blocks] or NAMES)) if draw(st.integers(0, 6)) else draw(st.sampled_from(NAMES))
        typ = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 0, 5])) if draw(st.integers(0, 5)) == 0 else draw(st.sampled_from([1, 2, 3, 4]))
        start = draw(st.sampled_from([0, 0, 10, 20, 30, 100, 65530, -1]))
        size = draw(st.sampled_from([1, 5, 10, 10, 20, 30, 0, 2]))
        if size > 0 <= start and typ in (1, 2, 3, 4) and name not in blocks and not any(
                b[0] == typ and b[1] < start + size and start < b[1] + b[2] for b in blocks.values()):
            if sid in live:
                blocks[name] = (typ, start, size)
        return [k, sid, name, typ, start, size]
    name = draw(st.sampled_from(sorted(blocks) if blocks and draw(st.integers(0, 12)) else NAMES))
    if k == "remove_block":
        blocks.pop(name, None)
        return [k, sid, name]
    if k in ("set_values", "get_values"):
        typ, start, size = blocks.get(name, (3, 0, 10))
        off = draw(st.integers(0, size - 1)) if draw(st.integers(0, 9)) else draw(st.sampled_from([-1, size, size + 1, size - 1]))
        n = draw(st.integers(1, max(1, size - off))) if draw(st.integers(0, 9)) else draw(st.sampled_from([0, size, size + 1]))
        n = max(0, min(n, 12))
        if k == "get_values":
            return [k, sid, name, start + off, n]
        v = st.integers(0, 1) if typ < 3 else st.one_of(
            st.integers(0, 0xffff), st.sampled_from([0, 65535, 32768, 1]),
            st.integers(-32768, -1) if draw(st.integers(0, 5)) == 0 else st.just(7))
        return [k, sid, name, start + off] + draw(st.lists(v, min_size=n, max_size=n))
    if k == "set_verbose":
        return [k, draw(st.sampled_from([0, 1, 1]))]
    if k == "install_hook":
        return [k, draw(st.sampled_from(HOOKS)), draw(st.sampled_from(FCTS + (["nofct"] if draw(st.integers(0, 5)) == 0 else [])))]
    if k == "uninstall_hook":
        return [k, draw(st.sampled_from(HOOKS))] + ([draw(st.sampled_from(FCTS + ["nofct"]))] if draw(st.booleans()) else [])
    return [k] + draw(st.lists(st.sampled_from(JUNK + ["1", "ab"]), max_size=3))


@st.composite
def _line(draw, live):
    """a command line as text"""
    k = draw(st.integers(0, 19))
    if k == 0:
        return draw(st.sampled_from(["", " ", "help", "add_slav 1", "addslave 1", "add_slave1", "ADD_SLAVE 1", "quitter", "quit1 now",
                                     " quit", "done", "remove_all_slave", "__init__", "cmds", "_do_remove_all_slaves 1", "\u00e9"]))
    if k == 1:
        return "".join(c for c in draw(st.text(max_size=20)) if c.isprintable() and not 0xd800 <= ord(c) < 0xe000)
    import copy
    if k >= 6:
        return " ".join(str(t) for t in draw(_command(live)))
    tok = [str(t) for t in draw(_command(copy.deepcopy(live)))]
    i = draw(st.integers(0, len(tok) - 1))
    how = draw(st.integers(0, 3))
    if how == 0:
        del tok[i]
    elif how == 1:
        tok.insert(i, draw(st.sampled_from(JUNK)))
    elif how == 2:
        tok[i] = draw(st.sampled_from(JUNK))
    else:
        tok.append(draw(st.sampled_from(JUNK)))
    return " ".join(tok)


@st.composite
def _case(draw):
    live = {}
    steps = []
    if draw(st.integers(0, 5)):
        for sid in draw(st.lists(st.sampled_from([1, 2, 255]), min_size=1, max_size=2, unique=True)):
            live[sid] = {}
            steps.append(["line", draw(st.sampled_from(["console", "rpc"])), "add_slave %d" % sid, "\n"])
            for name in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)):
                typ, start, size = draw(st.sampled_from([1, 2, 3, 4])), 40 * len(live[sid]), draw(st.sampled_from([5, 10, 20]))
                live[sid][name] = (typ, start, size)
                steps.append(["line", draw(st.sampled_from(["console", "rpc"])), "add_block %d %s %d %d %d" % (sid, name, typ, start, size), ""])
    for _ in range(draw(st.integers(3, 30))):
        k = draw(st.integers(0, 29))
        if not live or k <= 12:
            steps.append(["line", draw(st.sampled_from(["console", "rpc"])), draw(_line(live)), draw(st.sampled_from(["\n", "", "\r\n", " "]))])
        elif k <= 18:
            c = draw(_command(live))
            if c[0] in ("set_verbose", "echo", "boom", "nothing"):
                steps.append(["line", "rpc", " ".join(str(t) for t in c), ""])
            else:
                steps.append(["client", c[0], c[1:4] + [c[4:]] if c[0] == "set_values" else c[1:]])
                if c[0] == "set_values" and len(c) > 4 and draw(st.integers(0, 1)):
                    steps.append(["client", "get_values", c[1:4] + [len(c) - 4]])
        elif k <= 25:
            sid = draw(st.sampled_from(sorted(live)))
            layout = [list(b) for b in live[sid].values()]
            if layout:
                steps.append(["wire", draw(st.integers(0, 1)), sid,
                              draw(gen.request_pdu(layout, fcs=(1, 2, 3, 4, 5, 6, 16, 15), other_fc=False, bad=False)).hex()])
        elif k == 26:
            sid = draw(st.sampled_from(sorted(live)))
            if live[sid]:
                name = draw(st.sampled_from(sorted(live[sid])))
                typ, start, size = live[sid][name]
                v = st.integers(0, 1) if typ < 3 else st.integers(0, 0xffff)
                steps.append(["app", sid, name, start, draw(st.lists(v, min_size=1, max_size=min(size, 6)))])
        elif k == 27:
            steps.append(["rude", draw(st.sampled_from(["silent", "reset", "leave"]))])
        elif k == 28:
            qs = []
            for _ in range(draw(st.integers(2, 6))):
                sid = draw(st.sampled_from(sorted(live)))
                if live[sid] and draw(st.integers(0, 3)):
                    name = draw(st.sampled_from(sorted(live[sid])))
                    b = live[sid][name]
                    qs.append("get_values %d %s %d %d" % (sid, name, b[1], min(b[2], 12)))
                else:
                    qs.append(draw(st.sampled_from(["has_slave %d" % sid, "echo 1 2", "has_slave 77", "unknown x", "get_values 1 nope 0 1"])))
            steps.append(["together", qs, draw(st.booleans())])
        elif draw(st.integers(0, 29)) == 0:
            steps.append(["restart", draw(st.sampled_from(["console", "rpc"]))])
        else:
            steps.append(["bytes", draw(st.binary(max_size=40)).hex()])
    return {"steps": steps}


def strategy(tier):
    return _case()


class Bad(Exception):
    """the command is refused"""


ANY = object()


class Model(object):
    def __init__(self):
        self.slaves = {}
        self.hooks = {}

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def slave(self, tok):
        sid = int(tok)
        if sid not in self.slaves:
            raise Bad("no slave")
        return self.slaves[sid]

    def answer(self, text):
        """(command, answer) - answer ANY: not pinned; raises Bad; text without its end of line"""
        args = text.split(" ")
        fct = getattr(self, "do_" + args[0], None)
        if fct is None:
            raise Bad("unknown")
        try:
            return fct(args)
        except (ValueError, IndexError, KeyError) as e:
            raise Bad("%r" % e)

    def do_add_slave(self, a):
        sid = int(a[1])
        if not 1 <= sid <= 255 or sid in self.slaves:
            raise Bad("slave id")
        self.slaves[sid] = model.ModelSlave()
        return str(sid)

    def do_has_slave(self, a):
        return "1" if int(a[1]) in self.slaves else "0"

    def do_remove_slave(self, a):
        self.slave(a[1])
        del self.slaves[int(a[1])]
        return ANY

    def do_remove_all_slaves(self, a):
        self.slaves.clear()
        return ANY

    def do_add_block(self, a):
        typ, start, size = int(a[3]), int(a[4]), int(a[5])
        s = self.slave(a[1])
        if (a[2] in s.names or typ not in (1, 2, 3, 4) or size <= 0 or start < 0
                or any(b.start < start + size and start < b.start + b.size for b in s.tables[typ])):
            raise Bad("block")
        s.add_block(a[2], typ, start, size)
        return a[2]

    def do_remove_block(self, a):
        s = self.slave(a[1])
        b = s.names.pop(a[2])
        s.tables[b.typ].remove(b)
        return ANY

    def do_remove_all_blocks(self, a):
        s = self.slave(a[1])
        s.names.clear()
        for t in s.tables:
            s.tables[t] = []
        return ANY

    def do_set_values(self, a):
        vals = [int(v) for v in a[4:]]
        addr = int(a[3])
        b = self.slave(a[1]).names[a[2]]
        if not b.covers(addr, len(vals)):
            raise Bad("out of block")
        b.values[addr - b.start: addr - b.start + len(vals)] = vals
        return " ".join(str(v) for v in vals)

    def do_get_values(self, a):
        addr, n = int(a[3]), int(a[4])
        b = self.slave(a[1]).names[a[2]]
        if n < 0:
            return None     # done or error, nothing changes
        if not b.covers(addr, n):
            raise Bad("out of block")
        return " ".join(str(v) for v in b.values[addr - b.start: addr - b.start + n])

    def do_set_verbose(self, a):
        return str(int(a[1]))

    def do_install_hook(self, a):
        if a[2] not in FCTS:
            raise Bad("no such function")
        self.hooks.setdefault(a[1], []).append(a[2])
        return ANY

    def do_uninstall_hook(self, a):
        # refused or without effect when there is nothing to remove
        fct = a[2] if len(a) > 2 else ""
        if fct and fct not in FCTS:
            raise Bad("no such function")
        if a[1] not in self.hooks or (fct and fct not in self.hooks[a[1]]):
            return None
        if fct:
            self.hooks[a[1]].remove(fct)
        else:
            self.hooks[a[1]] = []
        return ANY

    def do_echo(self, a):
        return "|".join(a)

    def do_boom(self, a):
        raise Bad("custom")

    def do_nothing(self, a):
        return ANY


class Out(object):
    """stands for sys.stdout: what the console thread writes is kept, what the other library threads write is dropped"""

    def __init__(self, real):
        import queue
        self.real, self.q, self.console, self.main = real, queue.Queue(), None, None

    def write(self, text):
        import threading
        t = threading.current_thread()
        if t is self.console:
            self.q.put(text)
        elif t is self.main:
            self.real.write(text)
        return len(text)

    def flush(self):
        pass


def setup(ctx):
    import os
    import queue
    import socketserver
    import sys
    import threading
    from pbt import net, real
    ctx.store["ports"] = []
    orig = socketserver.TCPServer.__init__

    def init(self, server_address, *args, **kw):
        if server_address[1] == 2711:
            # the fixed port of the simulator: one of this worker instead
            server_address = (net.address(), 0)
        orig(self, server_address, *args, **kw)
        ctx.store["ports"].append(self)
    socketserver.TCPServer.__init__ = init
    from modbus_tk import modbus_tcp, simulator

    class Patient(queue.Queue):
        """a busy machine is not a slow command"""
        def get(self, block=True, timeout=None):
            return queue.Queue.get(self, block, timeout if timeout is None else timeout + net.WAIT)
    ctx.store["queue"] = getattr(simulator, "OUTPUT_QUEUE", None), Patient()
    r, w = os.pipe()
    sys.stdin = os.fdopen(r, "r", encoding="utf-8")
    ctx.store["stdin"] = os.fdopen(w, "w", encoding="utf-8", newline="")
    ctx.store["out"] = sys.stdout = Out(sys.stdout)
    sys.stdout.main = threading.current_thread()
    addr = net.address()
    ports = [net.free_port(addr)]
    while len(ports) < 2:
        p = net.free_port(addr)
        if p not in ports:
            ports.append(p)
    ctx.store["server"] = simulator.CompositeServer([modbus_tcp.TcpServer] * 2, [(p, addr) for p in ports])
    ctx.store["modbus"] = (addr, ports)
    launch(ctx)


def launch(ctx, patient=True):
    import threading
    from pbt import net
    from modbus_tk import simulator
    if ctx.store["queue"][0] is not None:
        simulator.OUTPUT_QUEUE = ctx.store["queue"][1] if patient else ctx.store["queue"][0]
    sim = simulator.Simulator(server=ctx.store["server"])
    ctx.store["sim"] = sim
    ctx.store["out"].console = sim.console
    calls = ctx.store["calls"] = dict.fromkeys(FCTS, 0)

    def make(name):
        def fct(args):
            calls[name] += 1
        return fct
    for f in FCTS:
        sim.declare_hook(f, make(f))

    def boom(args):
        raise ValueError("boom")
    sim.add_command("echo", lambda args: "|".join(args))
    sim.add_command("boom", boom)
    sim.add_command("nothing", lambda args: None)
    ended = ctx.store["ended"] = threading.Event()

    def main():
        try:
            sim.start()
            ctx.store["error"] = None
        except BaseException as e:      # noqa
            ctx.store["error"] = e
        ended.set()
    ctx.store["error"] = None
    t = threading.Thread(target=main, daemon=True)
    t.start()
    addr, ports = ctx.store["modbus"]
    for p in ports:
        net.wait_connect(addr, p)
    ctx.store["rpc"] = ctx.store["ports"][-1].server_address


def shut(ctx, iface):
    import time
    from pbt import net
    ensure = engine.ensure
    sim = ctx.store["sim"]
    got = say(ctx, iface, "quit", "\n")
    ensure(got.strip("\r\n") == "bye-bye", "quit on the %s answered %r", iface, got)
    ensure(ctx.store["ended"].wait(net.WAIT), "Simulator.start does not return after quit")
    ensure(ctx.store["error"] is None, "Simulator.start raised %r", ctx.store["error"])
    sim.close()
    end = time.time() + net.WAIT
    while time.time() < end and (sim.console.is_alive() or sim.rpc.is_alive()):
        time.sleep(0.01)
    ensure(not sim.console.is_alive() and not sim.rpc.is_alive(), "a thread of the simulator runs after close")
    ctx.store["ports"][-1].server_close()
    addr, ports = ctx.store["modbus"]
    for p in ports:
        ensure(not net.can_connect(addr, p), "the server accepts connections after close")


def say(ctx, iface, text, eol="\n"):
    """send a command line and return the answer"""
    import queue
    from pbt import net
    if iface == "rpc":
        return rpc(ctx, (text + eol).encode("utf-8")).decode("utf-8", "replace")
    ctx.store["stdin"].write(text + ("\r\n" if eol == "\r\n" else "\n"))
    ctx.store["stdin"].flush()
    got = ""
    while not got.endswith("\n"):
        try:
            got += ctx.store["out"].q.get(timeout=net.WAIT + 5)
        except queue.Empty:
            raise engine.Violation("no answer on the console to %r (got %r)" % (text, got))
    return got


def rpc(ctx, data):
    import socket
    from pbt import net
    s = socket.socket()
    s.settimeout(net.WAIT + 5)
    got = b""
    try:
        s.connect(ctx.store["rpc"])
        s.sendall(data)
        if not data:
            s.shutdown(socket.SHUT_WR)
        while True:
            d = s.recv(4096)
            if not d:
                return got
            got += d
    except socket.timeout:
        raise engine.Violation("no answer over RPC to %r (got %r)" % (data, got))
    except OSError as e:
        if len(data) > 1024:
            return b"reset"
        raise engine.Violation("RPC %r failed: %r (got %r)" % (data, e, got))
    finally:
        s.close()


def check_answer(text, got, m, where):
    """apply the command to the model and compare the answer; returns done, error or unknown"""
    cmd = text.split(" ")[0]
    got = got.strip("\r\n")
    known = hasattr(Model, "do_" + cmd)
    before = m.copy()
    try:
        want = m.answer(text)
    except Bad as e:
        m.__dict__ = before.__dict__
        if known:
            pre = cmd + " error:"
            engine.ensure(got.startswith(pre) and got[len(pre):].strip(), "%s answered %r, expected an error (%s) with a reason", where, got, e)
            return "error"
        engine.ensure("unknown" in got and cmd + " done" not in got, "%s answered %r, expected an unknown command", where, got)
        return "unknown"
    if want is None:
        engine.ensure(got.startswith(cmd + " done:") or got.startswith(cmd + " error:"), "%s answered %r", where, got)
        return "either"
    pre = cmd + " done:"
    engine.ensure(got.startswith(pre), "%s answered %r, expected done", where, got)
    if want is not ANY:
        engine.ensure(got[len(pre):].strip(" ") == want.strip(" "), "%s answered %r, expected %r", where, got, want)
    return "done"


def check_state(ctx, m, where):
    from pbt import real
    db = ctx.store["server"].get_db()
    for sid in (1, 2, 3, 17, 255):
        try:
            s = db.get_slave(sid)
        except Exception:       # noqa
            s = None
        engine.ensure((s is not None) == (sid in m.slaves), "after %s: slave %d exists: %s", where, sid, s is not None)
        if s is None:
            continue
        ms = m.slaves[sid]
        for n in NAMES:
            if n in ms.names:
                b = ms.names[n]
                try:
                    got = list(s.get_values(n, b.start, b.size))
                except real.mexc.ModbusError as e:
                    raise engine.Violation("after %s: %r" % (where, e))
                except Exception as e:      # noqa
                    raise engine.Violation("after %s: block %r of slave %d cannot be read: %r" % (where, n, sid, e))
                engine.ensure(got == b.values, "after %s: block %r of slave %d holds %r, expected %r", where, n, sid, got, b.values)
            else:
                try:
                    s.get_values(n, 0, 0)
                except Exception:       # noqa
                    continue
                raise engine.Violation("after %s: slave %d has a block %r" % (where, sid, n))


def slow_case(ctx, case):
    """a custom command which takes longer than the console waits; its answer must not be given to another command"""
    import queue
    import time
    shut(ctx, "rpc")
    launch(ctx, patient=False)
    sim = ctx.store["sim"]

    def slow(args):
        time.sleep(case["slow"])
        return "slow"
    sim.add_command("slow", slow)
    ctx.store["stdin"].write("slow\n")
    ctx.store["stdin"].flush()
    import threading
    hook, threading.excepthook = threading.excepthook, lambda a: None
    time.sleep(case["slow"] + 0.5)
    got = ""
    try:
        while not got.endswith("\n"):
            got += ctx.store["out"].q.get(timeout=0.5)
    except queue.Empty:
        pass
    second = rpc(ctx, b"has_slave 9").decode()
    alive = sim.console.is_alive()
    threading.excepthook = hook
    if not (alive and second.strip() == "has_slave done: 0"):
        ctx.finding("slow-command", "a command which takes %ss on the console: console alive: %s, answer %r, next RPC answer %r" % (
            case["slow"], alive, got, second))
    # start again with clean queues
    sim.inq.put("quit")
    engine.ensure(ctx.store["ended"].wait(25), "Simulator.start does not return after quit")
    sim.close()
    ctx.store["ports"][-1].server_close()
    for q in (sim.inq, sim.outq):
        while not q.empty():
            q.get()
    launch(ctx)


def run_case(case, ctx):
    if ctx.store.get("dirty"):
        raise RuntimeError("the simulator is broken by the case before")
    ctx.store["dirty"] = True
    from pbt import net, real
    try:
        real.clear_hooks()
        ctx.store["server"].get_db().remove_all_slaves()
        if case.get("slow"):
            slow_case(ctx, case)
        else:
            _run(case, ctx, net, real)
        ctx.store["dirty"] = False
    except BaseException:
        # a new simulator for the next case
        relaunch(ctx)
        raise


def relaunch(ctx):
    """after a failure: stop what is left as well as possible and start again"""
    import threading
    sim = ctx.store["sim"]

    def stop():
        try:
            sim.inq.put("quit")
            ctx.store["ended"].wait(3)
            sim.close()
        except BaseException:       # noqa
            pass
    t = threading.Thread(target=stop, daemon=True)
    t.start()
    t.join(10)
    try:
        for srv in ctx.store["ports"]:
            srv.server_close()
        for q in (sim.inq, sim.outq, ctx.store["out"].q):
            while not q.empty():
                q.get_nowait()
        launch(ctx)
        ctx.store["dirty"] = False
    except BaseException:       # noqa
        pass


def _run(case, ctx, net, real):
    from pbt import calls, e2e
    from modbus_tk import modbus_tcp, simulator_rpc_client
    import socket
    import struct
    import threading
    ensure = engine.ensure
    m = Model()
    addr, ports = ctx.store["modbus"]
    client = simulator_rpc_client.SimulatorRpcClient(*ctx.store["rpc"], timeout=net.WAIT + 5)
    masters = [modbus_tcp.TcpMaster(addr, p, net.WAIT) for p in ports]
    count = dict.fromkeys(FCTS, 0)
    ctx.store["calls"].update(count)
    changed, seen, refused, ifaces = set(), 0, 0, set()
    try:
        for n, s in enumerate(case["steps"]):
            k, where = s[0], "step %d %r" % (n, s)
            if len(where) > 400:
                where = where[:400] + "..."
            if k in ("line", "bytes"):
                if k == "bytes":
                    iface, data = "rpc", bytes.fromhex(s[1])
                    if not data or data.strip().decode("utf-8", "replace").split(" ")[0] == "quit":
                        continue
                    text = data.strip().decode("utf-8", "replace")
                else:
                    iface, text, eol = s[1], s[2], s[3]
                    if not text and not eol and iface == "rpc":
                        continue
                    data = (text + eol).encode("utf-8")
                    if iface == "rpc":
                        text = data.strip().decode("utf-8")
                    elif eol == " ":
                        text = text + eol
                    if text.split(" ")[0] == "quit" or "\n" in text or "\r" in text:
                        continue
                if iface == "rpc":
                    got = rpc(ctx, data).decode("utf-8", "replace")
                else:
                    got = say(ctx, "console", text, eol)
                res = check_answer(text, got, m, where)
                ctx.label("%s: %s" % (iface, res))
                cmd = text.split(" ")[0]
                if res == "done":
                    ctx.label("done " + cmd)
                    ifaces.add(iface)
                    if cmd == "set_values":
                        changed.add(int(text.split(" ")[1]))
                else:
                    refused += 1
            elif k == "client":
                meth, args = s[1], s[2]
                line = " ".join([meth] + [str(x) for a in args for x in (a if isinstance(a, list) else [a])])
                if meth == "uninstall_hook" and len(args) == 1:
                    line += " "
                try:
                    res, err = getattr(client, meth)(*args), None
                except Exception as e:      # noqa
                    res, err = None, e
                raw = line.encode("utf-8")
                mm = m.copy()
                if len(raw) > 1024:
                    # known finding: only the first 1024 bytes are used
                    full = m.copy()
                    full_res = judge_client(full, line, args, meth)
                    try:
                        check_client(full_res, res, err, meth, where)
                        check_state(ctx, full, where)
                        m = full
                        continue
                    except engine.Violation:
                        pass
                    line = raw[:1024].strip().decode("utf-8", "replace")
                    judge_client(mm, line, args, meth)
                    check_state(ctx, mm, where)
                    m = mm
                    ctx.finding("long-command", "%s: only the first 1024 bytes of the command were used" % where)
                    continue
                want = judge_client(m, line, args, meth)
                check_client(want, res, err, meth, where)
                ctx.label("client: " + ("error" if want[0] == "error" else "done"))
                ifaces.add("rpc")
                if want[0] == "error":
                    refused += 1
                elif meth == "set_values":
                    changed.add(args[0])
            elif k == "wire":
                sid, pdu = s[2], bytes.fromhex(s[3])
                ms = m.slaves.get(sid)
                if ms is None or any(v not in range(0x10000 if b.typ > 2 else 2) for b in ms.names.values() for v in b.values):
                    continue
                out = ms.judge(pdu)
                e2e.judge(ctx, e2e.pdu_to_call(pdu, sid, False), ms, masters[s[1]].execute, real, where)
                for h in HOOKS[:3]:
                    for f in m.hooks.get(h, []):
                        count[f] += 1
                ensure(ctx.store["calls"] == count, "after %s: the installed functions were called %r times, expected %r (%r)",
                       where, ctx.store["calls"], count, m.hooks)
                ctx.label("wire " + out.kind)
                if out.kind == "reply" and sid in changed and pdu[0] <= 4 and any(out.reply[2:]):
                    seen += 1
            elif k == "app":
                sid, name, start, vals = s[1:]
                ms = m.slaves.get(sid)
                if ms is None or name not in ms.names or not ms.names[name].covers(start, len(vals)):
                    continue
                ctx.store["server"].get_slave(sid).set_values(name, start, vals)
                b = ms.names[name]
                b.values[start - b.start: start - b.start + len(vals)] = vals
            elif k == "rude":
                c = socket.socket()
                c.settimeout(net.WAIT)
                c.connect(ctx.store["rpc"])
                if s[1] == "reset":
                    c.send(b"has_slave 1")
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                elif s[1] == "leave":
                    c.send(b"get_values 1 a 0 1")
                c.close()
                ctx.label("rude client")
            elif k == "together":
                answers = {}

                def one(i, iface, q):
                    try:
                        answers[i] = say(ctx, iface, q, "\n")
                    except BaseException as e:      # noqa
                        answers[i] = e
                ts = [threading.Thread(target=one, args=(i, "console" if i == 0 and s[2] else "rpc", q)) for i, q in enumerate(s[1])]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                for i, q in enumerate(s[1]):
                    if isinstance(answers[i], BaseException):
                        raise answers[i]
                    check_answer(q, answers[i], m, "%s %r" % (where, q))
                ctx.label("together")
            elif k == "restart":
                for x in masters:
                    x.close()
                shut(ctx, s[1])
                launch(ctx)
                client = simulator_rpc_client.SimulatorRpcClient(*ctx.store["rpc"], timeout=net.WAIT + 5)
                real.clear_hooks()
                m.hooks.clear()
                count = dict.fromkeys(FCTS, 0)
                ctx.label("restart")
            ensure(not ctx.store["ended"].is_set(), "after %s: the simulator has stopped (%r)", where, ctx.store["error"])
            check_state(ctx, m, where)
    finally:
        for x in masters:
            x.close()
    # both interfaces still answer
    for iface in ("console", "rpc"):
        got = say(ctx, iface, "echo at end")
        ensure(got.strip("\r\n") == "echo done: echo|at|end", "at the end the %s answered %r", iface, got)
    if changed and seen and refused and len(ifaces) == 2:
        ctx.nontrivial()


def judge_client(m, line, args, meth):
    """(done, result or ANY) or (error,) or (either,)"""
    before = m.copy()
    try:
        want = m.answer(line)
    except Bad:
        m.__dict__ = before.__dict__
        return ("error",)
    if want is None:
        return ("either",)
    if meth == "has_slave":
        return ("done", want == "1")
    if meth == "get_values":
        return ("done", tuple(int(v) for v in want.split()))
    return ("done", want)


def check_client(want, res, err, meth, where):
    if want[0] == "error":
        engine.ensure(err is not None, "%s returned %r, expected an error", where, res)
    elif want[0] == "done":
        if err is not None:
            raise engine.Violation("%s raised %r" % (where, err)) from err
        if want[1] is not ANY:
            engine.ensure(res == want[1] and type(res) is type(want[1]), "%s returned %r, expected %r", where, res, want[1])


def teardown(ctx):
    pass
