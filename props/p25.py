"""P25 shared data: servers on one databank (explicit or CompositeServer), slaves whose tables share memory"""
from hypothesis import strategies as st

from pbt import e2e, engine, gen, model

ID = "P25"
RULE = ("a case is a history on two TCP servers and an RTU server with one databank (given to each, or a CompositeServer): calls "
        "through masters of all three, get/set and slave management through any server; or a slave whose four tables share storage "
        "in one of 15 patterns, possibly with a second slave on the same memory or with a table missing, with blocks added, removed, "
        "all removed, set, read and requests of all functions; non-trivial = data written through one server, table or slave was "
        "read through another")
EXAMPLES = {"quick": 900, "thorough": 20000}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["the serial port is a pyserial-like stand-in"]

# all partitions of the four tables: the representative of each table
PATTERNS = [[1, 2, 3, 4], [1, 1, 3, 4], [1, 2, 1, 4], [1, 2, 3, 1], [1, 2, 2, 4], [1, 2, 3, 2], [1, 2, 3, 3], [1, 1, 3, 3],
            [1, 2, 1, 2], [1, 2, 2, 1], [1, 1, 1, 4], [1, 1, 3, 1], [1, 2, 1, 1], [1, 2, 2, 2], [1, 1, 1, 1]]

READBACK = {5: 1, 6: 3, 15: 1, 16: 3, 22: 3, 23: 3}


@st.composite
def _tables(draw):
    pattern = draw(st.sampled_from(PATTERNS))
    unsigned = draw(st.integers(0, 2)) > 0
    two = draw(st.booleans())
    layout, steps = [], []
    pos = 0
    for _ in range(draw(st.integers(1, 4))):
        typ = draw(st.integers(1, 4))
        layout.append([typ, pos, draw(st.sampled_from([1, 8, 9, 20, 20]))])
        if draw(st.booleans()):
            pos += layout[-1][2] + draw(st.integers(0, 2))
    # the same ranges under the other numbers, so that requests are aimed at them
    seen = [[t, b[1], b[2]] for b in layout for t in (1, 2, 3, 4)]
    for i, b in enumerate(layout):
        steps.append(["add", "b%d" % i] + b)
    for _ in range(draw(st.integers(3, 20))):
        k = draw(st.integers(0, 12))
        b = draw(st.integers(0, len(layout) - 1))
        typ, start, size = layout[b]
        if k <= 7:
            steps.append(["req", draw(gen.request_pdu(seen, bad=False, other_fc=False)).hex(),
                          draw(st.integers(0, 1)) if two else 0])
        elif k <= 9:
            off = draw(st.integers(0, size - 1))
            n = draw(st.integers(1, min(8, size - off)))
            lo, hi = (0, 0xffff) if unsigned else (-0x8000, 0x7fff)
            steps.append(["set", "b%d" % b, start + off, draw(st.lists(st.one_of(st.integers(lo, hi), st.integers(0, 1)), min_size=n,
                                                                           max_size=n))])
        elif k == 10:
            steps.append(["rm", "b%d" % b])
        elif k == 11:
            steps.append(["clear"])
            # the blocks which are defined anew share as before
            for i in draw(st.lists(st.integers(0, len(layout) - 1), max_size=3, unique=True)):
                steps.append(["add", "b%d" % i] + layout[i])
        else:
            steps.append(["add", "b%d" % b, draw(st.integers(1, 4)), start + draw(st.sampled_from([0, 0, 1, size])), size])
    return {"kind": "tables", "pattern": pattern, "unsigned": unsigned, "steps": steps, "as": draw(st.sampled_from(["slave", "db"])),
            "two": two, "missing": draw(st.sampled_from([0] * 6 + [1, 2, 3, 4]))}


@st.composite
def _servers(draw):
    slaves = {}
    for sid in draw(st.lists(st.sampled_from([1, 2, 17, 247, 255]), min_size=1, max_size=3, unique=True)):
        unsigned = draw(st.booleans())
        slaves[str(sid)] = {"unsigned": unsigned, "layout": draw(gen.layouts(max_blocks=4, big=False)), "via": draw(st.integers(0, 3))}
    lay = {int(k): v["layout"] for k, v in slaves.items()}
    steps = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.integers(0, 10))
        sid = draw(st.sampled_from(sorted(slaves)))
        unsigned, layout = slaves[sid]["unsigned"], slaves[sid]["layout"]
        if k <= 7:
            c = draw(e2e.e2e_call(lay))
            steps.append(["call", draw(st.integers(0, 2)), c])
            if c["fc"] in READBACK and draw(st.booleans()):
                # read what was written, through another server
                n = len(c["out"]) if isinstance(c.get("out"), list) else 1
                back = {"fc": READBACK[c["fc"]], "slave": c["slave"], "addr": c["waddr"] if c["fc"] == 23 else c["addr"],
                        "qty": max(1, min(n, 120))}
                steps.append(["call", draw(st.integers(0, 2)), back])
        elif k <= 9:
            b = draw(st.integers(0, len(layout) - 1))
            size = layout[b][2]
            off = draw(st.integers(0, size - 1))
            n = draw(st.integers(1, min(size - off, 8)))
            lo, hi = (0, 1) if layout[b][0] < 3 else ((0, 0xffff) if unsigned else (-0x8000, 0x7fff))
            steps.append(["set", draw(st.integers(0, 3)), sid, b, off, draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))])
        else:
            steps.append(["renew", draw(st.integers(0, 3)), draw(st.integers(0, 3)), sid])
    return {"kind": "servers", "composite": draw(st.booleans()), "slaves": slaves, "steps": steps}


def strategy(tier):
    return st.integers(0, 2).flatmap(lambda k: _tables() if k else _servers())


class Farm(object):
    """three running servers on one databank and a master for each"""

    def __init__(self, composite):
        from pbt import fakeserial, net, real
        from modbus_tk import modbus_rtu, modbus_tcp
        self.line = fakeserial.Line()
        addr = net.address()
        ports = [net.free_port(addr), net.free_port(addr)]
        if composite:
            from modbus_tk import simulator
            self.top = simulator.CompositeServer([modbus_tcp.TcpServer, modbus_rtu.RtuServer, modbus_tcp.TcpServer],
                                                 [(ports[0], addr), (self.line.server,), (ports[1], addr)])
            self.db = self.top.get_db()
            self.servers = [self.top]
            self.apis = [self.top] * 3 + [self.db]
        else:
            self.db = real.modbus.Databank()
            self.servers = [modbus_tcp.TcpServer(ports[0], addr, databank=self.db),
                            modbus_rtu.RtuServer(self.line.server, databank=self.db),
                            modbus_tcp.TcpServer(ports[1], addr, databank=self.db)]
            self.apis = self.servers + [self.db]
        for s in self.servers:
            s.start()
        for p in ports:
            net.wait_connect(addr, p)
        engine.ensure(self.line.server.wait_idle(), "the RTU server does not read")
        self.masters = [modbus_tcp.TcpMaster(addr, ports[0], net.WAIT), modbus_rtu.RtuMaster(self.line.master),
                        modbus_tcp.TcpMaster(addr, ports[1], net.WAIT)]
        self.masters[1].set_timeout(600.0)

    def stop(self):
        for m in self.masters:
            m.close()
        for s in self.servers:
            s.stop()


def setup(ctx):
    ctx.store["farm"] = {}


def teardown(ctx):
    for f in ctx.store["farm"].values():
        f.stop()


def run_case(case, ctx):
    if case["kind"] == "tables":
        return run_tables(case, ctx)
    from pbt import real
    farms = ctx.store["farm"]
    if case["composite"] not in farms:
        farms[case["composite"]] = Farm(case["composite"])
    f = farms[case["composite"]]
    f.db.remove_all_slaves()
    models = {}

    def make(sid, via):
        d = case["slaves"][sid]
        s = f.apis[via].add_slave(int(sid), d["unsigned"])
        models[sid] = model.ModelSlave(d["unsigned"])
        real.build_slave(s, d["layout"])
        real.build_model(models[sid], d["layout"])
    for sid, d in case["slaves"].items():
        make(sid, d["via"])
    wrote = set()
    for n, st_ in enumerate(case["steps"]):
        where = "step %d" % n
        if st_[0] == "call":
            c = st_[2]
            kind, res = e2e.judge(ctx, c, models[str(c["slave"])], f.masters[st_[1]].execute, real, where)
            if kind == "reply":
                if c["fc"] in (1, 2, 3, 4, 23) and any(w != st_[1] for w in wrote) and any(res):
                    ctx.nontrivial()
                if c["fc"] in (5, 6, 15, 16, 22, 23):
                    wrote.add(st_[1])
        elif st_[0] == "set":
            _, via, sid, b, off, vals = st_
            start = case["slaves"][sid]["layout"][b][1]
            f.apis[via].get_slave(int(sid)).set_values("b%d" % b, start + off, vals)
            models[sid].names["b%d" % b].values[off:off + len(vals)] = vals
            wrote.add("app")
        else:
            _, v1, v2, sid = st_
            f.apis[v1].remove_slave(int(sid))
            for api in f.apis:
                try:
                    api.get_slave(int(sid))
                    raise engine.Violation("%s: slave %s was removed and another server still has it" % (where, sid))
                except real.mexc.MissingKeyError:
                    pass
            make(sid, v2)
            ctx.label("renewed slave")
        for sid, d in case["slaves"].items():
            for i, api in enumerate(f.apis):
                x = real.diff(real.snapshot(api.get_slave(int(sid)), d["layout"]), models[sid].snapshot())
                engine.ensure(x is None, "after %s %r slave %s through %d: %s", where, st_, sid, i, x)
    ctx.label("composite" if case["composite"] else "common databank")


def run_tables(case, ctx):
    from pbt import real
    lists = {t: [] for t in (1, 2, 3, 4)}
    memory = {t: lists[case["pattern"][t - 1]] for t in (1, 2, 3, 4) if t != case["missing"]}
    db = real.modbus.Databank()
    make = db.add_slave if case["as"] == "db" else real.modbus.Slave
    slave = make(5, case["unsigned"], memory)
    slaves = [slave, make(6, case["unsigned"], memory) if case["two"] else slave]
    ms = model.ModelSlave(case["unsigned"], {t: case["pattern"][t - 1] for t in (1, 2, 3, 4)})
    if case["missing"]:
        ms.tables[case["missing"]] = []
        ctx.label("table missing")
    if case["two"]:
        ctx.label("two slaves")
    wrote = set()
    for n, st_ in enumerate(case["steps"]):
        where = "step %d %r" % (n, st_)
        k = st_[0]
        ctx.label(k)
        try:
            if k == "add":
                _, name, typ, start, size = st_
                if typ == case["missing"]:
                    try:
                        slave.add_block(name, typ, start, size)
                        raise engine.Violation("%s: accepted without that table" % where)
                    except (real.mexc.InvalidModbusBlockError, real.mexc.DuplicatedKeyError):
                        continue
                bad = name in ms.names or any(b.start < start + size and start < b.start + b.size for b in ms.tables[typ])
                try:
                    slave.add_block(name, typ, start, size)
                    engine.ensure(not bad, "%s: accepted", where)
                except (real.mexc.DuplicatedKeyError, real.mexc.OverlapModbusBlockError):
                    engine.ensure(bad, "%s: refused", where)
                if not bad:
                    ms.add_block(name, typ, start, size)
            elif k == "rm":
                if st_[1] in ms.names:
                    slave.remove_block(st_[1])
                    b = ms.names.pop(st_[1])
                    ms.tables[b.typ].remove(b)
            elif k == "clear":
                slave.remove_all_blocks()
                ms.names.clear()
                for t in ms.tables.values():
                    del t[:]
            elif k == "set":
                b = ms.names.get(st_[1])
                if b is not None and b.covers(st_[2], len(st_[3])):
                    slave.set_values(st_[1], st_[2], st_[3])
                    b.values[st_[2] - b.start:st_[2] - b.start + len(st_[3])] = st_[3]
                    wrote.add((0, b, 0))
            else:
                pdu = bytes.fromhex(st_[1])
                out = ms.judge(pdu)
                real.check_response(out, slaves[st_[2]].handle_request(pdu), where)
                if out.kind == "reply":
                    typ = gen.TABLE.get(pdu[0])
                    ms.apply(out)
                    for b, i, v in out.writes:
                        wrote.add((typ, b, st_[2]))
                    if not out.writes and typ:
                        b = ms.find(typ, int.from_bytes(pdu[1:3], "big"), 1)
                        if any(w[1] is b and w[0] not in (0, typ) for w in wrote):
                            ctx.nontrivial()
                        if b.name in ms.names and any(w[1] is b and w[2] != st_[2] for w in wrote):
                            ctx.nontrivial()
                            ctx.label("read through another slave")
                            ctx.label("read through another table")
        except real.mexc.ModbusError as e:
            raise engine.Violation("%s: %r" % (where, e))
        want = ms.snapshot()
        got = {name: list(slave.get_values(name, b.start, b.size)) for name, b in ms.names.items()}
        d = real.diff(got, want)
        engine.ensure(d is None, "after %s: %s", where, d)
    # everything is visible through every table of its group, and only there
    for name, b in ms.names.items():
        for typ in (1, 2, 3, 4):
            pdu = bytes([typ]) + b.start.to_bytes(2, "big") + b.size.to_bytes(2, "big")
            out = ms.judge(pdu)
            for i, sl in enumerate(slaves):
                real.check_response(out, sl.handle_request(pdu), "reading %s as type %d through slave %d" % (name, typ, i))
            if out.kind == "reply" and typ != b.typ and any(w[1] is b for w in wrote) and any(b.values):
                ctx.nontrivial()
