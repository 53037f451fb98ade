"""P17 atomicity of slave data: generated operations of several threads under generated schedules, linearizability"""
from hypothesis import strategies as st

from pbt import engine, gen, model, sched

ID = "P17"
RULE = ("a case is one slave, 2-4 threads with 1-3 operations each (requests through a databank with TCP or RTU queries, "
        "broadcasts, get/set of values, adding and removing blocks) and a schedule of up to 8 preemptions at source lines or "
        "bytecodes of modbus_tk and at lock operations; the history must be linearizable to the sequential model; "
        "non-trivial = a thread was preempted inside an operation and a conflicting operation of another thread overlapped it")
EXAMPLES = {"quick": 2500, "thorough": 60000}
CASE_TIMEOUT = 60
ASSUMPTIONS = ["switch points are source lines (or bytecodes) of modbus_tk and operations on locks and events; one thread "
               "runs at a time (the GIL model of memory)"]
LAYOUT = [[3, 0, 12], [1, 0, 16], [4, 0, 6], [3, 20, 4]]
BIG = [[3, 100, 300], [1, 100, 800]]       # b6, b7 of some cases
WRITE = {"set", "add", "rm", "clear", "bcast"}


@st.composite
def _op(draw):
    k = draw(st.sampled_from(["req"] * 8 + ["set", "set", "get", "get", "add", "add", "rm", "bcast", "clear"]))
    if k in ("req", "bcast"):
        fcs = (3, 3, 16, 16, 6, 22, 23, 23, 15, 5, 1, 4) if k == "req" else (16, 6, 22, 15, 23)
        pdu = draw(gen.request_pdu(LAYOUT, fcs=fcs, other_fc=False, bad=False))
        return [k, draw(st.sampled_from(["tcp", "rtu"])), pdu.hex()]
    if k in ("set", "get"):
        b = draw(st.sampled_from([0, 0, 0, 1, 3, 4]))
        start, size = (LAYOUT[b][1], LAYOUT[b][2]) if b < 4 else (4, 6)
        n = draw(st.integers(1, size))
        off = draw(st.integers(0, size - n)) if draw(st.integers(0, 9)) else size - n + 1
        if k == "get":
            return [k, "b%d" % b, start + off, n]
        hi = 1 if b == 1 else 0x7fff
        return [k, "b%d" % b, start + off, draw(st.lists(st.integers(0, hi), min_size=n, max_size=n))]
    if k == "add":
        return [k, draw(st.sampled_from(["b4", "b5", "b5", "b0", "b3"])), 3, draw(st.sampled_from([0, 12, 14, 16, 20, 24])),
                draw(st.integers(1, 6))]
    if k == "rm":
        return [k, draw(st.sampled_from(["b0", "b3", "b4", "b5", "b4"]))]
    return [k]


@st.composite
def _hot(draw):
    """an operation on one of two registers, or both"""
    a = draw(st.integers(0, 1))
    v = draw(st.integers(0, 0xff)) * 0x101
    k = draw(st.sampled_from(["one", "mask", "one", "mask", "set", "get", "6", "16", "3", "23", "bcast"]))
    if k in ("one", "set"):
        return ["set", "b0", a, v & 0x7fff if k == "one" else [v & 0x7fff] * (2 - a)]
    if k == "get":
        return [k, "b0", a, draw(st.integers(1, 2 - a))]
    addr, val = bytes([0, a]), v.to_bytes(2, "big")
    if k in ("mask", "bcast"):
        pdu = b"\x16" + addr + draw(st.sampled_from([b"\xff\0", b"\0\xff", b"\xf0\x0f"])) + val
    else:
        pdu = {"6": b"\x06" + addr + val, "16": b"\x10" + addr + bytes([0, 2 - a, 4 - 2 * a]) + val * (2 - a),
               "3": b"\x03\0\0\0\2", "23": b"\x17\0\0\0\2" + addr + b"\0\1\2" + val}[k]
    return ["bcast" if k == "bcast" else "req", draw(st.sampled_from(["tcp", "rtu"])), pdu.hex()]


@st.composite
def _long(draw):
    """a read or write of many items"""
    b = draw(st.integers(0, 1))
    typ, start, size = BIG[b]
    limit, wlimit = ((125, 123), (800, 800))[b]
    k = draw(st.sampled_from(["get", "set", "set", "read", "write"]))
    top = {"get": size, "set": size, "read": limit, "write": wlimit}[k]
    n = draw(st.sampled_from([top, top, top // 2]) | st.integers(1, top))
    off = draw(st.sampled_from([0, 0, size - n]))
    if k == "get":
        return [k, "b%d" % (6 + b), start + off, n]
    v = draw(st.integers(1, 0x7fff)) if b == 0 else 1
    if k == "set":
        return [k, "b%d" % (6 + b), start + off, [v] * n]
    head = (start + off).to_bytes(2, "big") + n.to_bytes(2, "big")
    if k == "read":
        return ["req", "tcp", (bytes([typ]) + head).hex()]
    data = v.to_bytes(2, "big") * n if b == 0 else b"\xff" * ((n + 7) // 8)
    return ["req", "tcp", (bytes([16 if b == 0 else 15]) + head + bytes([len(data)]) + data).hex()]


@st.composite
def _case(draw):
    if draw(st.integers(0, 5)) == 0:
        th = draw(st.lists(st.lists(_long(), min_size=1, max_size=2), min_size=2, max_size=3))
        return {"unsigned": True, "threads": th, "schedule": draw(sched.schedules(8, 1500)), "fine": False, "big": True}
    unsigned = draw(st.integers(0, 3)) > 0
    if draw(st.integers(0, 3)) == 0:
        th = draw(st.lists(st.lists(_hot(), min_size=1, max_size=2), min_size=2, max_size=2))
        return {"unsigned": unsigned, "threads": th, "focus": True,
                "schedule": draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 1)).map(list), min_size=1, max_size=2)), "fine": draw(st.integers(0, 4)) == 0}
    th = draw(st.lists(st.lists(_op(), min_size=1, max_size=3), min_size=2, max_size=4))
    while sum(len(t) for t in th) > 8:
        max(th, key=len).pop()
    return {"unsigned": unsigned, "threads": th, "schedule": draw(sched.schedules(8, 150)), "fine": draw(st.integers(0, 4)) == 0}


def strategy(tier):
    return _case()


class State(object):
    """the sequential model as a value"""

    def __init__(self, ms):
        self.ms = ms

    def key(self):
        return tuple(sorted((n, b.typ, b.start, tuple(b.values)) for n, b in self.ms.names.items()))

    def clone(self):
        ms = model.ModelSlave(self.ms.unsigned)
        for n, b in self.ms.names.items():
            ms.add_block(n, b.typ, b.start, b.size).values[:] = b.values
        return State(ms)


def step(x):
    """sequential semantics: (state, op) -> (accepts, new state); x: the exceptions module"""
    def err(*classes):
        return lambda r: r[0] == "err" and isinstance(r[1], tuple(classes))

    def value(v):
        return lambda r: r[0] == "ok" and r[1] == v

    def go(state, op):
        k, ms = op[0], state.ms
        if k in ("req", "bcast"):
            out = ms.judge(bytes.fromhex(op[2]))
            nxt = state
            if out.kind == "reply" and out.writes:
                nxt = state.clone()
                nxt.ms.apply(nxt.ms.judge(bytes.fromhex(op[2])))
            if k == "bcast":
                return (lambda r: r[0] == "ok" and not r[1]), nxt
            if out.kind == "reply":
                return value(out.reply), nxt
            return (lambda r: r[0] == "ok" and len(r[1]) == 2 and r[1][0] == int(op[2][:2], 16) | 0x80
                    and r[1][1] in out.codes), nxt
        if k in ("set", "get"):
            b = ms.names.get(op[1])
            if b is None:
                return err(x.MissingKeyError), state
            vals = op[3] if isinstance(op[3], list) else [op[3]]
            n = op[3] if k == "get" else len(vals)
            if not b.covers(op[2], n):
                return err(x.OutOfModbusBlockError), state
            off = op[2] - b.start
            if k == "get":
                return value(tuple(b.values[off:off + n])), state
            nxt = state.clone()
            nxt.ms.names[op[1]].values[off:off + n] = vals
            return value(None), nxt
        if k == "add":
            _, name, typ, start, size = op
            allowed = []
            if name in ms.names:
                allowed.append(x.DuplicatedKeyError)
            if any(b.start < start + size and start < b.start + b.size for b in ms.tables[typ]):
                allowed.append(x.OverlapModbusBlockError)
            if allowed:
                return err(*allowed), state
            nxt = state.clone()
            nxt.ms.add_block(name, typ, start, size)
            return value(None), nxt
        if k == "rm":
            if op[1] not in ms.names:
                return err(x.MissingKeyError), state
            nxt = state.clone()
            b = nxt.ms.names.pop(op[1])
            nxt.ms.tables[b.typ].remove(b)
            return value(None), nxt
        return value(None), State(model.ModelSlave(ms.unsigned))
    return go


def run_case(case, ctx):
    real = sched.load()
    from modbus_tk import modbus_rtu, modbus_tcp
    real.clear_hooks()
    db = real.modbus.Databank()
    slave = db.add_slave(7, unsigned=case["unsigned"])
    layout = LAYOUT
    if case.get("big"):
        layout = LAYOUT + [[4, 100, 1], [4, 110, 1]] + BIG
        ctx.label("many items")
    real.build_slave(slave, layout)
    ms = model.ModelSlave(case["unsigned"])
    real.build_model(ms, layout)
    s = sched.Scheduler(case["schedule"], case["fine"], focus=("modbus.py",) if case.get("focus") else None)
    history = []

    def perform(op):
        k = op[0]
        if k in ("req", "bcast"):
            pdu, unit = bytes.fromhex(op[2]), 7 if k == "req" else 0
            if op[1] == "tcp":
                r = db.handle_request(modbus_tcp.TcpQuery(), model.tcp_frame(1, unit, pdu))
                return bytes(r[7:]) if r else r
            r = db.handle_request(modbus_rtu.RtuQuery(), model.rtu_frame(unit, pdu))
            return bytes(r[1:-2]) if r else r
        if k == "set":
            return slave.set_values(op[1], op[2], op[3] if not isinstance(op[3], list) else tuple(op[3]) if op[2] & 1 else list(op[3]))
        if k == "get":
            return tuple(slave.get_values(op[1], op[2], op[3]))
        if k == "add":
            return slave.add_block(*op[1:])
        if k == "rm":
            return slave.remove_block(op[1])
        return slave.remove_all_blocks()

    def body(ops):
        def go():
            for op in ops:
                call = s.tick()
                try:
                    r = ("ok", perform(op))
                except Exception as e:      # noqa
                    r = ("err", e)
                history.append((call, s.tick(), op, r))
        return go
    for ops in case["threads"]:
        s.spawn(body(ops))
    try:
        s.run()
    except (sched.Deadlock, sched.StepLimit) as e:
        raise engine.Violation(str(e))

    def final(state):
        for name in ("b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"):
            b = state.ms.names.get(name)
            try:
                if b is None:
                    slave.get_values(name, 0, 1)
                    return False
                if list(slave.get_values(name, b.start, b.size)) != b.values:
                    return False
            except real.mexc.MissingKeyError:
                if b is not None:
                    return False
            except real.mexc.OutOfModbusBlockError:
                return False
        return True
    if not sched.linearizable(history, State(ms), step(real.mexc), final):
        lines = ["%d-%d %r -> %s" % (c, r, op, (res[0], res[1].hex() if isinstance(res[1], bytes) else res[1]))
                 for c, r, op, res in sorted(history, key=lambda h: h[0])]
        raise engine.Violation("no sequential order explains\n  " + "\n  ".join(lines) + "\n  and the final values %r" % (
            {n: slave.get_values(n, LAYOUT[i][1], LAYOUT[i][2]) for i, n in enumerate(("b0", "b1", "b2", "b3"))
             if n in getattr(slave, "_blocks", {})}))
    overlap = False
    for i, a in enumerate(history):
        for b in history[i + 1:]:
            if a[0] < b[1] and b[0] < a[1] and (writes(a[2]) or writes(b[2])):
                overlap = True
    ctx.label("preemptions", s.switches)
    ctx.label("overlapping" if overlap else "not overlapping")
    if overlap:
        ctx.nontrivial()


def writes(op):
    return op[0] in WRITE or op[0] == "req" and int(op[2][:2], 16) in (5, 6, 15, 16, 22, 23)
