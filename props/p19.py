"""P19 requests, application calls and hooks in threads: generated mixtures under generated schedules, no deadlock, no failure"""
import struct
from collections import Counter

from hypothesis import strategies as st

from pbt import engine, model, sched

ID = "P19"
RULE = ("a case is 2-4 threads with 1-4 operations each (broadcasts, requests over TCP or RTU framing, calls of two masters whose "
        "line ends in the same databank, get/set, adding and removing slaves, installing and removing hooks), 0-4 permanent hooks "
        "which read or write slave values, use the databank or install other hooks, and a schedule of up to 8 preemptions; "
        "non-trivial = operations overlapped in time and one of them was a broadcast, a hook change or called an active hook")
EXAMPLES = {"quick": 1500, "thorough": 40000}
CASE_TIMEOUT = 60
ASSUMPTIONS = ["switch points are source lines or bytecodes of modbus_tk and operations on locks and events",
               "a hook uses values of the slave it is called for, or of slaves with a higher id (one common lock order)"]
SLAVE_SITES = ["modbus.Slave.handle_request", "modbus.Slave.handle_write_multiple_registers_request",
               "modbus.Slave.on_handle_broadcast", "modbus.Slave.on_exception"]
MASTER_SITES = ["modbus.Master.before_send", "modbus.Master.after_recv"]
SETITEM = "modbus.ModbusBlock.setitem"
PERM = [1, 2, 3]
SIZE = 40
_N = [0]


FOCUS = {
    "mix": ["bc"] * 4 + ["w", "w", "r", "bad", "mw", "mr", "mbc", "set", "get", "addt", "addt", "rmt", "adds", "rms", "inst", "inst",
                         "uninst", "wt", "wt", "gets", "instx"],
    "hooks": ["bc", "bc", "w", "w", "mw", "set", "inst", "uninst", "uninst", "instx"],
    "slaves": ["bc", "addt", "rmt", "adds", "rms", "rms", "wt", "wt", "gets", "gets"],
}


@st.composite
def _op(draw, focus):
    k = draw(st.sampled_from(FOCUS[focus]))
    if k == "bc":
        return [k, draw(st.sampled_from(["tcp", "rtu"]))]
    if k in ("wt", "gets"):
        return [k, draw(st.sampled_from(["tcp", "rtu"])), draw(st.sampled_from([30, 30, 20, 21]))]
    if k in ("w", "r", "bad"):
        return [k, draw(st.sampled_from(["tcp", "rtu"])), draw(st.sampled_from(PERM))]
    if k in ("mw", "mr"):
        return [k, draw(st.integers(0, 1)), draw(st.sampled_from(PERM))]
    if k == "mbc":
        return [k, draw(st.integers(0, 1)), 0]
    if k in ("set", "get"):
        return [k, draw(st.sampled_from(PERM))]
    return [k]


@st.composite
def _hook(draw):
    site = draw(st.sampled_from(SLAVE_SITES + SLAVE_SITES[:1] + MASTER_SITES + [SETITEM]))
    if site == SETITEM:
        return [site, draw(st.sampled_from(["count", "get-last", "db", "addrm"]))]
    return [site, draw(st.sampled_from(["count", "get-own", "set-own", "set-higher", "get-higher", "db", "addrm", "install"]))]


@st.composite
def _case(draw):
    focus = draw(st.sampled_from(["mix", "mix", "mix", "hooks", "slaves"]))
    th = draw(st.lists(st.lists(_op(focus), min_size=1, max_size=4), min_size=2, max_size=4))
    sites = draw(st.lists(st.sampled_from(SLAVE_SITES[:3] + SLAVE_SITES[:1] + MASTER_SITES), min_size=1,
                          max_size=1 if focus == "hooks" else 2))
    for ops in th:
        for op in ops:
            if op[0] == "inst":
                op.append(draw(st.sampled_from(sites)))
    pre = draw(st.lists(st.tuples(st.integers(0, len(th) - 1), st.sampled_from(sites)).map(list), max_size=3))
    return {"pre": pre, "shared": draw(st.integers(0, 3)) > 0, "threads": th, "hooks": draw(st.lists(_hook(), max_size=4)), "missing": draw(st.booleans()),
            "schedule": draw(sched.schedules(8, 250)), "fine": draw(st.integers(0, 5)) == 0}


def strategy(tier):
    return _case()


def make_masters(db, mods):
    modbus_tcp, modbus_rtu = mods

    class Line(object):
        last = None

        def _do_open(self):
            pass

        def _do_close(self):
            return True

        def _send(self, request):
            self.last = bytes(request)

        def _recv(self, expected_length=-1):
            r = db.handle_request(self.query(), self.last)
            return bytearray(r or b"")

    class T(Line, modbus_tcp.TcpMaster):
        query = modbus_tcp.TcpQuery

    class Port(object):
        name, port, is_open, timeout, baudrate, inter_byte_timeout = "null", "null", False, 1.0, 9600, None

        def open(self):
            self.is_open = True

        def close(self):
            self.is_open = False

    class R(Line, modbus_rtu.RtuMaster):
        query = modbus_rtu.RtuQuery

        def __init__(self):
            modbus_rtu.RtuMaster.__init__(self, Port())
    return [T(), R()]


def run_case(case, ctx):
    real = sched.load()
    from modbus_tk import modbus_rtu, modbus_tcp
    real.clear_hooks()
    install, uninstall = real.hooks.install_hook, real.hooks.uninstall_hook
    db = real.modbus.Databank(error_on_missing_slave=case["missing"])
    slaves = {}

    def fill(sl):
        sl.add_block("h", 3, 0, SIZE)
        sl.add_block("c", 1, 0, 8)
    for i in PERM:
        slaves[i] = db.add_slave(i)
        fill(slaves[i])
    ids = {id(sl): i for i, sl in slaves.items()}
    masters = make_masters(db, (modbus_tcp, modbus_rtu))
    s = sched.Scheduler(case["schedule"], case["fine"])
    calls = []          # (hook key, slave or master index, pdu)
    active = [0]
    extra = [100]

    def make(key, what, site):
        def use(sid):
            active[0] += 1
            if what == "get-own" and sid:
                slaves[sid].get_values("h", 0, 3)
            elif what == "set-own" and sid:
                slaves[sid].set_values("c", 1, [1, 0])
            elif what == "set-higher" and sid and sid < 3:
                slaves[sid + 1].set_values("c", 1, [1, 1])
            elif what in ("get-higher", "get-last") and sid:
                slaves[3].get_values("h", 0, 3)
            elif what == "db":
                db.get_slave(2)
            elif what == "addrm":
                extra[0] += 1
                n = extra[0]
                if n < 250:
                    db.add_slave(n)
                    db.remove_slave(n)
            elif what == "install":
                def nothing(args):
                    return None
                install(SLAVE_SITES[3], nothing)
                uninstall(SLAVE_SITES[3], nothing)

        def hook(args):
            s.point()       # another thread may go on while a hook runs
            if site == SETITEM:
                use(3)
                return None
            if site in MASTER_SITES:
                who = masters.index(args[0])
                calls.append((key, who, bytes(args[1])))
                use({"get-own": 1}.get(what, 3))
                return None
            sid = ids.get(id(args[0]), 0)
            calls.append((key, sid, bytes(args[1]) if site != SLAVE_SITES[3] else args[1]))
            use(sid)
            return None
        return hook
    early = []
    for i, (ti, site) in enumerate(case["pre"]):
        early.append((ti, [("early", i), site, -1, -1, None, None], make(("early", i), "count", site)))
        install(site, early[-1][2])
    for i, (site, what) in enumerate(case["hooks"]):
        install(site, make(("perm", i), what, site))
    _N[0] += 1
    fresh, fresh_calls, fresh_calls_expected = "verif.fresh.%d" % _N[0], [], []
    hist = []       # [start, end, op, n, result]
    spans = [x[1] for x in early]       # temporary hooks: [key, site, installed from, until, removed from, until]
    if case["shared"]:
        db.add_slave(30)
    temp = {}       # temporary slaves of the threads: id -> [added at, object]
    shared = [1] if case["shared"] else []      # results of adding and removing the shared slave

    def frame(framing, unit, pdu, n):
        return model.tcp_frame(n + 1, unit, pdu) if framing == "tcp" else model.rtu_frame(unit, pdu)

    def pdu_of(op, n):
        if op[0] in ("bc", "w", "mw", "mbc", "wt"):
            return struct.pack(">BHHBH", 16, n, 1, 2, 1000 + n)
        if op[0] in ("r", "mr"):
            return struct.pack(">BHH", 3, n, 1 + n % 7 if n + 8 < SIZE else 1)
        if op[0] == "bad":
            return struct.pack(">BHHBH", 16, SIZE + n, 1, 2, n)
        return None

    def body(ti, todo):
        mine = [x[1:] for x in early if x[0] == ti]

        def perform(op, n):
            k = op[0]
            if k in ("bc", "w", "r", "bad", "wt"):
                q = modbus_tcp.TcpQuery() if op[1] == "tcp" else modbus_rtu.RtuQuery()
                r = db.handle_request(q, frame(op[1], op[2] if k != "bc" else 0, pdu_of(op, n), n))
                if r and len(r) < 4:
                    raise engine.Violation("the databank failed: %s" % bytes(r).hex())
                return bytes(r[7:] if op[1] == "tcp" else r[1:-2]) if r else b""
            if k in ("mw", "mbc"):
                return masters[op[1]].execute(op[2], 16, n, output_value=[1000 + n]) if k == "mw" else \
                    masters[op[1]].execute(0, 16, n, output_value=[1000 + n])
            if k == "mr":
                return masters[op[1]].execute(op[2], 3, n, 1 + n % 7 if n + 8 < SIZE else 1)
            if k == "set":
                return slaves[op[1]].set_values("h", n, [1000 + n])
            if k == "get":
                return slaves[op[1]].get_values("h", 0, n + 1)
            tid = 20 + ti
            if k == "addt":
                if tid in temp:
                    return None
                sl = db.add_slave(tid)
                fill(sl)
                temp[tid] = [s.tick(), sl]
                return None
            if k == "rmt":
                if temp.pop(tid, None):
                    db.remove_slave(tid)
                return None
            if k == "gets":
                try:
                    db.get_slave(op[2])
                except real.mexc.MissingKeyError:
                    pass
                return None
            if k == "instx":
                install(fresh, fresh_calls.append)
                fresh_calls_expected.append(1)
                return None
            if k == "adds":
                try:
                    db.add_slave(30)
                    shared.append(1)
                except real.mexc.DuplicatedKeyError:
                    pass
                return None
            if k == "rms":
                try:
                    db.remove_slave(30)
                    shared.append(-1)
                except real.mexc.MissingKeyError:
                    pass
                return None
            if k == "inst":
                key = ("temp", ti, n)
                h = make(key, "count", op[1])
                t0 = s.tick()
                span = [key, op[1], t0, None, None, None]
                spans.append(span)
                install(op[1], h)
                span[3] = s.tick()
                mine.append((span, h))
                return None
            if mine:
                span, h = mine.pop()
                span[4] = s.tick()
                uninstall(span[1], h)
                span[5] = s.tick()
            return None

        def go():
            for n, op in todo:
                t0 = s.tick()
                try:
                    r = ("ok", perform(op, n))
                except Exception as e:      # noqa
                    r = ("err", e)
                hist.append([t0, s.tick(), op, n, r])
        return go
    n = 0
    for ti, ops in enumerate(case["threads"]):
        todo = []
        for op in ops:
            todo.append((n, op))
            n += 1
        s.spawn(body(ti, todo))
    try:
        s.run()
        real.hooks.call_hooks(fresh, "x")
    except (sched.Deadlock, sched.StepLimit) as e:
        raise engine.Violation(str(e))
    finally:
        real.clear_hooks()
    ensure = engine.ensure
    seen = {i: list(sl.get_values("h", 0, SIZE)) for i, sl in slaves.items()}
    expected = {i: [0] * SIZE for i in PERM}
    for t0, t1, op, n, (k, r) in hist:
        where = "operation %d %r" % (n, op)
        if op[0] == "mbc":
            pass        # whether the call of the master reports the missing answer is not part of this property
        else:
            ensure(k == "ok", "%s failed: %r", where, r)
        if op[0] in ("bc", "mbc"):
            ensure(op[0] == "mbc" or r == b"", "%s was answered: %r", where, r)
            for i in PERM:
                expected[i][n] = 1000 + n
        elif op[0] in ("w", "mw", "set"):
            expected[op[2] if op[0] != "set" else op[1]][n] = 1000 + n
            if op[0] == "w":
                ensure(r == struct.pack(">BHH", 16, n, 1), "%s: answer %r", where, r)
            elif op[0] == "mw":
                ensure(tuple(r) == (n, 1), "%s: result %r", where, r)
        elif op[0] == "wt":
            ensure(r in (b"", b"\x90\x02", struct.pack(">BHH", 16, n, 1)), "%s: answer %r", where, r)
        elif op[0] == "bad":
            ensure(r == b"\x90\x02", "%s: answer %r", where, r)
    for i in PERM:
        ensure(seen[i] == expected[i], "slave %d: registers %r, expected %r", i, seen[i], expected[i])
    for t0, t1, op, n, (k, r) in hist:
        if op[0] in ("r", "mr", "get"):
            sid = op[2] if op[0] != "get" else op[1]
            if op[0] == "get":
                first, values = 0, r
                ensure(len(values) == n + 1, "operation %d: %r", n, r)
            else:
                q = 1 + n % 7 if n + 8 < SIZE else 1
                first = n
                if op[0] == "r":
                    ensure(len(r) == 2 + 2 * q and r[:2] == bytes([3, 2 * q]), "operation %d %r: answer %r", n, op, r)
                    values = struct.unpack(">%dH" % q, r[2:])
                else:
                    values = r
                    ensure(len(values) == q, "operation %d %r: %r", n, op, r)
            for j, v in enumerate(values):
                ensure(v in (0, expected[sid][first + j]), "operation %d %r: read %r", n, op, values)
    # slaves which stayed until the end got every broadcast which came after they were complete
    for tid, (t, sl) in temp.items():
        ensure(db.get_slave(tid) is sl, "slave %d was lost", tid)
        got = sl.get_values("h", 0, SIZE)
        for t0, t1, op, n, r in hist:
            if op[0] in ("bc", "mbc") and t0 > t:
                ensure(got[n] == 1000 + n, "the broadcast %d did not reach slave %d", n, tid)
    try:
        db.get_slave(30)
        left = 1
    except real.mexc.MissingKeyError:
        left = 0
    # hooks installed at once on a name which was not used before
    ensure(fresh_calls == ["x"] * len(fresh_calls_expected), "%d hooks installed by several threads, %d called",
           len(fresh_calls_expected), len(fresh_calls))
    ensure(sum(shared) == left, "slave 30: %r, left %d", shared, left)
    # calls of the hooks
    count = Counter()
    for key, who, pdu in calls:
        count[key, who, pdu] += 1
    hooks = [(("perm", i), site, -1, -1, None, None) for i, (site, what) in enumerate(case["hooks"])] + [tuple(x) for x in spans]
    want = Counter()
    for key, site, a0, a1, b0, b1 in hooks:
        if site == SETITEM or site == SLAVE_SITES[3]:
            continue
        total, possible = Counter(), Counter()
        for t0, t1, op, n, r in hist:
            pdu = pdu_of(op, n)
            if pdu is None or op[0] == "wt":
                continue
            if site in MASTER_SITES:
                targets = [op[1]] if op[0] in ("mw", "mr", "mbc") else []
            elif site == SLAVE_SITES[2]:
                targets = PERM if op[0] in ("bc", "mbc") else []
            elif site == SLAVE_SITES[1] and pdu[0] != 16:
                targets = []
            else:
                targets = PERM if op[0] in ("bc", "mbc") else [op[2]]
            for who in targets:
                if site in MASTER_SITES or site == SLAVE_SITES[2]:
                    at = (who,)
                else:
                    at = (who, pdu)
                if a1 is not None and a1 < t0 and (b0 is None or b0 > t1):
                    total[at] += 1
                if a0 < t1 and (b1 is None or b1 > t0):
                    possible[at] += 1
        got = Counter()
        for (k, who, pdu), c in count.items():
            if k == key and (who or site in MASTER_SITES):
                got[(who,) if site in MASTER_SITES or site == SLAVE_SITES[2] else (who, pdu)] += c
        for at in set(total) | set(possible) | set(got):
            if site == "modbus.Master.after_recv" and any(x[2][0] == "mbc" for x in hist):
                continue
            ensure(total[at] <= got[at] <= possible[at], "hook %r on %s was called %d times for %r, expected %d to %d", key, site,
                   got[at], at, total[at], possible[at])
    over = [x for i, x in enumerate(hist) if any(x[0] < y[1] and y[0] < x[1] for j, y in enumerate(hist) if i != j)]
    ctx.label("preemptions", s.switches)
    ctx.label("overlapping" if over else "not overlapping")
    for x in hist:
        ctx.label(x[2][0])
    if active[0]:
        ctx.label("active hooks")
    if over and (active[0] or any(x[2][0] in ("bc", "mbc", "inst", "uninst") for x in over)):
        ctx.nontrivial()
