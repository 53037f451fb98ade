"""P07 RTU end to end: a real RtuMaster and a real RtuServer thread joined by a line with generated fragmentation"""
from hypothesis import strategies as st

from pbt import e2e, engine, gen, model

ID = "P07"
RULE = ("a case is 1-3 slaves on an RtuServer thread, an RtuMaster, a fragmentation pattern, local echo and software timeout "
        "on or off, and 3-14 steps (call, direct get/set by the application, close/reopen of the master); non-trivial = a "
        "read returned non-zero data that arrived in several fragments")
EXAMPLES = {"quick": 500, "thorough": 10000}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["the serial port is a pyserial-like stand-in; silences inside a frame are shorter than the timeouts"]


@st.composite
def _case(draw):
    slaves = {}
    for sid in draw(st.lists(st.sampled_from([1, 2, 17, 247, 255]), min_size=1, max_size=3, unique=True)):
        unsigned = draw(st.booleans())
        layout = draw(gen.layouts(max_blocks=4))
        slaves[str(sid)] = {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned))}
    lay = {int(k): v["layout"] for k, v in slaves.items()}
    steps = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.integers(0, 9))
        if k <= 7:
            steps.append(["call", draw(e2e.e2e_call(lay))])
        elif k == 8:
            sid = draw(st.sampled_from(sorted(slaves)))
            unsigned, layout = slaves[sid]["unsigned"], slaves[sid]["layout"]
            b = draw(st.integers(0, len(layout) - 1))
            size = layout[b][2]
            off = draw(st.integers(0, size - 1))
            n = draw(st.integers(1, min(size - off, 8)))
            lo, hi = (0, 1) if layout[b][0] < 3 else ((0, 0xffff) if unsigned else (-0x8000, 0x7fff))
            steps.append(["set", sid, b, off, draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))])
        else:
            steps.append([draw(st.sampled_from(["close", "reopen"]))])
    return {"slaves": slaves, "steps": steps, "echo": draw(st.booleans()), "sw": draw(st.integers(0, 3)) == 0,
            "opened": draw(st.booleans()),
            "cuts": draw(st.lists(st.lists(st.integers(1, 255), max_size=4), min_size=1, max_size=6))}


def strategy(tier):
    return _case()


def run_case(case, ctx):
    from pbt import fakeserial, real
    from modbus_tk import modbus_rtu
    state = {"n": 0, "max": 0}

    def chop(data):
        cuts = case["cuts"][state["n"] % len(case["cuts"])]
        state["n"] += 1
        parts = gen.cut(data, [1 + (c - 1) % len(data) for c in cuts])
        state["last"] = len(parts)
        return parts

    line = fakeserial.Line(chop, case["echo"])
    line.master.is_open = line.server.is_open = case["opened"]
    srv = modbus_rtu.RtuServer(line.server)
    master = modbus_rtu.RtuMaster(line.master)
    master.handle_local_echo = case["echo"]
    if case["sw"]:
        master.set_timeout(600.0, use_sw_timeout=True)
    models, slaves = {}, {}
    for sid, d in case["slaves"].items():
        s = slaves[sid] = srv.add_slave(int(sid), unsigned=d["unsigned"])
        models[sid] = model.ModelSlave(d["unsigned"])
        real.build_slave(s, d["layout"], d["init"])
        real.build_model(models[sid], d["layout"], d["init"])
    srv.start()
    try:
        engine.ensure(line.server.wait_idle(), "the server never waits for a request")
        for n, st_ in enumerate(case["steps"]):
            where = "step %d" % n
            if st_[0] == "call":
                c = st_[1]
                frames = len(line.to_server), len(line.to_master)
                kind, res = e2e.judge(ctx, c, models[str(c["slave"])], master.execute, real, where)
                if kind == "reply" and c["fc"] in (1, 2, 3, 4, 23) and state["last"] > 1 and any(res):
                    ctx.nontrivial()
                engine.ensure((len(line.to_server), len(line.to_master)) == (frames[0] + 1, frames[1] + 1),
                              "%s %r: %r frames before, now %d requests and %d replies on the line", where, c, frames,
                              len(line.to_server), len(line.to_master))
            elif st_[0] == "set":
                _, sid, b, off, vals = st_
                start = case["slaves"][sid]["layout"][b][1]
                slaves[sid].set_values("b%d" % b, start + off, vals)
                models[sid].names["b%d" % b].values[off:off + len(vals)] = vals
            elif st_[0] == "close":
                master.close()
            else:
                master.close()
                master.open()
            for sid in slaves:
                d = real.diff(real.snapshot(slaves[sid], case["slaves"][sid]["layout"]), models[sid].snapshot())
                engine.ensure(d is None, "after %s %r slave %s: %s", where, st_, sid, d)
    finally:
        master.close()
        srv.stop()
