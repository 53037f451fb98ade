"""P06 TCP end to end: histories of master calls and direct accesses over real loopback connections"""
from hypothesis import strategies as st

from pbt import e2e, engine, gen, model

ID = "P06"
RULE = ("a case is 1-3 slaves, 1-3 TcpMasters on real connections to one TcpServer and 1-15 steps (call through a master, "
        "direct get/set by the application, close/reopen of a master); non-trivial = data written through one side was "
        "read through another")
EXAMPLES = {"quick": 350, "thorough": 8000}
CASE_TIMEOUT = 120


@st.composite
def _case(draw):
    slaves = {}
    for sid in draw(st.lists(st.sampled_from([1, 2, 17, 247, 255]), min_size=1, max_size=3, unique=True)):
        unsigned = draw(st.booleans())
        layout = draw(gen.layouts(max_blocks=4))
        slaves[str(sid)] = {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned))}
    nm = draw(st.integers(1, 3))
    lay = {int(k): v["layout"] for k, v in slaves.items()}
    steps = []
    for _ in range(draw(st.integers(1, 15))):
        k = draw(st.integers(0, 9))
        if k <= 6:
            steps.append(["call", draw(st.integers(0, nm - 1)), draw(e2e.e2e_call(lay))])
        elif k <= 8:
            sid = draw(st.sampled_from(sorted(slaves)))
            unsigned, layout = slaves[sid]["unsigned"], slaves[sid]["layout"]
            b = draw(st.integers(0, len(layout) - 1))
            size = layout[b][2]
            off = draw(st.integers(0, size - 1))
            n = draw(st.integers(1, min(size - off, 8)))
            lo, hi = (0, 1) if layout[b][0] < 3 else ((0, 0xffff) if unsigned else (-0x8000, 0x7fff))
            steps.append(["set", sid, b, off, draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))])
        else:
            steps.append([draw(st.sampled_from(["close", "reopen"])), draw(st.integers(0, nm - 1))])
    return {"slaves": slaves, "masters": nm, "steps": steps}


def strategy(tier):
    return _case()


def setup(ctx):
    from pbt import net
    ctx.store["srv"] = net.start_server()


def teardown(ctx):
    ctx.store["srv"][0].stop()


def run_case(case, ctx):
    from pbt import net, real
    from modbus_tk import modbus_tcp
    srv, addr, port = ctx.store["srv"]
    srv.remove_all_slaves()
    models, slaves = {}, {}
    for sid, d in case["slaves"].items():
        s = slaves[sid] = srv.add_slave(int(sid), unsigned=d["unsigned"])
        models[sid] = model.ModelSlave(d["unsigned"])
        real.build_slave(s, d["layout"], d["init"])
        real.build_model(models[sid], d["layout"], d["init"])
    masters = [modbus_tcp.TcpMaster(addr, port, net.WAIT) for _ in range(case["masters"])]
    wrote = set()
    try:
        for n, st_ in enumerate(case["steps"]):
            where = "step %d" % n
            if st_[0] == "call":
                c = st_[2]
                kind, res = e2e.judge(ctx, c, models[str(c["slave"])], masters[st_[1]].execute, real, where)
                if kind == "reply":
                    if c["fc"] in (1, 2, 3, 4, 23) and any(w != st_[1] for w in wrote):
                        ctx.nontrivial()
                    if c["fc"] in (5, 6, 15, 16, 22, 23):
                        wrote.add(st_[1])
            elif st_[0] == "set":
                _, sid, b, off, vals = st_
                start = case["slaves"][sid]["layout"][b][1]
                slaves[sid].set_values("b%d" % b, start + off, vals)
                models[sid].names["b%d" % b].values[off:off + len(vals)] = vals
                wrote.add("app")
            elif st_[0] == "close":
                masters[st_[1]].close()
            else:
                masters[st_[1]].close()
                masters[st_[1]].open()
            for sid in slaves:
                d = real.diff(real.snapshot(slaves[sid], case["slaves"][sid]["layout"]), models[sid].snapshot())
                engine.ensure(d is None, "after %s %r slave %s: %s", where, st_, sid, d)
    finally:
        for m in masters:
            m.close()
