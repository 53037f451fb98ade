"""P12 TCP server framing: generated segmentation, interleaving and pipelining over several connections"""
import struct
import time

from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P12"
RULE = ("a case is 1-4 raw connections to one TcpServer, each with its own slave and a stream of 1-8 requests (some to a shared "
        "read-only slave or an unknown id) with generated transaction ids, cut in segments, interleaved and pipelined without "
        "waiting for replies; non-trivial = some segment ended inside a frame and some contained parts of two frames")
EXAMPLES = {"quick": 500, "thorough": 12000}
CASE_TIMEOUT = 150
ASSUMPTIONS = ["a frame is completed within half a second (the server gives up on a frame after 1 s of silence); slower cases "
               "are discarded"]
SHARED = 99


@st.composite
def _case(draw):
    n = draw(st.integers(1, 4))
    lay = {}
    slaves = {}
    for i in list(range(1, n + 1)) + [SHARED]:
        unsigned = draw(st.booleans())
        layout = draw(gen.layouts(max_blocks=4, big=draw(st.booleans())))
        slaves[str(i)] = {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned))}
        lay[i] = layout
    streams = []
    for i in range(1, n + 1):
        reqs = []
        for _ in range(draw(st.integers(1, 8))):
            k = draw(st.integers(0, 9))
            unit = i if k <= 6 else SHARED if k <= 8 else draw(st.sampled_from([200, 50, 255]))
            fcs = (1, 2, 3, 4, 7) if unit == SHARED else gen.SUPPORTED
            pdu = draw(gen.request_pdu(lay.get(unit, lay[i]), fcs=fcs, other_fc=unit != SHARED))
            reqs.append({"tid": draw(st.one_of(st.integers(0, 0xffff), st.sampled_from([0, 0xffff, 0x0100, 1]))),
                         "pid": draw(st.sampled_from([0, 0, 0, 0, 1, 0xff00])), "unit": unit, "pdu": pdu.hex()})
            if draw(st.integers(0, 7)) == 0:        # the same bytes again, now or later
                reqs.append(dict(draw(st.sampled_from(reqs[-2:]))) if draw(st.booleans()) else dict(reqs[-1]))
        streams.append(reqs)
    sends = draw(st.lists(st.tuples(st.integers(0, n - 1), st.one_of(
        st.integers(1, 16), st.integers(1, 300), st.just(7), st.just(6), st.just(8), st.just(12))), max_size=24))
    tail = []       # afterwards: the memory is changed by the application, then a request sent before is repeated
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 4]))):
        i = draw(st.integers(0, n - 1))
        j = draw(st.one_of(st.just(-1), st.integers(0, len(streams[i]) - 1)))
        unit = str(streams[i][j]["unit"])
        chg = draw(gen.inits(slaves[unit]["layout"], slaves[unit]["unsigned"])) if unit in slaves else []
        tail.append([i, j, chg])
    return {"slaves": slaves, "streams": streams, "sends": [list(s) for s in sends], "tail": tail}


def strategy(tier):
    return _case()


def setup(ctx):
    from pbt import net
    ctx.store["srv"] = net.start_server()


def teardown(ctx):
    ctx.store["srv"][0].stop()


def frame(r):
    pdu = bytes.fromhex(r["pdu"])
    return struct.pack(">HHHB", r["tid"], r["pid"], len(pdu) + 1, r["unit"]) + pdu


def run_case(case, ctx):
    from pbt import net, real
    srv, addr, port = ctx.store["srv"]
    srv.remove_all_slaves()
    models, slaves = {}, {}
    for sid, d in case["slaves"].items():
        s = slaves[sid] = srv.add_slave(int(sid), unsigned=d["unsigned"])
        models[sid] = model.ModelSlave(d["unsigned"])
        real.build_slave(s, d["layout"], d["init"])
        real.build_model(models[sid], d["layout"], d["init"])
    conns = [net.Raw(addr, port) for _ in case["streams"]]
    try:
        data = [b"".join(frame(r) for r in reqs) for reqs in case["streams"]]
        ends = []
        for reqs in case["streams"]:
            p, e = 0, set()
            for r in reqs:
                p += len(frame(r))
                e.add(p)
            ends.append(e)
        pos = [0] * len(conns)
        since = [None] * len(conns)
        late = inside = two = False
        plan = case["sends"] + [[i, 1 << 20] for i in range(len(conns))]
        for i, n in plan:
            piece = data[i][pos[i]:pos[i] + n]
            if not piece:
                continue
            conns[i].send(piece)
            now = time.time()
            if since[i] is not None and now - since[i] > 0.5:
                late = True
            start, pos[i] = pos[i], pos[i] + len(piece)
            if pos[i] in ends[i]:
                since[i] = None
            else:
                inside = True
                if since[i] is None or any(start < e < pos[i] for e in ends[i]):
                    since[i] = now
            if any(start < e < pos[i] for e in ends[i]):
                two = True
        if late:
            ctx.label("discarded: slow host")
            return
        def answered(i, r, where):
            pdu = bytes.fromhex(r["pdu"])
            ms = models.get(str(r["unit"]))
            if ms is None:
                ctx.label("unknown id")
                return
            out = ms.judge(pdu)
            try:
                tid, pid, unit, resp = conns[i].recv_frame()
            except net.Closed as e:
                raise engine.Violation("%s: %s" % (where, e))
            ctx.label("%s fc%s" % (out.kind, pdu[0] if pdu[0] in gen.SUPPORTED else " other"))
            engine.ensure((tid, pid, unit) == (r["tid"], r["pid"], r["unit"]),
                          "%s: reply carries tid %d pid %d unit %d", where, tid, pid, unit)
            real.check_response(out, resp, where)
            if out.kind == "reply":
                ms.apply(out)
        for i, reqs in enumerate(case["streams"]):
            for n, r in enumerate(reqs):
                answered(i, r, "connection %d request %d %r" % (i, n, r))
        for n, (i, j, chg) in enumerate(case.get("tail", [])):
            r = case["streams"][i][j]
            unit = str(r["unit"])
            for b, off, values in chg:
                slaves[unit].set_values("b%d" % b, case["slaves"][unit]["layout"][b][1] + off, values)
                models[unit].names["b%d" % b].values[off:off + len(values)] = values
            conns[i].send(frame(r))
            ctx.label("repeated later")
            answered(i, r, "connection %d repeat %d of %r" % (i, n, r))
        for i, c in enumerate(conns):      # nothing more came: the next reply is that of a probe
            c.send(model.tcp_frame(0x5a5a, SHARED, b"\x07"))
            try:
                got = c.recv_frame()
            except net.Closed as e:
                raise engine.Violation("connection %d: no reply to the probe: %s" % (i, e))
            engine.ensure(got == (0x5a5a, 0, SHARED, b"\x07\x00"), "connection %d: surplus reply %r", i, got)
        for sid in slaves:
            d = real.diff(real.snapshot(slaves[sid], case["slaves"][sid]["layout"]), models[sid].snapshot())
            engine.ensure(d is None, "slave %s: %s", sid, d)
        if inside and two:
            ctx.nontrivial()
    finally:
        for c in conns:
            c.close()
