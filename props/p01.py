"""P01 slave request semantics: model-based histories of request PDUs against pbt.model"""
from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P01"
RULE = ("a case is a slave (signed/unsigned, 1-6 blocks in shuffled insertion order) and 1-12 well-formed request PDUs "
        "aimed at block edges and protocol limits; non-trivial = at least one write was executed and at least one later "
        "request returned data")
EXAMPLES = {"quick": 1500, "thorough": 40000}
ASSUMPTIONS = ["register values set by the application fit 16 bits of the slave's signedness",
               "write quantities 122/123 of function 23 are not pinned"]


@st.composite
def _case(draw):
    unsigned = draw(st.booleans())
    layout = draw(gen.layouts())
    return {"unsigned": unsigned, "layout": layout, "init": draw(gen.inits(layout, unsigned)),
            "ops": [p.hex() for p in draw(st.lists(gen.request_pdu(layout), min_size=1, max_size=12))]}


def strategy(tier):
    return _case()


def run_case(case, ctx):
    from pbt import real
    slave = real.modbus.Slave(1, unsigned=case["unsigned"])
    ms = model.ModelSlave(case["unsigned"])
    real.build_slave(slave, case["layout"], case["init"])
    real.build_model(ms, case["layout"], case["init"])
    wrote = False
    for n, op in enumerate(case["ops"]):
        pdu = bytes.fromhex(op)
        out = ms.judge(pdu)
        ctx.label("%s fc%s" % (out.kind, pdu[0] if pdu[0] in gen.SUPPORTED else "other"))
        resp = slave.handle_request(pdu)
        where = "request %d (%s)" % (n, op[:60])
        real.check_response(out, resp, where)
        if out.kind == "reply":
            if wrote and pdu[0] in (1, 2, 3, 4, 23):
                ctx.nontrivial()
            ms.apply(out)
            wrote = wrote or bool(out.writes)
        elif out.kind == "exc":
            engine.ensure(resp[0] == pdu[0] | 0x80, "%s: exception response with function %d", where, resp[0])
        elif out.kind == "loose":
            if resp and resp[0] < 0x80:
                real.check_response(model.Outcome("reply", out.reply), resp, where)
                ms.apply(out)
        d = real.diff(real.snapshot(slave, case["layout"]), ms.snapshot())
        engine.ensure(d is None, "after %s: %s", where, d)
