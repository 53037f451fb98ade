"""P04 master encoding: generated calls on TCP and RTU masters, bytes compared with an independent encoder"""
from hypothesis import strategies as st

from pbt import calls, engine

ID = "P04"
RULE = ("a case is 1-8 calls (valid, or with one argument pushed out of its domain) on one TCP or RTU master whose line "
        "records the bytes; non-trivial = a valid call with a payload (bits, registers, format, files, raw) was sent")
EXAMPLES = {"quick": 2000, "thorough": 60000}
ASSUMPTIONS = ["quantities above the protocol limits but inside 16 bits are passed on by the master and are not pinned"]

BAD16 = st.sampled_from([-1, 65536, 70000, -40000, 1 << 20])


@st.composite
def _break(draw, c):
    """push one argument of a valid call outside its domain"""
    fc = c["fc"]
    opts = ["slave"]
    if fc in (1, 2, 3, 4, 23):
        opts += ["qty"] * 2
    if fc in (1, 2, 3, 4, 5, 6, 8, 15, 16, 22, 23):
        opts += ["addr"] * 2
    if fc == 6:
        opts += ["out"] * 3
    if fc in (16, 23) and "fmt" not in c or fc == 23:
        opts += ["outlist"] * 2 + ["long"]
    if fc == 15:
        opts += ["long"]
    if fc == 22:
        opts += ["am", "om"]
    if fc == 23:
        opts += ["waddr"]
    if fc == 20:
        opts += ["shape"] * 2 + ["item"]
    opts += ["fc"]
    k = draw(st.sampled_from(opts))
    c = dict(c)
    if k == "slave":
        c["slave"] = draw(st.sampled_from([-1, 256, 300, 1000, -200]))
    elif k in ("addr", "qty", "waddr", "am", "om"):
        c[k] = draw(BAD16)
        if k == "qty":
            c.pop("fmt", None)
    elif k == "out":
        c["out"] = draw(st.sampled_from([65536, -32769, 100000, -70000]))
    elif k == "outlist":
        out = list(c["out"])
        out[draw(st.integers(0, len(out) - 1))] = draw(st.sampled_from([65536, -32769, 100000, -70000]))
        c["out"] = out
    elif k == "long":
        c["out"] = [1] * (2041 if fc == 15 else 128)
    elif k == "shape":
        which = draw(st.sampled_from(["addr", "qty", "files"]))
        c[which] = c[which][:-1] if draw(st.booleans()) else c[which] + [1]
    elif k == "item":
        which = draw(st.sampled_from(["addr", "qty", "files"]))
        c[which] = [draw(BAD16)] + c[which][1:]
    elif k == "fc":
        c["fc"] = draw(st.sampled_from([9, 10, 11, 12, 13, 14, 17, 18, 19, 21, 24, 42, 44, 65, 100, 127, 128, 255, -1]))
    return {"bad": k, "call": c}


@st.composite
def _step(draw):
    c = draw(calls.call(slaves=st.one_of(calls.slave_id, st.sampled_from([0, 0, 255]))))
    if draw(st.integers(0, 3)) == 0:
        return draw(_break(c))
    return {"bad": None, "call": c}


def strategy(tier):
    return st.fixed_dictionaries({"kind": st.sampled_from(["tcp", "rtu"]),
                                  "steps": st.lists(_step(), min_size=1, max_size=8)})


def run_case(case, ctx):
    from pbt import masters, real
    m = masters.make(case["kind"])
    for n, s in enumerate(case["steps"]):
        c = s["call"]
        where = "%s call %d %r" % (case["kind"], n, c)
        m.sent[:] = []
        err = None
        try:
            m.execute(**calls.kwargs(c))
        except Exception as e:
            err = e
        if s["bad"]:
            ctx.label("bad " + s["bad"])
            engine.ensure(not m.sent, "%s: invalid %s, but %s was sent", where, s["bad"],
                          m.sent[0].hex() if m.sent else "")
            engine.ensure(err is not None, "%s: invalid %s did not raise", where, s["bad"])
            if s["bad"] == "fc":
                engine.ensure(isinstance(err, real.mexc.ModbusFunctionNotSupportedError),
                              "%s: unsupported function raised %r", where, err)
            continue
        ctx.label("fc%d" % c["fc"])
        engine.ensure(len(m.sent) == 1, "%s: %d frames were sent (error %r)", where, len(m.sent), err)
        frame = m.sent[0]
        want = calls.encode(c)
        got = m.unwrap(frame)
        engine.ensure(got is not None, "%s: envelope of %s is wrong", where, frame.hex())
        engine.ensure(got[0] == c["slave"], "%s: sent to slave %d", where, got[0])
        engine.ensure(got[1] == want, "%s: sent pdu %s, expected %s", where, got[1].hex(), want.hex())
        if c["fc"] in (15, 16, 20, 23, 0):
            ctx.nontrivial()
