"""P28 recovery of an RTU master: generated histories of failures of the line and of the port"""
from hypothesis import strategies as st

from pbt import calls, engine, gen, model

ID = "P28"
RULE = ("a case is one RtuMaster on a serial port which is open or not, with or without echo, and 3-10 steps: working exchange, no "
        "answer, answer after the call gave up, noise, damaged or cut answer, Modbus error, a read / write / flush / buffer reset / "
        "open which raises (the port staying open or not), the port closed by somebody else, the application opening or closing the "
        "master; non-trivial = at least two kinds of failure were reported and a working exchange succeeded after each")
EXAMPLES = {"quick": 1500, "thorough": 40000}
ASSUMPTIONS = ["the serial port is a pyserial-like stand-in: everything but close raises while it is closed, open raises while it is open",
               "once the port itself was lost, the application closes the master before it goes on, or the next call reports the loss"]
FCS = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)


@st.composite
def _step(draw):
    op = draw(st.sampled_from(["good"] * 8 + ["silent", "late", "late", "noise", "damaged", "cut", "exc", "fail", "fail", "fail", "lost",
                                             "lost", "openfail", "openfail", "close", "close", "open"]))
    s = {"op": op}
    if op in ("close", "open", "lost"):
        return s
    if op == "noise":
        s["data"] = draw(st.binary(min_size=1, max_size=40)).hex()
        return s
    c = draw(calls.call(fcs=FCS))
    c.pop("raw", None)
    resp = draw(calls.response(c))
    if op == "exc":
        resp = bytes([c["fc"] | 0x80, draw(st.integers(1, 11))])
    s.update(call=c, resp=resp.hex())
    n = len(resp) + 3
    s["cuts"] = draw(gen.chunks(n, 4))
    if op == "damaged":
        s["bit"] = draw(st.integers(0, 8 * n - 1))
    elif op == "cut":
        s["at"] = draw(st.integers(1, n - 1))
    elif op == "fail":
        s["where"] = draw(st.sampled_from(["read", "read", "write", "write", "flush", "reset_input_buffer", "reset_output_buffer"]))
        s["at"] = draw(st.integers(0, n - 1))
        s["closes"] = draw(st.integers(0, 2)) == 0      # the port closes itself as it fails
        s["rest"] = draw(st.booleans())                 # what had not been read arrives later
    elif op == "openfail":
        s["n"] = draw(st.integers(1, 2))
        s["how"] = draw(st.sampled_from(["lost", "close", "close", "none"]))
    return s


def strategy(tier):
    return st.fixed_dictionaries({"open": st.booleans(), "echo": st.booleans(), "sw": st.integers(0, 3).map(lambda n: n == 0),
                                  "steps": st.lists(_step(), min_size=3, max_size=10)})


def make_port(is_open):
    from pbt import fakeserial

    class Strict(fakeserial.Port):
        failing = None
        closes_itself = False
        asked = ()              # the timeouts in force when something was read

        def _fails(self, where):
            self._check()
            if self.failing == where:
                self.failing = None
                if self.closes_itself:
                    self.is_open = False
                raise OSError("%s failed" % where)

        def open(self):
            if self.is_open:
                raise OSError("Port is already open.")
            fakeserial.Port.open(self)
            self.rx.clear()

        def read(self, size=1):
            try:
                return fakeserial.Port.read(self, size)
            except OSError:
                if self.closes_itself:
                    self.is_open = False
                raise

        def write(self, data):
            self._fails("write")
            return fakeserial.Port.write(self, data)

        def flush(self):
            self._fails("flush")

        def reset_input_buffer(self):
            self._fails("reset_input_buffer")
            fakeserial.Port.reset_input_buffer(self)

        def reset_output_buffer(self):
            self._fails("reset_output_buffer")
    return Strict(is_open=is_open)


def run_case(case, ctx):
    from pbt import fakeserial, real
    from modbus_tk import modbus_rtu
    port = make_port(case["open"])
    m = modbus_rtu.RtuMaster(port)
    m.handle_local_echo = case["echo"]
    if case["sw"]:
        m.set_timeout(600.0, use_sw_timeout=True)
    ensure = engine.ensure
    script = {"items": []}

    def on_write(data):
        if case["echo"]:
            port.feed([data])
        port.feed(script["items"])
    port.on_write = on_write
    used = [False]      # the master has opened the port (or found it open) and not closed it since
    lost = False        # the port may have been closed under the master
    stray = []          # bytes on the line at the next call
    failed, recovered = set(), set()

    def call(c, items):
        script["items"] = items
        if stray and port.is_open:
            port.feed([b"".join(stray)])
        del stray[:]
        nw = len(port.written)
        try:
            res, err = m.execute(**calls.kwargs(c)), None
        except Exception as e:
            res, err = None, e
        sent = port.written[nw:]
        if sent:
            used[0] = True
        ensure(len(sent) <= 1 and (err is not None or len(sent) == 1), "the call %r sent %d frames", c, len(sent))
        for data in sent:
            ensure(data == model.rtu_frame(c["slave"], calls.encode(c)), "the call %r sent %s", c, data.hex())
        left = b"".join(x for x in port.rx if isinstance(x, bytes))
        port.rx.clear()
        port.failing, port.closes_itself = None, False
        return res, err, left

    good = {"op": "good", "call": {"fc": 3, "slave": 1, "addr": 7, "qty": 2}, "resp": "030412345678", "cuts": []}
    for n, s in enumerate(case["steps"] + [good]):
        op = s["op"]
        where = "step %d %r" % (n, s)
        ctx.label(op + (" " + s["where"] if op == "fail" else ""))
        if op == "close":
            m.close()
            ensure(not port.is_open or not used[0], "%s: the master was closed and the port is open", where)
            used[0] = False
            lost = False
        elif op == "open":
            try:
                m.open()
            except Exception as e:
                raise engine.Violation("%s: open raised %r" % (where, e))
            ensure(port.is_open or lost, "%s: the master was opened and the port is not", where)
            used[0] = used[0] or not lost
        elif op == "lost":
            port.close()
            lost = True
        elif op == "noise":
            stray.append(bytes.fromhex(s["data"]))
        else:
            c, resp = s["call"], bytes.fromhex(s["resp"])
            reply = model.rtu_frame(c["slave"], resp)
            items = [x for x in gen.cut(reply, s["cuts"]) if x]
            if op in ("good", "exc"):
                res, err, left = call(c, items)
                if lost and err is not None and not isinstance(err, real.mexc.ModbusError):
                    # this call reports that the port is gone
                    m.close()
                    lost = False
                    res, err, left = call(c, items)
                    where += " after close"
                if op == "good":
                    ensure(err is None and calls.same(res, calls.result(c, resp)), "%s: the line works and the call gave %r / %r",
                           where, res, err)
                    recovered.update(failed)
                else:
                    ensure(isinstance(err, real.mexc.ModbusError) and err.get_exception_code() == resp[1],
                           "%s: gave %r / %r", where, res, err)
                lost = False
                continue
            if op in ("silent", "late"):
                items = []
            elif op == "damaged":
                b = bytearray(reply)
                b[s["bit"] // 8] ^= 1 << s["bit"] % 8
                items = [bytes(b)]
            elif op == "cut":
                items = [x for x in gen.cut(reply[:s["at"]], [k for k in s["cuts"] if k < s["at"]]) if x]
            elif op == "fail":
                port.closes_itself = s["closes"]
                if s["where"] == "read":
                    items = [x for x in (reply[:s["at"]],) if x] + [fakeserial.FAIL]
                else:
                    port.failing = s["where"]
            elif op == "openfail":
                if s["how"] == "close":
                    m.close()
                elif s["how"] == "lost":
                    port.close()
                if s["how"] != "none":
                    lost = s["how"] == "lost"
                was_open = port.is_open
                port.open_failures = s["n"]
                for k in range(s["n"]):
                    res, err, left = call(c, items)
                    if was_open:
                        break
                    ensure(err is not None, "%s: the port cannot be opened and the call returned %r", where, res)
                    failed.add("open")
                    if lost:
                        m.close()
                port.open_failures = 0
                continue
            res, err, left = call(c, items)
            ensure(err is not None, "%s: the exchange failed and the call returned %r", where, res)
            if op == "cut" or op == "damaged":
                ensure(not isinstance(err, real.mexc.ModbusError), "%s: reported %r as sent by the slave", where, err)
            if op == "fail":
                if s["closes"] and not port.is_open:
                    lost = True     # otherwise it was not lost: the next call has to work
                if s["rest"] and s["where"] == "read":
                    stray.append(reply[s["at"]:])
            elif op == "late":
                stray.append(reply)
            failed.add(op + (" " + s["where"] if op == "fail" else ""))
    m.close()
    ensure(not port.is_open, "the master was closed and the port is open")
    if len(recovered) >= 2:
        ctx.nontrivial()
