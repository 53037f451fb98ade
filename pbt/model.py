"""Reference model of a Modbus slave, written from the Modbus application protocol specification
(V1.1b3) and the library's documented API.  It shares no code with modbus_tk.

A request PDU is judged into one of:
    reply   well formed and executable: exact response bytes, and the writes it performs
    exc     well formed but refused: any code of the set is right, nothing is written
    short   fewer bytes than its function needs / declares: nothing is written, reply not pinned
    surplus more bytes than its function needs: the reply is not pinned; memory either unchanged
            or exactly as if the surplus bytes were absent
    loose   the specification and the code leave the outcome open (write quantity 122/123 of
            function 23, function codes above 127): all or nothing
"""
import struct

COILS, DISCRETE, HOLDING, INPUT = 1, 2, 3, 4
READ_TYPES = {1: COILS, 2: DISCRETE, 3: HOLDING, 4: INPUT}


class Block(object):
    def __init__(self, name, typ, start, size):
        self.name, self.typ, self.start = name, typ, start
        self.values = [0] * size

    @property
    def size(self):
        return len(self.values)

    def covers(self, addr, n):
        return addr >= self.start and addr + n <= self.start + len(self.values)


class Outcome(object):
    def __init__(self, kind, reply=None, codes=None, writes=(), why=""):
        self.kind, self.reply, self.codes, self.writes, self.why = kind, reply, codes, list(writes), why

    def __repr__(self):
        return "<%s reply=%s codes=%s writes=%d %s>" % (
            self.kind, self.reply.hex() if self.reply else None, self.codes, len(self.writes), self.why)


class ModelSlave(object):
    def __init__(self, unsigned=True, shared=None):
        self.unsigned = unsigned
        self.tables = {1: [], 2: [], 3: [], 4: []}
        self.names = {}
        # shared: {type: type} tables which are the same storage
        for a, b in (shared or {}).items():
            self.tables[a] = self.tables[b]

    # -- configuration ----------------------------------------------------------------------
    def add_block(self, name, typ, start, size):
        b = Block(name, typ, start, size)
        self.names[name] = b
        self.tables[typ].append(b)
        return b

    def find(self, typ, addr, n):
        for b in self.tables[typ]:
            if b.covers(addr, n):
                return b
        return None

    def to_reg(self, word):
        """16 bit word on the wire -> value as the application sees it"""
        if not self.unsigned and word > 0x7fff:
            return word - 0x10000
        return word

    def snapshot(self):
        return {name: list(b.values) for name, b in self.names.items()}

    # -- requests ---------------------------------------------------------------------------
    def judge(self, pdu):
        pdu = bytes(pdu)
        if not pdu:
            return Outcome("short", why="empty")
        fc = pdu[0]
        if fc >= 0x80:
            return Outcome("loose", why="function code above 127")
        fn = getattr(self, "_fc%d" % fc, None)
        if fn is None:
            return Outcome("exc", codes={1}, why="unsupported function")
        return fn(pdu)

    def apply(self, outcome):
        for b, i, v in outcome.writes:
            b.values[i] = v

    def _exc(self, addr_bad, value_bad):
        codes = set()
        if addr_bad:
            codes.add(2)
        if value_bad:
            codes.add(3)
        return Outcome("exc", codes=codes, why="refused")

    @staticmethod
    def _len(pdu, n):
        if len(pdu) < n:
            return Outcome("short", why="%d bytes of %d" % (len(pdu), n))
        return None

    def _finish(self, pdu, n, out):
        if len(pdu) > n and out.kind != "short":
            out = Outcome("surplus", writes=out.writes, why="surplus bytes")
        return out

    def _read(self, pdu, limit, pack):
        short = self._len(pdu, 5)
        if short:
            return short
        fc, addr, qty = struct.unpack(">BHH", pdu[:5])
        b = self.find(READ_TYPES[fc], addr, qty)
        if b is None or not 1 <= qty <= limit:
            return self._finish(pdu, 5, self._exc(b is None, not 1 <= qty <= limit))
        data = pack(b.values[addr - b.start: addr - b.start + qty])
        return self._finish(pdu, 5, Outcome("reply", bytes([fc, len(data)]) + data))

    @staticmethod
    def pack_bits(values):
        n = 0
        for i, v in enumerate(values):
            if v:
                n |= 1 << i
        return n.to_bytes((len(values) + 7) // 8, "little")

    @staticmethod
    def pack_regs(values):
        return b"".join((v & 0xffff).to_bytes(2, "big") for v in values)

    def _fc1(self, pdu):
        return self._read(pdu, 2000, self.pack_bits)

    _fc2 = _fc1

    def _fc3(self, pdu):
        return self._read(pdu, 125, self.pack_regs)

    _fc4 = _fc3

    def _fc5(self, pdu):
        short = self._len(pdu, 5)
        if short:
            return short
        addr, val = struct.unpack(">HH", pdu[1:5])
        b = self.find(COILS, addr, 1)
        if b is None or val not in (0, 0xff00):
            return self._finish(pdu, 5, self._exc(b is None, val not in (0, 0xff00)))
        return self._finish(pdu, 5, Outcome("reply", pdu[:5], writes=[(b, addr - b.start, 1 if val else 0)]))

    def _fc6(self, pdu):
        short = self._len(pdu, 5)
        if short:
            return short
        addr, val = struct.unpack(">HH", pdu[1:5])
        b = self.find(HOLDING, addr, 1)
        if b is None:
            return self._finish(pdu, 5, self._exc(True, False))
        return self._finish(pdu, 5, Outcome("reply", pdu[:5], writes=[(b, addr - b.start, self.to_reg(val))]))

    def _fc7(self, pdu):
        return self._finish(pdu, 1, Outcome("reply", b"\x07\x00"))

    def _write_many(self, pdu, typ, limit, nbytes, decode):
        short = self._len(pdu, 6)
        if short:
            return short
        fc, addr, qty, bc = struct.unpack(">BHHB", pdu[:6])
        if len(pdu) < 6 + bc:
            return Outcome("short", why="payload shorter than declared")
        ok = 1 <= qty <= limit and bc == nbytes(qty)
        b = self.find(typ, addr, qty)
        if b is None or not ok:
            return self._finish(pdu, 6 + bc, self._exc(b is None, not ok))
        vals = decode(pdu[6:6 + bc], qty)
        w = [(b, addr - b.start + i, v) for i, v in enumerate(vals)]
        return self._finish(pdu, 6 + bc, Outcome("reply", pdu[:5], writes=w))

    @staticmethod
    def _dec_bits(data, qty):
        n = int.from_bytes(data, "little")
        return [(n >> i) & 1 for i in range(qty)]

    def _dec_regs(self, data, qty):
        return [self.to_reg(int.from_bytes(data[2 * i:2 * i + 2], "big")) for i in range(qty)]

    def _fc15(self, pdu):
        return self._write_many(pdu, COILS, 1968, lambda q: (q + 7) // 8, self._dec_bits)

    def _fc16(self, pdu):
        return self._write_many(pdu, HOLDING, 123, lambda q: 2 * q, self._dec_regs)

    def _fc22(self, pdu):
        short = self._len(pdu, 7)
        if short:
            return short
        addr, am, om = struct.unpack(">HHH", pdu[1:7])
        b = self.find(HOLDING, addr, 1)
        if b is None:
            return self._finish(pdu, 7, self._exc(True, False))
        i = addr - b.start
        cur = b.values[i] & 0xffff
        new = ((cur & am) | (om & ~am)) & 0xffff
        return self._finish(pdu, 7, Outcome("reply", pdu[:7], writes=[(b, i, self.to_reg(new))]))

    def _fc23(self, pdu):
        short = self._len(pdu, 10)
        if short:
            return short
        ra, rq, wa, wq, bc = struct.unpack(">HHHHB", pdu[1:10])
        if len(pdu) < 10 + bc:
            return Outcome("short", why="payload shorter than declared")
        ok = 1 <= rq <= 125 and 1 <= wq <= 123 and bc == 2 * wq
        rb, wb = self.find(HOLDING, ra, rq), self.find(HOLDING, wa, wq)
        if rb is None or wb is None or not ok:
            return self._finish(pdu, 10 + bc, self._exc(rb is None or wb is None, not ok))
        vals = self._dec_regs(pdu[10:10 + bc], wq)
        w = [(wb, wa - wb.start + i, v) for i, v in enumerate(vals)]
        # the write is performed before the read
        old = list(wb.values)
        for b, i, v in w:
            b.values[i] = v
        data = self.pack_regs(rb.values[ra - rb.start: ra - rb.start + rq])
        wb.values[:] = old
        out = Outcome("reply", bytes([23, len(data)]) + data, writes=w)
        if wq > 121:
            out.kind = "loose"
            out.why = "write quantity 122/123 of function 23"
        return self._finish(pdu, 10 + bc, out)


def crc16(data):
    """bitwise Modbus CRC-16 (poly 0xA001 reflected, init 0xffff); returns the number"""
    crc = 0xffff
    for byte in bytes(data):
        crc ^= byte
        for _ in range(8):
            crc = (crc >> 1) ^ 0xa001 if crc & 1 else crc >> 1
    return crc


def rtu_frame(addr, pdu):
    body = bytes([addr]) + bytes(pdu)
    c = crc16(body)
    return body + bytes([c & 0xff, c >> 8])


def tcp_frame(tid, unit, pdu, pid=0, length=None):
    pdu = bytes(pdu)
    return struct.pack(">HHHB", tid, pid, len(pdu) + 1 if length is None else length, unit) + pdu
