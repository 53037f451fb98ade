"""Hypothesis strategies shared by the properties (memory layouts, request PDUs)."""
import struct

from hypothesis import strategies as st

REG_TYPES = (3, 4)


@st.composite
def layouts(draw, max_blocks=6, big=True, types=(1, 2, 3, 4), max_addr=65536):
    """non overlapping blocks in shuffled insertion order: [[type, start, size], ...]"""
    out = []
    for typ in draw(st.lists(st.sampled_from(types), min_size=1, max_size=len(types), unique=True)):
        n = draw(st.integers(1, max(1, max_blocks // 2)))
        base = draw(st.one_of(st.just(0), st.integers(0, 300), st.integers(65000, 65500) if max_addr > 65500 else st.just(0)))
        pos = base
        for _ in range(n):
            gap = draw(st.sampled_from([0, 0, 1, 2, 7, 30]))
            if big:
                size = draw(st.one_of(st.integers(1, 40), st.sampled_from(
                    [126, 200, 124, 123, 125, 8, 16, 17] if typ in REG_TYPES else
                    [8, 9, 2001, 2000, 1968, 1969, 2300, 7, 64])))
            else:
                size = draw(st.integers(1, 24))
            start = pos + gap
            if start >= max_addr:
                break
            size = min(size, max_addr - start)
            out.append([typ, start, size])
            pos = start + size
    return draw(st.permutations(out))


def word():
    return st.one_of(st.integers(0, 0xffff), st.sampled_from([0, 1, 0x7fff, 0x8000, 0xffff, 0xff00, 0x00ff]))


def payload(n):
    """n bytes: arbitrary, or made of runs of zero, one-bit and full bytes"""
    if n <= 0:
        return st.just(b"")
    dense = st.binary(min_size=n, max_size=n)
    sparse = st.lists(st.sampled_from([0, 0, 0, 0xff, 0xff, 1, 0x80]), min_size=min(n, 6), max_size=min(n, 6)).map(
        lambda l: bytes((l * (n // len(l) + 1))[:n]))
    return st.one_of(dense, sparse)


@st.composite
def inits(draw, layout, unsigned):
    """initial values set by the application: [[block index, offset, values], ...]"""
    out = []
    for i, (typ, start, size) in enumerate(layout):
        if not draw(st.booleans()):
            continue
        off = draw(st.integers(0, size - 1))
        n = min(size - off, draw(st.sampled_from([1, 2, 5, 20, 130])))
        raw = draw(payload(2 * n))
        vals = []
        for k in range(n):
            w = raw[2 * k] << 8 | raw[2 * k + 1]
            if typ in REG_TYPES:
                vals.append(w if unsigned or w < 0x8000 else w - 0x10000)
            else:
                vals.append(w & 1)
        out.append([i, off, vals])
    return out


@st.composite
def addr_qty(draw, layout, typ, limit):
    """an address range relative to the blocks of the given type"""
    blocks = [b for b in layout if b[0] == typ]
    if not blocks or draw(st.integers(0, 19)) == 0:
        addr = draw(st.integers(0, 0xffff))
        qty = draw(st.integers(0, limit + 2))
        return addr, qty
    _, start, size = draw(st.sampled_from(blocks))
    mode = draw(st.integers(0, 9))
    if mode <= 4:      # inside
        off = draw(st.integers(0, size - 1))
        qty = draw(st.integers(1, min(size - off, limit)))
    elif mode <= 6:    # touching the end
        qty = draw(st.integers(1, min(size, limit)))
        off = size - qty + draw(st.integers(-1, 1))
    elif mode == 7:    # around the start
        off = draw(st.integers(-2, 1))
        qty = draw(st.integers(1, min(size + 1, limit)))
    elif mode == 8:    # whole block or the limit
        off = draw(st.sampled_from([0, 0, 1]))
        qty = draw(st.sampled_from([size, size + 1, limit, limit - 1, limit + 1, 1, 8, 9]))
    else:
        off = draw(st.integers(-3, size + 3))
        qty = draw(st.one_of(st.integers(0, 20), st.sampled_from([0, limit, limit + 1, 0xffff, 256, 257])))
    return max(0, min(0xffff, start + off)), max(0, min(0xffff, qty))


SUPPORTED = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)
TABLE = {1: 1, 2: 2, 3: 3, 4: 4, 5: 1, 6: 3, 15: 1, 16: 3, 22: 3, 23: 3}
WRITES = (5, 6, 15, 16, 22, 23)


@st.composite
def request_pdu(draw, layout, fcs=SUPPORTED, other_fc=True, bad=True, wide23=False):
    """a well formed request PDU (its values may be refused)"""
    if other_fc and draw(st.integers(0, 24)) == 0:
        fc = draw(st.integers(0, 127))
        if fc not in SUPPORTED:
            return bytes([fc]) + draw(st.binary(max_size=8))
    have = set(b[0] for b in layout)
    fc = draw(st.sampled_from([f for f in fcs for _ in range(4 if TABLE.get(f) in have else 1)]))
    if fc in (1, 2, 3, 4):
        a, q = draw(addr_qty(layout, fc, 2000 if fc < 3 else 125))
        return struct.pack(">BHH", fc, a, q)
    if fc == 5:
        a, _ = draw(addr_qty(layout, 1, 3))
        v = draw(st.sampled_from([0, 0xff00, 0, 0xff00, 0xff00, 1, 0xffff, 0xff01, 0x00ff, 0x0100]))
        return struct.pack(">BHH", fc, a, v)
    if fc == 6:
        a, _ = draw(addr_qty(layout, 3, 3))
        return struct.pack(">BHH", fc, a, draw(word()))
    if fc == 7:
        return b"\x07"
    if fc == 15:
        a, q = draw(addr_qty(layout, 1, 1968))
        nb = (q + 7) // 8
        bc = nb & 0xff
        if bad and draw(st.integers(0, 14)) == 0:
            bc = draw(st.integers(0, 255)) if draw(st.booleans()) else max(0, min(255, bc + draw(st.sampled_from([-1, 1]))))
        return struct.pack(">BHHB", fc, a, q, bc) + draw(payload(bc))
    if fc == 16:
        a, q = draw(addr_qty(layout, 3, 123))
        bc = 2 * q & 0xff
        if bad and draw(st.integers(0, 14)) == 0:
            bc = draw(st.integers(0, 255)) if draw(st.booleans()) else max(0, min(255, bc + draw(st.sampled_from([-1, 1, 2, -2]))))
        return struct.pack(">BHHB", fc, a, q, bc) + draw(payload(bc))
    if fc == 22:
        a, _ = draw(addr_qty(layout, 3, 3))
        return struct.pack(">BHHH", fc, a, draw(word()), draw(word()))
    ra, rq = draw(addr_qty(layout, 3, 125))
    wa, wq = draw(addr_qty(layout, 3, 121))
    if wq in (122, 123) and not wide23:
        wq = 121        # the specification has 121, the library 123: not judged
    bc = 2 * wq & 0xff
    if bad and draw(st.integers(0, 14)) == 0:
        bc = draw(st.integers(0, 255)) if draw(st.booleans()) else max(0, min(255, bc + draw(st.sampled_from([-1, 1, 2]))))
    return struct.pack(">BHHHHB", 23, ra, rq, wa, wq, bc) + draw(payload(bc))


@st.composite
def chunks(draw, n, max_cuts=8):
    """cut positions of n bytes"""
    if n < 2:
        return []
    return sorted(draw(st.lists(st.integers(1, n - 1), max_size=max_cuts, unique=True)))


def cut(data, cuts):
    out, last = [], 0
    for c in sorted(set(c for c in cuts if 0 < c < len(data))):
        out.append(data[last:c])
        last = c
    out.append(data[last:])
    return out
