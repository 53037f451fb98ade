"""P03 block bookkeeping: stateful histories of the slave configuration API against a dictionary model"""
import struct

from hypothesis import strategies as st

from pbt import engine, gen, model

ID = "P03"
RULE = ("a case is a history of 1-25 add_block/remove_block/remove_all_blocks/set_values/get_values/wire reads with few "
        "names and addresses so that overlaps, adjacency and reuse are frequent; non-trivial = an add was refused for "
        "overlap alone, a block was inserted before another one, and a value was stored and read back")
EXAMPLES = {"quick": 1500, "thorough": 60000}
NAMES = ["a", "b", "c", "d", "e", "f"]


@st.composite
def _case(draw):
    """a history; the generator follows the live blocks so that most operations hit one of them"""
    live = {}       # name -> (type, start, size)
    ops = []
    for _ in range(draw(st.integers(1, 25))):
        k = draw(st.sampled_from(["add"] * 8 + ["rm"] * 2 + ["set"] * 5 + ["get"] * 3 + ["wire"] * 5 + ["wwire"] * 2 + ["clear"]))
        free = [n for n in NAMES if n not in live]
        if k == "add":
            name = draw(st.sampled_from(free)) if free and draw(st.integers(0, 6)) else draw(st.sampled_from(NAMES))
            typ = draw(st.sampled_from([3] * 9 + [1, 1, 2, 4, 4] + [draw(st.sampled_from([3, 0, 5, -1]))]))
            size = draw(st.sampled_from([1, 2, 5, 10, 10, 10, 11, 20, 30, 30, 100]))
            same = [b for b in live.values() if b[0] == typ]
            how = draw(st.integers(0, 9))
            if same and how <= 7:
                # next to, inside or around an existing block
                _, s, z = draw(st.sampled_from(same))
                addr = max(0, draw(st.sampled_from([s - size, s + z, s - size - 1, s + z + 1, s - size + 1, s + z - 1, s, s - 1,
                                                    s + 1, s + z + 40, s + z + 90, s - 40 - size, s - size, s + z])))
            else:
                addr = draw(st.one_of(st.integers(0, 300), st.integers(0, 12).map(lambda x: 10 * x)))
            odd = draw(st.integers(0, 30))
            if odd == 0:
                addr = draw(st.sampled_from([-1, -5, 65535, 65530, 100000]))
            elif odd == 1:
                size = draw(st.sampled_from([0, -1]))
            ops.append([k, name, typ, addr, size])
            if (name not in live and typ in (1, 2, 3, 4) and size > 0 and addr >= 0 and not any(
                    b[0] == typ and b[1] < addr + size and addr < b[1] + b[2] for b in live.values())):
                live[name] = (typ, addr, size)
            continue
        if k == "clear":
            ops.append([k])
            live.clear()
            continue
        name = draw(st.sampled_from(sorted(live) if live and draw(st.integers(0, 12)) else NAMES))
        typ, start, size = live.get(name, (3, draw(st.integers(0, 50)), 5))
        n = draw(st.one_of(st.integers(1, min(size, 30)), st.sampled_from([1, 1, 2, min(size, 110), min(size, 110) + 1])))
        if draw(st.integers(0, 9)) < 6 and n <= size:
            addr = start + draw(st.integers(0, size - n))
        else:
            addr = start + draw(st.one_of(st.sampled_from([0, size - n, size - n + 1, -1, size - 1, size]),
                                          st.integers(-2, size + 2)))
        if k == "rm":
            ops.append([k, name])
            live.pop(name, None)
        elif k == "set":
            if draw(st.integers(0, 4)) == 0:
                vals = draw(st.integers(0, 0xffff))
            else:
                vals = draw(st.lists(st.integers(0, 0xffff), min_size=n, max_size=n))
            ops.append([k, name, addr, vals, draw(st.booleans())])
        elif k == "get":
            ops.append([k, name, addr, n])
        elif k == "wwire":
            ops.append([k, max(0, min(0xffff, addr)), draw(st.integers(0, 0xffff))])
        else:
            ops.append([k, typ, max(0, min(0xffff, addr)), n])
    return {"ops": ops}


def strategy(tier):
    return _case()


def _try(fn):
    try:
        return fn(), None
    except Exception as e:      # the class is judged below
        return None, e


def run_case(case, ctx):
    from pbt import real
    x = real.mexc
    slave = real.modbus.Slave(1)
    ms = model.ModelSlave()
    overlap_refused = disordered = stored = False

    def expect(err, allowed, where):
        if not allowed:
            if err is not None:
                raise engine.Violation("%s raised %s: %s" % (where, type(err).__name__, err))
        elif err is None:
            raise engine.Violation("%s was accepted, expected %s" % (where, [c.__name__ for c in allowed]))
        elif not isinstance(err, tuple(allowed)):
            raise engine.Violation("%s raised %s (%s), expected %s" % (
                where, type(err).__name__, err, [c.__name__ for c in allowed]))

    for n, op in enumerate(case["ops"]):
        where = "op %d %r" % (n, op)
        k = op[0]
        if k == "add":
            _, name, typ, addr, size = op
            allowed = []
            if size <= 0 or addr < 0:
                allowed.append(x.InvalidArgumentError)
            if name in ms.names:
                allowed.append(x.DuplicatedKeyError)
            if typ not in (1, 2, 3, 4):
                allowed.append(x.InvalidModbusBlockError)
            elif size > 0 and any(b.start < addr + size and addr < b.start + b.size for b in ms.tables[typ]):
                allowed.append(x.OverlapModbusBlockError)
                if len(allowed) == 1:
                    overlap_refused = True
            _, err = _try(lambda: slave.add_block(name, typ, addr, size))
            expect(err, allowed, where)
            ctx.label("add " + ("refused" if allowed else "ok"))
            if not allowed:
                if any(b.start > addr for b in ms.tables[typ]):
                    disordered = True
                ms.add_block(name, typ, addr, size)
        elif k == "rm":
            _, err = _try(lambda: slave.remove_block(op[1]))
            expect(err, [] if op[1] in ms.names else [x.MissingKeyError], where)
            if err is None:
                b = ms.names.pop(op[1])
                ms.tables[b.typ].remove(b)
        elif k == "clear":
            slave.remove_all_blocks()
            ms.names.clear()
            for t in ms.tables:
                ms.tables[t] = []
        elif k == "set":
            _, name, addr, vals, astuple = op
            lst = vals if isinstance(vals, list) else [vals]
            b = ms.names.get(name)
            if b is None:
                allowed = [x.MissingKeyError]
            else:
                allowed = [] if b.covers(addr, len(lst)) else [x.OutOfModbusBlockError]
            arg = tuple(vals) if isinstance(vals, list) and astuple else (list(vals) if isinstance(vals, list) else vals)
            _, err = _try(lambda: slave.set_values(name, addr, arg))
            if isinstance(arg, list):
                arg[:] = [77] * (len(arg) + 1)      # the caller's list stays the caller's
            expect(err, allowed, where)
            if not allowed:
                b.values[addr - b.start: addr - b.start + len(lst)] = lst
            stored = stored or not allowed
            ctx.label("set " + ("refused" if allowed else "ok"))
        elif k == "get":
            _, name, addr, size = op
            b = ms.names.get(name)
            if b is None:
                allowed = [x.MissingKeyError]
            else:
                allowed = [] if b.covers(addr, size) else [x.OutOfModbusBlockError]
            got, err = _try(lambda: slave.get_values(name, addr, size))
            expect(err, allowed, where)
            if not allowed:
                want = tuple(b.values[addr - b.start: addr - b.start + size])
                engine.ensure(tuple(got) == want, "%s returned %r, expected %r", where, got, want)
        elif k in ("wire", "wwire"):
            pdu = struct.pack(">BHH", *op[1:]) if k == "wire" else struct.pack(">BHH", 6, *op[1:])
            out = ms.judge(pdu)
            real.check_response(out, slave.handle_request(pdu), where)
            ms.apply(out)
            ctx.label("wire " + out.kind)
        # everything readable, through the API, after every step
        for name, b in ms.names.items():
            got = slave.get_values(name, b.start, b.size)
            engine.ensure(list(got) == b.values, "after %s: block %s holds %r, expected %r", where, name, got, b.values)
        for name in NAMES:
            if name not in ms.names:
                _, err = _try(lambda: slave.get_values(name, 0, 1))
                expect(err, [x.MissingKeyError], "after %s: get_values of missing block %s" % (where, name))
    if overlap_refused and disordered and stored:
        ctx.nontrivial()
