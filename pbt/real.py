"""Helpers which drive the real modbus_tk (imported from the tree under test)."""
from pbt import engine

modbus_tk = engine.use_repo()
from modbus_tk import defines, hooks, modbus  # noqa: E402
from modbus_tk import exceptions as mexc  # noqa: E402


HOOK_NAMES = []
for _cls, _names in (
        ("modbus.Databank", "on_error"),
        ("modbus.Master", "after_recv after_send before_send"),
        ("modbus.ModbusBlock", "setitem"),
        ("modbus.Server", "after_handle_request before_handle_request on_exception"),
        ("modbus.Slave",
         "handle_mask_write_register_request handle_read_coils_request handle_read_discrete_inputs_request "
         "handle_read_exception_status_request handle_read_holding_registers_request "
         "handle_read_input_registers_request handle_read_write_multiple_registers_request handle_request "
         "handle_write_multiple_coils_request handle_write_multiple_registers_request "
         "handle_write_single_coil_request handle_write_single_register_request on_exception "
         "on_handle_broadcast "),
        ("modbus_rtu.RtuMaster", "after_close after_recv before_open before_send"),
        ("modbus_rtu.RtuServer",
         "after_close after_open after_read after_write before_close before_open before_write on_error "),
        ("modbus_rtu_over_tcp.RtuOverTcpMaster", "after_recv"),
        ("modbus_tcp.TcpMaster", "after_close after_connect after_recv before_close before_connect before_send"),
        ("modbus_tcp.TcpServer", "after_recv after_send before_send on_connect on_disconnect on_error"),
        ("my", "own")):
    HOOK_NAMES += ["%s.%s" % (_cls, _n) for _n in _names.split()]


def clear_hooks():
    """uninstall every hook that may have been installed (public API)"""
    for name in HOOK_NAMES:
        try:
            hooks.uninstall_hook(name)
        except KeyError:
            pass        # never installed


def build_slave(slave, layout, init=()):
    """layout: [[type, start, size], ...]; block names b0, b1..; init: [[index, offset, values]]"""
    for i, (typ, start, size) in enumerate(layout):
        slave.add_block("b%d" % i, typ, start, size)
    for i, off, values in init:
        slave.set_values("b%d" % i, layout[i][1] + off, values)


def build_model(model, layout, init=()):
    for i, (typ, start, size) in enumerate(layout):
        model.add_block("b%d" % i, typ, start, size)
    for i, off, values in init:
        model.names["b%d" % i].values[off:off + len(values)] = values


def snapshot(slave, layout):
    """values of all blocks through the public API"""
    return {"b%d" % i: list(slave.get_values("b%d" % i, start, size))
            for i, (typ, start, size) in enumerate(layout)}


def diff(real, model):
    """first difference of two snapshots, or None"""
    for name in sorted(set(real) | set(model)):
        a, b = real.get(name), model.get(name)
        if a != b:
            if a is None or b is None:
                return "%s: real %r model %r" % (name, a, b)
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return "block %s offset %d: real %r, expected %r" % (name, i, x, y)
            return "%s: sizes differ" % name
    return None


def check_response(outcome, resp, where=""):
    """compare the response PDU of the real slave with the model's judgement"""
    V = engine.Violation
    if outcome.kind == "reply":
        if not isinstance(resp, (bytes, bytearray)) or bytes(resp) != outcome.reply:
            raise V("%s: response %s, expected %s" % (where, show(resp), outcome.reply.hex()))
    elif outcome.kind == "exc":
        ok = isinstance(resp, (bytes, bytearray)) and len(resp) == 2 and resp[1] in outcome.codes
        if not ok:
            raise V("%s: response %s, expected an exception with code in %s" % (
                where, show(resp), sorted(outcome.codes)))


def show(x):
    return bytes(x).hex() if isinstance(x, (bytes, bytearray)) else repr(x)
