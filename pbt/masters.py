"""Real masters with the line replaced: requests are captured, replies are scripted.

Only the documented extension points of Master (_do_open, _do_close, _send, _recv) are overridden.
"""
from pbt import model, real
from modbus_tk import modbus_rtu, modbus_tcp


class NullSerial(object):
    """the attributes of a pyserial object a master needs when nothing is transferred"""
    name, port, is_open, timeout, baudrate, inter_byte_timeout = "null", "null", False, 1.0, 9600, None

    def open(self):
        self.is_open = True

    def close(self):
        self.is_open = False


class _Line(object):
    def line_init(self):
        self.sent, self.reply, self.expected = [], None, []

    def _do_open(self):
        pass

    def _do_close(self):
        return True

    def _send(self, request):
        self.sent.append(bytes(request))

    def _recv(self, expected_length=-1):
        self.expected.append(expected_length)
        return bytearray(self.reply(self.sent[-1])) if self.reply else bytearray()


class TcpLine(_Line, modbus_tcp.TcpMaster):
    def __init__(self):
        modbus_tcp.TcpMaster.__init__(self)
        self.line_init()

    @staticmethod
    def unwrap(frame):
        """(unit id, pdu) when the frame is a correct request frame, else None"""
        if len(frame) < 8 or frame[2:4] != b"\0\0" or int.from_bytes(frame[4:6], "big") != len(frame) - 6:
            return None
        return frame[6], frame[7:]

    @staticmethod
    def wrap(request, pdu):
        return model.tcp_frame(int.from_bytes(request[:2], "big"), request[6], pdu)


class RtuLine(_Line, modbus_rtu.RtuMaster):
    def __init__(self):
        modbus_rtu.RtuMaster.__init__(self, NullSerial())
        self.line_init()

    @staticmethod
    def unwrap(frame):
        if len(frame) < 4 or model.crc16(frame[:-2]) != frame[-2] | frame[-1] << 8:
            return None
        return frame[0], frame[1:-2]

    @staticmethod
    def wrap(request, pdu):
        return model.rtu_frame(request[0], pdu)


def make(kind):
    return TcpLine() if kind == "tcp" else RtuLine()
