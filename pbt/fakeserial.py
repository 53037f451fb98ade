"""A pyserial-like port whose received bytes are scripted, so that timing is part of the generated case.

The receive queue holds
    bytes   a chunk: what a read finds there; a read never crosses the end of a chunk
    GAP     silence longer than any timeout: a read with a timeout returns b"", a blocking read goes on waiting
    FAIL    the read raises OSError
An empty queue is silence too: a read with a timeout returns b"" (after `settle`, see Line), a blocking read waits.
No judgement depends on the clock; WAIT only bounds how long a wait for a broken tree lasts.
"""
import collections
import threading
import time

WAIT = 25.0
GAP, FAIL = "gap", "fail"


class Port(object):
    baudrate = 115200

    def __init__(self, name="fake", is_open=True):
        self.name = self.port = name
        self.is_open = is_open
        self.timeout = None
        self.inter_byte_timeout = None
        self.rx = collections.deque()
        self.cond = threading.Condition()
        self.written = []           # (data) of every write
        self.on_write = None        # called with the data, outside of the lock
        self.settle = None          # predicate: a timed read may give up now
        self.blocked = False        # a blocking read is waiting and nothing is queued
        self.empty_reads = 0        # consecutive fruitless timed reads
        self.cancelled = False
        self.open_failures = 0
        self.opens = self.closes = 0
        self.after_open = []        # arrives as soon as the port is open again

    # -- the line side ----------------------------------------------------------------------
    def feed(self, items):
        with self.cond:
            self.rx.extend(items)
            self.empty_reads = 0
            self.blocked = False
            self.cond.notify_all()

    def idle(self):
        """the user of the port has consumed everything and waits for more"""
        return not self.rx and not self.after_open and (self.blocked or self.empty_reads >= 3)

    def wait_idle(self):
        end = time.time() + WAIT
        with self.cond:
            while not self.idle():
                if time.time() > end:
                    return False
                self.cond.wait(0.2)
        return True

    # -- the pyserial side ------------------------------------------------------------------
    def open(self):
        with self.cond:
            self.opens += 1
            if self.open_failures > 0:
                self.open_failures -= 1
                raise OSError("could not open port %s" % self.name)
            self.is_open = True
            if self.after_open:
                self.rx.extend(self.after_open)
                self.after_open = []
                self.cond.notify_all()

    def close(self):
        with self.cond:
            self.closes += 1
            self.is_open = False
            self.cond.notify_all()

    def _check(self):
        if not self.is_open:
            raise OSError("Attempting to use a port that is not open")

    def read(self, size=1):
        with self.cond:
            self._check()
            blocking = self.timeout is None
            end = time.time() + WAIT
            while True:
                if self.cancelled:
                    self.cancelled = False
                    self.blocked = False
                    return b""
                if self.rx:
                    head = self.rx[0]
                    if head == FAIL and not isinstance(head, bytes):
                        self.rx.popleft()
                        self.blocked = False
                        raise OSError("read failed")
                    if head == GAP and not isinstance(head, bytes):
                        self.rx.popleft()
                        if blocking:
                            continue
                        self.cond.notify_all()
                        return b""
                    if not head:
                        self.rx.popleft()
                        continue
                    self.blocked = False
                    self.empty_reads = 0
                    data, rest = head[:size], head[size:]
                    if rest:
                        self.rx[0] = rest
                    else:
                        self.rx.popleft()
                    return bytes(data)
                if not self.is_open:
                    self.blocked = False
                    raise OSError("port closed while reading")
                if blocking:
                    self.blocked = True
                    self.cond.notify_all()
                    self.cond.wait(1.0)
                    continue
                if self.settle is None or self.settle() or time.time() > end:
                    self.empty_reads += 1
                    self.cond.notify_all()
                    return b""
                self.cond.wait(0.02)

    def write(self, data):
        data = bytes(data)
        with self.cond:
            self._check()
            self.written.append(data)
        if self.on_write:
            self.on_write(data)
        return len(data)

    def flush(self):
        pass

    def reset_input_buffer(self):
        """drops what has arrived, not what is still to come"""
        with self.cond:
            while self.rx and isinstance(self.rx[0], bytes):
                self.rx.popleft()

    def reset_output_buffer(self):
        pass

    @property
    def in_waiting(self):
        with self.cond:
            n = 0
            for x in self.rx:
                if not isinstance(x, bytes):
                    break
                n += len(x)
            return n

    def cancel_read(self):
        with self.cond:
            self.cancelled = True
            self.cond.notify_all()


class Line(object):
    """a master port and a server port joined by a line

    chop(data) cuts what is sent into the chunks the other side will see
    """

    def __init__(self, chop=None, echo=False):
        self.chop = chop or (lambda data: [data])
        self.echo = echo
        self.master = Port("master")
        self.server = Port("server")
        self.server.cond = self.master.cond      # one lock for the whole line
        self.master.on_write = self._from_master
        self.server.on_write = self._from_server
        self.master.settle = self.server.idle    # no reply can come any more
        self.to_server = []
        self.to_master = []

    def _from_master(self, data):
        self.to_server.append(data)
        if self.echo:
            self.master.feed([data])
        self.server.feed(self.chop(data))

    def _from_server(self, data):
        self.to_master.append(data)
        self.master.feed(self.chop(data))
