"""Loopback helpers: per-process address, raw Modbus TCP client, scripted peer.

WAIT is the time after which a missing reply counts as "never answered"; it is thousands of times the normal
latency.  No other judgement depends on the clock.
"""
import errno
import os
import queue
import resource
import socket
import struct
import threading
import time

from pbt import engine, model

WAIT = 25.0


def address():
    """a loopback address of this process only, so that parallel workers never meet"""
    pid = os.getpid()
    return "127.%d.%d.%d" % (1 + (pid >> 16) % 250, (pid >> 8) & 0xff, 1 + (pid & 0xff) % 254)


class ManyFiles(object):
    """while this exists, every new socket has a number which select() refuses (1024 and more)"""

    def __init__(self, wanted=True):
        self.fds = []
        if wanted:
            room(2500)
            try:
                while not self.fds or self.fds[-1] < 1040:
                    self.fds.append(os.dup(0))
            except OSError:
                self.close()

    def close(self):
        for fd in self.fds:
            os.close(fd)
        self.fds = []


def room(n):
    """whether this process may have n open files"""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    if soft != resource.RLIM_INFINITY and soft < n:
        try:
            resource.setrlimit(resource.RLIMIT_NOFILE, (n, hard))
        except (OSError, ValueError):
            return False
    return True


def free_port(addr=None):
    s = socket.socket()
    s.bind((addr or address(), 0))
    p = s.getsockname()[1]
    s.close()
    return p


def can_connect(addr, port):
    s = socket.socket()
    s.settimeout(WAIT)
    try:
        s.connect((addr, port))
        return True
    except OSError:
        return False
    finally:
        s.close()


def wait_connect(addr, port, what="the server"):
    end = time.time() + WAIT
    while time.time() < end:
        if can_connect(addr, port):
            return
        time.sleep(0.002)
    raise engine.Violation("%s does not accept connections on %s:%d" % (what, addr, port))


def start_server(**kw):
    """a started TcpServer of the tree under test: (server, address, port)"""
    from pbt import real    # noqa
    from modbus_tk import modbus_tcp
    addr = address()
    port = free_port(addr)
    srv = modbus_tcp.TcpServer(port, addr, **kw)
    srv.start()
    wait_connect(addr, port)
    return srv, addr, port


class Closed(Exception):
    pass


class Raw(object):
    """a raw TCP client"""

    def __init__(self, addr, port, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(WAIT)
        self.s.connect((addr, port))

    def send(self, data):
        self.s.sendall(data)

    def recv_exact(self, n):
        buf = b""
        while len(buf) < n:
            try:
                d = self.s.recv(n - len(buf))
            except socket.timeout:
                raise engine.Violation("no reply within %ss (got %s)" % (WAIT, buf.hex()))
            except OSError as e:
                raise Closed("%s after %s" % (e, buf.hex()))
            if not d:
                raise Closed("connection closed after %s" % buf.hex())
            buf += d
        return buf

    def recv_frame(self):
        """one reply frame: (tid, pid, unit, pdu)"""
        head = self.recv_exact(7)
        tid, pid, length, unit = struct.unpack(">HHHB", head)
        if length < 2:
            raise engine.Violation("reply header %s has length %d" % (head.hex(), length))
        return tid, pid, unit, self.recv_exact(length - 1)

    def close(self):
        self.s.close()

    def reset(self):
        """leave with a RST"""
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


class Peer(object):
    """A scripted Modbus peer.  Each received request is put in `requests`; the connection thread then runs the
    next script given by `push(script)`, a list of steps:
        ["send", bytes] ["pause"] ["close"] ["rst"]   (pause: a few ms, only to split segments)
    `done` gets one item when the script of a request has been executed completely.
    framing: "tcp" (MBAP) or "rtu" (length given by the caller through push(..., need=n))
    """

    def __init__(self, framing="tcp"):
        self.addr = address()
        self.framing = framing
        self.scripts = queue.Queue()
        self.requests = queue.Queue()
        self.done = queue.Queue()
        self.ls = None
        self.port = None
        self.conns = []
        self.stopping = False
        self.accepted = 0
        self.listen()

    def listen(self):
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind((self.addr, self.port or 0))
        self.port = self.ls.getsockname()[1]
        self.ls.listen(20)
        self.thread = threading.Thread(target=self._accept, args=(self.ls,), daemon=True)
        self.thread.start()

    def unlisten(self):
        """nobody there any more: listening socket closed, connections stay"""
        try:
            self.ls.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.ls.close()
        self.thread.join()

    def _accept(self, ls):
        while True:
            try:
                c, _ = ls.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.accepted += 1
            self.conns.append(c)
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _read(self, c, n):
        buf = b""
        while len(buf) < n:
            d = c.recv(n - len(buf))
            if not d:
                raise Closed()
            buf += d
        return buf

    def _serve(self, c):
        try:
            while True:
                if self.framing == "tcp":
                    head = self._read(c, 7)
                    req = head + self._read(c, struct.unpack(">H", head[4:6])[0] - 1)
                else:
                    req = self._read(c, 2)
                    req += self._read(c, self._rtu_rest(c, req))
                self.requests.put(req)
                script = self.scripts.get()
                try:
                    if callable(script):
                        script = script(req)
                    for step in script:
                        if step[0] == "send":
                            c.sendall(step[1])
                        elif step[0] == "pause":
                            time.sleep(0.002)
                        elif step[0] == "close":
                            c.shutdown(socket.SHUT_RDWR)
                            c.close()
                            return
                        elif step[0] == "rst":
                            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                            c.close()
                            return
                except OSError:
                    return
                finally:
                    self.done.put(True)
        except (Closed, OSError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def _rtu_rest(self, c, head):
        fc = head[1]
        if fc in (1, 2, 3, 4, 5, 6):
            return 6
        if fc == 7:
            return 2
        if fc == 22:
            return 8
        if fc == 8:
            return self.need
        if fc in (15, 16):
            h = c.recv(5, socket.MSG_PEEK | socket.MSG_WAITALL)
            return 5 + h[4] + 2
        if fc == 23:
            h = c.recv(9, socket.MSG_PEEK | socket.MSG_WAITALL)
            return 9 + h[8] + 2
        if fc == 20:
            h = c.recv(1, socket.MSG_PEEK | socket.MSG_WAITALL)
            return 1 + h[0] + 2
        if fc == 43:
            return 5
        raise Closed()

    def push(self, script):
        self.scripts.put(script)

    def inject(self, data):
        """send on the latest connection without being asked"""
        try:
            self.conns[-1].sendall(data)
        except (IndexError, OSError):
            pass
        time.sleep(0.02)

    def wait_done(self):
        try:
            self.done.get(timeout=WAIT)
        except queue.Empty:
            raise engine.Violation("the request never arrived at the peer")

    def drop_connections(self):
        for c in self.conns:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            try:
                c.close()
            except OSError:
                pass
        self.conns = []

    def close(self):
        self.unlisten()
        self.drop_connections()
        for _ in range(50):
            self.scripts.put([])


def tcp_reply(request, pdu):
    return model.tcp_frame(int.from_bytes(request[:2], "big"), request[6], pdu)
