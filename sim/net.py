"""A simulated network under the real urllib / http.client.

socket.create_connection, socket.socket and name resolution are replaced; every
byte, delay, loss and close comes from the run's specification.  Virtual time
only: waiting advances the simulator's clock.

A server is {"host:port": {"dns": "ok"|"fail"|["slow", s], "conn": "ok"|"refuse"|"silent"|["slow", s],
"paths": {path: [reply, ...]}}}; attempt n at a path gets reply n (the last one again
after that).  A reply is {"chunks": [[delay, latin-1 text], ...], "end": "fin"|"reset"|"silent"}.
"""
import io
import os
import socket
import errno

from . import core


class Net:
    def __init__(self):
        self.servers = {}
        self.attempts = {}
        self.log = []           # every use of the network: [virtual time, task, what]
        self.kinds = {}         # fault kind -> times it took effect
        self.open = 0
        self.strict = False     # the network must not be touched at all

    def note(self, what):
        t = core.current()
        self.log.append([round(core.clock.mono, 3), t.n if t else None, what])

    def fault(self, kind):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1


net = Net()


def forever(why):
    if core.current() is None:
        raise core.Stuck(why)
    while True:
        me = core.sim.cur
        me.wake = me.on = None
        core.sim.block(why)


def wait(seconds, timeout, why):
    """wait `seconds` (None: for ever), give up after `timeout` (None: never)"""
    if seconds is None and timeout is None:
        net.fault("silent for ever")
        forever(why)
    if timeout is not None and (seconds is None or seconds > timeout):
        if core.current() is not None:
            core.sim.block_until(core.clock.mono + timeout, why)
        else:
            core.clock.advance(timeout)
        net.fault("timeout")
        raise TimeoutError("timed out")
    if seconds:
        if core.current() is not None:
            core.sim.block_until(core.clock.mono + seconds, why)
        else:
            core.clock.advance(seconds)


class SimSocket:
    """what http.client needs of a TCP socket"""

    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        self.timeout = _default[0]
        self.sent = b""
        self.chunks = None
        self.end = None
        self.buf = b""
        self.closed = False
        self.io_refs = 0
        self.at = None
        net.open += 1

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1

    def getpeername(self):
        return self.at

    def getsockname(self):
        return ("192.0.2.1", 40000)

    def bind(self, a):
        pass

    def connect(self, addr):
        host, port = addr[0], addr[1]
        host = _names.get(host, host)
        net.note("connect %s:%d" % (host, port))
        s = net.servers.get("%s:%d" % (host, port)) or net.servers.get(host)
        if s is None:
            net.fault("refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        c = s.get("conn", "ok")
        if c == "refuse":
            net.fault("refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if c == "unreach":
            net.fault("unreachable")
            raise OSError(errno.EHOSTUNREACH, "No route to host")
        if c == "silent":
            net.fault("partition")
            wait(None, self.timeout, "connect to a silent server")
        if isinstance(c, list):
            net.fault("slow connect")
            wait(c[1], self.timeout, "slow connect")
        self.at = (host, port)
        self.server = s

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno or errno.ETIMEDOUT

    def sendall(self, data, flags=0):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.sent += bytes(data)
        if b"\r\n\r\n" in self.sent and self.chunks is None:
            line = self.sent.split(b"\r\n")[0].decode("latin-1").split(" ")
            path = line[1] if len(line) > 1 else "/"
            if "://" in path:
                path = "/" + path.split("://", 1)[1].split("/", 1)[-1]
            net.note("request " + path)
            replies = self.server["paths"].get(path) or [{"chunks": [[0, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"]], "end": "fin"}]
            k = (self.at[0], self.at[1], path)
            n = net.attempts.get(k, 0)
            net.attempts[k] = n + 1
            rep = replies[min(n, len(replies) - 1)]
            self.chunks = [[d, b.encode("latin-1")] for d, b in rep["chunks"]]
            self.end = rep["end"]
            if rep.get("kind"):
                net.fault(rep["kind"])

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        if self.closed and self.io_refs <= 0:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if not self.buf:
            if self.chunks:
                d = self.chunks[0][0]
                if self.timeout is not None and d > self.timeout:
                    # it would still come, later
                    net.fault("stall")
                wait(d, self.timeout, "response")
                self.buf = self.chunks.pop(0)[1]
            elif self.end == "reset":
                net.fault("reset")
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            elif self.end in core.FAULTS:
                # the program is interrupted, or runs out of something, while it waits for more
                net.fault(self.end + " in recv")
                raise core.FAULTS[self.end]("injected")
            elif self.end == "silent" or self.chunks is None:
                net.fault("silence")
                wait(None, self.timeout, "response of a silent server")
            else:
                return b""
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def recv_into(self, b, nbytes=0, flags=0):
        r = self.recv(nbytes or len(b))
        b[:len(r)] = r
        return len(r)

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        self.io_refs += 1
        raw = Raw(self)
        if "b" in mode:
            return io.BufferedReader(raw) if "r" in mode else io.BufferedWriter(raw)
        return io.TextIOWrapper(io.BufferedReader(raw), encoding, errors, newline)

    def shutdown(self, how):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            if self.io_refs <= 0:
                net.open -= 1

    def detach(self):
        self.close()
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Raw(io.RawIOBase):
    def __init__(self, s):
        self.s = s

    def readable(self):
        return True

    def writable(self):
        return True

    def readinto(self, b):
        return self.s.recv_into(b)

    def write(self, b):
        self.s.sendall(b)
        return len(b)

    def close(self):
        if not self.closed:
            super().close()
            self.s.io_refs -= 1
            if self.s.io_refs <= 0 and self.s.closed:
                net.open -= 1


_default = [None]
_names = {}
_GLOBAL = object()


def _resolve(host):
    if net.strict:
        net.note("resolve %s" % host)
    s = next((s for k, s in net.servers.items() if k.rsplit(":", 1)[0] == host), None)
    d = s.get("dns", "ok") if s else "fail"
    if d == "fail":
        net.fault("dns failure")
        net.note("resolve %s" % host)
        raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
    if isinstance(d, list):
        net.fault("slow dns")
        if core.current() is not None:
            core.sim.block_until(core.clock.mono + d[1], "dns")
        else:
            core.clock.advance(d[1])


def create_connection(address, timeout=_GLOBAL, source_address=None, *, all_errors=False):
    net.note("lookup %s" % (address[0],))
    _resolve(address[0])
    s = SimSocket()
    if timeout is not _GLOBAL and timeout is not socket._GLOBAL_DEFAULT_TIMEOUT:
        s.settimeout(timeout)
    try:
        s.connect(address)
    except BaseException:
        s.close()
        raise
    return s


def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    net.note("lookup %s" % (host,))
    _resolve(host)
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (host, port if isinstance(port, int) else 80))]


def gethostbyname(host):
    net.note("lookup %s" % (host,))
    _resolve(host)
    return host


def setdefaulttimeout(t):
    _default[0] = t


def install():
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    socket.create_connection = create_connection
    socket.getaddrinfo = getaddrinfo
    socket.gethostbyname = gethostbyname
    socket.setdefaulttimeout = setdefaulttimeout
    socket.getdefaulttimeout = lambda: _default[0]
    socket.socket = SimSocket


def reset(servers):
    k = net.kinds
    net.__init__()
    net.kinds = k
    net.servers = servers
    _default[0] = None
