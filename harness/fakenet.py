"""A network of scripted HTTP servers in one thread, for pyslet.http.client

The sockets are stand-ins: what the client sends is cut into pieces and
parsed by a server, whose answers come back in pieces, when the client
selects.  Time only passes when nothing else can happen."""
import errno
import time

CLOCK0 = 1700000000.0


class Hang(BaseException):
    """The client waits for something that will never happen"""


class Clock(object):

    def __init__(self):
        self.now = None
        self.real = time.time
        self.rsleep = time.sleep

    def time(self):
        return self.real() if self.now is None else self.now

    def sleep(self, t):
        if self.now is None:
            return self.rsleep(t)
        self.now += max(t, 0.001)


CLOCK = Clock()


def install():
    """before pyslet is imported"""
    time.time = CLOCK.time
    time.sleep = CLOCK.sleep


class ServerError(Exception):
    """what the client sent isn't HTTP"""


class RequestParser(object):
    """Reads requests from bytes as they come"""

    def __init__(self):
        self.buf = b""
        self.head = None
        self.body = b""

    def feed(self, data):
        """Yields ("head", req) and ("body", req) events"""
        self.buf += data
        while True:
            if self.head is None:
                i = self.buf.find(b"\r\n\r\n")
                if i < 0:
                    return
                lines = self.buf[:i].split(b"\r\n")
                self.buf = self.buf[i + 4:]
                try:
                    method, target, proto = lines[0].split(b" ")
                except ValueError:
                    raise ServerError("request line %r" % lines[0])
                h = []
                for l in lines[1:]:
                    if b":" not in l:
                        raise ServerError("header %r" % l)
                    n, v = l.split(b":", 1)
                    h.append((n.lower().decode(), v.strip().decode()))
                self.head = {"method": method.decode(),
                             "target": target.decode(),
                             "proto": proto.decode(), "h": h, "body": b""}
                d = dict(h)
                self.chunked = "chunked" in d.get("transfer-encoding", "")
                self.left = int(d.get("content-length", "0"))
                self.state = "size"
                yield "head", self.head
            if self.chunked:
                if not self.chunks():
                    return
            else:
                n = min(self.left, len(self.buf))
                self.head["body"] += self.buf[:n]
                self.buf = self.buf[n:]
                self.left -= n
                if self.left:
                    return
            r = self.head
            self.head = None
            yield "body", r

    def chunks(self):
        while True:
            if self.state == "data":
                n = min(self.left, len(self.buf))
                self.head["body"] += self.buf[:n]
                self.buf = self.buf[n:]
                self.left -= n
                if self.left:
                    return False
                self.state = "end"
            i = self.buf.find(b"\r\n")
            if i < 0:
                return False
            line = self.buf[:i]
            self.buf = self.buf[i + 2:]
            if self.state == "end":
                if line:
                    raise ServerError("chunk end %r" % line)
                self.state = "size"
            elif self.state == "size":
                try:
                    self.left = int(line.split(b";")[0], 16)
                except ValueError:
                    raise ServerError("chunk size %r" % line)
                self.state = "data" if self.left else "trailer"
            elif not line:
                return True

    def idle(self):
        return self.head is None and not self.buf


class Sock(object):
    """The client's end of a connection"""

    def __init__(self, net, key):
        self.net = net
        self.key = key          # (scheme, host, port)
        net.nsocks += 1
        self.id = net.nsocks
        self.parser = RequestParser()
        self.out = []           # what the server still does: bytes, "eof",
        #                         "reset"
        self.ready = b""        # what has arrived
        self.dead = None        # "eof" or "reset" when it has arrived
        self.cut = False        # the server reads no more
        self.closed = False
        self.open_ = True

    def fileno(self):
        return self

    def setblocking(self, flag):
        pass

    settimeout = setblocking

    def send(self, data):
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if self.cut:
            if self.net.rng.random() < 0.5:
                # not noticed yet
                self.net.lost(self, data)
                return len(data)
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        n = self.net.accept(self, len(data))
        if n == 0:
            raise BlockingIOError(errno.EAGAIN, "blocked")
        self.net.received(self, data[:n])
        return n

    def recv(self, n):
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if self.ready:
            k = min(n, len(self.ready), self.net.piece())
            r, self.ready = self.ready[:k], self.ready[k:]
            return r
        if self.dead == "eof":
            return b""
        if self.dead == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        raise BlockingIOError(errno.EAGAIN, "blocked")

    def shutdown(self, how):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.left(self)

    # the server's end

    def arrive(self):
        """the next thing the server does takes effect"""
        x = self.out.pop(0)
        if isinstance(x, bytes):
            k = min(len(x), self.net.piece())
            self.ready += x[:k]
            if x[k:]:
                self.out.insert(0, x[k:])
            elif self.out and self.net.rng.random() < 0.5:
                # answers come together
                self.arrive()
        else:
            self.dead = x
            self.cut = True
            if x == "reset":
                self.ready = b""
            self.out = []


class Net(object):
    """handler(sock, what, request) is called for "head" and "body" and
    returns what the server does: a list of bytes, "eof", "reset" or, to
    read no more, "deaf".  It is also called for "open" (may return "refused"),
    "shut" and, when the server isn't reading, "lost-head" and "lost-body"."""

    def __init__(self, rng, handler, smooth=False):
        self.rng = rng
        self.handler = handler
        self.smooth = smooth
        self.nsocks = 0
        self.socks = []
        self.steps = 0
        self.errors = []

    def piece(self):
        if self.smooth or self.rng.random() < 0.3:
            return 1 << 20
        return self.rng.choice([1, 2, 3, 7, 20, 60, 200])

    def accept(self, sock, n):
        if self.smooth or self.rng.random() < 0.6:
            return n
        return self.rng.choice([0, 1, 2, 10, 50, n, n])if n < 3 else \
            min(n, self.rng.choice([0, 1, 2, 10, 50, n - 1]))

    def received(self, sock, data):
        try:
            for what, req in sock.parser.feed(data):
                if sock.cut:
                    self.handler(sock, "lost-" + what, req)
                    continue
                for x in self.handler(sock, what, req):
                    if x == "deaf":
                        sock.cut = True
                    else:
                        sock.out.append(x)
        except ServerError as e:
            self.errors.append(str(e))
            sock.out.append("eof")

    def lost(self, sock, data):
        """accepted by the network, never seen by the server"""
        try:
            for what, req in sock.parser.feed(data):
                self.handler(sock, "lost-" + what, req)
        except ServerError as e:
            self.errors.append(str(e))

    def left(self, sock):
        self.socks.remove(sock)
        self.handler(sock, "shut", None)

    def opened(self, key):
        s = Sock(self, key)
        if self.handler(s, "open", None) == "refused":
            return None
        self.socks.append(s)
        return s

    def select(self, readers, writers, x, timeout=None):
        self.steps += 1
        if self.steps > 20000:
            raise Hang("no progress")
        self.waits(timeout)
        while True:
            busy = [s for s in self.socks if s.out]
            for s in busy:
                if self.smooth or self.rng.random() < 0.7:
                    s.arrive()
            r = [s for s in readers if s.ready or s.dead or s.closed]
            if r or writers:
                return r, writers, []
            if not busy:
                if timeout is None:
                    raise Hang("waits for ever")
                CLOCK.now += timeout + 0.001
                return [], [], []

    def waits(self, timeout):
        """The client is about to wait"""

    def client(self, http, **kwargs):
        """a Client on this network"""
        net = self

        class Connection(http.Connection):

            def new_socket(self):
                with self.lock:
                    if self.closed:
                        raise http.messages.HTTPException(
                            "Connection closed")
                self.socket = net.opened(self.target_key())
                if self.socket is None:
                    raise http.messages.HTTPException(
                        "failed to connect to %s" % self.host)
                self.socket_file = self.socket.fileno()
                self.socketSelect = net.select

        class Secure(Connection):

            def __init__(self, manager, scheme, host, port, ca_certs=None):
                super(Secure, self).__init__(manager, scheme, host, port)

        c = http.Client(**kwargs)
        c.ConnectionClass = Connection
        c.SecureConnectionClass = Secure
        c.socketSelect = net.select
        return c


def response(status, reason="OK", headers=(), body=b""):
    h = "".join("%s: %s\r\n" % x for x in headers)
    return ("HTTP/1.1 %d %s\r\n%s%s\r\n" % (
        status, reason, h, "" if status in (204, 304) else
        "Content-Length: %d\r\n" % len(body))).encode() + body
