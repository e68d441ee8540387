"""C14: validating the HTTP client against spec/HTTPClient.tla"""
import io
import logging
import random

import vlib
import fakenet

fakenet.install()
from pyslet.http import client as http  # noqa: E402

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- HInit\nCONSTANT TStep <- HStep\n" \
      "CONSTANT TWhy <- HWhy\n"
LIMIT = 300


class Trickle(io.RawIOBase):
    """a body of unknown size that comes in pieces"""

    def __init__(self, rng, data):
        self.rng = rng
        self.data = data
        self.pos = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos
        return pos

    def readinto(self, b):
        n = min(len(b), self.rng.choice([1, 10, 500, 1 << 20]))
        d = self.data[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)


class Session(object):

    def __init__(self, rng):
        self.rng = rng
        self.ev = []
        self.n = 0
        self.bodies = {}        # of answers
        self.data = {}          # of requests
        self.reqs = {}
        self.faults = rng.choice([0, 0.05, 0.2, 0.5])
        self.early = rng.choice([0, 0.1, 0.4])
        self.budget = rng.randint(0, 12)
        self.closing = set()
        self.net = fakenet.Net(rng, self.handle,
                               smooth=rng.random() < 0.3)
        self.timeout = rng.choice([20, 20, None])
        self.client = self.net.client(http, max_connections=3,
                                      timeout=self.timeout)
        self.limit = 0
        self.waited = set()
        self.net.waits = self.waits

    def waits(self, timeout):
        w = -1 if timeout is None else int(timeout * 1000)
        if (w, self.limit) not in self.waited:
            self.waited.add((w, self.limit))
            self.put("wait", asked=w, limit=self.limit * 1000)

    def put(self, k, **kw):
        self.ev.append(dict(kw, k=k))

    def body(self, n):
        return (b"%d:" % n) + b"x" * self.rng.choice([0, 1, 30, 300, 9000])

    def fault(self, sock):
        if sock.id not in self.closing:
            self.closing.add(sock.id)
            self.put("fault", s=sock.id)

    def handle(self, sock, what, req):
        rng = self.rng
        if what == "open":
            if self.budget > 0 and rng.random() < self.faults / 4:
                self.budget -= 1
                self.put("refused", t=sock.key[1])
                return "refused"
            sock.done = {}
            sock.answered = set()
            return self.put("open", s=sock.id, t=sock.key[1])
        if what == "shut":
            return self.put("shut", s=sock.id)
        i = int(req["target"].split("?")[0][1:])
        if what.endswith("head"):
            sock.nth = getattr(sock, "nth", 0) + 1
            req["nth"] = sock.nth
            self.put("got", i=i, s=sock.id)
            if what == "lost-head":
                self.fault(sock)
                return []
        else:
            self.put("body", i=i, s=sock.id,
                     ok=req["body"] == self.data.get(i, b""))
            if what == "lost-body":
                self.fault(sock)
                return []
        h = dict(req["h"])
        out = []
        if what == "head":
            if h.get("expect") == "100-continue" and rng.random() < 0.6:
                out.append(b"HTTP/1.1 100 Continue\r\n\r\n")
            if req["method"] == "POST" and rng.random() < self.early:
                return out + self.answer(sock, req, i, True)
            if self.budget > 0 and rng.random() < self.faults / 8:
                return out + self.drop(sock)
            return out
        if req["nth"] in sock.answered:
            return []
        return self.answer(sock, req, i, False)

    def drop(self, sock):
        self.budget -= 1
        self.fault(sock)
        return ["deaf", self.rng.choice(["eof", "reset", "eof"])] \
            if self.timeout is None or self.rng.random() < 0.9 else ["deaf"]

    def answer(self, sock, req, i, early):
        rng = self.rng
        sock.answered.add(req["nth"])
        if self.budget > 0 and rng.random() < self.faults / 2:
            return self.drop(sock)
        out = []
        if not early and rng.random() < 0.05:
            out.append(b"HTTP/1.1 102 Wait\r\nX-Y: z\r\n\r\n")
        self.n += 1
        n = self.n
        status = rng.choice([200, 200, 200, 201, 204, 304, 404, 500])
        to = ""
        head = [("X-N", str(n))]
        if rng.random() < 0.1 and self.budget > 0:
            self.budget -= 1
            status = rng.choice([301, 302, 303, 307])
            to = rng.choice(["a.x", "b.x"])
            head.append(("Location", "http://%s/%d?r=%d" % (to, i, n)))
        body = self.body(n)
        none = status in (204, 304) or req["method"] == "HEAD"
        proto = b"HTTP/1.1"
        close = rng.random() < 0.1
        if rng.random() < 0.03:
            proto = b"HTTP/1.0"
            close = True
        frame = rng.choice(["length", "length", "chunked", "close"]
                           if self.budget > 0 else ["length", "chunked"])
        if frame == "close" and not none:
            close = True
        if close:
            if rng.random() < 0.7 or frame == "close":
                if proto == b"HTTP/1.1" and (frame != "close" or
                                             rng.random() < 0.5):
                    head.append(("Connection", rng.choice(["close",
                                                           "Close"])))
        if proto == b"HTTP/1.0" and frame == "chunked":
            frame = "length"
        if frame == "length" and status not in (204,):
            head.append(("Content-Length", str(len(body))))
        elif frame == "chunked" and not none:
            head.append(("Transfer-Encoding", "chunked"))
        rng.shuffle(head)
        text = b"%s %d X\r\n%s\r\n" % (proto, status, b"".join(
            b"%s: %s\r\n" % (a.encode(), b.encode()) for a, b in head))
        payload = b""
        if not none:
            payload = body
            if frame == "chunked":
                payload = b""
                p = 0
                while p < len(body):
                    k = rng.choice([1, 5, 100, 4000])
                    c = body[p:p + k]
                    payload += b"%x%s\r\n%s\r\n" % (
                        len(c), rng.choice([b"", b"", b";a=b"]), c)
                    p += k
                payload += b"0\r\n%s\r\n" % rng.choice([b"", b"",
                                                        b"X-T: t\r\n"])
        self.bodies[n] = b"" if none else body
        whole = True
        data = text + payload
        end = []
        if self.budget > 0 and rng.random() < self.faults / 3:
            # broken off
            self.budget -= 1
            cut = rng.randint(0, len(data) - 1)
            end = ["eof"]
            if frame == "close" and not none:
                # what is cut off the body can't be noticed
                cut = rng.randint(0, len(text) - 1)
            elif rng.random() < 0.2:
                end = ["reset"]
            data = data[:cut]
            whole = False
            close = True
        elif frame == "close" and not none:
            end = ["eof"]
        elif close:
            end = ["eof"]
        self.put("reply", i=i, s=sock.id, n=n, status=status, whole=whole,
                 to=to)
        if close:
            self.fault(sock)
            end = ["deaf"] + end
        return out + [data] + end

    def request(self):
        rng = self.rng
        i = len(self.reqs) + 1
        method = rng.choice(["GET", "GET", "POST", "HEAD", "PUT"])
        host = rng.choice(["a.x", "a.x", "b.x"])
        kw = {}
        if method in ("POST", "PUT"):
            data = b"%d" % i + b"y" * rng.choice([0, 5, 200, 5000, 40000])
            self.data[i] = data
            r = rng.random()
            if r < 0.5:
                kw["entity_body"] = data
            elif r < 0.8:
                kw["entity_body"] = Trickle(rng, data)
            else:
                kw["entity_body"] = io.BytesIO(data)
        auto = rng.random() < 0.8
        me = self

        class Request(http.ClientRequest):

            def finished(self):
                me.ended(i, self)
                super(Request, self).finished()

        q = Request("http://%s/%d" % (host, i), method,
                    auto_redirect=auto, min_retry_time=1, **kw)
        if method in ("POST", "PUT") and rng.random() < 0.3:
            q.set_expect_continue()
        self.reqs[i] = q
        self.put("queue", i=i, safe=method in ("GET", "HEAD"),
                 post=method == "POST", t=host, auto=auto)
        self.client.queue_request(q)

    def ended(self, i, q):
        """the request has its answer"""
        n = 0
        whole = False
        if q.response is not None and q.status:
            h = q.response.get_header("X-N")
            if h is not None:
                n = int(h)
                whole = q.res_body == self.bodies.get(n)
        self.put("fin", i=i, n=n, status=q.status, whole=whole,
                 err=q.error is not None)

    def run(self, rounds):
        rng = self.rng
        fakenet.CLOCK.now = fakenet.CLOCK0
        try:
            for i in range(rounds):
                for j in range(rng.choice([1, 1, 2, 3, 6])):
                    self.request()
                    if rng.random() < 0.3:
                        self.limit = 0
                        for k in range(rng.randint(1, 5)):
                            self.client.thread_task(0)
                self.limit = rng.choice([1, 20, 60])
                self.client.thread_loop(self.limit)
                self.put("idle")
                if rng.random() < 0.3:
                    fakenet.CLOCK.now += rng.choice([1, 100])
                    for s in list(self.net.socks):
                        if rng.random() < 0.5 and not s.cut:
                            self.fault(s)
                            s.cut = True
                            if rng.random() < 0.7:
                                s.dead = "eof"
                            else:
                                s.out.append("eof")
                if len(self.ev) > LIMIT:
                    break
        except fakenet.Hang as e:
            self.put("hang", why=str(e))
        finally:
            fakenet.CLOCK.now = None
        if self.net.errors:
            self.put("garbage", what=self.net.errors[:3])
        return {"cfg": {"n": rounds}, "ev": self.ev}


def session(seed):
    rng = random.Random(seed)
    t = Session(rng).run(rng.choice([2, 5, 10]))
    t["cfg"]["seed"] = seed
    return t


def sessions(seeds):
    return [session(s) for s in seeds]


def run(ctx):
    model = """SPECIFICATION Spec
CONSTANTS Requests = {%s} Posts = {%s} Lives = %d Drops = %d
INVARIANTS Matched Once Healthy InOrder
PROPERTIES Ends Final
CHECK_DEADLOCK FALSE
"""
    for posts in ctx.pick(["2"], ["", "1", "2", "1, 2, 3", "2, 3"]):
        ctx.model("HTTPClient", model % (
            ctx.pick(("1, 2, 3", posts, 2, 2), ("1, 2, 3, 4", posts, 3, 3))),
            name="posts " + posts)
    jobs = [[ctx.rng.randrange(1 << 30) for i in range(5)]
            for j in range(ctx.pick(200, 2000))]
    traces = [t for ts in vlib.pmap(sessions, jobs, chunk=1) for t in ts]
    ctx.validate("HTTPClientTrace", traces, CFG, label="client")
