"""C16: validating the use of credentials against spec/AuthSpace.tla"""
import base64
import logging
import random

import vlib
import fakenet

fakenet.install()
from pyslet.http import auth, client as http  # noqa: E402
from pyslet.rfc2396 import URI  # noqa: E402

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- AInit\nCONSTANT TStep <- AStep\n" \
      "CONSTANT TWhy <- AWhy\n"


def path_text(p):
    return "".join("/" + x for x in p)


class Session(object):

    def __init__(self, rng):
        self.rng = rng
        self.ev = []
        self.hosts = ["a.x", "b.x"]
        self.ports = rng.choice([[80], [80, 8080], [80, 443, 8080]])
        self.segs = rng.choice([["p", "q"], ["p", "pp", "q"]])
        self.realms = rng.choice([["R"], ["R", "S"], ["R", "r", ""]])
        self.creds = {}
        self.n = 0
        self.left = 0
        self.net = fakenet.Net(rng, self.handle, smooth=True)
        self.client = self.net.client(http)
        # what the servers want: realm and good users by space and directory
        self.zones = {}

    def space(self):
        rng = self.rng
        s = rng.choice(["http", "http", "https"])
        return "%s://%s:%d" % (s, rng.choice(self.hosts),
                               rng.choice(self.ports))

    def path(self):
        rng = self.rng
        p = [rng.choice(self.segs) for i in range(rng.choice([0, 1, 1, 2,
                                                              3]))]
        if not p or rng.random() < 0.3:
            p.append("")
        if rng.random() < 0.05:
            p.insert(rng.randint(0, len(p)), "")
        return p

    def url(self):
        if self.ev and self.rng.random() < 0.5:
            old = [e["u"] for e in self.ev if e["k"] == "request"]
            if old:
                u = self.rng.choice(old)
                if self.rng.random() < 0.5:
                    return dict(u, path=self.path())
                return u
        return {"space": self.space(), "path": self.path()}

    def text(self, u):
        """a spelling of the URL"""
        rng = self.rng
        scheme, rest = u["space"].split("://")
        host, port = rest.split(":")
        if port == {"http": "80", "https": "443"}[scheme] and \
                rng.random() < 0.8:
            port = ""
        if rng.random() < 0.1:
            host = host.upper()
        if rng.random() < 0.1:
            scheme = scheme.upper()
        p = path_text(u["path"])
        if p == "/" and rng.random() < 0.3:
            p = ""
        if rng.random() < 0.2:
            p += "?x=/" + rng.choice(self.segs)
        return scheme + "://" + host + (":" + port if port else "") + p

    def who(self, req):
        a = [v for n, v in req["h"] if n == "authorization"]
        if not a:
            return -1
        if len(a) == 1 and a[0].startswith("Basic "):
            u = base64.b64decode(a[0][6:]).decode().split(":")
            if u[0] == "user" and u[1] in self.creds:
                return int(u[1][1:])
        return -2

    def handle(self, sock, what, req):
        if what != "body":
            return []
        rng = self.rng
        scheme, host, port = sock.key
        u = {"space": "%s://%s:%d" % (scheme.lower(), host.lower(), port),
             "path": req["target"].split("?")[0][1:].split("/")}
        who = self.who(req)
        self.ev.append({"k": "sent", "u": u, "method": req["method"],
                        "auth": who})
        e = {"k": "reply", "status": 200, "chs": [], "to": []}
        self.ev.append(e)
        r = rng.random()
        h = []
        self.left -= 1
        zone = self.zones.setdefault(
            (u["space"], u["path"][0] if len(u["path"]) > 1 else ""),
            [rng.choice(["open", "realm", "realm", "realm", "closed"]),
             rng.choice(self.realms), rng.choice([1, 2, 3])])
        if self.left > 0 and r < 0.25:
            e["status"] = rng.choice([301, 302, 303, 307])
            if rng.random() < 0.9:
                v = self.url()
                if rng.random() < 0.5:
                    v = dict(v, space=u["space"])
                t = self.text(v)
                e["to"] = [v]
                if v["space"] == u["space"] and rng.random() < 0.5:
                    t = path_text(v["path"])
                    if t.startswith("//"):
                        t = self.text(v)
                h.append(("Location", t))
        elif r < 0.3:
            e["status"] = rng.choice([404, 403, 500])
        elif zone[0] == "closed" or zone[0] == "realm" and (
                who < 0 or who % 4 == zone[2] or rng.random() < 0.02):
            e["status"] = 401
            chs = [("basic", zone[1])]
            if rng.random() < 0.3:
                chs.insert(rng.randint(0, 1), rng.choice([
                    ("Digest", zone[1]), ("basic", "other"),
                    ("Negotiate", "x")]))
            if zone[0] == "closed" and rng.random() < 0.1:
                chs = []
            bad = chs and rng.random() < 0.03
            e["chs"] = [] if bad else [{"scheme": s.lower(), "realm": x} for s, x in chs]
            sep = rng.random() < 0.5
            texts = ['%s realm="%s"' % (rng.choice([s, s.capitalize()]), x)
                     for s, x in chs]
            if bad:
                texts = ["NTLM TlRMTVNTUAAC=="]
            if sep:
                h += [("WWW-Authenticate", t) for t in texts]
            elif texts:
                h.append(("WWW-Authenticate", ", ".join(texts)))
        r = fakenet.response(e["status"], "X", h, b"body")
        if req["method"] == "HEAD":
            r = r[:-4]
        return [r]

    def add(self):
        rng = self.rng
        self.n += 1
        sp = rng.choice([self.space()] + [e["u"]["space"] for e in self.ev
                                          if e["k"] == "request"][-3:])
        realm = rng.choice([""] + self.realms)
        c = auth.BasicCredentials()
        c.userid = "user"
        c.password = "p%d" % self.n
        if rng.random() < 0.5:
            c = auth.BasicCredentials.from_str(
                b"Basic " + base64.b64encode(("user:p%d" % self.n).encode()))
        c.protectionSpace = URI.from_octets(
            self.text({"space": sp, "path": [""]})).get_canonical_root()
        c.realm = realm or None
        self.creds["p%d" % self.n] = c
        self.client.add_credentials(c)
        self.ev.append({"k": "add", "id": self.n, "space": sp,
                        "realm": realm})

    def step(self):
        rng = self.rng
        r = rng.random()
        if r < 0.15 or not self.n:
            self.add()
        elif r < 0.2:
            i = rng.randint(1, self.n)
            self.client.remove_credentials(self.creds["p%d" % i])
            self.ev.append({"k": "remove", "id": i})
        else:
            u = self.url()
            method = rng.choice(["GET", "GET", "POST", "HEAD"])
            auto = rng.random() < 0.9
            self.ev.append({"k": "request", "u": u, "method": method,
                            "auto": auto})
            kw = {}
            if method == "POST":
                kw["entity_body"] = b"data"
            self.left = 6
            q = http.ClientRequest(self.text(u), method,
                                   auto_redirect=auto, **kw)
            self.client.process_request(q)
            self.ev.append({"k": "done", "status": q.status})

    def run(self, n):
        fakenet.CLOCK.now = fakenet.CLOCK0
        try:
            for i in range(n):
                self.step()
                if len(self.ev) > 400:
                    break
        except fakenet.Hang:
            self.ev.append({"k": "hang"})
        finally:
            fakenet.CLOCK.now = None
        return {"cfg": {"n": n}, "ev": self.ev}


def sessions(rngs):
    return [Session(r).run(r.choice([10, 20, 40])) for r in rngs]


def run(ctx):
    ctx.model("AuthSpaceMC", """SPECIFICATION Spec
CONSTANTS Requests = %d Moves = %d
INVARIANTS Inside Prompted Bounded
CHECK_DEADLOCK FALSE
""" % ctx.pick((2, 1), (3, 2)))
    jobs = [[random.Random(ctx.rng.random()) for i in range(5)]
            for j in range(ctx.pick(160, 3000))]
    traces = [t for ts in vlib.pmap(sessions, jobs, chunk=1) for t in ts]
    ctx.validate("AuthSpaceTrace", traces, CFG, label="credentials")
