"""C15: validating histories of cookie stores against spec/CookieStore.tla"""
import logging
import random
import time

import vlib

real_time = time.time


class Clock(object):
    now = None

    def __call__(self):
        return real_time() if self.now is None else self.now


CLOCK = Clock()
time.time = CLOCK
from pyslet.http import cookie  # noqa: E402
from pyslet.rfc2396 import URI  # noqa: E402

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- CInit\nCONSTANT TStep <- CStep\n" \
      "CONSTANT TWhy <- CWhy\n"
BASE = 1700000000
NEVER = -1


def path_text(p):
    return "".join("/" + x for x in p)


def dtext(d):
    return ".".join(reversed(d))


def rules_text(pub, exc, rng):
    lines = [dtext(r) for r in pub] + ["!" + dtext(r) for r in exc]
    rng.shuffle(lines)
    for x in ("// a comment", ""):
        if rng.random() < 0.2:
            lines.insert(rng.randint(0, len(lines)), x)
    return "\n".join(l + rng.choice(["", "", " // x"]) if l.strip() else l
                     for l in lines)


# ---- the printed cases ----

def psl_case(row, rng):
    s = cookie.CookieStore()
    s.set_public_list(rules_text(row["pub"], row["exc"], rng), row["depth"])
    bad = []
    for d, reg in row["ans"]:
        text = dtext(d)
        if rng.random() < 0.2:
            text = text.upper()
        got = s.get_registered_domain(text)
        got = [] if got is None else list(reversed(got.split(".")))
        if got != reg or s.test_public_domain(text) != (reg == []):
            bad.append({"rules": row["pub"], "exc": row["exc"],
                        "depth": row["depth"], "domain": text,
                        "expected": reg, "observed": got})
    return len(row["ans"]), bad


def path_case(row):
    bad = []
    c = path_text(row["c"])
    for r in row["yes"] + row["no"]:
        s = cookie.CookieStore()
        s.set_cookie(URI.from_octets("http://a.x/"),
                     cookie.Cookie.from_str(("n=v; Path=" + c).encode()))
        got = len(s.search(URI.from_octets("http://a.x" + path_text(r))))
        if got != int(r in row["yes"]):
            bad.append({"cookie path": c, "request path": path_text(r),
                        "matched": got})
    s = cookie.CookieStore()
    k = cookie.Cookie.from_str(b"n=v")
    s.set_cookie(URI.from_octets("http://a.x" + c + "?q=/z"), k)
    if k.path != path_text(row["def"]):
        bad.append({"request path": c, "default": k.path})
    return len(row["yes"]) + len(row["no"]) + 1, bad


def cases(job):
    rng, rows = job
    n, bad = 0, []
    for row in rows:
        k, b = psl_case(row, rng) if row["k"] == "psl" else path_case(row)
        n += k
        bad += b
    return n, bad


# ---- histories ----

DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday",
        "Sunday"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep",
          "Oct", "Nov", "Dec"]


def date_text(rng, u):
    t = time.gmtime(BASE + u)
    d, m = DAYS[t.tm_wday], MONTHS[t.tm_mon - 1]
    hms = "%02d:%02d:%02d" % t[3:6]
    r = rng.randrange(6)
    if r == 0:
        return "%s, %02d-%s-%02d %s GMT" % (d, t.tm_mday, m, t.tm_year % 100,
                                            hms)
    elif r == 1:
        return "%s %s %2d %s %04d" % (d[:3], m, t.tm_mday, hms, t.tm_year)
    elif r == 2:
        return "%s, %02d-%s-%04d %s GMT" % (d[:3], t.tm_mday, m, t.tm_year,
                                            hms)
    elif r == 3:
        return "%d %s %04d %d:%d:%d" % (t.tm_mday, m.upper(), t.tm_year,
                                        t[3], t[4], t[5])
    return "%s, %02d %s %04d %s GMT" % (d[:3], t.tm_mday, m, t.tm_year, hms)


BAD_DATES = ["", "yesterday", "Fri, 31 Feb 2023 00:00:00 GMT",
             "Tue, 14 Nov 2023 24:00:00 GMT", "Tue, 14 Nov 2023",
             "32 Nov 2023 10:00:00", "14 Nov 1500 10:00:00",
             "14 Noo 2023 10:00:00", "Nov 2023 10:60:00"]


def some_case(rng, s):
    return rng.choice([s, s, s.lower(), s.upper()])


def u_label(rng, d):
    """a spelling of a domain"""
    out = []
    for x in reversed(d):
        if x == "xn--bcher-kva" and rng.random() < 0.5:
            x = "b\u00fccher"
        elif rng.random() < 0.2:
            x = x.upper()
        out.append(x)
    return ".".join(out)


class History(object):

    def __init__(self, rng):
        self.rng = rng
        L = rng.sample(["a", "b", "c", "ab", "xn--bcher-kva", "www"], 3)
        top = rng.choice(["x", "com", "x1"])
        self.hosts = [[top], [top, L[0]], [top, L[0], L[1]],
                      [top, L[0], L[1], L[2]], [top, L[1]],
                      [top, L[2], L[1]], ["y" + top, L[0]],
                      [top, L[0], L[2]]]
        self.hosts = rng.sample(self.hosts, 5) + \
            rng.choice([[], [["10.0.0.1"]], [["110.0.0.1"], ["10.0.0.1"]]])
        self.depth = rng.choice([1, 1, 1, 1, 2, 255, 0])
        self.pub = rng.choice([
            [], [], [[top]], [[top, "*"]], [[top], [top, L[0]]],
            [[top, L[0], "*"]], [[top, L[0], L[1]]]])
        self.exc = []
        r = rng.random()
        if [top, "*"] in self.pub and r < 0.6:
            self.exc = [[top, rng.choice(L)]]
        elif [top, L[0], "*"] in self.pub and r < 0.6:
            self.exc = [[top, L[0], L[1]]]
        elif self.depth == 255 and not self.pub:
            self.exc = rng.choice([[[top, L[0]]], [[top, L[0]], [top, L[1]]],
                                   [[top, L[0], L[1]]]])
        elif self.depth == 2 and not self.pub and r < 0.5:
            self.exc = [[top, L[0]]]
        self.rules = [[top, L[0], "*"], [top, L[1]], [top, L[1], "*"],
                      [top, L[0]], [top, L[0], L[1]]]
        self.segs = rng.choice([["a", "b"], ["a", "aa"], ["a", "b", "c"]])
        self.names = rng.choice([["n"], ["n", "m"], ["n", "N", "o"]])
        self.now = 1000
        self.ev = []
        self.n = 0
        self.store = cookie.CookieStore()
        self.store.set_public_list(
            rules_text(self.pub, self.exc, rng), self.depth)
        self.jar = {}

    def path(self):
        rng = self.rng
        p = [rng.choice(self.segs) for i in range(rng.choice([0, 1, 1, 2,
                                                              3]))]
        if not p or rng.random() < 0.25:
            p.append("")
        return p

    def url(self):
        rng = self.rng
        h, p = rng.choice(self.hosts), self.path()
        secure = rng.random() < 0.4
        text = dtext(h)
        if rng.random() < 0.1:
            text = text.upper()
        pt = path_text(p)
        if p == [""] and rng.random() < 0.5:
            pt = ""
        elif rng.random() < 0.2:
            pt += "?q=/a/b"
        u = some_case(rng, "https" if secure else "http") + "://" + text + \
            rng.choice(["", "", "", ":8080"]) + pt
        return URI.from_octets(u), {"host": h, "path": p, "secure": secure}, u

    def set(self):
        rng = self.rng
        url, u, utext = self.url()
        a = {"name": rng.choice(self.names), "dom": [], "path": [],
             "secure": False, "age": [], "exp": NEVER}
        av = []
        if rng.random() < 0.6:
            # a domain
            r = rng.random()
            if r < 0.75:
                d = u["host"]
                if len(d) > 1:
                    d = d[:rng.randint(1, len(d))]
            else:
                d = rng.choice(self.hosts)
            if r > 0.93 and u["host"][0].endswith(".1"):
                d = ["1", "0"]
            a["dom"] = d
            av.append(some_case(rng, "Domain") + "=" +
                      rng.choice(["", "", "."]) + u_label(rng, d))
        elif rng.random() < 0.2:
            av.append("Domain" + rng.choice(["=", "", "=a.x."]))
        if rng.random() < 0.6:
            a["path"] = self.path()
            if rng.random() < 0.15:
                av.append("Path=/other")
            av.append(some_case(rng, "Path") + "=" + path_text(a["path"]))
        elif rng.random() < 0.2:
            av.append("Path=" + rng.choice(["", "a", "a/b"]))
        if rng.random() < 0.4:
            a["secure"] = True
            # see flags() about a space before Secure
            av.append(some_case(rng, "Secure") + "=")
        http = rng.random() < 0.3
        if http:
            av.append(some_case(rng, "HttpOnly"))
        if rng.random() < 0.35:
            x = self.now + rng.choice([-50, -1, 0, 1, 2, 5, 20, 20, 50])
            a["exp"] = x
            av.append(some_case(rng, "Expires") + "=" + date_text(rng, x))
        elif rng.random() < 0.1:
            av.append("Expires=" + rng.choice(BAD_DATES))
        if rng.random() < 0.3:
            g = rng.choice([0, -5, 1, 2, 5, 20, 20, 50])
            a["age"] = [g]
            av.append(some_case(rng, "Max-Age") + "=" + str(g))
        elif rng.random() < 0.1:
            av.append("Max-Age=" + rng.choice(["", "x", "1x", "1.5", "+5"]))
        if rng.random() < 0.1:
            av.append(rng.choice(["", "Foo", "Foo=bar", "=", "Pathx=/z"]))
        if a["path"] and "Path=/other" in av:
            # the last one counts
            i = av.index("Path=/other")
            fixed, rest = av[:i + 1], av[i + 1:]
            head = [x for x in fixed[:-1]]
            rng.shuffle(head)
            rng.shuffle(rest)
            av = head + ["Path=/other"] + rest
        else:
            rng.shuffle(av)
        i = self.n
        self.n += 1
        value = rng.choice(["v", "", '"q"', "a=b"])
        sep = rng.choice(["; ", "; ", ";", " ; "])
        text = "%s=%s" % (a["name"], value) + "".join(sep + x for x in av)
        c = cookie.Cookie.from_str(text.encode("utf-8"))
        e = {"k": "set", "id": i, "now": self.now, "u": u, "a": a,
             "ok": True, "url": utext, "text": text}
        try:
            self.store.set_cookie(url, c)
            self.jar[id(c)] = (i, c)
        except cookie.CookieError:
            e["ok"] = False
        return e

    def show(self, c):
        i, k = self.jar.get(id(c), (-1, c))
        return {"id": i, "made": int(c.creation_time) - BASE,
                "used": int(c.access_time) - BASE}

    def search(self):
        url, u, utext = self.url()
        got = self.store.search(url)
        return {"k": "search", "now": self.now, "u": u, "url": utext,
                "r": [dict(self.show(c), path=c.path[1:].split("/"))
                      for c in got]}

    def domain(self):
        d = self.rng.choice(self.hosts[:5])
        if self.rng.random() < 0.5:
            d = d + [self.rng.choice(["a", "b", "q"])]
        reg = self.store.get_registered_domain(dtext(d))
        return {"k": "domain", "d": d,
                "public": self.store.test_public_domain(dtext(d)),
                "reg": [] if reg is None else list(reversed(
                    reg.split(".")))}

    def step(self):
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            return self.set()
        elif r < 0.88:
            return self.search()
        elif r < 0.92:
            at = self.now + rng.choice([0, 0, 1, 5, 20])
            if rng.random() < 0.5 and at == self.now:
                self.store.expire_cookies()
            else:
                self.store.expire_cookies(BASE + at)
            return {"k": "expire", "at": at}
        elif r < 0.94:
            at = self.now + rng.choice([0, 0, 5])
            if rng.random() < 0.5 and at == self.now:
                self.store.end_session()
            else:
                self.store.end_session(BASE + at)
            return {"k": "end", "at": at}
        elif r < 0.96 and not self.exc:
            rule = rng.choice(self.rules)
            self.store.add_public_suffix(dtext(rule))
            return {"k": "rule", "rule": rule}
        return self.domain()

    def run(self, n):
        for i in range(n):
            if self.rng.random() < 0.6:
                self.now += self.rng.choice([1, 1, 1, 2, 5, 10])
            CLOCK.now = BASE + self.now
            self.ev.append(self.step())
        CLOCK.now = None
        return {"cfg": {"depth": self.depth, "pub": self.pub,
                        "exc": self.exc}, "ev": self.ev}


def flags():
    """Secure without a value, with and without a space before it"""
    return [{"cfg": {"depth": 1, "pub": [], "exc": []}, "ev": [
        {"k": "flags", "text": t, "given": True, "secure":
         cookie.Cookie.from_str(t.encode()).secure}]}
        for t in ("n=v;Secure", "n=v;secure;Path=/", "n=v; Secure",
                  "n=v; Path=/; secure; HttpOnly")]


def histories(rngs):
    return [History(r).run(r.choice([30, 60, 120])) for r in rngs]


def run(ctx):
    ctx.model("CookieStoreMC", """SPECIFICATION Spec
CONSTANTS Times = 2 Jar = 2
INVARIANTS OneOfEach Confined SameSite Secret Fresh OldestName
CHECK_DEADLOCK FALSE
""" if ctx.thorough else """SPECIFICATION Spec
CONSTANTS Times = 2 Jar = 1
INVARIANTS OneOfEach Confined SameSite Secret Fresh OldestName
CHECK_DEADLOCK FALSE
""")
    rows = ctx.model("CookieCases", """SPECIFICATION Spec
CONSTANTS Depths = %s Many = %d
INVARIANTS Chars Lengths Reg
CHECK_DEADLOCK FALSE
""" % ctx.pick(("{1,2,9}", 1), ("{0,1,2,9}", 2)), emit=True)
    n = 0
    jobs = [(random.Random(ctx.rng.random()), rows[i::64])
            for i in range(64)]
    for k, bad in vlib.pmap(cases, jobs, chunk=1):
        n += k
        for b in bad:
            ctx.violation("replay", {"cfg": {}, "ev": [b]}, at=1)
    ctx.validated += n
    ctx.extra["replayed_cases"] = n
    jobs = [[random.Random(ctx.rng.random()) for i in range(10)]
            for j in range(ctx.pick(96, 1600))]
    traces = [t for ts in vlib.pmap(histories, jobs, chunk=1) for t in ts]
    ctx.validate("CookieStoreTrace", traces, CFG, label="cookie stores")
    ctx.validate("CookieStoreTrace", flags(), CFG, label="Secure attributes")
