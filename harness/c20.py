"""C20: WSGI dispatching and request data against spec/Dispatch.tla"""
import io
import itertools
import logging
import os
import shutil
import tempfile
import warnings

try:
    from urllib.parse import quote_from_bytes, unquote_to_bytes
except ImportError:
    raise

from pyslet import wsgi

import vlib

CFG = "CONSTANT TInit <- DInit\nCONSTANT TStep <- DStep\n" \
      "CONSTANT TWhy <- DWhy\n"


def hexa(s):
    if not isinstance(s, bytes):
        s = s.encode("utf-8")
    return s.hex()


class Short(io.BytesIO):

    """An input that returns what has arrived so far"""

    def read(self, n=-1):
        k = len(self.getvalue())
        return io.BytesIO.read(self, min(n, 1 + k // 3) if n > 0 else n)


def environ(script=b"", info=b"/", query="", method="GET", body=b"",
            ctype=None, cookie=None):
    # PEP 3333: paths are bytes decoded as ISO-8859-1
    e = {"SCRIPT_NAME": script.decode("latin-1"),
         "PATH_INFO": info.decode("latin-1"), "QUERY_STRING": query,
         "REQUEST_METHOD": method, "SERVER_NAME": "localhost",
         "SERVER_PORT": "8080", "wsgi.url_scheme": "http",
         "wsgi.input": io.BytesIO(body)}
    if body or ctype:
        e["CONTENT_LENGTH"] = str(len(body))
    if ctype:
        e["CONTENT_TYPE"] = ctype
    if cookie is not None:
        e["HTTP_COOKIE"] = cookie
    return e


def new_app():
    class App(wsgi.WSGIApp):
        pass
    App.setup()
    return App


class Call(object):

    def __init__(self, app, env, wrapped=False):
        self.status = None
        self.starts = 0
        self.headers = []
        entry = app.call_wrapper if wrapped else app
        self.data = b"".join(entry(env, self.start))

    def start(self, status, headers, exc_info=None):
        self.status = int(status.split()[0])
        self.headers = headers
        self.starts += 1


def play_set(job):
    regs, paths = job
    app = new_app()()
    ran = []

    def handler(i):
        def f(context):
            ran.append(i)
            context.set_status(200)
            return app.text_response(context, u"%i" % i)
        return f

    for i, pat in enumerate(regs):
        app.set_method("/".join(pat), handler(i + 1))
    res = []
    for p in paths:
        del ran[:]
        c = Call(app, environ(info="/".join(p).encode("ascii")))
        if c.status == 200 and len(ran) == 1 and \
                c.data == b"%i" % ran[0]:
            r = ran[0]
        elif c.status == 404 and not ran:
            r = 0
        else:
            r = -1
        res.append([list(p), r])
    return {"n": "set", "regs": [{"pat": list(p), "id": i + 1}
                                 for i, p in enumerate(regs)], "res": res}


def with_context(env, f):
    app = new_app()()
    out = []

    def handler(context):
        out.append(f(context))
        context.set_status(200)
        return app.text_response(context, u"ok")

    app.set_method("/*", handler)
    c = Call(app, env, True)
    if c.status != 200 or not out:
        return None
    return out[0]


def url_bytes(u):
    """The octets of a URL, percent escapes resolved in its path only"""
    s = str(u)
    path, mark, query = s.partition("?")
    return unquote_to_bytes(path) + (mark + query).encode("ascii")


def play_url(job):
    script, info, params = job
    q = "&".join(quote_from_bytes(n) + "=" + quote_from_bytes(v, "")
                 .replace("%20", "+") for n, v in params)

    def f(context):
        one = context.get_query()
        r = sorted([hexa(n), hexa(v)] for n, v in one.items())
        return (url_bytes(context.get_url()),
                url_bytes(context.get_app_root()), r,
                context.get_query() is one)

    r = with_context(environ(script, info, q), f)
    if r is None:
        r = (b"", b"", [], False)
    return {"n": "url", "root": hexa("http://localhost:8080"),
            "script": hexa(script), "info": hexa(info), "qtext": hexa(q),
            "slash": script.endswith(b"/"),
            "params": [[hexa(n), hexa(v)] for n, v in params],
            "url": hexa(r[0]), "app": hexa(r[1]), "query": r[2],
            "again": r[3]}


INTS = {"0": "0", "12": "12", "-3": "-3", "007": "7",
        "123456789012345678901": "123456789012345678901"}


def play_form(job):
    params, multipart, mode = job
    if multipart:
        bd = b"xXxBOUNDARYxXx"
        body = b""
        for n, v in params:
            body += (b"--" + bd + b"\r\nContent-Disposition: form-data; "
                     b'name="' + n + b'"\r\n\r\n' + v + b"\r\n")
        body += b"--" + bd + b"--\r\n"
        ctype = "multipart/form-data; boundary=" + bd.decode("ascii")
    else:
        body = "&".join(
            quote_from_bytes(n) + "=" + quote_from_bytes(v, "")
            .replace("%20", "+") for n, v in params).encode("ascii")
        ctype = "application/x-www-form-urlencoded"
    names = sorted(set([n for n, v in params] + [b"zz"]))

    def f(context):
        got, content = [], "-"
        if mode == "content":
            # whichever is called first takes precedence
            content = hexa(context.get_content())
            if context.get_form() is not None:
                content = "form"
            if hexa(context.get_content()) != content:
                content = "changed"
        else:
            form = context.get_form()
            if context.get_form() is not form:
                content = "again"
            for n in names:
                n = n.decode("utf-8")
                try:
                    i = context.get_form_long(n)
                    i = "none" if i is None else "%i" % i
                except wsgi.BadRequest:
                    i = "bad"
                got.append([hexa(n), hexa(context.get_form_string(n)), i])
            if context.get_content() is not None:
                content = "content"
        return got, content

    env = environ(method="POST", query="zz=query", body=body, ctype=ctype)
    if mode == "content":
        env["wsgi.input"] = Short(body)
    r = with_context(env, f)
    if r is None:
        r = ([["", "failed", ""]], "failed")
    return {"n": "form", "params": [[hexa(n), hexa(v)] for n, v in params],
            "ints": {hexa(k): v for k, v in INTS.items()},
            "got": r[0], "content": r[1],
            "expect": hexa(body) if mode == "content" else "-"}


def play_cookie(job):
    params, sep = job
    text = sep.join(n + "=" + v for n, v in params)

    def f(context):
        one = context.get_cookies()
        got = sorted([hexa(n), [hexa(x) for x in v.split(b",")]]
                     for n, v in one.items())
        return got if context.get_cookies() is one else []

    r = with_context(environ(cookie=text if params else None), f)
    return {"n": "cookie", "params": [[hexa(n), hexa(v)] for n, v in params],
            "got": [["", []]] if r is None else r, "text": text}


def play_raise(what):
    app = new_app()()

    def handler(context):
        if what == "ok":
            context.set_status(200)
            return app.text_response(context, u"ok")
        raise (ValueError if what == "ValueError" else
               getattr(wsgi, what))("expected")

    app.set_method("/*", handler)
    logging.disable(logging.CRITICAL)
    c = Call(app, environ())
    return {"n": "raise", "what": what, "status": c.status,
            "starts": c.starts}


FILES = [["f.txt"], ["d", "g.html"], ["d", "e", "h.css"], ["d-1", "i.ico"],
         ["d", "x"], ["d", "y.tar.gz"], ["-bad", "j.txt"], ["k_l.txt"],
         ["d", ".hid"], [u"\xe9.txt"]]
# the last ones are there, but their names are not of the form served
SERVED = 4


def play_static(paths):
    top = tempfile.mkdtemp()
    try:
        out = []
        root = os.path.join(top, "root")
        os.makedirs(root)
        with open(os.path.join(top, "out.txt"), "wb") as f:
            f.write(b"outside")
        for p in FILES:
            d = os.path.join(root, *p[:-1])
            if not os.path.isdir(d):
                os.makedirs(d)
            with open(os.path.join(d, p[-1]), "wb") as f:
                f.write("/".join(p).encode("utf-8") * 3)
        cls = new_app()
        cls.static_files = root
        cls.MAX_CHUNK = 4
        app = cls()
        app.set_method("/*", app.static_page)
        for p in paths:
            c = Call(app, environ(info="/".join(p).encode("utf-8")))
            got = [c.status, []]
            if c.status == 200:
                for x in FILES:
                    if "/".join(x).encode("utf-8") * 3 == c.data and \
                            dict(c.headers)["Content-Length"] == \
                            str(len(c.data)):
                        got[1] = x
            out.append({"n": "static", "path": list(p),
                        "files": FILES[:SERVED], "got": got})
        return out
    finally:
        shutil.rmtree(top)


def job(x):
    warnings.simplefilter("ignore")
    kind, items = x
    if kind == "static":
        ev = play_static(items)
    else:
        f = {"set": play_set, "url": play_url, "form": play_form,
             "cookie": play_cookie, "raise": play_raise}[kind]
        ev = [f(i) for i in items]
    return {"cfg": {"_": 0}, "ev": ev}


def allpaths(segs, n):
    return [("",) + p for i in range(n + 1)
            for p in itertools.product(segs, repeat=i)]


WORDS = [b"a", b"b c", b"\xc3\xa9", b"x&y", b"p=q", b"1+1", b"50%", b"",
         b"a,b", b"#?/", b";", b"\xe2\x82\xac", b"A%20B", b'"']


def run(ctx):
    rng = ctx.rng
    ctx.model("DispatchMC", "CONSTANTS K = %d\nDepth = 2\nINIT Init\n"
              "NEXT Next\nINVARIANTS Same Order\nCHECK_DEADLOCK FALSE\n" %
              ctx.pick(3, 4), name="DispatchMC")
    jobs = []
    pats = allpaths(["a", "b", "*"], 2) + \
        [p for p in allpaths(["a", "b", "*", ""], 3) if len(p) > 3]
    short = allpaths(["a", "b", "*"], 2)
    paths = allpaths(["a", "b", "c", ""], 3)
    sets = [[p] for p in pats]
    sets += [list(s) for s in itertools.permutations(short, 2)]
    for i in range(ctx.pick(900, 12000)):
        k = rng.choice([2, 3, 3, 4, 5, 6])
        s = [rng.choice(pats) for j in range(k)]
        if rng.random() < 0.5:
            # near neighbours
            base = rng.choice(pats)
            s = [tuple(rng.choice([x, x, "*", "a"]) if j else x
                       for j, x in enumerate(base + tuple(
                           rng.choice("ab*")
                           for z in range(rng.randint(0, 1)))))
                 for q in range(k)]
        sets.append(s)
    sets = [(s, rng.sample(paths, 40) if not ctx.thorough else paths)
            for s in sets]
    jobs += [("set", sets[i:i + 10]) for i in range(0, len(sets), 10)]

    def words(n):
        return [(rng.choice(WORDS[:4] + [b"n"]), rng.choice(WORDS))
                for i in range(rng.randint(0, n))]

    urls = []
    for i in range(ctx.pick(1500, 20000)):
        script = b"".join(b"/" + rng.choice(WORDS[:9] + [b"s"])
                          for j in range(rng.choice([0, 0, 1, 2])))
        info = b"".join(b"/" + rng.choice(WORDS)
                        for j in range(rng.randint(1, 3)))
        urls.append((script, info, words(4)))
    jobs += [("url", urls[i:i + 30]) for i in range(0, len(urls), 30)]
    forms = []
    for i in range(ctx.pick(900, 9000)):
        multi = rng.random() < 0.3
        ps = [(n, rng.choice([k.encode("ascii") for k in INTS] +
                             [b"x", b"1.5", b"12a", b""])
               if rng.random() < 0.6 else v) for n, v in words(4)]
        if multi:
            ps = [(n, v) for n, v in ps
                  if max(n + v + b"a") < 128 and b'"' not in n] or \
                [(b"a", b"12")]
        forms.append((ps, multi,
                      "content" if rng.random() < 0.15 else "form"))
    jobs += [("form", forms[i:i + 30]) for i in range(0, len(forms), 30)]
    cookies = []
    vals = ["1", "x", "a=b", "", "AbC-._~", "%20", '"q"', "2", "x y"]
    for i in range(ctx.pick(900, 9000)):
        cookies.append((
            [(rng.choice(["a", "A", "b", "sid", "$x"]), rng.choice(vals))
             for j in range(rng.randint(0, 5))],
            rng.choice(["; ", "; ", "; ", ";", ";  "])))
    jobs += [("cookie", cookies[i:i + 30])
             for i in range(0, len(cookies), 30)]
    jobs.append(("raise", ["ok", "BadRequest", "PageNotFound",
                           "PageNotAuthorized", "MethodNotAllowed",
                           "SessionError", "ValueError"]))
    segs = ["", "d", "e", "f.txt", "g.html", "h.css", "..", ".", "d-1",
            "i.ico", "out.txt", "x", "y.tar.gz", "-bad", "j.txt",
            "k_l.txt", ".hid", u"\xe9.txt", u"\xe9", "nope", "nope.txt",
            "f.txt\n", "f.txt\x00", "d\\", "%2e%2e"]
    stat = [("",) + p for n in (1, 2) for p in itertools.product(
        segs, repeat=n)]
    stat += [("",) + tuple(rng.choice(segs) for j in range(rng.randint(3, 5)))
             for i in range(ctx.pick(400, 4000))]
    stat += [("",) + tuple(f[:-1]) + (f[-1],) for f in FILES]
    jobs += [("static", stat[i:i + 150]) for i in range(0, len(stat), 150)]
    ctx.validate("DispatchTrace", vlib.pmap(job, jobs), CFG)
