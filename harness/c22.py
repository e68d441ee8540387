"""C22: URI references against spec/URI.tla"""
import itertools
import re

from pyslet import rfc2396 as uri

import vlib

CFG = "CONSTANT TInit <- UInit\nCONSTANT TStep <- UStep\n" \
      "CONSTANT TWhy <- UWhy\n"

# the expression of RFC 2396, appendix B
REF = re.compile(r"^(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)"
                 r"(?:\?([^#]*))?(?:#(.*))?$")


def opt(x):
    return [] if x is None else [x]


def ref(s=None, a=None, path=None, q=None, f=None):
    """A reference; path as text"""
    if not path:
        k, p = "none", []
    elif path.startswith("/"):
        k, p = "abs", path[1:].split("/")
    else:
        k, p = "rel", path.split("/")
    return {"s": opt(s), "a": opt(a), "k": k, "p": p, "q": opt(q),
            "f": opt(f)}


def parse(text):
    s, a, path, q, f = REF.match(text).groups()
    return ref(s, a, path, q, f)


def text(u):
    return ("".join(x + ":" for x in u["s"]) +
            "".join("//" + x for x in u["a"]) +
            ("/" if u["k"] == "abs" else "") + "/".join(u["p"]) +
            "".join("?" + x for x in u["q"]) +
            "".join("#" + x for x in u["f"]))


def components(x):
    """What the code says it is made of"""
    return ref(x.scheme, x.authority,
               x.abs_path if x.abs_path is not None else x.rel_path,
               x.query, x.fragment)


def ev_parse(u):
    t = text(u)
    x = uri.URI.from_octets(t)
    return {"n": "parse", "u": u, "text": t, "str": str(x),
            "c": components(x)}


def ev_resolve(b, r, direct=True):
    base = uri.URI.from_octets(text(b))
    v = str(uri.URI.from_octets(text(r)).resolve(
        base if direct else text(b)))
    return {"n": "resolve", "b": b, "r": r, "v": parse(v), "text": v}


def ev_rel(u, b, direct=True):
    base = uri.URI.from_octets(text(b))
    x = uri.URI.from_octets(text(u))
    e = {"n": "rel", "u": u, "b": b}
    try:
        v = x.relative(base if direct else text(b))
    except uri.URIRelativeError:
        e["err"] = True
        return e
    back = v.resolve(base)
    e.update(err=False, v=parse(str(v)), text=str(v),
             back=parse(str(back)))
    return e


def event(job):
    kind, args = job[0], job[1:]
    f = {"parse": ev_parse, "resolve": ev_resolve, "rel": ev_rel,
         "canon": ev_canon}[kind]
    return f(*args)


def batch(jobs):
    return {"cfg": {"_": 0}, "ev": [event(j) for j in jobs]}


def ctext(u):
    return ("".join(x + ":" for x in u["s"]) +
            ("//" + "".join(x + "@" for x in u["ui"]) + u["h"][0] +
             "".join(":" + x for x in u["po"]) if u["h"] else "") +
            "".join(u["p"]) +
            "".join("?" + "".join(x) for x in u["q"]) +
            "".join("#" + "".join(x) for x in u["f"]))


def ev_canon(u, v):
    t = ctext(u)
    x, y = uri.URI.from_octets(t), uri.URI.from_octets(ctext(v))
    cx = x.canonicalize()
    # equality before and after the canonical form is cached
    eq = uri.URI.from_octets(t) == uri.URI.from_octets(ctext(v))
    rel = [x < y, x == y, x > y]
    ok = (rel.count(True) == 1 and (x <= y) == (rel[0] or rel[1]) and
          (x >= y) == (rel[2] or rel[1]) and (x != y) == (not rel[1]) and
          rel[1] == eq)
    root = x.get_canonical_root()
    e = {"n": "canon", "u": u, "v": v, "text": t, "str": str(x),
         "cu": str(cx), "ccu": str(cx.canonicalize()),
         "cv": str(y.canonicalize()), "eq": eq, "match": x.match(y),
         "hash": hash(x) == hash(y), "lt": 1 if ok else 0,
         "root": "" if root is None else str(root), "addr": []}
    if isinstance(x, uri.ServerBasedURL):
        h, p = x.get_addr()
        e["addr"] = [str(h), str(p)]
    return e


SEGS = ["", ".", "..", "a", "b", "a:b"]


def paths(n, segs=SEGS):
    for i in range(1, n + 1):
        for p in itertools.product(segs, repeat=i):
            yield "/".join(p)


def good(u):
    """Can u be written down at all?"""
    t = text(u)
    return parse(t) == u


def universe(ctx):
    n = ctx.pick(3, 4)
    rels = list(paths(3))
    some = ["a", "a/b", "a/b/", "b/a/../b", "..", "", ".//a", "a//b"]
    bases, refs = [], []
    for p in paths(3):
        bases.append(ref("x", "h", "/" + p))
        bases.append(ref("http", "h", "/" + p, q="q"))
        refs.append(ref(path=p))
        refs.append(ref(path=p, q="y"))
    for p in paths(n, ["", "..", "a", "b"]):
        bases.append(ref("http", "h", "/" + p))
        refs.append(ref(path=p))
    for p in some:
        for s in (None, "x", "http", "HTTP"):
            for a in (None, "h", "u@H:80", ""):
                for q in (None, "", "q", "a/../b?c"):
                    for f in (None, "", "f"):
                        bases.append(ref(s, a, "/" + p, q, f))
                        refs.append(ref(s, a, "/" + p, q, f))
                        if s is None and a is None:
                            refs.append(ref(path=p, q=q, f=f))
                            bases.append(ref(path=p, q=q, f=f))
    for s in (None, "x", "http"):
        for a in ("h", "u@H:80"):
            for q in (None, "", "q"):
                for f in (None, "", "f"):
                    bases.append(ref(s, a, "", q, f))
                    refs.append(ref(s, a, "", q, f))
    for q in (None, "", "q"):
        for f in (None, "", "f"):
            refs.append(ref(q=q, f=f))
    return ([b for b in bases if good(b)], [r for r in refs if good(r)])


TOKENS = ["a", "A", "%41", "%61", "~", "%7e", "%7E", "%2f", "%2F", "%3a",
          "%3A", "%e9", "%E9", ".", "%2E", "_", "%5f", ";", "=", "%25",
          "%20", "+", "-", "1"]


def canon_urn(rng):
    return {"s": [rng.choice(["urn", "URN"])], "ui": [], "h": [], "po": [],
            "p": [rng.choice(["abc", "ABC", "a1", "A1"]), ":"] +
            [rng.choice([t for t in TOKENS if t != "~"])
             for i in range(rng.randint(1, 5))],
            "q": [], "f": [["f"]] if rng.random() < 0.2 else []}


def canon_uri(rng):
    if rng.random() < 0.15:
        return canon_urn(rng)
    s = rng.choice([None, "http", "HTTP", "Http", "https", "HTTPS", "file",
                    "FILE", "x", "X", "http", "http"])
    h = rng.choice(["h", "H", "abc", "ABC", "h"])
    if s is None or (s in "xX" and rng.random() < 0.3):
        h = None
    if s and s.lower() == "file":
        h = rng.choice(["h", "H", ""])
    po = None
    if h is not None and h != "":
        po = rng.choice([None, None, "", "80", "080", "443", "0443", "81",
                         "8080"])
    ui = rng.choice([None, None, None, "u", "u:p", "U"]) if h else None

    def toks(n):
        return [rng.choice(TOKENS) for i in range(rng.randint(0, n))]

    p = []
    while rng.random() < 0.6:
        p += ["/"] + toks(3)
    if h is None and (not p or "".join(p).startswith("//")):
        p = ["/", "a"] + p
    q = [toks(3) + (["/", "?"] if rng.random() < .2 else [])] \
        if rng.random() < 0.4 else []
    f = [toks(2)] if rng.random() < 0.3 else []
    return {"s": opt(s), "ui": opt(ui), "h": opt(h), "po": opt(po), "p": p,
            "q": q, "f": f}


VARIANTS = {}
for _group in (["a", "%61"], ["A", "%41"], ["~", "%7e", "%7E"],
               ["%2f", "%2F"], ["%3a", "%3A"], ["%e9", "%E9"],
               [".", "%2E"], ["_", "%5f"], ["http", "HTTP", "Http"],
               ["https", "HTTPS"], ["file", "FILE"], ["x", "X"],
               ["h", "H"], ["abc", "ABC"], ["urn", "URN"], ["a1", "A1"], ["80", "080", "443"],
               ["81", "8080"]):
    for _t in _group:
        VARIANTS[_t] = _group


def vary(rng, u):
    """Another URI, perhaps an equivalent one"""
    v = {k: list(x) for k, x in u.items()}
    for k in ("s", "h", "po", "p", "q", "f"):
        if k in "qf" and v[k]:
            v[k] = [[rng.choice(VARIANTS.get(t, [t]))
                     if k == "q" or rng.random() < 0.05 else t
                     for t in v[k][0]]]
        elif k == "h" and v[k] and v["s"] and v["s"][0] in "xX" \
                and rng.random() < 0.8:
            pass
        elif k == "p" and v["s"] and v["s"][0].lower() in (
                "x", "file") and rng.random() < 0.8:
            pass
        else:
            v[k] = [rng.choice(VARIANTS.get(t, [t])) for t in v[k]]
    if v["s"] and v["s"][0] in ("urn", "URN"):
        # ~ is not a URN character
        v["p"] = ["%7e" if t == "~" else t for t in v["p"]]
        if rng.random() < 0.1:
            v["f"] = rng.choice([[], [["f"]]])
    if v["h"] and rng.random() < 0.4:
        if v["po"] in ([], ["80"], ["080"], [""], ["443"]):
            v["po"] = rng.choice([[], ["80"], ["080"], [""], ["443"]])
        if "".join(v["p"]) in ("", "/"):
            v["p"] = rng.choice([[], ["/"]])
    return v


def run(ctx):
    ctx.model("URIMC", "CONSTANTS MaxSegs = %d\nINIT Init\nNEXT Next\n"
              "INVARIANTS Idem RoundTrip Assoc\nCHECK_DEADLOCK FALSE\n" %
              ctx.pick(3, 4), name="URIMC")
    rng = ctx.rng
    bases, refs = universe(ctx)
    jobs = [("parse", u) for u in bases + refs]
    small = [b for b in bases if b["q"] == [] and len(b["p"]) <= 2 and
             b["s"] == ["x"]]
    short = [r for r in refs if len(r["p"]) <= 2]
    # all small pairs, and many of the others
    for b in small:
        for r in short if ctx.thorough else rng.sample(short, 150):
            jobs.append(("resolve", b, r))
            if text(r) and not text(r).startswith("#"):
                jobs.append(("rel", r, b))
        for u in small:
            jobs.append(("rel", u, b))
    for x in range(ctx.pick(20000, 400000)):
        jobs.append(("resolve", rng.choice(bases), rng.choice(refs),
                     rng.random() < 0.9))
        b = rng.choice(bases)
        u = rng.choice(bases)
        if rng.random() < 0.7:
            u = dict(u, s=b["s"], a=b["a"])
            if not good(u):
                continue
        jobs.append(("rel", u, b, rng.random() < 0.9))
    for x in range(ctx.pick(15000, 150000)):
        u = canon_uri(rng)
        jobs.append(("canon", u, vary(rng, u) if rng.random() < 0.8
                     else canon_uri(rng)))
    traces = vlib.pmap(batch, [jobs[i:i + 40]
                               for i in range(0, len(jobs), 40)])
    ctx.validate("URITrace", traces, CFG)
