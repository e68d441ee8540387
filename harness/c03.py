"""C03: query options on collections against spec/ODataQuery.tla"""
import traceback

from pyslet import iso8601 as iso
from pyslet.odata2 import core

import odm
import vlib

CFG = "CONSTANT TInit <- QInit\nCONSTANT TStep <- QStep\n" \
      "CONSTANT TWhy <- QWhy\n"
NULL = -99


def tp(n):
    return iso.TimePoint(date=iso.Date(century=20, year=0, month=1 + n % 12,
                                       day=1 + n),
                         time=iso.Time(hour=n, minute=0, second=n))


LONG = u"x" * 300
STRS = [u"", u"%", u"A", u"O'B", u"_", u"a", u"a%", u"aA", u"a_b", u"ab",
        u"b", LONG, LONG + u"y", u"\u00e9"]
DOUBLES = [-1e300, -1.5, 0.0, 0.1, 1 / 3.0, 2.5, 1e17]
LITS = {"D": lambda v: ("%rD" % v).replace("+", ""),
        "S": lambda v: "'%s'" % v.replace("'", "''"),
        "T": lambda v: "datetime'%s'" % str(v),
        "F": lambda v: "true" if v else "false"}


def model(keytype="int"):
    if keytype == "int":
        kt, kv = [("K", "Edm.Int32")], {i: i * 3 for i in range(1, 13)}
    elif keytype == "str":
        kt = [("K", "Edm.String")]
        ks = sorted([u"k", u"K", u"k k", u"k,'l", u"k%", u"", u"\u00e9",
                     u"kk", u"1", u"a" * 20, u"=", u"z"])
        kv = {i + 1: k for i, k in enumerate(ks)}
    else:
        kt = [("K", "Edm.Int32"), ("L", "Edm.String")]
        ks = sorted((a, b) for a in (1, 2, 3) for b in (u"", u"a", u"B",
                                                        u"b'"))
        kv = {i + 1: k for i, k in enumerate(ks)}
    sets = {"E": {"key": kt, "props": [
        ("A", "Edm.Int32", ''), ("B", "Edm.Int64", ''),
        ("S", "Edm.String", 'MaxLength="400"'), ("D", "Edm.Double", ''),
        ("T", "Edm.DateTime", ''), ("F", "Edm.Boolean", ''),
        ("C", "M.Cplx", 'Nullable="false"')]},
        "R": {"key": [("K", "Edm.Int32")],
              "props": [("A", "Edm.Int32", '')]}}
    tables = {("E", "A"): odm.Table(range(-3, 4)),
              ("E", "B"): odm.Table(range(-3, 4)),
              ("E", "S"): odm.Table(STRS), ("E", "D"): odm.Table(DOUBLES),
              ("E", "T"): odm.Table(sorted(tp(i) for i in range(5))),
              ("E", "F"): odm.Table([False, True]),
              ("E", "C/X"): odm.Table(range(-3, 4)),
              ("R", "A"): odm.Table(range(-3, 4))}
    extra = ('<ComplexType Name="Cplx"><Property Name="X" '
             'Type="Edm.Int32"/></ComplexType>')
    assocs = {"RE": ("R", "?", "Es", "E", "*", "R"),
              "RM": ("R", "*", "Ms", "E", "*", "Rs")}
    m = odm.Model(sets, assocs, tables, {"E": kv, "R": {1: 1, 2: 2, 3: 3}},
                  extra=extra)
    return m


INTS = ("A", "B", "C/X", "R/A")


class Vals(object):
    """Values in the terms of the specification"""

    def __init__(self, m):
        self.m = m

    def code(self, path, v):
        if v is None:
            return NULL
        if path in INTS:
            return v
        if path == "F":
            return int(v)
        return self.m.tables[("E", path)].values.index(v) + 1

    def lit(self, path, code):
        if code == NULL:
            return "null"
        if path in INTS:
            return str(code)
        if path == "F":
            return LITS["F"](code)
        return LITS[path](self.m.tables[("E", path)].values[code - 1])


class Gen(object):
    def __init__(self, m, vals, rng, be):
        self.m, self.v, self.rng, self.be = m, vals, rng, be

    def value(self, path):
        r = self.rng
        if r.random() < 0.15:
            return NULL
        if path in INTS:
            return r.randint(-3, 3)
        if path == "F":
            return r.randint(0, 1)
        return r.randint(1, len(self.m.tables[("E", path)].values))

    def prop(self, path):
        return {"o": "prop", "n": path}, path.replace("R/A", "R/A")

    def lit(self, path, null=True):
        c = self.value(path)
        if not null and c == NULL:
            c = 1
        return {"o": "lit", "v": c}, self.v.lit(path, c)

    def paren(self, s):
        return "(%s)" % s

    def num(self, depth):
        r = self.rng
        x = r.random()
        if depth == 0 or x < 0.5:
            if r.random() < 0.7:
                return self.prop(r.choice(INTS))
            return self.lit("A", False)
        if x < 0.6:
            e, s = self.prop("S")
            return {"o": "length", "a": [e]}, "length(%s)" % s
        o = r.choice(["add", "sub", "sub", "mul"])
        a, sa = self.num(depth - 1)
        b, sb = self.num(depth - 1)
        return ({"o": o, "a": [a, b]},
                "(%s) %s (%s)" % (sa, o, sb))

    def boolean(self, depth, nn=False):
        # nn: only what cannot be null (null or true: see known_findings)
        r = self.rng
        x = r.random()
        if nn and (0.55 <= x < 0.72 or 0.35 <= x < 0.42):
            x = 0.8
        if depth and x < 0.35:
            o = r.choice(["and", "or"])
            nn = self.be == "sql" and (nn or o == "or")
            a, sa = self.boolean(depth - 1, nn)
            b, sb = self.boolean(depth - 1, nn)
            return {"o": o, "a": [a, b]}, "(%s) %s (%s)" % (sa, o, sb)
        if depth and x < 0.42 and self.be == "mem":
            a, sa = self.boolean(depth - 1)
            return {"o": "not", "a": [a]}, "not (%s)" % sa
        if x < 0.55:
            a, sa = self.num(1)
            b, sb = self.num(1)
            o = r.choice(["eq", "ne", "lt", "le", "gt", "ge"])
            return {"o": o, "a": [a, b]}, "(%s) %s (%s)" % (sa, o, sb)
        if x < 0.68:
            p, sp = self.prop("S")
            q, sq = self.lit("S", False) if r.random() < 0.8 else \
                self.prop("S")
            o = r.choice(["startswith", "endswith", "substringof"])
            if o == "substringof":
                p, sp, q, sq = q, sq, p, sp
            return {"o": o, "a": [p, q]}, "%s(%s,%s)" % (o, sp, sq)
        if x < 0.72:
            return self.prop("F")
        path = r.choice(["A", "B", "S", "D", "T", "C/X", "R/A", "S"])
        p, sp = self.prop(path)
        q, sq = self.lit(path) if r.random() < 0.85 else self.prop(path)
        if r.random() < 0.2:
            p, sp, q, sq = q, sq, p, sp
        o = r.choice(["eq", "ne", "lt", "le", "gt", "ge"])
        return {"o": o, "a": [p, q]}, "%s %s %s" % (sp, o, sq)

    def orderby(self):
        r = self.rng
        out, txt = [], []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            if r.random() < 0.8:
                e, s = self.prop(r.choice(["A", "B", "S", "D", "T", "F",
                                           "R/A", "C/X"]))
            else:
                e, s = self.num(1)
                if e["o"] == "lit":
                    e, s = self.prop("A")
            d = r.choice([1, -1])
            out.append({"e": e, "d": d})
            txt.append(s + (" desc" if d < 0 else r.choice([" asc", ""])))
        return out, ",".join(txt)


class Session(object):

    def __init__(self, m, backend, rng, n, vals=None):
        self.m, self.rng = m, rng
        self.d = backend.open()
        self.v = Vals(m)
        self.be = backend.name
        self.gen = Gen(m, self.v, rng, self.be)
        self.ents = []
        self.known = {}
        self.links = {1: [], 2: [], 3: []}
        self.ms = {1: [], 2: [], 3: []}
        es, rs = self.d.es["E"], self.d.es["R"]
        ra = {1: rng.choice([None, 1]), 2: 2, 3: rng.choice([None, -1])}
        with rs.open() as c:
            for k in (1, 2, 3):
                e = c.new_entity()
                e.set_key(k)
                e["A"].set_from_value(ra[k])
                c.insert_entity(e)
        order = list(range(1, n + 1))
        rng.shuffle(order)
        rows = {}
        few = rng.random() < 0.5
        with es.open() as c:
            for k in order:
                e = c.new_entity()
                e.set_key(m.keys["E"][k])
                row = {}
                for p in m.paths("E"):
                    x = self.gen.value(p)
                    if few:
                        x = self.gen.value(p) if rng.random() < 0.3 else \
                            {"S": 12, "F": 1}.get(p, 1)
                    if vals is not None:
                        x = vals[k - 1] if p == "A" else NULL
                    row[p] = x
                    t = m.tables[("E", p)]
                    self.d.get(e, p).set_from_value(
                        None if x == NULL else x if p in INTS else
                        bool(x) if p == "F" else t.values[x - 1])
                r = rng.randint(0, 3) if vals is None else 0
                if r:
                    e["R"].bind_entity(r)
                    self.links[r].append(k)
                for j in (1, 2, 3):
                    if vals is None and rng.random() < 0.4:
                        e["Rs"].bind_entity(j)
                        self.ms[j].append(k)
                row["R/A"] = NULL if not r or ra[r] is None else ra[r]
                c.insert_entity(e)
                rows[k] = row
        self.n = n
        self.cfg = {"ents": [{"key": k, "v": rows[k]}
                             for k in range(1, n + 1)],
                    "strs": [[ord(ch) for ch in s] for s in STRS],
                    "tops": {p: p.split("/")[0] for p in rows[1]},
                    "be": self.be} if n else None
        self.kcode = {v: k for k, v in m.keys["E"].items()}

    def row(self, e, short=False):
        return {"key": self.kcode[e.key()],
                "v": {p: self.v.code(p, self.d.get(e, p).value)
                      for p in (["A"] if short else self.m.paths("E"))}}

    def random_run(self):
        """A few collections, a few operations on each"""
        ev = []
        r = self.rng
        reuse = []
        for _ in range(3):
            which = r.choice(["E", "E", "Es", "Ms"])
            if which == "E":
                base = list(range(1, self.n + 1))
                with self.d.es["E"].open() as c:
                    self.coll(c, base, ev, reuse)
            else:
                j = r.randint(1, 3)
                base = self.links[j] if which == "Es" else self.ms[j]
                with self.d.es["R"].open() as rc:
                    e = rc[j]
                    with e[which].open() as c:
                        self.coll(c, base, ev, reuse)
        return ev

    def coll(self, c, base, ev, reuse):
        r = self.rng
        ev.append({"k": "open", "base": sorted(base)})
        if reuse and r.random() < 0.6:
            # the options of an earlier collection, to follow its token
            old = r.choice(reuse)
            self.set_filter(c, ev, *old["f"])
            self.set_orderby(c, ev, *old["ob"])
            st = dict(old)
        else:
            st = {"f": ([], None), "ob": ([], None), "base": sorted(base)}
        sel = False

        def glance():
            # read before and after a change of the options
            if r.random() < 0.6:
                rows = [self.row(e) for e in c.itervalues()]
                ev.append({"k": "iter", "rows": rows})

        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < 0.24:
                glance()
            if x < 0.12:
                st["f"] = self.gen.boolean(2) if r.random() < 0.85 else (
                    [], None)
                self.set_filter(c, ev, *st["f"])
                glance()
            elif x < 0.24:
                st["ob"] = self.gen.orderby() if r.random() < 0.85 else (
                    [], None)
                self.set_orderby(c, ev, *st["ob"])
                glance()
            elif x < 0.3:
                sel = [p for p in ("A", "S", "C", "D")
                       if r.random() < 0.5] or ["A"]
                c.set_expand(None, {p: None for p in sel})
                ev.append({"k": "select", "sel": sel})
            elif x < 0.4:
                n = r.choice([None, 1, 2, 3, 4])
                c.set_topmax(n)
                ev.append({"k": "max", "n": NULL if n is None else n})
            elif x < 0.55:
                top = r.choice([None, None, 0, 1, 2, 3, 5])
                skip = r.choice([None, 0, 0, 1, 2, 4])
                tok = None
                toks = sorted(self.known.get(repr((
                    sorted(base), st["f"][0], st["ob"][0])), ()))
                if toks and r.random() < 0.6:
                    tok = r.choice(toks)
                c.set_page(top, skip, tok)
                ev.append({"k": "page", "top": NULL if top is None else top,
                           "skip": NULL if skip is None else skip,
                           "tok": tok or ""})
            elif x < 0.65:
                rows = [self.row(e) for e in c.itervalues()]
                ev.append({"k": "iter", "rows": rows})
            elif x < 0.72:
                ev.append({"k": "len", "n": len(c)})
            elif x < 0.79:
                k = r.randint(1, self.n)
                key = self.m.keys["E"][k]
                if r.random() < 0.5:
                    ev.append({"k": "has", "key": k, "b": key in c})
                else:
                    try:
                        rows = [self.row(c[key])]
                    except KeyError:
                        rows = []
                    ev.append({"k": "get", "key": k, "rows": rows})
            else:
                for _ in range(r.choice([1, 1, 3, 8])):
                    nx = r.random() < 0.6
                    rows = [self.row(e) for e in c.iterpage(nx)]
                    tok = c.next_skiptoken()
                    ev.append({"k": "iterpage", "rows": rows, "next": nx,
                               "tok": tok or ""})
                    if tok:
                        self.known.setdefault(repr((
                            sorted(base), st["f"][0], st["ob"][0])),
                            set()).add(tok)
                        if not reuse or reuse[-1] is not st:
                            reuse.append(dict(st))

    def set_filter(self, c, ev, f, txt):
        c.set_filter(None if txt is None else
                     core.CommonExpression.from_str(txt))
        ev.append({"k": "filter", "f": f, "txt": txt or ""})

    def set_orderby(self, c, ev, ob, txt):
        c.set_orderby(None if txt is None else
                      core.CommonExpression.orderby_from_str(txt))
        ev.append({"k": "orderby", "ob": ob, "txt": txt or ""})

    def window(self, t):
        """One configuration of ODataQueryMC: all the pages, by set_next
        and by token"""
        ev = [{"k": "open", "base": list(range(1, self.n + 1))}]

        def txt(x):
            if x["o"] == "prop":
                return x["n"]
            if x["o"] == "lit":
                return "null" if x["v"] == NULL else str(x["v"])
            return "%s %s %s" % (txt(x["a"][0]), x["o"], txt(x["a"][1]))

        none = lambda v: None if v == NULL else v        # noqa
        with self.d.es["E"].open() as c:
            c.set_topmax(none(t["max"]))
            ev.append({"k": "max", "n": t["max"]})
            self.set_filter(c, ev, t["f"], txt(t["f"]) if t["f"] else None)
            self.set_orderby(
                c, ev, t["ob"], ",".join(
                    txt(o["e"]) + (" desc" if o["d"] < 0 else "")
                    for o in t["ob"]) or None)
            c.set_page(none(t["top"]), t["skip"], None)
            ev.append({"k": "page", "top": t["top"], "skip": t["skip"],
                       "tok": ""})
            for nx in (True, False):
                for i in range(self.n + 2):
                    rows = [self.row(e, True) for e in c.iterpage(nx)]
                    tok = c.next_skiptoken()
                    ev.append({"k": "iterpage", "rows": rows, "next": nx,
                               "tok": tok or ""})
                    if not rows:
                        break
                    if not nx:
                        if not tok:
                            break
                        c.set_page(none(t["top"]), 0, tok)
                        ev.append({"k": "page", "top": t["top"], "skip": 0,
                                   "tok": tok})
                c.set_page(none(t["top"]), t["skip"], None)
                ev.append({"k": "page", "top": t["top"], "skip": t["skip"],
                           "tok": ""})
            ev.append({"k": "len", "n": len(c)})
        return ev

    def close(self, backend):
        self.d.release()
        backend.close()


def run(ctx):
    n = ctx.pick(3, 4)
    cfg = ("SPECIFICATION Spec\nINVARIANT InOrder AllRead TokenOk\n"
           "PROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANT NEnts = %d\n"
           "Vals <- V\nEmit = TRUE\n" % n)
    recs = ctx.model("ODataQueryMC3", cfg.replace("Vals <- V\n",
                                                  "Vals <- V3\n"),
                     emit=True)
    byvals = {}
    for t in recs:
        byvals.setdefault(tuple(t["vs"]), []).append(t)
    m = model()
    traces = []
    picked = sorted(byvals)
    for be in (odm.MemBackend(m), odm.SQLBackend(m)):
        for vs in picked:
            s = Session(m, be, ctx.rng, n, vals=vs)
            ts = sorted(byvals[vs], key=repr)
            if not ctx.thorough:
                ts = ctx.rng.sample(ts, len(ts) // 4)
            for t in ts:
                try:
                    ev = s.window(t)
                except Exception:
                    ev = [{"k": "broken", "x": traceback.format_exc()[-900:]}]
                traces.append({"cfg": s.cfg, "ev": ev})
            s.close(be)
        if be.name == "sql":
            be.dispose()
    ctx.validate("ODataQueryTrace", traces, CFG, label="ODataQuery windows")
    traces = []
    for kt in ("int", "str", "pair"):
        m = model(kt)
        for be in (odm.MemBackend(m), odm.SQLBackend(m)):
            for _ in range(ctx.pick(50, 400)):
                s = Session(m, be, ctx.rng, ctx.rng.randint(1, 12))
                try:
                    for _ in range(4):
                        s.known = {}
                        ev = []
                        try:
                            ev = s.random_run()
                        except Exception:
                            ev = [{"k": "broken",
                                   "x": traceback.format_exc()[-900:]}]
                        traces.append({"cfg": s.cfg, "ev": ev})
                finally:
                    s.close(be)
            if be.name == "sql":
                be.dispose()
    ctx.validate("ODataQueryTrace", traces, CFG, label="ODataQuery random")
    # a finding that is recorded, not repaired
    m = model()
    be = odm.SQLBackend(m)
    s = Session(m, be, ctx.rng, 1, vals=[1])
    ev = [{"k": "open", "base": [1]}]
    with s.d.es["E"].open() as c:
        s.set_filter(c, ev, {"o": "or", "a": [
            {"o": "prop", "n": "F"}, {"o": "eq", "a": [
                {"o": "prop", "n": "A"}, {"o": "lit", "v": 1}]}]},
            "F or A eq 1")
        ev.append({"k": "len", "n": len(c)})
    s.close(be)
    be.dispose()
    ctx.validate("ODataQueryTrace", [{"cfg": s.cfg, "ev": ev}], CFG,
                 label="SQL: null or true")
    ctx.assumptions.append(
        "entities do not change while pages are being read")
