"""C04: expressions against spec/ODataExpr.tla"""
import datetime
import decimal
import io
import json
import os
import uuid
from fractions import Fraction

from pyslet import iso8601 as iso
from pyslet.odata2 import core, csdl as edm, memds
from pyslet.odata2 import metadata as edmx

CFG = "CONSTANT TInit <- EInit\nCONSTANT TStep <- EStep\n" \
      "CONSTANT TWhy <- EWhy\n"
PRIMS = ["Byte", "Int16", "Int32", "Int64", "Decimal", "Single", "Double",
         "Boolean", "String", "DateTime", "DateTimeOffset", "Time", "Guid",
         "Binary"]
G1 = uuid.UUID("00112233-4455-6677-8899-aabbccddeeff")
G2 = uuid.UUID("f0112233-4455-6677-8899-aabbccddeeff")


def dt(y, mo, d, h, mi, s):
    return iso.TimePoint(date=iso.Date(century=y // 100, year=y % 100,
                                       month=mo, day=d),
                         time=iso.Time(hour=h, minute=mi, second=s))


def dto(h, m, zdir, zh):
    return iso.TimePoint(
        date=iso.Date(century=20, year=1, month=1, day=2),
        time=iso.Time(hour=h, minute=m, second=0, zdirection=zdir,
                      zhour=zh, zminute=0))


D = decimal.Decimal
#: name -> type, value
SAMPLES = [
    ("by", "Byte", 3), ("by0", "Byte", None), ("i16", "Int16", -2),
    ("i32", "Int32", 7), ("i32z", "Int32", 0), ("i32m", "Int32", -3),
    ("i32n", "Int32", None), ("i64", "Int64", 5), ("i64n", "Int64", None),
    ("i64m", "Int64", -2),
    ("dec", "Decimal", D("2.5")), ("decm", "Decimal", D("-0.5")),
    ("dec4", "Decimal", D("4")), ("decn", "Decimal", None),
    ("sg", "Single", 1.5), ("sgm", "Single", -2.5), ("sgn", "Single", None),
    ("db", "Double", 0.5), ("dbm", "Double", -1.75), ("dbz", "Double", 0.0),
    ("db3", "Double", 3.5), ("dbn", "Double", None),
    ("bt", "Boolean", True), ("bf", "Boolean", False),
    ("bn", "Boolean", None),
    ("s", "String", u"abc"), ("se", "String", u""), ("sb", "String", u"Ab "),
    ("sc", "String", u"b"), ("sq", "String", u" o'B'b"),
    ("sn", "String", None),
    ("dt1", "DateTime", dt(2001, 2, 3, 4, 5, 6)),
    ("dt2", "DateTime", dt(1999, 12, 31, 23, 59, 58)),
    ("dt3", "DateTime", dt(2001, 2, 3, 4, 5, 7)), ("dtn", "DateTime", None),
    ("do1", "DateTimeOffset", dto(10, 30, 0, 0)),
    ("do2", "DateTimeOffset", dto(11, 30, 1, 1)),
    ("do3", "DateTimeOffset", dto(10, 29, -1, 2)),
    ("don", "DateTimeOffset", None),
    ("tm", "Time", iso.Time(hour=1, minute=2, second=3)),
    ("g1", "Guid", G1), ("g2", "Guid", G2), ("gn", "Guid", None),
    ("b1", "Binary", b"\x01\xff"), ("b2", "Binary", b""),
    ("bbn", "Binary", None)]

XML = """<?xml version="1.0" encoding="utf-8"?>
<edmx:Edmx Version="1.0" xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx">
<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema Namespace="M" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
<EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="Es" EntityType="M.E"/><EntitySet Name="Ts" EntityType="M.T"/>
<AssociationSet Name="A1" Association="M.A1"><End Role="E" EntitySet="Es"/><End Role="T" EntitySet="Ts"/></AssociationSet>
<AssociationSet Name="A2" Association="M.A2"><End Role="E" EntitySet="Es"/><End Role="T" EntitySet="Ts"/></AssociationSet>
</EntityContainer>
<EntityType Name="E"><Key><PropertyRef Name="Key"/></Key>
<Property Name="Key" Type="Edm.Int32" Nullable="false"/>
%s<Property Name="C" Type="M.Cplx" Nullable="false"/>
<NavigationProperty Name="NB" Relationship="M.A1" FromRole="E" ToRole="T"/>
<NavigationProperty Name="NU" Relationship="M.A2" FromRole="E" ToRole="T"/>
</EntityType>
<EntityType Name="T"><Key><PropertyRef Name="Key"/></Key>
<Property Name="Key" Type="Edm.Int32" Nullable="false"/>
<Property Name="X" Type="Edm.Int32"/><Property Name="Y" Type="Edm.String"/>
</EntityType>
<ComplexType Name="Cplx"><Property Name="X" Type="Edm.Int32"/><Property Name="Y" Type="Edm.String"/></ComplexType>
<Association Name="A1"><End Role="E" Type="M.E" Multiplicity="*"/><End Role="T" Type="M.T" Multiplicity="0..1"/></Association>
<Association Name="A2"><End Role="E" Type="M.E" Multiplicity="*"/><End Role="T" Type="M.T" Multiplicity="0..1"/></Association>
</Schema></edmx:DataServices></edmx:Edmx>"""


def frac(v):
    if v != v or v in (float("inf"), float("-inf")):
        return [0, 0]
    f = Fraction(v)
    if abs(f.numerator) > 10 ** 8 or f.denominator > 10 ** 6:
        return [0, 0]
    return [f.numerator, f.denominator]


EPOCH = datetime.datetime(2001, 1, 1)


def enc(t, v):
    """The value v of type t in the specification's terms"""
    if v is None:
        return []
    if t in PRIMS[:7]:
        return frac(v)
    if t == "Boolean":
        return [int(v)]
    if t == "String":
        return [ord(c) for c in v]
    if t == "DateTime":
        return [v.date.century * 100 + v.date.year, v.date.month, v.date.day,
                v.time.hour, v.time.minute, int(v.time.second)]
    if t == "Time":
        return [v.hour, v.minute, int(v.second)]
    if t == "DateTimeOffset":
        m = datetime.datetime(v.date.century * 100 + v.date.year,
                              v.date.month, v.date.day, v.time.hour,
                              v.time.minute) - EPOCH
        m = int(m.total_seconds()) // 60
        z = v.time.get_zone()
        return [m - z[0] * (z[1] or 0)]
    if t == "Guid":
        return list(bytearray(v.bytes))
    return list(bytearray(v))


def sval(t, v):
    return {"t": t, "n": v is None, "v": enc(t, v), "u": False}


LIT = {
    "Int32": lambda v: str(v), "Int64": lambda v: "%dL" % v,
    "Decimal": lambda v: "%sM" % v, "Single": lambda v: "%rf" % v,
    "Double": lambda v: "%rd" % v,
    "Boolean": lambda v: "true" if v else "false",
    "String": lambda v: "'%s'" % v.replace("'", "''"),
    "DateTime": lambda v: "datetime'%s'" % v,
    "DateTimeOffset": lambda v: "datetimeoffset'%s'" % v,
    "Time": lambda v: "time'%s'" % edm_time(v),
    "Guid": lambda v: "guid'%s'" % v,
    "Binary": lambda v: "X'%s'" % v.hex()}


def edm_time(v):
    return "PT%dH%dM%dS" % (v.hour, v.minute, v.second)


class Ctx(object):

    def __init__(self):
        doc = edmx.Document()
        doc.read(io.BytesIO((XML % "".join(
            '<Property Name="%s" Type="Edm.%s"/>' % (n, t)
            for n, t, v in SAMPLES)).encode("utf-8")))
        c = doc.root.DataServices["M.C"]
        self.db = memds.InMemoryEntityContainer(c)
        with c["Ts"].open() as ts:
            t = ts.new_entity()
            t.set_key(1)
            t["X"].set_from_value(4)
            t["Y"].set_from_value(u"yy")
            ts.insert_entity(t)
        es = c["Es"].open()
        e = es.new_entity()
        e.set_key(9)
        ent = {}
        for n, t, v in SAMPLES:
            e[n].set_from_value(v)
            ent[n] = sval(t, v)
        e["C"]["X"].set_from_value(6)
        e["C"]["Y"].set_from_value(None)
        e["NB"].bind_entity(1)
        es.insert_entity(e)
        self.es = es
        self.e = es[9]
        one = {"X": sval("Int32", 4), "Y": sval("String", u"yy"),
               "Key": sval("Int32", 1)}
        ent["Key"] = sval("Int32", 9)
        self.samples = {
            "ent": ent,
            "nav": {"C": [{"X": sval("Int32", 6), "Y": sval("String", None)}],
                    "NB": [one], "NU": []},
            "names": [{"c": enc("String", "Edm." + t), "t": t}
                      for t in PRIMS],
            "self": enc("String", "M.E")}

    def text(self, toks, rng):
        """The text of a token list"""
        out = []
        sp = lambda: rng.choice(["", "", " "])      # noqa

        def word(w):
            if out and out[-1] and (out[-1][-1].isalnum() or
                                    out[-1][-1] in "'._"):
                out.append(" ")
            out.append(w)
        for t in toks:
            k = t["k"]
            if k == "lit":
                w = t.get("txt") or self.lit(t["x"])
                if out and out[-1] == "-":
                    out.append(" ")
                word(w)
            elif k == "prop":
                word(t["x"])
            elif k == "fn":
                word(t["x"])
                out.append(sp())
            elif k == "op":
                out.append(" " + sp())
                out.append(t["x"])
                out.append(" " + sp())
            elif k == "not":
                word("not")
                out.append(" " + sp())
            elif k == "neg":
                if out and (out[-1][-1:].isalnum()):
                    out.append(" ")
                out.append("-")
            elif k == "/":
                out.append("/")
            else:
                out.append(sp())
                out.append(k)
                out.append(sp())
        return "".join(out)

    def lit(self, x):
        if x["n"]:
            return "null"
        t, v = x["t"], x["v"]
        if t in ("Int32", "Int64"):
            return LIT[t](v[0])
        if t == "Boolean":
            return LIT[t](v[0])
        if t == "String":
            return LIT[t]("".join(chr(c) for c in v))
        raise NotImplementedError(t)

    def run(self, f):
        try:
            x = f()
        except ValueError as e:
            return {"r": "syntax", "x": str(e)[:80]}
        except Exception as e:
            return {"r": "parse raised %s" % type(e).__name__,
                    "x": str(e)[:80]}
        try:
            v = x.evaluate(self.e)
        except core.EvaluationError as e:
            return {"r": "eval", "x": str(e)[:80]}, x
        except Exception as e:
            return {"r": "raised %s" % type(e).__name__,
                    "x": str(e)[:80]}, x
        if not isinstance(v, edm.SimpleValue):
            return {"r": "entity"}, x
        t = "None" if v.type_code is None else \
            edm.SimpleType.to_str(v.type_code)[4:]
        return {"r": "val", "t": t, "n": v.value is None,
                "v": enc(t, v.value)}, x

    def event(self, toks, rng, params=None):
        txt = self.text(toks, rng)
        r = self.run(lambda: core.CommonExpression.from_str(txt, params))
        r2, txt2 = {"r": "none"}, ""
        if isinstance(r, tuple):
            r, x = r
            try:
                txt2 = str(x)
                r2 = self.run(lambda: core.CommonExpression.from_str(txt2))
                if isinstance(r2, tuple):
                    r2 = r2[0]
            except Exception as e:
                r2 = {"r": "str raised %s" % type(e).__name__}
        return {"toks": [{"k": t["k"], "x": t.get("x", "")} for t in toks],
                "r": r, "r2": r2, "txt": txt, "txt2": txt2}


class Gen(object):
    """Random typed expressions, as token lists"""

    NUM = ["by", "i16", "i32", "i32z", "i32m", "i32n", "i64", "i64m", "dec",
           "decm", "dec4", "sg", "sgm", "db", "dbm", "dbz", "db3", "dbn"]
    STR = ["s", "se", "sb", "sc", "sq", "sn"]

    def __init__(self, rng):
        self.rng = rng

    def tok(self, k, x=""):
        return [{"k": k, "x": x}]

    def litv(self, t, v, neg_ok=True):
        return [{"k": "lit", "x": sval(t, v), "txt": LIT[t](v)}]

    def num(self, d):
        r = self.rng
        x = r.random()
        if d <= 0 or x < 0.25:
            y = r.random()
            if y < 0.5:
                return self.tok("prop", r.choice(self.NUM)), 8
            if y < 0.55:
                return [{"k": "lit", "x": sval("None", None),
                         "txt": "null"}], 8
            if y < 0.62:
                return (self.tok("prop", r.choice(["NB", "NU", "C"])) +
                        self.tok("/") + self.tok("prop", "X")), 8
            t = r.choice(["Int32", "Int32", "Int64", "Decimal", "Single",
                          "Double"])
            v = r.randint(-9, 9)
            if t == "Decimal":
                v = D(v) / 4
            elif t in ("Single", "Double"):
                v = v / 4.0
            return self.litv(t, v), 8
        if x < 0.75:
            o = r.choice(["add", "sub", "mul", "div", "mod", "sub"])
            p = 6 if o in ("mul", "div", "mod") else 5
            return self.binary(o, p, self.num(d - 1), self.num(d - 1))
        if x < 0.85:
            return self.unary("neg", self.num(d - 1))
        f = r.choice(["round", "floor", "ceiling", "length", "indexof",
                      "year", "month", "day", "hour", "minute", "second"])
        if f in ("round", "floor", "ceiling"):
            return self.call(f, self.num(d - 1))
        if f == "length":
            return self.call(f, self.string(d - 1))
        if f == "indexof":
            return self.call(f, self.string(d - 1), self.string(d - 1))
        return self.call(f, self.date())

    def date(self):
        r = self.rng
        if r.random() < 0.5:
            return self.tok("prop", r.choice(["dt1", "dt2", "dt3", "dtn"])), 8
        return self.litv("DateTime", dt(2001, 2, 3, 4, 5,
                                        r.randint(5, 7))), 8

    def string(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.5:
            if r.random() < 0.5:
                return self.tok("prop", r.choice(self.STR)), 8
            return self.litv("String", u"".join(
                r.choice(u"aAb '") for _ in range(r.randint(0, 4)))), 8
        f = r.choice(["tolower", "toupper", "trim", "concat", "substring",
                      "substring", "replace"])
        a = [self.string(d - 1)]
        if f == "concat":
            a.append(self.string(d - 1))
        elif f == "replace":
            a += [self.string(d - 1), self.string(d - 1)]
        elif f == "substring":
            for _ in range(r.randint(1, 2)):
                a.append((self.litv("Int32", r.randint(0, 3)), 8)
                         if r.random() < 0.7 else self.num(0))
        return self.call(f, *a)

    def boolean(self, d):
        r = self.rng
        x = r.random()
        if d <= 0 or x < 0.15:
            if r.random() < 0.6:
                return self.tok("prop", r.choice(["bt", "bf", "bn"])), 8
            return self.litv("Boolean", r.random() < 0.5), 8
        if x < 0.45:
            o = r.choice(["and", "or"])
            return self.binary(o, 2 if o == "and" else 1,
                               self.boolean(d - 1), self.boolean(d - 1))
        if x < 0.57:
            return self.unary("not", self.boolean(d - 1))
        if x < 0.68:
            return self.call(r.choice(["startswith", "endswith",
                                       "substringof"]),
                             self.string(d - 1), self.string(d - 1))
        if x < 0.75:
            a = self.any(d - 1)
            n = self.litv("String", "Edm." + r.choice(PRIMS)), 8
            return self.call("isof", a, n)
        if x < 0.76:
            return self.call("isof", (self.litv("String", r.choice(
                ["M.E", "M.T"])), 8))
        o = r.choice(["eq", "ne", "lt", "le", "gt", "ge"])
        f = r.choice([self.num, self.num, self.string,
                      lambda d: self.date(), self.any])
        return self.binary(o, 3 if o in ("eq", "ne") else 4, f(d - 1),
                           f(d - 1))

    def any(self, d):
        r = self.rng
        if r.random() < 0.3:
            return self.tok("prop", r.choice(SAMPLES)[0]), 8
        if r.random() < 0.2:
            return self.call(
                "cast", self.num(d - 1),
                (self.litv("String", "Edm." + r.choice(PRIMS[:7])), 8))
        return r.choice([self.num, self.string, self.boolean])(d)

    def wrap(self, e, p):
        # brackets where needed, sometimes where not
        # (or, rarely, left out: another expression)
        t, q = e
        x = self.rng.random()
        if (q < p and x > 0.08) or x < 0.05:
            return self.tok("(") + t + self.tok(")")
        return t

    def binary(self, o, p, a, b):
        return self.wrap(a, p) + self.tok("op", o) + self.wrap(b, p + 1), p

    def unary(self, k, a):
        t = self.wrap(a, 7)
        if k == "neg" and t[0]["k"] == "lit":
            # - 1.5F reads back as a Single, not a Double
            t = self.tok("prop", "i32m")
        return self.tok(k) + t, 7

    def call(self, f, *a):
        t = self.tok("fn", f) + self.tok("(")
        for i, x in enumerate(a):
            if i:
                t += self.tok(",")
            t += x[0]
        return t + self.tok(")"), 8

    def expression(self):
        d = self.rng.randint(1, 4)
        t = self.rng.choice([self.num, self.boolean, self.boolean, self.any,
                             self.string])(d)[0]
        if self.rng.random() < 0.15:
            # damage it
            t = list(t)
            for _ in range(self.rng.choice([1, 1, 2])):
                i = self.rng.randrange(len(t))
                if self.rng.random() < 0.6:
                    if len(t) > 1:
                        del t[i]
                else:
                    t.insert(i, self.rng.choice(
                        [{"k": "(", "x": ""}, {"k": ")", "x": ""},
                         {"k": "not", "x": ""}, {"k": "neg", "x": ""},
                         {"k": "op", "x": "add"}, {"k": ",", "x": ""}]))
            # one operator name in front of another word is a property
            for i, x in enumerate(t):
                if x["k"] in ("op", "not", "fn") and (
                        i == 0 or t[i - 1]["k"] not in ("lit", "prop", ")")
                        ) and x["k"] == "op" or x["k"] == "fn" and (
                        i + 1 == len(t) or t[i + 1]["k"] != "("):
                    return self.expression()
                if x["k"] in ("not", "prop") and i + 1 < len(t) and \
                        t[i + 1]["k"] == "(":
                    if x["k"] == "prop":
                        return self.expression()
                if x["k"] == "not" and (i + 1 == len(t) or
                                        t[i + 1]["k"] in (")", ",", "op")):
                    return self.expression()
                if x["k"] == "/" and (
                        i == 0 or t[i - 1]["k"] != "prop" or
                        i + 1 == len(t) or t[i + 1]["k"] != "prop"):
                    return self.expression()
                if x["k"] == "neg" and i + 1 < len(t) and \
                        t[i + 1]["k"] == "lit":
                    return self.expression()
        return t


def run(ctx):
    rng = ctx.rng
    c = Ctx()
    path = os.path.join(ctx.tmp, "samples.json")
    with open(path, "w") as f:
        json.dump(c.samples, f)
    env = {"SAMPLES": path}
    deep = ctx.pick("FALSE", "TRUE")
    cases = ctx.model(
        "ODataExprMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        "CONSTANTS Emit = TRUE Deep = %s\nINVARIANTS FlatOk RoundTrip Typed "
        "NeverNull Commutes Antisym LeIsLtOrEq DivMod\n" % deep,
        env=env, emit=True)
    evs = [c.event(t, rng) for t in cases]
    ctx.extra["replayed_expressions"] = len(evs)
    ctx.validate("ODataExprTrace", [
        {"cfg": {"_": 0}, "ev": [e]} for e in evs], CFG, env=env,
        label="ODataExpr enumerated")
    g = Gen(rng)
    evs = [c.event(g.expression(), rng) for _ in range(
        ctx.pick(25000, 300000))]
    ctx.validate("ODataExprTrace", [
        {"cfg": {"_": 0}, "ev": [e]} for e in evs], CFG, env=env,
        label="ODataExpr random")
    ctx.assumptions.append(
        "numbers that are exact in binary and not above 20000; ASCII "
        "strings; no SByte")
