"""C34: name tables and references of the data model: spec/NameTable.tla"""
import itertools
import logging
import random

from pyslet.odata2 import csdl as edm
from pyslet.odata2 import edmx

import vlib

CFG = "CONSTANT TInit <- XInit\nCONSTANT TStep <- XStep\n" \
      "CONSTANT TWhy <- XWhy\n"


# --- tables ---

SCOPES = [edm.Schema, edm.EntityContainer, edm.ComplexType, edm.Association,
          edm.FunctionImport]
LEAVES = [edm.Property, edm.EntitySet, edm.AssociationEnd,
          edm.NavigationProperty]


class Tables(object):

    def __init__(self, cfg, rng):
        self.names = [".".join(x) for x in cfg["name"]]
        self.scope = cfg["scope"]
        self.rng = rng
        self.obj = [edmx.DataServices(None) if rng.random() < 0.5 else
                    edm.Schema(None)]
        for n, s in zip(self.names, self.scope):
            o = rng.choice(SCOPES if s else LEAVES)(None)
            o.name = n
            self.obj.append(o)
        words = sorted(set(tuple(x) for x in cfg["name"]))
        self.probes = sorted(set(
            words + [a + b for a in words for b in words] +
            [("a",), ("a", "b", "c", "b"), ("c",), ("",)]))

    def num(self, x):
        for i, o in enumerate(self.obj):
            if o is x:
                return i
        return 99

    def do(self, op):
        s, o = self.obj[op["p"]], self.obj[op["o"]]
        res = "ok"
        try:
            if op["n"] == "declare":
                s.declare(o)
            else:
                s.undeclare(o)
        except edm.IncompatibleNames:
            res = "incompatible"
        except edm.DuplicateName:
            res = "duplicate"
        except KeyError:
            res = "missing"
        keys, lens, probe = [], [], []
        for i, t in enumerate(self.obj):
            if i and not self.scope[i - 1]:
                keys.append([])
                lens.append(0)
                continue
            keys.append([[k.split("."), self.num(v)] for k, v in t.items()])
            lens.append(len(t))
            if i > 1:
                continue
            for p in self.rng.sample(self.probes, min(4, len(self.probes))):
                k = ".".join(p)
                try:
                    f = self.num(t[k])
                except KeyError:
                    f = 0
                if (0 if t.get(k) is None else self.num(t.get(k))) != f:
                    f = 98
                probe.append([i, list(p), f, k in t])
        return {"op": op, "res": res, "keys": keys, "len": lens,
                "probe": probe}


def play(job):
    cfg, ops, seed = job
    p = Tables(cfg, random.Random(seed))
    cfg = dict(cfg, kind="table")
    ev = []
    for op in ops:
        # nothing but objects by that name can be removed
        if op["n"] == "undeclare":
            cur = p.obj[op["p"]].nameTable.get(p.names[op["o"] - 1])
            if cur is not None and cur is not p.obj[op["o"]]:
                continue
        ev.append(p.do(op))
    return {"cfg": cfg, "ev": ev}


def gen_play(seed):
    rng = random.Random(seed)
    n = rng.randint(3, 9)
    words = ["a", "b", "c", "A", "ab"]
    cfg = {"name": [[rng.choice(words)
                     for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                    for _ in range(n)],
           "scope": [rng.random() < 0.6 for _ in range(n)]}
    ops = []
    for _ in range(40):
        o = rng.randint(1, n)
        p = rng.choice([0] + [i for i in range(1, o) if cfg["scope"][i - 1]])
        ops.append({"n": rng.choice(["declare", "declare", "undeclare"]),
                    "p": p, "o": o})
    return play((cfg, ops, rng.random()))


# --- models ---

SIMPLE = ["Edm.Int32", "Edm.String", "Edm.Boolean", "Edm.DateTime"]
MULT = ["1", "0..1", "*"]


def gen_model(rng):
    """A model, in the terms of the specification"""
    schemas = rng.choice([["A"], ["A", "B"], ["A.x", "B", "A2"],
                          ["B.C", "A"]])
    complete = rng.random() < 0.75
    m = {"schema": schemas, "ctype": [], "etype": [], "assoc": [], "cont": []}
    # the same names may appear in several schemas
    fq = ["%s.T%d" % (s, i) for s in schemas
          for i in range(14 if len(schemas) == 1 else 8)]
    rng.shuffle(fq)
    for i in range(rng.randint(0, 3)):
        m["ctype"].append({"fq": fq.pop(), "props": []})
    for i in range(rng.randint(1, 4)):
        m["etype"].append({"fq": fq.pop(), "props": [], "navs": [],
                           "key": ["K"] + rng.choice([[], ["L"]])})
    cn = [t["fq"] for t in m["ctype"]]
    for i, t in enumerate(m["ctype"]):
        for j in range(rng.randint(1, 3)):
            t["props"].append({"n": "p%d" % j,
                               "t": rng.choice(SIMPLE + cn[i + 1:])})
    for t in m["etype"]:
        for k in t["key"]:
            t["props"].append({"n": k, "t": "Edm.Int32"})
        for j in range(rng.randint(0, 3)):
            t["props"].append({"n": "p%d" % j, "t": rng.choice(SIMPLE + cn)})
    copies = rng.choice([0, 1, 1, 1, 2])
    if not complete:
        copies = 0
    for i in range(rng.randint(0, 4)):
        a, b = rng.choice(m["etype"]), rng.choice(m["etype"])
        am, bm = rng.choice(MULT), rng.choice(MULT)
        rel = fq.pop() + rng.choice(["", ".x", ".x.y"])
        r, s = rng.choice([("r", "s"), ("s", "r"), ("x", "r")])
        m["assoc"].append({"fq": rel, "ends": [
            {"role": r, "type": a["fq"], "mult": am},
            {"role": s, "type": b["fq"], "mult": bm}]})
        # without a property it must be possible to insert entities on
        # their own: unbound principals change multiplicities
        if am == "1" or rng.random() < 0.7:
            b["navs"].append({"n": "n%d" % i, "rel": rel, "from": s, "to": r})
        if bm == "1" or rng.random() < 0.7:
            a["navs"].append({"n": "m%d" % i, "rel": rel, "from": r, "to": s})
        if copies < 2 and am != "1" and bm != "1" and rng.random() < 0.2:
            # ambiguous
            a["navs"].append({"n": "o%d" % i, "rel": rel, "from": r, "to": s})
            if not any(v["n"] == "m%d" % i for v in a["navs"]):
                a["navs"].append({"n": "m%d" % i, "rel": rel, "from": r,
                                  "to": s})
    for i in range(rng.randint(1, 2) if copies else 0):
        c = {"fq": fq.pop(), "sets": [], "asets": [], "funcs": []}
        sn = {}
        for j, t in enumerate(m["etype"]):
            for k in range(copies):
                n = "%s%d%s" % (rng.choice(["E", "T", "e_"]), j, "ab"[k])
                sn[(t["fq"], k)] = n
                c["sets"].append({"n": n, "type": t["fq"]})
        for j, a in enumerate(m["assoc"]):
            for k in range(copies):
                ends = [{"role": e["role"], "set": sn[(e["type"], k)]}
                        for e in a["ends"]]
                x = rng.random()
                if x < 0.2:
                    ends[rng.randint(0, 1)]["role"] = ""
                elif x < 0.4 and a["ends"][0]["type"] != a["ends"][1]["type"]:
                    ends[0]["role"] = ends[1]["role"] = ""
                if rng.random() < 0.5:
                    ends.reverse()
                c["asets"].append({"n": "AS%d%s" % (j, "ab"[k]),
                                   "assoc": a["fq"], "ends": ends})
        for j in range(rng.randint(0, 2)):
            s = rng.choice(c["sets"])
            ret = rng.choice(SIMPLE + cn + [s["type"]])
            c["funcs"].append({
                "n": "F%d" % j, "ret": ret,
                "set": s["n"] if ret == s["type"] else "",
                "pars": ["p", "q"][:rng.randint(0, 2)]})
        m["cont"].append(c)
    if not complete:
        for k in ("ctype", "etype", "assoc"):
            if len(m[k]) > (k == "etype") and rng.random() < 0.6:
                m[k].pop(rng.randrange(len(m[k])))
    return m


NS = "http://schemas.microsoft.com/ado/2006/04/edm"


def xml(m, rng):
    """The text of a model, everything in random order"""
    def shuffled(x):
        x = list(x)
        rng.shuffle(x)
        return "".join(x)

    def local(fq):
        for s in m["schema"]:
            if fq.startswith(s + "."):
                return s, fq[len(s) + 1:]

    def props(t):
        return ['<Property Name="%s" Type="%s" Nullable="false"/>' %
                (p["n"], p["t"]) for p in t["props"]]
    parts = {s: [] for s in m["schema"]}
    for t in m["ctype"]:
        s, n = local(t["fq"])
        parts[s].append('<ComplexType Name="%s">%s</ComplexType>' %
                        (n, shuffled(props(t))))
    for t in m["etype"]:
        s, n = local(t["fq"])
        navs = ['<NavigationProperty Name="%s" Relationship="%s" '
                'FromRole="%s" ToRole="%s"/>' %
                (v["n"], v["rel"], v["from"], v["to"]) for v in t["navs"]]
        key = "<Key>%s</Key>" % "".join(
            '<PropertyRef Name="%s"/>' % k for k in t["key"])
        parts[s].append('<EntityType Name="%s">%s</EntityType>' %
                        (n, shuffled([key] + props(t) + navs)))
    for a in m["assoc"]:
        s, n = local(a["fq"])
        parts[s].append('<Association Name="%s">%s</Association>' % (
            n, shuffled('<End Role="%s" Type="%s" Multiplicity="%s"/>' %
                        (e["role"], e["type"], e["mult"])
                        for e in a["ends"])))
    for c in m["cont"]:
        s, n = local(c["fq"])
        sub = ['<EntitySet Name="%s" EntityType="%s"/>' % (x["n"], x["type"])
               for x in c["sets"]]
        for x in c["asets"]:
            ends = []
            for e in x["ends"]:
                role = 'Role="%s" ' % e["role"] if e["role"] else ""
                ends.append('<End %sEntitySet="%s"/>' % (role, e["set"]))
            sub.append('<AssociationSet Name="%s" Association="%s">%s'
                       '</AssociationSet>' % (x["n"], x["assoc"],
                                              shuffled(ends)))
        for f in c["funcs"]:
            ret, es = f["ret"], ""
            if f["set"]:
                es = ' EntitySet="%s"' % f["set"]
                ret = "Collection(%s)" % ret
            sub.append('<FunctionImport Name="%s" ReturnType="%s"%s>%s'
                       '</FunctionImport>' % (f["n"], ret, es, shuffled(
                           '<Parameter Name="%s" Type="Edm.Int32" '
                           'Mode="In"/>' % p for p in f["pars"])))
        parts[s].append('<EntityContainer Name="%s">%s</EntityContainer>' %
                        (n, shuffled(sub)))
    return ('<Edmx Version="1.0" xmlns="http://schemas.microsoft.com/ado/'
            '2007/06/edmx"><DataServices>%s</DataServices></Edmx>' %
            shuffled('<Schema Namespace="%s" xmlns="%s">%s</Schema>' %
                     (s, NS, shuffled(p)) for s, p in parts.items()))


def load(text, rng):
    doc = edmx.Document()
    doc.read(src=text)
    return doc.root.DataServices


def ids(ds):
    """Names of all objects, by identity"""
    out = {}

    def put(o, n):
        out[id(o)] = n
    for s in ds.Schema:
        put(s, "schema " + s.name)
        for t in itertools.chain(s.EntityType, s.ComplexType):
            fq = s.name + "." + t.name
            put(t, fq)
            for p in t.Property:
                put(p, fq + "/" + p.name)
            for p in getattr(t, "NavigationProperty", ()):
                put(p, fq + "/" + p.name)
        for a in s.Association:
            fq = s.name + "." + a.name
            put(a, fq)
            for e in a.AssociationEnd:
                put(e, fq + "/" + e.name)
        for c in s.EntityContainer:
            fq = s.name + "." + c.name
            put(c, fq)
            for x in itertools.chain(c.EntitySet, c.AssociationSet,
                                     c.FunctionImport):
                put(x, fq + "/" + x.name)
            for x in c.AssociationSet:
                for e in x.AssociationSetEnd:
                    put(e, "%s/%s#%s" % (fq, x.name, e.name))
            for x in c.FunctionImport:
                for p in x.Parameter:
                    put(p, "%s/%s/%s" % (fq, x.name, p.name))
    return out


def view(ds):
    name = ids(ds)
    facts = []

    def n(o):
        return "-" if o is None else name.get(id(o), "?")

    def f(k, o, v):
        facts.append([k, n(o) if not isinstance(o, str) else o, v])

    def mult(x):
        return edm.multiplicity_to_str(x)
    for s in ds.Schema:
        for t in itertools.chain(s.EntityType, s.ComplexType):
            for p in t.Property:
                f("type", p, n(p.complexType) if p.simpleTypeCode is None
                  else edm.SimpleType.to_str(p.simpleTypeCode))
        for t in s.EntityType:
            for p in t.NavigationProperty:
                f("assoc", p, n(p.association))
                f("from", p, n(p.from_end))
                f("to", p, n(p.to_end))
                f("back", p, n(p.backLink))
                f("ambiguous", p, "yes" if p.ambiguous else "no")
        for a in s.Association:
            for e in a.AssociationEnd:
                f("end", e, n(e.entityType))
                f("other", e, n(e.otherEnd))
        for c in s.EntityContainer:
            for x in c.EntitySet:
                f("settype", x, n(x.entityType))
                for k in x.keys:
                    f("key", x, k)
                for k in x.navigation:
                    f("target", "%s/%s" % (n(x), k), n(x.get_target(k)))
                    f("mult", "%s/%s" % (n(x), k), ",".join(
                        mult(y) for y in x.get_multiplicity(k)))
            for x in c.AssociationSet:
                f("asetassoc", x, n(x.association))
                for e in x.AssociationSetEnd:
                    f("asetset", e, n(e.entity_set))
                    f("asetend", e, n(e.associationEnd))
                    f("asetother", e, n(e.otherEnd))
            for x in c.FunctionImport:
                r = x.returnTypeRef
                f("ret", x, "-" if r is None else n(r.type_def)
                  if r.simpleTypeCode is None
                  else edm.SimpleType.to_str(r.simpleTypeCode))
                f("retset", x, n(x.entity_set))
    names = [[k, n(v)] for k, v in ds.items()]
    return {"res": "ok", "facts": facts, "names": names, "len": len(ds)}


def model(seed):
    logging.disable(logging.CRITICAL)
    rng = random.Random(seed)
    m = gen_model(rng)
    ev = []
    for _ in range(3):
        try:
            ev.append(view(load(xml(m, rng), rng)))
        except Exception as e:
            ev.append({"res": "%s: %s" % (type(e).__name__, e), "facts": [],
                       "names": [], "len": 0})
    return {"cfg": {"kind": "model", "m": m}, "ev": ev}


def run(ctx):
    traces = []
    for n, every in ((2, True), (ctx.pick(3, 3), ctx.thorough)):
        tr = ctx.model("NameTableMC", "CONSTANTS N = %d\nAll = %s\n"
                       "INIT Init\nNEXT Next\nINVARIANT Inv\n"
                       "CHECK_DEADLOCK FALSE\n" %
                       (n, "TRUE" if every else "FALSE"), emit=True,
                       name="NameTableMC(%d)" % n)
        jobs = [(init["cfg"], ops, ctx.rng.random())
                for init, ops in vlib.tours(tr, str, ctx.rng, max_len=200)]
        if n == 3 and not ctx.thorough:
            jobs = ctx.rng.sample(jobs, len(jobs) // 6)
        traces += vlib.pmap(play, jobs)
    traces += vlib.pmap(gen_play, [ctx.rng.random() for _ in
                                   range(ctx.pick(400, 4000))])
    ctx.validate("NameTableTrace", traces, CFG, label="tables")
    traces = vlib.pmap(model, [ctx.rng.random() for _ in
                               range(ctx.pick(1000, 20000))])
    ctx.validate("NameTableTrace", traces, CFG, label="models")
