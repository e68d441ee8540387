"""OData entity containers driven through the public API, with results in
the terms of spec/ODataStore.tla (keys and values are integer codes)."""
import hashlib
import io
import os
import shutil
import tempfile

from pyslet.odata2 import csdl as edm
from pyslet import blockstore
from pyslet.odata2 import core, memds, sqlds
from pyslet.odata2 import metadata as edmx

# --- metadata --------------------------------------------------------------

# assoc: name -> (set a, multiplicity of a, nav on a, set b, mult. of b, nav on b)
MULT = {"1": "1", "?": "0..1", "*": "*"}


def edmx_text(sets, assocs, extra=""):
    """sets: name -> {"key": [(name, type)], "props": [(name, type, attrs)]}"""
    types, esets, asets, adefs = [], [], [], []
    for name in sets:
        d = sets[name]
        p = ['<EntityType Name="%sType"><Key>%s</Key>' % (
            name, "".join('<PropertyRef Name="%s"/>' % k
                          for k, _ in d["key"]))]
        for k, t in d["key"]:
            p.append('<Property Name="%s" Type="%s" Nullable="false" %s/>' % (
                k, t, 'MaxLength="20"' if t == "Edm.String" else ""))
        for k, t, a in d["props"]:
            p.append('<Property Name="%s" Type="%s" %s/>' % (k, t, a))
        for an in assocs:
            sa, ma, na, sb, mb, nb = assocs[an]
            if sa == name and na:
                p.append('<NavigationProperty Name="%s" Relationship='
                         '"M.%s" FromRole="A" ToRole="B"/>' % (na, an))
            if sb == name and nb:
                p.append('<NavigationProperty Name="%s" Relationship='
                         '"M.%s" FromRole="B" ToRole="A"/>' % (nb, an))
        p.append('</EntityType>')
        if d.get("media"):
            p[0] = p[0].replace("<EntityType ",
                                '<EntityType m:HasStream="true" ')
        types.append("".join(p))
        esets.append('<EntitySet Name="%s" EntityType="M.%sType"/>' % (
            name, name))
    for an in assocs:
        sa, ma, na, sb, mb, nb = assocs[an]
        adefs.append('<Association Name="%s"><End Type="M.%sType" '
                     'Role="A" Multiplicity="%s"/><End Type="M.%sType" '
                     'Role="B" Multiplicity="%s"/></Association>' % (
                         an, sa, MULT[ma], sb, MULT[mb]))
        asets.append('<AssociationSet Name="%s_S" Association="M.%s">'
                     '<End Role="A" EntitySet="%s"/>'
                     '<End Role="B" EntitySet="%s"/></AssociationSet>' % (
                         an, an, sa, sb))
    return ('<?xml version="1.0" encoding="utf-8"?>'
            '<edmx:Edmx Version="1.0" xmlns:edmx='
            '"http://schemas.microsoft.com/ado/2007/06/edmx">'
            '<edmx:DataServices m:DataServiceVersion="2.0" xmlns:m="http://'
            'schemas.microsoft.com/ado/2007/08/dataservices/metadata">'
            '<Schema Namespace="M" xmlns='
            '"http://schemas.microsoft.com/ado/2006/04/edm">' +
            "".join(types) + extra + "".join(adefs) +
            '<EntityContainer Name="C" m:IsDefaultEntityContainer="true">' +
            "".join(esets) + "".join(asets) +
            '</EntityContainer></Schema></edmx:DataServices></edmx:Edmx>')


def load_doc(text):
    doc = edmx.Document()
    doc.read(io.BytesIO(text.encode("utf-8")))
    return doc


# --- value tables: code -> python value; 0 is always None ------------------

class Table(object):

    def __init__(self, values):
        self.values = list(values)      # code 1..n

    def enc(self, code):
        return None if code == 0 else self.values[code - 1]

    def dec(self, v):
        if v is None:
            return 0
        for i, x in enumerate(self.values):
            if x == v and (type(x) is type(v) or not isinstance(x, (
                    bool, int, float)) or not isinstance(v, bool)):
                return i + 1
        return -1


class DynTable(object):
    """For values the code makes up; each new one gets the next code"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.values = []

    def enc(self, code):
        return None if code == 0 else self.values[code - 1]

    def dec(self, v):
        if v is None:
            return 0
        if v not in self.values:
            self.values.append(v)
        return self.values.index(v) + 1


MEDIA = [b"", b"x", b"hello world", bytes(bytearray(range(256))) * 3,
         b"0123456789abcdef", b"0123456789abcdef" * 2]


class Model(object):
    """A metadata document, its value tables and the schema record for the
    specification"""

    def __init__(self, sets, assocs, tables, keys, extra="", defaults=None,
                 toks=None):
        self.sets, self.assocs = sets, assocs
        self.tables = tables            # (set, path) -> Table
        self.keys = keys                # set -> {code: python key}
        self.text = edmx_text(sets, assocs, extra)
        self.defaults = defaults or {}
        self.toks = toks or {}          # (set, prop) -> "new" or "hash"
        self.navs = {}
        for s in sets:
            self.navs[s] = {}
        for an in assocs:
            sa, ma, na, sb, mb, nb = assocs[an]
            if na:
                self.navs[sa][na] = {"as": an, "rev": False, "to": sb}
            if nb:
                self.navs[sb][nb] = {"as": an, "rev": True, "to": sa}
        self.cfg = {
            "sets": {},
            "assocs": {an: {"a": a[0], "ma": a[1], "b": a[3], "mb": a[4]}
                       for an, a in assocs.items()},
            "navs": {s: dict(self.navs[s]) for s in sets}}
        for s in sets:
            self.cfg["sets"][s] = {
                p: {"def": self.defaults.get((s, p), 0),
                    "top": p.split("/")[0],
                    "tok": self.toks.get((s, p), "")}
                for p in self.paths(s)}
            self.cfg["sets"][s]["_"] = {"def": 0, "top": "_", "tok": ""}
            self.cfg["navs"][s]["_"] = {"as": "", "rev": False, "to": ""}
        self.cfg["assocs"]["_"] = {"a": "", "ma": "*", "b": "", "mb": "*"}

    def paths(self, s):
        """The data properties, complex ones flattened"""
        return [p for (t, p) in self.tables if t == s]

    def tops(self, s):
        return sorted(set(p.split("/")[0] for p in self.paths(s)))


class Held(object):

    def __init__(self, c):
        self.c = c

    def open(self):
        return self

    def __enter__(self):
        return self.c

    def __exit__(self, *args):
        pass


class Driver(object):
    """One container.  do(op) performs an operation of the specification
    and returns its result."""

    def __init__(self, model, container):
        self.m = model
        self.c = container              # the csdl EntityContainer
        self.es = {s: container[s] for s in model.sets}
        self.hold = {}
        for k in model.toks:
            model.tables[k].reset()
        self.kcode = {s: {v: k for k, v in model.keys[s].items()}
                      for s in model.sets}
        self.kval = {s: dict(model.keys[s]) for s in model.sets}

    # codes for keys the code made up
    def key_code(self, s, k):
        if k not in self.kcode[s]:
            n = 1000 + len(self.kcode[s])
            self.kcode[s][k] = n
            self.kval[s][n] = k
        return self.kcode[s][k]

    def err(self, e):
        if isinstance(e, KeyError):
            return "key"
        if isinstance(e, edm.ConcurrencyError):
            return "concurrency"
        if isinstance(e, edm.ConstraintError):
            return "constraint"
        if isinstance(e, edm.NonExistentEntity):
            return "nonexist"
        if isinstance(e, edm.EntityExists):
            return "exists"
        return "other " + type(e).__name__

    def get(self, e, path):
        v = e
        for p in path.split("/"):
            v = v[p]
        return v

    def set_vals(self, s, e, vals):
        for p, code in vals.items():
            if p == "_":
                continue
            self.get(e, p).set_from_value(self.m.tables[(s, p)].enc(code))

    def rec(self, s, e, sel=None):
        out = {}
        for p in self.m.paths(s):
            if sel is not None and p.split("/")[0] not in sel:
                continue
            out[p] = self.m.tables[(s, p)].dec(self.get(e, p).value)
        out["_"] = 0
        return out

    def new_entity(self, s, coll, op):
        """op: key (0: none), vals, sel (list or []: all), binds"""
        e = coll.new_entity()
        if op.get("sel"):
            e.expand(None, {p: None for p in op["sel"] + [
                k for k, _ in self.m.sets[s]["key"]]})
        if op["key"]:
            e.set_key(self.kval[s][op["key"]])
        self.set_vals(s, e, op["vals"])
        self.bind(s, e, op["binds"])
        return e

    def bind(self, s, e, binds):
        for b in binds:
            to = self.m.navs[s][b["nav"]]["to"]
            if b["k"] == "key":
                e[b["nav"]].bind_entity(self.kval[to].get(b["key"]))
            else:
                with self.es[to].open() as c:
                    t = self.new_entity(to, c, b)
                b["_e"] = t
                e[b["nav"]].bind_entity(t)

    def note_keys(self, s, e, op):
        """records the keys that were generated"""
        if not op["key"]:
            op["key"] = self.key_code(s, e.key())
        for b in op["binds"]:
            if b["k"] == "new":
                t = b.pop("_e")
                if not b["key"]:
                    try:
                        k = t.key()
                    except KeyError:
                        k = None
                    if k is not None:
                        to = self.m.navs[s][b["nav"]]["to"]
                        self.note_keys(to, t, b)

    def note_toks(self, s, e, op):
        """records the concurrency tokens the code chose"""
        for t, p in self.m.toks:
            if t == s:
                op.setdefault("newtok", {"_": 0})[p] = \
                    self.m.tables[(t, p)].dec(self.get(e, p).value)

    def sinfo(self, data, op):
        """Half of the streams have a declared size (with more data than
        that to follow)"""
        return core.StreamInfo(size=len(data)) if op["cut"] else None

    def strip(self, op):
        for b in op.get("binds", ()):
            b.pop("_e", None)
            if b["k"] == "new":
                self.strip(b)
        if "ent" in op:
            self.strip(op["ent"])

    def do(self, op):
        try:
            r = self._do(op)
        except Exception as e:
            r = {"r": "err", "v": self.err(e), "x": repr(e)[:200]}
        self.strip(op)
        return r

    def held(self, s):
        """A collection that stays open from one operation to the next"""
        if s not in self.hold:
            self.hold[s] = self.es[s].open()
        self.hold[s].set_expand(None, None)
        return Held(self.hold[s])

    def release(self):
        for c in self.hold.values():
            c.close()
        self.hold = {}

    def _do(self, op):
        n, s = op["n"], op["set"]
        es = self.es[s]
        if op.get("hold"):
            es = self.held(s)
        if n == "insert":
            with es.open() as c:
                e = self.new_entity(s, c, op)
                c.insert_entity(e)
                if not e.exists:
                    return {"r": "err", "v": "not exists"}
                self.note_keys(s, e, op)
                self.note_toks(s, e, op)
            return {"r": "ok"}
        if n == "newstream":
            with es.open() as c:
                want = self.kval[s].get(op["want"])
                data = MEDIA[op["data"] - 1]
                e = c.new_stream(io.BytesIO(data + b"tail" * op["cut"]),
                                 self.sinfo(data, op), want)
                if not e.exists:
                    return {"r": "err", "v": "not exists"}
                op["key"] = self.key_code(s, e.key())
            return {"r": "ok"}
        key = self.kval[s].get(op["key"]) if "key" in op else None
        if n == "read":
            with es.open() as c:
                if op["sel"]:
                    c.set_expand(None, {p: None for p in op["sel"]})
                e = c[key]
                if not e.exists:
                    return {"r": "err", "v": "not exists"}
                if e.key() != key:
                    return {"r": "err", "v": "wrong key"}
                return {"r": "rec", "v": self.rec(s, e, op["sel"] or None)}
        if n == "setstream":
            with es.open() as c:
                data = MEDIA[op["data"] - 1]
                c.update_stream(io.BytesIO(data + b"tail" * op["cut"]), key,
                                self.sinfo(data, op))
            return {"r": "ok"}
        if n == "getstream":
            if op["via"]:
                c = es.open()
                sinfo, gen = c.read_stream_close(key)
                data = b"".join(gen)
            else:
                with es.open() as c:
                    out = io.BytesIO()
                    sinfo = c.read_stream(key, out)
                    data = out.getvalue()
            if sinfo.size != len(data):
                return {"r": "err", "v": "wrong size"}
            if sinfo.md5 is not None and \
                    sinfo.md5 != hashlib.md5(data).digest():
                return {"r": "err", "v": "wrong md5"}
            return {"r": "int",
                    "v": MEDIA.index(data) + 1 if data in MEDIA else -1}
        if n == "has":
            with es.open() as c:
                return {"r": "int", "v": 1 if key in c else 0}
        if n == "len":
            with es.open() as c:
                return {"r": "int", "v": len(c)}
        if n == "keys":
            with es.open() as c:
                return {"r": "keys",
                        "v": sorted(self.key_code(s, k) for k in c)}
        if n == "delete":
            with es.open() as c:
                if op.get("via"):
                    e = c[key]
                    e.delete()
                    if e.exists:
                        return {"r": "err", "v": "still exists"}
                else:
                    del c[key]
            return {"r": "ok"}
        if n == "assign":
            with es.open() as c:
                e = c[self.kval[s].get(op["from"])]
                c[key] = e
            return {"r": "ok"}
        if n == "update":
            with es.open() as c:
                if op["sel"]:
                    c.set_expand(None, {p: None for p in op["sel"]})
                e = c[key]
                self.set_vals(s, e, op["vals"])
                self.bind(s, e, op["binds"])
                if op.get("via") and op["merge"]:
                    e.commit()
                else:
                    c.update_entity(e, merge=op["merge"])
                self.note_keys(s, e, op)
                self.note_toks(s, e, op)
            return {"r": "ok"}
        # navigation
        with es.open() as c:
            e = c[key]
        nav = op["nav"]
        to = self.m.navs[s][nav]["to"]
        tkey = self.kval[to].get(op["t"]) if "t" in op else None
        if n == "navget":
            t = e[nav].get_entity()
            return {"r": "keys",
                    "v": [] if t is None else [self.key_code(to, t.key())]}
        if n in ("link", "replace"):
            with self.es[to].open() as c:
                t = c[tkey]
        with e[nav].open() as c:
            if n == "navkeys":
                ks = sorted(self.key_code(to, k) for k in c)
                vs = sorted(self.key_code(to, x.key())
                            for x in c.itervalues())
                if ks != vs or len(c) != len(ks):
                    return {"r": "err", "v": "inconsistent"}
                return {"r": "keys", "v": ks}
            if n == "navhas":
                return {"r": "int", "v": 1 if tkey in c else 0}
            if n == "navread":
                x = c[tkey]
                if x.key() != tkey or not x.exists:
                    return {"r": "err", "v": "wrong key"}
                return {"r": "rec", "v": self.rec(to, x)}
            if n == "link":
                c[tkey] = t
            elif n == "replace":
                c.replace(t)
            elif n == "unlink":
                del c[tkey]
            elif n == "clear":
                c.clear()
            elif n == "navinsert":
                t = self.new_entity(to, c, op["ent"])
                c.insert_entity(t)
                if not t.exists:
                    return {"r": "err", "v": "not exists"}
                self.note_keys(to, t, op["ent"])
            else:
                raise ValueError(n)
        return {"r": "ok"}

    def dump(self):
        """The whole state as a reader sees it"""
        out = {"k": "dump", "ents": [], "links": []}
        for s in sorted(self.m.sets):
            with self.es[s].open() as c:
                n = len(c)
                es = list(c.itervalues())
            ents = []
            for e in es:
                k = self.key_code(s, e.key())
                ents.append({"key": k, "rec": self.rec(s, e)})
                for nav in sorted(self.m.navs[s]):
                    to = self.m.navs[s][nav]["to"]
                    with e[nav].open() as nc:
                        ts = [self.key_code(to, x.key())
                              for x in nc.itervalues()]
                    if ts:
                        out["links"].append({
                            "set": s, "nav": nav, "key": k, "to": ts})
            out["ents"].append({"set": s, "len": n, "ents": ents})
        return out


# --- back ends ---------------------------------------------------------------

def shm():
    d = "/dev/shm"
    return d if os.path.isdir(d) and os.access(d, os.W_OK) else None


class MemBackend(object):
    name = "mem"

    def __init__(self, model):
        self.model = model
        self.doc = load_doc(model.text)

    def open(self):
        cdef = self.doc.root.DataServices["M.C"]
        self.store = memds.InMemoryEntityContainer(cdef)
        return Driver(self.model, cdef)

    def close(self):
        pass


class SQLBackend(object):
    name = "sql"

    cls = sqlds.SQLiteEntityContainer

    def __init__(self, model, dirpath=None, memory=False, streams=False):
        self.model = model
        self.streams = streams
        if streams:
            self.sdoc = edmx.Document()
            with open(os.path.join(os.path.dirname(sqlds.__file__),
                                   "streamstore.xml"), "rb") as f:
                self.sdoc.read(f)
        self.doc = load_doc(model.text)
        self.memory = memory
        if not memory:
            self.dir = tempfile.mkdtemp(prefix="verif-sql-",
                                        dir=dirpath or shm())
            self.template = None
        self.n = 0

    def open(self):
        cdef = self.doc.root.DataServices["M.C"]
        self.n += 1
        kw = {}
        if self.streams:
            sdef = self.sdoc.root.DataServices[
                "StreamStoreSchema.Container"]
            memds.InMemoryEntityContainer(sdef)
            kw["streamstore"] = blockstore.StreamStore(
                blockstore.EDMBlockStore(entity_set=sdef["Blocks"],
                                         max_block_size=16),
                blockstore.LockStore(entity_set=sdef["Locks"]),
                sdef["Streams"])
        if self.memory:
            self.db = self.cls(":memory:", container=cdef, **kw)
            self.db.create_all_tables()
        else:
            path = os.path.join(self.dir, "db%d" % self.n)
            if self.template is None:
                self.template = os.path.join(self.dir, "template")
                db = self.cls(self.template, container=cdef)
                db.create_all_tables()
                db.close()
            shutil.copy(self.template, path)
            self.path = path
            self.db = self.cls(path, container=cdef, **kw)
        return Driver(self.model, cdef)

    def close(self):
        self.db.close()
        if not self.memory:
            os.unlink(self.path)

    def dispose(self):
        if not self.memory:
            shutil.rmtree(self.dir, ignore_errors=True)
