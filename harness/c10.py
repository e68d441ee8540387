"""C10: pyslet.blockstore streams against spec/StreamStore.tla"""
import hashlib
import io
import json
import logging
import os
import random
import shutil
import sqlite3
import tempfile

from c09 import Points, PointSet, sched                  # noqa
from pyslet import blockstore                            # noqa
from pyslet.odata2 import memds, metadata as edmx, sqlds  # noqa
from pyslet.vfs import OSFilePath                        # noqa
import vlib                                              # noqa

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- SInit\nCONSTANT TStep <- SStep\n" \
      "CONSTANT TWhy <- SWhy\n"

EDMX = """<?xml version="1.0" encoding="UTF-8"?>
<edmx:Edmx xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
 Version="1.0"><edmx:DataServices m:DataServiceVersion="1.0"
 xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema xmlns="http://schemas.microsoft.com/ado/2008/09/edm" Namespace="S">
<EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="Blocks" EntityType="S.Block"/>
<EntitySet Name="Locks" EntityType="S.Lock"/>
<EntitySet Name="Streams" EntityType="S.Stream"/>
<EntitySet Name="Lists" EntityType="S.List"/>
<AssociationSet Name="SL" Association="S.SL">
<End Role="s" EntitySet="Streams"/><End Role="l" EntitySet="Lists"/>
</AssociationSet></EntityContainer>
<EntityType Name="Block"><Key><PropertyRef Name="hash"/></Key>
<Property Name="hash" Type="Edm.String" Nullable="false" MaxLength="64"/>
<Property Name="data" Type="Edm.Binary" Nullable="false" MaxLength="65536"/>
</EntityType>
<EntityType Name="Lock"><Key><PropertyRef Name="hash"/></Key>
<Property Name="hash" Type="Edm.String" Nullable="false" MaxLength="64"/>
<Property Name="owner" Type="Edm.String" Nullable="false" MaxLength="32"/>
<Property Name="created" Type="Edm.DateTime" Nullable="false" Precision="3"
 ConcurrencyMode="Fixed"/></EntityType>
<EntityType Name="Stream"><Key><PropertyRef Name="streamID"/></Key>
<Property Name="streamID" Type="Edm.Int32" Nullable="false"/>
<Property Name="mimetype" Type="Edm.String" Nullable="false" MaxLength="64"/>
<Property Name="created" Type="Edm.DateTime" Nullable="false" Precision="3"/>
<Property Name="modified" Type="Edm.DateTime" Nullable="false" Precision="3"/>
<Property Name="size" Type="Edm.Int64" Nullable="false"/>
<Property Name="md5" Type="Edm.Binary" Nullable="true" MaxLength="16"
 FixedLength="true"/>
<NavigationProperty Name="Blocks" FromRole="s" ToRole="l"
 Relationship="S.SL"/></EntityType>
<EntityType Name="List"><Key><PropertyRef Name="blockID"/></Key>
<Property Name="blockID" Type="Edm.Int64" Nullable="false"/>
<Property Name="num" Type="Edm.Int32" Nullable="false"/>
<Property Name="hash" Type="Edm.String" Nullable="false" MaxLength="64"/>
<NavigationProperty Name="Stream" FromRole="l" ToRole="s"
 Relationship="S.SL"/></EntityType>
<Association Name="SL"><End Role="s" Type="S.Stream" Multiplicity="0..1"/>
<End Role="l" Type="S.List" Multiplicity="*"/></Association>
</Schema></edmx:DataServices></edmx:Edmx>"""


class Container(sqlds.SQLiteEntityContainer):

    def ro_name(self, source_path):
        if source_path in (("Streams", "streamID"), ("Lists", "blockID")):
            return True
        return super(Container, self).ro_name(source_path)


class Env(object):
    """A stream store; sql and files say where things are kept"""

    def __init__(self, sql, files):
        doc = edmx.Document()
        doc.read(io.BytesIO(EDMX.encode("utf-8")))
        self.cdef = doc.root.DataServices["S.C"]
        self.dir = tempfile.mkdtemp(prefix="c10")
        self.sql = sql
        self.files = files
        self.lists = "Lists"
        self.own = None
        if sql == "own":
            self.lists = "BlockLists"
        elif sql:
            self.path = os.path.join(self.dir, "s.db")
            self.container = Container(container=self.cdef,
                                       file_path=self.path)
            self.container.create_all_tables()
        else:
            self.container = memds.InMemoryEntityContainer(self.cdef)
        self.n = 0

    def fresh(self, bsize):
        """Empties the store"""
        if self.sql == "own":
            # the stream store that comes with SQLite
            if self.own is not None:
                self.own.container.close()
            self.n += 1
            path = os.path.join(self.dir, "own%i.db" % self.n)
            if self.files:
                self.fdir = os.path.join(self.dir, "f%i" % self.n)
                os.mkdir(self.fdir)
            self.own = sqlds.SQLiteStreamStore(
                path, OSFilePath(self.fdir) if self.files else None)
            self.cdef = self.own.container_def
            self.bs = self.own.bs
            self.bs.max_block_size = bsize
            return
        if self.sql:
            db = sqlite3.connect(self.path)
            for t in ("Blocks", "Locks", "Lists", "Streams"):
                db.execute('DELETE FROM "%s"' % t)
            db.commit()
            db.close()
        else:
            for t in ("Lists", "Streams", "Blocks", "Locks"):
                with self.cdef[t].open() as c:
                    for k in list(c):
                        del c[k]
        if self.files:
            self.n += 1
            d = os.path.join(self.dir, "f%i" % self.n)
            os.mkdir(d)
            self.fdir = d
            self.bs = blockstore.FileBlockStore(
                dpath=OSFilePath(d), max_block_size=bsize)
        else:
            self.bs = blockstore.EDMBlockStore(
                entity_set=self.cdef["Blocks"], max_block_size=bsize)

    def refs(self):
        with self.cdef[self.lists].open() as c:
            return sorted(set(e["hash"].value for e in c.values()))

    def stored(self):
        if not self.files:
            with self.cdef["Blocks"].open() as c:
                return sorted(c)
        out = []
        for d, _, fs in os.walk(self.fdir):
            rel = os.path.relpath(d, self.fdir)
            if rel.split(os.sep)[0] == "tmp":
                continue
            out += [rel.replace(os.sep, "") + f for f in fs]
        return sorted(out)

    def close(self):
        if self.own is not None:
            self.own.container.close()
        elif self.sql:
            self.container.close()
        shutil.rmtree(self.dir)


class SlowBlocks(object):
    """Wraps a block store: every call is a scheduling point"""

    def __init__(self, bs, hook):
        self._bs = bs
        self._hook = hook

    def __getattr__(self, name):
        v = getattr(self._bs, name)
        if name not in ("store", "retrieve", "delete"):
            return v

        def f(*args, **kws):
            self._hook()
            return v(*args, **kws)
        return f


def res(v):
    return {"r": "bytes", "v": list(bytearray(v))}


def do(f, op):
    n = op["n"]
    try:
        if n == "read":
            if op.get("into"):
                b = bytearray(op["k"])
                r = f.readinto(b)
                return res(b[:r])
            return res(f.read(op["k"]))
        if n == "readall":
            return res(f.readall())
        if n == "write":
            d = bytearray(op["d"])
            r = f.write(d if op.get("mut") else bytes(d))
            return {"r": "ok", "v": r}
        if n == "seek":
            f.seek(op["o"], op["w"])
        elif n == "tell":
            return {"r": "ok", "v": f.tell()}
        elif n == "flush":
            f.flush()
        return {"r": "ok", "v": 0}
    except (IOError, ValueError):
        return {"r": "err"}
    except Exception as e:
        return {"r": "exc", "v": repr(e)}


def look(ss, key, i, ev):
    """Reads back a stream that is not open"""
    try:
        s = ss.get_stream(key)
        with ss.open_stream(s, "r") as f:
            d = f.readall()
        md5 = s["md5"].value
        md5 = "null" if md5 is None else \
            "match" if md5 == hashlib.md5(d).digest() else "mismatch"
        ev.append({"k": "look", "i": i, "size": s["size"].value, "md5": md5,
                   "data": list(bytearray(d))})
    except Exception as e:
        ev.append({"k": "exc", "i": i, "v": repr(e)})


def audit(env, ev):
    refs, stored = env.refs(), env.stored()
    ev.append({"k": "blocks",
               "missing": [h for h in refs if h not in stored],
               "orphans": [h for h in stored if h not in refs]})


def clean(op):
    return {k: v for k, v in op.items() if k not in ("into", "mut")}


class User(object):
    """Carries out a script on a stream store, recording events"""

    def __init__(self, env, ss, ev):
        self.env, self.ss, self.ev = env, ss, ev
        self.keys = {}
        self.handles = {}

    def step(self, i, op):
        ev, n = self.ev, op["n"]
        if n == "new":
            self.keys[i] = self.ss.new_stream("text/plain").key()
            ev.append({"k": "new", "i": i})
        elif n == "open":
            if i in self.handles:
                return
            try:
                self.handles[i] = self.ss.open_stream(
                    self.ss.get_stream(self.keys[i]), "".join(op["m"]) +
                    ("b" if op.get("b") else ""))
                ev.append({"k": "open", "i": i, "m": op["m"]})
            except Exception as e:
                ev.append({"k": "exc", "i": i, "v": repr(e), "op": op})
        elif n == "close":
            if i not in self.handles:
                return
            try:
                self.handles.pop(i).close()
                r = "ok"
            except Exception as e:
                r = repr(e)
            ev.append({"k": "close", "i": i, "res": r})
        elif n == "delete":
            try:
                self.ss.delete_stream(self.ss.get_stream(self.keys[i]))
                r = "ok"
            except Exception as e:
                r = repr(e)
            ev.append({"k": "delete", "i": i, "res": r})
            try:
                self.ss.get_stream(self.keys[i])
                r = "there"
            except KeyError:
                r = "KeyError"
            ev.append({"k": "gone", "i": i, "res": r})
            del self.keys[i]
        elif n == "look":
            if i not in self.handles:
                look(self.ss, self.keys[i], i, ev)
        elif i in self.handles:
            r = do(self.handles[i], op)
            ev.append({"k": "op", "i": i, "op": clean(op), "res": r})


def sequential(env, bsize, n, script):
    env.fresh(bsize)
    ev = []
    ss = env.own or blockstore.StreamStore(
        bs=env.bs, ls=blockstore.LockStore(env.cdef["Locks"]),
        entity_set=env.cdef["Streams"])
    u = User(env, ss, ev)
    for i, op in script:
        u.step(i, op)
        if op["n"] in ("close", "delete", "flush"):
            audit(env, ev)
        if ev and ev[-1]["k"] == "exc" or ev and ev[-1].get(
                "res", {}) and ev[-1]["res"] == "exc":
            break
    for i in list(u.handles):
        u.step(i, {"n": "close"})
    for i in list(u.keys):
        u.step(i, {"n": "look"})
    audit(env, ev)
    return {"cfg": {"streams": n, "bsize": bsize, "sql": str(env.sql),
                    "files": env.files}, "ev": ev}


def concurrent(env, bsize, n, scripts, rng):
    """Each script works on streams of its own"""
    env.fresh(bsize)
    ev = []
    s = sched.Scheduler(rng, max_steps=60000, choose=sched.bursts(
        rng, rng.choice((0, 2, 8, 20, 50))))

    def hook():
        me = sched._me()
        if me is not None:
            if rng.random() < .1:
                sched.vsleep(.05)
            else:
                me.yield_()
    wrapped = {}
    plain_open = {}
    try:
        # every table the store opens becomes a scheduling point
        for name in ("Blocks", "Locks", env.lists, "Streams"):
            es = env.cdef[name]
            plain_open[name] = es.open
            es.open = (lambda o: lambda: Points(o(), hook))(es.open)
        with sched.building(s):
            users = [User(env, blockstore.StreamStore(
                bs=SlowBlocks(env.bs, hook),
                ls=blockstore.LockStore(env.cdef["Locks"]),
                entity_set=env.cdef["Streams"]), ev) for _ in scripts]

        def body(u, script):
            def f():
                for i, op in script:
                    u.step(i, op)
            return f
        state = random.getstate()
        random.seed(rng.random())
        try:
            for j, (u, sc) in enumerate(zip(users, scripts)):
                s.spawn("t%i" % j, body(u, sc))
            st = s.run()
        finally:
            random.setstate(state)
    finally:
        for name in plain_open:
            del env.cdef[name].open
    bad = [repr(t.error) for t in s.threads if t.error is not None]
    if st != "done" or bad:
        ev.append({"k": "hang", "status": st, "error": bad})
    else:
        for u in users:
            for i in list(u.handles):
                u.step(i, {"n": "close"})
            for i in list(u.keys):
                u.step(i, {"n": "look"})
        audit(env, ev)
    return {"cfg": {"streams": n, "bsize": bsize, "sql": str(env.sql),
                    "files": env.files}, "ev": ev}


MODES = (["r"], ["w"], ["a"], ["r", "+"], ["w", "+"], ["a", "+"],
         ["r", "+"], ["w", "+"])


def rand_bytes(rng, k):
    if rng.random() < .3:
        return [rng.choice((0, 1, 1))] * k
    return [rng.choice((1, 1, 2, 3)) for _ in range(k)]


def body_ops(rng, bsize, n):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < .42:
            ops.append({"n": "write", "d": rand_bytes(rng, rng.choice(
                (0, 1, 1, 2, bsize, bsize + 2))), "mut": rng.random() < .3})
        elif x < .62:
            ops.append({"n": "read", "into": rng.random() < .3,
                        "k": rng.choice((0, 1, 2, bsize, bsize + 3))})
        elif x < .85:
            w = rng.choice((0, 0, 0, 1, 2))
            ops.append({"n": "seek", "w": w, "o": rng.randrange(
                -1, 4 * bsize) if w == 0 else rng.randrange(-bsize, bsize)})
        elif x < .9:
            ops.append({"n": "flush"})
        elif x < .95:
            ops.append({"n": "tell"})
        else:
            ops.append({"n": "readall"})
    return ops


def seq_script(rng, bsize, n):
    script = []
    live = []
    opened = []
    for _ in range(rng.randrange(4, 16)):
        x = rng.random()
        if len(live) < n and (not live or x < .2) and \
                len([1 for _, o in script if o["n"] == "new"]) < n:
            i = 1 + len([1 for _, o in script if o["n"] == "new"])
            script.append((i, {"n": "new"}))
            live.append(i)
        if not live:
            break
        i = rng.choice(live)
        if i not in opened:
            if x > .93:
                script.append((i, {"n": "delete"}))
                live.remove(i)
                continue
            script.append((i, {"n": "open", "m": rng.choice(MODES),
                               "b": rng.random() < .5}))
            opened.append(i)
        for op in body_ops(rng, bsize, rng.randrange(1, 9)):
            script.append((i, op))
        if rng.random() < .6:
            script.append((i, {"n": "close"}))
            opened.remove(i)
            script.append((rng.choice(live), {"n": "look"}))
    return script


def conc_scripts(rng, bsize, threads):
    """few different blocks, so that they are shared"""
    out = []
    n = 0
    bytes_ = rng.choice(((1,), (1, 2), (1, 2, 3)))
    brief = rng.random() < .5
    for _ in range(threads):
        sc = []
        if brief:
            for _ in range(rng.choice((1, 2))):
                n += 1
                sc += [(n, {"n": "new"}), (n, {"n": "open", "m": ["w"]}),
                       (n, {"n": "write", "d": [1] * bsize}),
                       (n, {"n": "close"})]
                if rng.random() < .6:
                    sc.append((n, {"n": "delete"}))
            out.append(sc)
            continue
        for _ in range(rng.choice((1, 1, 2))):
            n += 1
            i = n
            sc.append((i, {"n": "new"}))
            for _ in range(rng.choice((1, 1, 2))):
                sc.append((i, {"n": "open", "m": rng.choice(
                    (["w"], ["r", "+"], ["w", "+"]))}))
                for _ in range(rng.randrange(1, 5)):
                    if rng.random() < .4:
                        sc.append((i, {"n": "seek", "w": 0, "o": bsize *
                                       rng.randrange(0, 3)}))
                    sc.append((i, {"n": "write",
                                   "d": [rng.choice(bytes_)] * bsize}))
                    if rng.random() < .3:
                        sc.append((i, {"n": "flush"}))
                sc.append((i, {"n": "close"}))
                if rng.random() < .3:
                    sc.append((i, {"n": "look"}))
            if rng.random() < .6:
                sc.append((i, {"n": "delete"}))
        out.append(sc)
    return n, out


def batch(arg):
    what, seed, sql, files, items = arg
    rng = random.Random(seed)
    env = Env(sql, files)
    out = []
    try:
        for it in items:
            if what == "tour":
                script = [(1, {"n": "new"})]
                c = 0
                for op in it:
                    op = dict(op)
                    if op["n"] == "write":
                        op["d"] = [(c + j) % 250 + 1
                                   for j in range(len(op["d"]))]
                        c += len(op["d"])
                    script.append((1, op))
                out.append(sequential(env, 2, 1, script))
            elif what == "seq":
                bsize = rng.choice((1, 2, 3, 5, 8))
                out.append(sequential(env, bsize, 3,
                                      seq_script(rng, bsize, 3)))
            else:
                bsize = rng.choice((1, 2, 4))
                n, scripts = conc_scripts(rng, bsize, rng.choice((2, 2, 3)))
                out.append(concurrent(env, bsize, n, scripts, rng))
    finally:
        env.close()
    return out


def run(ctx):
    rng = ctx.rng
    base = "INIT Init\nNEXT Next\nCONSTANTS Workers = {%s} " \
        "Hashes = {%s}\n" \
        "INVARIANTS Kept NoLeft Untouched\n"
    on = "RefFirst = TRUE\nCountLocked = TRUE\nOrdered = TRUE\n"
    ctx.model("BlockRefsMC", base % (
        '"a", "b", "c"', ctx.pick('"g", "h"', '"g", "h", "i"')) +
        "CONSTANTS " + on)
    for f in ("RefFirst", "CountLocked", "Ordered"):
        text, _, _ = ctx.tlc("BlockRefsMC", base % ('"a", "b", "c"',
                                                    '"g", "h"') +
                             "CONSTANTS " + on.replace(f + " = TRUE",
                                                       f + " = FALSE"),
                             ok_codes=(0, 11, 12))
        if "violated" not in text and "Deadlock" not in text:
            raise vlib.MachineryError("the model does not need " + f)
    tr = ctx.model("StreamMC", "INIT Init\nNEXT Next\nVIEW View\n"
                   "CHECK_DEADLOCK FALSE\nINVARIANT ExportInit\n"
                   "PROPERTIES ReadOnly Grows\n"
                   "CONSTANTS B = 2 MaxSize = %d\n" % ctx.pick(4, 7),
                   emit=True, workers=1)
    ts = [ops for _, ops in vlib.tours(
        tr, lambda x: json.dumps(x, sort_keys=True), rng, max_len=60)]
    ctx.extra["replayed_transitions"] = len(tr)
    n = len(ts)
    rng.shuffle(ts)
    ts = ts[:ctx.pick(160, 20000)]
    ctx.extra["tours"] = "%d of %d" % (len(ts), n)
    jobs = []
    k = ctx.pick(360, 6000)
    for i in range(16):
        sql, files = (False, True, "own", True)[i // 2 % 4], bool(i % 2)
        jobs.append(("tour", rng.random(), sql, files, ts[i::16]))
        jobs.append(("seq", rng.random(), sql, files, [None] * (k // 8)))
        jobs.append(("conc", rng.random(), sql, files, [None] * (k // 8)))
    traces = [t for b in vlib.pmap(batch, jobs, chunk=1) for t in b]
    ctx.validate("StreamTrace", traces, CFG, label="StreamTrace")
    ctx.assumptions.append(
        "a stream is used through one handle at a time; threads work on "
        "streams of their own that share blocks; locks do not go stale")
