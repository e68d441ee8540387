"""C09: pyslet.blockstore.LockStore against spec/LockStore.tla

Contenders are threads of the deterministic scheduler; the entity collection
they use is wrapped so that every operation on the table is a scheduling
point, preceded by a (virtual) delay.  After every step the row is read
directly from the database."""
import datetime
import io
import json
import logging
import math
import os
import random
import shutil
import sqlite3
import tempfile

import sched
sched.install()

from pyslet import blockstore                            # noqa
from pyslet.odata2 import memds, metadata as edmx, sqlds  # noqa
import vlib                                              # noqa

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- LInit\nCONSTANT TStep <- LStep\n" \
      "CONSTANT TWhy <- LWhy\n"
EPOCH = datetime.datetime(1970, 1, 1)
KEY = "a1b2"

EDMX = """<?xml version="1.0" encoding="UTF-8"?>
<edmx:Edmx xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
 Version="1.0"><edmx:DataServices m:DataServiceVersion="1.0"
 xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<Schema xmlns="http://schemas.microsoft.com/ado/2008/09/edm" Namespace="S">
<EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="Locks" EntityType="S.Lock"/></EntityContainer>
<EntityType Name="Lock"><Key><PropertyRef Name="hash"/></Key>
<Property Name="hash" Type="Edm.String" Nullable="false" MaxLength="64"
 Unicode="false"/>
<Property Name="owner" Type="Edm.String" Nullable="false" MaxLength="32"
 Unicode="false"/>
<Property Name="created" Type="Edm.DateTime" Nullable="false" Precision="3"
 ConcurrencyMode="Fixed"/></EntityType></Schema></edmx:DataServices>
</edmx:Edmx>"""

_doc = None


def container_def():
    global _doc
    doc = edmx.Document()
    doc.read(io.BytesIO(EDMX.encode("utf-8")))
    return doc.root.DataServices["S.C"]


class Points(object):
    """Wraps a collection: each call on it is a scheduling point"""

    def __init__(self, coll, hook):
        self.__dict__["_c"] = coll
        self.__dict__["_h"] = hook

    def __enter__(self):
        self._c.__enter__()
        return self

    def __exit__(self, *args):
        return self._c.__exit__(*args)

    def __getattr__(self, name):
        v = getattr(self._c, name)
        if not callable(v) or name in ("new_entity", "close"):
            return v

        def f(*args, **kws):
            self._h()
            return v(*args, **kws)
        return f

    def __getitem__(self, k):
        self._h()
        return self._c[k]

    def __setitem__(self, k, v):
        self._h()
        self._c[k] = v

    def __delitem__(self, k):
        self._h()
        del self._c[k]

    def __contains__(self, k):
        self._h()
        return k in self._c

    def __len__(self):
        self._h()
        return len(self._c)

    def __iter__(self):
        self._h()
        return iter(self._c)


class PointSet(object):

    def __init__(self, es, hook):
        self._es = es
        self._hook = hook

    def __getattr__(self, name):
        return getattr(self._es, name)

    def open(self):
        return Points(self._es.open(), self._hook)


class Store(object):

    def __init__(self, mem=False):
        self.cdef = container_def()
        self.dir = self.db = None
        if mem:
            self.container = memds.InMemoryEntityContainer(self.cdef)
        else:
            self.dir = tempfile.mkdtemp(prefix="c09")
            path = os.path.join(self.dir, "locks.db")
            self.container = sqlds.SQLiteEntityContainer(
                container=self.cdef, file_path=path)
            self.container.create_all_tables()
            self.db = sqlite3.connect(path, check_same_thread=False)
        self.es = self.cdef["Locks"]

    def row(self):
        """(owner, created in seconds since the epoch) or None"""
        if self.db is not None:
            r = self.db.execute(
                'SELECT owner, created FROM "Locks" WHERE hash = ?',
                (KEY,)).fetchone()
            if r is None:
                return None
            t = r[1].replace(" ", "T")
            t = datetime.datetime.fromisoformat(t)
            return r[0], (t - EPOCH).total_seconds()
        with self.es.open() as c:
            if KEY not in c:
                return None
            e = c[KEY]
            return (e["owner"].value, e["created"].value.with_zone(
                zdirection=0).get_unixtime())

    def clean(self):
        with self.es.open() as c:
            for k in list(c):
                del c[k]

    def close(self):
        if self.db is not None:
            self.db.close()
        if self.dir:
            self.container.close()
        if self.dir:
            shutil.rmtree(self.dir)


def contend(store, T, scripts, rng, schedule=None, delay=0.0, shared=True,
            offset=0.0):
    """scripts: per thread a list of (op, argument)"""
    store.clean()
    names = ["abcdef"[i] for i in range(len(scripts))]
    s = sched.Scheduler(rng, start=1000000000.0 + offset, max_steps=20000)
    t0 = 1000000000.0
    hits = dict.fromkeys(names, 0)
    plan = None if schedule is None else list(schedule)

    def hook():
        me = sched._me()
        if me is None:
            return
        if plan is not None and not plan:
            sched.vsleep(.2)        # the schedule is over: let time pass
        elif delay:
            sched.vsleep(rng.choice((0, 0, delay / 2, delay)))
        hits[me.name] += 1
        me.yield_()
    with sched.building(s):
        es = PointSet(store.es, hook)
        ls = blockstore.LockStore(entity_set=es, lock_timeout=T)
        lss = [ls if shared or i == 0 else
               blockstore.LockStore(entity_set=es, lock_timeout=T)
               for i in range(len(scripts))]
    ev = []
    owners = {}
    cur = [None]

    def ms(t):
        # rounded up: a lock is stale just after its last moment
        return int(math.ceil(round((t - t0) * 1e6) / 1e3))

    def sample(name):
        sched._bypass = True
        try:
            r = store.row()
        finally:
            sched._bypass = False
        if r == cur[0]:
            return
        cur[0] = r
        if r is None:
            row = {"o": "", "c": 0}
        else:
            if r[0] not in owners and r[0] not in owners.values():
                owners[r[0]] = name
            row = {"o": owners.get(r[0], "?"), "c": ms(r[1])}
        ev.append({"k": "row", "t": name, "row": row, "now": ms(s.now)})
    # observe the row after every step of a thread
    plain_step = s._step

    def step(t):
        plain_step(t)
        if not t.abort:
            sample(t.name)
    s._step = step

    def body(name, ls, script):
        def f():
            for op, arg in script:
                if op == "sleep":
                    sched.vsleep(arg)
                    continue
                if op == "until":           # the lock is arg short of stale
                    r = cur[0]
                    if r is not None:
                        sched.vsleep(max(0, r[1] + T + arg - s.now))
                    continue
                ev.append({"k": "call", "t": name, "op": op, "now": ms(s.now),
                           "to": (arg or 0) * 1000})
                try:
                    if op == "lock":
                        ls.lock(KEY, timeout=arg)
                        res = "ok"
                    else:
                        ls.unlock(KEY)
                        res = "none"
                except blockstore.LockError:
                    res = "LockError"
                except Exception as e:
                    res = repr(e)
                sample(name)
                ev.append({"k": "ret", "t": name, "res": res,
                           "now": ms(s.now)})
                if op == "lock" and res != "ok":
                    break
        return f
    
    target = [None]

    def choose(run, last):
        while True:
            if target[0] is not None:
                t, h = target[0]
                if t in run and hits[t.name] <= h:
                    return t
                target[0] = None
            if not plan:
                return rng.choice(run)
            p = plan.pop(0)
            if p["n"] == "tick":
                s.now += 0.5
            else:
                for t in run:
                    if t.name == p["t"]:
                        target[0] = (t, hits[t.name])
    s.choose = choose
    # LockStore waits a random number of whole seconds: make it repeatable
    state = random.getstate()
    random.seed(rng.random())
    try:
        for n, l, sc in zip(names, lss, scripts):
            s.spawn(n, body(n, l, sc))
        st = s.run()
    finally:
        random.setstate(state)
    bad = [repr(t.error) for t in s.threads if t.error is not None]
    if st != "done" or bad:
        ev.append({"k": "hang", "t": names[0], "status": st, "error": bad,
                   "now": 0})
    return {"cfg": {"T": T * 1000, "threads": names, "shared": shared,
                    "delay": int(delay * 1000),
                    "store": "sql" if store.db else "mem"}, "ev": ev}


def scripts_for(rng, T, n, stale=True):
    out = []
    for i in range(n):
        sc = []
        if rng.random() < .5:
            sc.append(("sleep", rng.choice((0, .3, 1, 2.2))))
        for j in range(rng.choice((1, 1, 2, 2, 3))):
            sc.append(("lock", rng.choice((1, 3, 4, 6, 10, 30)
                                          if stale else (2, 4, 20, 30))))
            x = rng.random()
            if not stale:
                sc.append(("sleep", rng.choice((0, 0, .5, 3))))
            elif x < .3:
                sc.append(("until", rng.choice(
                    (-1.3, -1.1, -1, -.9, -.6, -.3, -.1, 0, .1, .5, 1.2))))
            elif x < .7:
                sc.append(("sleep", rng.choice((0, 0, .5, 1, T / 2.0, T - 1,
                                                T, T + 1, T + 2))))
            if not (stale and rng.random() < .15):
                sc.append(("unlock", None))
            if rng.random() < .2:
                sc.append(("sleep", rng.choice((0, .5, 1))))
        out.append(sc)
    return out


def batch(arg):
    kind, seed, items = arg
    rng = random.Random(seed)
    out = []
    store = Store(kind == "mem")
    try:
        for it in items:
            if kind == "plan":
                sc = [("lock", 4), ("unlock", None)] * 2
                out.append(contend(store, it[1], [sc] * it[2], rng,
                                   schedule=it[0]))
            elif kind == "mem":
                out.append(contend(
                    store, 600, scripts_for(rng, 600, rng.choice((2, 3, 4)),
                                            stale=False),
                    rng, delay=rng.choice((.1, .3)),
                    shared=rng.random() < .5))
            else:
                T = rng.choice((1, 2, 3, 3, 5))
                out.append(contend(
                    store, T, scripts_for(rng, T, rng.choice((2, 2, 3, 4))),
                    rng, delay=rng.choice((.1, .2, .4)),
                    shared=rng.random() < .5,
                    offset=rng.choice((0, 0, .25, .5, .9))))
    finally:
        store.close()
    return out


def model_cfg(threads, T, mx, rounds, off=None, emit=False):
    c = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANTS " \
        "Threads = {%s} T = %d MaxTime = %d Rounds = %d\n" % (
            ",".join('"%s"' % x for x in threads), T, mx, rounds)
    for f in ("Guarded", "MoreTime", "OwnerCheck"):
        c += "%s = %s\n" % (f, "FALSE" if f == off else "TRUE")
    c += "INVARIANT OneHolder\n"
    if emit:
        c += "INVARIANT ExportInit\nACTION_CONSTRAINT Export\n"
    else:
        c += "PROPERTY Rules\n"
    return c


def run(ctx):
    rng = ctx.rng
    ctx.model("LockStoreMC", model_cfg("abc", 2000, ctx.pick(4500, 7000), 2),
              name="LockStoreMC three contenders")
    for off in ("Guarded", "MoreTime", "OwnerCheck"):
        text, _, _ = ctx.tlc("LockStoreMC", model_cfg(
            "abc", 1000, 3500, 2, off), ok_codes=(0, 12, 13))
        if "violated" not in text:
            raise vlib.MachineryError("the model does not need " + off)
    tr = ctx.model("LockStoreMC", model_cfg(
        "ab", 1000, ctx.pick(2500, 4000), 2, emit=True), emit=True,
        name="LockStoreMC replay")
    ts = vlib.tours(tr, lambda x: json.dumps(x, sort_keys=True), rng,
                    max_len=60)
    n = len(ts)
    rng.shuffle(ts)
    ts = ts[:ctx.pick(1200, 30000)]
    ctx.extra["replayed_transitions"] = len(tr)
    ctx.extra["schedules"] = "%d of %d" % (len(ts), n)
    jobs = [("plan", rng.random(), [(ops, 1, 2) for _, ops in ts[i::16]])
            for i in range(16)]
    k = ctx.pick(2000, 40000)
    jobs += [("sql", rng.random(), [None] * (k // 16)) for i in range(16)]
    jobs += [("mem", rng.random(), [None] * (k // 64)) for i in range(8)]
    traces = [t for b in vlib.pmap(batch, jobs, chunk=1) for t in b]
    ctx.validate("LockStoreTrace", traces, CFG, label="LockStoreTrace")
    ctx.assumptions.append(
        "less than one second between unlock reading and deleting the lock; "
        "contenders' clocks agree; table operations are atomic; stale locks "
        "over SQLite only (the in-memory store has no concurrency control)")
