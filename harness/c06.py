"""C06: the connection pool of SQLEntityContainer against spec/Pool.tla

Users are threads of the deterministic scheduler, with thread identifiers of
our own (so that they can be reused); the database driver is a stand-in that
records when connections are opened and closed."""
import functools
import json
import logging
import os
import random
import sqlite3
import threading

import sched
sched.install()

_real_current = threading.current_thread
_real_ident = threading.get_ident


def _current():
    me = sched._me()
    return getattr(me, "fake", None) or _real_current()


def _ident():
    me = sched._me()
    f = getattr(me, "fake", None)
    return f.ident if f else _real_ident()


threading.get_ident = _ident
threading.current_thread = _current

import odm                                               # noqa
from pyslet.odata2 import core, csdl as edm, sqlds                          # noqa
import vlib                                              # noqa

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- PInit\nCONSTANT TStep <- PStep\n" \
      "CONSTANT TWhy <- PWhy\n"


class FakeThread(object):
    """What the code under test takes for the current thread"""

    def __init__(self, name, ident):
        self.name = name
        self.ident = ident
        self.daemon = False
        self.alive = True

    def is_alive(self):
        return self.alive

    def __repr__(self):
        return "<%s %i>" % (self.name, self.ident)


class DBError(Exception):
    pass


class FakeDB(object):
    """As much of the DB API as the pool needs"""
    paramstyle = "qmark"
    Error = DBError

    def __init__(self, threadsafety):
        self.threadsafety = threadsafety


class Conn(object):

    def __init__(self, name):
        self.name = name


class Env(object):

    def __init__(self, max_conn, ts, names):
        self.ev = []
        self.names = names
        self.max, self.ts = max_conn, ts
        self.nconn = 0
        self.fake = {}
        self.held = {n: [] for n in names}     # thread: items
        self.state = {n: "" for n in names}    # idle, busy, dead
        self.open_hook = lambda t: True
        self.close_hook = lambda t: None
        self.final = False

    def build(self, s, cls=None, **kws):
        self.s = s
        env = self

        class Pool(cls or sqlds.SQLEntityContainer):

            def open(self):
                t = env.me()
                env.nconn += 1
                c = "c%i" % env.nconn
                env.log("open", t, c)
                if not env.open_hook(t):
                    env.log("openfail", t, c)
                    raise DBError("no connection")
                if cls:
                    dbc = super(Pool, self).open()
                    env.real[id(dbc)] = c
                else:
                    dbc = Conn(c)
                env.log("opened", t, c)
                return dbc

            def close_connection(self, dbc):
                t = env.me()
                env.log("close", t, env.cname(dbc))
                env.close_hook(t)
                if cls:
                    super(Pool, self).close_connection(dbc)
                env.log("closed", t, env.cname(dbc))

            if cls:
                def acquire_connection(self, timeout=None):
                    return env.acquire(
                        super(Pool, self).acquire_connection, timeout)

                def release_connection(self, item):
                    return env.release(
                        super(Pool, self).release_connection, item)

        self.real = {}
        self.pool_class = Pool
        if cls is None:
            self.pool = Pool(container=FakeContainer(), dbapi=FakeDB(self.ts),
                             max_connections=self.max, **kws)

    def cname(self, dbc):
        if isinstance(dbc, Conn):
            return dbc.name
        return self.real.get(id(dbc), "c0")

    def me(self):
        m = sched._me()
        return m.name if m is not None else self.main

    def now(self):
        return int(round((self.s.now - 1e9) * 1000))

    def log(self, k, t, c="", to=-1):
        self.ev.append({"k": k, "t": t, "c": c, "now": self.now(), "to": to})

    def tick(self):
        self.log("tick", self.names[0])

    # what a thread may do
    def acquire(self, fn, timeout):
        t = self.me()
        self.log("acq", t, to=-1 if timeout is None else int(timeout * 1000))
        try:
            item = fn(timeout)
        except DBError:
            self.log("raise", t)
            return None
        if item is None:
            self.log("none", t)
        else:
            self.log("got", t, self.cname(item.dbc))
            self.held[t].append(item)
        return item

    def release(self, fn, item, owner=None):
        t = self.me()
        self.held[owner or t].remove(item)
        # a connection that was closed under its user has been lost
        self.log("rel", t, self.cname(item.dbc))
        fn(item)

    def clean(self, idle):
        t = self.me()
        self.log("clean", t, to=int(idle * 1000))
        self.pool.pool_cleaner(idle)
        self.log("cleaned", t)

    def shut(self, timeout):
        t = self.me()
        self.log("shut", t, to=int(timeout * 1000))
        self.pool.close(timeout)
        self.log("shutdone", t)

    def spawn(self, name, ident, fn):
        fake = FakeThread(name, ident)
        self.fake[name] = fake

        def main():
            sched._me().fake = fake
            fn()

        self.s.spawn(name, main)

    def die(self):
        t = self.me()
        self.log("die", t)
        self.fake[t].alive = False

    def trace(self):
        return {"cfg": {"max": self.max, "ts": self.ts,
                        "threads": self.names}, "ev": self.ev}


class FakeContainer(object):
    """An entity container with nothing in it"""

    def __init__(self):
        self.EntitySet = []
        self.AssociationSet = []



# --- replay of the paths of the model --------------------------------------

def replay(ops, max_conn, ts, names, rng):
    """Each operation is carried out by its thread, as far as it gets"""
    env = Env(max_conn, ts, names)
    box = {n: [] for n in names}
    gate = {n: None for n in names}
    blocked = {n: False for n in names}
    target = [None]

    def choose(run, last):
        if env.final:
            return rng.choice(run)
        by = {t.name: t for t in run}
        if target[0] in by:
            return by[target[0]]
        return by["driver"]

    s = sched.Scheduler(rng, choose=choose, max_steps=20000)
    with sched.building(s):
        env.build(s)

    def hook(t):
        if env.final:
            return True
        gate[t] = "wait"
        sched._me().block(lambda: gate[t] != "wait", None)
        r, gate[t] = gate[t], None
        return r != "fail"

    env.open_hook = hook

    def user(t):
        me = sched._me()
        while True:
            blocked[t] = True
            me.block(lambda: bool(box[t]), None)
            blocked[t] = False
            op = box[t].pop(0)
            if op == "acq":
                env.acquire(env.pool.acquire_connection, rng.choice(
                    (None, 1000.0)))
            elif op == "rel":
                if env.held[t]:
                    env.release(env.pool.release_connection, env.held[t][-1])
            elif op == "clean":
                env.clean(9)
            elif op == "shut":
                env.shut(5)
            elif op == "die":
                env.die()
                return
            else:
                return

    def driver():
        me = sched._me()
        for op in ops:
            n, t = op["n"], op["t"]
            if n in ("opened", "openfail"):
                if gate[t] != "wait":
                    continue
                gate[t] = "fail" if n == "openfail" else "ok"
            elif n != "resume":
                if not blocked[t] or not env.fake[t].alive or box[t]:
                    continue
                box[t].append(n)
            target[0] = t
            me.yield_()
            target[0] = None
        env.final = True
        for t in names:
            if gate[t] == "wait":
                gate[t] = "ok"
        me.block(None, s.now + .001)
        env.tick()
        for t in names:
            if env.fake[t].alive:
                box[t].extend(["rel"] * len(env.held[t]))
        me.block(None, s.now + .001)
        alive = [t for t in names if env.fake[t].alive]
        if alive:
            box[rng.choice(alive)].append("clean")
            me.block(None, s.now + .001)
            for t in alive:
                box[t].extend(["rel"] * len(env.held[t]))
            me.block(None, s.now + .001)
            if all(blocked[t] and not box[t] for t in alive):
                stats(env, env.names[0])
        for t in names:
            box[t].append("end")

    s.on_deadlock = s.on_stuck = env.tick
    for i, t in enumerate(names):
        env.spawn(t, 100 + i, lambda t=t: user(t))
    s.spawn("driver", driver)
    st = s.run()
    errors(s, env)
    if st == "steps":
        env.log("livelock", names[0])
    return env.trace()


def stats(env, t):
    a, b, c = env.pool.connection_stats()
    env.ev.append({"k": "stats", "t": t, "c": "", "now": env.now(), "to": -1,
                   "held": a, "free": b + c})


def errors(s, env):
    for t in s.threads:
        if t.error is not None:
            env.ev.append({"k": "error " + repr(t.error)[:300],
                           "t": env.names[0], "c": "", "now": env.now(),
                           "to": -1})


# --- random schedules ------------------------------------------------------

def random_run(rng):
    n = rng.randint(2, 5)
    ts = rng.choice((0, 1, 1, 2, 2))
    max_conn = 1 if ts == 0 else rng.randint(1, 3)
    names = ["t%i" % i for i in range(n)]
    env = Env(max_conn, ts, names)
    s = sched.Scheduler(
        rng, max_steps=30000,
        choose=sched.bursts(rng, rng.choice((0, 0, 1, 4, 20))),
        trace_files=("odata2/sqlds.py",) if rng.random() < .5 else (),
        line_p=rng.choice((.02, .2, .6)))
    with sched.building(s):
        env.build(s)
    p_fail = rng.choice((0, 0, .1, .4))
    deaths = rng.choice((0, 0, .05, .2)) if ts else 0
    strange = rng.choice((0, 0, .4)) if ts else 0
    closer = rng.random() < .5
    reuse = rng.random() < .5
    done = []

    def hook(t):
        if rng.random() < .3:
            sched.vsleep(rng.choice((.01, .4, 3)))
        else:
            sched.preempt()
        return rng.random() >= p_fail

    env.open_hook = hook
    env.close_hook = lambda t: sched.preempt()

    def user():
        t = env.me()
        for i in range(rng.randint(1, 6)):
            x = rng.random()
            if x < .15:
                sched.vsleep(rng.choice((.001, .1, 2, 20)))
            elif x < .25:
                env.clean(rng.choice((0, 1, 10)))
            for j in range(rng.choice((1, 1, 2, 3))):
                env.acquire(env.pool.acquire_connection,
                            rng.choice((None, None, .5, 3, 3)))
            if env.held[t]:
                sched.preempt()
                if rng.random() < .4:
                    sched.vsleep(rng.choice((.001, .2, 4, 8)))
                if rng.random() < deaths:
                    break
            while env.held[t]:
                env.release(env.pool.release_connection, env.held[t][-1])
            if rng.random() < strange:
                # another thread's connection, released on its behalf
                other = [u for u in names
                         if len(env.held[u]) == 1 and u != t and
                         env.fake[u].alive]
                if other:
                    env.release(env.pool.release_connection,
                                env.held[other[0]][0], other[0])
        done.append(t)
        env.die()

    def late():
        """The last thread: cleans up and closes"""
        t = env.me()
        if closer:
            sched.vsleep(rng.choice((.1, 1, 5, 20)))
        else:
            while len(done) < len(names) - 1 and s.now < 1e9 + 300:
                sched.vsleep(1)
                if rng.random() < .2:
                    env.clean(rng.choice((0, 1, 10)))
            env.clean(5)
            if len(done) == len(names) - 1:
                stats(env, t)
        env.shut(rng.choice((.5, 5)))

    s.on_deadlock = s.on_stuck = env.tick
    idents = list(range(100, 100 + n))
    first = [names[i] for i in range(n - 1)
             if i == 0 or not reuse or rng.random() < .5]

    def starter():
        # threads whose identifiers are taken over from terminated ones
        for u in names[:-1]:
            if u in first:
                continue
            while not done and s.now < 1e9 + 100:
                sched.vsleep(.05)
            gone = [d for d in done if env.fake[d].ident not in
                    [f.ident for f in env.fake.values() if f.alive]]
            env.spawn(u, env.fake[gone[0]].ident if gone else idents.pop(),
                      user)

    for u in first:
        env.spawn(u, idents.pop(0), user)
    env.spawn(names[-1], 999, late)
    if len(first) < n - 1:
        s.spawn("starter", starter)
    st = s.run()
    errors(s, env)
    if st == "steps":
        env.log("livelock", names[0])
    return env.trace()


def random_job(seed):
    return random_run(random.Random(seed))


def replay_job(args):
    ops, m, ts, names, seed = args
    return replay(ops, m, ts, names, random.Random(seed))


# --- collections -----------------------------------------------------------

class Boom(Exception):
    pass


_be = {}


def coll_run(rng):
    """Entity collections opened, used and closed, also by exceptions, over
    a real database"""
    if "be" not in _be:
        m = odm.Model(
            {"E": {"key": [("K", "Edm.Int32")],
                   "props": [("A", "Edm.Int32", '')]},
             "R": {"key": [("K", "Edm.Int32")],
                   "props": [("A", "Edm.Int32", '')]}},
            {"RE": ("R", "?", "Es", "E", "*", "R"),
             "RM": ("R", "*", "Ms", "E", "*", "Rs"),
             "R1": ("R", "1", "X", "E", "?", "Y")},
            {("E", "A"): odm.Table(range(3)), ("R", "A"):
             odm.Table(range(3))},
            {"E": {i: i for i in range(20)}, "R": {i: i for i in range(20)}})
        _be["be"] = odm.SQLBackend(m)
        _be["be"].open()
        _be["be"].close()
        _be["pid"] = os.getpid()
    be = _be["be"]
    n = rng.randint(1, 3)
    names = ["t%i" % i for i in range(n)]
    max_conn = rng.choice((1, 1, 2, 5))
    env = Env(max_conn, 1 if sqlite3.threadsafety < 2 else 2, names)
    env.ts = sqlite3.threadsafety
    env.main = "t0"
    s = sched.Scheduler(rng, max_steps=30000,
                        choose=sched.bursts(rng, rng.choice((0, 1, 10))))
    s.on_deadlock = s.on_stuck = env.tick
    with sched.building(s):
        env.build(s, sqlds.SQLiteEntityContainer)
        be.cls = functools.partial(env.pool_class, max_connections=max_conn)
        d = be.open()
    env.pool = be.db
    fail = [0]

    def write(e=None):
        k = rng.randint(0, 19)
        what = rng.random()
        with d.es["R"].open() as c:
            if what < .5:
                e = c.new_entity()
                e.set_key(k)
                e["A"].set_from_value(1)
                c.insert_entity(e)
            elif what < .7:
                del c[k]
            else:
                with c[k]["Es"].open() as ec:
                    e = ec.new_entity()
                    e.set_key(rng.randint(0, 19))
                    e["Y"].bind_entity(rng.randint(0, 19))
                    if rng.random() < .5:
                        e["Rs"].bind_entity(rng.randint(0, 19))
                    ec.insert_entity(e)

    def visit(depth, writer):
        name = rng.choice("ER")
        with d.es[name].open() as c:
            look(name, c, depth, writer)

    def look(name, c, depth, writer):
        kept = []
        for i in range(rng.randint(1, 3)):
            x = rng.random()
            sched.preempt()
            if x < .15:
                it = iter(c.values())
                kept.append((it, next(it, None)))
            elif x < .25:
                try:
                    c[rng.randint(0, 19)]
                except KeyError:
                    if rng.random() < .5:
                        raise
            elif x < .3:
                raise Boom
            elif x < .4 and depth < 3:
                visit(depth + 1, writer)
            elif x < .5:
                len(c), list(c.iterpage())
            elif x < .7 and writer:
                write()
            else:
                es = list(c.values())
                if not es:
                    continue
                e = rng.choice(es)
                nav = rng.choice(("R", "Rs", "Y") if name == "E" else
                                 ("Es", "Ms", "X"))
                if nav in ("R", "Y", "X") and rng.random() < .5:
                    e[nav].get_entity()
                else:
                    with e[nav].open() as nc:
                        look("R" if name == "E" else "E", nc, depth + 1,
                             writer)

    def user(writer):
        for i in range(rng.randint(1, 6)):
            try:
                visit(0, writer)
            except (Boom, KeyError, edm.EDMError, core.ODataError,
                    sqlds.SQLError):
                pass

    try:
        for t in names:
            env.spawn(t, 100 + names.index(t), lambda: user(n == 1))
        st = s.run()
        errors(s, env)
        env.log("allfree" if st == "done" else st, "t0")
        stats(env, "t0")
        env.log("shut", "t0", to=5000)
        be.db.close()
        env.log("shutdone", "t0")
    finally:
        os.unlink(be.path)
    return env.trace()


def coll_job(seeds):
    try:
        return [coll_run(random.Random(x)) for x in seeds]
    finally:
        if _be.get("pid") == os.getpid():
            _be["be"].dispose()
            _be.clear()


MC = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Threads = {%s} Max = %d TS = %d MaxConn = %d
NotifyDead = %s CountDead = %s UndoOpen = %s WakeShut = %s
INVARIANTS Allowed NobodyWaitsForNothing OnePlace ExportInit
"""


def mc(threads, mx, ts, n, flags="TTTT"):
    return MC % ((", ".join('"t%i"' % i for i in range(threads)), mx, ts, n)
                 + tuple("TRUE" if f == "T" else "FALSE" for f in flags))


def run(ctx):
    rng = ctx.rng
    # each part of the design is needed
    for flags in ("FTTT", "TFTT", "TTFT", "TTTF"):
        r = ctx.tlc("PoolMC", mc(3 if flags[3] == "T" else 2, 1, 2, 2, flags),
                    ok_codes=(0, 11, 12, 13))[0]
        if "violated" not in r:
            raise vlib.MachineryError("PoolMC %s: nothing violated\n%s" % (flags, r[-1500:]))
    jobs = []
    for mx, ts, th, n in ((1, 2, 3, 2), (1, 1, 2, 3), (2, 2, 3, 2)) + (
            ((2, 1, 3, 4), (1, 1, 3, 4)) if ctx.thorough else ()):
        tr = ctx.model("PoolMC", mc(th, mx, ts, n), emit=True,
                       name="PoolMC %d/%d/%d" % (mx, ts, th))
        ts_ = vlib.tours(tr, lambda x: json.dumps(x, sort_keys=True), rng,
                         max_len=40)
        rng.shuffle(ts_)
        names = ["t%i" % i for i in range(th)]
        for init, ops in ts_[:ctx.pick(600, 20000)]:
            jobs.append(([dict(o) for o in ops], mx, ts, names,
                         rng.random()))
    traces = vlib.pmap(replay_job, jobs, chunk=20)
    ctx.extra["replayed_traces"] = len(traces)
    ctx.validate("PoolTrace", traces, CFG, label="PoolMC replay")
    traces = vlib.pmap(random_job, [rng.random() for i in range(
        ctx.pick(1600, 60000))], chunk=20)
    ctx.validate("PoolTrace", traces, CFG, label="schedules")
    traces = sum(vlib.pmap(coll_job, [
        [rng.random() for j in range(25)]
        for i in range(ctx.pick(16, 200))], chunk=1), [])
    ctx.validate("PoolTrace", traces, CFG, label="collections")
