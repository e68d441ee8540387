"""C05: failing SQL statements against spec/ODataStore.tla"""
import json
import os
import sqlite3
import traceback

import odm
import odmodels
from c02 import CFG, Gen
from pyslet.odata2 import sqlds


class Faults(object):
    """Decides which statement fails"""

    def __init__(self):
        self.mode, self.at, self.count, self.hit = None, 0, 0, False

    def arm(self, mode, at):
        self.mode, self.at, self.count, self.hit = mode, at, 0, False

    def disarm(self):
        self.mode = None

    def tick(self, conn):
        """A statement or a commit is about to run on conn"""
        if self.mode is None:
            return
        self.count += 1
        if self.count == self.at or (
                self.mode == "persist" and self.count > self.at):
            self.hit = True
            if self.mode == "dead":
                conn.kill()
            if self.mode == "error":
                raise sqlite3.DatabaseError("injected")
            raise sqlite3.OperationalError("injected")


class Conn(object):
    """A DB API connection that fails as told"""

    def __init__(self, real, faults):
        self.real, self.faults, self.dead = real, faults, False

    def kill(self):
        self.dead = True
        self.real.rollback()
        self.real.close()

    def alive(self):
        if self.dead:
            raise sqlite3.OperationalError("server has gone away")

    def cursor(self):
        self.alive()
        return Cursor(self, self.real.cursor())

    def commit(self):
        self.alive()
        self.faults.tick(self)
        self.real.commit()

    def rollback(self):
        self.alive()
        self.real.rollback()

    def interrupt(self):
        if not self.dead:
            self.real.interrupt()

    def close(self):
        if not self.dead:
            self.real.close()


class Cursor(object):

    def __init__(self, conn, real):
        self.conn, self.real = conn, real

    def execute(self, *args):
        self.conn.alive()
        self.conn.faults.tick(self.conn)
        return self.real.execute(*args)

    def close(self):
        if not self.conn.dead:
            self.real.close()

    def __getattr__(self, name):
        return getattr(self.real, name)


FAULTS = Faults()


class Container(sqlds.SQLiteEntityContainer):

    def open(self):
        return Conn(super(Container, self).open(), FAULTS)


class Backend(odm.SQLBackend):
    cls = Container

    def __init__(self, model):
        odm.SQLBackend.__init__(self, model)
        self.doc2 = odm.load_doc(model.text)

    def second(self):
        """An independent view of the same database"""
        cdef = self.doc2.root.DataServices["M.C"]
        return (sqlds.SQLiteEntityContainer(self.path, container=cdef),
                odm.Driver(self.model, cdef))

    def save(self):
        with open(self.path, "rb") as f:
            return f.read()

    def restore(self, data):
        with open(self.path, "r+b") as f:
            f.write(data)
            f.truncate()

    def unlocked(self):
        c = sqlite3.connect(self.path, timeout=0)
        try:
            c.execute("BEGIN EXCLUSIVE")
            c.rollback()
            return True
        except sqlite3.OperationalError:
            return False
        finally:
            c.close()


def an_op(gen, rng):
    """Mostly operations of several statements"""
    many = rng.random() < 0.7
    while True:
        op = gen.op()
        if not many or op["n"] in ("replace", "navinsert", "delete") or (
                op.get("binds") and (op["n"] == "insert" or
                                     rng.random() < 0.7)):
            return op


def one_trace(be, gen, rng, nops, extra=()):
    FAULTS.disarm()
    d = be.open()
    db2, d2 = be.second()
    ev = []
    faults = 0
    try:
        for op in gen.populate() + [
                an_op(gen, rng) for i in range(nops)]:
            op = json.loads(json.dumps(op))
            if len(ev) > 6 and rng.random() < 0.7:
                # the operation with each of its statements failing in
                # turn, until it gets through; the database is put back
                # if it succeeds in spite of the failure
                mode = rng.choice(["once", "once", "persist", "dead",
                                   "dead", "error"])
                before = be.save()
                for at in range(1, 40):
                    FAULTS.arm(mode, at)
                    fop = json.loads(json.dumps(op))
                    res = d.do(fop)
                    hit = FAULTS.hit
                    FAULTS.disarm()
                    if not hit:
                        ev.append({"k": "call", "op": fop, "res": res})
                        break
                    faults += 1
                    ev.append({"k": "fault", "mode": mode, "at": at,
                               "op": fop, "res": res,
                               "free": 1 if be.unlocked() else 0,
                               "dump": d2.dump()})
                    if res["r"] != "err":
                        be.restore(before)
            else:
                res = d.do(op)
                ev.append({"k": "call", "op": op, "res": res})
            ev.append(d2.dump())
        ev.append(d.dump())
    except Exception:
        ev.append({"k": "broken", "x": traceback.format_exc()[-600:]})
    finally:
        FAULTS.disarm()
        d.release()
        d2.release()
        db2.close()
        be.close()
    return {"cfg": {"sch": be.model.cfg, "be": "sql"}, "ev": ev}, faults


MODEL = """SPECIFICATION Spec
INVARIANT Atomic Clean
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = %d
MaxFaults = %d
Guard = TRUE
RetryGuard = FALSE
"""


def run(ctx):
    ctx.model("SQLTxn", MODEL % (ctx.pick(8, 9), ctx.pick(2, 3)))
    model = odmodels.nav_model()
    be = Backend(model)
    traces, total = [], 0
    for i in range(ctx.pick(200, 2500)):
        g = Gen(model, ctx.rng, 2, ctx.rng.sample(
            sorted(model.assocs), ctx.rng.choice([1, 2, 3])))
        t, n = one_trace(be, g, ctx.rng, 12)
        traces.append(t)
        total += n
    be.dispose()
    ctx.validate("ODataTrace", traces, CFG, label="ODataTrace faults")
    ctx.extra["faults_injected"] = total
