"""C01: entity sets against spec/ODataStore.tla"""
import json

import odm
import odmodels
import vlib
from c02 import CFG, run_ops


class Gen(object):

    def __init__(self, model, rng, nkeys):
        self.m, self.rng, self.nkeys = model, rng, nkeys

    def vals(self, s, sel, every=False):
        """Values for some of the selected properties"""
        out = {"_": 0}
        p_ = self.rng.choice([0.2, 0.7, 1.0])
        for p in self.m.paths(s):
            if sel and p.split("/")[0] not in sel:
                continue
            nn = (s, p) in self.m.nonnull
            if (every and nn) or self.rng.random() < p_:
                out[p] = self.rng.randint(
                    1 if nn else 0, len(self.m.tables[(s, p)].values))
        return out

    def sel(self, s, p=0.4):
        if self.rng.random() > p:
            return []
        tops = self.m.tops(s)
        return sorted(self.rng.sample(
            tops, self.rng.randint(1, len(tops))))

    def op(self):
        r = self.rng
        s = r.choice(sorted(self.m.sets))
        n = r.choice(["insert"] * 4 + ["update"] * 4 + [
            "read", "read", "has", "len", "keys", "delete", "delete",
            "assign"])
        op = {"n": n, "set": s, "hold": r.randint(0, 1)}
        k = r.randint(1, self.nkeys)
        if n == "insert":
            op["key"] = 0 if s in self.m.autokey and r.random() < 0.15 \
                else k
            op["sel"] = self.sel(s)
            op["vals"] = self.vals(s, op["sel"], True)
            op["binds"] = []
        elif n == "update":
            op["key"] = k
            op["sel"] = self.sel(s, 0.6)
            op["merge"] = r.random() < 0.6
            op["vals"] = self.vals(s, op["sel"])
            op["binds"] = []
            op["via"] = r.randint(0, 1)
        elif n in ("read", "has", "delete"):
            op["key"] = k
            op["via"] = r.randint(0, 1)
            if n == "read":
                op["sel"] = self.sel(s)
        elif n == "assign":
            op["key"], op["from"] = k, r.randint(1, self.nkeys)
        return op


def token_ops(model, rng, nops):
    """Histories of updates with fresh and stale tokens: the value that an
    update presents is one that was seen at that point or earlier"""
    sets = rng.sample(sorted(model.sets), 2)
    for i in range(nops):
        s = rng.choice(sets)
        n = rng.choice(["insert"] + ["update"] * 4 + ["read", "delete"])
        op = {"n": n, "set": s, "hold": rng.randint(0, 1), "via": 0,
              "sel": [], "key": rng.randint(1, 2)}
        if n == "delete" and rng.random() < 0.5:
            op["n"] = "read"
        if n in ("insert", "update"):
            op["vals"] = {"_": 0, "V": rng.randint(0, 3)}
            op["binds"] = []
        if n == "update":
            op["merge"] = rng.random() < 0.7
            # (a token made from the record is only worth something if
            # every update maintains it)
            if op["merge"] and model.toks[(s, "T")] == "new" and \
                    rng.random() < 0.2:
                op["sel"] = ["V"]
            elif rng.random() < 0.5:
                seen = len(model.tables[(s, "T")].values)
                if seen:
                    op["vals"]["T"] = rng.randint(max(1, seen - 2), seen)
        yield op


def stream_ops(rng, nops):
    for i in range(nops):
        n = rng.choice(["newstream", "newstream", "setstream", "setstream",
                        "getstream", "getstream", "getstream", "delete",
                        "insert", "update", "read"])
        op = {"n": n, "set": "M", "key": rng.randint(1, 3),
              "via": rng.randint(0, 1), "sel": [],
              "vals": {"_": 0}, "binds": []}
        if n == "newstream":
            op["want"] = rng.randint(0, 3)
            op["key"] = 0
        if n in ("newstream", "setstream"):
            op["data"] = rng.randint(1, len(odm.MEDIA))
            op["cut"] = rng.randint(0, 1)
        if n in ("insert", "update"):
            op["vals"]["V"] = rng.randint(0, 3)
            op["merge"] = True
        yield op


def run(ctx):
    # every state of one small set, every choice of properties and values
    model = odmodels.set_model()
    cfg = json.loads(json.dumps(model.cfg))
    traces = []
    for nkeys, nvals in ((1, 2), (2, 0)):
        recs = ctx.model(
            "ODataSetMC", "INIT Init\nNEXT Next\nINVARIANT Complete\n"
            "PROPERTY Local\nCHECK_DEADLOCK FALSE\nCONSTANT NKeys = %d\n"
            "NVals = %d\n" % (nkeys, nvals), emit=True)
        recs.sort(key=lambda x: json.dumps(x, sort_keys=True))
        ts = vlib.tours(recs, lambda v: json.dumps(v, sort_keys=True),
                        ctx.rng, max_len=60)
        for be in (odm.MemBackend(model), odm.SQLBackend(model)):
            for _, ops in ts:
                traces.append(run_ops(be, ops, cfg=cfg))
            if be.name == "sql":
                be.dispose()
    ctx.validate("ODataTrace", traces, CFG, label="ODataTrace tours")
    # every type of property, random histories
    model = odmodels.rich_model()
    traces = []
    for be, n in ((odm.MemBackend(model), ctx.pick(250, 3000)),
                  (odm.SQLBackend(model), ctx.pick(200, 2000)),
                  (odm.SQLBackend(model, memory=True), ctx.pick(50, 500))):
        for i in range(n):
            g = Gen(model, ctx.rng, ctx.rng.choice([1, 2, 3]))
            traces.append(run_ops(be, [g.op() for j in range(
                ctx.rng.choice([10, 30, 60]))],
                dump_every=ctx.rng.choice([1, 3])))
        if be.name == "sql":
            be.dispose()
    ctx.validate("ODataTrace", traces, CFG, label="ODataTrace sets")
    traces = []
    model = odmodels.token_model()
    be = odm.SQLBackend(model)
    for i in range(ctx.pick(150, 1500)):
        traces.append(run_ops(be, token_ops(
            model, ctx.rng, ctx.rng.choice([10, 25])), dump_every=2))
    be.dispose()
    ctx.validate("ODataTrace", traces, CFG, label="ODataTrace tokens")
    traces = []
    model = odmodels.media_model()
    for be, n in ((odm.MemBackend(model), ctx.pick(150, 1500)),
                  (odm.SQLBackend(model, streams=True),
                   ctx.pick(100, 1000))):
        for i in range(n):
            traces.append(run_ops(be, stream_ops(ctx.rng, 20)))
        if be.name == "sql":
            be.dispose()
    ctx.validate("ODataTrace", traces, CFG, label="ODataTrace streams")
