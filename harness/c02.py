"""C02: associations against spec/ODataStore.tla"""
import json
import traceback

import odm
import odmodels
import vlib

CFG = "CONSTANT TInit <- OInit\nCONSTANT TStep <- OStep\n" \
      "CONSTANT TWhy <- OWhy\n"

KINDS = {"mn": ("*", "*", "Bs", "As"), "m?": ("*", "?", "B", "As"),
         "m1": ("*", "1", "B", "As"), "?1": ("?", "1", "B", "A"),
         "11": ("1", "1", "B", "A"), "mn1": ("*", "*", "Bs", ""),
         "m?1": ("*", "?", "B", ""), "1m": ("1", "*", "Bs", "A"),
         "?m": ("?", "*", "Bs", "A"), "1?": ("1", "?", "B", "A")}


def mccfg(kind, nkeys):
    ma, mb, na, nb = KINDS[kind]
    return ('INIT Init\nNEXT Next\nVIEW View0\nINVARIANT LinksOk MultOk\n'
            'CHECK_DEADLOCK FALSE\nCONSTANT Ma = "%s"\nMb = "%s"\n'
            'NavA = "%s"\nNavB = "%s"\nNKeys = %d\nEmit = TRUE\n' % (
                ma, mb, na, nb, nkeys)).replace("VIEW View0\n", "")


def run_ops(backend, ops, dump_every=1, cfg=None):
    """One trace: the operations with their results, and dumps"""
    d = backend.open()
    ev = []
    try:
        for i, op in enumerate(ops):
            op = json.loads(json.dumps(op))
            res = d.do(op)
            ev.append({"k": "call", "op": op, "res": res})
            if i % dump_every == dump_every - 1:
                ev.append(d.dump())
        ev.append(d.dump())
    except Exception:
        # (operations record their errors)
        ev.append({"k": "broken", "x": traceback.format_exc()[-600:]})
    finally:
        d.release()
        backend.close()
    return {"cfg": {"sch": cfg or backend.model.cfg, "be": backend.name},
            "ev": ev}


class Gen(object):
    """Random operations on the sets of a model"""

    def __init__(self, model, rng, nkeys=3, focus=None):
        """focus: most operations are on these associations"""
        self.m, self.rng, self.nkeys = model, rng, nkeys
        self.focus = focus or sorted(model.assocs)
        near = set()
        for x in self.focus:
            near.update((model.assocs[x][0], model.assocs[x][3]))
        self.near = sorted(near)
        self.required = {}
        for s in model.sets:
            self.required[s] = [
                n for n, d in model.navs[s].items()
                if self.to_mult(d) == "1"]

    def to_mult(self, d):
        x = self.m.assocs[d["as"]]
        return x[1] if d["rev"] else x[4]

    def key(self, s):
        return self.rng.randint(1, self.nkeys)

    def vals(self, s):
        out = {"_": 0}
        for p in self.m.paths(s):
            if self.rng.random() < 0.7:
                out[p] = self.rng.randint(
                    0, len(self.m.tables[(s, p)].values))
        return out

    def ent(self, s, depth=0, skip=None):
        r = self.rng
        e = {"key": self.key(s), "vals": self.vals(s), "sel": [],
             "binds": []}
        for n, d in sorted(self.m.navs[s].items()):
            if skip == (d["as"], d["rev"]):
                continue
            if n in self.required[s]:
                if r.random() < 0.04:
                    continue
                e["binds"].append(self.a_bind(s, n, d, depth))
            elif r.random() < (0.06 if depth else 0.2
                               if d["as"] in self.focus else 0.05):
                e["binds"].append(self.a_bind(s, n, d, depth))
                if self.to_mult(d) == "*" and r.random() < 0.4:
                    e["binds"].append(self.a_bind(s, n, d, depth))
        return e

    def a_bind(self, s, n, d, depth):
        if depth < 2 and self.rng.random() < 0.35:
            b = self.ent(d["to"], depth + 1, (d["as"], not d["rev"]))
            b.update({"nav": n, "k": "new"})
            return b
        return {"nav": n, "k": "key", "key": self.key(d["to"])}

    def populate(self):
        """Inserts most entities of the sets in focus, after what they
        need"""
        ops, seen = [], set()

        def fill(s):
            if s in seen:
                return
            seen.add(s)
            for n in self.required[s]:
                fill(self.m.navs[s][n]["to"])
            for k in range(1, self.nkeys + 1):
                e = {"key": k, "vals": self.vals(s), "sel": [], "binds": []}
                for n, d in sorted(self.m.navs[s].items()):
                    if n in self.required[s]:
                        b = {"nav": n, "k": "key", "key": self.key(d["to"])}
                        if self.from_mult(d) == "1":
                            b = {"key": k, "vals": self.vals(d["to"]),
                                 "sel": [], "binds": [], "nav": n,
                                 "k": "new"}
                        elif self.from_mult(d) == "?":
                            b["key"] = k
                        e["binds"].append(b)
                    elif d["as"] in self.focus and d["to"] in seen and \
                            d["to"] != s and self.rng.random() < 0.5:
                        e["binds"].append({"nav": n, "k": "key",
                                           "key": self.key(d["to"])})
                e.update({"n": "insert", "set": s})
                if self.rng.random() < 0.9:
                    ops.append(e)
        for s in self.rng.sample(self.near, len(self.near)):
            fill(s)
        return ops

    def from_mult(self, d):
        x = self.m.assocs[d["as"]]
        return x[4] if d["rev"] else x[1]

    def circular(self, s, e, above):
        """Does e, being inserted, refer to an entity that is itself only
        being inserted?"""
        if (s, e["key"]) in above:
            return True
        above = above + [(s, e["key"])]
        for b in e["binds"]:
            to = self.m.navs[s][b["nav"]]["to"]
            if b["k"] == "key":
                if (to, b["key"]) in above:
                    return True
            elif self.circular(to, b, above):
                return True
        return False

    def op(self):
        while True:
            op = self._op()
            if op["n"] in ("insert", "update") and self.circular(
                    op["set"], op, []):
                continue
            if op["n"] == "navinsert" and self.circular(
                    self.m.navs[op["set"]][op["nav"]]["to"], op["ent"], []):
                continue
            return op

    def _op(self):
        r = self.rng
        near = r.random() < 0.9
        s = r.choice(self.near if near else sorted(self.m.sets))
        x = r.random()
        navs = [n for n in sorted(self.m.navs[s])
                if not near or self.m.navs[s][n]["as"] in self.focus]
        if x < 0.3 or not navs:
            op = self.ent(s)
            op.update({"n": "insert", "set": s})
            return op
        if x < 0.37:
            return {"n": "delete", "set": s, "key": self.key(s),
                    "via": r.randint(0, 1)}
        if x < 0.45:
            op = {"n": "update", "set": s, "key": self.key(s),
                  "merge": True, "vals": self.vals(s), "sel": [],
                  "binds": [], "via": r.randint(0, 1)}
            n = r.choice(navs)
            op["binds"].append(self.a_bind(s, n, self.m.navs[s][n], 1))
            return op
        n = r.choice(navs)
        d = self.m.navs[s][n]
        op = {"set": s, "key": self.key(s), "nav": n}
        y = r.choice(["link"] * 4 + ["replace"] * 3 + ["unlink"] * 2 + [
            "clear", "navinsert", "navinsert", "navkeys", "navget",
            "navhas", "navread"])
        if y == "navget" and self.to_mult(d) == "*":
            y = "navkeys"
        op["n"] = y
        if y in ("link", "replace", "unlink", "navhas", "navread"):
            op["t"] = self.key(d["to"])
        if y == "navinsert":
            op["ent"] = self.ent(d["to"], 1, (d["as"], not d["rev"]))
        return op


def run(ctx):
    # 1. every state of two sets and one association of each kind, with the
    # invariants of the design; every transition replayed in both stores
    traces = []
    total = 0
    for kind, recs in zip(sorted(KINDS), ctx.models_parallel([
            dict(module="ODataMC", cfg=mccfg(kind, 2), emit=True,
                 name="ODataMC " + kind) for kind in sorted(KINDS)])):
        recs.sort(key=lambda x: json.dumps(x, sort_keys=True))
        model = odmodels.pair_model(kind)
        cfg = json.loads(json.dumps(model.cfg))
        ts = vlib.tours(recs, lambda v: json.dumps(v, sort_keys=True),
                        ctx.rng, max_len=ctx.pick(60, 40))
        total += len(ts)
        for be in (odm.MemBackend(model), odm.SQLBackend(model)):
            for _, ops in ts:
                traces.append(run_ops(be, ops, cfg=cfg))
            if be.name == "sql":
                be.dispose()
    ctx.validate("ODataTrace", traces, CFG, label="ODataTrace tours")
    # 2. random histories over nine associations at once
    model = odmodels.nav_model()
    traces = []
    for be, n in ((odm.MemBackend(model), ctx.pick(300, 3000)),
                  (odm.SQLBackend(model), ctx.pick(200, 2000))):
        for i in range(n):
            g = Gen(model, ctx.rng, ctx.rng.choice([2, 3]),
                    ctx.rng.sample(sorted(model.assocs),
                                   ctx.rng.choice([1, 2, 3, 10])))
            ops = g.populate() if i % 3 else []
            traces.append(run_ops(be, ops + [g.op() for j in range(
                ctx.rng.choice([8, 20, 40]))]))
        if be.name == "sql":
            be.dispose()
    ctx.validate("ODataTrace", traces, CFG, label="ODataTrace random")
    ctx.extra["tours"] = total
