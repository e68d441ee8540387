"""C24: character classes against spec/CharSet.tla"""
import random
import re
import sys
import warnings

from pyslet.unicode5 import CharClass

import vlib

CFG = "CONSTANT TInit <- CInit\nCONSTANT TStep <- CStep\n" \
      "CONSTANT TWhy <- CWhy\n"
TOP = sys.maxunicode


def atoms(start, singles):
    """The atoms: single characters from start, and what is around them"""
    out = []
    if start > 0:
        out.append((0, start - 1))
    out += [(c, c) for c in range(start, start + singles)]
    if start + singles <= TOP:
        out.append((start + singles, TOP))
    return out


def cut(points):
    """Atoms with boundaries at the given code points"""
    points = sorted(set(points) | set([0]))
    return [(a, b - 1) for a, b in zip(points, points[1:] + [TOP + 1])]


def probes(at):
    a, b = at
    return sorted(set([a, b, (a + b) // 2, min(b, a + 1), min(b, a | 0xFF),
                       max(a, b & ~0xFF), max(a, b - 1)]))


_patterns = {}


class Player(object):

    def __init__(self, at, k):
        self.at = at
        self.classes = [CharClass() for i in range(k)]
        self.probes = [[chr(c) for c in probes(x)] for x in at]
        self.last = [None] * k
        # what each regular expression matches
        self.patterns = _patterns.setdefault(tuple(at), {})

    def lo(self, i):
        return chr(self.at[i - 1][0])

    def hi(self, i):
        return chr(self.at[i - 1][1])

    def rng(self, i, j):
        if i <= j:
            return self.lo(i), self.hi(j)
        # given the wrong way round
        return self.hi(i), self.lo(j)

    def bits(self, f):
        v = 0
        for i, ps in enumerate(self.probes):
            r = set(bool(f(c)) for c in ps)
            if len(r) > 1:
                return -1
            if True in r:
                v |= 1 << i
        return v

    def observe(self, i):
        c = self.classes[i]
        fmt = c.format_re()
        return [self.bits(c.test), self.bits(c.test_slow),
                self.pattern(str(c)),
                self.pattern(u"[%s]" % fmt) if fmt else 0]

    def pattern(self, text):
        if text not in self.patterns:
            try:
                p = re.compile(text)
                v = self.bits(lambda x: p.match(x) is not None)
            except re.error:
                v = -2
            self.patterns[text] = v
        return self.patterns[text]

    def do(self, op):
        n = op["n"]
        c = self.classes[op["c"] - 1]
        d = self.classes[op["d"] - 1] if "d" in op else None
        if n == "add":
            c.add_range(*self.rng(op["i"], op["j"]))
        elif n == "sub":
            c.subtract_range(*self.rng(op["i"], op["j"]))
        elif n == "addc":
            c.add_char(self.lo(op["i"]))
        elif n == "subc":
            c.subtract_char(self.lo(op["i"]))
        elif n == "neg":
            c.negate()
        elif n == "addcls":
            c.add_class(d)
        elif n == "subcls":
            c.subtract_class(d)
        elif n == "copy":
            self.classes[op["c"] - 1] = CharClass(d)
        elif n == "new":
            args = [u"".join(self.lo(i) for i in op["chars"])]
            args += [self.rng(i, j) for i, j in op["rngs"]]
            args += [self.classes[i - 1] for i in op["cls"]]
            self.classes[op["c"] - 1] = CharClass(*args)
        # cached answers from before an operation must not survive it
        self.last = [self.observe(i) for i in range(len(self.classes))]
        eq = []
        for i, x in enumerate(self.classes):
            for j in range(i + 1, len(self.classes)):
                y = self.classes[j]
                if x == y:
                    if x != y or not y == x:
                        eq.append([0, 0])
                    eq.append([i + 1, j + 1])
        return {"op": op, "obs": self.last, "eq": eq}


def play(job):
    at, k, ops = job
    warnings.simplefilter("ignore")
    p = Player(at, k)
    ev = []
    for op in ops:
        try:
            ev.append(p.do(op))
        except Exception as e:
            # no operation has a reason to fail
            ev.append({"op": op, "obs": [], "eq": [],
                       "error": "%s: %s" % (type(e).__name__, e)})
            break
    return {"cfg": {"n": len(at), "k": k, "at": [list(a) for a in at]},
            "ev": ev}


def gen(rng, at, k, length):
    n = len(at)
    single = [i + 1 for i in range(n) if at[i][0] == at[i][1]]
    ops = []
    for x in range(length):
        c = rng.randint(1, k)
        kind = rng.choice(["add", "add", "sub", "sub", "addc", "subc", "neg",
                           "addcls", "subcls", "copy", "new"])
        op = {"n": kind, "c": c}
        if kind in ("add", "sub"):
            i = rng.randint(1, n)
            j = rng.randint(1, n) if rng.random() < 0.5 else \
                min(n, max(1, i + rng.randint(-2, 3)))
            op.update(i=i, j=j)
        elif kind in ("addc", "subc"):
            op["i"] = rng.choice(single)
        elif kind in ("addcls", "subcls", "copy"):
            op["d"] = rng.randint(1, k)
        elif kind == "new":
            op.update(chars=[rng.choice(single)
                             for i in range(rng.randint(0, 4))],
                      rngs=[[rng.randint(1, n), rng.randint(1, n)]
                            for i in range(rng.choice([0, 0, 1, 2]))],
                      cls=[rng.randint(1, k)
                           for i in range(rng.choice([0, 0, 1, 2]))])
        ops.append(op)
    return ops


STARTS = [ord("["), ord("]"), ord("+"), ord("-"), ord("^"), ord("\\"), 7, 1,
          ord("("), ord("?"), ord("z"), ord("&"), 0xFE, 0xFD, 0xFFFE,
          0xD7FE, 0xDFFE, TOP - 5, TOP - 4, ord("#"), 0x1FFE]


def run(ctx):
    jobs = []
    # one class, each atom of interest, every operation
    tr = ctx.model("CharSetMC", "CONSTANTS N = 6\nK = 1\nINIT Init\n"
                   "NEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n",
                   emit=True, name="CharSetMC(6 atoms, 1 class)")
    starts = STARTS if ctx.thorough else \
        STARTS[:4] + ctx.rng.sample(STARTS[4:], 4)
    for st in starts:
        for init, ops in vlib.tours(tr, str, ctx.rng, max_len=80):
            jobs.append((atoms(st, 4), 1, ops))
    tr = ctx.model("CharSetMC", "CONSTANTS N = %d\nK = 2\nINIT Init\n"
                   "NEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n" % (
                       ctx.pick(4, 5)),
                   emit=True, name="CharSetMC(2 classes)")
    for st in STARTS[:3] if ctx.thorough else [ctx.rng.choice(STARTS)]:
        for init, ops in vlib.tours(tr, str, ctx.rng, max_len=80):
            jobs.append((atoms(st, ctx.pick(2, 3)), 2, ops))
    # at the ends of the code space
    for at in ([(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, TOP)],
               [(0, TOP - 5)] + [(c, c) for c in range(TOP - 4, TOP + 1)]):
        for init, ops in vlib.tours(tr, str, ctx.rng, max_len=80)[:60]:
            jobs.append((at, 2, ops))
    # random histories of several classes over many atoms
    for x in range(ctx.pick(500, 4000)):
        pts = []
        for st in ctx.rng.sample(STARTS, 3):
            pts += range(st, min(TOP, st + ctx.rng.randint(2, 6)))
        pts += [ctx.rng.randint(0, TOP) for i in range(4)]
        at = cut(pts)[:26]
        at[-1] = (at[-1][0], TOP)
        if not any(a == b for a, b in at):
            continue
        jobs.append((at, 3, gen(ctx.rng, at, 3, 30)))
    traces = vlib.pmap(play, jobs)
    ctx.validate("CharSetTrace", traces, CFG)
    ctx.assumptions += [
        "each interval of code points is observed at up to 7 of its points"]
