"""C27: edits of document trees against spec/XMLTree.tla"""
import itertools
import logging
import warnings

from pyslet.xml import structures as xml

import vlib

CFG = "CONSTANT TInit <- XInit\nCONSTANT TStep <- XStep\n" \
      "CONSTANT TWhy <- XWhy\n"


class Plain(xml.Element):
    XMLNAME = "p"
    ID = "id"


class Empty(xml.Element):
    XMLNAME = "e"
    ID = "id"
    XMLCONTENT = xml.ElementType.EMPTY


class Solo(xml.Element):
    XMLNAME = "s"
    ID = "id"


class Multi(xml.Element):
    XMLNAME = "m"
    ID = "id"


class Box(xml.Element):

    """With a customised content model"""
    XMLNAME = "b"
    ID = "id"
    XMLCONTENT = xml.ElementType.ELEMENT_CONTENT

    def __init__(self, parent, name=None):
        xml.Element.__init__(self, parent)
        self.Solo = None
        self.Multi = []

    def get_children(self):
        if self.Solo is not None:
            yield self.Solo
        for c in itertools.chain(self.Multi,
                                 xml.Element.get_children(self)):
            yield c

    def reset(self, reset_attrs=False):
        if self.Solo is not None:
            self.Solo.detach_from_parent()
            self.Solo = None
        for c in self.Multi:
            c.detach_from_parent()
        self.Multi = []
        xml.Element.reset(self, reset_attrs)


CLASSES = {"P": Plain, "E": Empty, "S": Solo, "M": Multi, "B": Box}
NAMES = {v: k for k, v in CLASSES.items()}
IDS = ["a", "b", "c", "d"]


class Player(object):

    def __init__(self):
        self.elems = []
        self.docs = [xml.Document(), xml.Document()]

    def num(self, e):
        for i, x in enumerate(self.elems):
            if x is e:
                return i + 1
        return 0

    def find_new(self, e):
        """Gives numbers to new elements in document order"""
        if not self.num(e):
            self.elems.append(e)
        for c in e.get_children():
            if isinstance(c, xml.Element):
                self.find_new(c)

    def parent(self, e):
        p = e.parent
        if p is None:
            return 0
        for i, d in enumerate(self.docs):
            if p is d:
                return -1 - i
        return self.num(p) or 99

    def document(self, e):
        d = e.get_document()
        if d is None:
            return 0
        for i, x in enumerate(self.docs):
            if x is d:
                return i + 1
        return 99

    def do(self, op, full=True):
        n = op["n"]
        e = self.elems[op["e"] - 1] if op.get("e") else None
        p = self.elems[op["p"] - 1] if op.get("p") else None
        res, out = "ok", None
        try:
            if n == "root":
                out = self.docs[op["d"] - 1].add_child(CLASSES[op["c"]])
            elif n == "new":
                out = CLASSES[op["c"]](None)
            elif n == "add":
                c = CLASSES[op["c"]]
                out = p.add_child(c, c.XMLNAME if op.get("x") else None)
            elif n == "del":
                p.remove_child(e)
            elif n == "att":
                e.attach_to_parent(p)
                # the rest is the caller's responsibility
                p._children.append(e)
            elif n == "doc":
                self.docs.append(xml.Document(root=e))
            elif n == "id":
                i = op["i"]
                i = {"": None, "-": "1 x"}.get(i, i)
                if op.get("x"):
                    e.set_attribute("id", i)
                else:
                    e.set_id(i)
            elif n == "text":
                e.add_data(op["t"])
            elif n == "value":
                e.set_value(op["t"] or None)
            elif n == "reset":
                e.reset(True)
            elif n == "merge":
                e.content_changed()
            elif n == "copy":
                out = e.deepcopy(p)
        except (xml.XMLError, ValueError) as err:
            res = type(err).__name__
        except RecursionError:
            res = "RecursionError"
        if out is not None:
            self.find_new(out)
        for x in list(self.elems):
            try:
                self.find_new(x)
            except RecursionError:
                break
        r = {"op": op, "res": res, "e": 0 if out is None else self.num(out)}
        try:
            r.update(self.view(full))
        except RecursionError:
            r.update(n=-1, par=[], kids=[], id=[], root=[], doc=[], tab=[],
                     size=[], find=[], up=[])
        return r

    def view(self, full):
        find, up = [], []
        if full:
            for i, x in enumerate(self.elems):
                for c in "PSB":
                    cls = CLASSES[c]
                    for depth, sub in ((1, True), (2, False), (3, True),
                                       (1000, False)):
                        find.append([
                            c, depth, sub, i + 1,
                            [self.num(y) for y in
                             x.find_children_depth_first(cls, sub, depth)],
                            [self.num(y) for y in
                             x.find_children_breadth_first(cls, sub,
                                                           depth)]])
                    y = x.find_parent(cls)
                    up.append([c, i + 1, 0 if y is None else self.num(y)])
        tab = []
        for d in self.docs:
            tab.append([[i, self.num(d.get_element_by_id(i))] for i in IDS
                        if d.get_element_by_id(i) is not None])
        return {
            "n": len(self.elems), "par": [self.parent(x) for x in self.elems],
            "kids": [[[self.num(c), ""] if isinstance(c, xml.Element)
                      else [0, c] for c in x.get_children()]
                     for x in self.elems],
            "id": [x.id or "" for x in self.elems],
            "root": [0 if d.root is None else self.num(d.root)
                     for d in self.docs],
            "doc": [self.document(x) for x in self.elems], "tab": tab,
            "size": [len(d.idTable) for d in self.docs], "find": find,
            "up": up}


def play(job):
    ops, full = job
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    p = Player()
    ev = []
    for k, op in enumerate(ops):
        ev.append(p.do(op, full and k % 4 == 3))
    return {"cfg": {"_": 0}, "ev": ev}


def gen_play(job):
    """A random history, the choice of operations led by the real state"""
    seed, length, classes = job
    import random
    rng = random.Random(seed)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    p = Player()
    ev = []
    for k in range(length):
        op = choose(rng, p, classes)
        if op is None:
            continue
        e = p.do(op, rng.random() < 0.3)
        ev.append(e)
        if e["n"] == -1 or len(p.elems) > 22:
            break
    return {"cfg": {"_": 0}, "ev": ev}


def choose(rng, p, classes):
    n = len(p.elems)
    kind = rng.choice(["root", "new", "add", "add", "add", "add", "del",
                       "del", "att", "att", "doc", "id", "id", "id", "id",
                       "text", "text", "value", "reset", "merge", "copy"])
    c = rng.choice(classes)
    if kind == "root":
        return {"n": "root", "d": rng.randint(1, len(p.docs)), "c": c} \
            if rng.random() < 0.3 or not n else None
    if kind == "new":
        return {"n": "new", "c": c}
    if not n:
        return None
    e = rng.randint(1, n)
    x = p.elems[e - 1]
    q = rng.randint(1, n)
    if kind == "add":
        return {"n": "add", "p": q, "c": c, "x": rng.random() < 0.3}
    if kind == "del":
        if rng.random() < 0.8 and isinstance(x.parent, xml.Element):
            q = p.num(x.parent)
        return {"n": "del", "p": q, "e": e}
    if kind == "att":
        orphans = [i + 1 for i, y in enumerate(p.elems) if y.parent is None]
        if orphans and rng.random() < 0.8:
            e = rng.choice(orphans)
        if isinstance(p.elems[q - 1], (Box, Empty)):
            return None
        return {"n": "att", "p": q, "e": e}
    if kind == "doc":
        return {"n": "doc", "e": e} if len(p.docs) < 4 else None
    if kind == "id":
        return {"n": "id", "e": e, "i": rng.choice(IDS + ["", "-"]),
                "x": rng.random() < 0.3}
    if kind == "text":
        return {"n": "text", "e": e, "t": rng.choice(["t", "u", " "])}
    if kind == "value":
        return {"n": "value", "e": e, "t": rng.choice(["", "v"])} \
            if rng.random() < 0.3 else None
    if kind == "reset":
        return {"n": "reset", "e": e} if rng.random() < 0.3 else None
    if kind == "merge":
        return {"n": "merge", "e": e}
    if kind == "copy":
        if rng.random() < 0.2:
            q = 0
        elif isinstance(p.elems[q - 1], Box) and isinstance(x, Solo) and \
                p.elems[q - 1].Solo is not None:
            return None
        return {"n": "copy", "e": e, "p": q}


def run(ctx):
    jobs = []
    configs = [
        ('{"P"}', '{"a"}', 3, "{}", "plain"),
        ('{"P", "E"}', '{}', ctx.pick(2, 3), '{"t"}', "empty elements, text"),
        ('{"B", "S", "M"}', '{}', ctx.pick(2, 3), "{}", "customised model"),
    ]
    if ctx.thorough:
        configs += [('{"P"}', '{"a", "b"}', 3, "{}", "two IDs"),
                    ('{"P", "B", "S"}', '{"a"}', 3, "{}", "custom, IDs")]
    for classes, ids, n, texts, name in configs:
        tr = ctx.model("XMLTreeMC", "CONSTANTS N = %d\nClasses = %s\n"
                       "IDs = %s\nDocs = 2\nTexts = %s\nINIT Init\n"
                       "NEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" %
                       (n, classes, ids, texts), emit=True,
                       name="XMLTreeMC(%s)" % name)
        for init, ops in vlib.tours(tr, str, ctx.rng, max_len=80):
            jobs.append((ops, False))
    traces = vlib.pmap(play, jobs)
    rnd = []
    for x in range(ctx.pick(600, 8000)):
        rnd.append((ctx.rng.random(), 40,
                    ctx.rng.choice(["P", "PE", "PBSM", "PBSME", "BSM"])))
    traces += vlib.pmap(gen_play, rnd)
    ctx.validate("XMLTreeTrace", traces, CFG)
