"""C29: the in-memory file system and its paths against spec/FileTree.tla"""
import itertools

from pyslet import vfs

import vlib

CFG = "CONSTANT TInit <- FInit\nCONSTANT TStep <- FStep\n" \
      "CONSTANT TWhy <- FWhy\n"


def systems():
    """New, empty file systems (text and binary paths)"""
    class Text(vfs.MemFilePath):
        _wd = None
        _fsdir = {}

    class Binary(vfs.MemFilePath):
        supports_unicode_filenames = False
        sep = b"/"
        curdir = b"."
        pardir = b".."
        ext = b"."
        drive_sep = b":"
        empty = b""
        _wd = None
        _fsdir = {}

    class Back(vfs.MemFilePath):
        sep = u"\\"
        _wd = None
        _fsdir = {}
        getcwd = classmethod(
            lambda cls: cls._wd if cls._wd is not None else cls(u"\\"))

    class Drive(vfs.MemFilePath):
        supports_drives = True
        sep = u"\\"
        _wd = None
        _fsdir = {}
    Drive._wd = Drive(u"C:\\")
    return {"text": Text, "binary": Binary, "back": Back, "drive": Drive}


SYSTEMS = ["text", "binary", "back", "drive"]


class Player(object):

    def __init__(self, name):
        self.name = name
        self.fs = systems()[name]
        self.sep = self.fs.path_str(self.fs.sep)
        self.h = {}
        self.path(["", ""]).makedirs()

    def raw(self, parts):
        s = u"/".join(parts)
        if self.name in ("back", "drive"):
            s = s.replace("/", "\\")
        if self.name == "drive" and s.startswith("\\"):
            # a path without drive is relative to the current drive
            s = u"C:" + s
        return self.fs.path_str(s)

    def path(self, parts):
        return self.fs(self.raw(parts))

    def parts(self, p):
        assert isinstance(p, self.fs)
        if self.name == "drive":
            p = p.splitdrive()[1]
        s = p.path
        if not isinstance(s, str):
            s = s.decode("ascii")
        return s.replace("\\", "/").split("/")

    def do(self, op):
        n = op["n"]
        p = self.path(op["p"]) if "p" in op else None
        res = {"r": "ok"}
        try:
            if n in ("mkdir", "makedirs", "remove", "chdir"):
                getattr(p, n)()
            elif n in ("exists", "isfile", "isdir"):
                res["v"] = getattr(p, n)()
            elif n == "listdir":
                res["v"] = [self.parts(x)[0] if len(self.parts(x)) == 1
                            else "?" for x in p.listdir()]
            elif n == "rmtree":
                p.rmtree(op["ign"])
            elif n == "copy":
                p.copy(self.path(op["q"]))
            elif n == "getcwd":
                res["v"] = self.parts(self.fs.getcwd())
            elif n == "put":
                with p.open(op.get("m", "wb")) as f:
                    data = bytes(op["data"])
                    f.write(data if op.get("m", "wb") == "wb"
                            else data.decode("ascii"))
            elif n == "get":
                with p.open(op.get("m", "rb")) as f:
                    v = f.read()
                res["v"] = list(v if isinstance(v, bytes)
                                else v.encode("ascii"))
            elif n == "open":
                self.h[op["h"]] = p.open(op["m"])
            elif n == "hread":
                res["v"] = list(self.h[op["h"]].read(op["k"]))
            elif n == "hwrite":
                self.h[op["h"]].write(bytes(op["data"]))
            elif n == "hseek":
                self.h[op["h"]].seek(op["k"])
            elif n == "hclose":
                self.h.pop(op["h"]).close()
        except (OSError, IOError):
            res = {"r": "err"}
        except Exception as e:
            res = {"r": "exc", "v": "%s: %s" % (type(e).__name__, e)}
        return {"op": dict({"p": [""]}, **op), "res": res}


def play(job):
    name, ops = job
    p = Player(name)
    ev = []
    for op in ops:
        ev.append(p.do(op))
    for f in p.h.values():
        try:
            f.close()
        except Exception:
            pass
    return {"cfg": {"fs": name}, "ev": ev}


def paths(job):
    """Path algebra: nothing here has a reason to fail"""
    name, items = job
    pl = Player(name)
    ev = []
    for x in items:
        if isinstance(x, tuple):
            j = [pl.path(y) for y in x]
            raw = [pl.raw(y) for y in x]
            # (the constructor does not look at drives)
            ev.append({"join": x[0], "more": list(x[1:]),
                       "res": pl.parts(j[0].join(*j[1:])),
                       "cons": pl.parts(j[0].join(*j[1:])
                                        if name == "drive"
                                        else pl.fs(*raw))})
            continue
        p = pl.path(x)
        n = p.normpath()
        s = p.split()
        e = p.splitext()
        xt = e[1] if isinstance(e[1], str) else e[1].decode("ascii")
        ev.append({"path": x, "norm": pl.parts(n),
                   "norm2": pl.parts(n.normpath()),
                   "abs": p.isabs(), "root": p.is_root(),
                   "dirlike": p.is_dirlike(), "empty": p.is_empty(),
                   "single": p.is_single_component(),
                   "split": [pl.parts(s[0]), pl.parts(s[1])],
                   "ext": [pl.parts(e[0])], "extn": xt})
    return {"cfg": {"fs": name}, "ev": ev}


class Gen(object):
    """Random histories; keeps just enough to choose likely paths"""

    def __init__(self, rng, length):
        self.rng = rng
        self.n = length
        self.known = [["", ""]]
        self.h = {}
        self.next = 0

    def name(self):
        return self.rng.choice(["a", "ab", "b.c"])

    def path(self):
        r = self.rng
        x = r.random()
        if x < 0.45:
            p = list(r.choice(self.known))
            if r.random() < 0.4:
                p = (p if p[-1] else p[:-1]) + [self.name()]
        elif x < 0.8:
            p = [""] if r.random() < 0.5 else []
            p += [self.name() for i in range(r.randint(1, 3))]
        else:
            p = [""] if r.random() < 0.6 else []
            p += [r.choice(["", ".", "..", "a", "b", "a"])
                  for i in range(r.randint(1, 5))]
        if r.random() < 0.1:
            p = p + [r.choice(["", ".", ".."])]
        if r.random() < 0.08:
            p.insert(r.randint(1, len(p)), r.choice(["", "."]))
        if r.random() < 0.05:
            i = r.randint(1, len(p))
            p[i:i] = [self.name(), ".."]
        return p

    def data(self):
        return [self.rng.randint(65, 90)
                for i in range(self.rng.choice([0, 1, 2, 5]))]

    def op(self):
        r = self.rng
        if self.h and r.random() < 0.45:
            h = r.choice(sorted(self.h))
            k = r.choice(["hread", "hwrite", "hwrite", "hseek", "hclose"])
            if k == "hclose":
                del self.h[h]
            if k == "hread":
                return {"n": k, "h": h, "k": r.choice([-1, 0, 1, 3])}
            if k == "hwrite":
                return {"n": k, "h": h, "data": self.data()}
            if k == "hseek":
                return {"n": k, "h": h, "k": r.randint(0, 6)}
            return {"n": k, "h": h}
        n = r.choice(["mkdir", "mkdir", "makedirs", "put", "put", "get",
                      "listdir", "exists", "isfile", "isdir", "remove",
                      "rmtree", "copy", "copy", "chdir", "getcwd", "open",
                      "open"])
        if n == "getcwd":
            return {"n": n}
        op = {"n": n, "p": self.path()}
        if n in ("mkdir", "makedirs", "put") and len(self.known) < 8:
            self.known.append(op["p"])
        if n == "put":
            op["data"] = self.data()
            op["m"] = r.choice(["wb", "wb", "w"])
        elif n == "get":
            op["m"] = r.choice(["rb", "rb", "r"])
        elif n == "rmtree":
            op["ign"] = r.random() < 0.4
            # a relative path could lead to the root: the meaning of
            # removing that is not specified
            depth, low = 0, 0
            op["p"] = ["", self.name()] + (
                [self.name()] if r.random() < 0.5 else [])
        elif n == "copy":
            op["q"] = self.path()
        elif n == "open":
            if len(self.h) > 2:
                return {"n": "getcwd"}
            self.next += 1
            op["h"] = self.next
            op["m"] = r.choice(["rb", "wb", "ab", "r+b", "w+b"])
        return op


class Live(object):
    """Plays as it generates: what can be done depends on what was opened"""

    def __init__(self, seed, length):
        self.seed, self.length = seed, length


def live(job):
    import random
    name, seed, length = job
    rng = random.Random(seed)
    g = Gen(rng, length)
    p = Player(name)
    ev = []
    for i in range(length):
        op = g.op()
        if op["n"] == "chdir" and not p.path(op["p"]).isdir():
            continue
        e = p.do(op)
        if op["n"] == "open" and e["res"]["r"] == "ok":
            g.h[op["h"]] = True
        ev.append(e)
    for h in sorted(p.h):
        ev.append(p.do({"n": "hclose", "h": h}))
    return {"cfg": {"fs": name}, "ev": ev}


def run(ctx):
    tr = ctx.model("FileTreeMC", "CONSTANT NData = 2\nINIT Init\nNEXT Next\n"
                   "INVARIANT Closed\nINVARIANT Atomic\n"
                   "CHECK_DEADLOCK FALSE\n", emit=True)
    jobs = []
    for init, ops in vlib.tours(tr, str, ctx.rng, max_len=80):
        for name in (SYSTEMS if ctx.thorough else SYSTEMS[:2]):
            jobs.append((name, ops))
    traces = vlib.pmap(play, jobs)
    names = ["", ".", "..", "a", "b.c"]
    items = [list(x) for k in range(1, ctx.pick(5, 6))
             for x in itertools.product(names, repeat=k)]
    items += [["x"] * i + [n] for i in range(2)
              for n in (".d", "e.f.g", "b.c", "abc")]
    items += [["b.c", "a"], ["", "b.c", "a"], ["b.c", ""], ["b.c", "."],
              ["b.c", ".d"], ["..", "b.c", "..", "a"]]
    short = [list(x) for k in range(1, 3)
             for x in itertools.product(["", ".", "..", "a"], repeat=k)]
    items += [(a, b) for a in short for b in short]
    items += [(a, b, c) for a in short for b in short for c in short
              if ctx.thorough or ctx.rng.random() < 0.3]
    parts = [(n, items[i:i + 40]) for n in SYSTEMS
             for i in range(0, len(items), 40)]
    traces += vlib.pmap(paths, parts)
    traces += vlib.pmap(live, [
        (SYSTEMS[i % 4], "%d-%d" % (ctx.seed, i), 40)
        for i in range(ctx.pick(1200, 10000))])
    ctx.validate("FileTreeTrace", traces, CFG)
    ctx.assumptions += [
        "removing the root directory, and changing to a directory that does "
        "not exist, are not exercised: their meaning is not documented"]
