"""C18: pyslet.wsgi.AppCipher against spec/Cipher.tla"""
import base64
import binascii
import hashlib
import hmac
import io
import json
import logging
import os
import time

from pyslet import iso8601 as iso, wsgi
from pyslet.odata2 import memds, metadata as edmx, sqlds
import vlib

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- KInit\nCONSTANT TStep <- KStep\n" \
      "CONSTANT TWhy <- KWhy\n"
BASE = 1700000000
_real_time = time.time


class KeyedCipher(object):
    """A cipher that depends on its key, and notices a wrong one"""

    def __init__(self, key):
        self.key = key

    def stream(self, n):
        out = b""
        i = 0
        while len(out) < n:
            out += hashlib.sha256(self.key + bytes([i])).digest()
            i += 1
        return out[:n]

    def encrypt(self, data):
        data = hashlib.sha256(b"!" + data).digest()[:4] + data
        return bytes(a ^ b for a, b in zip(data, self.stream(len(data))))

    def decrypt(self, data):
        data = bytes(a ^ b for a, b in zip(data, self.stream(len(data))))
        if hashlib.sha256(b"!" + data[4:]).digest()[:4] != data[:4]:
            raise ValueError("wrong key")
        return data[4:]

    def hash(self, data):
        return hmac.new(self.key, data, hashlib.sha256).digest()


class KeyedAppCipher(wsgi.AppCipher):

    def new_cipher(self, key):
        return KeyedCipher(key)


class Clock(object):

    def __init__(self):
        self.t = 1

    def __call__(self):
        # the clock is at odd times (of seconds)
        return BASE + float(self.t)


def key_set(rng):
    doc = edmx.Document()
    with open(os.path.join(os.path.dirname(wsgi.__file__),
                           rng.choice(("wsgi_metadata.xml",) * 3 + (
                               "imsbltiv1p0_metadata.xml",))), "rb") as f:
        doc.read(f)
    for s in doc.root.DataServices.Schema:
        for c in s.EntityContainer:
            cdef = c
    if rng.random() < .5:
        memds.InMemoryEntityContainer(cdef)
    else:
        db = sqlds.SQLiteEntityContainer(":memory:", container=cdef)
        db.create_all_tables()
    return cdef["AppKeys"]


MESSAGES = [b"", b"a", b"abc", b"a-b-c", b"0-11-22-33", b"\x00\xff", b"a b%20",
            b"Caf\xc3\xa9", b"x" * 300]


class World(object):

    def __init__(self, rng, age, procs):
        self.rng = rng
        self.age = age
        self.procs = procs
        self.ks = key_set(rng)
        self.ev = []
        self.keys = [(rng.randint(0, 9) if rng.random() < .5 else 11,
                      self.new_key())]
        self.when = []                  # of the change from key i
        self.p = {}
        self.k = {}
        self.toks = []
        self.clock = Clock()
        base = wsgi.AppCipher if rng.random() < .2 else KeyedAppCipher

        class C(base):
            MAX_AGE = age

        self.cls = C
        self.cfg = {"age": age, "num": self.keys[0][0], "procs": procs}

    def new_key(self):
        r = self.rng
        return bytes(r.randrange(256) for i in range(r.choice((4, 16, 32))))

    def tp(self, t):
        """A time point, in a zone of its own"""
        w = iso.TimePoint.from_unix_time(BASE + t)
        z = self.rng.choice((0, 0, 90, -300))
        if z:
            w = w.shift_zone(1 if z > 0 else -1, abs(z) // 60, abs(z) % 60)
        return w

    def log(self, k, p, **kws):
        d = {"k": k, "p": p or self.procs[0]}
        d.update(kws)
        self.ev.append(d)

    def tick(self, d):
        self.clock.t += 2 * d
        self.log("time", None, now=self.clock.t)

    def start(self, p, w, i=None):
        i = len(self.keys) if i is None else i
        if w and i < 2:
            return
        num, key = self.keys[i - 1]
        try:
            if w:
                c = self.cls(num, key, self.ks, self.tp(self.when[i - 2]))
            else:
                c = self.cls(num, key, self.ks)
            res = "ok"
        except Exception as e:
            self.log("start", p, i=i, when=w, res=repr(e)[:200])
            return
        self.p[p], self.k[p] = c, i
        self.log("start", p, i=i, when=w, res=res)

    def change(self, p, d):
        if p not in self.p:
            return
        i = self.k[p]
        if i < len(self.keys):
            # the same change as somebody else's
            num, key = self.keys[i]
            at = self.when[i - 1]
        else:
            at = self.clock.t - 1
            if self.when and self.when[-1] > at:
                at = self.when[-1]
            at += 2 * d
            if sum(1 for x in self.when if x > self.clock.t) >= self.age:
                # the key in use would be too old
                return
            if self.when and at <= self.when[-1]:
                return
            r = self.rng
            used = [n for n, k in self.keys]
            num = used[-1] + 1
            if r.random() < .3:
                num = r.randint(0, 1000)
            while num in used:
                num += 1
            key = self.new_key()
            self.keys.append((num, key))
            self.when.append(at)
        try:
            self.p[p].change_key(num, key, self.tp(at))
            res = "ok"
        except Exception as e:
            res = repr(e)[:200]
        self.k[p] = i + 1
        self.log("change", p, num=num, at=at, res=res)

    def make(self, p):
        if p not in self.p:
            return
        r = self.rng
        kind = r.choice(("enc", "sign", "ascii"))
        msg = r.choice(MESSAGES)
        c = self.p[p]
        try:
            if kind == "enc":
                t = c.encrypt(msg)
                num = int(t.split(":")[0])
            elif kind == "sign":
                t = c.sign(msg)
                num = int(t.split("-")[0])
            else:
                t = c.ascii_sign(msg)
                num = int(t.split("-")[0])
        except Exception as e:
            self.log("make", p, num=-1, x=repr(e)[:200])
            t, num = "", -1
        else:
            self.log("make", p, num=num)
        self.toks.append((kind, t, msg))

    def open(self, p, i):
        if p not in self.p or i >= len(self.toks):
            return
        kind, t, msg = self.toks[i]
        if not t:
            return
        c = self.p[p]
        try:
            if kind == "enc":
                got = c.decrypt(t)
            elif kind == "sign" or self.rng.random() < .3:
                got = c.check_signature(t, msg)
            else:
                got = c.check_signature(t)
            res = "same" if got == msg else "other " + repr(got)[:100]
        except (ValueError, RuntimeError):
            res = "refused"
        except Exception as e:
            res = repr(e)[:200]
        self.log("open", p, tok=i + 1, forged=False, res=res)

    def forge(self, p):
        """A signature that nobody made"""
        sigs = [x for x in self.toks if x[0] != "enc" and x[1]]
        if p not in self.p or not sigs:
            return
        r = self.rng
        kind, t, msg = r.choice(sigs)
        parts = t.split("-", 3)
        num, salt, hash = int(parts[0]), *map(binascii.unhexlify, parts[1:3])
        what = r.choice(("num", "salt", "hash", "msg", "shift", "shift2",
                         "short", "bits", "cut", "other", "embed", "far"))
        claim = msg
        if what == "num":
            num = r.choice([n for n, k in self.keys] + [num + 1])
        elif what == "far":
            num = r.choice((10 ** 6, 2 ** 31, 2 ** 40, -1))
        elif what == "salt":
            salt = salt[:3] + bytes([salt[3] ^ 1])
        elif what == "hash":
            hash = hash[:-1] + bytes([hash[-1] ^ (1 << r.randrange(8))])
        elif what == "msg":
            claim = r.choice(MESSAGES)
        elif what == "shift":
            salt, claim = salt + msg[:1], msg[1:]
        elif what == "shift2":
            salt, claim = salt[:-1], salt[-1:] + msg
        elif what == "short":
            hash = hash[:r.randrange(len(hash))]
        elif what == "bits":
            claim = msg + b"\x00"
        elif what == "cut":
            claim = msg[:-1]
        elif what == "other":
            hash = hashlib.sha256(salt + claim).digest()
        elif what == "embed":
            # the message the caller asks about is another
            claim = r.choice(MESSAGES)
        if (num, salt, hash, claim) in [self.decode(x) for x in sigs]:
            return
        text = "%i-%s-%s" % (num, binascii.hexlify(salt).decode(),
                             binascii.hexlify(hash).decode())
        mode = r.choice(("given", "carried", "both"))
        if what == "embed":
            mode = "both"
        args = []
        if mode != "given":
            carried = msg if what == "embed" else claim
            text += "-" + wsgi.escape_data(carried)
        if mode != "carried":
            args = [claim]
        c = self.p[p]
        try:
            got = c.check_signature(text, *args)
            res = "accepted" if got is not ValueError else "refused"
        except (ValueError, RuntimeError):
            res = "refused"
        except Exception as e:
            res = repr(e)[:200]
        self.log("open", p, tok=0, forged=True, res=res, what=what,
                 sig=text[:200])

    def decode(self, x):
        parts = x[1].split("-", 3)
        return (int(parts[0]), binascii.unhexlify(parts[1]),
                binascii.unhexlify(parts[2]), x[2])

    def do(self, op):
        n = op["n"]
        if n == "time":
            self.tick(op["d"])
        elif n == "start":
            self.start(op["p"], op["w"])
        elif n == "change":
            self.change(op["p"], op["d"])
        elif n == "make":
            self.make(op["p"])
        elif n == "open":
            self.open(op["p"], op["t"] - 1)

    def random(self, n):
        r = self.rng
        for _ in range(n):
            p = r.choice(self.procs)
            x = r.random()
            if x < .15:
                self.tick(r.choice((1, 1, 2, 5)))
            elif x < .3:
                self.start(p, r.random() < .7)
            elif x < .35 and len(self.keys) > 1:
                self.start(p, r.random() < .7,
                           r.randint(1, len(self.keys)))
            elif x < .5:
                self.change(p, r.choice((0, 0, 1, 2, 4)))
            elif x < .65:
                self.make(p)
            elif x < .85:
                self.open(p, r.randrange(len(self.toks) + 1))
            else:
                self.forge(p)
        # at the end the newest process reads everything
        self.start(self.procs[0], True)
        self.start(self.procs[0], False)
        for i in range(len(self.toks)):
            self.open(self.procs[0], i)


def session(args):
    rng, age, procs, ops, n = args
    w = World(rng, age, procs)
    time.time = w.clock
    try:
        for op in ops:
            w.do(op)
        w.random(n)
    finally:
        time.time = _real_time
    return {"cfg": w.cfg, "ev": w.ev}


MC = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Procs = {"p", "q"} Keys = %d Age = %d Late = %d
Overlap = %s Limit = %d
INVARIANTS Allowed ExportInit
"""


def run(ctx):
    rng = ctx.rng
    for overlap, limit in (("FALSE", 2), ("TRUE", 1)):
        r = ctx.tlc("CipherMC", MC % (3, 2, 5, overlap, limit),
                    ok_codes=(0, 11, 12, 13))[0]
        if "violated" not in r:
            raise vlib.MachineryError("CipherMC: nothing violated")
    import random
    jobs = []
    for keys, age, late in ((3, 2, 5),) + (
            ((4, 2, 5), (3, 1, 7)) if ctx.thorough else ()):
        tr = ctx.model("CipherMC", MC % (keys, age, late, "TRUE", age),
                       emit=True, name="CipherMC %i/%i" % (keys, age))
        ts = vlib.tours(tr, lambda x: json.dumps(x, sort_keys=True), rng,
                        max_len=40)
        rng.shuffle(ts)
        for init, ops in ts[:ctx.pick(2500, 60000)]:
            jobs.append((random.Random(rng.random()), age, ["p", "q"],
                         [dict(o) for o in ops], 0))
    ctx.extra["replayed_traces"] = len(jobs)
    for i in range(ctx.pick(2500, 60000)):
        jobs.append((random.Random(rng.random()), rng.choice((1, 2, 3, 100)),
                     ["p", "q", "r"], [], rng.randint(5, 60)))
    traces = vlib.pmap(session, jobs, chunk=20)
    ctx.validate("CipherTrace", traces, CFG, label="AppCipher")
    ctx.assumptions.append(
        "keys are numbered apart and change over in the order they were "
        "made; a stand-in cipher takes the place of AES, which is not "
        "installed")
