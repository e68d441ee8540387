"""C12: stream adapters against spec/Adapter.tla"""
import errno
import io
import json
import logging
import zlib

from pyslet import streams
from pyslet.http import messages
import vlib

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- AInit\nCONSTANT TStep <- AStep\n" \
      "CONSTANT TWhy <- AWhy\n"


class Source(io.RawIOBase):
    """Gives its bytes in pieces; now and then has none (block)"""

    def __init__(self, data, rng=None, block=False):
        self.data = data
        self.pos = 0
        self.rng = rng
        self.may = block

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        if self.rng is not None and n:
            if self.may and self.rng.random() < .3:
                return None
            if self.rng.random() < .6:
                n = self.rng.randrange(1, n + 1)
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def readline(self, limit=-1):
        i = self.data.find(b"\n", self.pos)
        i = len(self.data) if i < 0 else i + 1
        d = self.data[self.pos:i]
        self.pos = i
        return d


class Sink(io.RawIOBase):

    def __init__(self, rng, block):
        self.got = b""
        self.rng = rng
        self.may = block

    def writable(self):
        return True

    def write(self, d):
        n = len(d)
        if self.may and self.rng.random() < .3:
            return None
        if self.rng.random() < .5:
            n = self.rng.randrange(1, n + 1)
        self.got += bytes(d[:n])
        return n


class PlainSink(object):
    """A destination that is not an io object: its write takes all"""

    def __init__(self):
        self.got = b""

    def write(self, d):
        self.got += bytes(d)


def res(v):
    if v is None:
        return {"r": "none"}
    return {"r": "bytes", "v": list(bytearray(v))}


def do(f, op):
    n = op["n"]
    try:
        if n == "read":
            if op.get("into"):
                b = bytearray(b"?" * op["k"])
                r = f.readinto(memoryview(b) if op["into"] == 2 else b)
                if r is not None:
                    if len(b) != op["k"] or any(x != 63 for x in b[r:]):
                        return {"r": "overrun"}
                    r = bytes(b[:r])
                return res(r)
            return res(f.read(op["k"]))
        if n == "readall":
            return res(f.readall() if op.get("v") else f.read())
        if n == "peek":
            return res(f.peek(op["k"]))
        if n == "readline":
            return res(f.readline())
        if n == "seek":
            f.seek(op["o"], op["w"])
            return {"r": "ok", "v": 0}
        if n == "seekable":
            return {"r": "ok", "v": 1 if f.seekable() else 0}
        if n == "tell":
            return {"r": "ok", "v": f.tell()}
    except (IOError, ValueError, messages.HTTPException) as e:
        return {"r": "err"}
    except Exception as e:
        return {"r": "exc", "v": repr(e)}


def chunked(rng, data):
    """data in the chunked transfer encoding"""
    out = []
    pos = 0
    while pos < len(data):
        n = rng.randrange(1, min(len(data) - pos, rng.choice((2, 5, 20))) + 1)
        h = ("%x" if rng.random() < .5 else "%X") % n
        if rng.random() < .2:
            h = "0" * rng.randrange(1, 4) + h
        if rng.random() < .2:
            h += rng.choice((";a=b", ";x", ';q="v w"', " ; z=1"))
        out.append(h.encode("ascii") + b"\r\n" + data[pos:pos + n] + b"\r\n")
        pos += n
    out.append(rng.choice((b"0", b"000", b"0;end")) + b"\r\n")
    for i in range(rng.choice((0, 0, 0, 1, 2, 3))):
        out.append(b"X-Trailer: 1\r\n")
    out.append(b"\r\n")
    return b"".join(out)


FOLLOW = b"\nNEXT MESSAGE"


def make(rng, kind, data, size, known, block=False, chunk=False, cut=False):
    """Returns adapter, source, cfg, following bytes, opening event"""
    follow = b""
    c = {"kind": kind, "data": list(data), "size": size, "len": -1,
         "block": block, "trunc": False}
    raw = data
    if chunk:
        raw = chunked(rng, data)
        if cut:
            n = rng.randrange(len(raw))
            raw = raw[:n]
            c["trunc"] = True
            c["data"] = list(partial(raw))
        else:
            follow = FOLLOW
    elif kind == "wsgi" and known:
        follow = FOLLOW
        c["len"] = len(data)
    src = Source(raw + follow, rng, block)
    opened = None
    if kind == "buff":
        f = streams.BufferedStreamWrapper(src, size)
        opened = {"k": "open", "seek": bool(f.seekable()),
                  "len": -1 if f.length is None else f.length}
    elif kind == "chunk":
        f = messages.ChunkedReader(src)
    else:
        env = {"wsgi.input": src}
        if chunk:
            env["HTTP_TRANSFER_ENCODING"] = "Chunked"
            if rng.random() < .3:
                env["CONTENT_LENGTH"] = "3"
        elif known:
            env["CONTENT_LENGTH"] = str(len(data))
            if rng.random() < .2:
                env["HTTP_TRANSFER_ENCODING"] = "identity"
        try:
            f = messages.WSGIInputWrapper(env, size)
        except Exception as e:
            if cut:
                return None
            f = None
            opened = {"k": "exc", "v": repr(e)}
    return f, src, c, follow, opened


def partial(raw):
    """the data in a truncated chunked body"""
    out = b""
    pos = 0
    while True:
        i = raw.find(b"\r\n", pos)
        if i < 0:
            return out
        n = int(raw[pos:i].split(b";")[0], 16)
        if n == 0:
            return out
        out += raw[i + 2:i + 2 + n]
        pos = i + 2 + n + 2
        if pos > len(raw):
            return out


def session(made, ops):
    if made is None:
        return None
    f, src, c, follow, opened = made
    ev = [opened] if opened else []
    for op in ops if f is not None else ():
        clean = {k: v for k, v in op.items() if k not in ("into", "v")}
        r = do(f, op)
        ev.append({"k": "op", "op": clean, "res": r})
        if r["r"] == "err" and c["trunc"]:
            break
    if follow:
        left = src.data[src.pos:]
        ev.append({"k": "source", "left": left.decode("latin-1"),
                   "after": left[-len(follow):].decode("latin-1"),
                   "follow": follow.decode("latin-1")})
    return {"cfg": c, "ev": ev}


def rand_ops(rng, kind, n, size):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < .5 or kind == "chunk" and x < .93:
            ops.append({"n": "read", "k": rng.choice((0, 1, 2, 3, 5, 8, 50))})
            if rng.random() < .4:
                ops[-1]["into"] = rng.choice((1, 2))
        elif x < .6 and kind != "chunk":
            ops.append({"n": "peek", "k": rng.choice((0, 1, 3, 40))}
                       if kind == "buff" else {"n": "readline"})
        elif x < .82 and kind != "chunk":
            w = rng.choice((0, 0, 0, 1, 1, 2))
            ops.append({"n": "seek", "w": w,
                        "o": rng.randrange(-4, size + 8) if w == 0
                        else rng.randrange(-size - 3, 4)})
        elif x < .9 and kind != "chunk":
            ops.append({"n": rng.choice(("tell", "seekable"))})
        elif x < .93:
            ops.append({"n": "readall", "v": rng.randrange(2)})
    return ops


def rand_data(rng, n):
    return bytes(bytearray(rng.choice((10, 13, 97, 98, 48, 0, 255))
                           for _ in range(n)))


def unzip_prefix(z):
    d = zlib.decompressobj(31)
    return d.decompress(z)


def zip_session(rng):
    n = rng.choice((0, 1, 5, 50, 300, 3000))
    if rng.random() < .5:
        data = bytes(bytearray(rng.randrange(256) for _ in range(n)))
    else:
        data = rand_data(rng, n)
    block = rng.random() < .3
    f = messages.GzipEncoder(Source(data, rng, block))
    out = b""
    ev = []
    size = rng.choice((1, 3, 10, 40, 200, 5000))
    ends = 0
    for i in range(20000):
        k = rng.randrange(0, size + 1) if n < 1000 or size > 100 else size
        how = rng.randrange(3)
        if how == 0:
            r = f.read(k)
            got = -1 if r is None else len(r)
        else:
            b = bytearray(k)
            got = f.readinto(memoryview(b) if how == 2 else b)
            if got is None:
                got = -1
            r = bytes(b[:max(got, 0)])
        if got > 0:
            out += r
        if k and got == 0:
            ends += 1
        if got < 1 or rng.random() < 20.0 / (n + 20):
            try:
                dec = unzip_prefix(out)
            except zlib.error:
                dec = b"not gzip"
            ev.append({"k": "read", "n": k, "got": got,
                       "out": list(bytearray(dec))})
            if dec == b"not gzip":
                break
        if ends > 1:
            break
    c = {"kind": "zip", "data": list(bytearray(data)), "block": block}
    return {"cfg": c, "ev": ev}


def unzip_session(rng):
    n = rng.choice((0, 1, 5, 50, 300))
    data = rand_data(rng, n) if rng.random() < .5 else \
        bytes(bytearray(rng.randrange(256) for _ in range(n)))
    e = zlib.compressobj(6, zlib.DEFLATED, 31)
    z = e.compress(data) + e.flush()
    block = rng.random() < .4
    dst = Sink(rng, block) if block or rng.random() < .6 else PlainSink()
    f = messages.GzipDecoder(dst)
    ev = []
    pos = 0
    while pos < len(z):
        k = rng.randrange(1, rng.choice((2, 8, 100)) + 1)
        piece = z[pos:pos + k]
        try:
            r = f.write(piece)
        except Exception as x:
            r = repr(x)
        got = -1 if r is None else r
        ev.append({"k": "write", "n": len(piece), "got": got,
                   "out": list(bytearray(dst.got))})
        if got == -1:
            continue
        if got != len(piece):
            break
        pos += got
    for i in range(200):
        try:
            f.flush()
            r = "ok"
        except IOError as x:
            r = "blocked" if x.errno == errno.EAGAIN else repr(x)
        except Exception as x:
            r = repr(x)
        ev.append({"k": "flush", "res": r, "out": list(bytearray(dst.got))})
        if r != "blocked":
            break
    return {"cfg": {"kind": "unzip", "data": list(bytearray(data)),
                    "block": block}, "ev": ev}


def run(ctx):
    rng = ctx.rng
    traces = []
    for kind in ("buff", "wsgi"):
        tr = ctx.model(
            "AdapterMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
            "CONSTRAINT Near\n"
            "VIEW View\nCONSTANTS MaxLen = %d MaxK = 3 Kind = \"%s\"\n"
            "INVARIANTS Delivered Within ExportInit\n" % (
                ctx.pick(3, 4), kind), emit=True, name="AdapterMC " + kind)
        # without the view, for the invariants
        ctx.model(
            "AdapterMC", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
            "CONSTRAINT Near\n"
            "CONSTANTS MaxLen = %d MaxK = 2 Kind = \"%s\"\n"
            "INVARIANTS Delivered Within\n" % (ctx.pick(2, 3), kind),
            name="AdapterMC %s delivery" % kind)
        ts = vlib.tours(tr, lambda x: json.dumps(x, sort_keys=True), rng,
                        max_len=40)
        for init, ops in ts:
            c = init["init"]["c"]
            for op in ops:
                if op["n"] == "read" and rng.random() < .4:
                    op["into"] = rng.choice((1, 2))
            traces.append(session(make(
                rng, kind, bytes(bytearray(c["data"])), c["size"],
                c["len"] >= 0), [dict(o) for o in ops]))
    ctx.extra["replayed_traces"] = len(traces)
    for i in range(ctx.pick(6000, 80000)):
        kind = rng.choice(("buff", "wsgi", "wsgi", "chunk", "chunk"))
        data = rand_data(rng, rng.choice((0, 1, 2, 4, 9, 17, 40)))
        size = rng.choice((1, 2, 5, 10, 16, 60)) if kind != "wsgi" else \
            rng.choice((0, 1, 2, 5, 10, 16, 60))
        chunk = kind == "chunk" or kind == "wsgi" and rng.random() < .3
        traces.append(session(make(
            rng, kind, data, size, rng.random() < .6,
            block=kind == "buff" and rng.random() < .3, chunk=chunk,
            cut=chunk and rng.random() < .2),
            rand_ops(rng, kind, rng.randrange(2, 25), size)))
    traces = [t for t in traces if t]
    ctx.validate("AdapterTrace", traces, CFG, label="readers")
    traces = [zip_session(rng) for i in range(ctx.pick(300, 4000))] + \
        [unzip_session(rng) for i in range(ctx.pick(1000, 10000))]
    ctx.validate("AdapterTrace", traces, CFG, label="gzip")
    ctx.assumptions.append("gzip bytes are decoded with zlib to be compared")
