"""C11: pyslet.streams.Pipe against spec/Pipe.tla"""
import errno
import random

import sched
sched.install()

from pyslet import streams                               # noqa
import vlib                                              # noqa

CFG = "CONSTANT TInit <- PInit\nCONSTANT TStep <- PStep\n" \
      "CONSTANT TWhy <- PWhy\n"
TMO = 50        # ms
NAMES = {errno.EPIPE: "EPIPE", errno.ETIMEDOUT: "ETIMEDOUT",
         errno.ENOBUFS: "ENOBUFS", errno.EWOULDBLOCK: "EWOULDBLOCK"}


def do(p, op, flag):
    """Performs op and returns the result in the specification's terms"""
    n = op["n"]
    try:
        if n == "write":
            d = bytes(bytearray(op["d"]))
            if op.get("mv"):
                d = memoryview(d)
            elif op["mut"]:
                d = bytearray(d)
            r = p.write(d)
            return {"r": "none"} if r is None else {"r": "ok", "v": r}
        elif n == "read":
            r = p.read(op["k"])
        elif n == "readinto":
            b = bytearray(op["k"])
            r = p.readinto(b)
            if r is not None:
                r = bytes(b[:r])
        elif n == "readall":
            r = p.readall() if op.get("v", 0) == 0 else p.read(-1)
        elif n == "readmatch":
            r = p.readmatch(bytes(bytearray(op["m"])))
        else:
            if n == "write_eof":
                p.write_eof()
                r = 0
            elif n == "close":
                p.close()
                r = 0
            elif n == "flush":
                p.flush()
                r = 0
            elif n == "canwrite":
                r = p.canwrite()
            elif n == "canread":
                r = 1 if p.canread() else 0
            elif n == "empty":
                r = 1 if p.empty() else 0
            elif n == "buffered":
                r = p.buffered()
            elif n == "rflag":
                r = 1 if flag.is_set() else 0
            elif n == "set_rb":
                p.set_readblocking(op["b"])
                r = 0
            elif n == "set_wb":
                p.set_writeblocking(op["b"])
                r = 0
            elif n == "write_wait":
                p.write_wait(op["t"] / 1000.0)
                r = 0
            elif n == "read_wait":
                p.read_wait(op["t"] / 1000.0)
                r = 0
            elif n == "flush_wait":
                p.flush_wait(op["t"] / 1000.0)
                r = 0
            return {"r": "ok", "v": r}
        if r is None:
            return {"r": "none"}
        return {"r": "bytes", "v": list(bytearray(r))}
    except (IOError, OSError) as e:
        return {"r": "err", "v": NAMES.get(e.errno, "errno %s" % e.errno)}
    except ValueError:
        if p.closed:
            return {"r": "err", "v": "closed"}
        return {"r": "err", "v": "ValueError"}
    except Exception as e:
        return {"r": "err", "v": type(e).__name__}


def ms(s, t0):
    return int(round((s.now - t0) * 1000))


def clean(op):
    return {k: v for k, v in op.items() if k not in ("mv", "v")}


def sequential(rb, wb, maxb, ops):
    """One thread"""
    s = sched.Scheduler(random.Random(1), max_steps=5000)
    with sched.building(s):
        import threading
        p = streams.Pipe(bsize=maxb, rblocking=rb, wblocking=wb,
                         timeout=TMO / 1000.0)
        flag = threading.Event()
        p.set_rflag(flag)
    ev = []
    t0 = s.now

    def body():
        for op in ops:
            since = ms(s, t0)
            res = do(p, op, flag)
            ev.append({"k": "call", "op": clean(op), "res": res,
                       "since": since, "now": ms(s, t0)})
    s.spawn("main", body)
    st = s.run()
    if st != "done" or s.threads[0].error is not None:
        ev.append({"k": "hang", "now": 0,
                   "status": st, "error": repr(s.threads[0].error),
                   "op": clean(ops[min(len(ev), len(ops) - 1)])})
    return {"cfg": {"max": maxb, "tmo": TMO, "rb": rb, "wb": wb,
                    "threads": 1}, "ev": ev}


def concurrent(rng, rb, wb, maxb, scripts, line_p):
    """One thread per script"""
    s = sched.Scheduler(rng, trace_files=("pyslet/streams.py",) if line_p
                        else (), line_p=line_p)
    with sched.building(s):
        import threading
        p = streams.Pipe(bsize=maxb, rblocking=rb, wblocking=wb,
                         timeout=TMO / 1000.0)
        flag = threading.Event()
        p.set_rflag(flag)
    ev = []
    t0 = s.now
    s.on_stuck = lambda: ev.append({"k": "stuck", "now": ms(s, t0)})

    def body(t, ops):
        def f():
            for op in ops:
                if op["n"] == "sleep":
                    sched.vsleep(op["t"] / 1000.0)
                    continue
                ev.append({"k": "inv", "t": t, "op": clean(op),
                           "now": ms(s, t0)})
                res = do(p, op, flag)
                ev.append({"k": "ret", "t": t, "res": res,
                           "now": ms(s, t0)})
        return f
    for i, ops in enumerate(scripts):
        s.spawn("t%d" % (i + 1), body(i + 1, ops))
    st = s.run()
    bad = [repr(t.error) for t in s.threads if t.error is not None]
    if st != "done" or bad:
        ev.append({"k": "hang", "now": 0, "status": st, "error": bad})
    return {"cfg": {"max": maxb, "tmo": TMO, "rb": rb, "wb": wb,
                    "threads": len(scripts)}, "ev": ev}


def rand_data(rng, letters, n):
    return [rng.choice(letters) for _ in range(n)]


def seq_ops(rng, n):
    ops = []
    eof = False
    letters = rng.choice(((97, 13, 10), (13, 10), (97, 98, 99)))
    for _ in range(n):
        x = rng.random()
        if x < .36:
            k = rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 7))
            ops.append({"n": "write", "d": rand_data(rng, letters, k),
                        "mut": rng.random() < .4})
            if not ops[-1]["mut"] and rng.random() < .3:
                ops[-1]["mv"] = 1
        elif x < .56:
            ops.append({"n": rng.choice(("read", "readinto")),
                        "k": rng.choice((1, 1, 2, 3, 4, 6, 9))})
        elif x < .7:
            ops.append({"n": "readmatch", "m": rng.choice(
                ([13, 10], [13, 10], [10], [97], [13, 13, 10]))})
        elif x < .9:
            ops.append({"n": rng.choice(("canwrite", "canread", "empty",
                                         "buffered", "rflag", "flush",
                                         "canwrite", "buffered"))})
        elif x < .95:
            ops.append({"n": rng.choice(("write_wait", "read_wait",
                                         "flush_wait")),
                        "t": rng.choice((0, 10))})
        elif x < .985:
            ops.append({"n": rng.choice(("set_rb", "set_wb")),
                        "b": rng.random() < .5})
        elif not eof:
            ops.append({"n": "write_eof"})
            eof = True
    if rng.random() < .5:
        if not eof:
            ops.append({"n": "write_eof"})
        ops.append({"n": "readall", "v": rng.randrange(2)})
    for n in ("canread", "buffered", "empty", "rflag", "read_wait",
              "readmatch", "canwrite"):
        if rng.random() < .4:
            op = {"n": n}
            if n == "read_wait":
                op["t"] = 0
            if n == "readmatch":
                op["m"] = [13, 10]
            ops.append(op)
    if rng.random() < .3:
        ops.append({"n": "close"})
        for n in ("canread", "canwrite", "empty", "buffered", "rflag",
                  "flush", "close"):
            if rng.random() < .5:
                ops.append({"n": n})
        ops.append({"n": "write", "d": [97], "mut": False})
        ops.append({"n": "read", "k": 3})
    return ops


def writer(rng, counter, n, t):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < .6:
            k = rng.choice((1, 1, 2, 3, 5))
            d = [(counter[0] + i) % 50 + 50 * t for i in range(k)]
            counter[0] += k
            if rng.random() < .3:
                d[-1] = 10
            ops.append({"n": "write", "d": d, "mut": rng.random() < .3})
        elif x < .7:
            ops.append({"n": "flush"})
        elif x < .8:
            ops.append({"n": "write_wait", "t": 20})
        elif x < .85:
            ops.append({"n": "flush_wait", "t": 20})
        elif x < .92:
            ops.append({"n": rng.choice(("canwrite", "buffered", "empty"))})
        else:
            ops.append({"n": "sleep", "t": rng.choice((5, 30, 70))})
    return ops


def reader(rng, n):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < .5:
            ops.append({"n": rng.choice(("read", "readinto")),
                        "k": rng.choice((1, 2, 3, 6))})
        elif x < .68:
            ops.append({"n": "readmatch", "m": [10]})
        elif x < .8:
            ops.append({"n": "read_wait", "t": 20})
        elif x < .9:
            ops.append({"n": rng.choice(("canread", "buffered", "empty"))})
        else:
            ops.append({"n": "sleep", "t": rng.choice((5, 30, 70))})
    x = rng.random()
    if x < .5:
        ops.append({"n": "readall"})
    elif x < .75:
        ops.append({"n": "close"})
    return ops


def run(ctx):
    rng = ctx.rng
    n = ctx.pick(5, 6)
    ctx.model("PipeMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
              "CONSTANTS Max = 2 MaxSent = %d Timeout = 50\n"
              "INVARIANTS Fifo Numbered EofLast RoomRight BlockedRight\n" % n,
              name="PipeMC safety MaxSent=%d" % n)
    ctx.model("PipeMC", "SPECIFICATION FairSpec\nCHECK_DEADLOCK FALSE\n"
              "CONSTANTS Max = 2 MaxSent = 3 Timeout = 50\n"
              "PROPERTIES ReadsEnd WritesEnd\n", name="PipeMC liveness")
    traces = []
    # 1. behaviours of the specification replayed into the code
    tr = ctx.model("PipeSeq", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
                   "CONSTANTS Max = 3 MaxBuf = %d\n" % ctx.pick(4, 5),
                   emit=True)
    import json
    ts = vlib.tours(tr, lambda x: json.dumps(x, sort_keys=True), rng,
                    max_len=80, max_tours=ctx.pick(6000, 60000))
    for init, ops in ts:
        i = init["init"]
        traces.append(sequential(i["rb"], i["wb"], 3, ops))
    ctx.extra["replayed_transitions"] = len(tr)
    # 2. longer random call sequences
    for i in range(ctx.pick(2500, 30000)):
        traces.append(sequential(
            rng.random() < .5, rng.random() < .5,
            rng.choice((1, 2, 3, 4, 6, 10)), seq_ops(rng, rng.randrange(4, 40))))
    ctx.validate("PipeTrace", traces, CFG, label="PipeTrace sequential")
    # 3. interleavings
    traces = []
    for i in range(ctx.pick(4000, 40000)):
        scripts = []
        c = [0]
        nw = 2 if rng.random() < .25 else 1
        for w in range(nw):
            scripts.append(writer(rng, c, rng.randrange(2, 6), w + 1))
        if rng.random() < .8:
            scripts[-1].append({"n": "write_eof"})
        scripts.append(reader(rng, rng.randrange(2, 7)))
        if rng.random() < .2:
            # somebody else gives up on the pipe
            scripts.append([{"n": "sleep", "t": rng.choice((0, 3, 12, 40))},
                            {"n": rng.choice(("close", "close",
                                              "write_eof"))}])
        traces.append(concurrent(
            rng, rng.random() < .8, rng.random() < .8,
            rng.choice((1, 2, 3, 5)), scripts,
            0.1 if i % 3 == 0 else 0))
    ctx.validate("PipeTrace", traces, CFG, label="PipeTrace concurrent")
    ctx.assumptions.append(
        "one reader thread at a time; virtual time; threads switch at lock "
        "operations and (a third of the runs) at lines of streams.py")
