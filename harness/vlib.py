"""Common machinery: run TLC, read its verdicts, write evidence.

A check is a Python module harness/cNN.py that defines

    run(ctx)      drives the code in /repo, hands recorded traces to TLC

and the specification modules it names in /verif/spec.  The verdict on
every recorded trace is TLC's: see spec/TraceCheck.tla.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from multiprocessing.pool import ThreadPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")


class MachineryError(Exception):
    pass


class Ctx(object):

    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.extra = {}
        self.known_findings = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- TLC ------------------------------------------------------------

    def tlc(self, module, cfg, env=None, timeout=800, workers=None,
            extra=(), ok_codes=(0,)):
        """Runs TLC on spec/<module>.tla with the configuration text cfg.
        Returns the output; raises MachineryError on anything but success
        or a property violation."""
        d = tempfile.mkdtemp(dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e["LC_ALL"] = "C.UTF-8"
        cmd = ["java", "-Xmx5g", "-Xss64m", "-XX:+UseParallelGC",
               "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers or 8),
               "-config", "run.cfg"] + list(extra) + [module + ".tla"]
        out = os.path.join(d, "out")
        with open(out, "wb") as f:
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=f,
                                   stderr=subprocess.STDOUT,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on %s" % module)
        with open(out, encoding="utf-8", errors="replace") as f:
            text = f.read()
        shutil.rmtree(d, ignore_errors=True)
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct",
                             text):
            pass
        if m is None or p.returncode not in ok_codes:
            tail = "\n".join(l for l in text.splitlines()
                             if not l.startswith('"@'))[-4000:]
            raise MachineryError("TLC failed (%d) on %s:\n%s" % (
                p.returncode, module, tail))
        gen, dist = [int(x.replace(",", "")) for x in m.groups()]
        return text, gen, dist

    def model(self, module, cfg, env=None, timeout=800, emit=False,
              workers=None, name=None, extra=()):
        """Model-checks the design.  With emit, returns the JSON records
        the specification printed (as lines "@...")."""
        t = time.time()
        text, gen, dist = self.tlc(module, cfg, env, timeout, workers, extra)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": name or module,
                            "states": dist, "transitions": gen,
                            "wall_s": round(time.time() - t, 1)})
        log("model %s: %d states, %d transitions, %.1fs" % (
            name or module, dist, gen, time.time() - t))
        return printed(text) if emit else None

    def models_parallel(self, jobs, threads=4):
        """jobs: keyword dictionaries for model()"""
        with ThreadPool(threads) as pool:
            return pool.map(lambda j: self.model(workers=2, **j), jobs)

    def validate(self, module, traces, consts="", timeout=800, env=None,
                 label=None, what=None, chunk=20000):
        """Has TLC check each recorded trace against the specification.

        traces: a list of {"cfg":…, "ev":[…], …}; each gets a verdict."""
        t = time.time()
        label = label or module
        total = len(traces)
        rejected = []
        if not traces:
            raise MachineryError("no traces for %s" % module)
        for base in range(0, total, chunk):
            part = traces[base:base + chunk]
            path = os.path.join(self.tmp, "traces.json")
            with open(path, "w") as f:
                json.dump([{"cfg": x["cfg"], "ev": x["ev"]} for x in part],
                          f)
            e = {"TRACES": path}
            e.update(env or {})
            text, gen, dist = self.tlc(
                module, "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" +
                consts, e, timeout)
            verdict = {}
            for v in printed(text):
                if v[0] in ("ACCEPT", "REJECT"):
                    verdict[v[1]] = v
            if set(verdict) != set(range(1, len(part) + 1)):
                missing = sorted(set(range(1, len(part) + 1)) - set(verdict))
                raise MachineryError(
                    "%s: no verdict on %d traces, e.g. %r\n%s" % (
                        module, len(missing), part[missing[0] - 1],
                        text[-2000:]))
            self.transitions += gen
            for k in sorted(verdict):
                v = verdict[k]
                if v[0] == "REJECT":
                    rejected.append((base + k - 1, v))
        self.validated += total
        self.events += sum(len(x["ev"]) for x in traces)
        log("validate %s: %d traces, %d events, %d rejected, %.1fs" % (
            label, total, sum(len(x["ev"]) for x in traces),
            len(rejected), time.time() - t))
        for x in traces[:1] + traces[total // 2:total // 2 + 1]:
            self.sample({"spec": module, "trace": x})
        for k, v in rejected:
            self.violation(label, traces[k], at=v[2], why=v[3:])
        return rejected

    def sample(self, s):
        if len(self.samples) < 8:
            txt = json.dumps(s, default=str)
            if len(txt) > 1500:
                s = txt[:1500] + "..."
            self.samples.append(s)

    # ---- verdicts -------------------------------------------------------

    def violation(self, label, trace, at=None, why=None):
        """Records a rejected trace (at: 1-based event index)."""
        ev = None
        if at and trace.get("ev") and 0 < at <= len(trace["ev"]):
            ev = trace["ev"][at - 1]
        rec = {"property": self.pid, "spec": label, "rejected_event": at,
               "event": ev, "spec_says": why, "trace": trace}
        for kf in self.known_findings:
            if matches(kf["match"], {"spec": label, "event": ev,
                                     "cfg": trace.get("cfg"),
                                     "why": why}):
                kf["seen"] = kf.get("seen", 0) + 1
                self.known.append(rec)
                return
        self.violations.append(rec)

    def finish(self):
        for kf in self.known_findings:
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (
                self.pid, kf["what"], kf.get("seen", 0)))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "events_validated": self.events,
               "models": self.models,
               "samples": self.samples[:8] or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        txt = json.dumps(ev, indent=1, default=str)
        if len(txt) > 60000:
            cov["samples"] = [str(x)[:400] for x in cov["samples"]]
            txt = json.dumps(ev, indent=1, default=str)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as f:
            f.write(txt + "\n")
        rdir = os.path.join(VERIF, "evidence", "replay")
        shutil.rmtree(os.path.join(rdir, self.pid), ignore_errors=True)
        if self.violations:
            os.makedirs(os.path.join(rdir, self.pid))
            for i, v in enumerate(diverse(self.violations)[:40]):
                path = os.path.join(rdir, self.pid, "%d.json" % i)
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, default=str)
                if i < 5:
                    log("rejected: %s" % json.dumps(
                        {k: v[k] for k in ("spec", "rejected_event",
                                           "event", "spec_says")},
                        default=str)[:1500])
            log("%d violations" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (
                self.pid, os.path.join(rdir, self.pid, "0.json")))
            sys.stdout.flush()
            return 1
        print("OK property=%s %d model states, %d traces (%d events) "
              "validated, %.1fs" % (self.pid, self.states, self.validated,
                                    self.events, time.time() - self.t0))
        sys.stdout.flush()
        return 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def log(msg):
    sys.stderr.write("  %s\n" % msg)
    sys.stderr.flush()


def pmap(fn, items, procs=8, chunk=None):
    """map over forked processes; an exception in one is raised here with
    the traceback it had there"""
    import multiprocessing
    items = list(items)
    if len(items) < 2:
        return [fn(x) for x in items]
    global _pmap_fn
    _pmap_fn = fn
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        out = pool.map(_pmap_call, items,
                       chunk or max(1, len(items) // (procs * 8)))
    res = []
    for ok, v in out:
        if not ok:
            raise WorkerError(*v)
        res.append(v)
    return res


_pmap_fn = None


class WorkerError(Exception):
    """an exception in a worker: last is the file it was raised in"""

    def __init__(self, last, text):
        Exception.__init__(self, text)
        self.last = last


def _pmap_call(x):
    import traceback
    try:
        return True, _pmap_fn(x)
    except Exception as e:
        return False, (traceback.extract_tb(e.__traceback__)[-1].filename,
                       traceback.format_exc())


def printed(text):
    """The JSON values printed by PrintT("@" \\o ToJson(x))."""
    out = []
    for line in text.splitlines():
        if line.startswith('"@'):
            out.append(json.loads(json.loads(line)[1:]))
    return out


def diverse(vs):
    """Violations, one of each sort first"""
    seen, first, rest = set(), [], []
    for v in vs:
        e = v["event"] if isinstance(v["event"], dict) else {}
        op, res = e.get("op"), e.get("res")
        k = json.dumps([
            v["spec"], e.get("k"),
            op.get("n") if isinstance(op, dict) else None,
            [res.get("r"), res.get("v") if res.get("r") == "err" else None]
            if isinstance(res, dict) else None,
            v["trace"]["cfg"].get("be")
            if isinstance(v["trace"].get("cfg"), dict) else None],
            default=str)
        (rest if k in seen else first).append(v)
        seen.add(k)
    return first + rest


def matches(pattern, value):
    if isinstance(pattern, dict):
        return isinstance(value, dict) and all(
            k in value and matches(v, value[k]) for k, v in pattern.items())
    if isinstance(pattern, list):
        return isinstance(value, list) and len(value) >= len(pattern) and \
            all(matches(p, v) for p, v in zip(pattern, value))
    return pattern == value


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [dict(x) for x in data.get("findings", [])
            if x["property"] == pid]


def tours(transitions, key, rng, max_len=60, max_tours=100000):
    """Sequences of operations that cover every transition of a graph the
    specification printed: each record is {"a": state, "op":…, "b": state},
    the first record with "init": true gives an initial state.

    Returns a list of (initial record, [op, …])."""
    inits, graph = {}, {}
    for r in transitions:
        if "init" in r:
            inits.setdefault(key(r["init"]), r)
    for r in transitions:
        if "init" not in r:
            graph.setdefault(key(r["a"]), []).append(
                (json.dumps(r["op"], sort_keys=True), r["op"], key(r["b"])))
    # only (state, op) pairs matter: the code chooses the outcome
    out = []
    for k in graph:
        graph[k].sort(key=lambda x: (x[0], x[2]))
    for ik in sorted(inits):
        # breadth-first tree for the shortest path to each state
        pred = {ik: None}
        order = [ik]
        for k in order:
            for _, op, b in graph.get(k, ()):
                if b not in pred:
                    pred[b] = (k, op)
                    order.append(b)
        todo = {k: list(graph.get(k, ())) for k in order}
        for k in todo:
            rng.shuffle(todo[k])

        def path(k):
            p = []
            while pred[k] is not None:
                k, op = pred[k]
                p.append(op)
            return p[::-1]

        for k in reversed(order):
            while todo[k]:
                seq = path(k)
                cur = k
                while len(seq) < max_len and todo.get(cur):
                    _, op, b = todo[cur].pop()
                    seq.append(op)
                    cur = b
                out.append((inits[ik], seq))
                if len(out) >= max_tours:
                    return out
    return out
