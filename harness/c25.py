"""C25: validating parses against spec/ContentModel.tla"""
import logging
import random
import re

from pyslet.xml import parser as xmlparser, structures as xml
import vlib

logging.disable(logging.CRITICAL)
CFG = "CONSTANT TInit <- VInit\nCONSTANT TStep <- VStep\n" \
      "CONSTANT TWhy <- VWhy\n"
MC = """SPECIFICATION Spec
CONSTANTS Names = {"a","b"} Extra = {"c"} Wide = %d Long = %d
INVARIANTS Agrees Prompt Viable Single Export
CHECK_DEADLOCK FALSE
"""


class Parser(xmlparser.XMLParser):
    """Notes where errors are reported"""

    def __init__(self, entity):
        super(Parser, self).__init__(entity)
        self.check_validity = True
        self.checkCompatibility = True
        self.noted = []

    def where(self):
        # a document with a single line
        return self.docEntity.line_pos

    def validity_error(self, msg="validity error",
                       error=xml.XMLValidityError):
        self.noted.append(("V", self.where(), str(msg)))
        super(Parser, self).validity_error(msg, error)

    def compatibility_error(self, msg="compatibility error"):
        self.noted.append(("C", self.where(), str(msg)))
        super(Parser, self).compatibility_error(msg)


def ptext(p, rng=None):
    def sp():
        return "" if rng is None or rng.random() < 0.8 else " "
    if p["k"] == "n":
        t = p["n"]
    else:
        sep = "," if p["k"] == "s" else "|"
        t = "(" + sp() + (sp() + sep + sp()).join(
            ptext(c, rng) for c in p["ch"]) + sp() + ")"
    return t + ("" if p["o"] == "1" else p["o"])


def mtext(m, rng=None):
    if m["k"] == "E":
        return "EMPTY"
    if m["k"] == "A":
        return "ANY"
    if m["k"] == "M":
        if m["names"]:
            return "(#PCDATA|" + "|".join(m["names"]) + ")*"
        return "(#PCDATA)" if rng is None or rng.random() < 0.5 \
            else "(#PCDATA)*"
    return ptext(m["p"], rng)


ENTITIES = ('<!ENTITY ws " "><!ENTITY tx "text"><!ENTITY no "">'
            '<!ENTITY ea "<a/>"><!ENTITY eb "<b></b>">')
OTHERS = {
    "space": [" ", "\t", "  "], "text": ["text", " x ", "."],
    "cdata": ["<![CDATA[x]]>", "<![CDATA[ ]]>"], "nocdata": ["<![CDATA[]]>"],
    "charref": ["&#65;", "&#x41;"], "spaceref": ["&#x20;", "&#9;"],
    "entity": ["&tx;", "&amp;"], "spaceentity": ["&ws;"],
    "noentity": ["&no;"], "comment": ["<!--x-->", "<!---->"],
    "pi": ["<?p i?>", "<?p?>"]}

EXPECTED = re.compile(r"expected \((.*)\)$")


def why(msgs, name):
    """What was said to be possible"""
    for m in msgs:
        f = EXPECTED.search(m)
        if f:
            names = [x for x in f.group(1).split(" | ") if x]
            end = [x for x in names if x.startswith("</")]
            names = [x for x in names if not x.startswith("</")]
            return [{"names": names, "end": bool(end)}]
    return []


def parse(decls, root, toks, rng=None, quiet=False):
    """Parses a document; returns the events with what was reported

    decls is a list of (name, model), toks a list of events"""
    text = "<!DOCTYPE %s [%s" % (root, ENTITIES)
    ends = []
    evs = []
    for n, m in decls:
        text += "<!ELEMENT %s %s>" % (n, mtext(m, rng))
        ends.append(len(text))
        evs.append({"k": "decl", "n": n, "m": m})
    text += "]>"
    stack = []
    for t in toks:
        if t["k"] == "open":
            text += "<%s>" % t["n"]
            stack.append(t["n"])
        elif t["k"] == "empty":
            text += "<%s/>" % t["n"]
        elif t["k"] == "close":
            text += "</%s>" % stack.pop()
        elif t["k"] == "refempty":
            text += "&e%s;" % t["n"]
        else:
            o = OTHERS[t["what"]]
            text += o[0] if rng is None else rng.choice(o)
        ends.append(len(text))
        evs.append(dict(t))
    with xml.XMLEntity(text) as e:
        p = Parser(e)
        doc = xml.Document()
        p.parse_document(doc)
    got = [[] for i in evs]
    comp = [[] for i in evs]
    for kind, pos, msg in p.noted:
        # the parser looks one character ahead
        pos = pos - 1
        i = len(ends) - 1
        while i > 0 and ends[i - 1] > pos - 1:
            i -= 1
        (got if kind == "V" else comp)[i].append(msg)
    return text, evs, got, comp, p


def record(job):
    decls, root, toks, rng = job
    text, evs, got, comp, p = parse(decls, root, toks, rng)
    for e, g, c in zip(evs, got, comp):
        e["err"] = len(g) > 0
        e["why"] = why(g, "")
        if e["k"] == "decl":
            e["det"] = len(c) == 0
        e["note"] = g + c
    if bool(p.valid) != (not any(got)):
        evs.append({"k": "valid flag is wrong", "note": str(p.valid)})
    return {"cfg": {"root": root, "text": text}, "ev": evs}


def replay(rows):
    """Compares parses with what the specification printed"""
    bad = []
    for r in rows:
        toks = [{"k": "open", "n": "r"}] + \
            [{"k": "empty", "n": n} for n in r["w"]] + [{"k": "close"}]
        decls = [("r", r["m"])] + [(n, {"k": "A"}) for n in "abc"]
        text, evs, got, comp, p = parse(decls, "r", toks)
        errs = [i - 4 for i in range(len(evs)) if got[i]]
        want = [len(r["w"])] if r["dead"] else \
            ([] if r["end"] else [len(r["w"]) + 1])
        if r["m"]["k"] == "M" and len(set(r["m"]["names"])) != \
                len(r["m"]["names"]):
            want.insert(0, -4)
        det = not any(comp)
        if errs != want or det != r["det"]:
            bad.append({"text": text, "reported at": errs, "specified": want,
                        "deterministic": det, "spec det": r["det"],
                        "messages": [m for m in got + comp if m]})
            continue
    return len(rows), bad


NAMES = "abcd"


def occ(rng):
    return rng.choice(["1", "1", "?", "*", "+"])


def particle(rng, depth, top=False, names=NAMES):
    if not top and (depth == 0 or rng.random() < 0.5):
        return {"k": "n", "n": rng.choice(names), "o": occ(rng)}
    k = rng.choice("sc")
    n = rng.randint(1 if k == "s" else 2, 3)
    return {"k": k, "ch": [particle(rng, depth - 1, False, names)
                           for i in range(n)], "o": occ(rng)}


def size(p):
    return 1 if p["k"] == "n" else sum(size(c) for c in p["ch"])


def model(rng):
    r = rng.random()
    if r < 0.08:
        return {"k": "E"}
    if r < 0.16:
        return {"k": "A"}
    if r < 0.28:
        names = [rng.choice(NAMES) for i in range(rng.randint(0, 3))]
        if rng.random() < 0.8:
            names = sorted(set(names))
        return {"k": "M", "names": names}
    while True:
        # few names in some models, so that they are ambiguous
        p = particle(rng, rng.choice([1, 2, 2, 3]), True,
                     NAMES[:rng.choice([2, 4, 4])])
        if size(p) <= 8:
            return {"k": "P", "p": p}


def sample(rng, p):
    """A sequence of children the particle allows"""
    lo, hi = {"1": (1, 1), "?": (0, 1), "*": (0, 2), "+": (1, 2)}[p["o"]]
    out = []
    for i in range(rng.randint(lo, hi)):
        if p["k"] == "n":
            out.append(p["n"])
        elif p["k"] == "c":
            out += sample(rng, rng.choice(p["ch"]))
        else:
            for c in p["ch"]:
                out += sample(rng, c)
    return out


def children(rng, m):
    if m is None or m["k"] == "A":
        w = [rng.choice(NAMES) for i in range(rng.randint(0, 3))]
    elif m["k"] == "E":
        w = []
    elif m["k"] == "M":
        w = [rng.choice(m["names"]) for i in range(rng.randint(0, 3))] \
            if m["names"] else []
    else:
        w = sample(rng, m["p"])[:7]
    r = rng.random()
    if r < 0.12 and w:
        del w[rng.randrange(len(w))]
    elif r < 0.24:
        w.insert(rng.randint(0, len(w)), rng.choice(NAMES))
    elif r < 0.3 and len(w) > 1:
        i = rng.randrange(len(w) - 1)
        w[i], w[i + 1] = w[i + 1], w[i]
    elif r < 0.34:
        w.insert(rng.randint(0, len(w)), "u")
    return w


def other(rng, m, toks):
    if rng.random() > 0.25:
        return
    if m is not None and m["k"] == "E" and rng.random() < 0.5:
        return
    what = rng.choice(sorted(OTHERS))
    if m is not None and m["k"] == "P" and rng.random() < 0.6:
        what = rng.choice(["space", "comment", "pi", "spaceentity"])
    # two runs of data would be one
    if toks and toks[-1].get("what") in ("space", "text") and \
            what in ("space", "text"):
        return
    toks.append({"k": "other", "what": what})


def element(rng, n, models, depth, toks):
    m = models.get(n)
    w = children(rng, m) if depth > 0 else []
    toks.append({"k": "open", "n": n})
    for c in w:
        other(rng, m, toks)
        r = rng.random()
        if c in "ab" and r < 0.1:
            toks.append({"k": "refempty", "n": c})
        elif r < 0.3:
            toks.append({"k": "empty", "n": c})
        elif len(toks) > 60:
            toks.append({"k": "open", "n": c})
            toks.append({"k": "close"})
        else:
            element(rng, c, models, depth - 1, toks)
    other(rng, m, toks)
    toks.append({"k": "close"})


def random_job(rng):
    decls = [(n, model(rng)) for n in NAMES]
    root = rng.choice(NAMES)
    rng.shuffle(decls)
    if rng.random() < 0.1:
        decls.append((rng.choice(NAMES), model(rng)))
    models = {}
    for n, m in decls:
        models.setdefault(n, m)
    toks = []
    first = root if rng.random() < 0.95 else rng.choice(NAMES + "u")
    if rng.random() < 0.08:
        toks.append({"k": "empty", "n": first})
    else:
        element(rng, first, models, rng.randint(1, 4), toks)
    return decls, root, toks, rng


def record_all(jobs):
    return [record(random_job(rng)) for rng in jobs]


def run(ctx):
    rows = ctx.model("ContentModelMC", MC % ctx.pick((2, 3), (2, 5)),
                     emit=True)
    if ctx.thorough:
        rows += ctx.model("ContentModelMC", MC % (3, 3), emit=True,
                          name="ContentModelMC wide")
    n = 0
    for k, bad in vlib.pmap(replay, [rows[i::400] for i in range(400)],
                            chunk=1):
        n += k
        for b in bad:
            ctx.violation("replay", {"cfg": {}, "ev": [b]}, at=1)
    ctx.validated += n
    ctx.extra["replayed_documents"] = n
    jobs = [[random.Random(ctx.rng.random()) for i in range(25)]
            for j in range(ctx.pick(96, 2000))]
    traces = [t for ts in vlib.pmap(record_all, jobs, chunk=1) for t in ts]
    ctx.validate("ContentModelTrace", traces, CFG, label="parses")
