"""C23: pyslet.iso8601 against spec/Calendar.tla"""
import random
import traceback
from fractions import Fraction

from pyslet import iso8601 as iso
import vlib

CFG = "CONSTANT TInit <- DInit\nCONSTANT TStep <- DStep\n" \
      "CONSTANT TWhy <- DWhy\n"
LAST = 3652059
DAY = 86400000
TR = {"no": iso.Truncation.No, "century": iso.Truncation.Century,
      "decade": iso.Truncation.Decade, "year": iso.Truncation.Year,
      "month": iso.Truncation.Month, "week": iso.Truncation.Week}
FORMS = [("cal", t) for t in ("no", "century", "year", "month")] + \
    [("ord", t) for t in ("no", "century", "year")] + \
    [("week", t) for t in ("no", "century", "decade", "year", "week")]
PR = {"hour": iso.Precision.Hour, "minute": iso.Precision.Minute,
      "second": iso.Precision.Complete}


def date(n):
    return iso.Date(absolute_day=n)


def split(y):
    return {"century": y // 100, "year": y % 100}


def wsplit(y):
    return {"century": y // 100, "decade": y // 10 % 10, "year": y % 10}


def num(d):
    """The number of a day, without the help of the date"""
    if not d.complete():
        return -1
    c = d.get_calendar_day()
    try:
        import datetime
        return datetime.date(c[0] * 100 + c[1], c[2], c[3]).toordinal()
    except ValueError:
        return -2


def attempt(f):
    try:
        return f()
    except (iso.DateTimeError, ValueError):
        return None


def maybe(f):
    d = attempt(f)
    return 0 if d is None else num(d)


def forms(d):
    c = d.get_calendar_day()
    o = d.get_ordinal_day()
    w = d.get_week_day()
    return [c[0] * 100 + c[1], c[2], c[3]], [o[0] * 100 + o[1], o[2]], \
        [w[0] * 100 + w[1] * 10 + w[2], w[3], w[4]]


def ev_day(n):
    d = date(n)
    cal, o, w = forms(d)
    j = list(d.get_julian_day())
    st = [0] * 9
    d.update_struct_time(st)
    made = [
        iso.Date(month=cal[1], day=cal[2], **split(cal[0])),
        iso.Date(ordinal_day=o[1], **split(o[0])),
        iso.Date(week=w[1], weekday=w[2], **wsplit(w[0])),
        iso.Date.from_julian(*j), iso.Date(d),
        iso.Date.from_struct_time(st)]
    return {"k": "day", "n": n, "cal": cal, "ord": o, "week": w, "jul": j,
            "from": [m.get_absolute_day() for m in made] +
                    [num(m) for m in made] +
                    [n if (st[6] == w[2] - 1 and st[7] == o[1]) else -1],
            "leap": d.leap_year(), "next": maybe(lambda: d.offset(days=1)),
            "prev": maybe(lambda: d.offset(days=-1))}


def ev_offset(rng, n):
    by = rng.choice([rng.randint(-40, 40), rng.randint(-1500, 1500),
                     rng.randint(-800000, 800000)])
    w = rng.choice([0, 0, by // 7])
    return {"k": "offset", "n": n, "by": by,
            "r": maybe(lambda: date(n).offset(weeks=w, days=by - 7 * w))}


def dtext(n, form, trunc, basic):
    d = date(n)
    f = {"cal": d.get_calendar_string, "ord": d.get_ordinal_string,
         "week": d.get_week_string}[form]
    return f(basic, TR[trunc])


def ev_text(rng, n):
    form, trunc = rng.choice(FORMS)
    basic = rng.random() < 0.5
    text = dtext(n, form, trunc, basic)
    cls = iso.Date
    if trunc == "no":
        if form == "cal" and not basic and rng.random() < 0.5 and \
                str(date(n)) != text:
            text = "str: " + str(date(n))
        return {"k": "full", "n": n, "form": form, "trunc": trunc,
                "basic": basic, "text": text,
                "r": maybe(lambda: cls.from_str(text))}
    far = {"century": 36524, "decade": 3652, "year": 365, "month": 31,
           "week": 7}[trunc]
    b = rng.choice([n, n - rng.randint(0, 20), n + rng.randint(1, 20),
                    n - rng.randint(0, far), n + rng.randint(0, far)])
    b = max(1, min(LAST, b))
    cal, o, w = forms(date(n))
    v = {"cal": cal, "ord": o, "week": w}[form]
    rest = {"century": [v[0] % 100] + v[1:], "decade": [v[0] % 10] + v[1:],
            "year": v[1:], "month": v[2:], "week": v[2:]}[trunc]
    return {"k": "text", "n": n, "b": b, "form": form, "trunc": trunc,
            "basic": basic, "text": text, "rest": rest,
            "r": maybe(lambda: cls.from_str(text, base=date(b)))}


def ev_make(rng):
    """Dates that may not be"""
    y = rng.choice([rng.randint(0, 9999), rng.randint(1890, 2030), 0, 1,
                    9999, 2000, 1900])
    form = rng.choice(["cal", "ord", "week"])
    e = {"k": "make", "form": form}
    how = rng.choice(["text", "basic", "args"])
    if form == "cal":
        v = [y, rng.choice([0, 2, 12, 13, rng.randint(1, 12)]),
             rng.choice([0, 1, 28, 29, 30, 31, 32, rng.randint(1, 28)])]
        text = "%04d-%02d-%02d" % tuple(v)
        if how == "args":
            e["r"] = maybe(lambda: iso.Date(month=v[1], day=v[2],
                                            **split(y)))
    elif form == "ord":
        v = [y, rng.choice([0, 1, 365, 366, 367, 999, rng.randint(1, 365)])]
        text = "%04d-%03d" % tuple(v)
        # the constructor takes 0 for None
        if how == "args" and v[1]:
            e["r"] = maybe(lambda: iso.Date(ordinal_day=v[1], **split(y)))
    else:
        v = [y, rng.choice([0, 1, 52, 53, 54, 99, rng.randint(1, 52)]),
             rng.choice([0, 1, 7, 8, 9, rng.randint(1, 7)])]
        text = "%04d-W%02d-%01d" % tuple(v)
        if how == "args" and v[1] and v[2]:
            e["r"] = maybe(lambda: iso.Date(week=v[1], weekday=v[2],
                                            **wsplit(y)))
    if "r" not in e:
        if how == "basic":
            text = text.replace("-", "")
        e["text"] = text
        e["r"] = maybe(lambda: iso.Date.from_str(text))
    e["v"] = v
    return e


def reduced(p, v):
    if p == "month":
        return iso.Date(month=v % 12 + 1, **split(v // 12))
    if p == "year":
        return iso.Date(**split(v))
    if p == "century":
        return iso.Date(century=v)
    w = date(v).get_week_day()
    return iso.Date(century=w[0], decade=w[1], year=w[2], week=w[3])


def rednum(d):
    p = d.get_precision()
    if p == iso.Precision.Month:
        c = d.get_calendar_day()
        return ("month", 12 * (c[0] * 100 + c[1]) + c[2] - 1)
    if p == iso.Precision.Year:
        c = d.get_calendar_day()
        return ("year", c[0] * 100 + c[1])
    if p == iso.Precision.Century:
        return ("century", d.century)
    if p == iso.Precision.Week:
        c = d.get_week_day()
        return ("week", num(iso.Date(century=c[0], decade=c[1], year=c[2],
                                     week=c[3], weekday=1)))
    return ("?", -1)


def redpick(rng):
    p = rng.choice(["month", "year", "century", "week"])
    if p == "month":
        return p, rng.choice([rng.randint(12, 119999),
                              rng.randint(1995 * 12, 2005 * 12)]), 12
    if p == "year":
        return p, rng.choice([rng.randint(1, 9999), rng.randint(90, 110)]), 1
    if p == "century":
        return p, rng.randint(0, 99), 1
    n = day(rng)
    return p, n - (n - 1) % 7, 7


def ev_redtrunc(rng):
    """truncated forms of reduced precision, relative to a base"""
    b = day(rng)
    base = date(b)
    h = rng.choice(["", "-"])
    y, m = rng.randint(0, 99), rng.randint(1, 12)
    if rng.random() < 0.5:
        # something of the base itself
        c = base.get_calendar_day()
        y, m = c[1], c[2]
        m = rng.choice([m, max(1, m - 1), min(12, m + 1)])
    w = base.get_week_day()
    wy, ww = w[1] * 10 + w[2], rng.randint(1, 52)
    if rng.random() < 0.6:
        ww = max(1, min(52, w[3] + rng.choice([-1, 0, 0, 1])))
        wy = (wy + rng.choice([0, 0, 1, -1])) % 100
    k = rng.randrange(6)
    if k == 0:
        p, t, mod, rest = "month", "--%02d" % m, 12, m - 1
    elif k == 1:
        p, t, mod, rest = "month", "-%02d%s%02d" % (y, h, m), 1200, \
            12 * y + m - 1
    elif k == 2:
        p, t, mod, rest = "year", "-%02d" % y, 100, y
    elif k == 3:
        p, t, mod, rest = "week", "%02d%sW%02d" % (wy, h, ww), 100, wy
    elif k == 4:
        p, t, mod, rest = "week", "-%d%sW%02d" % (wy % 10, h, ww), 10, \
            wy % 10
    else:
        p, t, mod, rest = "week", "-W%02d" % ww, 1, 0
    r = attempt(lambda: iso.Date.from_str(t, base=base))
    e = {"k": "redtrunc", "p": p, "text": t, "b": b, "mod": mod,
         "rest": rest, "w": ww, "r": []}
    if r is not None:
        q, v = rednum(r)
        e["r"] = [v if q == p else -2]
    return e


def ev_reduced(rng):
    p, v, x = redpick(rng)
    d = reduced(p, v)
    basic = rng.random() < 0.5
    text = d.get_week_string(basic) if p == "week" or rng.random() < 0.1 \
        and p != "month" else d.get_calendar_string(basic)
    k = rng.choice([rng.randint(-3, 3), rng.randint(-30, 30),
                    rng.randint(-1500, 1500)])
    args = {"month": "months", "year": "years", "century": "centuries",
            "week": "weeks"}[p]
    by = k * (7 if p == "week" else 1)
    kw = {args: k}
    if p in ("month", "year") and rng.random() < 0.4:
        a = rng.randint(-3, 3)
        kw["centuries" if p == "year" else "years"] = a
        by += a * (100 if p == "year" else 12)
    r = attempt(lambda: d.offset(**kw))
    back = attempt(lambda: iso.Date.from_str(text))
    e = {"k": "reduced", "p": p, "v": v, "basic": basic, "text": text,
         "back": -1, "by": by, "r": []}
    if back is not None:
        q, b = rednum(back)
        e["back"] = b if q == p else -2
    if r is not None:
        q, b = rednum(r)
        e["r"] = [b if q == p else -2]
    return e


def compare(a, b):
    e = {}
    import operator as op
    for n in ("lt", "le", "gt", "ge"):
        try:
            e[n] = "yes" if getattr(op, n)(a, b) else "no"
        except TypeError:
            e[n] = "error"
    e["eq"] = a == b
    e["ne"] = a != b
    e["hash"] = hash(a) == hash(b)
    return e


def ev_redcmp(rng):
    p, v, x = redpick(rng)
    while True:
        w = v + x * rng.choice([0, 1, -1, 2, rng.randint(-60, 60)])
        try:
            e = compare(reduced(p, v), reduced(p, w))
            break
        except iso.DateTimeError:
            continue
    e.update(k="redcmp", p=p, a=v, b=w)
    return e


def day(rng):
    r = rng.random()
    if r < 0.3:
        return rng.randint(1, LAST)
    if r < 0.6:
        y = rng.choice([rng.randint(2, 9998), rng.randint(1895, 2025)])
        return iso.Date(month=1, day=1, **split(y)).get_absolute_day() + \
            rng.randint(-9, 9)
    if r < 0.8:
        y = rng.choice([rng.randint(2, 9998), rng.randint(1895, 2025),
                        1900, 2000, 2100, 400])
        return iso.Date(month=rng.randint(1, 12), day=1,
                        **split(y)).get_absolute_day() + rng.randint(-3, 3)
    if r < 0.9:
        return rng.choice([1, 2, 7, 366, LAST, LAST - 1, LAST - 7,
                           rng.randint(1, 1000), rng.randint(LAST - 400,
                                                             LAST)])
    return 719163 + rng.randint(-400, 25000)


def ev_cmp(rng):
    a = day(rng)
    b = max(1, min(LAST, rng.choice([a, a + 1, a - 1, a + rng.randint(
        -400, 400), day(rng)])))
    e = compare(date(a), date(b))
    e.update(k="cmp", a=a, b=b)
    return e


# ---- times ----

UNIT = {"hour": 3600000, "minute": 60000, "second": 1000}


def zone(rng):
    r = rng.random()
    if r < 0.25:
        return []
    if r < 0.4:
        return [0]
    if r < 0.7:
        return [60 * rng.randint(-14, 14)]
    if r < 0.9:
        return [15 * rng.randint(-60, 60)]
    return [rng.randint(-1439, 1439)]


def tpick(rng, z=None, prec=None):
    prec = prec or rng.choice(["second", "second", "minute", "hour"])
    u = UNIT[prec]
    ms = u * rng.choice([rng.randrange(DAY // u), 0, DAY // u - 1,
                         rng.randrange(DAY // u)])
    r = rng.random()
    if r < 0.4:
        # fractions which floats can express
        ms += u // 8 * rng.randrange(8)
    elif r < 0.43:
        ms = DAY
    return {"ms": ms, "prec": prec, "z": zone(rng) if z is None else z}


def time(t, zulu=False, rng=None):
    ms, z = t["ms"], t["z"]
    kw = {}
    if z:
        if zulu:
            kw = {"zdirection": 0}
        else:
            a = abs(z[0])
            kw = {"zdirection": -1 if z[0] < 0 else 1, "zhour": a // 60,
                  "zminute": a % 60}
            if a == 0 and rng is not None and rng.random() < 0.5:
                kw["zdirection"] = 1

    def q(x, u):
        return x // u if x % u == 0 else x / float(u)
    if t["prec"] == "hour":
        return iso.Time(hour=q(ms, 3600000), **kw)
    if t["prec"] == "minute":
        return iso.Time(hour=ms // 3600000, minute=q(ms % 3600000, 60000),
                        **kw)
    return iso.Time(hour=ms // 3600000, minute=ms // 60000 % 60,
                    second=q(ms % 60000, 1000), **kw)


def tobs(t):
    p = {v: k for k, v in PR.items()}[t.get_precision()]
    ms = Fraction(t.hour) * 3600000 + Fraction(t.minute or 0) * 60000 + \
        Fraction(t.second or 0) * 1000
    r = int(round(ms))
    if abs(r - ms) > Fraction(1, 50):
        r = -1
    z = t.get_zone_offset()
    return {"ms": r, "prec": p, "z": [] if z is None else [z]}


NOTIME = {"ms": -9, "prec": "none", "z": []}


def ev_time(rng):
    t = tpick(rng)
    zulu = t["z"] == [0] and rng.random() < 0.6
    hours = rng.random() < 0.3
    basic = rng.random() < 0.5
    ndp = rng.choice([0, 0, 1, 2, 3])
    dp = rng.choice(".,")
    x = time(t, zulu)
    text = x.get_string(basic, ndp=ndp, dp=dp,
                        zone_precision=iso.Precision.Hour if hours
                        else iso.Precision.Complete)
    back = attempt(lambda: iso.Time.from_str(text))
    return {"k": "time", "t": t, "zulu": zulu, "hours": hours,
            "basic": basic, "ndp": ndp, "dp": dp, "text": text,
            "back": NOTIME if back is None else tobs(back)}


def zargs(z):
    return {"zdirection": (z > 0) - (z < 0), "zhour": abs(z) // 60,
            "zminute": abs(z) % 60}


def ev_tshift(rng):
    z = zone(rng) or [0]
    t = tpick(rng, z)
    to = (zone(rng) or [0])[0]
    e = {"k": "tshift", "t": t, "z": to, "err": True}
    try:
        r, over = time(t).shift_zone(**zargs(to))
        e.update(r=tobs(r), over=over, err=False)
    except iso.DateTimeError:
        pass
    return e


def ev_toffset(rng):
    t = tpick(rng)
    if t["ms"] == DAY:
        t["ms"] = 0
    by = {"hours": rng.choice([0, rng.randint(-50, 50)])}
    if t["prec"] != "hour":
        by["minutes"] = rng.choice([0, rng.randint(-4000, 4000)])
        if t["prec"] == "second":
            by["seconds"] = rng.choice([0, rng.randint(-200000, 200000)])
    least = t["prec"] + "s"
    if rng.random() < 0.5:
        by[least] += rng.choice([0.5, 0.25, 0.125, 0.75])
    r, over = time(t).offset(**by)
    ms = sum(Fraction(v) * UNIT[k[:-1]] for k, v in by.items())
    return {"k": "toffset", "t": t, "by": int(ms), "r": tobs(r),
            "over": int(over), "args": str(by)}


def ev_prec(rng):
    t = tpick(rng)
    p = rng.choice(["hour", "minute", "second"])
    cut = rng.random() < 0.5
    r = time(t).with_precision(PR[p], cut)
    return {"k": "prec", "t": t, "p": p, "cut": cut, "r": tobs(r)}


def tppick(rng, z=None, prec=None):
    return {"day": min(max(day(rng), 4), LAST - 4), "t": tpick(rng, z, prec)}


def tp(a, rng=None):
    return iso.TimePoint(date=date(a["day"]),
                         time=time(a["t"], a["t"]["z"] == [0] and
                                   rng is not None and rng.random() < 0.7))


def tpobs(x):
    return {"day": num(x.date), "t": tobs(x.time)}


def ev_tp(rng):
    a = tppick(rng)
    form = rng.choice(["cal", "ord", "week"])
    basic = rng.random() < 0.5
    ndp = rng.choice([0, 1, 3])
    zulu = a["t"]["z"] == [0] and rng.random() < 0.7
    x = iso.TimePoint(date=date(a["day"]), time=time(a["t"], zulu))
    f = {"cal": x.get_calendar_string, "ord": x.get_ordinal_string,
         "week": x.get_week_string}[form]
    text = f(basic, ndp=ndp, dp=".")
    back = attempt(lambda: iso.TimePoint.from_str(text))
    return {"k": "tp", "n": a["day"], "t": a["t"], "form": form,
            "trunc": "no", "basic": basic, "ndp": ndp, "zulu": zulu,
            "text": text, "back": {"day": -9, "t": NOTIME}
            if back is None else tpobs(back)}


def ev_tpcmp(rng):
    a = tppick(rng)
    if a["t"]["prec"] == "hour" and a["t"]["z"]:
        a["t"]["z"] = [int(a["t"]["z"][0] / 60) * 60]
    r = rng.random()
    if r < 0.25:
        b = tppick(rng)
        if b["t"]["prec"] == "hour" and b["t"]["z"]:
            b["t"]["z"] = [int(b["t"]["z"][0] / 60) * 60]
    else:
        # about the same instant, in another zone
        b = {"day": a["day"], "t": dict(a["t"])}
        ms = a["t"]["ms"]
        u = UNIT[a["t"]["prec"]]
        if r > 0.6:
            ms += rng.choice([u, -u, u // 8, DAY, -DAY, rng.randint(
                -30, 30) * u])
        if a["t"]["z"]:
            z = rng.choice([[0], zone(rng) or [0]])
            if a["t"]["prec"] == "hour":
                z = [int(z[0] / 60) * 60]
            ms += 60000 * (z[0] - a["t"]["z"][0])
            b["t"]["z"] = z
        b["day"] += ms // DAY
        b["t"]["ms"] = ms % DAY
        if b["t"]["ms"] == 0 and rng.random() < 0.5:
            b["day"] -= 1
            b["t"]["ms"] = DAY
    e = compare(tp(a, rng), tp(b, rng))
    e.update(k="tpcmp", a=a, b=b)
    return e


def ev_tpshift(rng):
    a = tppick(rng, zone(rng) or [0])
    if rng.random() < 0.1:
        a["day"] = rng.choice([1, 2, LAST, LAST - 1])
    z = (zone(rng) or [0])[0]
    e = {"k": "tpshift", "a": a, "z": z, "err": True}
    try:
        e.update(r=tpobs(tp(a, rng).shift_zone(**zargs(z))), err=False)
    except iso.DateTimeError:
        pass
    return e


def usplit(u):
    d = int(u // 86400)
    ms = (Fraction(u) - 86400 * d) * 1000
    return [d, int(round(ms)) if abs(round(ms) - ms) < Fraction(1, 50)
            else -1]


def ev_unix(rng):
    u = rng.choice([rng.randint(0, 2 ** 31), rng.randint(-2 ** 33, 2 ** 36),
                    86400 * rng.randint(-1000, 20000)])
    if rng.random() < 0.4:
        u += rng.choice([0.5, 0.25, 0.125])
    x = iso.TimePoint.from_unix_time(u)
    return {"k": "unix", "u": usplit(u), "r": tpobs(x),
            "back": usplit(x.get_unixtime()), "arg": str(u)}


def ev_unixof(rng):
    a = tppick(rng, zone(rng) or [0], "second")
    return {"k": "unixof", "a": a, "u": usplit(tp(a, rng).get_unixtime())}


KINDS = [lambda r: ev_day(day(r)), lambda r: ev_offset(r, day(r)),
         lambda r: ev_text(r, day(r)), lambda r: ev_text(r, day(r)),
         lambda r: ev_text(r, day(r)), ev_make, ev_reduced, ev_redtrunc, ev_redcmp,
         ev_cmp, ev_time, ev_time, ev_tshift, ev_toffset, ev_prec, ev_tp,
         ev_tpcmp, ev_tpcmp, ev_tpshift, ev_unix, ev_unixof]


def ask(f, rng):
    try:
        return f(rng)
    except (iso.DateTimeError, ValueError, TypeError, AttributeError) as e:
        return {"k": "raised", "what": traceback.format_exc()[-1200:]}


def batch(job):
    rng, n = job
    return {"cfg": {"_": 0},
            "ev": [ask(f, rng) for i in range(n) for f in KINDS]}


def days(ns):
    return {"cfg": {"_": 0}, "ev": [ev_day(n) for n in ns]}


def run(ctx):
    ctx.model("CalendarMC", """SPECIFICATION Spec
CONSTANTS From = %d To = %d
INVARIANTS Cal Ord Week
CHECK_DEADLOCK FALSE
""" % ctx.pick((1599, 2001), (1, 9990)))
    jobs = [(random.Random(ctx.rng.random()), 4)
            for i in range(ctx.pick(500, 8000))]
    traces = vlib.pmap(batch, jobs)
    # the turns of years and of months
    ns = set()
    for y in range(2, 10000):
        if ctx.thorough or y % 10 == ctx.rng.randrange(10) or \
                1898 < y < 2002 or y % 100 == 0:
            j = iso.Date(month=1, day=1, **split(y)).get_absolute_day()
            ns.update(j + x for x in (-4, -3, -1, 0, 1, 3, 58, 59, 60))
    ns = sorted(ns)
    traces += vlib.pmap(days, [ns[i::200] for i in range(200)])
    if ctx.thorough:
        traces += vlib.pmap(days, [range(i, i + 400) for i in
                                   range(584000, 732000, 400)])
    ctx.validate("CalendarTrace", traces, CFG, label="dates and times")
