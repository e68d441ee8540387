"""The metadata used by the entity container checks"""
from odm import DynTable, Model, Table


def _int():
    return Table([0, 1, -5, 2147483647, 42, -2147483648])


def _str():
    return Table([u"", u"a", u"O'Brien", u"\u00e9\U0001F600 x", u"a%_\\b",
                  u"line\r\n\ttab", u"NULL"])


def nav_model():
    """Every multiplicity the SQL mapping supports, both and one-way"""
    one = [("K", "Edm.Int32")]
    v = [("V", "Edm.Int32", 'Nullable="true"')]
    sets = {
        "A": {"key": one, "props": v},
        "B": {"key": [("K1", "Edm.Int32"), ("K2", "Edm.String")],
              "props": v},
        "C": {"key": one, "props": v},
        "D": {"key": one, "props": v},
        "E": {"key": one, "props": v},
        "F": {"key": [("K", "Edm.String")], "props": v},
        "G": {"key": one, "props": v},
    }
    assocs = {
        # set a, mult a, nav on a, set b, mult b, nav on b
        "AB": ("A", "*", "Bs", "B", "*", "As"),
        "AC": ("A", "?", "Cs", "C", "*", "A"),
        "AD": ("A", "1", "Ds", "D", "*", "A"),
        "AE": ("A", "1", "E", "E", "?", "A"),
        "FG": ("F", "1", "G", "G", "1", "F"),
        "CC": ("C", "?", "Kids", "C", "*", "Parent"),
        "GC": ("G", "*", "C", "C", "?", ""),
        "GA": ("G", "*", "As", "A", "*", ""),
        "BE": ("B", "1", "Es", "E", "*", "B"),
        "BD": ("B", "?", "Ds", "D", "*", "B"),
    }
    tables = {(s, "V"): _int() for s in sets}
    keys = {s: {1: 10, 2: 20, 3: 30} for s in sets}
    keys["B"] = {1: (10, u"x"), 2: (10, u"y'z"), 3: (20, u"x")}
    keys["F"] = {1: u"k", 2: u"K", 3: u"k/ =\u00e9"}
    return Model(sets, assocs, tables, keys)


def pair_model(kind):
    """Two sets and one association: small enough to visit every state"""
    ma, mb, na, nb = {
        "mn": ("*", "*", "Bs", "As"), "m?": ("*", "?", "B", "As"),
        "m1": ("*", "1", "B", "As"), "?1": ("?", "1", "B", "A"),
        "11": ("1", "1", "B", "A"), "?m": ("?", "*", "Bs", "A"),
        "1m": ("1", "*", "Bs", "A"), "1?": ("1", "?", "B", "A"),
        "mn1": ("*", "*", "Bs", ""), "m?1": ("*", "?", "B", ""),
    }[kind]
    one = [("K", "Edm.Int32")]
    v = [("V", "Edm.Int32", 'Nullable="true"')]
    sets = {"A": {"key": one, "props": v}, "B": {"key": one, "props": v}}
    assocs = {"AB": ("A", ma, na, "B", mb, nb)}
    return Model(sets, assocs, {(s, "V"): _int() for s in sets},
                 {s: {1: 10, 2: 20, 3: 30} for s in sets})


def rich_model():
    """Every type the stores persist; complex types, defaults, all sorts of
    keys"""
    import datetime                                     # noqa
    import uuid
    from decimal import Decimal
    from pyslet import iso8601 as iso

    def tp(y, mo, d, h=0, mi=0, s=0):
        return iso.TimePoint(
            date=iso.Date(century=y // 100, year=y % 100, month=mo, day=d),
            time=iso.Time(hour=h, minute=mi, second=s))

    ints = lambda a, b: Table([0, 1, a, b, 7])          # noqa
    T = {
        "Edm.Boolean": lambda: Table([True, False]),
        "Edm.Byte": lambda: ints(255, 128),
        "Edm.SByte": lambda: ints(-128, 127),
        "Edm.Int16": lambda: ints(-32768, 32767),
        "Edm.Int32": lambda: ints(-2 ** 31, 2 ** 31 - 1),
        "Edm.Int64": lambda: ints(-2 ** 63, 2 ** 63 - 1),
        "Edm.Single": lambda: Table([0.0, 1.5, -0.25, 2.0 ** 100]),
        "Edm.Double": lambda: Table([0.0, 1.5, -1e-300, 1.7e308, 0.1]),
        "Edm.Decimal": lambda: Table([
            Decimal("0"), Decimal("1.25"), Decimal("-99999.9999"),
            Decimal("3.1416")]),
        "Edm.String": _str,
        "Edm.Binary": lambda: Table([b"", b"\x00\xff'", b"abc"]),
        "Edm.DateTime": lambda: Table([
            tp(1972, 3, 3), tp(2014, 12, 31, 23, 59, 59),
            tp(1066, 10, 14, 9, 0, 1)]),
        "Edm.Guid": lambda: Table([
            uuid.UUID(int=0), uuid.UUID(int=2 ** 128 - 1),
            uuid.UUID("12345678-9abc-def0-1234-56789abcdef0")]),
    }
    short = lambda t: t[4:]                             # noqa
    attr = {"Edm.String": 'MaxLength="50" ', "Edm.Binary": 'MaxLength="50" ',
            "Edm.Decimal": 'Precision="10" Scale="4" '}
    # text of a default and its code
    dflt = {"Edm.Boolean": ("true", 1), "Edm.Byte": ("255", 3),
            "Edm.Int32": ("7", 5), "Edm.Int64": ("1", 2),
            "Edm.Double": ("1.5", 2), "Edm.String": ("O'Brien", 3),
            "Edm.Decimal": ("1.25", 2), "Edm.Single": ("1.5", 2),
            "Edm.DateTime": ("1972-03-03T00:00:00", 1),
            "Edm.Guid": ("12345678-9abc-def0-1234-56789abcdef0", 3),
            "Edm.Int16": ("1", 2), "Edm.SByte": ("7", 5)}
    extra = (
        '<ComplexType Name="Geo"><Property Name="Lat" Type="Edm.Double" '
        'Nullable="true"/><Property Name="Tag" Type="Edm.String" '
        'Nullable="true" MaxLength="50" DefaultValue="a"/></ComplexType>'
        '<ComplexType Name="Addr"><Property Name="City" Type="Edm.String" '
        'Nullable="true" MaxLength="50"/><Property Name="Zip" '
        'Type="Edm.Int32" Nullable="false" DefaultValue="7"/>'
        '<Property Name="Geo" Type="M.Geo" Nullable="false"/></ComplexType>')
    sets, tables, defaults, nonnull = {}, {}, {}, set()
    cplx = [("Addr", "M.Addr", 'Nullable="false"')]

    def cplx_tables(s):
        tables[(s, "Addr/City")] = _str()
        tables[(s, "Addr/Zip")] = ints(-2 ** 31, 2 ** 31 - 1)
        tables[(s, "Addr/Geo/Lat")] = T["Edm.Double"]()
        tables[(s, "Addr/Geo/Tag")] = _str()
        defaults[(s, "Addr/Zip")] = 5
        defaults[(s, "Addr/Geo/Tag")] = 2
        nonnull.add((s, "Addr/Zip"))

    # S: everything nullable without defaults
    props = []
    for t in sorted(T):
        props.append((short(t), t, 'Nullable="true" ' + attr.get(t, "")))
        tables[("S", short(t))] = T[t]()
    sets["S"] = {"key": [("K", "Edm.Int32")], "props": props + cplx}
    cplx_tables("S")
    # D: everything with a default, some of it not nullable
    props = []
    for i, t in enumerate(sorted(dflt)):
        null = i % 3 != 0
        props.append((short(t), t, 'Nullable="%s" DefaultValue="%s" %s' % (
            "true" if null else "false", dflt[t][0], attr.get(t, ""))))
        tables[("D", short(t))] = T[t]()
        defaults[("D", short(t))] = dflt[t][1]
        if not null:
            nonnull.add(("D", short(t)))
    sets["D"] = {"key": [("K1", "Edm.Int64"), ("K2", "Edm.String")],
                 "props": props}
    # U: string key; V: guid key; W: int key, only the key and one complex
    sets["U"] = {"key": [("K", "Edm.String")],
                 "props": [("V", "Edm.Int32", 'Nullable="true"')]}
    tables[("U", "V")] = _int()
    sets["V"] = {"key": [("K", "Edm.Guid")],
                 "props": [("V", "Edm.Int32",
                            'Nullable="false" DefaultValue="42"'),
                           ("N", "Edm.String",
                            'Nullable="true" MaxLength="50"')]}
    tables[("V", "V")] = _int()
    tables[("V", "N")] = _str()
    defaults[("V", "V")] = 5
    nonnull.add(("V", "V"))
    sets["W"] = {"key": [("K", "Edm.Int64")], "props": cplx}
    cplx_tables("W")
    keys = {"S": {1: 1, 2: -2 ** 31, 3: 77},
            "D": {1: (1, u"x"), 2: (1, u"X"), 3: (2 ** 40, u"x")},
            "U": {1: u"a", 2: u"A", 3: u"a b'/?\u00e9"},
            "V": {1: uuid.UUID(int=1), 2: uuid.UUID(int=2 ** 127),
                  3: uuid.UUID(int=3)},
            "W": {1: 0, 2: 2 ** 62, 3: -5}}
    m = Model(sets, {}, tables, keys, extra, defaults)
    m.nonnull = nonnull
    m.autokey = {"S", "U", "W"}
    return m


def set_model():
    """The model of ODataSetMC"""
    sets = {"S": {"key": [("K", "Edm.Int32")], "props": [
        ("P", "Edm.String", 'Nullable="true" MaxLength="20"'),
        ("Q", "Edm.Int32", 'Nullable="true" DefaultValue="42"')]}}
    tables = {("S", "P"): Table([u"", u"O'x"]), ("S", "Q"): Table([0, 42])}
    return Model(sets, {}, tables, {"S": {1: 1, 2: 7, 3: 9}},
                 defaults={("S", "Q"): 2})


def media_model():
    sets = {"M": {"key": [("K", "Edm.Int32")], "media": True,
                  "props": [("V", "Edm.Int32", 'Nullable="true"')]}}
    return Model(sets, {}, {("M", "V"): _int()}, {"M": {1: 1, 2: 7, 3: 9}})


def token_model():
    """Entity sets with concurrency tokens of each sort"""
    kinds = {"I2": ("Edm.Int16", "", "new"), "I4": ("Edm.Int32", "", "new"),
             "I8": ("Edm.Int64", "", "new"), "GU": ("Edm.Guid", "", "new"),
             "DT": ("Edm.DateTime", "", "new"),
             "BI": ("Edm.Binary", 'MaxLength="50"', "hash"),
             "BF": ("Edm.Binary", 'MaxLength="40" FixedLength="true"',
                    "hash"),
             "BS": ("Edm.Binary", 'MaxLength="8"', "hash"),
             "ST": ("Edm.String", 'MaxLength="70"', "hash"),
             "SS": ("Edm.String", 'MaxLength="10"', "hash")}
    sets, tables, toks = {}, {}, {}
    for k, (t, a, tok) in kinds.items():
        sets[k] = {"key": [("K", "Edm.Int32")], "props": [
            ("V", "Edm.Int32", 'Nullable="true"'),
            ("T", t, 'Nullable="true" ConcurrencyMode="Fixed" ' + a)]}
        tables[(k, "V")] = _int()
        tables[(k, "T")] = DynTable()
        toks[(k, "T")] = tok
    m = Model(sets, {}, tables, {s: {1: 1, 2: 2} for s in sets}, toks=toks)
    m.nonnull, m.autokey = set(), set()
    return m
