"""P14: binary type I/O is symmetric and registered under the right OIDs.

The routines registered for every OID are found by interpreting the modules that register them; each is then interpreted over
symbolic values and symbolic wires, and the fields it makes or the value it gives is compared with the format PostgreSQL
documents for the type."""
import ast
import itertools
import re
from sa.rules import *
from sa import lin
from sa.typerule import *

IO = "postgresql.types.io"
OIDS = {"ACLITEMOID": 1033, "BITOID": 1560, "BOOLOID": 16, "BOXOID": 603, "BPCHAROID": 1042, "BYTEAOID": 17, "CASHOID": 790, "CHAROID": 18,
        "CIDOID": 29, "CIDROID": 650, "CIRCLEOID": 718, "CSTRINGOID": 2275, "DATEOID": 1082, "FLOAT4OID": 700, "FLOAT8OID": 701, "INETOID": 869,
        "INT2OID": 21, "INT2VECTOROID": 22, "INT4ARRAYOID": 1007, "INT4OID": 23, "INT8OID": 20, "INTERVALOID": 1186, "JSONBOID": 3802, "JSONOID": 114,
        "LINEOID": 628, "LSEGOID": 601, "MACADDROID": 829, "NAMEOID": 19, "NUMERICOID": 1700, "OIDOID": 26, "OIDVECTOROID": 30, "PATHOID": 602,
        "POINTOID": 600, "POLYGONOID": 604, "RECORDOID": 2249, "REFCURSOROID": 1790, "REGCLASSOID": 2205, "REGCONFIGOID": 3734,
        "REGDICTIONARYOID": 3769, "REGOPERATOROID": 2204, "REGOPEROID": 2203, "REGPROCEDUREOID": 2202, "REGPROCOID": 24, "REGTYPEARRAYOID": 2211,
        "REGTYPEOID": 2206, "TEXTOID": 25, "TIDOID": 27, "TIMEOID": 1083, "TIMESTAMPOID": 1114, "TIMESTAMPTZOID": 1184, "TIMETZOID": 1266,
        "TSQUERYOID": 3615, "TSVECTOROID": 3614, "UNKNOWNOID": 705, "UUIDOID": 2950, "VARBITOID": 1562, "VARCHAROID": 1043, "VOIDOID": 2278,
        "XIDOID": 28, "XMLOID": 142, "ABSTIMEOID": 702, "RELTIMEOID": 703, "TINTERVALOID": 704}
NAME = {v: k[:-3].lower() for k, v in OIDS.items()}
SQLNAME = {"BOOLEAN": 16, "SMALLINT": 21, "INTEGER": 23, "BIGINT": 20, "REAL": 700, "DOUBLE PRECISION": 701, "NUMERIC": 1700, "DATE": 1082,
           "TIME WITHOUT TIME ZONE": 1083, "TIME": 1083, "TIME WITH TIME ZONE": 1266, "TIMESTAMP": 1114, "TIMESTAMP WITHOUT TIME ZONE": 1114,
           "TIMESTAMP WITH TIME ZONE": 1184, "INTERVAL": 1186, "CHARACTER": 1042, "CHARACTER VARYING": 1043, "TEXT": 25, "BIT": 1560, "BIT VARYING": 1562,
           "BYTEA": 17, "VARCHAR": 1043, "CHAR": 1042}
P = lambda n: ("p", "$" + n)
N = lambda f: ("lin", f) if f[1] else C(int(f[0]))
A = lambda *n: lin.atom(P("".join(n)))


def lc(*pairs):
    """a linear form: (coefficient, name) ..., a bare number is the constant"""
    r = lin.const(0)
    for x in pairs:
        r = lin.add(r, lin.atom(P(x[1])), x[0]) if isinstance(x, tuple) else lin.add(r, lin.const(x))
    return N(r)


class Typed:
    """one state in which I/O routines are called"""

    def __init__(self, ck, p, mods, ranges=None, order=(), extra=None):
        self.ck, self.p = ck, p
        self.rule = (extra or Types)(mods, ranges, order)
        self.eng = Engine(p, self.rule)
        self.fr = self.eng.module_frame(p.module(IO))
        self.eng.frame0 = self.fr
        self.n = 0

    def node(self):
        self.n += 1
        x = ast.parse("0").body[0].value
        x.lineno, x.col_offset = -self.n, 0
        return x

    def call(self, f, args, st=None, kws=()):
        """canonical results: ("v", value) or ("raise", class)"""
        self.ck.count("calls")
        out = set()
        for o in self.eng.call(self.node(), f, list(args), kws, st or State(ts=()), self.fr):
            if o.kind == "v":
                out.add(("v", self.rule.canon(self.eng, o.val, o.st)))
            else:
                e = o.val
                out.add(("raise", e[1].rsplit(".", 1)[-1] if e[0] == "exc" else show(e)))
        return out


def show_value(t):
    if t[0] == "lin":
        return lin.text(t[1], lambda a: str(a[1]).lstrip("$") if a[0] in ("p", "digit") else show(a))
    if is_const(t):
        return repr(t[2])
    if t[0] == "wire":
        return "<" + ", ".join(x[1].hex(" ") if x[0] == "bytes" else "%s(%s)" % (x[1], x[2]) if x[0] == "raw" else x[0] + ": " + show_value(x[1]) for x in t[1]) + ">"
    if t[0] == "p":
        return t[1].lstrip("$")
    if t[0] in ("moment", "day", "td", "clock", "zone", "lossy", "ip", "decimal", "misread", "tuple", "mapping", "made", "uuid", "text", "special"):
        return t[0] + "(" + ", ".join(show_value(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in t[1:]) + ")"
    return show(t)


def results(rs):
    return " or ".join(sorted((show_value(v) if k == "v" else "raises " + v) for k, v in rs))[:200] or "no result"


# ------------------------------------------------------------ registry


def module_value(ck, p, eng, name, var):
    m = p.module(IO + "." + name)
    if m is None:
        return None
    return eng.global_value(m.name + "." + var)


def registry(ck, p, mods):
    """-> {oid or name: (term of the entry, module)}"""
    t = Typed(ck, p, mods)
    eng, st = t.eng, State(ts=())
    pt = p.module("postgresql.types")
    for k, v in sorted(OIDS.items()):
        b = eng.global_value("postgresql.types." + k)
        if b[0] == "g":
            continue
        ck.judge(b == C(v), "registry", "%s has the OID of the catalog" % k, "postgresql/types/__init__.py", "" if b == C(v) else "it is %s, the catalog has %d" % (show(b), v))
    for var, want in (("oid_to_sql_name", lambda o, n: SQLNAME.get(n) == o or n not in SQLNAME), ("oid_to_name", None)):
        b = eng.global_value("postgresql.types." + var)
        it = eng.hget(st, (b, "$items"))
        if it is None or it[0] != "D":
            if var == "oid_to_sql_name":
                raise AnalysisBroken("P14: %s is not a dictionary display" % var)
            continue
        for k, v in it[1]:
            if is_const(k) and is_const(v) and want is not None:
                ck.judge(want(k[2], v[2]), "registry", "%s: %s names the type of its OID" % (var, v[2]), "postgresql/types/__init__.py", "" if want(k[2], v[2]) else "OID %s is %s" % (k[2], NAME.get(k[2])))
    b = eng.global_value(IO + ".io_modules")
    it = eng.hget(st, (b, "$items"))
    if it is None or it[0] != "D":
        raise AnalysisBroken("P14: io_modules is not a dictionary display")
    entries, owner = {}, {}
    for k, v in it[1]:
        ids = eng.exact_items(v, st)
        if not is_const(k) or ids is None or not all(map(is_const, ids)):
            raise AnalysisBroken("P14: io_modules holds %s" % show(k))
        name = k[2]
        tab = module_value(ck, p, eng, name, "oid_to_io")
        got = eng.hget(st, (tab, "$items")) if tab is not None else None
        if got is None or got[0] != "D":
            ck.judge(False, "registry", "the module %s of io_modules has a table of its routines" % name, "postgresql/types/io/__init__.py", "no oid_to_io is found there")
            continue
        have = {x[2]: y for x, y in got[1] if is_const(x)}
        for o in [x[2] for x in ids]:
            ck.judge(o in have, "registry", "%s: %s, listed for it, has an entry there" % (name, NAME.get(o, o)), "postgresql/types/io/%s.py" % name, "" if o in have else "a value of this type makes resolve fail")
            ck.judge(o not in owner, "registry", "%s is listed for one module" % NAME.get(o, o), "postgresql/types/io/__init__.py", "" if o not in owner else "also for " + owner[o])
            owner[o] = name
            if o in have:
                entries[o] = (have[o], name)
        for o in have:
            ck.judge(o in owner and owner[o] == name, "registry", "%s: its entry for %s is listed in io_modules" % (name, NAME.get(o, o)), "postgresql/types/io/__init__.py", "" if o in owner else "the entry is never found")
    # text types: in the cache of a TypeIO object as strings
    return t, entries


# ------------------------------------------------------------ plans


def W(*atoms):
    return ("wire", tuple(atoms))


RAW = lambda n, k: ("raw", n, k)
HOUR = {P("h"): (0, 23), P("m"): (0, 59), P("s"): (0, 59), P("u"): (0, 999999)}
CLOCK = ("clock", P("h"), P("m"), P("s"), P("u"))
CLOCKUS = lc((3600 * 10 ** 6, "h"), (60 * 10 ** 6, "m"), (10 ** 6, "s"), (1, "u"))


def scaled(t, k):
    """t / 10^6 as a double"""
    n = t[1] if t[0] == "lin" else lin.const(t[2])
    return N(lin.scale(n, k)) if lin.scale(n, k)[1] else ("lin", lin.scale(n, k))


def divided(name, *steps):
    """clock fields of a quantity of microseconds"""
    L = lin.Lin()
    a = lin.atom(P(name))
    return L, a


def clock_of(name, tz=NONE, ranges=None):
    L = lin.Lin(ranges)
    a = lin.atom(P(name))
    h, m, s = L.div(a, 3600 * 10 ** 6), L.div(a, 60 * 10 ** 6), L.div(a, 10 ** 6)
    return ("clock", N(h), N(lin.add(m, h, -60)), N(lin.add(s, m, -60)), N(lin.add(a, s, -10 ** 6)), tz)


def simple(code):
    return [("a value", P("x"), W((code, P("x"))))], [("a value", W((code, P("x"))), P("x"))]


def plans(ints):
    """{oid: (pack cases, unpack cases, ranges, order)}; a case is (label, input, expected result); ints: times are microseconds, else doubles"""
    r = {}
    for o, c in (("INT2OID", "h"), ("INT4OID", "l"), ("INT8OID", "q"), ("FLOAT4OID", "f"), ("FLOAT8OID", "d"), ("OIDOID", "L"), ("XIDOID", "L"), ("CIDOID", "L"), ("ABSTIMEOID", "l")):
        r[OIDS[o]] = simple(c)
    r[OIDS["BOOLOID"]] = ([("true", C(True), C(b"\x01")), ("false", C(False), C(b"\x00"))], [("true", C(b"\x01"), C(True)), ("false", C(b"\x00"), C(False))])
    for o in ("BYTEAOID", "CHAROID"):
        r[OIDS[o]] = ([("a value", W(RAW("x", 3)), W(RAW("x", 3)))], [("a value", W(RAW("x", 3)), W(RAW("x", 3)))])
    blk = (W(("L", P("b")), ("H", P("o"))), ("tuple", P("b"), P("o")))
    r[OIDS["TIDOID"]] = ([("a value", blk[1], blk[0])], [("a value", blk[0], blk[1])])
    # geometry
    d = lambda *n: W(*[("d", P(x)) for x in n])
    pt = lambda x, y: ("tuple", P(x), P(y))
    r[OIDS["POINTOID"]] = ([("a point", pt("x", "y"), d("x", "y"))], [("a point", d("x", "y"), pt("x", "y"))])
    seg = ("tuple", pt("x1", "y1"), pt("x2", "y2"))
    four = d("x1", "y1", "x2", "y2")
    r[OIDS["LSEGOID"]] = ([("a segment", seg, four)], [("a segment", four, seg)])
    r[OIDS["BOXOID"]] = ([("a box", seg, four)], [("a box", four, seg)], None, (("$x1", "$x2"), ("$y1", "$y2")))
    r[OIDS["CIRCLEOID"]] = ([("a circle", ("tuple", pt("x", "y"), P("r")), d("x", "y", "r"))], [("a circle", d("x", "y", "r"), ("tuple", pt("x", "y"), P("r")))], {P("r"): (0, lin.INF)})
    # dates and times
    tt = (lambda t: ("q", t)) if ints else (lambda t: ("d", scaled(t, Fraction(1, 10 ** 6))))
    inf = (b"\x7f" + b"\xff" * 7, b"\x80" + b"\0" * 7) if ints else (b"\x7f\xf0" + b"\0" * 6, b"\xff\xf0" + b"\0" * 6)
    big = ("moment", NONE, C((2921940 * 86400) * 10 ** 6 - 1)), ("moment", NONE, C(-730119 * DAY))
    us = lc((1, "t"))
    day0 = lc((1, "n"), -EPOCH)
    dmax, dmin = ("day", C(3652059)), ("day", C(1))
    r[OIDS["DATEOID"]] = ([("a date", ("day", P("n")), W(("l", day0))), ("infinity", dmax, C(b"\x7f\xff\xff\xff")), ("-infinity", dmin, C(b"\x80\0\0\0")),
                           ("'infinity'", C("infinity"), C(b"\x7f\xff\xff\xff")), ("'-infinity'", C("-infinity"), C(b"\x80\0\0\0"))],
                          [("a date", W(("l", P("d"))), ("day", lc((1, "d"), EPOCH))), ("infinity", C(b"\x7f\xff\xff\xff"), dmax), ("-infinity", C(b"\x80\0\0\0"), dmin)])
    special = [("infinity", big[0], C(inf[0])), ("-infinity", big[1], C(inf[1])), ("'infinity'", C("infinity"), C(inf[0])), ("'-infinity'", C("-infinity"), C(inf[1]))]
    special_u = [("infinity", C(inf[0]), big[0]), ("-infinity", C(inf[1]), big[1])]
    r[OIDS["TIMESTAMPOID"]] = ([("a moment", ("moment", NONE, P("t")), W(tt(us)))] + special, [("a moment", W(tt(us)), ("moment", NONE, us))] + special_u)
    r[OIDS["TIMESTAMPTZOID"]] = ([("a moment of any zone", ("moment", ("zone", P("z")), P("t")), W(tt(us)))] + special,
                                 [("a moment", W(tt(us)), ("moment", UTC0, us))] + special_u)
    day = {P("t"): (0, DAY - 1)}
    r[OIDS["TIMEOID"]] = ([("a time", CLOCK + (NONE,), W(tt(CLOCKUS)))], [("a time", W(tt(us)), clock_of("t", ranges=day))], {**HOUR, **day})
    west = lc((-1, "z"))
    r[OIDS["TIMETZOID"]] = ([("a time east of UTC by z seconds", CLOCK + (("zone", P("z")),), W(tt(CLOCKUS), ("l", west)))],
                            [("a time west of UTC by z seconds", W(tt(us), ("l", P("z"))), clock_of("t", ("zone", west), day))], {**HOUR, **day, P("z"): (-86399, 86399)})
    L = lin.Lin()
    T = lin.atom(P("t"))
    days = L.div(T, DAY)
    iv = [("a duration", ("td", P("t")), W(tt(N(lin.add(T, days, -DAY))), ("l", N(days)), ("l", C(0))))]
    ivu = [("months, days and time", W(tt(us), ("l", P("d")), ("l", P("m"))), ("td", lc((30 * DAY, "m"), (DAY, "d"), (1, "t")))),
           ("days and time", W(tt(us), ("l", P("d")), ("l", C(0))), ("td", lc((DAY, "d"), (1, "t"))))]
    r[OIDS["INTERVALOID"]] = (iv, ivu)
    # addresses
    net_p, net_u, adr_p, adr_u = [], [], [], []
    for v, n, fam in ((4, 4, 2), (6, 16, 3)):
        full = n * 8
        raw = W(RAW("a", n))
        adr = ("ip", "address", v, raw, C(full))
        host = W(("bytes", bytes((fam, full, 0, n))), RAW("a", n))
        adr_p.append(("an IPv%d address" % v, adr, host))
        adr_u.append(("an IPv%d address" % v, host, adr))
        for mask in (0, 1, full - 1, full // 2 + 3):
            head = lambda flag: W(("bytes", bytes((fam, mask, flag, n))), RAW("a", n))
            net_p.append(("an IPv%d network /%d" % (v, mask), ("ip", "network", v, raw, C(mask)), head(1)))
            net_u.append(("an IPv%d network /%d" % (v, mask), head(1), ("ip", "network", v, raw, C(mask))))
            adr_u.append(("an IPv%d host in a network /%d" % (v, mask), head(0), ("ip", "interface", v, raw, C(mask))))
            adr_p.append(("an IPv%d host in a network /%d" % (v, mask), ("ip", "interface", v, raw, C(mask)), [head(0), head(1)]))
        net_p.append(("an IPv%d network of one" % v, ("ip", "network", v, raw, C(full)), W(("bytes", bytes((fam, full, 1, n))), RAW("a", n))))
        net_u.append(("an IPv%d network of one" % v, W(("bytes", bytes((fam, full, 1, n))), RAW("a", n)), ("ip", "network", v, raw, C(full))))
    r[OIDS["INETOID"]] = (adr_p, adr_u)
    r[OIDS["CIDROID"]] = (net_p, net_u)
    hexes = {("digit", "x%d" % i): (0, 15) for i in range(12)}
    X = lambda i: ("digit", "x%d" % i)
    six = W(*[("B", N(lin.add(lin.scale(lin.atom(X(2 * i)), 16), lin.atom(X(2 * i + 1))))) for i in range(6)])
    mac = []
    for label, groups, sep in (("08:00:2b:01:02:03", (2,) * 6, ":"), ("08-00-2b-01-02-03", (2,) * 6, "-"), ("08002b:010203", (6, 6), ":"), ("08002b-010203", (6, 6), "-"),
                               ("0800.2b01.0203", (4,) * 3, "."), ("08002b010203", (12,), "")):
        mac.append(("written as " + label, chars(groups, sep, X), six))
    for label, groups, sep in (("a digit short", (11,), ""), ("a digit long", (13,), ""), ("with a part of three digits", (2, 2, 2, 2, 2, 3), ":"), ("with a part of five digits", (6, 5), ":"),
                               ("with a part too long", (7, 6), "-"), ("without a part", (2,) * 5, ":"), ("with seven parts", (2,) * 7, ":"), ("with an uneven part", (4, 3, 4), "."),
                               ("with an empty part", (2, 2, 0, 2, 2, 2), ":")):
        mac.append(("written " + label, chars(groups, sep, X), "ValueError"))
    bs = [("B", P("b%d" % i)) for i in range(6)]
    parts = []
    for i in range(6):
        parts += [("fmt", "%02x", P("b%d" % i)), C(":")]
    r[OIDS["MACADDROID"]] = (mac, [("an address", W(*bs), ("cat", tuple(parts[:-1]))), ("an address too short", W(*bs[:5]), "ValueError"), ("an address too long", W(*(bs + [("B", P("b6"))])), "ValueError")],
                             {**hexes, **{P("b%d" % i): (0, 255) for i in range(7)}})
    # the others
    r[OIDS["UUIDOID"]] = ([("a uuid", ("uuid", W(RAW("x", 16))), W(RAW("x", 16)))], [("a uuid", W(RAW("x", 16)), ("uuid", W(RAW("x", 16))))])
    r[OIDS["JSONBOID"]] = ([("a document", ("text", "j", 5), W(("bytes", b"\x01"), RAW("j", 5)))],
                           [("a document", W(("bytes", b"\x01"), RAW("j", 5)), ("text", "j", 5)), ("another version", W(("bytes", b"\x02"), RAW("j", 5)), "ValueError")])
    return r


class Io(Types):
    """with the text conversions of the connection: text x is the raw bytes x"""

    def types_call(self, eng, node, f, args, kw, st, fr):
        recv, name = callee(f)
        if recv == P("typio") and name in ("encode", "decode") and len(args) == 1:
            x = args[0]
            if name == "encode" and x[0] == "text":
                return [Out("v", st, W(RAW(x[1], x[2])))]
            a = self.atoms(x)
            if name == "decode" and a is not None:
                if not a:
                    return [Out("v", st, ("text", "", 0))]
                if len(a) == 1 and a[0][0] == "raw":
                    return [Out("v", st, ("text", a[0][1], a[0][2]))]
            return [Out("v", st, ("misread", name, show(x)))]
        return super().types_call(eng, node, f, args, kw, st, fr)

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] == "==" and {t[2][0], t[3][0]} == {"text"}:
            return t[2] == t[3]
        if t[0] == "text":
            return t[2] > 0
        c = eng.cls_of(t) if t[0] in ("g", "obj", "ret", "call") else None
        if c is None and t[0] == "ret" and t[2] == G("builtins.object.__new__") and t[3] and t[3][0][0] == "g":
            c = eng.prog.class_by_dotted(t[3][0][1])
        if c is not None:
            # what the class says of its objects' truth
            for name in ("__bool__", "__len__"):
                m = eng.prog.find_method(c, name)
                if m is not None:
                    node = ast.parse("0").body[0].value
                    outs = eng.call_func(node, m, [t], (), st, eng.frame0)
                    rs = {eng.truth(o.val, o.st) if o.kind == "v" else None for o in outs}
                    return rs.pop() if len(rs) == 1 else None
            return True
        return super().decide(eng, t, st)


def numerics():
    """digits, exponent: a digit is a symbol (not zero for the first and the last one), or a zero"""
    seen = set()
    for n in range(1, 10):
        for e in range(-10, 8):
            # zeros at the end, and a zero in front of what follows the point
            for tail in range(0, min(n, 6)):
                if tail and e >= 0 and tail > 1:
                    continue
                ds = tuple("x%d" % i for i in range(n - tail)) + ("0",) * tail
                if (ds, e) not in seen:
                    seen.add((ds, e))
                    yield ds, e
    for e in range(-9, 6):
        yield ("0",), e


def numeric_wire(ds, e):
    """digits, exponent -> (weight, base 10000 digits as forms, dscale); no zero digits at the ends"""
    last = max([i for i, d in enumerate(ds) if d != "0"], default=0)
    ranges = {("digit", d): (1 if i in (0, last) else 0, 9) for i, d in enumerate(ds) if d != "0"}
    val = {}
    for i, d in enumerate(ds):
        val[e + len(ds) - 1 - i] = d
    cells = {}
    for pos, d in val.items():
        if d != "0":
            q, r = divmod(pos, 4)
            cells[q] = lin.add(cells.get(q, lin.const(0)), lin.atom(("digit", d)), 10 ** r)
    return cells, max(0, -e), ranges


def numeric(ck, p, mods, entry, deep):
    """every digit sequence and exponent up to a bound; the fields are compared by the value they stand for"""
    bad = {}
    for ds, e in numerics():
        if not deep and len(ds) > 6 and e % 3:
            continue
        cells, dscale, ranges = numeric_wire(ds, e)
        digits = ("tuple",) + tuple(C(0) if d == "0" else ("digit", d) for d in ds)
        for sign in (0, 1):
            t = Typed(ck, p, mods, ranges)
            pair, st = find_pair(t, entry, OIDS["NUMERICOID"], True)
            x = ("decimal", C(sign), digits, C(e))
            form = "%s%sE%d" % ("-" if sign else "", "".join("0" if d == "0" else "d" for d in ds), e)
            got = t.call(pair[0], [x], st)
            why = numeric_is(t, got, cells, dscale, sign)
            if why:
                bad.setdefault(("written", where(t, p, pair[0])), []).append((form, why))
            # as the server sends it: no zero groups at the ends
            lo, hi = (min(cells), max(cells)) if cells else (0, -1)
            w = W(("h", C(hi - lo + 1 if cells else 0)), ("h", C(hi if cells else 0)), ("h", C(16384 * sign if cells else 0)), ("h", C(dscale)), *[("h", N(cells.get(q, lin.const(0)))) for q in range(hi, lo - 1, -1)])
            t = Typed(ck, p, mods, ranges)
            pair, st = find_pair(t, entry, OIDS["NUMERICOID"], True)
            got = t.call(pair[1], [t.rule.wire([(a, b) for a, b in w[1]])], st)
            v = lin.const(0)
            for q, c in cells.items():
                v = lin.add(v, c, Fraction(10000) ** q)
            want = {("v", ("decimal", sign if cells else 0, t.rule.L(v), -dscale))}
            if got != want and e <= 0 or e > 0 and got != {("v", ("decimal", sign if cells else 0, t.rule.L(v), 0))}:
                bad.setdefault(("read", where(t, p, pair[1])), []).append((form, "%s instead of %s" % (results(got), results(want))))
    for way in ("written", "read"):
        e = [(k, v) for k, v in bad.items() if k[0] == way]
        ck.judge(not e, "layout", "numeric: digits, exponent and sign are %s as PostgreSQL has them" % way, e[0][0][1] if e and e[0][0][1] else "postgresql/types/io/stdlib_decimal.py",
                 "" if not e else "%s: %s (%d more)" % (e[0][1][0][0], e[0][1][0][1], len(e[0][1]) - 1))
    nan = W(("bytes", b"\0\0\0\0\xc0\0\0\0"))
    for label, x, want in (("NaN", ("decimal", C(0), ("tuple",), C("n")), C(nan[1][0][1])), ("sNaN", ("decimal", C(0), ("tuple",), C("N")), C(nan[1][0][1])),
                           ("Infinity", ("decimal", C(0), ("tuple", C(0)), C("F")), ["ValueError", C(b"\0\0\0\0\xd0\0\0\0"), C(b"\0\0\0\0\xd0\0\0\x20")]),
                           ("-Infinity", ("decimal", C(1), ("tuple", C(0)), C("F")), ["ValueError", C(b"\0\0\0\0\xf0\0\0\0"), C(b"\0\0\0\0\xf0\0\0\x20")])):
        t = Typed(ck, p, mods)
        pair, st = find_pair(t, entry, OIDS["NUMERICOID"], True)
        got = t.call(pair[0], [x], st)
        ok = any(got == ({("raise", y)} if isinstance(y, str) else {("v", y)}) for y in (want if isinstance(want, list) else [want]))
        ck.judge(ok, "layout", "numeric: %s is written as PostgreSQL has it, or refused" % label, where(t, p, pair[0]) or "postgresql/types/io/stdlib_decimal.py", "" if ok else results(got))
    for label, sign in (("NaN", 0xC000), ("Infinity", 0xD000), ("-Infinity", 0xF000)):
        t = Typed(ck, p, mods)
        pair, st = find_pair(t, entry, OIDS["NUMERICOID"], True)
        for scale in (0, 0x20):
            got = t.call(pair[1], [C(b"\0\0\0\0" + sign.to_bytes(2, "big") + scale.to_bytes(2, "big"))], st)
            ck.judge(got == {("v", ("special", label))}, "layout", "numeric: %s is read" % label, where(t, p, pair[1]) or "postgresql/types/io/stdlib_decimal.py", results(got))


def numeric_is(t, got, cells, dscale, sign):
    """why the wire is not this number"""
    if len(got) != 1:
        return results(got)
    k, w = next(iter(got))
    if k != "v":
        return "raises " + w
    head = t.rule.read("!hhhh", w)
    if not isinstance(head, list) or not all(map(is_const, head)):
        return results(got)
    n, weight, s, sc = [x[2] for x in head]
    body = t.rule.read("!8x%dh" % n, w) if n >= 0 else None
    atoms = t.rule.atoms(w)
    if not isinstance(body, list) or sum(map(t.rule.size, atoms)) != 8 + 2 * n:
        return "%d digits announced: %s" % (n, results(got))
    v, x = lin.const(0), lin.const(0)
    for i, b in enumerate(body):
        f = t.rule.num(b)
        if f is None or not (0 <= t.rule.lin.rng(f)[0] and t.rule.lin.rng(f)[1] <= 9999):
            return "a digit is %s" % show_value(b)
        v = lin.add(v, f, Fraction(10000) ** (weight - i))
    for q, c in cells.items():
        x = lin.add(x, c, Fraction(10000) ** q)
    if v != x:
        return "%s stands for another number" % results(got)
    if sc != dscale:
        return "scale %d instead of %d" % (sc, dscale)
    if s != (16384 if sign else 0):
        return "sign %d" % s


# ------------------------------------------------------------ bits, hstore, arrays, records


def bits(ck, p, mods, entries):
    for oid in (OIDS["BITOID"], OIDS["VARBITOID"]):
        if oid not in entries:
            continue
        cases = [(n, None) for n in (0, 2, 3, 7, 8, 9, 16, 17)] + [(1, b"\x80"), (1, b"\x00")]
        for n, data in cases:
            k = (n + 7) // 8
            w = W(("bytes", n.to_bytes(4, "big")), *([("bytes", data)] if data else [RAW("b", k)] if k else []))
            t = Typed(ck, p, mods, None, (), Io)
            pair, st = find_pair(t, entries[oid][0], oid, True)
            outs = t.eng.call(t.node(), pair[1], [t.rule.wire(w[1])], (), st or State(ts=()), t.fr)
            label = "%s: %d bits%s" % (NAME[oid], n, "" if data is None else " %s" % data.hex())
            ok, got = len(outs) == 1 and outs[0].kind == "v", set()
            if ok:
                o = outs[0]
                f = lambda a: t.eng.load_attr(t.node(), o.val, a, o.st, t.fr)[0].val
                ok = t.rule.canon(t.eng, f("bits"), o.st) == C(n) and t.rule.canon(t.eng, f("data"), o.st) == t.rule.canon(t.eng, t.rule.wire(w[1][1:] if len(w[1]) > 1 else ()) if not data else C(data), o.st)
                got = {("v", ("tuple", f("bits"), f("data")))}
                back = t.call(pair[0], [o.val], o.st)
                ck.judge(back == {("v", t.rule.wire(w[1]))}, "layout", "%s, as read, are written as PostgreSQL has them" % label, where(t, p, pair[0]) or "postgresql/types/io/pg_bitwise.py", results(back))
            ck.judge(ok, "layout", "%s are read with their number and content" % label, where(t, p, pair[1]) or "postgresql/types/io/pg_bitwise.py", results(got) if got else "%d outcomes" % len(outs))


def hstore(ck, p, mods, entries):
    if "contrib_hstore" not in entries:
        return
    entry = entries["contrib_hstore"][0]
    for n in range(0, 4):
        for nulls in itertools.product((False, True), repeat=n):
            t = Typed(ck, p, mods, None, (), Io)
            pair, st = find_pair(t, entry, "contrib_hstore", True)
            st = st or State(ts=())
            items, w = [], [("bytes", n.to_bytes(4, "big"))]
            for i in range(n):
                k, v = ("text", "k%d" % i, 2 + i), NONE if nulls[i] else ("text", "v%d" % i, 4 * i + 1) if i != 1 else ("text", "", 0)
                items.append((k, v))
                w += [("bytes", (2 + i).to_bytes(4, "big")), RAW("k%d" % i, 2 + i)]
                w += [("bytes", b"\xff" * 4)] if nulls[i] else [("bytes", v[2].to_bytes(4, "big"))] + ([RAW("v%d" % i, v[2])] if v[2] else [])
            d = t.eng.alloc("dict", t.node(), t.fr, st)
            st2 = st.hset((d, "$items"), ("D", tuple(items)))
            what = "hstore: %d pairs%s" % (n, ", null values " + ", ".join(str(i) for i in range(n) if nulls[i]) if any(nulls) else "")
            got = t.call(pair[0], [d], st2)
            ck.judge(got == {("v", t.rule.wire(w))}, "layout", what + " are written as PostgreSQL has them", where(t, p, pair[0]) or "postgresql/types/io/contrib_hstore.py", results(got))
            got = t.call(pair[1], [t.rule.wire(w)], st)
            want = {("v", ("mapping",) + tuple(items))}
            ck.judge(got == want, "layout", what + " are read as PostgreSQL has them", where(t, p, pair[1]) or "postgresql/types/io/contrib_hstore.py", results(got))


class Elements(Io):
    """element routines stand for themselves: pack(value n) is the raw bytes n, unpack gives the value back"""

    def types_call(self, eng, node, f, args, kw, st, fr):
        if f[0] == "p" and f[1].startswith("$pack") and len(args) == 1:
            x = args[0]
            return [Out("v", st, W(RAW(f[1][5:] + x[1], x[2])) if x[0] == "value" and x[2] else C(b"") if x[0] == "value" else ("misread", f[1], show(x)))]
        if f[0] == "p" and f[1].startswith("$unpack") and len(args) == 1:
            a = self.atoms(args[0])
            if a is not None and (not a or len(a) == 1 and a[0][0] == "raw" and a[0][1].startswith(f[1][7:])):
                return [Out("v", st, ("value", a[0][1][len(f[1][7:]):], a[0][2]) if a else ("value", "e", 0))]
            return [Out("v", st, ("misread", f[1], show(args[0])))]
        recv, name = callee(f)
        if f[0] == "g" and f[1] in ("postgresql.port.optimized.process_tuple", "postgresql.python.functools.process_tuple") and len(args) == 3:
            procs, s = self.items_of(eng, args[0], st)
            vals = self.items_of(eng, args[1], s)
            if vals is None:
                return None
            if len(procs) != len(vals[0]):
                return self.raises(eng, "TypeError", node, st)
            cur, outs = [(vals[1], ())], []
            for g, v in zip(procs, vals[0]):
                nx = []
                for s, got in cur:
                    for o in ([Out("v", s, NONE)] if v == NONE else eng.call(node, g, [v], (), s, fr)):
                        (nx.append((o.st, got + (o.val,))) if o.kind == "v" else outs.append(o))
                cur = nx
            return [Out("v", s, ("tuple",) + got) for s, got in cur] + outs
        return super().types_call(eng, node, f, args, kw, st, fr)

    def type_name(self, eng, t):
        return "builtins.object" if t[0] == "value" else "builtins.NoneType" if t == NONE else super().type_name(eng, t)

    def decide(self, eng, t, st):
        if t[0] == "cmp" and NONE in t[2:] and ("value" in (t[2][0], t[3][0])):
            return False
        if t[0] == "value":
            return None
        if t[0] == "p" and t[1][:6] in ("$pack", "$unpac"):
            return True
        return super().decide(eng, t, st)


def driver(ck, p, mods, deep):
    """arrays and records, with element routines that stand for themselves"""
    mods = mods + ("postgresql.driver.pq3",)
    cls = p.cls("postgresql.driver.pq3:TypeIO")
    fac = p.find_method(cls, "array_io_factory")
    rec = p.find_method(cls, "record_io_factory")
    anon = p.find_method(cls, "anon_record_io_factory")
    if fac is None or rec is None or anon is None:
        raise AnalysisBroken("P14: the factories of TypeIO are not found")
    for f in (fac, rec, anon):
        ck.func(f)
    me = ("obj", "inst:" + cls.full, ("self",), 0)
    be = lambda n: (n & 0xFFFFFFFF).to_bytes(4, "big")
    shapes = [()] + [(n,) for n in range(1, 4)] + [(2, 1), (1, 3), (2, 2)] + ([(2, 2, 2), (3, 1, 2), (1, 1, 1, 2)] if deep else [(2, 1, 2)])
    nodes = lambda t: t.node()

    def value(i, null):
        return NONE if i in null else ("value", "e%d" % i if (5 * i) % 7 else "e", (5 * i) % 7)

    def nested(t, dims, base, null, st):
        if not dims:
            return value(base, null), st
        step = 1
        for x in dims[1:]:
            step *= x
        items = []
        for i in range(dims[0]):
            x, st = nested(t, dims[1:], base + i * step, null, st)
            items.append(x)
        ob = t.eng.alloc("list", t.node(), t.fr, st)
        return ob, st.hset((ob, "$items"), ("L", tuple(items)))

    for dims in shapes:
        total = 1
        for x in dims:
            total *= x
        total = total if dims else 0
        for null in [()] + [(i,) for i in range(total)] + ([tuple(range(total))] if total > 1 else []):
            t = Typed(ck, p, mods, None, (), Elements)
            outs = t.eng.call_func(t.node(), fac, [me, P("pack"), P("unpack"), C(23), C(True), C(True)], (), State(ts=()), t.fr)
            it = t.eng.exact_items(outs[0].val, outs[0].st) if len(outs) == 1 and outs[0].kind == "v" else None
            if it is None or len(it) < 2:
                ck.judge(False, "array", "the factory of arrays gives a packer and an unpacker", fac.loc(), show(outs[0].val)[:100] if outs else "nothing")
                return
            st = outs[0].st
            els = []
            for i in range(total):
                v = value(i, null)
                els += [("bytes", b"\xff" * 4)] if v == NONE else [("bytes", be(v[2]))] + ([RAW(v[1], v[2])] if v[2] else [])
            what = "an array of dimensions %s%s" % (list(dims), ", nulls at %s" % ", ".join(map(str, null)) if null else "")
            for flags in ((0,) if not null else (1,)):
                for low in ((1, 1, 1, 1), (2, -1, 0, 5)):
                    heads = [("bytes", be(len(dims)) + be(flags) + be(23) + b"".join(be(d) + be(l) for d, l in zip(dims, low)))]
                    o = t.eng.call(t.node(), it[1], [t.rule.wire(heads + els)], (), st, t.fr)
                    ok = len(o) == 1 and o[0].kind == "v" and o[0].val[0] == "obj"
                    got = None
                    if ok:
                        g = lambda a: t.rule.canon(t.eng, o[0].st.heap.get((o[0].val, a)) or NONE, o[0].st)
                        got = (g("_elements"), g("dimensions"), g("lowerbounds"))
                        want = (("tuple",) + tuple(value(i, null) for i in range(total)), ("tuple",) + tuple(C(d) for d in dims), ("tuple",) + tuple(C(l) for l in low[:len(dims)]))
                        ok = got == want
                    ck.judge(ok, "array", "%s, lower bounds %s, is read with its elements, dimensions and bounds" % (what, list(low[:len(dims)])), fac.loc(),
                             "" if ok else "gives %s" % (" / ".join(map(show_value, got)) if got else "; ".join(show(x.val)[:120] for x in o)))
                    if ok:
                        back = t.call(it[0], [o[0].val], o[0].st)
                        alts = [t.rule.wire([("bytes", be(len(dims)) + be(fl) + be(23) + b"".join(be(d) + be(l) for d, l in zip(dims, low)))] + els) for fl in (0, flags)]
                        ck.judge(back in [{("v", a)} for a in alts], "array", "%s, lower bounds %s, as read, is written as PostgreSQL has it" % (what, list(low[:len(dims)])), fac.loc(),
                                 "" if back in [{("v", a)} for a in alts] else results(back))
            x, s = nested(t, dims, 0, null, st) if dims else (None, st)
            if x is None:
                x = t.eng.alloc("list", t.node(), t.fr, st)
                s = st.hset((x, "$items"), ("L", ()))
            back = t.call(it[0], [x], s)
            alts = [t.rule.wire([("bytes", be(len(dims)) + be(fl) + be(23) + b"".join(be(d) + be(1) for d in dims))] + els) for fl in (0, 1)]
            ck.judge(back in [{("v", a)} for a in alts], "array", "nested lists as %s are written as PostgreSQL has it" % what, fac.loc(), results(back))
    # records: the attributes in their order, each with the type and routine of its column
    for n in range(0, 4):
        for null in [()] + [(i,) for i in range(n)] + ([tuple(range(n))] if n > 1 else []):
            t = Typed(ck, p, mods, None, (), Elements)
            st = State(ts=())
            seq = lambda xs: ("tuple",) + tuple(xs)
            att = ["c%d" % ((i * 2 + 1) % 5) for i in range(n)]
            amap = t.eng.alloc("dict", t.node(), t.fr, st)
            # the attributes are put in in another order
            st = st.hset((amap, "$items"), ("D", tuple((C(att[i]), C(i)) for i in sorted(range(n), key=lambda i: att[i]))))
            cio = seq(seq([P("pack%d:" % i), P("unpack%d:" % i)]) for i in range(n))
            outs = t.eng.call_func(t.node(), rec, [me, cio, seq(C(100 + i) for i in range(n)), amap, seq(C("t%d" % i) for i in range(n)), seq(map(C, att)), C(9), C("c")], (), st, t.fr)
            it = t.eng.exact_items(outs[0].val, outs[0].st) if len(outs) == 1 and outs[0].kind == "v" else None
            if it is None or len(it) < 3:
                ck.judge(False, "record", "the factory of records gives a packer, an unpacker and a type", rec.loc(), show(outs[0].val)[:100] if outs else "nothing")
                return
            st = outs[0].st
            vals = [NONE if i in null else ("value", "e%d" % i, 3 * i + 1) if i != 1 else ("value", "e", 0) for i in range(n)]
            w = [("bytes", be(n))]
            for i, v in enumerate(vals):
                w += [("bytes", be(100 + i))] + ([("bytes", b"\xff" * 4)] if v == NONE else [("bytes", be(v[2]))] + ([RAW("%d:%s" % (i, v[1]), v[2])] if v[2] else []))
            wire = t.rule.wire(w)
            what = "a record of %d attributes%s" % (n, ", nulls at %s" % ", ".join(map(str, null)) if null else "")
            got = t.call(it[0], [seq(vals)], st)
            ck.judge(got == {("v", wire)}, "record", what + " is written as PostgreSQL has it", rec.loc(), results(got))
            d = t.eng.alloc("dict", t.node(), t.fr, st)
            s = st.hset((d, "$items"), ("D", tuple((C(att[i]), vals[i]) for i in range(n) if i not in null)))
            got = t.call(it[0], [d], s)
            ck.judge(got == {("v", wire)}, "record", what + ", given by names, is written as PostgreSQL has it", rec.loc(), results(got))
            got = t.call(it[1], [wire], st)
            ok = len(got) == 1 and next(iter(got)) == ("v", t.rule.canon(t.eng, seq(vals), st))
            ck.judge(ok, "record", what + " is read with its values in order", rec.loc(), results(got))
            # anonymous: by the types in the data
            t = Typed(ck, p, mods, None, (), Resolve)
            outs = t.eng.call_func(t.node(), anon, [me], (), State(ts=()), t.fr)
            it = t.eng.exact_items(outs[0].val, outs[0].st) if len(outs) == 1 and outs[0].kind == "v" else None
            ck.judge(it is not None and len(it) > 2, "record", "anonymous records have an unpacker and a type", anon.loc(), "asking for the types of a statement fails")
            if it is None or len(it) < 2:
                continue
            got = t.call(it[1], [wire], outs[0].st)
            ok = len(got) == 1 and next(iter(got)) == ("v", t.rule.canon(t.eng, seq(vals), st))
            ck.judge(ok, "record", what + ", anonymous, is read with its values in order", anon.loc(), results(got))


class Resolve(Elements):
    """the routines of OID 100 + i are pack i, unpack i"""

    def types_call(self, eng, node, f, args, kw, st, fr):
        recv, name = callee(f)
        if name == "resolve" and len(args) >= 1 or f[0] == "bm" and f[2].endswith(".resolve") and args:
            n = self.small(args[-1])
            if n is not None:
                return [Out("v", st, ("tuple", P("pack%d:" % (n - 100)), P("unpack%d:" % (n - 100)), G("builtins.object")))]
        return super().types_call(eng, node, f, args, kw, st, fr)


def chars(groups, sep, X):
    out, i = [], 0
    for k, g in enumerate(groups):
        if k:
            out.append(C(sep))
        for _ in range(g):
            out.append(X(i % 12))
            i += 1
    return ("chars", tuple(out))


def where(t, p, f):
    """the source of a routine"""
    fn = None
    if f[0] == "bm":
        fn = p.func_by_dotted(f[2])
    elif f[0] == "g":
        fn = p.func_by_dotted(f[1])
    elif f[0] == "fn":
        c = t.eng.closures.get(f[1:]) or t.eng.mclosures.get(f[1:])
        fn = c[0] if c else None
    elif f[0] == "comp":
        for x in f[1:]:
            w = where(t, p, x)
            if w and "stdlib" in w or w and "pg_" in w:
                return w
        return where(t, p, f[1]) if len(f) > 1 else None
    if fn is not None:
        t.ck.func(fn)
    return fn.loc(fn.node) if fn is not None else None


def layouts(ck, p, mods, entries):
    done = set()
    for ints in (True, False):
        table = plans(ints)
        for o, (entry, mod) in sorted(entries.items(), key=str):
            if o not in table:
                continue
            timed = o in (OIDS["TIMEOID"], OIDS["TIMETZOID"], OIDS["TIMESTAMPOID"], OIDS["TIMESTAMPTZOID"], OIDS["INTERVALOID"])
            if not ints and not timed:
                continue
            pl = table[o]
            ranges, order = (pl[2] if len(pl) > 2 else None), (pl[3] if len(pl) > 3 else ())
            t = Typed(ck, p, mods, ranges, order, Io)
            pair, st = find_pair(t, entry, o, ints)
            label = NAME[o] + ("" if not timed else " (integer times)" if ints else " (floating times)")
            if pair is None:
                ck.judge(False, "layout", "%s: its entry gives a packer and an unpacker" % label, "postgresql/types/io/%s.py" % mod, show(entry)[:120])
                continue
            ck.judge(len(pair) > 2, "layout", "%s: the Python type of its values is given" % label, "postgresql/types/io/%s.py" % mod, "" if len(pair) > 2 else "asking for the types of a statement fails")
            for way, f, cases in (("written", pair[0], pl[0]), ("read", pair[1], pl[1])):
                for name, x, want in cases:
                    got = t.call(f, [x], st)
                    w = [{("raise", x)} if isinstance(x, str) else {("v", t.rule.canon(t.eng, x, State(ts=())))} for x in (want if isinstance(want, list) else [want])]
                    ok, w = got in w, w[0]
                    ck.judge(ok, "layout", "%s: %s is %s as PostgreSQL has it" % (label, name, way), where(t, p, f) or "postgresql/types/io/%s.py" % mod, "" if ok else "%s instead of %s" % (results(got), results(w)))
            done.add(o)
    return done


def find_pair(t, entry, o, ints):
    """(pack, unpack, type) terms of an entry"""
    it = t.eng.exact_items(entry, State(ts=())) if entry[0] == "tuple" else None
    if it is not None:
        return list(it), None
    st = State(ts=())
    db = ("obj", "db", 1, 0)
    tio = P("typio")
    st = st.hset((tio, "database"), db).hset((db, "version_info"), ("tuple", C(16), C(0), C(0)) if ints else ("tuple", C(9), C(3), C(0)))
    sett = t.eng.alloc("dict", t.node(), t.fr, st)
    st = st.hset((sett, "$items"), ("D", ((C("integer_datetimes"), C("on" if ints else "off")),))).hset((db, "settings"), sett)
    outs = t.eng.call(t.node(), entry, [C(o), tio], (), st, t.fr)
    if len(outs) == 1 and outs[0].kind == "v":
        it = t.eng.exact_items(outs[0].val, outs[0].st)
        if it is not None:
            return list(it), outs[0].st
    return None, None


def run(ck, p):
    mods = tuple(m for m in p.modules if m.startswith("postgresql.types") or m in ("postgresql.python.functools", "postgresql.python.structlib", "postgresql.python.datetime", "postgresql.python.itertools"))
    ck.rule("registry", "every OID constant is the catalog's; every type listed for a module has its entry there, and every entry is listed")
    ck.rule("array", "an array is read with its elements, dimensions and lower bounds, and written with them; NULL elements have the marker")
    ck.rule("record", "a record has each attribute with the type and routine of its column, in the order of the columns; NULL attributes have the marker")
    ck.rule("layout", "the packer of a type makes the fields of PostgreSQL's format from the value, the unpacker gives the value of the fields; the Python type is given")
    ck.assumptions += [
        "the formats are those of PostgreSQL's send and receive functions; a double holds every microsecond of a time it is used for to within rounding",
        "datetime, decimal, ipaddress and uuid objects are the quantities they stand for; text is the raw bytes of its encoding (P30)",
    ]
    t, entries = registry(ck, p, mods)
    done = layouts(ck, p, mods, entries)
    if OIDS["NUMERICOID"] in entries:
        numeric(ck, p, mods, entries[OIDS["NUMERICOID"]][0], ck.tier == "thorough")
        done.add(OIDS["NUMERICOID"])
    bits(ck, p, mods, entries)
    hstore(ck, p, mods, entries)
    driver(ck, p, mods, ck.tier == "thorough")
    ck.count("types", len(done))
    ck.at_least("types", 25, "types with a plan")
    ck.at_least("calls", 100, "calls of routines interpreted")
