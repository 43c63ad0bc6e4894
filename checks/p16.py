"""P16: the C twins and the Python originals compute the same thing.

The functions of the extension are followed over numbers known by their range, octets known by their place and objects known by
identity; what they give, refuse and call is compared with what the Python originals define, those with the same."""
import re
from sa.rules import *
from sa.cdrive import *
from sa.program import REPO
import checks.p15 as p15

OUT = "postgresql/port/_optimized/%s:%d"


class Path:
    def __init__(self, c, got, err):
        self.m, self.got, self.err, self.ranges, self.calls = c.m, got, err, dict(c.m.ranges), list(c.m.calls)


def follow(tree, use):
    """the outcomes of a use, one for each path; what breaks the rules of memory is P15's"""
    out = []

    def one(c):
        got = use(c)
        out.append(Path(c, got, c.m.err and c.m.err[0]))
        c.m.clear()

    def bad(rule, msg, at, story):
        out.append(Path(Call(Api(tree)), None, "%s (%s:%d)" % ((msg,) + at)))
    paths(tree, one, False, bad)
    return out


def plain(m, o):
    """what an object is, octets and items by what they are"""
    if o is None or isinstance(o, (int, str)):
        return o
    if o is m.none:
        return "None"
    if o.kind in ("bytes", "view"):
        return ("bytes", tuple(m.atoms_of(o))) if o.mem.size < 1 << 16 else ("bytes of", o.mem.size, tuple(o.mem.data.get(i, o.mem.fill) for i in range(16)))
    if o.items is not None:
        return (o.kind,) + tuple(plain(m, x) for x in o.items)
    if o.kind == "int":
        return ("int", o.value)
    return o.name


def text(x):
    if isinstance(x, tuple) and x[:1] == ("bytes",):
        return "bytes " + " ".join("%02x" % a if isinstance(a, int) else str(a[1]) if isinstance(a, tuple) and len(a) > 1 else str(a) for a in x[1])
    if isinstance(x, tuple):
        return "(" + ", ".join(map(text, x)) + ")"
    return str(x)


# ------------------------------------------------------------------ numbers
def numbers(ck, tree, funcs):
    seen = 0
    for name, f in sorted(funcs.items()):
        m = re.match(r"(swap_)?(u?)int(2|4|8)_(pack|unpack)$", name)
        if m is None:
            continue
        seen += 1
        swap, unsigned, size, what = m.group(1), bool(m.group(2)), int(m.group(3)), m.group(4)
        at = OUT % tree.funcs[f]["at"]
        order = list(range(size))[::-1] if swap else list(range(size))
        lo, hi = (0, (1 << 8 * size) - 1) if unsigned else (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1)
        if what == "pack":
            def use(c):
                c.m.ranges["v"] = (None, None)
                return c(f, 0, c.hold(c.m.ob("int", "int", value=("sym", "v"))))
            for v in sorted({lo - 1, lo, lo + 1, -1, 0, 1, 0x80, 0x1234, hi - 1, hi, hi + 1, 1 << 70, -(1 << 70)}):
                ps = follow(tree, lambda c: c(f, 0, c.int(v)))
                want = ("bytes", tuple((v & ((1 << 8 * size) - 1)).to_bytes(size, "big" if swap else "little"))) if lo <= v <= hi else None
                got = [plain(x.m, x.got) if x.got is not None else x.err for x in ps]
                ck.judge(len(got) == 1 and (got[0] == want if want else ps[0].got is None), "range", "%s of %s" % (name, "%d" % v), at, "gives %s, not %s" % (text(got[0]), text(want) if want else "a refusal"))
            ps = follow(tree, use)
            took, err = [], None
            for x in ps:
                if x.got is None:
                    continue
                r = x.ranges["v"]
                took.append(r)
                g = plain(x.m, x.got)
                if g != ("bytes", tuple(("v", i) for i in order)):
                    err = err or g
            took.sort(key=str)
            ck.judge(err is None, "order", name, at, "the number is given as %s" % text(err))
            same = took and min(r[0] for r in took) == lo and max(r[1] for r in took) == hi
            ck.judge(bool(same), "range", name, at, "takes numbers %s, not %d to %d" % (", ".join("%s to %s" % r for r in took) or "never", lo, hi))
        else:
            for n in (0, 1, size - 1, size, size + 1, 2 * size):
                for kind in ("bytes", "view"):
                    ps = follow(tree, lambda c: c(f, 0, getattr(c, kind)(p15.octets(n))))
                    for x in ps:
                        if n < size:
                            ck.judge(x.got is None and x.err == "ValueError", "range", "%s of %d octets (%s)" % (name, n, kind), at, "%s" % (x.err or text(plain(x.m, x.got))))
                        else:
                            v = x.got.value if x.got is not None and x.got.kind == "int" else None
                            ok = isinstance(v, tuple) and v[0] == "lanes" and reach(v, [("o", "d%d" % i) for i in (range(size) if not swap else range(size)[::-1])], not unsigned)
                            ck.judge(ok, "order", "%s of %d octets (%s)" % (name, n, kind), at, "%s" % (x.err or v,))
    ck.count("number functions", seen)


def reach(v, lanes, signed):
    """lanes of a number: these octets from the least, then its sign or zeros"""
    a = list(v[1])
    if a[:len(lanes)] != lanes:
        return False
    rest = a[len(lanes):]
    top = lanes[-1]
    if not rest:
        return v[2] == signed
    return all(x == (("ext", top) if signed else 0) for x in rest)


# ------------------------------------------------------------------ rows
def W(n):
    return list(n.to_bytes(4, "big"))


def row_spec(d):
    """what the octets of a row mean: items, or None when they are refused"""
    if len(d) < 2:
        return None
    n, d = d[0] * 256 + d[1], d[2:]
    out = []
    for _ in range(n):
        if len(d) < 4:
            return None
        size, d = int.from_bytes(bytes(d[:4]), "big"), d[4:]
        if size == 0xFFFFFFFF:
            out.append("None")
            continue
        if size > len(d):
            return None
        out.append(("bytes", tuple(d[:size])))
        d = d[size:]
    return None if d else ("tuple",) + tuple(out)


def rows():
    O = p15.octets
    N = [255] * 4
    return {"nothing": [], "one octet": [0], "no attributes": [0, 0], "no attributes and more": [0, 0, 1], "a null": [0, 1] + N, "two nulls": [0, 2] + N + N, "an attribute": [0, 1] + W(3) + O(3), "an empty attribute": [0, 1] + W(0),
            "three": [0, 3] + W(2) + O(2) + N + W(1) + O(1, "e"), "a null first": [0, 2] + N + W(2) + O(2), "a short size": [0, 1, 0, 0, 0], "no size": [0, 1], "a short attribute": [0, 1] + W(3) + O(2), "more than the attributes": [0, 1] + W(1) + O(2),
            "a missing attribute": [0, 2] + W(1) + O(1), "a size of -2": [0, 1] + W(0xFFFFFFFE), "a size of half": [0, 1] + W(0x80000000), "300 nulls": [1, 44] + N * 300, "an attribute of 300": [0, 1] + W(300) + O(300), "almost null": [0, 1, 255, 255, 255, 254]}


def parsing(ck, tree, funcs):
    f = funcs["parse_tuple_message"]
    at = OUT % tree.funcs[f]["at"]
    for k, d in rows().items():
        want = row_spec(d)
        for kind in ("bytes", "view"):
            for x in follow(tree, lambda c: c(f, 0, getattr(c, kind)(d))):
                g = plain(x.m, x.got)
                ck.judge(g == want if want is not None else x.got is None and x.err == "ValueError", "row", "parse_tuple_message of %s (%s)" % (k, kind), at, "gives %s, not %s" % (x.err or text(g)[:80], text(want)[:80] if want else "a ValueError"))
    f = funcs["consume_tuple_messages"]
    at = OUT % tree.funcs[f]["at"]
    R = rows()
    seqs = {"no messages": [], "rows": [(b"D", "three"), (b"D", "a null")], "rows and the end": [(b"D", "a null"), (b"C", "nothing"), (b"D", "a null")], "another message first": [(b"Z", "one octet"), (b"D", "a null")], "a row that cannot be read": [(b"D", "a null"), (b"D", "a short size")],
            "an end before a row that cannot be read": [(b"D", "an attribute"), (b"s", "nothing"), (b"D", "a short size")], "a small letter": [(b"d", "a null")]}
    for k, s in seqs.items():
        want = ["list"]
        for t, r in s:
            if t != b"D":
                break
            w = row_spec(R[r])
            if w is None:
                want = None
                break
            want.append(w)
        for x in follow(tree, lambda c: c(f, 0, c.tuple(*[c.tuple(c.bytes(t), c.bytes(R[r])) for t, r in s]))):
            g = plain(x.m, x.got)
            ck.judge(g == tuple(want) if want is not None else x.got is None and x.err == "ValueError", "row", "consume_tuple_messages of %s" % k, at, "gives %s, not %s" % (x.err or text(g)[:80], text(tuple(want))[:80] if want else "a ValueError"))


def packed(items):
    out = []
    for n in items:
        out += [255] * 4 if n is None else W(n) + p15.octets(n, "a")
    return out


def packing(ck, tree, funcs):
    f = funcs["pack_tuple_data"]
    at = OUT % tree.funcs[f]["at"]

    def items(c, spec):
        return c.tuple(*[c.m.none if n is None else c.other() if n == "x" else c.bytes((), n) if n > 1 << 20 else c.bytes(p15.octets(n, "a")) for n in spec])
    for spec in ((), (None,), (0,), (3,), (2, None, 0, 1), (None, None), (300,), ("x",), (1, "x"), (1 << 32,), ((1 << 32) - 1,), (1, (1 << 32) + 8)):
        bad = any(n == "x" or n is not None and n > 0xFFFFFFFE for n in spec)
        for x in follow(tree, lambda c: c(f, 0, items(c, spec))):
            g = plain(x.m, x.got)
            ck.judge(x.got is None if bad else g == ("bytes", tuple(packed(spec))), "pack", "pack_tuple_data of %s" % (spec,), at, "gives %s" % (x.err or text(g)[:80]))
    f = funcs["cat_messages"]
    at = OUT % tree.funcs[f]["at"]

    def framed(s):
        if s[0] == "copy":
            return [0x64] + W(s[1] + 4) + p15.octets(s[1], "c")
        if s[0] == "row":
            b = packed(s[1:])
            return [0x44] + W(len(b) + 6) + list(len(s[1:]).to_bytes(2, "big")) + b
        return list(s[1]) + W(s[2] + 4) + p15.octets(s[2], "s")

    def use(c, spec, kind):
        c.glob("serialize_strob", c.m.ob("str", "serialize", "serialize"))
        c.glob("msgtype_strob", c.m.ob("str", "type", "type"))
        given = {}

        def behave(m, o, args):
            if o in given:
                n = given[o]
                return m.P(m.bytes((), "serialized", n) if n > 1 << 20 else m.bytes(p15.octets(n, "s"), "serialized"))
        c.m.behave = behave
        x = []
        for s in spec:
            if s[0] == "copy":
                x.append(c.bytes((), s[1]) if s[1] > 1 << 20 else c.bytes(p15.octets(s[1], "c")))
            elif s[0] == "row":
                x.append(items(c, s[1:]))
            else:
                ser = c.other("callable", "serialize")
                given[ser] = s[2]
                x.append(c.other("opaque", "message", serialize=ser, type=c.bytes(s[1])))
        return c(f, 0, (c.list if kind == "list" else c.tuple)(*x))
    specs = [(), (("copy", 3),), (("copy", 0), ("copy", 2)), (("row",),), (("row", 2, None),), (("row", 0), ("row", None, 300)), (("row",) + (None,) * 300,), (("msg", b"Q", 3),), (("msg", b"", 8),), (("msg", b"S", 0), ("msg", b"H", 0)), (("msg", b"Q", 300), ("copy", 256)),
             (("copy", 1), ("row", 1), ("msg", b"c", 0), ("copy", 2), ("copy", 0)), (("msg", b"S", 0), ("row", 1), ("row", 2, 2), ("msg", b"C", 1)), (("row", None), ("copy", 1), ("row", 0))]
    for spec in specs:
        for kind in ("list", "tuple"):
            want = ("bytes", tuple(sum((framed(s) for s in spec), [])))
            for x in follow(tree, lambda c: use(c, spec, kind)):
                g = plain(x.m, x.got)
                ck.judge(g == want, "pack", "cat_messages of a %s %s" % (kind, str(spec)[:60]), at, "gives %s, not %s" % (x.err or text(g)[:80], text(want)[:80]))
    big = 1 << 32
    for lead, make in (("copied data", lambda n: (("copy", n),)), ("a message", lambda n: (("msg", b"Q", n),)), ("a row", lambda n: (("row", n - 6),)), ("copied data after another", lambda n: (("copy", 1), ("copy", n)))):
        for n in (big - 5, big - 4, big - 1, big, big + 3, big + 4, 2 * big, 2 * big + 7):
            for x in follow(tree, lambda c: use(c, make(n), "list")):
                g = plain(x.m, x.got)
                ok = x.got is None or n <= big - 5 and len(make(n)) == 1 and isinstance(g, tuple) and g[0] == "bytes of" and list(g[2][1:5]) == W(n + 4)
                ok = ok or n <= big - 5 and len(make(n)) == 2
                ck.judge(ok, "pack", "cat_messages of %s of %d octets" % (lead, n), at, "gives %s" % text(g)[:80])
    for n in (0x10000, 0x10001):
        try:
            xs = follow(tree, lambda c: use(c, (("row",) + (None,) * n,), "list"))
        except AnalysisBroken:
            # a row that is not refused at once is copied, further than paths are followed
            xs = [None]
        for x in xs:
            ck.judge(x is not None and x.got is None, "pack", "cat_messages of a row of %d attributes" % n, at, "is not refused")


# ------------------------------------------------------------------ processing
EXPECT = {}


def processing(ck, tree, funcs):
    f4, f5, f6, f7 = (funcs[k] for k in ("process_tuple", "process_chunk", "compose", "rsetattr"))
    at4, at5, at6, at7 = (OUT % tree.funcs[f]["at"] for f in (f4, f5, f6, f7))

    def tup(c, rows_, fails, handler, whole, kind="list"):
        """rows of 1 and None; fails: {(row, item): exception}"""
        n = len(rows_[0])
        procs = [c.other("callable", "proc%d" % i) for i in range(n)]
        fail = c.other("callable", "fail")
        src = [[c.m.none if x is None else c.other("opaque", "item%d.%d" % (j, i)) for i, x in enumerate(r)] for j, r in enumerate(rows_)]
        where = {o: (j, i) for j, r in enumerate(src) for i, o in enumerate(r) if o is not c.m.none}
        log = []
        pt, ts = c.tuple(*procs), [c.tuple(*r) for r in src]

        def behave(m, o, args):
            if o in procs:
                i = procs.index(o)
                j = where.get(args[0]) if len(args) == 1 else None
                log.append(("proc", i, j))
                e = fails.get(j)
                return m.raise_(e, m.ob("exc", "cause")) if e else m.P(m.ob("opaque", "result%s.%s" % j if j else "?"))
            if o is fail:
                a = [x.name if x.kind == "exc" else "procs" if x is pt else "row%d" % ts.index(x) if x in ts else x.value if x.kind == "int" else "?" for x in args]
                log.append(("fail", tuple(a)))
                return m.raise_(handler) if handler else m.P(m.ob("opaque", "given"))
        c.m.behave = behave
        if whole:
            seq = {"list": c.list, "tuple": c.tuple, "sequence": c.tuple}[kind](*ts)
            if kind == "sequence":
                seq.kind, seq.name = "sequence", "a sequence"
            r = c(f5, 0, c.tuple(pt, seq, fail))
        else:
            r = c(f4, 0, c.tuple(pt, ts[0], fail))
        c.m.log = log
        return r

    def expect(rows_, fails, handler, whole):
        log, res = [], []
        for j, r in enumerate(rows_):
            one = []
            for i, x in enumerate(r):
                if x is None:
                    one.append("None")
                    continue
                log.append(("proc", i, (j, i)))
                e = fails.get((j, i))
                if e == "KeyboardInterrupt":
                    return log, e
                if e:
                    log.append(("fail", ("cause", "procs", "row%d" % j, i)))
                    return log, handler or "RuntimeError"
                one.append("result%d.%d" % (j, i))
            res.append(("tuple",) + tuple(one))
        return log, ("list",) + tuple(res) if whole else res[0]
    shapes = [((),), ((1,),), ((None,),), ((1, None, 1),), ((None, 1),)]
    for rows_ in shapes:
        cells = [(0, i) for i, x in enumerate(rows_[0]) if x]
        for fails in [{}] + [{k: e} for k in cells for e in ("ValueError", "KeyboardInterrupt")] + ([{cells[0]: "ValueError", cells[1]: "TypeError"}] if len(cells) > 1 else []):
            for handler in ("Custom", None) if fails else (None,):
                want = expect(rows_, fails, handler, False)
                for x in follow(tree, lambda c: tup(c, rows_, fails, handler, False)):
                    got = (getattr(x.m, "log", None), plain(x.m, x.got) if x.got is not None else x.err)
                    ck.judge(got == want, "process", "process_tuple of %s%s" % (rows_[0], " with faults %s, handler %s" % (fails, handler) if fails else ""), at4, "does %s, gives %s, not %s, %s" % (got + want))
    for kind in ("list", "tuple", "sequence"):
        for rows_ in (((1,), (None,), (1,)), ((1, 1), (1, 1))):
            for fails in ({}, {(0, 0): "ValueError"}, {(1, 0): "ValueError"} if rows_[1][0] else {(2, 0): "ValueError"}):
                want = expect(rows_, fails, "Custom", True)
                for x in follow(tree, lambda c: tup(c, rows_, fails, "Custom", True, kind)):
                    got = (getattr(x.m, "log", None), plain(x.m, x.got) if x.got is not None else x.err)
                    ck.judge(got == want, "process", "process_chunk of a %s %s%s" % (kind, rows_, " with faults %s" % fails if fails else ""), at5, "does %s, gives %s, not %s, %s" % (got + want))

    EXPECT.update(expect=expect, shapes=shapes)

    def uneven(c, n, k):
        return c(f4, 0, c.tuple(c.tuple(*[c.other("callable", "p") for _ in range(n)]), c.tuple(*[c.other() for _ in range(k)]), c.other("callable", "fail")))
    for n, k in ((0, 1), (1, 0), (2, 1), (1, 3)):
        for x in follow(tree, lambda c: uneven(c, n, k)):
            ck.judge(x.got is None and x.err == "TypeError" and not x.calls_made() if hasattr(x, "calls_made") else x.got is None and x.err == "TypeError", "process", "process_tuple of %d processors and %d items" % (n, k), at4, "gives %s" % (x.err or text(plain(x.m, x.got))))

    def comp(c, n, kind, failing):
        fs = [c.other("callable", "f%d" % i) for i in range(n)]
        log = []

        def behave(m, o, args):
            if o in fs:
                log.append((fs.index(o), tuple(a.name for a in args)))
                return m.raise_("ValueError") if fs.index(o) == failing else m.P(m.ob("opaque", "result%d" % fs.index(o)))
        c.m.behave = behave
        seq = (c.list if kind == "list" else c.tuple)(*fs)
        if kind == "sequence":
            seq.kind, seq.name = "sequence", "a sequence"
        r = c(f6, 0, c.tuple(seq, c.other("opaque", "start")))
        c.m.log = log
        return r
    for kind in ("tuple", "list", "sequence"):
        for n in (0, 1, 2, 3):
            for failing in [None] + list(range(n)):
                stop = n if failing is None else failing + 1
                want = [(i, ("start" if i == 0 else "result%d" % (i - 1),)) for i in range(stop)], "ValueError" if failing is not None else "start" if n == 0 else "result%d" % (n - 1)
                for x in follow(tree, lambda c: comp(c, n, kind, failing)):
                    got = (getattr(x.m, "log", None), plain(x.m, x.got) if x.got is not None else x.err)
                    ck.judge(got == want, "process", "compose of a %s of %d%s" % (kind, n, ", %d fails" % failing if failing is not None else ""), at6, "does %s, gives %s" % got)

    def setting(c):
        o, v = c.other("opaque", "ob"), c.other("opaque", "val")
        r = c(f7, 0, c.tuple(c.hold(c.m.ob("str", "name", "name")), v, o))
        return (r is o, o.dict.get("name") is v, len(o.dict))
    for x in follow(tree, setting):
        ck.judge(x.got == (True, True, 1), "process", "rsetattr", at7, "gives %s" % (x.err or x.got,))


# ------------------------------------------------------------------ the wire of a COPY
def wire(ck, tree):
    ops = p15.member(tree, p15.WIRE, p15.table_of(tree, p15.WIRE, "tp_methods"))
    gets = p15.member(tree, p15.WIRE, p15.table_of(tree, p15.WIRE, "tp_getset"))
    if set(gets) != {"size_fragment", "remaining_bytes", "final_view"} or set(ops) != {"update"}:
        raise AnalysisBroken("P16: the members of WireState are %s" % sorted(list(gets) + list(ops)))
    at = OUT % tree.funcs[ops["update"]]["at"]

    def spec(parts):
        """[(messages completed | error, size_fragment, remaining_bytes, final_view)]"""
        out, hold, done, final = [], [], 0, None
        for x in parts:
            if not x:
                out.append((0,) + state(hold, final))
                continue
            if final is not None:
                out.append("RuntimeError")
                return out
            buf, n = hold + x, 0
            while buf:
                if buf[0] != 0x64:
                    final, buf = buf, []
                    break
                if len(buf) < 5:
                    break
                size = int.from_bytes(bytes(buf[1:5]), "big")
                if size < 4:
                    out.append("ValueError")
                    return out
                if len(buf) < size + 1:
                    break
                buf, n = buf[size + 1:], n + 1
            hold = buf
            out.append((n,) + state(hold, final))
        return out

    def state(hold, final):
        f = "None" if final is None else ("bytes", tuple(final))
        if final is not None or not hold:
            return (("bytes", ()), 0, f)
        if len(hold) < 5:
            return (("bytes", tuple(hold[1:])), -1, f)
        return (("bytes", ()), int.from_bytes(bytes(hold[1:5]), "big") + 1 - len(hold), f)

    def use(c, parts, kind):
        w = p15.make(c, p15.WIRE)
        out = []
        for x in parts:
            r = c(ops["update"], w, getattr(c, kind)(x))
            if r is None:
                out.append(c.m.err[0])
                c.m.clear()
                break
            row = [r.value]
            for g in ("size_fragment", "remaining_bytes", "final_view"):
                v = c(gets[g], w, 0)
                v = plain(c.m, v)
                row.append(v[1] if isinstance(v, tuple) and v[0] == "int" else v)
            out.append(tuple(row))
        c.m.log = out
        return None
    H = lambda n: [0x64] + W(n)
    streams = {"two messages": H(6) + p15.octets(2) + H(4), "a message and the end": H(5) + p15.octets(1) + [0x43] + W(4), "the end": [0x5A] + W(5) + [0x49], "an empty one first": H(4) + H(4) + H(7) + p15.octets(3) + [0x63], "a length of three": H(5) + p15.octets(1) + H(3), "a length of zero": H(0), "part of a great one": H(0x7FFFFFF0) + p15.octets(3)}
    for k, s in streams.items():
        cuts = [[a] for a in range(len(s) + 1)] + [[a, b] for a in range(len(s) + 1) for b in range(a, len(s) + 1)] + [list(range(1, len(s)))]
        for cut in cuts:
            cut = [0] + cut + [len(s)]
            parts = [s[a:b] for a, b in zip(cut, cut[1:])]
            want = spec(parts)
            for kind in ("view", "bytes") if len(cut) == 3 else ("view",):
                for x in follow(tree, lambda c: use(c, parts, kind)):
                    got = getattr(x.m, "log", [x.err])
                    i = next((i for i, (a, b) in enumerate(zip(got + [None], want + [None])) if a != b), None)
                    ck.judge(i is None, "wire", "WireState over %s" % k, at, "cut at %s: update %d gives %s, not %s" % (cut[1:-1], (i or 0) + 1, text((got + [None])[i or 0]), text((want + [None])[i or 0])))


# ------------------------------------------------------------------ names
def names(ck, p, tree, ex):
    import ast
    have = {n: f for (t, n), f in ex.items() if t not in ("p_methods",)}
    types = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.module and n.module.endswith("port.optimized") or isinstance(n, ast.ImportFrom) and n.module == "optimized":
                for a in n.names:
                    types.add((a.name, m.rel, n.lineno))
            if isinstance(n, ast.ImportFrom) and n.module and n.module.split(".")[-1] == "port":
                for a in n.names:
                    if a.name == "optimized":
                        al = a.asname or a.name
                        for x in ast.walk(m.tree):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == al:
                                types.add((x.attr, m.rel, x.lineno))
    table = [t for (t, n) in ex if n == "cat_messages"]
    funcs = {n for (t, n) in ex if t in table}
    made = set(re.findall(r'"(\w+)"', open(REPO + "/postgresql/port/_optimized/module.c").read())) & set()
    start = tree.funcs["PyInit_optimized"]
    strs = set(p15.strings(start))
    for name, rel, line in sorted(types):
        ck.judge(name in funcs or name in strs, "names", "%s in %s" % (name, rel), "%s:%d" % (rel, line), "the extension has no %s" % name)
    for (t, n), f in sorted(ex.items()):
        if t in table:
            ck.judge(f == n, "names", "%s is %s" % (n, f), "postgresql/port/_optimized/module.c:0", "the name %s is given to %s" % (n, f)) if re.match(r"(swap_)?u?int\d_(un)?pack$", n) is None else None
    ck.count("names", len(types))


def run(ck, p):
    ck.rule("range", "numbers are taken exactly when they fit the width and sign; too few octets are refused")
    ck.rule("order", "the octets of numbers are those of their width, in network order for the functions used on little-endian machines, with their sign")
    ck.rule("row", "rows are read as their sizes and null marks say; what does not add up is refused with ValueError")
    ck.rule("pack", "attributes and messages are framed with their true size; what no size can say is refused")
    ck.rule("process", "processors are called in order with their items, nulls are left alone, the handler is called with the cause, and what they give or raise is given or raised")
    ck.rule("wire", "the wire of a COPY counts messages, keeps parts of headers and bodies, and gives the first data that is another's")
    ck.rule("names", "the names Python takes from the extension are there")
    tree = Tree(REPO)
    ex = p15.exported(tree)
    funcs = {n: f for (t, n), f in ex.items()}
    for k in ("parse_tuple_message", "consume_tuple_messages", "pack_tuple_data", "cat_messages", "process_tuple", "process_chunk", "compose", "rsetattr"):
        if k not in funcs:
            raise AnalysisBroken("P16: the extension has no %s" % k)
    numbers(ck, tree, funcs)
    parsing(ck, tree, funcs)
    packing(ck, tree, funcs)
    processing(ck, tree, funcs)
    wire(ck, tree)
    names(ck, p, tree, ex)
    twins(ck, p)
    ck.at_least("number functions", 16)
    ck.at_least("names", 20)


# ------------------------------------------------------------------ the originals in Python
def twins(ck, p):
    from sa.streamrule import Streams, Engine, State, C, G, NONE, show
    E3 = "postgresql.protocol.element3"
    cls = p.cls(E3 + ":Tuple")
    fs = [f for f in cls.methods.values() if f.name == "parse"] if hasattr(cls, "methods") else []
    f = fs[0] if fs else p.find_method(cls, "parse")
    ck.func(f)
    for k, d in rows().items():
        want = row_spec(d)
        if d[:2] > [0, 9]:
            continue
        rule = Streams((E3, "postgresql.python.structlib"))
        eng = Engine(p, rule, optimized=False)
        atoms = [("bytes", bytes([a])) if isinstance(a, int) else ("run", i, i + 1) for i, a in enumerate(d)]
        data = rule.wire(atoms)
        params = [a.arg for a in f.node.args.args]
        outs = eng.run(f, {params[0]: G(cls.full), params[1]: data}, self_class=cls.full)
        for o in outs:
            where = f.loc(o.node) if o.node is not None and hasattr(o.node, "lineno") else f.loc()
            if o.kind != "return":
                ck.judge(want is None, "row", "Tuple.parse of %s" % k, where, "raises %s" % show(o.val))
                continue
            it = eng.exact_items(o.val, o.st)
            got = None
            if it is not None:
                got = ["tuple"]
                for x in it:
                    a = rule.atoms(x)
                    got.append("None" if x == NONE else ("bytes", tuple(z for y in a for z in (list(y[1]) if y[0] == "bytes" else [d[i] for i in range(y[1], y[2])]))) if a is not None else show(x))
                got = tuple(got)
            ck.judge(want is not None and got == want, "row", "Tuple.parse of %s" % k, where, "gives %s, not %s" % (text(got)[:90] if got else show(o.val)[:90], text(want)[:90] if want else "a refusal"))
    processors(ck, p)


def processors(ck, p):
    """process_tuple, process_chunk, composition and rsetattr as they are without the extension"""
    from sa.streamrule import Streams, Engine, State, Out, C, G, NONE, show

    def F(n):
        return ("obj", "inst:$%s" % n, (n,))
    MOD = "postgresql.python.functools"

    def name_of(t):
        return t[2][0] if t[0] == "obj" and t[1][:6] == "inst:$" else show(t)

    class Calls(Streams):
        track_calls_raise = False

        def may_raise(self, eng, f, node, st):
            return False

        def __init__(self, fails, handler):
            Streams.__init__(self, (MOD,))
            self.fails, self.handler = fails, handler

        def call(self, eng, node, f, args, kws, st, fr):
            def raised(s, e, what):
                return [Out("raise", s, ("exc", "builtins." + e if e != "Custom" else "postgresql.exceptions.Error", ("excval", what, 0)), node)]
            if f[0] == "obj" and f[1][:10] == "inst:$proc":
                i = int(f[2][0][4:])
                a = tuple(name_of(x) for x in args)
                s = st.with_ts((st.ts or ()) + (("proc", i, a),))
                e = self.fails.get(a[0]) if a else None
                return raised(s, e, "cause") if e else [Out("v", s, F("result:%s" % (a[0] if a else "?")))]
            if f == F("fail"):
                a = []
                for x in args:
                    a.append("cause" if "cause" in show(x) and x[0] != "tuple" else "procs" if x == self.procs else "row%d" % self.rows.index(x) if x in self.rows else x[2] if x[0] == "c" else show(x))
                s = st.with_ts((st.ts or ()) + (("fail", tuple(a)),))
                return raised(s, self.handler, "handler") if self.handler else [Out("v", s, F("given"))]
            return Streams.call(self, eng, node, f, args, kws, st, fr)

    def outcome(eng, o):
        log = list(o.st.ts or ())
        if o.kind == "raise":
            return log, o.val[1].rsplit(".", 1)[-1]

        def val(t):
            it = eng.exact_items(t, o.st)
            if it is not None:
                kind = "list" if t[0] == "obj" else "tuple"
                return (kind,) + tuple(val(x) for x in it)
            return "None" if t == NONE else name_of(t)
        return log, val(o.val)

    def wanted(rows_, fails, handler, whole):
        log, res = EXPECT["expect"](rows_, fails, handler, whole)
        lg = [("proc", x[1], ("item%d.%d" % x[2],)) if x[0] == "proc" else x for x in log]

        def name(r):
            return tuple(map(name, r)) if isinstance(r, tuple) else "result:item" + r[6:] if r[:6] == "result" else "Custom" if r == "Custom" else r
        return lg, name(res)

    f4, f5 = p.func(MOD + ":process_tuple"), p.func(MOD + ":process_chunk")
    if f4 is None or f5 is None:
        raise AnalysisBroken("P16: process_tuple and process_chunk have no original")
    ck.func(f4), ck.func(f5)

    def go(f, rows_, fails, handler, whole):
        rule = Calls({"item%d.%d" % k: v for k, v in fails.items()}, handler)
        rule.procs = ("tuple",) + tuple(F("proc%d" % i) for i in range(len(rows_[0])))
        rule.rows = [("tuple",) + tuple(NONE if x is None else F("item%d.%d" % (j, i)) for i, x in enumerate(r)) for j, r in enumerate(rows_)]
        eng = Engine(p, rule, optimized=False)
        return eng, call(eng, f, rule.procs, ("tuple",) + tuple(rule.rows) if whole else rule.rows[0], F("fail"))

    def call(eng, f, *args):
        import ast
        x = ast.parse("0").body[0].value
        x.lineno, x.col_offset = f.node.lineno, 0
        return eng.call(x, G(f.full), list(args), (), State(ts=()), eng.module_frame(p.module(MOD)))
    for rows_ in EXPECT["shapes"]:
        cells = [(0, i) for i, x in enumerate(rows_[0]) if x]
        for fails in [{}] + [{k: e} for k in cells for e in ("ValueError", "KeyboardInterrupt")]:
            for handler in ("Custom", None) if fails else (None,):
                want = wanted(rows_, fails, handler, False)
                eng, outs = go(f4, rows_, fails, handler, False)
                for o in outs:
                    got = outcome(eng, o)
                    got = got[0], "Custom" if got[1] == "Error" else got[1]
                    ck.judge(got == want, "process", "process_tuple (Python) of %s%s" % (rows_[0], " with faults %s, handler %s" % (fails, handler) if fails else ""), f4.loc(), "does %s, gives %s, not %s, %s" % (got + want))
    for rows_ in (((1,), (None,), (1,)), ((1, 1), (1, 1))):
        for fails in ({}, {(0, 0): "ValueError"}):
            want = wanted(rows_, fails, "Custom", True)
            eng, outs = go(f5, rows_, fails, "Custom", True)
            for o in outs:
                got = outcome(eng, o)
                got = got[0], "Custom" if got[1] == "Error" else got[1]
                ck.judge(got == want, "process", "process_chunk (Python) of %s%s" % (rows_, " with faults %s" % fails if fails else ""), f5.loc(), "does %s, gives %s, not %s, %s" % (got + want))
    for n, k in ((0, 1), (1, 0), (2, 1), (1, 3)):
        rule = Calls({}, None)
        rule.procs = ("tuple",) + tuple(F("proc%d" % i) for i in range(n))
        rule.rows = [("tuple",) + tuple(F("item0.%d" % i) for i in range(k))]
        eng = Engine(p, rule, optimized=False)
        for o in call(eng, f4, rule.procs, rule.rows[0], F("fail")):
            got = outcome(eng, o)
            ck.judge(got == ([], "TypeError"), "process", "process_tuple (Python) of %d processors and %d items" % (n, k), f4.loc(), "does %s, gives %s" % got)
