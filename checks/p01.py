"""P01: wire messages have the protocol-3 layout, in both directions.

serialize/bytes/parse of every message class are interpreted in the layout domain, for item lists of no, one, two and
three items with and without NULL, with the C primitives and with their Python replacements; the layout found is compared
with the table below (PostgreSQL documentation, "Message Formats"), and each reader is applied to that layout."""
from sa.layout import *
from sa.rules import inst_fields
from sa.program import AnalysisBroken

E3 = "postgresql.protocol.element3"
SELF = ("p", "$self")


def F(n):
    return ("p", "$" + n)


Z = C(b"\0")
NULL = C(b"\xff\xff\xff\xff")


def cstr(n):
    return [F(n), Z]


def u4(t):
    return ("pk", "L", t)


def length(n):
    return u4(("call", LEN, (n,), ()))


def item(x):
    return [NULL] if x == NONE else [length(x), x]


def spec():
    """(class, label, fields {attr: term} | ('tuple', items) | ('dict', pairs), type byte, [parts], opts)"""
    r = []

    def add(cls, typ, parts, fields=None, label="", seq=None, mapping=None, reader=True, total=True):
        r.append(dict(cls=cls, typ=typ, parts=parts, fields=fields or {}, label=label, seq=seq, mapping=mapping, reader=reader, total=total))
    empty = {"Null": b"I", "NoData": b"n", "ParseComplete": b"1", "BindComplete": b"2", "CloseComplete": b"3", "Suspension": b"s",
             "Disconnect": b"X", "Flush": b"H", "Synchronize": b"S", "CopyDone": b"c"}
    for k, t in empty.items():
        add(k, t, [])
    for k, t in {"Complete": b"C", "Password": b"p", "Query": b"Q", "CopyFail": b"f"}.items():
        add(k, t, cstr("data"), {"data": F("data")})
    add("CopyData", b"d", [F("data")], {"data": F("data")})
    add("Notify", b"A", [u4(F("pid"))] + cstr("channel") + cstr("payload"), {k: F(k) for k in ("pid", "channel", "payload")})
    add("ShowOption", b"S", cstr("name") + cstr("value"), {k: F(k) for k in ("name", "value")})
    for s in b"IET":
        add("Ready", b"Z", [C(bytes([s]))], {"xact_state": C(bytes([s]))}, label=chr(s))
    for k, t in {"Notice": b"N", "Error": b"E"}.items():
        add(k, t, [C(b"S"), F("v1"), C(b"\0C"), F("v2"), C(b"\0M"), F("v3"), Z], mapping=[(C(b"S"), F("v1")), (C(b"C"), F("v2")), (C(b"M"), F("v3"))], reader="loose")
    add("FunctionResult", b"V", item(F("result")), {"result": F("result")}, label="value")
    add("FunctionResult", b"V", [NULL], {"result": NONE}, label="NULL")
    for n in range(4):
        oids = [F("i:oid%d" % i) for i in range(n)]
        add("AttributeTypes", b"t", [C(bytes([0, n]))] + [u4(o) for o in oids], seq=oids, label=str(n))
        add("Parse", b"P", cstr("name") + cstr("statement") + [C(bytes([0, n]))] + [u4(o) for o in oids],
            {"name": F("name"), "statement": F("statement"), "argtypes": ("tuple",) + tuple(oids)}, label=str(n))
        atts = [tuple(F("%s%d" % (a, i)) for a in ("name", "i:rel", "i:attnum", "i:typ", "i:len", "i:mod", "i:fmt")) for i in range(n)]
        parts = [C(bytes([0, n]))]
        for a in atts:
            parts += [a[0], Z] + [("pk", c, x) for c, x in zip("LhLhlh", a[1:])]
        add("TupleDescriptor", b"T", parts, seq=[("tuple",) + a for a in atts], label=str(n))
        fm = [F("i:f%d" % i) for i in range(n)]
        for k, t in {"CopyToBegin": b"H", "CopyFromBegin": b"G"}.items():
            add(k, t, [("pk", "B", F("i:format")), C(bytes([0, n]))] + [("pk", "H", f) for f in fm],
                {"format": F("i:format"), "formats": ("tuple",) + tuple(fm)}, label=str(n))
        for mask in range(1 << n) if n < 3 else (0, 2, 5):
            items = [NONE if mask >> i & 1 else F("item%d" % i) for i in range(n)]
            lab = "(%s)" % ",".join("NULL" if x == NONE else "value" for x in items)
            body = [C(bytes([0, n]))] + [p for x in items for p in item(x)]
            add("Tuple", b"D", body, seq=items, label=lab)
            af = [F("af%d" % i) for i in range(n)]
            for m in (0, 1, 2):
                rf = [F("rf%d" % i) for i in range(m)]
                add("Bind", b"B", cstr("name") + cstr("statement") + [C(bytes([0, n]))] + af + body + [C(bytes([0, m]))] + rf,
                    {"name": F("name"), "statement": F("statement"), "aformats": ("tuple",) + tuple(af),
                     "arguments": ("tuple",) + tuple(items), "rformats": ("tuple",) + tuple(rf)}, label=lab + " %d results" % m)
            add("Function", b"F", [u4(F("i:oid")), C(bytes([0, n]))] + af + body + [F("rf0")],
                {"oid": F("i:oid"), "aformats": ("tuple",) + tuple(af), "arguments": ("tuple",) + tuple(items), "rformat": F("rf0")}, label=lab)
    add("KillInformation", b"K", [u4(F("pid")), u4(F("key"))], {"pid": F("pid"), "key": F("key")})
    add("CancelRequest", b"", [C(b"\x04\xd2\x16\x2e"), u4(F("pid")), u4(F("key"))], {"pid": F("pid"), "key": F("key")})
    add("NegotiateSSL", b"", [C(b"\x04\xd2\x16\x2f")])
    add("Startup", b"", [C(b"\0\3\0\0")] + cstr("k1") + cstr("v1") + cstr("k2") + cstr("v2") + [Z],
        mapping=[(F("k1"), F("v1")), (F("k2"), F("v2"))], label="two")
    add("Startup", b"", [C(b"\0\3\0\0")] + cstr("k2") + cstr("v2") + [Z], mapping=[(F("k1"), NONE), (F("k2"), F("v2"))], label="one unset", reader=False)
    add("Startup", b"", [C(b"\0\3\0\0")] + cstr("k1") + [Z, Z], mapping=[(F("k1"), C(b""))], label="empty value")
    add("Startup", b"", [C(b"\0\3\0\0\0")], mapping=[], label="none")
    add("Authentication", b"R", [u4(F("i:request")), F("salt")], {"request": F("i:request"), "salt": F("salt")})
    for k, t in {"DescribeStatement": (b"D", b"S"), "DescribePortal": (b"D", b"P"), "CloseStatement": (b"C", b"S"), "ClosePortal": (b"C", b"P")}.items():
        add(k, t[0], [C(t[1])] + cstr("data"), {"data": F("data")})
    add("Execute", b"E", cstr("name") + [u4(F("i:max"))], {"name": F("name"), "max": F("i:max")})
    return r


FIXED = {F("%s%d" % (a, i)): 2 for a in ("af", "rf") for i in range(4)}
# the sign of these does not matter: they are never negative or both ends use the same bits
UNSIGNED_OK = {"pid", "key", "i:request"}      # max is not among them: the driver passes 0xFFFFFFFF


def norm(L, t):
    """layout with the don't-care signs removed"""
    r = []
    for p in L.parts(t):
        if p[0] == "pk" and len(p[1]) == 1:
            l = lin(p[2])
            if (p[2][0] == "p" and p[2][1][1:] in UNSIGNED_OK) or (
                    p[1] in "lL" and l is not None and all(k is None or k[0] == "call" and k[1] == LEN for k in l)):
                p = ("pk", p[1].upper(), unlin(l) if l is not None else p[2])
            elif l is not None and len(l) > 1:
                p = ("pk", p[1], unlin(l))
        r.append(p)
    return catn(r, b"")


class R(LayoutRule):
    def __init__(self):
        LayoutRule.__init__(self, Layout(FIXED, nonempty={F("v1"), F("v2"), F("v3"), F("k1"), F("k2")}, nul={F("salt")} | {F("item%d" % i) for i in range(4)} | {F("result")}))
        self.tps = {}

    def types(self, eng):
        return self.tps


def run(ck, p):
    ck.rule("writer", "the layout serialize() produces is the protocol's, for every shape of the item lists")
    ck.rule("frame", "bytes() is the type byte, a 4-byte big-endian length counting itself, and the body")
    ck.rule("reader", "parse() applied to the protocol's layout yields exactly the fields, in place")
    ck.rule("batch", "cat_messages frames bytes as CopyData, tuples as row data and messages as themselves, in order")
    ck.assumptions += ["text fields contain no NUL byte (the protocol cannot carry one)", "no item is 4294967295 bytes long",
                       "item lists longer than three behave as shorter ones (the same loop body)"]
    mod = p.modules[E3]
    sp = spec()
    covered = {s["cls"] for s in sp}
    undecided = layouts(ck, p, sp)
    ck.counts["undecided_readers"] = sorted(set(undecided))
    ck.counts["classes"] = len(covered)
    # classes the table does not know
    for c in mod.classes.values() if hasattr(mod, "classes") else ():
        pass
    # ---- batches
    f = p.func(E3 + ":cat_messages")
    rule = R()
    b, m = F("chunk"), F("msg")
    row = ("tuple", F("item0"), NONE)
    rule.tps = {b: "builtins.bytes", m: E3 + ".Query"}
    for lab, lst, want in (
            ("bytes", [b, b], [C(b"d"), u4(unlin({("call", LEN, (b,), ()): 1, None: 4})), b] * 2),
            ("message", [m, b], [C(b"Q"), u4(unlin({("call", LEN, (F("q"),), ()): 1, None: 5})), F("q"), Z, C(b"d"), u4(unlin({("call", LEN, (b,), ()): 1, None: 4})), b]),
            ("row", [row, b], [C(b"D"), u4(unlin({("call", LEN, (F("item0"),), ()): 1, None: 14})), C(b"\0\2"), length(F("item0")), F("item0"), NULL, C(b"d"), u4(unlin({("call", LEN, (b,), ()): 1, None: 4})), b]),
            ("no message", [], [])):
        eng = Engine(p, rule, optimized=False)
        st = State().hset((m, "data"), F("q"))
        lo = ("obj", "list", ("messages",))
        st = st.hset((lo, "$items"), ("L", tuple(lst)))
        ck.func(f)
        for o in eng.run(f, {f.node.args.args[0].arg: lo}, st=st):
            if o.kind != "return":
                ck.finding("batch", lab, f.loc(), "cat_messages raises %s" % show(o.val), o.st.trace)
                continue
            got, w = norm(rule.L, o.val), norm(rule.L, catn(want, b""))
            ck.judge(got == w, "batch", lab, f.loc(), "cat_messages gives %s, should be %s" % (show(got), show(w)), o.st.trace)
    ck.at_least("obligations:writer", 150)
    ck.at_least("obligations:frame", 150)
    ck.at_least("obligations:reader", 250)


def wire(ck, p, *names):
    """the messages a property of another check rests on"""
    ck.rule("wire", "the messages it rests on have the protocol's layout: " + ", ".join(names))
    for k in ("writer", "frame", "reader"):
        ck.rule(k, "layout of " + ", ".join(names))
    sp = [s for s in spec() if s["cls"] in names]
    if {s["cls"] for s in sp} != set(names):
        raise AnalysisBroken("the layout of a message is not stated: %s" % (names,))
    layouts(ck, p, sp)
    ck.at_least("obligations:frame", len(names))


def layouts(ck, p, sp):
    undecided = []
    for opt in (True, False):
        mode = "C primitives" if opt else "Python primitives"
        for s in sp:
            cls = p.cls(E3 + ":" + s["cls"])
            name = s["cls"] + (" " + s["label"] if s["label"] else "")
            rule = R()
            L = rule.L
            want = norm(L, catn(s["parts"], b""))
            me = SELF
            st = State()
            if s["seq"] is not None:
                me = ("obj", "list", ("self",))
                st = st.hset((me, "$items"), ("L", tuple(s["seq"])))
            if s["mapping"] is not None:
                me = ("obj", "dict", ("self",))
                st = st.hset((me, "$items"), ("D", tuple(s["mapping"])))
            for k, v in s["fields"].items():
                st = st.hset((me, k), v)
            rule.tps = {me: cls.full}

            def go(meth, args, self_term=None):
                f = p.find_method(cls, meth)
                if f is None:
                    raise AnalysisBroken("%s.%s vanished" % (s["cls"], meth))
                ck.func(f)
                eng = Engine(p, rule, optimized=opt)
                outs = eng.run(f, args, self_class=cls.full, st=st)
                for x in eng.inlined:
                    ck.func(x)
                return f, outs, eng
            # ---- writer
            f, outs, eng = go("serialize", {"self": me})
            for o in outs:
                where = f.loc(o.node) if o.node is not None and hasattr(o.node, "lineno") else f.loc()
                if o.kind != "return":
                    ck.finding("writer", s["cls"], where, "%s: serialize raises %s (%s)" % (name, show(o.val), mode), o.st.trace)
                    continue
                got = norm(L, o.val)
                ck.judge(got == want, "writer", s["cls"], where, "%s: serialize lays down %s, the protocol wants %s (%s)" % (name, show(got), show(want), mode), o.st.trace)
            # ---- frame
            f, outs, eng = go("bytes", {"self": me})
            n = dict(L.length(want))
            n[None] = n.get(None, 0) + 4
            frame = norm(L, catn([C(s["typ"]), pk("L", unlin(n)), want], b""))
            for o in outs:
                if o.kind != "return":
                    ck.finding("frame", s["cls"], f.loc(), "%s: bytes raises %s (%s)" % (name, show(o.val), mode), o.st.trace)
                    continue
                got = norm(L, o.val)
                ck.judge(got == frame, "frame", s["cls"], f.loc(), "%s: bytes gives %s, the protocol wants %s (%s)" % (name, show(got), show(frame), mode), o.st.trace)
            # ---- reader
            if not s["reader"]:
                continue
            pm = cls
            owner, v = Engine(p, rule, optimized=opt).class_attr(cls, "parse")
            if v is not None and v[0] == "g" and "port.optimized" in v[1]:
                # the C reader; its layout is decided by P16
                o = rule.parse_tuple(want, lambda t: [t])[0]
                ck.judge(v[1].endswith(".parse_tuple_message") and o == ("tuple",) + tuple(s["seq"] or ()), "reader", s["cls"], owner.module.rel,
                         "%s.parse is %s" % (s["cls"], v[1]))
                continue
            data = catn([p_ for p_ in s["parts"]], b"")
            # readers must agree with this library's own writer on don't-care signs
            f, outs, eng = go("serialize", {"self": me})
            own = [o.val for o in outs if o.kind == "return"]
            if len(own) == 1 and norm(L, own[0]) == want:
                data = own[0]
            f = p.find_method(cls, "parse")
            if f is None:
                raise AnalysisBroken("%s.parse vanished" % s["cls"])
            ck.func(f)
            eng = Engine(p, rule, optimized=opt)
            params = [a.arg for a in f.node.args.args]
            outs = eng.run(f, {params[0]: G(cls.full), params[1]: data}, self_class=cls.full)
            for x in eng.inlined:
                ck.func(x)
            for o in outs:
                where = f.loc(o.node) if o.node is not None and hasattr(o.node, "lineno") else f.loc()
                if o.kind != "return":
                    ck.finding("reader", s["cls"], where, "%s: parse raises %s on a valid message (%s)" % (name, show(o.val), mode), o.st.trace)
                    continue
                got = fields_of(eng, o, s, cls, p)
                if got is None:
                    undecided.append(name + " " + show(o.val))
                    continue
                for k, (g, w) in got.items():
                    ck.judge(same(eng, o.st, g, w), "reader", s["cls"] + "." + k, where, "%s: parse takes %s for %s, which is %s (%s)" % (name, show(g), k, show(w), mode), o.st.trace)
    return undecided


def fields_of(eng, o, s, cls, p):
    v = o.val
    r = {}
    if s["seq"] is not None or s["mapping"] is not None:
        t = v
        if v[0] == "obj" and v[1].startswith("inst:"):
            fs = inst_fields(o.st, v)
            if not fs or len(fs[0]) != 1:
                return None
            t = fs[0][0]
        if s["seq"] is not None:
            items = eng.exact_items(t, o.st)
            return {"items": (("tuple",) + tuple(items), ("tuple",) + tuple(s["seq"]))} if items is not None else None
        c = eng.hget(o.st, (t, "$items"))
        if c is None:
            return None
        if c[0] == "D":
            prs = [("tuple", k, x) for k, x in c[1]]
        elif c[0] == "L":
            prs = list(c[1])
        else:
            return None
        return {"pairs": (("tuple",) + tuple(prs), ("tuple",) + tuple(("tuple", k, x) for k, x in s["mapping"]))}
    if not s["fields"]:
        # constant messages: the singleton of the class
        return {"instance": (v, v)}
    if v[0] != "obj":
        return None
    for k, w in s["fields"].items():
        g = o.st.heap.get((v, k))
        if g is None:
            return None
        r[k] = (g, w)
    return r


def same(eng, st, g, w):
    if g == w:
        return True
    a, b = eng.exact_items(g, st), eng.exact_items(w, st)
    if a is not None and b is not None and len(a) == len(b):
        return all(same(eng, st, x, y) for x, y in zip(a, b))
    return False
