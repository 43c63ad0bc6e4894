"""P15: the C extension never touches memory it does not own.

Every function is followed on every path, each call that can fail failing or not, over arguments of every kind and shape up to a
bound; every read and write is checked against the bounds of its memory, every reference against what is owned."""
import re
from sa.rules import *
from sa.cdrive import *
from sa.program import REPO

RULES = {"bounds": "reads and writes stay within the memory they are for, and objects are taken for what they are",
         "null": "what may be null is not used before it was asked",
         "owned": "nothing is used or released after it was released",
         "leak": "what is owned is released or handed over on every path",
         "uninit": "memory is written before its content is used",
         "error": "a failure has an exception set, a success has none"}


def exported(tree):
    """functions Python can call, by the tables of the extension: name -> (C function, flags)"""
    out = {}
    for v in tree.vars.values():
        t = v["type"]["qualType"]
        if "PyMethodDef" in t and v.get("inner"):
            for row in v["inner"][0].get("inner", ()):
                names = []

                def find(n):
                    if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["kind"] == "FunctionDecl":
                        names.append(n["referencedDecl"]["name"])
                    for x in n.get("inner", ()):
                        find(x)
                find(row)
                s = strings(row)
                if names and s:
                    out[(v["name"], s[0])] = names[0]
    return out


def strings(n):
    out = []
    if n.get("kind") == "StringLiteral":
        out.append(n["value"].strip('"'))
    for x in n.get("inner", ()):
        out += strings(x)
    return out


def odd(c):
    """arguments of the wrong kind"""
    return {"an int": lambda: c.int(7), "None": lambda: c.m.none, "an object": lambda: c.other(), "a tuple": lambda: c.tuple(), "a list": lambda: c.list(), "bytes": lambda: c.bytes(b"")}


ODD = ("an int", "None", "an object", "a tuple", "a list", "bytes")


def octets(n, name="d"):
    return [("o", "%s%d" % (name, i)) for i in range(n)]


def uses(tree, ex, deep):
    """(function, what it is given, use)"""
    out = []
    funcs = {n: f for (t, n), f in ex.items()}

    def add(name, label, f):
        out.append((name, label, f))
    for name, f in sorted(funcs.items()):
        if name.endswith("_pack") and re.match(r"(swap_)?u?int\d_pack$", name):
            def pack(c, f=f):
                c.m.ranges["v"] = (None, None)
                c(f, 0, c.hold(c.m.ob("int", "int", value=("sym", "v"))))
            add(f, "any number", pack)
            for v in (-1, 0, 1 << 70):
                add(f, str(v), lambda c, f=f, v=v: c(f, 0, c.int(v)))
            for k in ODD[1:]:
                add(f, k, lambda c, f=f, k=k: c(f, 0, odd(c)[k]()))
        elif re.match(r"(swap_)?u?int\d_unpack$", name):
            for n in (0, 1, 2, 3, 4, 5, 7, 8, 9):
                add(f, "%d octets" % n, lambda c, f=f, n=n: c(f, 0, c.bytes(octets(n))))
                add(f, "a view of %d octets" % n, lambda c, f=f, n=n: c(f, 0, c.view(octets(n))))
            for k in ODD[:5]:
                add(f, k, lambda c, f=f, k=k: c(f, 0, odd(c)[k]()))

    def items(c, spec, exact=True):
        x = []
        for s in spec:
            x.append(c.m.none if s is None else c.other() if s == "x" else c.bytes((), 1 << 33) if s == "huge" else c.bytes(octets(s)))
        return c.tuple(*x, exact=exact)

    rows = [(), (None,), (3,), (0, None, 2), ("x",), (1, "x"), ("huge",), (2, "huge", 1)]
    f = funcs.get("pack_tuple_data")
    if f:
        for s in rows:
            add(f, "a tuple of %s" % (s,), lambda c, s=s: c(f, 0, items(c, s)))
        for k in ODD:
            add(f, k, lambda c, k=k: c(f, 0, odd(c)[k]()))
    W = lambda n: list(n.to_bytes(4, "big"))
    N = [0xff] * 4
    datas = {"nothing": [], "one octet": [0], "no attributes": [0, 0], "no attributes and more": [0, 0, 1], "a null": [0, 1] + N, "one attribute": [0, 1] + W(2) + octets(2), "a short size": [0, 1, 0, 0, 0], "half a size": [0, 1, 0, 0], "one octet of a size": [0, 1, 0], "no size": [0, 1],
             "a short attribute": [0, 1] + W(3) + octets(2), "a long attribute": [0, 1] + W(1) + octets(2), "two attributes": [0, 2] + W(1) + octets(1) + N, "a missing attribute": [0, 2] + W(0),
             "a size near the greatest": [0, 1] + W(0xFFFFFFFE) + octets(2), "a size of half": [0, 1] + W(0x80000000), "empty attribute": [0, 2] + W(0) + W(0)}
    f1 = funcs.get("parse_tuple_message")
    if f1:
        for k, d in datas.items():
            add(f1, k, lambda c, d=d: c(f1, 0, c.bytes(d)))
            add(f1, "a view of " + k, lambda c, d=d: c(f1, 0, c.view(d)))
        for k in ODD[:5]:
            add(f1, k, lambda c, k=k: c(f1, 0, odd(c)[k]()))
    f2 = funcs.get("consume_tuple_messages")
    if f2:
        D = lambda c, d: c.tuple(c.bytes(b"D"), c.bytes(datas[d]))
        add(f2, "no messages", lambda c: c(f2, 0, c.tuple()))
        add(f2, "two rows", lambda c: c(f2, 0, c.tuple(D(c, "one attribute"), D(c, "a null"))))
        add(f2, "a row and another message", lambda c: c(f2, 0, c.tuple(D(c, "one attribute"), c.tuple(c.bytes(b"C"), c.bytes(b"x")), D(c, "a null"))))
        add(f2, "another message first", lambda c: c(f2, 0, c.tuple(c.tuple(c.bytes(b"C"), c.bytes(b"x")))))
        add(f2, "a row that cannot be read", lambda c: c(f2, 0, c.tuple(D(c, "one attribute"), D(c, "a short attribute"))))
        add(f2, "no type", lambda c: c(f2, 0, c.tuple(c.tuple(c.bytes(b""), c.bytes(b"x")))))
        add(f2, "a triple", lambda c: c(f2, 0, c.tuple(c.tuple(c.bytes(b"D"), c.bytes(b"x"), c.m.none))))
        for k in ODD:
            add(f2, k, lambda c, k=k: c(f2, 0, odd(c)[k]()))
            add(f2, "a tuple of " + k, lambda c, k=k: c(f2, 0, c.tuple(D(c, "a null"), odd(c)[k]())))
            add(f2, "a pair with " + k, lambda c, k=k: c(f2, 0, c.tuple(D(c, "a null"), c.tuple(c.bytes(b"D"), odd(c)[k]()))))
            add(f2, "a pair of type " + k, lambda c, k=k: c(f2, 0, c.tuple(c.tuple(odd(c)[k](), c.bytes(datas["a null"])))))
    f3 = funcs.get("cat_messages")
    if f3:
        def message(c, typ, body):
            """an element with a method serialize and an attribute type"""
            ser = c.other("callable", "serialize")
            attrs = {"serialize": ser}
            if typ is not None:
                attrs["type"] = odd(c)[typ]() if typ in ODD else c.bytes(typ)
            o = c.other("opaque", "message", **attrs)

            def behave(m, f, args, was=c.m.behave):
                if f is not ser:
                    return was(m, f, args) if was else None
                if m.fails("serialize"):
                    return m.raise_("Exception")
                return m.P({"x": lambda: m.ob("opaque", "serialized"), "huge": lambda: m.bytes((), "serialized", 1 << 33)}[body]() if isinstance(body, str) else m.bytes(octets(body), "serialized"))
            c.m.behave = behave
            return o

        def cat(c, spec, kind="list"):
            c.glob("serialize_strob", c.m.ob("str", "serialize", "serialize"))
            c.glob("msgtype_strob", c.m.ob("str", "type", "type"))
            x = []
            for s in spec:
                x.append(items(c, s[1:]) if s[0] == "row" else message(c, *s[1:]) if s[0] == "msg" else c.other() if s[0] == "x" else c.bytes((), 1 << 33) if s[1] == "huge" else c.bytes(octets(s[1])))
            c(f3, 0, (c.list if kind == "list" else c.tuple)(*x))
        specs = [(), (("copy", 3),), (("copy", 0), ("copy", 2)), (("copy", "huge"),), (("copy", 1), ("copy", "huge"), ("copy", 1)), (("row",),), (("row", 2, None),), (("row", 0), ("row", None)), (("row", "x"),), (("row", "huge"),), (("row", 1), ("row", 1, "huge")),
                 (("msg", b"Q", 3),), (("msg", b"", 8),), (("msg", b"QX", 2),), (("msg", b"Q", "x"),), (("msg", b"Q", "huge"),), (("msg", None, 1),), (("msg", "an int", 1),), (("x",),),
                 (("copy", 1), ("row", 1), ("msg", b"c", 0)), (("msg", b"S", 0), ("copy", 2)), (("row", 1), ("x",)), (("copy", 1), ("msg", b"Q", "x")), (("row", 1), ("copy", 1), ("row", "x"))]
        for s in specs:
            add(f3, "messages %s" % (s,), lambda c, s=s: cat(c, s))
        add(f3, "a tuple of messages", lambda c: cat(c, (("copy", 1), ("row", 1)), "tuple"))
        for k in ODD[:3]:
            add(f3, k, lambda c, k=k: c(f3, 0, odd(c)[k]()))
    # the processing of rows
    f4, f5, f6, f7 = (funcs.get(k) for k in ("process_tuple", "process_chunk", "compose", "rsetattr"))
    fn = lambda c: c.other("callable", "processor")
    if f4:
        for n in (0, 1, 2):
            for row in ([(1,) * n] + ([(None,) + (1,) * (n - 1)] if n else [])):
                add(f4, "a row of %s" % (row,), lambda c, row=row: c(f4, 0, c.tuple(c.tuple(*[fn(c) for _ in row]), items(c, row), fn(c))))
        add(f4, "a row of another size", lambda c: c(f4, 0, c.tuple(c.tuple(fn(c)), items(c, (1, 1)), fn(c))))
        add(f4, "two arguments", lambda c: c(f4, 0, c.tuple(c.tuple(), c.tuple())))
        for k in ODD[:3] + ("a list",):
            add(f4, "processors of " + k, lambda c, k=k: c(f4, 0, c.tuple(odd(c)[k](), c.tuple(), fn(c))))
            add(f4, "a row of " + k, lambda c, k=k: c(f4, 0, c.tuple(c.tuple(), odd(c)[k](), fn(c))))
    if f5:
        for kind in ("list", "tuple"):
            for rows_ in ((), ((1,),), ((1,), (None,)), ((1,), (1, 1))):
                add(f5, "a %s of rows %s" % (kind, rows_), lambda c, kind=kind, rows_=rows_: c(f5, 0, c.tuple(c.tuple(fn(c)), (c.list if kind == "list" else c.tuple)(*[items(c, r) for r in rows_]), fn(c))))
        for k in ODD:
            add(f5, "rows of " + k, lambda c, k=k: c(f5, 0, c.tuple(c.tuple(fn(c)), odd(c)[k](), fn(c))))
            add(f5, "a list of " + k, lambda c, k=k: c(f5, 0, c.tuple(c.tuple(fn(c)), c.list(odd(c)[k]()), fn(c))))
        add(f5, "no arguments", lambda c: c(f5, 0, c.tuple()))
    if f6:
        for kind in ("list", "tuple", "sequence"):
            for n in (0, 1, 2):
                def comp(c, kind=kind, n=n):
                    s = (c.list if kind == "list" else c.tuple)(*[fn(c) for _ in range(n)])
                    if kind == "sequence":
                        s.kind, s.name = "sequence", "a sequence"
                    c(f6, 0, c.tuple(s, c.other()))
                add(f6, "a %s of %d" % (kind, n), comp)
        add(f6, "no sequence", lambda c: c(f6, 0, c.tuple(c.other(), c.other())))
        add(f6, "one argument", lambda c: c(f6, 0, c.tuple(c.other())))
    if f7:
        add(f7, "an attribute", lambda c: c(f7, 0, c.tuple(c.hold(c.m.ob("str", "name", "name")), c.other(), c.other())))
        add(f7, "one argument", lambda c: c(f7, 0, c.tuple(c.other())))
    out += buffer_uses(tree, ex, deep)
    out += wire_uses(tree, ex, deep)
    if "PyInit_optimized" in tree.funcs:
        def start(c):
            c("PyInit_optimized")
        add("PyInit_optimized", "the start of the module", start)
    return out


def slot(c, typ, name):
    f = c.m.type_slot(c.m.typeob(typ), name)
    return f[1] if isinstance(f, tuple) and f[0] == "fn" else None


def member(tree, typ, table, index=1):
    """the functions of a table of the type"""
    out = {}
    v = tree.vars.get(table)
    for row in (v["inner"][0].get("inner", ()) if v is not None and v.get("inner") else ()):
        s, names = strings(row), []

        def find(n):
            if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["kind"] == "FunctionDecl":
                names.append(n["referencedDecl"]["name"])
            for x in n.get("inner", ()):
                find(x)
        find(row)
        if s and names:
            out[s[0]] = names[0]
    return out


def table_of(tree, typ, name):
    """the variable a field of a type is made with"""
    m = Machine(tree)
    n = m.type_init(typ).get(name)
    found = []

    def find(x):
        if x.get("kind") == "DeclRefExpr":
            found.append(x["referencedDecl"]["name"])
        for y in x.get("inner", ()):
            find(y)
    if n is not None:
        find(n)
    return found[0] if found else None


def sequence_length(tree, typ):
    v = tree.vars.get(table_of(tree, typ, "tp_as_sequence") or "")
    if v is None or not v.get("inner"):
        return None
    found = []

    def find(x):
        if x.get("kind") == "DeclRefExpr":
            found.append(x["referencedDecl"]["name"])
        for y in x.get("inner", ()):
            find(y)
    find(v["inner"][0])
    return found[0] if found else None


def make(c, typ):
    new = slot(c, typ, "tp_new")
    if new is None:
        raise AnalysisBroken("the type %s has no tp_new" % typ)
    return c(new, c.m.P(c.m.typeob(typ)), c.tuple(), 0)


BUFFER, WIRE = "pq_message_stream_Type", "WireState_Type"


def buffer_uses(tree, ex, deep):
    out = []
    ops = member(tree, BUFFER, table_of(tree, BUFFER, "tp_methods"))
    if not ops:
        raise AnalysisBroken("the methods of pq_message_stream are not found")
    H = lambda t, n: [t] + list(n.to_bytes(4, "big"))
    streams = {"nothing": [], "half a header": [[0x44, 0, 0]], "a header": [H(0x44, 6)], "a message": [H(0x44, 6) + octets(2)], "an empty message": [H(0xC4, 4)], "a message in parts": [[0x44, 0], [0, 0, 6] + octets(1), octets(1, "e")],
               "two messages": [H(0x44, 5) + octets(1), H(0xC4, 7) + octets(3)], "a message and part of one": [H(0x44, 5) + octets(1) + H(0xC4, 9) + octets(2)], "a bad length": [H(0x44, 3)], "a message and a bad length": [H(0x44, 4) + H(0x5A, 0)],
               "a great length": [H(0x44, 0xFFFFFFFF) + octets(3)], "an unknown type": [[("o", "t")] + H(0, 4)[1:]]}
    types = types_of(tree)

    def run(c, parts, then):
        types(c)
        b = make(c, BUFFER)
        if b is None:
            return
        for x in parts:
            if c(ops["write"], b, c.bytes(x)) is None:
                return
        for name in then:
            name, _, n = name.partition(" ")
            if name == "__len__":
                c(sequence_length(tree, BUFFER), b)
            elif name == "__next__":
                c(slot(c, BUFFER, "tp_iternext"), b, quiet=True)
            elif name == "write":
                c(ops[name], b, c.bytes((H(0x43, 6) + octets(2, "w"))[:int(n)]))
            elif name == "read":
                c(ops[name], b, c.tuple(*([c.int(int(n))] if n else [])))
            else:
                c(ops[name], b, 0)
            if c.m.err is not None:
                c.m.clear()
    follow = [("has_message",), ("__len__",), ("getvalue",), ("next_message", "next_message"), ("__next__", "__next__"), ("read",), ("read 1", "read"), ("read 0", "getvalue"), ("read -1",), ("read -2",), ("truncate", "read"), ("next_message", "getvalue"), ("__next__", "truncate", "next_message"), ("__next__", "write 2", "next_message"), ("next_message", "write 6", "read"), ("read", "write 1", "write 7", "getvalue"), ("truncate", "write 2", "has_message")]
    for label, parts in streams.items():
        for then in follow:
            out.append((ops.get(then[0].split()[0], "p_" + then[0].strip("_")), "%s, then %s" % (label, ", ".join(then)), lambda c, parts=parts, then=then: run(c, parts, then)))
    for k in ODD[:5]:
        out.append((ops["write"], k, lambda c, k=k: (lambda b: b is None or c(ops["write"], b, odd(c)[k]()))(make(c, BUFFER))))
    out.append((slot(Call(Api(tree)), BUFFER, "tp_new"), "arguments", lambda c: c(slot(c, BUFFER, "tp_new"), c.m.P(c.m.typeob(BUFFER)), c.tuple(c.m.none), 0)))
    return out


def wire_uses(tree, ex, deep):
    out = []
    ops = member(tree, WIRE, table_of(tree, WIRE, "tp_methods"))
    gets = member(tree, WIRE, table_of(tree, WIRE, "tp_getset"))
    if not ops or not gets:
        raise AnalysisBroken("the methods of WireState are not found")
    H = lambda t, n: [t] + list(n.to_bytes(4, "big"))
    streams = {"nothing": [[]], "a message": [H(0x64, 6) + octets(2)], "a part": [H(0x64, 9) + octets(2)], "parts of a header": [[0x64], [0], [0, 0], [6] + octets(2)], "a header in two": [[0x64, 0, 0], [0, 6] + octets(2) + H(0x64, 4)],
               "another kind": [H(0x64, 4) + H(0x43, 4)], "another kind at once": [[0x5A]], "after another kind": [[0x43], [0x64]], "all but one octet of a header": [H(0x64, 4) + [0x64, 0, 0, 0]], "a header less one": [[0x64, 0, 0, 0]], "a bad length in two": [[0x64, 0, 0], [0, 3]], "a great length": [H(0x64, 0xFFFFFFFF), octets(2)], "the rest": [H(0x64, 9) + octets(2), octets(3) + [0x64, 0]]}

    def run(c, parts, kind=None):
        w = make(c, WIRE)
        if w is None:
            return
        for x in parts:
            v = (kind or c.bytes)(x)
            c(ops["update"], w, v)
            lost = c.m.err is not None
            c.m.clear()
            for g in gets.values():
                c(g, w, 0)
                if c.m.err is not None:
                    c.m.clear()
            if lost:
                return
    for label, parts in streams.items():
        out.append((ops["update"], label, lambda c, parts=parts: run(c, parts)))
        out.append((ops["update"], "views, " + label, lambda c, parts=parts: run(c, parts, c.view)))
    for k in ODD[:5]:
        out.append((ops["update"], k, lambda c, k=k: (lambda b: b is None or c(ops["update"], b, odd(c)[k]()))(make(c, WIRE))))
    return out


def run(ck, p):
    for k, v in RULES.items():
        ck.rule(k, v)
    deep = ck.tier == "thorough"
    tree = Tree(REPO)
    ex = exported(tree)
    ck.judge(True, "bounds", "module", "postgresql/port/_optimized/module.c", "")
    found, seen = {}, {}
    lost = None
    us = uses(tree, ex, deep)
    for func, label, use in us:
        def bad(rule, msg, at, story, func=func, label=label):
            found.setdefault((func, rule, at, msg), []).append("given %s%s" % (label, ", when " + story if story else ""))
        try:
            ck.count("paths", paths(tree, use, True, bad))
        except AnalysisBroken as e:
            lost = lost or e
        seen[func] = seen.get(func, 0) + 1
    if lost is not None and not found:
        raise lost
    for (func, rule, at, msg), xs in sorted(found.items(), key=str):
        ck.judge(False, rule, "%s: %s" % (func, msg), "postgresql/port/_optimized/%s:%d" % at, "%s (%d more)" % (xs[0], len(xs) - 1))
    for func in seen:
        for rule in RULES:
            if not any(k[:2] == (func, rule) for k in found):
                ck.judge(True, rule, func, "postgresql/port/_optimized/%s:%d" % (tree.funcs[func]["at"] if func in tree.funcs else ("module.c", 0)), "")
    # every function that Python can reach was followed
    for (table, name), f in sorted(ex.items()):
        if f not in seen and f not in member(tree, WIRE, table_of(tree, WIRE, "tp_methods")).values():
            raise AnalysisBroken("P15: what %s (%s) is given is not known" % (name, f))
    ck.at_least("paths", 400)
