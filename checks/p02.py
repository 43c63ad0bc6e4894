"""P02: incoming bytes are cut into messages the same way for any chunking.

The operations of the buffer are interpreted over streams of messages whose headers are known and whose bodies are runs of the
stream known by position, for every order of writes and reads up to a bound; what they give is compared with the messages the
stream has."""
import ast
from sa.rules import *
from sa.streamrule import *

MOD = "postgresql.protocol.pbuffer"
OPS = ("has_message", "__len__", "getvalue", "next_message", "__next__", "read", "read 0", "read 1", "read 2", "truncate")


class Python:
    """the buffer of protocol.pbuffer"""

    def __init__(self, ck, p):
        self.ck = ck
        self.cls = p.cls(MOD + ":pq_message_stream")
        self.rule = Streams((MOD, "postgresql.protocol.message_types"))
        self.eng = Engine(p, self.rule)
        self.fr = self.eng.module_frame(p.module(MOD))
        self.p, self.n = p, 0

    def loc(self, name):
        m = self.p.find_method(self.cls, name.split()[0])
        if m is None:
            raise AnalysisBroken("P02: pq_message_stream.%s is not found" % name)
        self.ck.func(m)
        return m.loc()

    def call(self, st, f, args=()):
        self.n += 1
        x = ast.parse("0").body[0].value
        x.lineno, x.col_offset = -self.n, 0
        return self.eng.call(x, f, list(args), (), st, self.fr)

    def new(self):
        r = self.call(State(ts=()), G(self.cls.full))
        if len(r) != 1 or r[0].kind != "v" or r[0].val[0] != "obj":
            raise AnalysisBroken("P02: a pq_message_stream is not made: %s" % r)
        self.me = r[0].val
        return r[0].st

    def op(self, st, name, wire=None):
        """(what it gives, state after); what it gives is a text when it is not known"""
        name, _, n = name.partition(" ")
        self.loc(name)
        args = [wire] if wire is not None else [C(int(n))] if n else []
        m = self.p.find_method(self.cls, name)
        was = self.rule.misreads
        try:
            outs = self.call(st, ("bm", self.me, m.full), args)
        except AnalysisBroken:
            if self.rule.misreads == was:
                raise
            return "octets of a body taken for a length", st
        if len(outs) != 1:
            return "%d outcomes" % len(outs), st
        o = outs[0]
        if o.kind != "v":
            return ("raises", o.val[1].rsplit(".", 1)[-1]), o.st
        return self.value(o.val, o.st), o.st

    def value(self, t, st):
        if is_const(t) and t[1] != "bytes":
            return t[2]
        b = self.rule.decide(self.eng, t, st) if t[0] in ("cmp", "not", "op") else None
        if b is not None:
            return b
        a = self.rule.atoms(t)
        if a is not None:
            return self.rule.wire(a)
        it = self.eng.exact_items(t, st)
        if it is not None:
            return tuple(self.value(x, st) for x in it)
        n = self.rule.num(t)
        if n is not None and not n[1]:
            return int(n[0])
        return show(t)

    def key(self, st):
        return tuple(sorted((k[1], show(v)) for k, v in st.heap.items() if k[0][:2] in (("obj", "file"), self.me[:2]) and k[1] != "$items"))


class C_:
    """the buffer of the extension"""

    def __init__(self, ck):
        import checks.p15 as p15
        self.ck, self.c15 = ck, p15
        self.tree = t = p15.Tree(p15.REPO)
        self.ops = p15.member(t, p15.BUFFER, p15.table_of(t, p15.BUFFER, "tp_methods"))
        self.ops["__len__"] = p15.sequence_length(t, p15.BUFFER)
        self.ops["__next__"] = p15.slot(p15.Call(p15.Api(t)), p15.BUFFER, "tp_iternext")
        self.rule = Streams(())
        self.types = p15.types_of(t)

    def loc(self, name):
        f = self.ops.get(name.split()[0])
        if f is None or f not in self.tree.funcs:
            raise AnalysisBroken("P02: %s of the extension's buffer is not found" % name)
        return "postgresql/port/_optimized/%s:%d" % self.tree.funcs[f]["at"]

    def new(self):
        p15 = self.c15
        m = p15.Api(self.tree, False, p15.Choices())
        c = self.c = p15.Call(m)
        for name, fn in (("local_ntohl", "swap_int4"), ("local_ntohs", "swap_short")):
            if name in self.tree.vars and fn in self.tree.funcs:
                c.function(name, fn)
        self.types(c)
        self.b = p15.make(c, p15.BUFFER)
        self.snaps, self.keys = [], {}
        self.base = m.obs.index(self.b)
        return self.snap()

    def snap(self):
        m = self.c.m
        obs = m.obs[self.base:]
        mems = [x for x in m.mems] + [o.mem for o in obs if o.mem is not None]
        self.snaps.append((list(m.mems), list(self.c.held), [(o, o.refs, o.dead, o.items and list(o.items), o.mem, dict(o.dict)) for o in obs], [(x, dict(x.data), x.dead, x.size) for x in mems]))
        return len(self.snaps) - 1

    def back(self, st):
        m = self.c.m
        mm, held, obs, mems = self.snaps[st]
        m.obs[self.base:] = [x[0] for x in obs]
        m.mems[:] = mm
        self.c.held[:] = held
        m.err, m.steps = None, 0
        for o, r, d, i, x, y in obs:
            o.refs, o.dead, o.items, o.mem, o.dict = r, d, i and list(i), x, dict(y)
        for x, data, d, size in mems:
            x.data, x.dead, x.size = dict(data), d, size

    def do(self, c, b, name, wire):
        name, _, n = name.partition(" ")
        if wire is not None:
            at = []
            for a in self.rule.atoms(wire):
                at += list(a[1]) if a[0] == "bytes" else [("o", i) for i in range(a[1], a[2])]
            args = [c.bytes(at)]
        elif name == "__len__" or name == "__next__":
            args = []
        elif name == "read":
            args = [c.tuple(*([c.int(int(n))] if n else []))]
        else:
            args = [0]
        try:
            r = c(self.ops[name], b, *args, quiet=name == "__next__")
        except self.c15.Bad as e:
            return "%s (%s)" % (e.msg, e.rule)
        except AnalysisBroken as e:
            if "('o', " in str(e):
                return "octets of a body taken for a length"
            raise
        m = c.m
        if m.err is not None:
            got = ("raises", m.err[0])
            m.clear()
            return got
        if r is None or r == 0 and not isinstance(r, int):
            return ("raises", "StopIteration")
        return self.value(m, r)

    def value(self, m, o):
        if isinstance(o, int):
            return o
        if o is m.none:
            return None
        if o in (m.true, m.false):
            return o is m.true
        if o.kind == "bytes":
            atoms = []
            for x in m.atoms_of(o):
                atoms.append(("bytes", bytes([x])) if isinstance(x, int) else ("run", x[1], x[1] + 1) if isinstance(x, tuple) and x[0] == "o" and isinstance(x[1], int) else ("bytes", b"?"))
            return self.rule.wire(atoms)
        if o.items is not None:
            return tuple(self.value(m, x) for x in o.items)
        return o.value if isinstance(o.value, int) else repr(o)

    def op(self, st, name, wire=None):
        self.loc(name)
        self.back(st)
        got = self.do(self.c, self.b, name, wire)
        return got, self.snap()

    def key(self, st):
        if st not in self.keys:
            self.back(st)
            self.keys[st] = self.keyed(self.c, self.b)
        return self.keys[st]

    def keyed(self, c, b):
        out, seen = [], {}

        def dump(mem):
            if mem in seen:
                return
            seen[mem] = len(seen)
            for k, v in sorted(mem.data.items()):
                if isinstance(v, tuple) and v[:1] == ("pp",):
                    if v[2]:
                        continue
                    v = v[1]
                if isinstance(v, tuple) and v[:1] == ("ptr",):
                    x = v[1]
                    if isinstance(x, self.c15.Ob):
                        out.append((k, None if x.mem is None else c.m.atoms_of(x), v[2]))
                    else:
                        dump(x)
                        out.append((k, seen[x], v[2]))
                else:
                    out.append((k, v))
        dump(b.mem)
        return tuple(map(str, out))


def message(rule, w):
    """the first message of unread octets: None when it has not arrived, "bad" when its length cannot be, (type, body, rest)"""
    n = rule.length(w)
    if n < 5:
        return None
    a = rule.atoms(w)
    h = rule.wire(rule.cut(a, 0, 5))
    assert is_const(h), "streams have headers of octets"
    size = int.from_bytes(h[2][1:], "big")
    if size < 4:
        return "bad"
    if n < size + 1:
        return None
    return C(h[2][:1]), rule.wire(rule.cut(a, 5, size + 1)), rule.wire(rule.cut(a, size + 1, n))


def wanted(rule, w, name):
    """[(what the operation may give, unread octets after)]"""
    got, rest = [], w
    while True:
        m = message(rule, rest)
        if m is None or m == "bad":
            break
        got.append((m[:2], m[2]))
        rest = m[2]
    bad = m == "bad"
    first = message(rule, w)
    err = [(("raises", "ValueError"), w)]
    if name == "has_message":
        return err if first == "bad" else [(first is not None, w)]
    if name == "__len__":
        return err if bad else [(len(got), w)]
    if name == "getvalue":
        return [(w, w)]
    if name in ("next_message", "__next__"):
        if first == "bad":
            return err
        if first is None:
            return [(None if name == "next_message" else ("raises", "StopIteration"), w)]
        return [(first[:2], first[2])]
    if name.startswith("read"):
        n = int(name[5:]) if name[5:] else len(got)
        take = got[:n]
        out = [(tuple(x[0] for x in take), take[-1][1] if take else w)]
        if bad:
            # what is read before the refused one may be given first or with the error
            if n == 0 or take:
                return out + err
            return err
        return out
    if name == "truncate":
        return [(None, C(b""))]


def stream(sizes, bad=None):
    """messages with bodies of these sizes, then one of a length that cannot be"""
    atoms, at = [], 0
    for i, n in enumerate(sizes):
        atoms.append(("bytes", bytes([0x44 + i if i != 1 else 0xC4]) + (n + 4).to_bytes(4, "big")))
        at += 5
        if n:
            atoms.append(("run", at, at + n))
        at += n
    if bad is not None:
        atoms.append(("bytes", b"Z" + bad.to_bytes(4, "big")))
    return atoms


def text(rule, x):
    if isinstance(x, tuple) and x[:1] == ("c",):
        return x[2].hex() if isinstance(x[2], bytes) else str(x[2])
    if isinstance(x, tuple) and x[:1] == ("wire",):
        return "+".join(a[1].hex() if a[0] == "bytes" else "%d..%d" % a[1:3] for a in x[1] if len(a) in (2, 3))
    if isinstance(x, tuple):
        return "(" + ", ".join(text(rule, y) for y in x) + ")"
    return str(x)


def explore(ck, m, atoms, cuts, ops, bad_out):
    """every order of writes of the stream at the cuts and of operations, states compared by what the buffer holds"""
    rule = Streams(())
    total = sum(map(rule.size, atoms))
    st = m.new()
    todo, seen = [(0, C(b""), st)], set()
    ends, x = {0}, rule.wire(atoms)
    while rule.length(x):
        r = message(rule, x)
        if r in (None, "bad"):
            break
        x = r[2]
        ends.add(total - rule.length(x))
    label = "stream of %d octets" % total
    while todo:
        at, w, st = todo.pop()
        k = (at, w, m.key(st))
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 6000:
            raise AnalysisBroken("P02: the states of the buffer do not end (%s)" % label)
        ck.count("states")
        if sum(map(len, bad_out.values())) > 40:
            return
        for nx in cuts:
            if nx <= at or nx > at + 4 and nx != cuts[-1] and len(cuts) > 24 and nx - at < 3:
                continue
            part = rule.wire(rule.cut(atoms, at, nx))
            got, s = m.op(st, "write", part)
            ck.count("steps")
            ok = got is None
            bad_out.setdefault(("write", "written data is taken", m.loc("write")), [])
            if not ok:
                bad_out[("write", "written data is taken", m.loc("write"))].append("%s: octets %d to %d: %s" % (label, at, nx, text(rule, got)))
                continue
            todo.append((nx, rule.wire((rule.atoms(w) or []) + rule.atoms(part)), s))
        for name in ops:
            got, s = m.op(st, name)
            ck.count("steps")
            want = wanted(rule, w, name)
            hit = [r for v, r in want if v == got and type(v) == type(got)]
            rn, what = RULES[name.split()[0]]
            key = (rn, what, m.loc(name))
            bad_out.setdefault(key, [])
            if not hit:
                bad_out[key].append("%s, %d written, %s unread: %s gives %s, not %s" % (label, at, text(rule, w)[:40] or "nothing", name, text(rule, got)[:60], text(rule, want[0][0])[:60]))
            elif name != "truncate" or at in ends:
                # an operation that hands out nothing is part of the history too
                todo.append((at, hit[-1] if got == ("raises", "ValueError") else hit[0], s))


RULES = {"has_message": ("whole", "a message is announced when all of it has arrived, not before"),
         "__len__": ("whole", "the messages that have arrived are counted"),
         "next_message": ("cut", "the next message is handed out once, whole, with its type and its body"),
         "__next__": ("cut", "the iterator hands out the next message once, whole, with its type and its body"),
         "read": ("cut", "read hands out the messages that have arrived, in order, no more than asked for"),
         "getvalue": ("rest", "what was not handed out is kept"),
         "truncate": ("rest", "nothing is left when the buffer is emptied")}


def run(ck, p):
    ck.rule("write", "the buffer takes any part of the stream")
    ck.rule("whole", "a message is there when its five octets of header and the whole body its length announces have arrived; a length below four is refused")
    ck.rule("cut", "messages are handed out once, in order, with their type and exactly their body; a length below four is refused")
    ck.rule("rest", "unread data is kept, and gone after it is truncated")
    deep = ck.tier == "thorough"
    for m in (Python(ck, p), C_(ck)):
        total = {}
        small = [((), 3), ((0,), None), ((1,), 3), ((0, 2), None), ((2, 0, 1), None), ((0,), 0), ((3, 1), 2)] + ([((1, 1, 1, 1), None), ((4, 0), 1)] if deep else [])
        for sizes, bad in small if deep or isinstance(m, Python) else small[:4] + small[5:6]:
            atoms = stream(sizes, bad)
            n = sum(map(Streams(()).size, atoms))
            cuts = list(range(1, n + 1))
            if not isinstance(m, Python) and n > (11 if deep else 6):
                # the parts stay apart in this buffer: cut at and around the ends of headers and messages
                at, cuts = 0, set()
                for size in sizes:
                    cuts |= {at + 1, at + 4, at + 5, at + size + 5}
                    at += size + 5
                cuts = sorted(x for x in cuts | {at + 2, at + 4, n} if x <= n)
            explore(ck, m, atoms, cuts, OPS, total)
        # around the limits of what is kept before it is moved
        for first in (2043, 2044) + ((4096,) if deep else ()) if isinstance(m, Python) else (20,):
            for second in (0, 9) if not isinstance(m, Python) else ((0, 505, 506, 507, 508, 1019, 1020) + ((1, 511, 512, 1530, 1531, 1532, 3000) if deep else ())):
                atoms = stream((first, second, 3))
                a, b = first + 5, first + second + 10
                explore(ck, m, atoms, [a, a + 3, b - 1, b, b + 4, b + 8], [o for o in OPS if o not in ("truncate", "__len__", "read 0")], total)
        for (rule, what, at), xs in sorted(total.items()):
            ck.judge(not xs, rule, what + ("" if isinstance(m, Python) else " (C)"), at, "%s (%d more)" % (xs[0], len(xs) - 1) if xs else "")
    if not any(total.values()):
        ck.at_least("states", 500)
