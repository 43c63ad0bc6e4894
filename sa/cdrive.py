"""Paths through functions of the extension, each from its start to the release of everything held."""
from .capi import *


class Call:
    """one use of the extension: objects are made, functions are called, what is held is released"""

    def __init__(self, m):
        self.m = m
        self.held = []

    def hold(self, o):
        self.held.append(o)
        return o

    def bytes(self, data, size=None):
        return self.hold(self.m.bytes(list(data), "data", size))

    def view(self, data):
        """an object with a buffer that is not bytes: no octet follows its data"""
        o = self.bytes(data)
        o.kind, o.name, o.mem.kind = "view", "view", "view"
        return o

    def tuple(self, *items, exact=True):
        return self.hold(self.keep("tuple", items, exact))

    def list(self, *items):
        return self.hold(self.keep("list", items, True))

    def keep(self, kind, items, exact):
        for x in items:
            self.m.incref(x)
        return self.m.ob(kind, "argument", items=list(items), exact=exact)

    def int(self, v):
        return self.hold(self.m.ob("int", "int", value=v))

    def other(self, kind="opaque", name="object", **attrs):
        o = self.hold(self.m.ob(kind, name))
        for k, v in attrs.items():
            self.m.incref(v)
            o.dict[k] = v
        return o

    def glob(self, name, o):
        """a global of the extension that holds an object"""
        mem, at, t = self.m.glob(name)
        self.m.store(mem, at, t, self.m.P(o))

    def function(self, name, value):
        mem, at, t = self.m.glob(name)
        self.m.store(mem, at, t, ("fn", value))

    def __call__(self, name, *args, quiet=False):
        """the result: an object, a number, None when it failed"""
        m = self.m
        m.at = ("module.c", 0)
        if name not in m.t.funcs:
            raise AnalysisBroken("the C function %s is not found" % name)
        r = m.call(name, [m.P(a) if isinstance(a, Ob) else a for a in args])
        return self.result(name, r, quiet)

    def result(self, name, r, quiet=False):
        m = self.m
        rt = m.t.funcs[name]["type"]["qualType"].split("(")[0].strip()
        m.at = m.t.funcs[name].get("at") or m.at
        if rt.endswith("*"):
            if r == 0:
                if m.err is None and not quiet:
                    m.bad("error", "%s reports a failure without an exception" % name)
                return None
            o = m.live(r, "the result")
            if m.err is not None:
                m.bad("error", "%s gives a result with an exception set" % name)
            self.whole(o)
            return self.hold(o)
        if rt == "void":
            return None
        if (m.err is not None) != (isinstance(r, int) and r < 0):
            m.bad("error", "%s gives %s with %s exception set" % (name, r, "an" if m.err else "no"))
        return r

    def whole(self, o):
        for x in o.items or ():
            if x is None:
                self.m.bad("null", "a result has an item that was not set")
            if x.dead:
                self.m.bad("owned", "a result has an item that was released")
            self.whole(x)
        if o.mem is not None and o.kind == "bytes" and not o.mem.dead:
            if None in self.m.atoms_of(o)[:4096] if o.mem.size <= 1 << 16 else False:
                self.m.bad("uninit", "a result has octets that were not written")


def paths(tree, use, faults, bad, count=None, limit=20000):
    """every path of a use; bad(rule, message, place, story)"""
    ch = Choices()
    n = 0
    while True:
        ch.start()
        n += 1
        if n > limit:
            raise AnalysisBroken("the paths of a use of the extension do not end")
        m = Api(tree, faults, ch)
        c = Call(m)
        for name, fn in (("local_ntohl", "swap_int4"), ("local_ntohs", "swap_short")):
            if name in tree.vars and fn in tree.funcs:
                c.function(name, fn)
        try:
            use(c)
            m.finish(c.held, {o: 1 for o in (m.none, m.true, m.false)})
        except Bad as b:
            bad(b.rule, b.msg, b.at, ch.story())
        if not ch.next():
            return n


def types_of(tree):
    """the message types as the extension has them"""
    def make(c):
        items = []
        for i in range(256):
            o = c.m.bytes([i], "type %d" % i)
            items.append(o)
        t = c.m.ob("tuple", "message_types", items=items)
        c.glob("message_types", t)
        return t
    return make
