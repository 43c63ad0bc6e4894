"""P25: temporary settings are restored, the settings cache follows the server, subscribers are called.

The settings object is interpreted against a model of the server's settings: every operation from every cache that agrees
with the server (each subset of the names cached), with a failure at each server call.  The invariant proved by induction
over the operations is that every cached value is the server's."""
import itertools
import re
from sa.rules import *

MOD = "postgresql.driver.pq3"
SELF = ("p", "$settings")
DB = ("p", "$database")
CACHE = ("obj", "dict", "$cache", 0)
TEMP = ("obj", "dict", "$temp", 0)
SUBS = ("obj", "dict", "$subs", 0)
LK, LA = ("obj", "list", "$subs_key", 0), ("obj", "list", "$subs_all", 0)
SP, TZ, NO = "search_path", "TimeZone", "no_such"
START = {SP: C("a"), TZ: C("b")}
ERR = "?:postgresql.exceptions.Error"


def D(d):
    return ("D", tuple((C(k) if not isinstance(k, tuple) else k, v) for k, v in d.items()))


class R(EventRule):
    """ts: (server state, events)"""
    widen_after = 12
    max_depth = 8
    fresh = 64
    initial = ()

    def __init__(self, classes, p=None):
        self.p = p
        self.classes = classes
        self.live = []
        self.unknown = []

    def types(self, eng):
        return self.classes

    def inline(self, eng, func):
        if func.module.name == "postgresql.string" and func.name in ("escape_ident", "quote_ident"):
            return True
        return func.module.name == MOD and (func.cls is not None and func.cls.name in ("Settings", "SettingsCM", "Transaction", "Connection"))

    def may_raise(self, eng, f, node, st):
        return False

    def on_for(self, eng, node, it, st):
        for l in (LK, LA):
            if contains(it, l):
                self.live.append(node)

    def decide(self, eng, t, st):
        c = call_parts(t)
        if c and c[0] == G("builtins.callable"):
            return True
        if t[0] == "cmp" and t[1] in ("is", "==") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "p" and str(a[1])[:1] == "$" and is_const(b):
                    return False
        return None

    def subscript(self, eng, node, base, idx, st, fr):
        r = self.own(eng, node, base, "__getitem__", (idx,), st, fr)
        if r is not None:
            return r
        if base[0] == "tuple" and len(base) == 3 and is_const(idx) and idx[1] == "str":
            i = {"name": 0, "key": 0, "setting": 1, "value": 1}.get(idx[2])
            if i is not None:
                return [Out("v", st, base[1 + i])]
        return None

    def own(self, eng, node, base, name, args, st, fr):
        if base in self.classes:
            f = self.p.find_method(self.p.class_by_dotted(self.classes[base]), name)
            if f is not None:
                return eng.call_func(node, f, [base] + list(args), (), st, fr)

    def setitem(self, eng, node, base, idx, val, st, fr):
        return self.stmt(self.own(eng, node, base, "__setitem__", (idx, val), st, fr))

    def delete(self, eng, node, base, key, st, fr):
        return self.stmt(self.own(eng, node, base, "__delitem__", (key,), st, fr))

    @staticmethod
    def stmt(outs):
        return outs and [Out("next", o.st) if o.kind == "v" else o for o in outs]

    @staticmethod
    def canon(v):
        """what the server says of a value it was given: its own spelling of it"""
        if is_const(v) and not str(v[2]).endswith("new"):
            return v
        return ("p", "$canon", v)

    def ev(self, st, *e):
        return st.with_ts((st.ts[0], st.ts[1] + (e,)))

    def srv(self, st, d):
        return st.with_ts((tuple(sorted(d.items())), st.ts[1]))

    def key(self, t):
        return t[2] if is_const(t) and t[1] == "str" else None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if f == G("builtins.getattr") and len(args) == 3 and is_const(args[1]) and args[0] in self.classes:
            v = st.heap.get((args[0], args[1][2]))
            return [Out("v", st, args[2] if v is None else v)]
        if f == G("builtins.hasattr") and len(args) == 2 and is_const(args[1]) and args[0] in self.classes:
            return [Out("v", st, C((args[0], args[1][2]) in st.heap))]
        if f in (G("sys.excepthook"), G("sys.exc_info")):
            return [Out("v", st, ("tuple", ("p", "$et"), ("p", "$ev"), ("p", "$tb")) if name == "exc_info" else NONE)]
        if f[0] == "p" and str(f[1]).startswith("$callback"):
            want = (DB, C(SP), C("srv"))
            st = self.ev(st, "callback", f[1], tuple(args) == want and not kws, self.cached(eng, st).get(SP))
            return [Out("v", st, NONE), Out("raise", st, ("exc", "?:builtins.Exception", ("excval", f[1], node.lineno)), node)]
        if f == ("attr", ("attr", DB, "typio"), "_decode"):
            return [Out("v", st, ("tuple", {("p", "$name"): C(SP), ("p", "$value"): C("srv")}.get(args[0], ("top", node.lineno)), C(4)))]
        if recv == ("attr", DB, "sys"):
            return self.server(eng, node, name, tuple(args), st)
        if recv == DB and name in ("execute", "query"):
            return self.execute(eng, node, args[0], st)
        if f == ("attr", DB, "execute"):
            return self.execute(eng, node, args[0], st)
        return None

    def fail(self, node, st, what):
        return Out("raise", self.ev(st, what, "!"), ("exc", ERR, ("excval", what, node.lineno)), node)

    def server(self, eng, node, name, args, st):
        d = dict(st.ts[0])
        bad = self.fail(node, st, name)
        done = self.ev(st, name)
        if name == "setting_get":
            k = self.key(args[0])
            if k is None:
                return self.odd(node, name, args, st)
            rows = (("tuple", d[k]),) if k in d else ()
            return [Out("v", done, ("tuple",) + rows), bad]
        if name == "setting_set":
            k = self.key(args[0])
            if k is None or len(args) != 2:
                return self.odd(node, name, args, st)
            if k not in d:
                return [bad]
            d[k] = self.canon(args[1])
            return [Out("v", self.srv(done, d), d[k]), bad]
        if name == "setting_mget":
            ks = eng.exact_items(args[0], st)
            if ks is None or any(self.key(k) is None for k in ks):
                return self.odd(node, name, args, st)
            rows = tuple(("tuple", C(k), d[k]) for k in sorted({self.key(x) for x in ks}) if k in d)
            return [Out("v", done, ("tuple",) + rows), bad]
        if name == "setting_update":
            its = eng.exact_items(args[0], st)
            prs = [eng.exact_items(x, st) for x in its] if its is not None else None
            if prs is None or any(x is None or len(x) != 2 or self.key(x[0]) is None for x in prs):
                return self.odd(node, name, args, st)
            if any(self.key(x[0]) not in d for x in prs):
                return [bad]
            for k, v in prs:
                d[self.key(k)] = self.canon(v)
            return [Out("v", self.srv(done, d), ("tuple",) + tuple(("tuple", k, d[self.key(k)]) for k, _ in prs)), bad]
        return [Out("v", done, ("p", "$" + str(name))), bad]

    def odd(self, node, name, args, st):
        self.unknown.append((node, "%s(%s)" % (name, ", ".join(show(a) for a in args))))
        return [self.fail(node, st, name)]

    def execute(self, eng, node, sql, st):
        d = dict(st.ts[0])
        text = show(sql) if not is_const(sql) else sql[2]
        done = self.ev(st, "execute", text)
        bad = self.fail(node, st, "execute")
        first = text.strip().split(None, 1)[0].rstrip(";").upper().strip("'\"") if text.strip() else ""
        m = re.fullmatch(r'\s*RESET\s+"?(\w+)"?\s*;?\s*', text, re.I) if is_const(sql) else None
        if m and m.group(1).lower() != "all":
            if m.group(1) not in d:
                return [bad]
            d[m.group(1)] = C("default")
            return [Out("v", self.srv(done, d), NONE), bad]
        if first in ("SET", "SELECT", "RESET", "DISCARD") or first == "":
            if not re.search(r"RESET\s+ALL|DISCARD", text):
                return self.odd(node, "execute", (sql,), st)
        # the end of a transaction, or a reset: what was set may be taken back, whether or not the call then fails
        d2 = {k: C("back") for k in d}
        return [Out("v", done, NONE), bad, Out("v", self.srv(done, d2), NONE), self.fail(node, self.srv(st, d2), "execute")]

    @staticmethod
    def cached(eng, st):
        c = eng.hget(st, (CACHE, "$items"))
        return {k[2]: v for k, v in c[1]} if c is not None and c[0] == "D" and all(is_const(k) for k, _ in c[1]) else None


def run(ck, p):
    ck.rule("cache", "after every operation, done or failed, each cached value is the one the server has")
    ck.rule("value", "reading gives the server's value; an unknown name raises KeyError, or gives the alternative")
    ck.rule("set", "after a successful assignment the server has the value, after a deletion its default")
    ck.rule("restore", "leaving a settings context gives back exactly the values read on entry, by return and by exception alike")
    ck.rule("entry", "entering reads the values before it sets them; a failure on entry leaves the server as it was; re-use raises")
    ck.rule("subscribers", "a report calls every subscriber of its key and of all keys, whichever of them raise or unsubscribe")
    ck.rule("report", "a report of the server is noted in the cache, and reaches the settings object")
    ck.rule("takeback", "whatever takes settings back (reset, end of a transaction) leaves no cached value behind")
    ck.rule("writers", "nothing else sets a parameter through the library, or stores in the cache")
    S = p.cls(MOD + ":Settings")
    CM = p.cls(MOD + ":SettingsCM")
    XA = p.cls(MOD + ":Transaction")
    CN = p.cls(MOD + ":Connection")

    def start(cached, server=None, subs=None):
        srv = dict(server or START)
        st = State(ts=(tuple(sorted(srv.items())), ()))
        st = st.hset((SELF, "database"), DB).hset((SELF, "cache"), CACHE)
        st = st.hset((CACHE, "$items"), D({k: srv[k] for k in cached}))
        st = st.hset((DB, "settings"), SELF)
        if subs:
            st = st.hset((SELF, "_subscriptions"), SUBS).hset((SUBS, "$items"), D({k: l for k, l in subs.items()}))
        return st

    classes = {SELF: S.full}

    def go(cls, meth, args, st, self_t=SELF, more=None, fn=None):
        f = fn or p.find_method(cls, meth)
        if f is None:
            raise AnalysisBroken("P25: %s.%s vanished" % (cls.name, meth))
        ck.func(f)
        rule = R({**classes, **(more or {})}, p)
        eng = Engine(p, rule)
        outs = eng.run(f, dict({"self": self_t}, **args), self_class=cls.full, st=st)
        for node, what in rule.unknown:
            ck.finding("set", "%s.%s" % (cls.name, meth), f.loc(node), "gives the server %s" % what)
        ck.count("runs")
        ck.count("exits", len(outs))
        if not outs:
            raise AnalysisBroken("P25: %s.%s has no exit" % (cls.name, meth))
        return f, eng, rule, outs

    def inv(name, f, eng, outs, rule="cache"):
        for o in outs:
            c = R.cached(eng, o.st)
            if c is None:
                raise AnalysisBroken("P25: the cache after %s is not followed" % name)
            d = dict(o.st.ts[0])
            off = ["%s is cached as %s while the server has %s" % (k, show(v), show(d.get(k, NONE))) for k, v in sorted(c.items()) if d.get(k) != v]
            ck.judge(not off, rule, name, f.loc(),
                     "ends by %s, and %s" % (o.kind, "; ".join(off)), o.st.trace)

    def events(o):
        return o.st.ts[1]

    def failed(o):
        return any(e[-1] == "!" for e in events(o))

    def kind(o):
        return o.val[1] if o.kind == "raise" and o.val[0] == "exc" else None

    SUBSETS = [s for n in range(3) for s in itertools.combinations((SP, TZ), n)]
    ALT = ("p", "$alternative")

    # ---- reading and writing one name
    for cached in SUBSETS:
        nm = lambda m: "%s, cached %s" % (m, "/".join(cached) or "nothing")
        for k in (SP, NO):
            f, eng, _, outs = go(S, "__getitem__", {"i": C(k)}, start(cached))
            inv(nm("[%s]" % k), f, eng, outs)
            for o in outs:
                good = failed(o) and o.kind == "raise" or not failed(o) and (o.kind == "return" and o.val == START[k] if k in START else kind(o) == "builtins.KeyError")
                ck.judge(good, "value", nm("[%s]" % k), f.loc(), "ends by %s %s" % (o.kind, show(o.val)), o.st.trace)
                ck.judge(dict(o.st.ts[0]) == START, "set", nm("[%s]" % k), f.loc(), "reading changes the server's settings", o.st.trace)
            f, eng, _, outs = go(S, "get", {"k": C(k), "alt": ALT}, start(cached))
            inv(nm("get(%s)" % k), f, eng, outs)
            for o in outs:
                good = failed(o) and o.kind == "raise" or not failed(o) and o.kind == "return" and o.val == START.get(k, ALT)
                ck.judge(good, "value", nm("get(%s)" % k), f.loc(), "ends by %s %s" % (o.kind, show(o.val)), o.st.trace)
            for v in (C("a"), C("new")):
                f, eng, _, outs = go(S, "__setitem__", {"i": C(k), "v": v}, start(cached))
                n2 = nm("[%s] = %s" % (k, v[2]))
                inv(n2, f, eng, outs)
                for o in outs:
                    d = dict(o.st.ts[0])
                    want = dict(START, **{k: R.canon(v)})
                    good = d == START and o.kind == "raise" if failed(o) else d == want and o.kind == "return"
                    ck.judge(good, "set", n2, f.loc(), "ends by %s with the server's value %s" % (o.kind, show(d.get(k, NONE))), o.st.trace)
            f, eng, _, outs = go(S, "__delitem__", {"k": C(k)}, start(cached))
            n2 = nm("del [%s]" % k)
            inv(n2, f, eng, outs)
            for o in outs:
                d = dict(o.st.ts[0])
                good = d == START and o.kind == "raise" if failed(o) else d == dict(START, **{k: C("default")}) and o.kind == "return"
                ck.judge(good, "set", n2, f.loc(), "ends by %s with the server's value %s" % (o.kind, show(d.get(k, NONE))), o.st.trace)
        f, eng, _, outs = go(S, "_clear_cache", {}, start(cached))
        inv(nm("_clear_cache"), f, eng, outs)
        for o in outs:
            ck.judge(not R.cached(eng, o.st), "takeback", nm("_clear_cache"), f.loc(), "leaves values cached", o.st.trace)

        # ---- several at once
        for n in range(4):
            for ks in itertools.combinations((SP, TZ, NO), n):
                f, eng, _, outs = go(S, "getset", {"keys": ("tuple",) + tuple(C(k) for k in ks)}, start(cached))
                n2 = nm("getset(%s)" % ", ".join(ks))
                inv(n2, f, eng, outs)
                for o in outs:
                    if failed(o) or NO in ks:
                        good = o.kind == "raise" and (failed(o) or kind(o) == "builtins.KeyError")
                    else:
                        good = o.kind == "return" and mapping(eng, o.val, o.st) == {k: START[k] for k in ks}
                    ck.judge(good, "value", n2, f.loc(), "ends by %s %s" % (o.kind, show(o.val)), o.st.trace)
                f, eng, _, outs = go(S, "update", {"d": TEMP}, start(cached).hset((TEMP, "$items"), D({k: C("new") for k in ks})))
                n2 = nm("update(%s)" % ", ".join(ks))
                inv(n2, f, eng, outs)
                for o in outs:
                    d = dict(o.st.ts[0])
                    if failed(o) or NO in ks:
                        good = o.kind == "raise" and d == START
                    else:
                        good = o.kind == "return" and d == dict(START, **{k: R.canon(C("new")) for k in ks})
                    ck.judge(good, "set", n2, f.loc(), "ends by %s with the server's values %s" % (o.kind, show_map(d)), o.st.trace)

    # ---- the path
    path(ck, p, go, start, inv, S, SUBSETS)

    # ---- contexts
    cself = ("p", "$context")
    more = {cself: CM.full}
    fcall, eng, _, outs = go(S, "__call__", {"settings": TEMP}, start(()).hset((TEMP, "$items"), D({SP: C("new")})))
    for o in outs:
        ck.ok("entry", "settings(...)")
        a = o.st
        if o.kind != "return":
            ck.finding("entry", "settings(...)", fcall.loc(), "ends by %s" % o.kind, o.st.trace)
        elif dict(a.ts[0]) != START:
            ck.finding("entry", "settings(...)", fcall.loc(), "making a context sets something already", o.st.trace)
    init = p.find_method(CM, "__init__")
    for cached in SUBSETS:
        for ks in [s for n in (1, 2) for s in itertools.combinations((SP, TZ), n)] + [(SP, NO)]:
            st = start(cached).hset((TEMP, "$items"), D({k: C("new") for k in ks}))
            f, eng, _, outs = go(CM, "__init__", {"database": DB, "settings_to_set": TEMP}, st, cself, more)
            if len(outs) != 1 or outs[0].kind != "return":
                raise AnalysisBroken("P25: a settings context has %d beginnings" % len(outs))
            f, eng, _, outs = go(CM, "__enter__", {}, outs[0].st, cself, more)
            nm = "enter %s, cached %s" % ("/".join(ks), "/".join(cached) or "nothing")
            inv(nm, f, eng, outs)
            entered = 0
            for o in outs:
                d = dict(o.st.ts[0])
                if failed(o) or NO in ks:
                    ck.judge(o.kind == "raise" and d == START, "entry", nm, f.loc(),
                             "entry fails, yet ends by %s with the server's values %s" % (o.kind, show_map(d)), o.st.trace)
                    continue
                ck.judge(o.kind == "return" and d == dict(START, **{k: R.canon(C("new")) for k in ks}), "entry", nm, f.loc(),
                         "ends by %s with the server's values %s" % (o.kind, show_map(d)), o.st.trace)
                if o.kind != "return":
                    continue
                entered += 1
                # entering again
                s2 = o.st.with_ts((o.st.ts[0], ()))
                f2, eng2, _, outs2 = go(CM, "__enter__", {}, s2, cself, more)
                for o2 in outs2:
                    ck.judge(o2.kind == "raise" and o2.st.ts[0] == s2.ts[0] and o2.st.heap.get((cself, "stored_settings")) == o.st.heap.get((cself, "stored_settings")),
                             "entry", nm + ", again", f2.loc(), "entering twice ends by %s" % o2.kind, o2.st.trace)
                # the block: nothing, or any change of any name, cached or not
                for blk in ({}, {SP: C("block")}, {TZ: C("block")}, {SP: C("block"), TZ: C("block")}):
                    for left in ((), (SP, TZ)):
                        srv = dict(d, **blk)
                        s3 = o.st.with_ts((tuple(sorted(srv.items())), ()))
                        s3 = s3.hset((CACHE, "$items"), D({k: srv[k] for k in left}))
                        for exc in (False, True):
                            a = {"typ": ("p", "$type"), "val": ("p", "$val"), "tb": ("p", "$tb")} if exc else {"typ": NONE, "val": NONE, "tb": NONE}
                            fx = p.find_method(CM, "__exit__")
                            names = [x.arg for x in fx.node.args.args][1:]
                            if len(names) == 3:
                                a = dict(zip(names, a.values()))
                            f3, eng3, _, outs3 = go(CM, "__exit__", a, s3, cself, more)
                            n3 = "leave %s%s, block sets %s, cached %s" % ("/".join(ks), " by an exception" if exc else "", "/".join(blk) or "nothing", "/".join(left) or "nothing")
                            inv(n3, f3, eng3, outs3)
                            done = False
                            for o3 in outs3:
                                d3 = dict(o3.st.ts[0])
                                if failed(o3):
                                    ck.judge(o3.kind == "raise", "restore", n3, f3.loc(), "the server refuses, and nothing is raised", o3.st.trace)
                                    continue
                                want = dict(srv, **{k: START[k] for k in ks})
                                done = True
                                ck.judge(o3.kind == "return" and d3 == want, "restore", n3, f3.loc(),
                                         "ends by %s with the server's values %s instead of %s" % (o3.kind, show_map(d3), show_map(want)), o3.st.trace)
                                ck.judge(o3.kind != "return" or o3.val in (NONE, FALSE), "restore", n3 + ", exception", f3.loc(),
                                         "returns %s, which suppresses the exception" % show(o3.val), o3.st.trace)
                            ck.judge(done, "restore", n3, f3.loc(), "no path restores")
            ck.judge(entered or NO in ks, "entry", nm, f.loc(), "no path enters")

    subscribers(ck, p, go, start, inv, S)
    takeback(ck, p, go, start, inv, S, XA, CN, SUBSETS)
    reports(ck, p, CN)
    writers(ck, p, S)


def show_map(d):
    return ", ".join("%s=%s" % (k, show(v)) for k, v in sorted(d.items()))


def mapping(eng, t, st):
    if t[0] == "obj":
        c = eng.hget(st, (t, "$items"))
        if c is not None and c[0] == "D" and all(is_const(k) for k, _ in c[1]):
            return {k[2]: v for k, v in c[1]}
    return None


def path(ck, p, go, start, inv, S, SUBSETS):
    fns = {f.name: f for f in p.all_funcs() if f.full.startswith(S.full.replace(":", ".") + ".path.")}
    for want in ("fget", "fset", "fdel"):
        if want not in fns:
            raise AnalysisBroken("P25: the path property has no %s" % want)
    for cached in SUBSETS:
        nm = lambda m: "%s, cached %s" % (m, "/".join(cached) or "nothing")
        f, eng, _, outs = go(S, "fdel", {}, start(cached), fn=fns["fdel"])
        inv(nm("del path"), f, eng, outs)
        for o in outs:
            d = dict(o.st.ts[0])
            bad = any(e[-1] == "!" for e in o.st.ts[1])
            good = d == START and o.kind == "raise" if bad else d == dict(START, **{SP: C("default")}) and o.kind == "return"
            ck.judge(good, "set", nm("del path"), f.loc(), "ends by %s with the path %s" % (o.kind, show(d[SP])), o.st.trace)
        f, eng, _, outs = go(S, "fset", {"value": ("tuple", C("x"), C("y"))}, start(cached), fn=fns["fset"])
        inv(nm("path = "), f, eng, outs)
        for o in outs:
            d = dict(o.st.ts[0])
            bad = any(e[-1] == "!" for e in o.st.ts[1])
            good = d == START and o.kind == "raise" if bad else d[SP] == C('"x","y"') and d[TZ] == START[TZ] and o.kind == "return"
            ck.judge(good, "set", nm("path = "), f.loc(), "ends by %s with the path %s" % (o.kind, show(d[SP])), o.st.trace)
        f, eng, _, outs = go(S, "fget", {}, start(cached), fn=fns["fget"])
        inv(nm("path"), f, eng, outs)
        for o in outs:
            c = call_parts(o.val) if o.kind == "return" else None
            bad = any(e[-1] == "!" for e in o.st.ts[1])
            ck.judge(o.kind == "raise" if bad else bool(c) and c[0] == G("postgresql.string.split_ident") and c[1][:1] == (START[SP],), "value", nm("path"), f.loc(),
                     "ends by %s %s instead of the parts of the server's value" % (o.kind, show(o.val)), o.st.trace)


CB = [("p", "$callback%d" % i) for i in range(4)]


def subscribers(ck, p, go, start, inv, S):
    note = p.find_method(S, "_notify")
    for nk in (0, 1, 2):
        for na in (0, 1, 2):
            for present in (True, False):
                if not present and (nk or na):
                    continue
                subs = {}
                if nk:
                    subs[SP] = LK
                if na:
                    subs[NONE] = LA
                st = start((SP,), dict(START, **{SP: C("a")}), dict(subs, **{TZ: ("obj", "list", "$subs_other", 0)}) if present else None)
                key, alls = CB[:nk], CB[2:2 + na]
                st = st.hset((LK, "$items"), ("L", tuple(key))).hset((LA, "$items"), ("L", tuple(alls)))
                st = st.hset((("obj", "list", "$subs_other", 0), "$items"), ("L", (("p", "$callback9"),)))
                # the server has the new value already
                st = st.with_ts((tuple(sorted(dict(START, **{SP: C("srv")}).items())), ()))
                msg = ("p", "$msg")
                st = st.hset((msg, "name"), ("p", "$name")).hset((msg, "value"), ("p", "$value"))
                f, eng, rule, outs = go(S, "_notify", {"msg": msg}, st)
                nm = "%d for the key, %d for all" % (nk, na)
                inv("report, " + nm, f, eng, outs, "report")
                ck.judge(not rule.live, "subscribers", nm + ", unsubscribing", f.loc(rule.live[0]) if rule.live else f.loc(),
                         "runs over the list that a callback may take itself out of, so that the next one is skipped")
                for o in outs:
                    if R.cached(eng, o.st).get(SP) != C("srv"):
                        ck.finding("report", nm, f.loc(), "the reported value is not cached", o.st.trace)
                    called = [e for e in o.st.ts[1] if e[0] == "callback"]
                    names = [e[1] for e in called]
                    missed = [c[1] for c in key + alls if c[1] not in names]
                    ck.judge(not missed and len(names) == len(set(names)) == nk + na, "subscribers", nm, f.loc(),
                             "calls %s of the subscribers %s" % (", ".join(names) or "none", ", ".join(c[1] for c in key + alls)), o.st.trace)
                    ck.judge(all(e[2] for e in called), "subscribers", nm + ", arguments", f.loc(),
                             "a subscriber is not given the connection, the name and the new value", o.st.trace)
                    ck.judge(o.kind != "raise", "subscribers", nm + ", exception", f.loc(), "the exception of a subscriber leaves %s" % f.name, o.st.trace)
    # subscribing and unsubscribing
    a, b = CB[0], CB[1]
    for key in (C(SP), NONE):
        for have in (None, (), (a,), (b,), (b, a)):
            st = start((), subs={key: LK} if have is not None else {TZ: LA})
            st = st.hset((LK, "$items"), ("L", have or ())).hset((LA, "$items"), ("L", (b,)))
            for meth in ("subscribe", "unsubscribe"):
                f, eng, rule, outs = go(S, meth, {"key": key, "callback": a}, st)
                want = tuple(have or ()) + (() if a in (have or ()) else (a,)) if meth == "subscribe" else tuple(x for x in have or () if x != a)
                nm = "%s %s, has %s" % (meth, "one key" if key != NONE else "all keys", len(have) if have is not None else "none")
                for o in outs:
                    subs = o.st.heap.get((SELF, "_subscriptions"))
                    m = eng.hget(o.st, (subs, "$items")) if subs else None
                    m = dict(m[1]) if m is not None and m[0] == "D" else {}
                    got = eng.exact_items(m[key], o.st) if key in m else ()
                    if got is None:
                        raise AnalysisBroken("P25: the list after %s is not followed" % nm)
                    ck.judge(o.kind == "return" and sorted(map(str, got)) == sorted(map(str, want)), "subscribers", nm, f.loc(),
                             "ends by %s with %s" % (o.kind, ", ".join(show(x) for x in got) or "none"), o.st.trace)
                    if m.get(C(TZ)) == LA:
                        ck.judge(tuple(eng.exact_items(LA, o.st) or ()) == (b,), "subscribers", nm + ", others", f.loc(), "changes the subscribers of another key", o.st.trace)


def takeback(ck, p, go, start, inv, S, XA, CN, SUBSETS):
    t = ("p", "$transaction")
    for cached in SUBSETS:
        for meth in ("commit", "rollback"):
            for typ in ("block", "savepoint"):
                for state in ("open", "prepared") if meth == "rollback" else ("open",):
                    st = start(cached).hset((t, "database"), DB).hset((t, "type"), C(typ)).hset((t, "state"), C(state))
                    f, eng, _, outs = go(XA, meth, {}, st, t, {t: XA.full})
                    nm = "%s of a %s, cached %s" % (meth, typ, "/".join(cached) or "nothing")
                    if meth == "commit" and typ == "savepoint":
                        # a release takes nothing back; refused, it leaves that to the rollback that has to follow
                        outs = [o for o in outs if o.st.ts[0] == st.ts[0]]
                    if not any(e[0] == "execute" for o in outs for e in o.st.ts[1]):
                        raise AnalysisBroken("P25: %s executes nothing" % nm)
                    inv(nm, f, eng, outs, "takeback")
        st = start(cached)
        f, eng, _, outs = go(CN, "reset", {}, st, DB)
        if not any(e[0] == "execute" for o in outs for e in o.st.ts[1]):
            raise AnalysisBroken("P25: reset executes nothing")
        inv("reset, cached %s" % ("/".join(cached) or "nothing"), f, eng, outs, "takeback")


def reports(ck, p, CN):
    f = p.find_method(CN, "_receive_async")
    if f is None:
        raise AnalysisBroken("P25: the receiver of asynchronous messages vanished")
    ck.func(f)
    msg = ("p", "$msg")

    class RR(EventRule):
        def inline(self, eng, func):
            return func.module.name == MOD and func.cls is not None and func.cls.name == "Connection" and func.name.startswith("_")

        def may_raise(self, eng, f, node, st):
            return False

        def decide(self, eng, t, st):
            c = call_parts(t)
            if c and c[0] == G("builtins.isinstance") and c[1][0] == msg:
                return c[1][1] == G("postgresql.protocol.element3.ShowOption")
            return None

        def event(self, eng, node, f, args, kws, st, fr):
            recv, name = callee(f)
            if name == "_notify":
                return ("notify", tuple(args)), [("v", NONE)]
    st = State(ts=()).hset((msg, "type"), C(b"S"))
    outs = Engine(p, RR()).run(f, {"self": DB, "msg": msg}, self_class=CN.full, st=st)
    for o in outs:
        ck.judge(o.kind == "raise" or o.st.ts == (("notify", (msg,)),), "report", "asynchronous reports", f.loc(),
                 "a parameter report ends with %s" % (o.st.ts,), o.st.trace)
    ck.judge(bool(outs), "report", "asynchronous reports", f.loc(), "no path")
    ck.count("report_exits", len(outs))


WRITES = ("setting_set", "setting_update")


def writers(ck, p, S):
    import ast
    n = 0
    for f in p.all_funcs():
        if f.module.name.startswith("postgresql.test") or f.module.name.startswith("postgresql.documentation"):
            continue
        own = f.full.startswith(S.full.replace(":", ".") + ".") or f.full.startswith(S.full + ".")
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and x.attr in WRITES:
                n += 1
                ck.judge(own, "writers", x.attr, f.loc(x), "%s sets parameters without the settings object" % f.full)
            if isinstance(x, ast.Attribute) and x.attr == "cache" and f.module.name == MOD:
                via = isinstance(x.value, ast.Attribute) and x.value.attr == "settings"
                if via and not own:
                    ck.judge(reads_only(f, x), "writers", "cache", f.loc(x), "%s stores in the cache of the settings" % f.full)
    ck.count("writers", n)
    ck.at_least("writers", 2, "references to the statements that set parameters")


def reads_only(f, x):
    import ast
    for y in ast.walk(f.node):
        if isinstance(y, ast.Attribute) and y.value is x:
            return y.attr in ("get", "items", "keys", "values", "copy")
        if isinstance(y, ast.Subscript) and y.value is x:
            return isinstance(y.ctx, ast.Load)
        if isinstance(y, ast.Compare) and x in y.comparators:
            return True
    return False
