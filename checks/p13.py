"""P13: what the driver made on the server is queued for release once and released once.

The queue is interpreted with exact lists and one more release arriving (garbage collection) before any one statement;
the owners are interpreted over given/generated names and every state of `closed`."""
import ast
from sa.rules import *
from checks.p01 import wire
from sa.program import walk_own

SELF = ("p", "self")
MOD = "postgresql.protocol.client3"
PQ3 = "postgresql.driver.pq3"
E3 = "postgresql.protocol.element3"
QUEUES = {"garbage_cursors": "ClosePortal", "garbage_statements": "CloseStatement"}


def qobj(name):
    return ("obj", "list", ("queue", name), 0)


def start(cur, stm, ts):
    st = State(ts=ts)
    for n, items in (("garbage_cursors", cur), ("garbage_statements", stm)):
        st = st.hset((SELF, n), qobj(n)).hset((qobj(n), "$items"), ("L", tuple(items)))
    return st


def content(eng, st, name):
    """what the queue attribute holds now, or None"""
    t = st.heap.get((SELF, name), ("attr", SELF, name))
    items = eng.exact_items(t, st)
    return None if items is None else tuple(items)


class Take(EventRule):
    """ts: (arrived queue or None, what was sent or None, failed)"""
    max_depth = 5
    state_cap = 4000
    widen_after = 64

    def __init__(self, arriving):
        self.arriving = arriving
        self.sent_sites = set()

    def inline(self, eng, func):
        return func.module.name == MOD and func.name not in ("complete", "step", "trash_cursor", "trash_statement")

    def may_raise(self, eng, f, node, st):
        return False

    def arrive(self, eng, st):
        """a release is queued by garbage collection"""
        if st.ts[0] is not None or self.arriving is None:
            return None
        q = st.heap.get((SELF, self.arriving))
        if q is None or q[0] != "obj":
            return None
        c = eng.hget(st, (q, "$items"))
        if c is None or c[0] != "L":
            return None
        return st.hset((q, "$items"), ("L", c[1] + (("p", "$late"),))).with_ts((self.arriving,) + st.ts[1:])

    def interleave(self, eng, node, st, fr):
        s = self.arrive(eng, st)
        return None if s is None else [st, s]

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if f[0] == "g" and f[1] in (E3 + ".ClosePortal", E3 + ".CloseStatement"):
            return [V(("msg", name, arg(args, kws, 0, "data", NONE)))]
        if f[0] == "g" and f[1].endswith("xact3.Instruction"):
            cmds = arg(args, kws, 0, "commands", NONE)
            items = eng.exact_items(cmds, st)
            return [V(("instr", tuple(items) if items is not None else None))]
        if name in ("complete", "step") and recv == SELF or name == "push" and recv == SELF:
            self.sent_sites.add(fr.func.loc(node))
            x = args[0] if name == "push" and args else st.heap.get((SELF, "xact"), NONE)
            sent = (st.ts[1] or ()) + ((x,) if x[0] == "instr" else ())
            s = st.with_ts((st.ts[0], sent, st.ts[2]))
            outs = []
            for s1 in (s, self.arrive(eng, s)):
                if s1 is None:
                    continue
                outs.append(V(NONE, s1.hset((SELF, "xact"), NONE)))
                # the request fails: it stays
                outs.append(V(NONE, s1.hset((SELF, "xact"), x).with_ts(s1.ts[:2] + ("failed",))))
                outs.append(Out("raise", s1.with_ts(s1.ts[:2] + ("raised",)), ("exc", "?:builtins.OSError", ("excval", "OSError", node.lineno)), node))
            return outs
        return None


def run(ck, p):
    wire(ck, p, "ClosePortal", "CloseStatement")
    ck.rule("queue", "a release request closes each queued name once and exactly the closed ones leave the queue, whenever another is queued and however the request ends")
    ck.rule("before", "push sends queued releases before the request it was given")
    ck.rule("trash", "trash_* forgets the reference (so that it cannot fire again) and queues the name once")
    ck.rule("register", "the registered callback queues the name and does not keep the object alive")
    ck.rule("owner", "a generated name is registered once under the name used on the wire, a supplied one never")
    ck.rule("close", "close() queues the name if the object is open, and once only")
    ck.rule("sole", "nothing else queues or drops releases")
    cls = p.cls(MOD + ":Connection")
    take(ck, p, cls)
    push(ck, p, cls)
    trash(ck, p, cls)
    owner(ck, p)
    close(ck, p)
    sole(ck, p)


def names(k, n):
    return tuple(("p", "$%s%d" % (k, i)) for i in range(n))


def take(ck, p, cls):
    f = p.find_method(cls, "take_out_trash")
    ck.func(f)
    n = 0
    sizes = (0, 1, 2, 3) if ck.thorough else (0, 1, 2)
    for nc in sizes:
        for ns in sizes:
            if not nc and not ns:
                continue
            for arriving in (None, "garbage_cursors", "garbage_statements"):
                cur, stm = names("c", nc), names("s", ns)
                rule = Take(arriving)
                eng = Engine(p, rule)
                outs = eng.run(f, {}, self_class=cls.full, st=start(cur, stm, (None, None, None)), keep_defaults=True)
                ck.judge(bool(outs), "queue", "take_out_trash", f.loc(), "no path ends")
                for o in outs:
                    n += 1
                    verdict(ck, eng, "take_out_trash", f, o, cur, stm)
    ck.count("paths of take_out_trash", n)
    ck.at_least("paths of take_out_trash", 50)


def verdict(ck, eng, who, f, o, cur, stm):
    arrived, sent, failed = o.st.ts
    ck.ok("queue", "%s %s" % (who, (arrived, failed)))
    where = f.loc(o.node) if hasattr(o.node, "lineno") else f.loc()
    bad = lambda msg: ck.finding("queue", who, where, msg + {"failed": " (the request failed)", "raised": " (the request raised)"}.get(failed, "") +
                                 (", another was queued meanwhile" if arrived else ""), o.st.trace)
    if sent is None:
        if o.kind != "raise":
            bad("no release is sent")
        return
    closed = []
    for x in sent:
        if x[1] is None:
            bad("the release request cannot be told: %s" % show(x))
            return
        for m in x[1]:
            if m[0] == "msg":
                closed.append((m[1], m[2]))
    if any(x[1] and (not "Synchronize" in show(x[1][-1])) for x in sent):
        bad("the release request does not end with Synchronize but %s" % show(sent[0][1][-1]))
    for attr, kind, given in (("garbage_cursors", "ClosePortal", cur), ("garbage_statements", "CloseStatement", stm)):
        left = content(eng, o.st, attr)
        if left is None:
            bad("the content of %s cannot be told" % attr)
            continue
        expect = given + ((("p", "$late"),) if arrived == attr else ())
        for name in expect:
            k = closed.count((kind, name)) + left.count(name)
            if k == 0:
                bad("%s of %s is lost" % (show(name).replace("$late", "the one queued meanwhile"), attr))
            elif k > 1:
                bad("%s of %s is released and still queued, or released twice" % (show(name), attr))
        extra = [x for x in left if x not in expect] + [m for k2, m in closed if k2 == kind and m not in expect]
        if extra:
            bad("%s was never queued in %s" % (show(extra[0]), attr))


class Push(Take):
    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        r = Take.call(self, eng, node, f, args, kws, st, fr)
        if name in ("step", "complete") and recv == SELF and r is not None:
            x = st.heap.get((SELF, "xact"), NONE)
            if x == ("p", "$x"):
                sent = (st.ts[1] or ()) + (x,)
                return [Out("v", o.st.with_ts((o.st.ts[0], sent, o.st.ts[2])), o.val) if o.kind == "v" else Out(o.kind, o.st.with_ts((o.st.ts[0], sent, o.st.ts[2])), o.val, o.node) for o in r]
        return r

    def getattr(self, eng, node, base, attr, st, fr):
        if base == ("p", "$x") and attr == "state":
            return [Out("v", st, ("p", "$state"))]
        return None


def push(ck, p, cls):
    f = p.find_method(cls, "push")
    ck.func(f)
    par = [a.arg for a in f.node.args.args][1]
    n = 0
    for nc, ns in ((0, 0), (1, 0), (0, 1), (1, 1)):
        for pending in (NONE, ("p", "$pending")):
            cur, stm = names("c", nc), names("s", ns)
            rule = Push(None)
            eng = Engine(p, rule)
            st = start(cur, stm, (None, None, None)).hset((SELF, "xact"), pending)
            for o in eng.run(f, {par: ("p", "$x")}, self_class=cls.full, st=st):
                sent = o.st.ts[1] or ()
                n += 1
                ck.ok("before", "push %d %d" % (nc, ns))
                if ("p", "$x") in sent:
                    before = sent[:sent.index(("p", "$x"))]
                    closed = [m[2] for x in before if x[0] == "instr" and x[1] for m in x[1] if m[0] == "msg"]
                    missing = [x for x in cur + stm if x not in closed]
                    if missing:
                        ck.finding("before", "push", f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(),
                                   "the request is started although %s is still queued" % show(missing[0]), o.st.trace)
    ck.count("paths of push", n)
    ck.at_least("paths of push", 8)


class Trash(EventRule):
    """one trash_* method; the reference may be there or not"""
    max_depth = 3

    def __init__(self, names):
        self.names, self.regs = names, []

    def inline(self, eng, func):
        return func.module.name == MOD

    def may_raise(self, eng, f, node, st):
        return False

    def delete(self, eng, node, base, key, st, fr):
        for d in ("statements", "cursors"):
            if base == ("attr", SELF, d):
                return [Out("next", st.with_ts(st.ts + (("forget", d, key),))),
                        Out("raise", st.with_ts(st.ts + (("absent", d, key),)), ("exc", "?:builtins.KeyError", ("excval", "KeyError", node.lineno)), node)]
        return None

    def setitem(self, eng, node, base, idx, val, st, fr):
        for d in ("statements", "cursors"):
            if base == ("attr", SELF, d):
                self.fire(eng, node, val, st, fr)
                return [Out("next", st.with_ts(st.ts + (("put", d, idx, val),)))]
        return None

    def fire(self, eng, node, val, st, fr):
        """the object is collected: what does its callback do?"""
        if val[0] == "wref" and val[2] != NONE:
            self.regs += eng.call(node, val[2], [("p", "$ref")], (), st.with_ts(()), fr)

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        for d in ("statements", "cursors"):
            if recv == ("attr", SELF, d):
                if name == "pop":
                    s = V(("p", "$ref"), st.with_ts(st.ts + (("forget", d, args[0]),)))
                    if len(args) > 1:
                        return [s, V(args[1], st.with_ts(st.ts + (("absent", d, args[0]),)))]
                    return [s, Out("raise", st, ("exc", "?:builtins.KeyError", ("excval", "KeyError", node.lineno)), node)]
                if name == "__setitem__":
                    self.fire(eng, node, args[1], st, fr)
                    return [V(NONE, st.with_ts(st.ts + (("put", d, args[0], args[1]),)))]
                if name in ("get", "__contains__"):
                    return None
        if f == G("weakref.ref"):
            return [V(("wref", args[0], args[1] if len(args) > 1 else arg((), kws, None, "callback", NONE)))]
        return None


def trash(ck, p, cls):
    for kind, queue, d in (("cursor", "garbage_cursors", "cursors"), ("statement", "garbage_statements", "statements")):
        f = p.find_method(cls, "trash_" + kind)
        ck.func(f)
        pars = [a.arg for a in f.node.args.args][1:]
        N = ("p", "$name")
        rule = Trash(None)
        eng = Engine(p, rule)
        outs = eng.run(f, {pars[0]: N}, self_class=cls.full, st=start((), (), ()))
        ck.judge(bool(outs), "trash", f.name, f.loc(), "no path ends")
        for o in outs:
            q = content(eng, o.st, queue)
            other = content(eng, o.st, next(x for x in QUEUES if x != queue))
            known = [e for e in o.st.ts if e[0] in ("forget", "absent") and e[1] == d and e[2] == N]
            if (("cmp", "in", N, ("attr", SELF, d)), False) in o.st.facts:
                known.append("absent")
            ck.judge(o.kind != "raise", "trash", f.name, f.loc(), "it raises when the name is not registered", o.st.trace)
            if o.kind == "raise":
                continue
            ck.judge(q == (N,), "trash", f.name, f.loc(), "the queue then holds %s" % (("nothing" if not q else ", ".join(show(x) for x in q)) if q is not None else "?"), o.st.trace)
            ck.judge(other == (), "trash", f.name + " other", f.loc(), "the other queue then holds %s" % (other,), o.st.trace)
            ck.judge(bool(known), "trash", f.name + " reference", f.loc(), "the weak reference stays registered: it queues the name again when the object is collected", o.st.trace)
        # registration
        f = p.find_method(cls, "register_" + kind)
        ck.func(f)
        pars = [a.arg for a in f.node.args.args][1:]
        OBJ = ("p", "$object")
        rule = Trash(None)
        eng = Engine(p, rule)
        outs = eng.run(f, {pars[0]: OBJ, pars[1]: N}, self_class=cls.full, st=start((), (), ()))
        ck.judge(bool(outs), "register", f.name, f.loc(), "no path ends")
        for o in outs:
            puts = [e for e in o.st.ts if e[0] == "put"]
            ok = len(puts) == 1 and puts[0][1] == d and puts[0][2] == N and puts[0][3][0] == "wref" and puts[0][3][1] == OBJ
            ck.judge(ok, "register", f.name, f.loc(), "it stores %s" % (", ".join("%s[%s] = %s" % (e[1], show(e[2]), show(e[3])) for e in puts) or "nothing"), o.st.trace)
            if not ok:
                continue
            cb = puts[0][3][2]
            ck.judge(cb != NONE, "register", f.name, f.loc(), "the reference has no callback", o.st.trace)
            if cb == NONE:
                continue
            captured = captures(p, f, pars[0])
            ck.judge(not captured, "register", f.name + " alive", f.loc(), "the callback keeps the object alive: it refers to %s" % pars[0])
        ck.judge(bool(rule.regs), "register", f.name + " callback", f.loc(), "nothing happens when the object is collected")
        for co in rule.regs:
            q = content(eng, co.st, queue)
            ck.judge(co.kind != "raise" and q == (N,), "register", f.name + " callback", f.loc(),
                     "the callback leaves %s in the queue" % (", ".join(show(x) for x in q or ()) or "nothing"), co.st.trace)


def captures(p, f, name):
    """does a function nested in f refer to its parameter?"""
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f.node:
            own = {a.arg for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs}
            body = x.body if isinstance(x.body, list) else [x.body]
            for b in body + x.args.defaults:
                for y in ast.walk(b):
                    if isinstance(y, ast.Name) and y.id == name and name not in own:
                        return True
        if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (getattr(x.func, "id", None) or getattr(x.func, "attr", None)) == "partial":
            if any(isinstance(y, ast.Name) and y.id == name for a in x.args for y in ast.walk(a)):
                return True
    return False


class Own(EventRule):
    """ts: registrations"""
    max_depth = 3

    def __init__(self, generated):
        self.generated = generated

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.name in ("__init__",) or func.module.name == PQ3 and func.cls is None

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if f[0] == "g" and f[1] == PQ3 + ".ID" or f[0] in ("fn", "g", "p") and show(f).split(".")[-1] == "ID":
            return [V(("p", "$generated"))]
        if name in ("register_statement", "register_cursor"):
            return [V(NONE, st.with_ts(st.ts + ((name, args[0], args[1]),)))]
        if name in ("encode", "_encode"):
            t = ("wire", args[0])
            return [V(("tuple", t, C(0)) if name == "_encode" else t)]
        return None

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] in ("==", "!="):
            a, b = t[2], t[3]
            if {a, b} == {("p", "$generated"), ("p", "$supplied")} or {a, b} == {("p", "$generated"), C("")}:
                return t[1] == "!="
        if t == ("p", "$supplied") or t == ("p", "$generated"):
            return True
        return None


def owner(ck, p):
    """Statement and every Output class: constructed with a name and without one"""
    n = 0
    classes = [p.cls(PQ3 + ":Statement")] + [c for c in p.module(PQ3).classes.values() if p.is_subclass(c.full, PQ3 + ".Output") and c.name not in ("Output", "Chunks", "MultiXactStream")]
    for c in classes:
        f = p.find_method(c, "__init__")
        if f is None:
            continue
        ck.func(f)
        kind = "statement" if c.name == "Statement" else "cursor"
        par = kind + "_id"
        names_ = [a.arg for a in f.node.args.args]
        cases = ((("p", "$supplied"), "supplied"), (NONE, "generated")) if par in names_ else ((None, "unnamed"),)
        for given, what in cases:
            rule = Own(what)
            eng = Engine(p, rule)
            outs = eng.run(f, {par: given} if given is not None else {}, self_class=c.full, st=State(ts=()))
            ck.judge(any(o.kind != "raise" for o in outs), "owner", c.name, f.loc(), "no path ends")
            for o in outs:
                if o.kind == "raise":
                    continue
                n += 1
                regs = o.st.ts
                wire = o.st.heap.get((SELF, "_pq_%s_id" % kind), NONE)
                ident = o.st.heap.get((SELF, "%s_id" % kind), NONE)
                if what == "generated":
                    ok = len(regs) == 1 and regs[0] == ("register_" + kind, SELF, wire) and wire == ("wire", ("p", "$generated"))
                    msg = "an object with a generated name is registered as %s (its name on the wire is %s)" % (
                        ", ".join("%s(%s, %s)" % (r[0], show(r[1]), show(r[2])) for r in regs) or "nothing", show(wire))
                else:
                    ok = not regs
                    msg = "an object with a %s name is registered for release: %s" % (what, regs)
                ck.judge(ok, "owner", "%s %s" % (c.name, what), f.loc(), msg, o.st.trace)
                if what == "supplied":
                    ck.judge(wire == ("wire", ("p", "$supplied")) and ident == ("p", "$supplied"), "owner", "%s %s name" % (c.name, what), f.loc(),
                             "the supplied name is not the one used: %s" % show(wire), o.st.trace)
    ck.count("constructions", n)
    ck.at_least("constructions", 8)


class Cl(EventRule):
    max_depth = 3

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.name not in ("_fini", "_init")

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name in ("trash_statement", "trash_cursor"):
            return [Out("v", st.with_ts(st.ts + ((name, args[0]),)), NONE)]
        return None


def close(ck, p):
    for cn, kind in (("Statement", "statement"), ("Output", "cursor"), ("Cursor", "cursor"), ("MultiXactInsideBlock", "cursor"), ("MultiXactOutsideBlock", "cursor"), ("FetchAll", "cursor")):
        c = p.cls(PQ3 + ":" + cn)
        f = p.find_method(c, "close")
        ck.func(f)
        for state in (FALSE, TRUE, NONE):
            rule = Cl()
            eng = Engine(p, rule)
            st = State(ts=()).hset((SELF, "closed"), state)
            outs = eng.run(f, {}, self_class=c.full, st=st)
            for o in outs:
                if o.kind == "raise":
                    ck.judge(False, "close", cn, f.loc(), "close() raises", o.st.trace)
                    continue
                want = (("trash_" + kind, ("attr", SELF, "_pq_%s_id" % kind)),) if state == FALSE else ()
                after = o.st.heap.get((SELF, "closed"), NONE)
                if state == NONE and o.st.ts and o.st.ts == (("trash_" + kind, ("attr", SELF, "_pq_%s_id" % kind)),):
                    want = o.st.ts      # not yet initialized: releasing it is as good
                ck.judge(o.st.ts == want, "close", "%s closed=%s" % (cn, show(state)), f.loc(),
                         "close() queues %s" % (", ".join("%s(%s)" % (e[0], show(e[1])) for e in o.st.ts) or "nothing"), o.st.trace)
                ck.judge(after == TRUE, "close", "%s closed=%s after" % (cn, show(state)), f.loc(), "the object does not count as closed afterwards: a second close() releases the name again", o.st.trace)
    # what makes an object count as closed without a release
    # (a statement whose preparation failed was never made; a cursor has to be closed by close())


QUEUE_OPS = {"append", "extend", "insert", "pop", "remove", "clear", "__delitem__", "__setitem__"}


def sole(ck, p):
    """every mention of the queues"""
    n = 0
    allowed = {"take_out_trash", "push", "trash_cursor", "trash_statement", "__init__"}
    good = set()
    for f in p.all_funcs():
        if ".test" in f.module.name:
            continue
        for x in walk_own(f.node):
            if isinstance(x, ast.Attribute) and x.attr in QUEUES:
                n += 1
                par = getattr(x, "_parent", None)
                writes = isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(par, ast.Attribute) and par.attr in QUEUE_OPS or \
                    isinstance(par, ast.Subscript) and isinstance(par.ctx, (ast.Store, ast.Del)) or isinstance(par, ast.AugAssign)
                if not writes or f.name in allowed:
                    ck.ok("sole", f.full)
                    continue
                # a helper of the interpreted functions
                inside = f.module.name == MOD and f.cls is not None and any(
                    isinstance(y, ast.Attribute) and y.attr == f.name for g in f.cls.methods.values() if g.name in allowed for y in walk_own(g.node))
                ck.judge(inside, "sole", f.full, f.loc(x), "%s is changed here" % x.attr)
    ck.count("uses of the queues", n)
    ck.at_least("uses of the queues", 6)
