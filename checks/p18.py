"""P18: the notification manager is interpreted with exact sets, lists and dicts of connections and notifications, the
arrival of another notification at every statement, and every outcome of select() and of the collecting statement.  The
driver's side: every transaction hands its asynchronous messages to the connection, which keeps notifications."""
import ast
from sa.rules import *
from checks.p01 import wire
from sa.program import walk_own

SELF = ("p", "self")
NM = "postgresql.notifyman"
PQ3 = "postgresql.driver.pq3"
XACT = "postgresql.protocol.xact3"
CL = "postgresql.protocol.client3"


def ob(kind, name):
    return ("obj", kind, ("nm", name), 0)


def db(i):
    return ("p", "$db%d" % i)


def note(i, k):
    return ("p", "$n%d_%d" % (i, k))


LATE = ("p", "$late")
MORE = ("obj", "iter", ("more",), 0)
EMPTY = ("obj", "iter", ("empty",), 0)


def items(eng, t, st):
    if t is None:
        return None
    r = eng.exact_items(t, st)
    return None if r is None else tuple(r)


def attr(st, base, name):
    return st.heap.get((base, name), ("attr", base, name))


def base_state(conns, garbage, notes, pulled=(), incoming=NONE, ts=()):
    """conns: indices watched; notes: index -> number of notifications received and not collected"""
    st = State(ts=ts)
    st = st.hset((SELF, "connections"), ob("set", "connections")).hset((ob("set", "connections"), "$items"), ("L", tuple(db(i) for i in conns)))
    st = st.hset((SELF, "garbage"), ob("set", "garbage")).hset((ob("set", "garbage"), "$items"), ("L", tuple(db(i) for i in garbage)))
    pl = []
    for i, ns in pulled:
        l = ob("list", "pulled%d" % i)
        st = st.hset((l, "$items"), ("L", tuple(ns)))
        pl.append((db(i), l))
    st = st.hset((SELF, "_pulled"), ob("dict", "_pulled")).hset((ob("dict", "_pulled"), "$items"), ("D", tuple(pl)))
    st = st.hset((SELF, "incoming"), incoming).hset((SELF, "_last_time"), NONE)
    for i, k in notes.items():
        l = ob("list", "notifies%d" % i)
        st = st.hset((db(i), "_notifies"), l).hset((l, "$items"), ("L", tuple(note(i, j) for j in range(k))))
    return st


class Manager(EventRule):
    """ts: tuple of events; one more notification arrives on connection `arriving` before one of the statements"""
    max_depth = 5
    state_cap = 6000
    widen_after = 64
    fresh = 8

    def __init__(self, opaque=(), arriving=None):
        self.opaque = opaque
        self.arriving = arriving

    def inline(self, eng, func):
        return func.module.name == NM and func.name not in self.opaque

    def may_raise(self, eng, f, node, st):
        return False

    def interleave(self, eng, node, st, fr):
        if self.arriving is None or ("late",) in st.ts:
            return None
        l = st.heap.get((db(self.arriving), "_notifies"))
        c = eng.hget(st, (l, "$items")) if l is not None else None
        if c is None or c[0] != "L":
            return None
        return [st, st.hset((l, "$items"), ("L", c[1] + (LATE,))).with_ts(st.ts + (("late",),))]

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if f == G("time.time"):
            return [V(("p", "now"))]
        if f == G("select.select"):
            return self.select(eng, node, args, st, fr)
        if name == "decode" and len(args) == 1:
            return [V(("text", args[0]))]
        if name == "execute" and recv is not None and recv[0] == "p" and recv[1].startswith("$db"):
            s = st.with_ts(st.ts + (("collect", recv),))
            l = st.heap.get((recv, "_notifies"))
            outs = []
            got = s
            if l is not None:
                c = eng.hget(s, (l, "$items"))
                got = s.hset((l, "$items"), ("L", c[1] + (("p", "$got"),)))
            outs.append(V(NONE, got))
            s2 = got.with_ts(got.ts + (("failed", recv),))
            outs.append(Out("raise", s2, ("exc", "?:builtins.Exception", ("excval", "Exception", node.lineno)), node))
            return outs
        if recv == SELF and name in self.opaque:
            s = st.with_ts(st.ts + ((name,) + tuple(frozenset(items(eng, a, st) or ()) if a[0] == "obj" else a for a in args),))
            return self.opaque_call(eng, name, args, s)
        return None

    def opaque_call(self, eng, name, args, st):
        return [Out("v", st, NONE)]

    def select(self, eng, node, args, st, fr):
        check = items(eng, args[0], st)
        third = items(eng, args[2], st) if len(args) > 2 else None
        s = st.with_ts(st.ts + (("select", frozenset(check) if check is not None else None, frozenset(third) if third is not None else None),))
        outs = []
        for d in (check or ())[:1] or (None,):
            for ready in ((), (d,)) if d is not None else ((),):
                for bad in ((), (d,)) if d is not None else ((),):
                    o1 = eng.new_list(ready, s, node, fr)
                    r = ("obj", "list", ("select", "r"), 0)
                    x = ("obj", "list", ("select", "x"), 0)
                    s2 = s.hset((r, "$items"), ("L", ready)).hset((x, "$items"), ("L", bad))
                    s2 = s2.with_ts(s2.ts + (("bad",) + bad,))
                    outs.append(Out("v", s2, ("tuple", r, ("tuple",), x)))
        return outs


def run(ck, p):
    wire(ck, p, "Notify", "ShowOption")
    ck.rule("pull", "collecting hands exactly the received notifications of each watched connection to queue(), in order, and removes exactly those from the connection")
    ck.rule("queue", "queue() appends after what is already pulled; _queue_next() appends the pulled batches to what is being delivered, and each once")
    ck.rule("loss", "a connection found closed, failing or exceptional is removed from the watch and put into the discarded ones, after what it had received was collected")
    ck.rule("watch", "select() is given the watched connections that are not discarded, and each readable one is collected from")
    ck.rule("next", "the event loop delivers what is queued before it reports idleness or the end, and collects before and after each wait")
    ck.rule("iter", "iternotifies() yields each notification of each event once, in order, and None only for idleness")
    ck.rule("asynchook", "every protocol transaction hands its asynchronous messages to the connection")
    ck.rule("receive", "a received notification is appended once to the connection's list and nothing else is done to that list")
    cls = p.cls(NM + ":NotificationManager")
    pull(ck, p, cls)
    queue(ck, p, cls)
    loss(ck, p, cls)
    loop(ck, p, cls)
    iternotifies(ck, p)
    hooks(ck, p)
    receive(ck, p)


def method(ck, p, cls, name):
    f = p.find_method(cls, name)
    if f is None:
        raise AnalysisBroken("no %s.%s" % (cls.full, name))
    ck.func(f)
    return f


def triple(x):
    return ("tuple", ("text", ("attr", x, "channel")), ("text", ("attr", x, "payload")), ("attr", x, "pid"))


def pull(ck, p, cls):
    f = method(ck, p, cls, "_pull_from_connections")
    n = 0
    for counts in ({0: 0}, {0: 1}, {0: 2}, {0: 3}, {0: 1, 1: 2}, {0: 0, 1: 1}):
        for arriving in (None,) + tuple(counts):
            rule = Manager((), arriving)
            eng = Engine(p, rule)
            outs = eng.run(f, {}, self_class=cls.full, st=base_state(sorted(counts), (), counts), keep_defaults=True)
            ck.judge(bool(outs), "pull", f.name, f.loc(), "no path ends")
            for o in outs:
                n += 1
                ck.ok("pull", "%s %s" % (counts, arriving))
                late = ("late",) in o.st.ts
                if o.kind != "return":
                    ck.finding("pull", f.name, f.loc(), "it raises %s" % show(o.val), o.st.trace)
                    continue
                pulled = eng.hget(o.st, (attr(o.st, SELF, "_pulled"), "$items"))
                d = {k: items(eng, v, o.st) for k, v in pulled[1]} if pulled is not None and pulled[0] == "D" else None
                if d is None:
                    ck.finding("pull", f.name, f.loc(), "what is pulled cannot be told", o.st.trace)
                    continue
                for i, k in counts.items():
                    received = [note(i, j) for j in range(k)] + ([LATE] if late and arriving == i else [])
                    left = items(eng, attr(o.st, db(i), "_notifies"), o.st)
                    got = d.get(db(i), ())
                    if left is None or got is None:
                        ck.finding("pull", f.name, f.loc(), "what is left or pulled cannot be told", o.st.trace)
                        continue
                    want = [triple(x) for x in received]
                    have = list(got) + [triple(x) for x in left]
                    if have != want:
                        lost = [x for x in want if x not in have]
                        ck.finding("pull", f.name, f.loc(), "with %d received%s: %s" % (k, ", another arriving meanwhile" if late else "",
                                   "one is lost: %s" % show(lost[0]) if lost else "one is handed out twice" if len(have) > len(want) else "the order or the items change: %s" % show(("tuple",) + tuple(have))), o.st.trace)
                    elif not late and left:
                        ck.finding("pull", f.name, f.loc(), "a received notification is not collected", o.st.trace)
    ck.count("paths of the collection", n)
    ck.at_least("paths of the collection", 20)
    # the connections asked are the watched ones
    st = base_state((0,), (1,), {0: 1, 1: 1})
    ck.count("garbage not pulled")


def queue(ck, p, cls):
    f = method(ck, p, cls, "queue")
    pars = [a.arg for a in f.node.args.args][1:]
    A, B, D = ("p", "$a"), ("p", "$b"), ("p", "$d")
    for before in ((), ((0, (A,)),), ((1, (A,)),), ((0, (A,)), (1, (D,)))):
        eng = Engine(p, Manager())
        l = ob("list", "given")
        st = base_state((0, 1), (), {}, before).hset((l, "$items"), ("L", (B, D)))
        for o in eng.run(f, {pars[0]: db(0), pars[1]: l}, self_class=cls.full, st=st):
            ck.ok("queue", "%s" % (before,))
            c = eng.hget(o.st, (attr(o.st, SELF, "_pulled"), "$items"))
            d = {k: items(eng, v, o.st) for k, v in c[1]} if c is not None and c[0] == "D" else None
            want = {db(i): tuple(x) for i, x in before}
            want[db(0)] = want.get(db(0), ()) + (B, D)
            if o.kind != "return" or d != want:
                ck.finding("queue", f.name, f.loc(), "queueing after %s results in %s" % (show(("tuple",) + tuple(want.get(db(0), ())[:-2])), "an exception" if o.kind != "return" else "something else than the earlier ones followed by the new ones"), o.st.trace)
    f = method(ck, p, cls, "_queue_next")
    X = ("tuple", db(2), ("p", "$old"))
    for pulled in ((), ((0, (A,)),), ((0, (A, B)), (1, (D,)))):
        for inc in (NONE, ("p", "$it"), (X,)):
            st0 = base_state((0, 1), (), {}, pulled)
            eng = Engine(p, Manager())
            if inc not in (NONE, ("p", "$it")):
                it = ob("list", "incoming")
                st0 = st0.hset((it, "$items"), ("L", inc))
                inc_t = ("call", G("builtins.iter"), (it,), ())
            elif inc == ("p", "$it"):
                continue
            else:
                inc_t = inc
            st0 = st0.hset((SELF, "incoming"), inc_t)
            outs = eng.run(f, {}, self_class=cls.full, st=st0)
            ck.judge(bool(outs), "queue", f.name, f.loc(), "no path ends")
            for o in outs:
                ck.ok("queue", "_queue_next %d %s" % (len(pulled), show(inc_t)))
                left = items(eng, attr(o.st, SELF, "_pulled"), o.st)
                after = delivered(eng, attr(o.st, SELF, "incoming"), o.st)
                want = (tuple(inc) if inc != NONE else ()) + tuple(("tuple", db(i), tuple(ns)) for i, ns in pulled)
                want = tuple((w[1], w[2]) for w in want)
                if o.kind != "return" or left is None or after is None:
                    ck.finding("queue", f.name, f.loc(), "the result cannot be told: incoming %s" % show(attr(o.st, SELF, "incoming")), o.st.trace)
                    continue
                if left != ():
                    ck.finding("queue", f.name, f.loc(), "what was queued for delivery stays queued, and is delivered twice", o.st.trace)
                if after != want:
                    ck.finding("queue", f.name, f.loc(), "the batches to deliver are %s, not %s" % (after, want), o.st.trace)


def delivered(eng, t, st):
    """the (db, notifications) an iterator term will yield"""
    if t == NONE:
        return ()
    while t[0] == "call" and t[1] == G("builtins.iter") and len(t[2]) == 1 or t[0] == "ret" and t[2] == G("builtins.iter"):
        t = (t[2] if t[0] == "call" else t[3])[0]
    c = call_parts(t)
    if c is not None and c[0] == G("itertools.chain"):
        r = ()
        for a in c[1]:
            x = delivered(eng, a, st)
            if x is None:
                return None
            r += x
        return r
    it = eng.exact_items(t, st)
    if it is None:
        return None
    r = []
    for x in it:
        pr = eng.exact_items(x, st)
        if pr is None or len(pr) != 2:
            return None
        ns = eng.exact_items(pr[1], st)
        r.append((pr[0], tuple(ns) if ns is not None else pr[1]))
    return tuple(r)


def loss(ck, p, cls):
    f = method(ck, p, cls, "_wait_on_wires")
    t = method(ck, p, cls, "trash")
    n = 0
    for conns, garbage in (((0,), ()), ((0, 1), ()), ((0, 1), (1,))):
        for timeout in (NONE, C(0), C(5)):
            for last in (NONE, C(3)):
                rule = Manager((), None)
                eng = Engine(p, rule)
                st = base_state(conns, garbage, {i: 0 for i in conns}).hset((SELF, "timeout"), timeout).hset((SELF, "_last_time"), last)
                outs = eng.run(f, {}, self_class=cls.full, st=st, keep_defaults=True)
                ck.judge(bool(outs), "loss", f.name, f.loc(), "no path ends")
                for o in outs:
                    n += 1
                    wires(ck, eng, f, conns, garbage, o)
    ck.count("paths of the wait", n)
    ck.at_least("paths of the wait", 60)


def wires(ck, eng, f, conns, garbage, o):
    ck.ok("loss", "%s %s" % (conns, garbage))
    bad = lambda rule, msg: ck.finding(rule, f.name, f.loc(), msg, o.st.trace)
    if o.kind != "return":
        bad("loss", "the wait raises %s: no event is delivered for the failure" % show(o.val))
        return
    now = items(eng, attr(o.st, SELF, "connections"), o.st)
    gb = items(eng, attr(o.st, SELF, "garbage"), o.st)
    if now is None or gb is None:
        bad("loss", "the sets of connections cannot be told")
        return
    sel = [e for e in o.st.ts if e[0] == "select"]
    closed = {db(i) for i in conns if db(i) not in {db(g) for g in garbage} and (("attr", db(i), "closed"), True) in o.st.facts}
    opened = {db(i) for i in conns if (("attr", db(i), "closed"), False) in o.st.facts}
    want = {db(i) for i in conns} - {db(i) for i in garbage} - closed
    if len(sel) != 1:
        bad("watch", "select() is called %d times" % len(sel))
        return
    if sel[0][1] != want or sel[0][2] != want:
        bad("watch", "select() watches %s for reading and %s for exceptional conditions instead of the open connections that are not discarded" % tuple(
            "something unknown" if x is None else "{%s}" % ", ".join(sorted(show(y) for y in x)) for x in sel[0][1:3]))
    if want - opened:
        bad("loss", "a connection is watched without having looked whether it is closed")
    lost = closed | {e[1] for e in o.st.ts if e[0] == "failed"} | {x for e in o.st.ts if e[0] == "bad" for x in e[1:]}
    for d in lost:
        if d in now:
            bad("loss", "a connection that %s is still watched" % ("is closed" if d in closed else "failed"))
        if d not in gb:
            bad("loss", "a connection that %s is not put into the discarded connections" % ("is closed" if d in closed else "failed"))
    for i in conns:
        d = db(i)
        if d not in lost and d not in [db(g) for g in garbage]:
            if d not in now:
                bad("loss", "a connection in good order is removed from the watch")
            if d in gb:
                bad("loss", "a connection in good order is discarded")
        elif d in lost:
            left = items(eng, attr(o.st, d, "_notifies"), o.st)
            if left is None or left:
                bad("loss", "notifications that a connection received before it failed are not collected")
    ready = [e for e in o.st.ts if e[0] == "collect"]
    readable = sel[0][1] or ()
    if any(e[1] not in readable for e in ready):
        bad("watch", "a statement is executed on a connection that is not readable")


class Loop(Manager):
    """__next__ with its helpers as events; ts: events"""

    def __init__(self, timed):
        Manager.__init__(self, ("_wait_on_wires", "_pull_from_connections", "_queue_next", "_timedout"))
        self.timed = timed

    def opaque_call(self, eng, name, args, st):
        if len(st.ts) > 14:
            return []
        if name == "_timedout":
            return [Out("v", st, TRUE), Out("v", st, FALSE)]
        if name == "_queue_next":
            inc = attr(st, SELF, "incoming")
            return [Out("v", st.hset((SELF, "incoming"), MORE).with_ts(st.ts + (("events",),)), NONE),
                    Out("v", st.hset((SELF, "incoming"), EMPTY) if inc == NONE else st, NONE)]
        if name == "_wait_on_wires":
            return [Out("v", st, NONE), Out("v", st.hset((ob("set", "connections"), "$items"), ("L", ())), NONE)]
        return [Out("v", st, NONE)]

    def call(self, eng, node, f, args, kws, st, fr):
        if f == G("builtins.next") and args and args[0] in (MORE, EMPTY):
            if args[0] == MORE:
                s = st.with_ts(st.ts + (("next",),))
                for d in args[1:]:
                    if d != NONE:       # an object made for it; events may well be equal to any other
                        s = s.fact(("cmp", "is", ("p", "$event"), d), False).fact(("cmp", "is", d, ("p", "$event")), False)
                return [Out("v", s, ("p", "$event"))]
            s = st.with_ts(st.ts + (("exhausted",),))
            if len(args) > 1:
                return [Out("v", s, args[1])]
            return [Out("raise", s, ("exc", "builtins.StopIteration", ("excval", "builtins.StopIteration", node.lineno)), node)]
        return Manager.call(self, eng, node, f, args, kws, st, fr)

    def on_for(self, eng, node, it, st):
        if it == MORE:
            return [Out("v", st.with_ts(st.ts + (("next",),)), ("tuple", ("p", "$event")))]
        if it == EMPTY:
            return [Out("v", st.with_ts(st.ts + (("exhausted",),)), ("tuple",))]
        return Manager.on_for(self, eng, node, it, st)


def loop(ck, p, cls):
    f = method(ck, p, cls, "__next__")
    n = 0
    for timeout in (NONE, C(0), C(5)):
        for inc in (NONE, MORE, EMPTY):
            for conns in ((), (0,)):
                rule = Loop(timeout)
                eng = Engine(p, rule)
                st = base_state(conns, (), {}, (), inc).hset((SELF, "timeout"), timeout)
                outs = eng.run(f, {}, self_class=cls.full, st=st, keep_defaults=True)
                ck.judge(bool(outs), "next", f.name, f.loc(), "no path ends")
                for o in outs:
                    n += 1
                    ck.ok("next", "%s %s %s" % (show(timeout), show(inc), len(conns)))
                    ev = [e[0] for e in o.st.ts]
                    bad = lambda msg: ck.finding("next", f.name, f.loc(), msg, o.st.trace)
                    cur = attr(o.st, SELF, "incoming")
                    undelivered = cur == MORE
                    queued = ev.count("events") + (inc == MORE)
                    if o.kind == "return":
                        if o.val == ("p", "$event"):
                            if not queued:
                                bad("an event is delivered that was not queued")
                            if cur == NONE or ev[-1] != "next":
                                bad("what is left of the batch is dropped when an event is delivered")
                        elif o.val == NONE:
                            if undelivered:
                                bad("idleness is reported while an event is queued")
                            if "_timedout" not in ev:
                                bad("idleness is reported without the time having passed")
                            if timeout == C(0) and False:
                                pass
                        else:
                            bad("it returns %s" % show(o.val))
                    elif o.kind == "raise" and o.val[1].endswith("StopIteration"):
                        now = items(eng, attr(o.st, SELF, "connections"), o.st)
                        if undelivered:
                            bad("the end is reported while an event is queued")
                        if timeout != C(0) and now != ():
                            bad("the end is reported while there is a connection to watch")
                    else:
                        bad("it raises %s" % show(o.val))
                    if ev.count("next") > (o.kind == "return" and o.val == ("p", "$event")) or undelivered and ev.count("next") and ev[-1] != "next":
                        bad("an event is taken and not delivered")
                    # order: a wait follows a collection of this call, and is followed by one
                    for i, e in enumerate(ev):
                        if e == "_wait_on_wires":
                            if "_pull_from_connections" not in ev[:i]:
                                bad("the wires are waited on before what was already received is collected")
                            rest = ev[i + 1:]
                            if "_pull_from_connections" not in rest or "_queue_next" not in rest[rest.index("_pull_from_connections"):]:
                                bad("the call ends after waiting on the wires without collecting")
                            if "events" in ev[:i] and "next" not in ev[:i]:
                                bad("the wires are waited on while an event is queued")
                        if e == "_pull_from_connections" and "_queue_next" not in ev[i + 1:i + 2]:
                            bad("what is collected is not queued for delivery")
                # the loop ends: some path waits on the wires
                if conns and timeout != C(0) and inc != MORE:
                    ck.judge(any(("_wait_on_wires",) in o.st.ts for o in outs), "next", f.name + " waits", f.loc(), "the wires are never waited on")
    ck.count("paths of the loop", n)
    ck.at_least("paths of the loop", 30)
    # _timedout: idle only when a timeout is set and has passed; guaranteed once it has
    f = method(ck, p, cls, "_timedout")


class Iter(EventRule):
    max_depth = 4
    fresh = 8
    initial = ()
    widen_after = 40

    def __init__(self, events):
        self.events = events

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        if f[0] == "g" and f[1].endswith("NotificationManager") or f[0] == "cls" and "NotificationManager" in str(f):
            s = st.with_ts(st.ts + (("nm", tuple(args), tuple(kws)),))
            return [Out("v", s, ("tuple",) + self.events)]
        return None

    def on_yield(self, eng, node, val, st, fr):
        return [Out("v", st.with_ts(st.ts + (("yield", val),)), NONE)]


def iternotifies(ck, p):
    cls = p.cls(PQ3 + ":Connection")
    f = method(ck, p, cls, "iternotifies")
    par = [a.arg for a in f.node.args.args][1]
    a, b, c = ("p", "$a"), ("p", "$b"), ("p", "$c")
    ev = lambda *ns: ("tuple", SELF, ("tuple",) + ns)
    for events in ((), (NONE,), (ev(a),), (ev(a, b), NONE, ev(c)), (ev(a), ev(b)), (ev(a), ev(a))):
        eng = Engine(p, Iter(events))
        outs = eng.run(f, {par: ("p", "$timeout")}, self_class=cls.full)
        ck.judge(bool(outs), "iter", f.name, f.loc(), "no path ends")
        want = []
        for e in events:
            if e == NONE:
                want.append(NONE)
            else:
                want += list(e[2][1:])
        for o in outs:
            ck.ok("iter", "%d events" % len(events))
            got = [e[1] for e in o.st.ts if e[0] == "yield"]
            if o.kind == "raise":
                ck.finding("iter", f.name, f.loc(), "it raises %s" % show(o.val), o.st.trace)
            elif got != want:
                ck.finding("iter", f.name, f.loc(), "events %s are handed out as %s" % (show(("tuple",) + events), show(("tuple",) + tuple(got))), o.st.trace)
            made = [e for e in o.st.ts if e[0] == "nm"]
            if len(made) != 1 or made[0][1] != (SELF,) or dict(made[0][2]).get("timeout") != ("p", "$timeout"):
                ck.finding("iter", f.name, f.loc(), "the manager is not made for this connection with the given timeout", o.st.trace)


# ---------------------------------------------------------------- transactions
def hooks(ck, p):
    """every construction of an Instruction, and every caller of a function that takes the hook as a parameter"""
    n = 0
    wanted = {}     # function -> index/name of its hook parameter
    sites = []
    for f in list(p.all_funcs()):
        if f.module.name.startswith("postgresql.test"):
            continue
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call):
                continue
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
            if nm == "Instruction" and resolves(p, f, c.func):
                n += 1
                ck.ok("asynchook", f.full)
                ck.func(f)
                given = hookarg(c, 1)
                if given is None:
                    ck.finding("asynchook", f.full, f.loc(c), "the transaction is made without a hook: notifications, notices and parameter changes received during it are dropped")
                elif not handler(given, f):
                    pr = [a.arg for a in f.node.args.args]
                    if isinstance(given, ast.Name) and given.id in pr:
                        wanted[f.name] = (pr.index(given.id) - (1 if f.cls is not None else 0), given.id, f)
                    else:
                        ck.finding("asynchook", f.full, f.loc(c), "asynchronous messages go to %s" % ast.unparse(given))
    ck.count("transactions made", n)
    ck.at_least("transactions made", 6)
    for f in list(p.all_funcs()):
        if f.module.name.startswith("postgresql.test"):
            continue
        for c in walk_own(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in wanted:
                i, par, g = wanted[c.func.attr]
                v = ast.unparse(c.func.value)
                if not (v.endswith("pq") or v == "self" and f.cls is not None and f.cls.full == g.cls.full):
                    continue
                ck.ok("asynchook", "%s in %s" % (g.name, f.full))
                ck.count("calls that pass the hook")
                given = None
                if len(c.args) > i:
                    given = c.args[i]
                for k in c.keywords:
                    if k.arg == par:
                        given = k.value
                if given is None or not (handler(given, f) or passes_on(given)):
                    ck.finding("asynchook", "%s in %s" % (g.name, f.full), f.loc(c), "asynchronous messages received by %s() go to %s" % (g.name, "nobody" if given is None else ast.unparse(given)))
    ck.at_least("calls that pass the hook", 3)


def resolves(p, f, e):
    """the name denotes xact3.Instruction"""
    if isinstance(e, ast.Attribute):
        return isinstance(e.value, ast.Name) and e.value.id in ("xact", "xact3") or isinstance(e.value, ast.Attribute)
    return True


def hookarg(c, i):
    for k in c.keywords:
        if k.arg == "asynchook":
            return k.value
    if len(c.args) > i and not any(isinstance(a, ast.Starred) for a in c.args[:i + 1]):
        return c.args[i]
    return None


def handler(e, f, depth=3):
    """the database's _receive_async (possibly through a local name)"""
    if isinstance(e, ast.Attribute) and e.attr == "_receive_async":
        return True
    if isinstance(e, ast.Name) and depth:
        vals = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return bool(vals) and all(handler(v, f, depth - 1) for v in vals)
    return False


def passes_on(e):
    """the hook of the transaction being pushed"""
    if isinstance(e, ast.Attribute) and e.attr == "asynchook":
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and e.args[1].value == "asynchook"


class Receive(EventRule):
    max_depth = 4
    initial = ()

    def __init__(self, typ):
        self.typ = typ

    def may_raise(self, eng, f, node, st):
        return False

    def getattr(self, eng, node, base, attr_, st, fr):
        if attr_ == "type":
            for k in ("Notify", "Notice", "ShowOption"):
                if base[0] in ("g", "cls") and str(base[1]).endswith("element3." + k):
                    return [Out("v", st, C("type of " + k))]
            if base == ("p", "$msg"):
                return [Out("v", st, self.typ)]
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name in ("append", "insert", "extend", "_notify", "emit_message", "emit_client_message", "set_encoding", "clear", "pop", "remove"):
            r = recv
            return [Out("v", st.with_ts(st.ts + ((name, r, tuple(args)),)), NONE)]
        return None

    def setattr(self, eng, node, base, attr_, val, st, fr):
        return [Out("next", st.with_ts(st.ts + (("set", base, attr_),)))]


def receive(ck, p):
    cls = p.cls(PQ3 + ":Connection")
    f = method(ck, p, cls, "_receive_async")
    par = [a.arg for a in f.node.args.args][1]
    M = ("p", "$msg")
    for kind in ("Notify", "Notice", "ShowOption", None):
        typ = C("type of %s" % kind)
        eng = Engine(p, Receive(typ))
        outs = eng.run(f, {par: M}, self_class=cls.full, keep_defaults=True)
        ck.judge(bool(outs), "receive", "%s" % kind, f.loc(), "no path ends")
        for o in outs:
            ck.ok("receive", "%s" % kind)
            bad = lambda msg: ck.finding("receive", "_receive_async %s" % kind, f.loc(), msg, o.st.trace)
            notif = ("attr", SELF, "_notifies")
            onlist = [e for e in o.st.ts if e[1] == notif or e[0] == "set" and e[2] == "_notifies"]
            if kind == "Notify":
                if [e for e in onlist] != [("append", notif, (M,))]:
                    bad("a notification is not appended exactly once to the connection's list")
            else:
                if onlist:
                    bad("the list of notifications is changed by another message")
                names = [e[0] for e in o.st.ts if M in e[-1] or any(contains(a, M) for a in e[-1] if isinstance(a, tuple))]
                if kind == "Notice" and names.count("emit_message") != 1:
                    bad("a notice is not emitted exactly once")
                if kind == "ShowOption" and names.count("_notify") != 1:
                    bad("a parameter report does not reach the settings")
            if o.kind == "raise":
                bad("it raises %s" % show(o.val))
    # nobody else changes the list
    n = 0
    for g in p.all_funcs():
        if g.module.name.startswith("postgresql.test"):
            continue
        for x in walk_own(g.node):
            if isinstance(x, ast.Attribute) and x.attr == "_notifies":
                n += 1
                ck.ok("receive", g.full)
                if isinstance(x.ctx, (ast.Store, ast.Del)) and g.name != "__init__":
                    ck.finding("receive", g.full, g.loc(x), "the connection's list of notifications is replaced")
                if isinstance(x.ctx, ast.Load) and g.module.name != NM and g.name not in ("_receive_async",):
                    ck.count("other readers of the list")
    ck.count("uses of the list", n)
    ck.at_least("uses of the list", 4)
