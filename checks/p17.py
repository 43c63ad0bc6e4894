"""P17: a COPY completes everywhere or is reported as failed.

The manager is interpreted with a producer and receivers whose every operation may succeed or fail, for every sequence of
steps, faults, reconciliations and ways to leave, up to a bound; what it does is compared with what it has to.  The tracking
of messages is interpreted over streams of messages cut anywhere."""
import ast
import itertools
from sa.rules import *
from checks.p01 import wire
from sa.datarule import DataRule
from sa.typerule import Types

MOD = "postgresql.copyman"
PROD = ("p", "$prod")
BUF = ("p", "$buffer")
CHUNK, PQ, NUL = "CHUNKS", "PQv3", None


def P(x):
    return ("p", "$" + x)


def R(i):
    return ("p", "$r%d" % i)


def X(op, who):
    return ("exc", "builtins.Exception", ("of", op, who))


def E(t):
    return ("exc", "builtins." + t, ("user", t))


class Manager(DataRule):
    modules = (MOD,)
    recursion = 3

    def __init__(self, p, source, protos, faults):
        self.p, self.source, self.protos, self.faults = p, source, protos, faults
        self.limit = 100

    def distinct(self, eng, a, b):
        return a != b and (is_const(a) and is_const(b) or a[0] == b[0] == "p")

    def getattr(self, eng, node, base, attr, st, fr):
        if attr == "protocol" and base[0] == "p":
            if base == PROD:
                return [Out("v", st, C(self.source) if self.source else NONE)]
            if base[1].startswith("$r"):
                k = self.protos[int(base[1][2:])]
                return [Out("v", st, C(k) if k else NONE)]
        return super().getattr(eng, node, base, attr, st, fr)

    def fault_count(self, st):
        return sum(1 for e in st.ts if e[0] == "fault")

    def act(self, eng, node, op, who, args, st, value=NONE, stop=False):
        """an operation of the producer or of a receiver: it succeeds or fails"""
        done = lambda r: st_ts(st, st.ts + ((op, who, r) + tuple(args),))
        outs = [Out("v", done("ok"), value)]
        if stop and sum(1 for e in st.ts if e[0] == "next" and e[2] == "ok") >= self.limit:
            outs = []
        if self.fault_count(st) < self.faults:
            s = done("failed")
            outs.append(Out("raise", st_ts(s, s.ts + (("fault", who),)), X(op, who), node))
        if stop:
            outs.append(Out("raise", done("stop"), ("exc", "builtins.StopIteration", ("site", 0)), node))
        return outs

    def call(self, eng, node, f, args, kws, st, fr):
        m = self.method(eng, f, "__call__") if f[0] == "obj" else None
        if m is not None:
            return eng.call_func(node, m, [f] + list(args), kws, st, fr)
        recv, name = callee(f)
        full = f[1] if f[0] == "g" else None
        if recv is None and name == "next" and args and args[0] == PROD or recv == PROD and name == "__next__":
            n = sum(1 for e in st.ts if e[0] == "next" and e[2] == "ok")
            return self.act(eng, node, "next", PROD, (), st, ("p", "$data%d" % n), stop=True)
        me = args[0] if full == "builtins.next" and len(args) == 1 else None
        if me is not None and me[0] == "obj" and me[1].startswith("inst:"):
            m = self.method(eng, me, "__next__")
            if m is not None:
                return eng.call_func(node, m, [me], {}, st, fr)
        if recv is not None and recv[0] == "p" and (recv == PROD or recv[1].startswith("$r")):
            # context managers called by their class' method or by with statements alike
            if name in ("__enter__", "realign", "transmit"):
                return self.act(eng, node, name, recv, (), st)
            if name == "__exit__":
                return self.act(eng, node, name, recv, (args[0],), st)
            if name == "accept":
                return [Out("v", st_ts(st, st.ts + (("accept", recv, "ok", self.form(eng, args[0], st)),)), NONE)]
            if name == "__next__":
                return None
        if full is not None and full.endswith("pq_message_stream") and not args:
            return [Out("v", st, BUF)]
        if recv == BUF:
            w = [e[3] for e in st.ts if e[0] == "write"]
            if name == "write":
                return [Out("v", st_ts(st, st.ts + (("write", BUF, "ok", args[0]),)), NONE)]
            if name == "read" and (not args):
                return [self.new(eng, "list", [("tuple", C(b"d"), ("p", "$body%d_%s" % (i, show(w[-1]) if w else "none"))) for i in range(2)], node, st, fr)]
        if full is not None and full.endswith("element.ElementSet"):
            it = eng.exact_items(args[0], st) if args else ()
            if it is not None:
                return [self.new(eng, "set", list(dict.fromkeys(it)), node, st, fr)]
        if full == "builtins.bytes" and len(args) == 1 and args[0][0] == "p":
            return [Out("v", st, args[0])]
        if recv is not None and recv[:2] == ("obj", "dict") and name == "__getitem__" and len(args) == 1:
            d = eng.hget(st, (recv, "$items"))
            if d is not None and d[0] == "D":
                for k, v in d[1]:
                    if k == args[0]:
                        return [Out("v", st, v)]
                return self.raises(eng, "KeyError", node, st)
        c = self.p.class_by_dotted(full) if full is not None else None
        if c is not None and c.module.name == MOD and self.p.is_subclass(c.full, "builtins.Exception"):
            n = sum(1 for e in st.ts if e[0] == "made")
            exc = ("obj", "inst:" + full, ("made", n), 0)
            m = self.p.find_method(c, "__init__")
            st = st_ts(st, st.ts + (("made", exc),))
            if m is None:
                return [Out("v", st, exc)]
            return [Out("v", o.st, exc) if o.kind == "v" else o for o in eng.call_func(node, m, [exc] + list(args), kws, st, fr)]
        if full == "sys.exc_info":
            return [Out("v", st, ("tuple", self.type_of_exc(st), st.exc[-1] if st.exc else NONE, ("p", "$tb")))]
        if full == "builtins.issubclass" and args and args[0][0] == "g":
            hier = {"builtins.Exception": ("Exception", "BaseException", "object"), "builtins.KeyboardInterrupt": ("KeyboardInterrupt", "BaseException", "object")}
            cls = args[1][1:] if args[1][0] == "tuple" else (args[1],)
            if all(c[0] == "g" and c[1].startswith("builtins.") for c in cls):
                return [Out("v", st, C(any(c[1][9:] in hier.get(args[0][1], ("Exception", "BaseException", "object")) for c in cls)))]
        return super().call(eng, node, f, args, kws, st, fr)

    def type_of_exc(self, st):
        return G(st.exc[-1][1]) if st.exc and st.exc[-1][0] == "exc" else NONE

    def decide(self, eng, t, st):
        if t[0] in ("exc", "of", "made"):
            return True
        if t[0] == "p" and t[1][:5] in ("$data", "$prod", "$body") or t[0] == "p" and t[1].startswith("$r"):
            return True
        if t[0] == "g" or t[0] == "obj" and t[1].startswith("inst:"):
            return True
        if t[0] == "cmp" and t[1] in ("is", "==") and len(t) == 4 and NONE in t[2:]:
            o = t[3] if t[2] == NONE else t[2]
            if o[0] in ("exc", "of", "made", "obj", "tuple"):
                return False
        return super().decide(eng, t, st)

    def form(self, eng, t, st):
        """the data a receiver is given: (protocol it is in, data)"""
        if t[0] == "p" and t[1].startswith("$data"):
            return (self.source, t)
        if t == NONE:
            return (None, None)
        if t[0] == "obj" and t[1] == "list" or t[0] == "tuple":
            it = eng.exact_items(t, st)
            if it is not None:
                if not it:
                    return (CHUNK, None)
                b = [x[1][1:].partition("_") for x in it if x[0] == "p" and x[1].startswith("$body")]
                w = [e[3] for e in st.ts if e[0] == "write"]
                if w and len(it) == 2 and [x[0] for x in b] == ["body0", "body1"] and all(x[2] == show(w[-1]) for x in b):
                    return (CHUNK, w[-1])
        if t[0] in ("call", "ret"):
            fn, a = (t[1], t[2]) if t[0] == "call" else (t[2], t[3])
            if fn[0] == "g" and fn[1].endswith(".cat_messages") and len(a) == 1 and a[0][0] == "p":
                return (PQ, a[0])
            if fn == G("builtins.memoryview") and a in ((C(b""),), (C(""),)):
                return (PQ, None)
        if t == C(b""):
            return (PQ, None)
        return ("?", show(t))


def st_ts(st, ts):
    s = st._cp()
    s.ts = ts
    return s


class Walk:
    """the states of one manager, moved by calls"""

    def __init__(self, ck, p, source, protos, faults):
        self.ck, self.p = ck, p
        self.cls = p.cls(MOD + ":CopyManager")
        self.rule = Manager(p, source, protos, faults)
        self.eng = Engine(p, self.rule)
        self.fr = self.eng.module_frame(p.module(MOD))
        self.n = 0

    def node(self):
        self.n += 1
        x = ast.parse("0").body[0].value
        x.lineno, x.col_offset = -self.n, 0
        return x

    def call(self, st, f, args=()):
        self.ck.count("steps")
        return self.eng.call(self.node(), f, list(args), (), st, self.fr)

    def method(self, st, me, name, args=()):
        m = self.p.find_method(self.cls, name)
        if m is None:
            raise AnalysisBroken("P17: CopyManager.%s is not found" % name)
        self.ck.func(m)
        return self.call(st, ("bm", me, m.full), args)

    def attr(self, st, base, name):
        return st.heap.get((base, name))

    def receivers(self, st, me):
        t = self.attr(st, me, "receivers")
        it = self.eng.exact_items(t, st) if t is not None else None
        return None if it is None else set(it)


def kind(o):
    if o.kind == "v":
        return "v"
    if o.val[0] == "exc" and o.val[2][0] == "obj":
        o.val = o.val[2]
    return o.val[1].rsplit(".", 1)[-1] if o.val[0] in ("exc", "obj") else o.val[1].rsplit(".", 1)[-1] if o.val[0] == "obj" else show(o.val)


def faults_of(w, st, exc, name):
    """mapping given by a raised fault, as a dict"""
    t = st.heap.get((exc, name))
    if t is None:
        # the arguments the exception was made with
        return "?"
    if t == NONE:
        return {}
    if t[0] == "obj" and t[1] == "dict":
        d = w.eng.hget(st, (t, "$items"))
        if d is None:
            return {}
        if d[0] == "D":
            return dict(d[1])
    return "?"


def manager(ck, p, source, protos, steps, faults):
    w = Walk(ck, p, source, protos, faults)
    fm = w.cls
    loc = fm.loc() if hasattr(fm, "loc") else "postgresql/copyman.py"
    rs = [R(i) for i in range(len(protos))]
    label = "%s -> %s" % (source, ", ".join(map(str, protos)) or "nothing")
    where = lambda name: p.find_method(fm, name).loc()
    bad = {}

    def expect(rule, ok, name, what, got=""):
        key = (rule, what, name)
        bad.setdefault(key, [])
        if not ok:
            bad[key].append("%s: %s" % (label, got))

    def events(st, since, *ops):
        return [e for e in st.ts[since:] if e[0] in ops]

    def story(st):
        nm = lambda x: x[1].lstrip("$") if isinstance(x, tuple) and x and x[0] == "p" else str(x)
        return ", ".join("%s of %s %s" % (e[0].strip("_"), nm(e[1]), e[2]) if len(e) > 2 else e[0] for e in st.ts if e[0] not in ("fault", "write", "accept", "made"))

    def leave(st, me, typ, why):
        have = w.receivers(st, me)
        n = len(st.ts)
        # what the steps have seen, before leaving
        ended = bool([e for e in st.ts if e[0] == "next" and e[2] == "stop"])
        args = [NONE] * 3 if typ is None else [G("builtins." + typ), E(typ), ("p", "$tb")]
        for o in w.method(st, me, "__exit__", args):
            judge_left(o, n, have, typ, ended, st, me)

    def judge_left(o, n, have, typ, ended, st, me):
        ev = events(o.st, n, "realign", "next", "__exit__", "transmit", "accept")
        failed = [e for e in ev if e[2] == "failed"]
        if typ == "KeyboardInterrupt":
            expect("leave", o.kind == "v" and w.eng.truth(o.val, o.st) is False, "__exit__", "an interrupt passes through", "%s" % kind(o))
            return
        exits = [e[1] for e in ev if e[0] == "__exit__"]
        if have:
            for r in have:
                expect("leave", exits.count(r) == 1, "__exit__", "every remaining receiver is finished once", "%s finished %d times after %s" % (r[1], exits.count(r), story(o.st)))
        if not [e for e in failed if e[1] == PROD]:
            expect("leave", exits.count(PROD) == 1, "__exit__", "the producer is finished once", "%d times after %s" % (exits.count(PROD), story(o.st)))
        good = ended and have and typ is None and not failed
        if good:
            expect("leave", o.kind == "v", "__exit__", "an operation that completed everywhere is left quietly", "%s after %s" % (kind(o), story(o.st)))
            return
        expect("leave", o.kind == "raise" and kind(o) == "CopyFail", "__exit__", "an operation that did not complete is left with a copy failure",
               "%s after %s%s" % ("quiet" if o.kind == "v" else kind(o), story(o.st), ", left with " + typ if typ else ""))
        if o.kind == "raise" and kind(o) == "CopyFail":
            exc = o.val
            if have:
                want = {e[1]: X("__exit__", e[1])[2] for e in failed if e[0] == "__exit__" and e[1] != PROD}
                got = faults_of(w, o.st, exc, "receiver_faults")
                expect("leave", got == want, "__exit__", "the copy failure names the faults of the receivers", "%s instead of %s" % (got if got == "?" else sorted(k[1] for k in got), sorted(k[1] for k in want)))
            pf = o.st.heap.get((exc, "producer_fault"))
            expect("leave", (pf not in (None, NONE)) == bool([e for e in failed if e[1] == PROD]), "__exit__", "the copy failure names the fault of the producer", "%s after %s" % (show(pf) if pf else "nothing", story(o.st)))

    def step(st, me, k, name="__next__"):
        """-> states from which it may go on"""
        before = w.receivers(st, me)
        n = len(st.ts)
        for o in w.method(st, me, name):
            ev = events(o.st, n, "next", "accept", "transmit")
            nexts = [e for e in ev if e[0] == "next"]
            after = w.receivers(o.st, me)
            what = kind(o)
            if not before:
                expect("step", what == "StopIteration" and not nexts, name, "without receivers there are no more steps", what)
                go_on(o.st, me, k, None)
                continue
            expect("step", len(nexts) == 1, name, "a step asks the producer once", "%d times" % len(nexts))
            if not nexts:
                continue
            if nexts[0][2] == "stop":
                expect("step", what == "StopIteration" and after == before, name, "the end of the data ends the steps", what)
                go_on(o.st, me, k, None)
                continue
            if nexts[0][2] == "failed":
                expect("step", what == "ProducerFault" and after == before, name, "a fault of the producer is reported", what)
                go_on(o.st, me, k, "Exception")
                continue
            dat = ("p", "$data%d" % (sum(1 for e in o.st.ts if e[0] == "next" and e[2] == "ok") - 1))
            failed = set()
            for r in before:
                proto = protos[int(r[1][2:])]
                acc = [e for e in ev if e[0] == "accept" and e[1] == r]
                tr = [i for i, e in enumerate(ev) if e[0] == "transmit" and e[1] == r]
                fits = len(acc) == 1 and (acc[0][3] == ((proto, dat) if source and proto else (proto, None)) or not proto and acc[0][3][1] in (None, dat))
                expect("chunk", fits, name, "every receiver gets every chunk once, in the form of its protocol", "a receiver of %s gets %s" % (proto, "; ".join(map(str, [e[3] for e in acc])) or "nothing"))
                expect("chunk", len(tr) == 1 and acc and ev.index(acc[0]) < tr[0], name, "every receiver transmits what it was given, once", "%d times" % len(tr))
                if [1 for i in tr if ev[i][2] == "failed"]:
                    failed.add(r)
            expect("fault", after == before - failed, name, "failed receivers, and no others, are taken out", "left %s of %s, failed %s" % tuple(sorted(x[1] for x in y or ()) for y in (after, before, failed)))
            if failed:
                expect("fault", what == "ReceiverFault", name, "faults of receivers are reported", "%s after %s" % (what, story(o.st)))
                if what == "ReceiverFault":
                    got = faults_of(w, o.st, o.val, "faults")
                    expect("fault", got == {r: X("transmit", r)[2] for r in failed}, name, "a report names the failed receivers and their exceptions", str(got)[:100])
                go_on(o.st, me, k, "Exception")
                for r in sorted(failed):
                    back(o.st, me, k, r)
            else:
                expect("step", o.kind == "v", name, "a step without faults succeeds", what)
                go_on(o.st, me, k, None)

    def back(st, me, k, r):
        before = w.receivers(st, me)
        n = len(st.ts)
        for o in w.method(st, me, "reconcile", [r]):
            tr = [e for e in events(o.st, n, "transmit") if e[1] == r]
            after = w.receivers(o.st, me)
            ok = len(tr) == 1
            expect("fault", ok, "reconcile", "a receiver put back transmits what it had left, once", "%d times" % len(tr))
            if ok and tr[0][2] == "failed":
                expect("fault", o.kind == "raise" and after == before, "reconcile", "a receiver that fails again is not put back", kind(o))
            elif ok:
                expect("fault", o.kind == "v" and after == before | {r}, "reconcile", "a receiver that transmitted is put back", kind(o))
            go_on(o.st, me, k, None)

    seen = set()

    def go_on(st, me, k, typ):
        kk = (st.key(), k)
        if kk in seen:
            return
        seen.add(kk)
        for t in (None, "Exception", "KeyboardInterrupt") if typ is None else (None, "Exception"):
            leave(st, me, t, "")
        if k > 0:
            step(st, me, k - 1)

    st = State(ts=())
    outs = w.call(st, G(fm.full.replace(":", ".")), [PROD] + rs)
    if len(outs) != 1 or outs[0].kind != "v":
        raise AnalysisBroken("P17: a CopyManager is not made: %s" % [show(o.val) for o in outs][:2])
    me, st = outs[0].val, outs[0].st
    # the whole of it at once
    w.rule.limit = 2
    for o in w.method(st, me, "run"):
        failed = [e for e in o.st.ts if len(e) > 2 and e[2] == "failed"]
        have = w.receivers(o.st, me)
        ended = any(e[0] == "next" and e[2] == "stop" for e in o.st.ts)
        exits = [e[1] for e in o.st.ts if e[0] == "__exit__"]
        fine = not failed and have and ended
        expect("run", (o.kind == "v") == bool(fine), "run", "run is quiet only when the end of the data was seen and nothing failed", "%s after %s" % (kind(o), story(o.st)))
        if fine:
            expect("run", sorted(exits) == sorted([PROD] + rs), "run", "run finishes the producer and every receiver once", "%s after %s" % (sorted(x[1] for x in exits), story(o.st)))
    w.rule.limit = 100
    for o in w.method(st, me, "__enter__"):
        failed = [e for e in o.st.ts if e[0] == "__enter__" and e[2] == "failed"]
        entered = [e[1] for e in o.st.ts if e[0] == "__enter__"]
        if failed:
            expect("enter", o.kind == "raise", "__enter__", "a fault of a producer or receiver fails the start", story(o.st))
            # what was started is finished, when the producer was
            if failed[0][1] != PROD:
                fin = [e[1] for e in o.st.ts if e[0] == "__exit__"]
                expect("enter", kind(o) == "CopyFail" and all(fin.count(r) == 1 for r in rs), "__enter__", "what was started is finished when the start fails", "%s after %s" % (kind(o), story(o.st)))
            continue
        expect("enter", o.kind == "v" and o.val == me and sorted(entered) == sorted([PROD] + rs), "__enter__", "the start starts the producer and every receiver, once", "%s after %s" % (kind(o), story(o.st)))
        if o.kind == "v":
            go_on(o.st, me, steps, None)
    return bad, where


# ------------------------------------------------------------ messages on the wire


class Track(Types):
    """views of the wire are fields; the connection's state machine is given what recover() gets"""

    def types_call(self, eng, node, f, args, kw, st, fr):
        recv, name = callee(f)
        if recv is not None and is_const(recv) and name in ("__ne__", "__eq__") and len(args) == 1 and is_const(args[0]):
            return [Out("v", st, C((recv[2] != args[0][2]) == (name == "__ne__")))]
        if name == "recover" and len(args) == 1:
            return [Out("v", st_ts(st, st.ts + (("recover", args[0]),)), NONE)]
        if name == "isinstance" and len(args) == 2 and is_const(args[0]) and args[1] == G("builtins.int"):
            return [Out("v", st, C(isinstance(args[0][2], int)))]
        if f[0] == "attr" and f[1][:2] == ("obj", "iter") and f[2] == "__next__" and not args:
            it = eng.exact_items(f[1], st)
            if it is not None:
                if not it:
                    return self.raises(eng, "StopIteration", node, st)
                return [Out("v", st.hset((f[1], "$items"), ("L", tuple(it[1:]))), it[0])]
        return super().types_call(eng, node, f, args, kw, st, fr)


def octets(atoms):
    """atoms of one octet each"""
    out = []
    for a in atoms:
        out += [("bytes", a[1][i:i + 1]) for i in range(len(a[1]))] if a[0] == "bytes" else [("raw", "%s.%d" % (a[1], i), 1) for i in range(a[2])]
    return out


def split(os):
    """the messages octets are made of, None if they are not whole messages"""
    out, i = [], 0
    while i < len(os):
        head = os[i:i + 5]
        if len(head) < 5 or any(h[0] != "bytes" for h in head):
            return None
        n = int.from_bytes(b"".join(h[1] for h in head[1:]), "big")
        if n < 4 or i + 1 + n > len(os):
            return None
        out.append((head[0][1], os[i + 5:i + 1 + n]))
        i += 1 + n
    return out


def tracking(ck, p, sizes, tail):
    mods = (MOD, "postgresql.python.structlib", "postgresql.python.functools")
    cls = p.cls(MOD + ":ProtocolProducer")
    rule = Track(mods)
    eng = Engine(p, rule)
    fr = eng.module_frame(p.module(MOD))
    need = {n: p.find_method(cls, n) for n in ("track_state", "process_copy_data", "realign")}
    wst = p.cls(MOD + ":WireState")
    for n, m in list(need.items()) + [(n, p.find_method(wst, n)) for n in ("__init__", "update")]:
        if m is None:
            raise AnalysisBroken("P17: ProtocolProducer.%s is not found" % n)
        ck.func(m)
    up = p.find_method(wst, "update").loc()
    stream = []
    for i, n in enumerate(sizes):
        stream += [("bytes", b"d" + (n + 4).to_bytes(4, "big"))] + ([("raw", "m%d" % i, n)] if n else [])
    stream = octets(stream)
    ends = [5 + n for n in sizes]
    ends = [sum(ends[:i + 1]) for i in range(len(ends))]
    T = len(stream)
    if tail:
        stream += octets([("bytes", tail)])
    label = "messages of %s octets%s" % (", ".join(map(str, sizes)), ", then another kind" if tail else "")
    me = ("obj", "inst:" + cls.full, ("producer",), 0)
    num = [0]
    bad = {}

    def node():
        num[0] += 1
        x = ast.parse("0").body[0].value
        x.lineno, x.col_offset = -num[0], 0
        return x

    def expect(rule_, ok, what, at, got):
        bad.setdefault((rule_, what, at), [])
        if not ok:
            bad[(rule_, what, at)].append("%s: %s" % (label, got))

    def oct_of(t):
        a = rule.atoms(t)
        return None if a is None else octets_of(a)

    def octets_of(a):
        out = []
        for x in a:
            if x[0] == "bytes":
                out += [("bytes", x[1][i:i + 1]) for i in range(len(x[1]))]
            elif x[0] == "raw":
                out.append(x)
            else:
                return None
        return out

    def text(os):
        return "?" if os is None else "".join(o[1].hex() + " " if o[0] == "bytes" else o[1] + " " for o in os).strip() or "nothing"

    def state_key(st):
        w = st.heap.get((me, "_state"))
        if w is None or w == NONE:
            return None
        return tuple(rule.canon(eng, st.heap.get((w, a), NONE), st) for a in ("remaining_bytes", "size_fragment"))

    st0 = State(ts=()).hset((me, "_state"), NONE).hset((me, "total_messages"), C(0)).hset((me, "total_bytes"), C(0)).hset((me, "recv_view"), P("recv_view"))
    todo, seen = [(0, st0)], set()
    while todo:
        pos, st = todo.pop()
        k = (pos, state_key(st))
        if k in seen:
            continue
        seen.add(k)
        ck.count("positions")
        if pos:
            realigned(pos, st, eng, rule, me, need, node, fr, stream, expect, oct_of, text)
        for nx in range(pos + 1, len(stream) + 1):
            # long messages: cuts near their ends
            if len(stream) > 30 and pos + 6 < nx < len(stream) - 2 and not any(abs(nx - e) < 6 for e in ends):
                continue
            f = need["process_copy_data"] if pos else need["track_state"]
            s = st_ts(st, ())
            outs = eng.call_func(node(), f, [me, rule.wire(stream[pos:nx])], (), s, fr)
            ck.count("steps")
            at = "octets %d to %d" % (pos, nx)
            if len(outs) != 1 or outs[0].kind != "v":
                expect("track", False, "the position in the stream is known after any part of it", up, "%s: %s" % (at, "; ".join("raises " + show(o.val[1:2]) if o.kind == "raise" else show(o.val) for o in outs)[:100]))
                continue
            o = outs[0]
            got = oct_of(o.val)
            expect("track", got == stream[pos:min(nx, T)] if pos <= T else True, "the receivers are given the COPY data and nothing else", up, "%s: given %s" % (at, text(got)))
            n = rule.small(o.st.heap.get((me, "total_messages"), NONE))
            want = sum(1 for e in ends if e <= min(nx, T))
            expect("track", n == want, "the messages are counted", up, "%s: %s of %d" % (at, n, want))
            rec = [oct_of(e[1]) for e in o.st.ts if e[0] == "recover"]
            ended = nx > T
            expect("track", (rec == [stream[T:nx]]) if ended else not rec, "what is not COPY data is given back to the connection, all of it, once", up, "%s: %s" % (at, " / ".join(map(text, rec)) or "nothing is given back"))
            if not ended and state_key(o.st) is not None:
                todo.append((nx, o.st))
            elif not ended:
                expect("track", False, "the position in the stream is known after any part of it", up, "%s: tracking ended" % at)
    return bad


def realigned(pos, st, eng, rule, me, need, node, fr, stream, expect, oct_of, text):
    f = need["realign"]
    at = "left after octet %d" % pos
    outs = eng.call_func(node(), f, [me], (), st_ts(st, ()), fr)
    if len(outs) != 1 or outs[0].kind != "v":
        expect("align", False, "a COPY can be left anywhere in a message", f.loc(), "%s: %s" % (at, "; ".join(kind(o) for o in outs)))
        return
    o = outs[0]
    rec = [oct_of(e[1]) for e in o.st.ts if e[0] == "recover"]
    ok = len(rec) == 1 and rec[0] is not None and split(rec[0] + stream[pos:]) is not None
    expect("align", ok, "a connection left within a message finds the next one", f.loc(), "%s: given %s" % (at, " / ".join(map(text, rec)) or "nothing"))
    s, more = o.st, []
    for _ in range(3):
        outs = eng.call(node(), s.heap.get((me, "nextchunk"), NONE), [], (), s, fr)
        if len(outs) != 1 or outs[0].kind != "v":
            break
        x = oct_of(outs[0].val)
        more, s = (None if x is None or more is None else more + x), outs[0].st
    stopped = len(outs) == 1 and outs[0].kind == "raise" and kind(outs[0]) == "StopIteration"
    got = None if more is None else split(stream[:pos] + more)
    expect("align", stopped and got is not None, "receivers left within a message are given the rest of one, and no more", f.loc(), "%s: given %s%s" % (at, text(more), "" if stopped else " without end"))


# ------------------------------------------------------------ receiving


def receiving(ck, p):
    """transmit() of a receiver on a connection: everything is sent once, in order, whatever part the socket takes"""
    cls = p.cls(MOD + ":ProtocolReceiver")
    acc, tr = p.find_method(cls, "accept"), p.find_method(cls, "transmit")
    if acc is None or tr is None:
        raise AnalysisBroken("P17: ProtocolReceiver.accept, transmit are not found")
    ck.func(acc)
    ck.func(tr)
    SEND = ("p", "$send")

    class Send(Types):
        def types_call(self, eng, node, f, args, kw, st, fr):
            if f == SEND and len(args) == 1:
                a = self.atoms(args[0])
                if a is None:
                    return None
                outs = [Out("v", st_ts(st, st.ts + (("sent", self.wire(self.cut(a, 0, n))),)), C(n)) for n in range(1, sum(map(self.size, a)) + 1)]
                return outs + [Out("raise", st_ts(st, st.ts + (("fault",),)), ("exc", "builtins.OSError", ("site", 0)), node)]
            return super().types_call(eng, node, f, args, kw, st, fr)
    for n in range(0, 4):
        rule = Send((MOD,))
        eng = Engine(p, rule)
        fr = eng.module_frame(p.module(MOD))
        me = ("obj", "inst:" + cls.full, ("receiver",), 0)
        nd = ast.parse("0").body[0].value
        st = State(ts=()).hset((me, "send"), SEND).hset((me, "view"), C(b""))
        data = [("raw", "x%d" % i, 1) for i in range(n)]
        outs = eng.call_func(nd, acc, [me, rule.wire(data)], (), st, fr)
        ck.judge(len(outs) == 1 and outs[0].kind == "v", "send", "a receiver accepts %d octets" % n, acc.loc(), "it does not")
        bad = []
        for o in eng.call_func(nd, tr, [me], (), outs[0].st, fr):
            sent = []
            for e in o.st.ts:
                if e[0] == "sent":
                    sent += rule.atoms(e[1]) or []
            left = rule.atoms(o.st.heap.get((me, "view"), C(b"")))
            fault = any(e[0] == "fault" for e in o.st.ts)
            good = (o.kind == "raise") == fault and left is not None and sent + left == data and (fault or not left)
            if not good:
                bad.append("sent %d, left %s, %s" % (len(sent), "?" if left is None else len(left), o.kind))
        ck.judge(not bad, "send", "a receiver sends %d octets once and in order, and keeps the rest when the connection fails" % n, tr.loc(), "; ".join(bad[:2]))


# ------------------------------------------------------------ statements


class Leaving(DataRule):
    modules = (MOD,)
    GIVE = ()

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name in ("_pq_complete", "interrupt") or name == "messages_received":
            outs = [Out("v", st_ts(st, st.ts + ((name, "ok", self.snapshot(eng, st)),)), ("tuple",))]
            if name == "_pq_complete":
                outs.append(Out("raise", st_ts(st, st.ts + ((name, "failed", self.snapshot(eng, st)),)), ("exc", "postgresql.exceptions.Error", ("site", 0)), node))
            return outs
        if f[0] == "g" and f[1] == "builtins.issubclass" and args[0][0] == "g":
            return [Out("v", st, C(args[0][1] == "builtins.ValueError"))]
        if f[0] == "g" and f[1] == "builtins.bytes" and len(args) == 1:
            return [Out("v", st, args[0])]
        return super().call(eng, node, f, args, kws, st, fr)

    def snapshot(self, eng, st):
        x = st.heap.get((P("xact"), "messages"))
        return (x, st.heap.get((P("pq"), "message_data")))

    def decide(self, eng, t, st):
        if t in self.TRUE:
            return True
        if t in self.FALSE:
            return False
        return super().decide(eng, t, st)


def statements(ck, p):
    """how the ends on connections are left"""
    DB = P("db")
    for kindof, name in (("StatementReceiver", "receiver"), ("StatementProducer", "producer")):
        cls = p.cls("%s:%s" % (MOD, kindof))
        m = p.find_method(cls, "__exit__")
        if m is None:
            raise AnalysisBroken("P17: %s.__exit__ is not found" % kindof)
        ck.func(m)
        for typ in (None, "ValueError", "KeyboardInterrupt"):
            for a, b in itertools.product((False, True), repeat=2):
                rule = Leaving()
                eng = Engine(p, rule)
                fr = eng.module_frame(p.module(MOD))
                me = ("obj", "inst:" + cls.full, ("end",), 0)
                st = State(ts=()).hset((me, "statement"), P("statement")).hset((P("statement"), "database"), DB).hset((DB, "pq"), P("pq"))
                if name == "receiver":
                    # a: in COPY; b: data of a message is left
                    st = st.hset((me, "xact"), P("xact") if a else NONE).hset((me, "view"), P("rest") if b else C(b"")).hset((P("pq"), "xact"), P("xact"))
                    rule.TRUE, rule.FALSE = (P("rest"), P("xact")), ()
                else:
                    # a: the COPY of the producer is not over; b: the connection is closed
                    st = st.hset((me, "_chunks"), P("chunks")).hset((P("chunks"), "_xact"), P("xact") if a else NONE).hset((DB, "closed"), C(b)).hset((P("pq"), "xact"), P("xact") if a else NONE)
                    rule.TRUE, rule.FALSE = (P("chunks"), P("xact")), ()
                args = [NONE] * 3 if typ is None else [G("builtins." + typ), P("exc"), P("tb")]
                nd = ast.parse("0").body[0].value
                what = "a %s, %s, %s" % (name, ("in COPY" if a else "not in COPY") + (", with part of a message left" if b else "") if name == "receiver" else ("its COPY not over" if a else "its COPY over") + (", connection closed" if b else ""),
                                         "left quietly" if typ is None else "left with %s" % typ)
                for o in eng.call_func(nd, m, [me] + args, (), st, fr):
                    ev = list(o.st.ts)
                    comp = [e for e in ev if e[0] == "_pq_complete"]
                    if name == "receiver":
                        if not a:
                            ck.judge(o.kind == "v" and not comp, "finish", what + ", does nothing", m.loc(), "%s" % [e[0] for e in ev])
                            continue
                        if typ == "KeyboardInterrupt" and not b:
                            continue
                        fine = len(comp) == 1 and (o.kind == "raise") == (comp[0][1] == "failed")
                        ck.judge(fine, "finish", what + ", completes what it sends and hands on its failure", m.loc(), "%s, %s" % (o.kind, [e[:2] for e in ev]))
                        if not comp:
                            continue
                        msgs, data = comp[0][2]
                        done = msgs == ("attr", P("xact"), "CopyDoneSequence")
                        ck.judge(done == (typ is None and not b), "finish", what + (", ends its data as complete" if typ is None and not b else ", does not end its data as complete"), m.loc(), "it sends %s" % (show(msgs) if msgs else "the failure"))
                        if b:
                            ck.judge(data == P("rest"), "finish", what + ", sends the rest of the message first", m.loc(), "sends %s" % (show(data) if data else "nothing"))
                    else:
                        if not a or b or typ == "KeyboardInterrupt":
                            ck.judge(o.kind == "v" and not ev, "finish", what + ", does nothing", m.loc(), "%s" % [e[0] for e in ev])
                            continue
                        fine = [e[0] for e in ev] == ["interrupt", "_pq_complete"] and (o.kind == "raise") == (comp[0][1] == "failed")
                        ck.judge(fine, "finish", what + ", interrupts the COPY, completes it and hands on its failure", m.loc(), "%s, %s" % (o.kind, [e[:2] for e in ev]))


def run(ck, p):
    wire(ck, p, "CopyData", "CopyDone", "CopyFail", "CopyToBegin", "CopyFromBegin", "Complete")
    ck.rule("enter", "the start starts the producer and every receiver once; a fault of one fails the start, and what was started is finished")
    ck.rule("step", "a step takes one chunk of the producer; the end of the data ends the steps, a fault of the producer is reported")
    ck.rule("chunk", "every receiver gets every chunk, in the form of its protocol, and transmits it once")
    ck.rule("fault", "receivers that fail, and no others, are taken out and reported with their exceptions; only reconciliation puts one back")
    ck.rule("leave", "the context is left quietly only when the end of the data was seen and the producer and every remaining receiver finished without fault; otherwise a copy failure names the faults")
    ck.rule("run", "run is quiet only when the end of the data was seen and nothing failed, and finishes everything")
    deep = ck.tier == "thorough"
    total = {}
    plans = [(CHUNK, (CHUNK,), 2, 2), (CHUNK, (CHUNK, PQ), 2, 1), (PQ, (PQ, CHUNK), 2, 1), (PQ, (NUL, PQ), 1, 1), (NUL, (PQ, CHUNK), 1, 1), (NUL, (NUL,), 1, 1), (CHUNK, (NUL, CHUNK), 1, 1), (CHUNK, (), 1, 1), (PQ, (PQ, PQ), 1, 2)]
    if deep:
        plans += [(CHUNK, (CHUNK, PQ), 3, 2), (PQ, (PQ, CHUNK, CHUNK), 2, 2)]
    for source, protos, steps, faults in plans:
        bad, where = manager(ck, p, source, protos, steps, faults)
        for (rule, what, name), xs in bad.items():
            total.setdefault((rule, what, name, where(name)), []).extend(xs)
    for (rule, what, name, at), xs in sorted(total.items()):
        ck.judge(not xs, rule, what, at, "%s (%d more)" % (xs[0], len(xs) - 1) if xs else "")
    ck.rule("track", "the COPY data and nothing else is given to receivers; the rest goes back to the connection")
    ck.rule("align", "after a COPY is left within a message, receivers get the rest of one and the connection finds the next")
    ck.rule("send", "accepted data is sent once and in order; what was not sent is kept when the connection fails")
    ck.rule("finish", "an end on a connection completes its COPY when left and hands on its failure; data is ended as complete only when left quietly with nothing left over")
    total = {}
    sizes = [(), (0,), (1,), (3,), (0, 2), (260,), (2, 0, 1)] + ([(1, 1, 1, 1), (258, 1)] if deep else [])
    for sz in sizes:
        for tail in (None, b"Z\0\0\0\x05I") if sum(sz) < 100 else (None,):
            if not sz and not tail:
                continue
            for k, xs in tracking(ck, p, sz, tail).items():
                total.setdefault(k, []).extend(xs)
    for (rule, what, at), xs in sorted(total.items()):
        ck.judge(not xs, rule, what, at, "%s (%d more)" % (xs[0], len(xs) - 1) if xs else "")
    receiving(ck, p)
    statements(ck, p)
    ck.at_least("steps", 100, "operations interpreted")
