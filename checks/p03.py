"""P03: only replies the protocol allows advance a conversation.

The reply tables are evaluated from the class body and compared, as automata, with the protocol's.  Then every
(state, message) pair, and every pair of messages following it in one batch, is interpreted through the put methods:
position, completion, fatality, stored messages and count must be those of the reference automaton below."""
from sa.layout import *
from sa.rules import pairs
from sa.program import AnalysisBroken

XM = "postgresql.protocol.xact3"
E3 = "postgresql.protocol.element3"
SELF = ("p", "self")
DONE = "done"
# per request: state -> (required {type: next}, tolerated {type: next})
ROWS_Q = {b"D": "rows", b"C": "start"}
SPEC = {
    "Query": {
        "start": ({b"T": "rows", b"I": "start", b"C": "start", b"H": "out", b"G": "in", b"Z": DONE}, {}),
        "rows": (ROWS_Q, {b"Z": DONE}),
        "out": ({b"d": "out", b"c": "in"}, {}),
        "in": ({b"C": "start"}, {}),
    },
    "Function": {"start": ({b"V": "result", b"Z": DONE}, {}), "result": ({b"Z": DONE}, {})},
    "Parse": {"start": ({b"1": DONE}, {})},
    "Bind": {"start": ({b"2": DONE}, {})},
    "Describe": {"start": ({b"t": "desc", b"T": DONE}, {b"n": DONE}), "desc": ({b"T": DONE, b"n": DONE}, {})},
    "Close": {"start": ({b"3": DONE}, {})},
    "Execute": {
        "start": ({b"D": "rows", b"C": DONE, b"I": DONE, b"H": "out", b"G": "in"}, {b"s": DONE}),
        "rows": ({b"D": "rows", b"s": DONE, b"C": DONE}, {}),
        "out": ({b"d": "out", b"c": "in"}, {}),
        "in": ({b"C": DONE}, {}),
    },
    "Synchronize": {"start": ({b"Z": DONE}, {})},
}
REQ = {"Query": b"Q", "Function": b"F", "Parse": b"P", "Bind": b"B", "Describe": b"D", "Close": b"C", "Execute": b"E", "Synchronize": b"S"}
MSG_TYPE = dict(REQ, Flush=b"H")
PARSER = {b"T": "TupleDescriptor", b"I": "Null", b"C": "Complete", b"H": "CopyToBegin", b"G": "CopyFromBegin", b"Z": "Ready", b"D": "Tuple",
          b"c": "CopyDone", b"V": "FunctionResult", b"1": "ParseComplete", b"2": "BindComplete", b"t": "AttributeTypes", b"n": "NoData",
          b"3": "CloseComplete", b"s": "Suspension", b"N": "Notice", b"A": "Notify", b"S": "ShowOption"}
ASYNC = (b"N", b"A", b"S")


def parser_ok(eng, t, typ):
    """does this term parse messages of type typ"""
    if typ == b"d":
        return t == G(XM + ".return_arg") or t[0] == "fn"
    want = eng.prog.cls(E3 + ":" + PARSER[typ])
    if t[0] == "bm":
        f = eng.prog.func_by_dotted(t[2])
        m = eng.prog.find_method(want, "parse")
        # bound to the right class, or inherited by it
        return t[1] == G(want.full) and f is m
    if t[0] == "g":
        if t[1] == want.full:
            return True
        own, v = eng.class_attr(want, "parse")
        if v == t or t[1] == "postgresql.port.optimized.parse_tuple_message" and typ == b"D":
            return True
        c = eng.prog.class_by_dotted(t[1].rsplit(".", 1)[0])
        return c is not None and c.full == want.full
    if t[0] == "attr" and t[2] == "parse":
        return t[1] == G(want.full)
    return False


class R(LayoutRule):
    """messages are (type byte, opaque body); parsing yields a marked value"""
    max_depth = 6

    def __init__(self, optimized):
        LayoutRule.__init__(self)
        self.optimized = optimized
        self.fatal_sev = False
        self.tps = {}
        self.asyncs = []

    def types(self, eng):
        return self.tps

    def getattr(self, eng, node, base, attr, st, fr):
        if base[0] == "body" and attr == "__class__":
            return [Out("v", st, G("builtins.bytes"))]
        return LayoutRule.getattr(self, eng, node, base, attr, st, fr)

    def inline(self, eng, func):
        return func.module.name == XM

    def call(self, eng, node, f, args, kws, st, fr):
        V = lambda t, s=st: [Out("v", s, t)]
        # parsers
        if len(args) == 1 and args[0][0] == "body":
            typ = args[0][1]
            if f == G(XM + ".return_arg") or f[0] == "fn" and typ == b"d":
                return V(args[0])
            if typ in PARSER and parser_ok(eng, f, typ):
                if typ == b"D":
                    return V(("tuple", ("row", args[0][2])))
                ob = ("obj", "inst:%s.%s" % (E3, PARSER[typ]), args[0])
                s = st.hset((ob, "type"), C(typ))
                return V(ob, s)
            if f[0] in ("bm", "g", "attr") and show(f).endswith("parse"):
                if typ == b"E":
                    ob = ("obj", "dict", ("err", args[0]))
                    return V(ob, st.hset((ob, "$items"), ("D", ((C(b"S"), C(b"FATAL" if args[0][2].startswith("f") else b"ERROR")), (C(b"C"), C(b"XX000")), (C(b"M"), C(b"m"))))))
                return V(("wrongparse", f, args[0]))
        if f == ("attr", SELF, "asynchook") or f == ("p", "$hook"):
            s = st.with_ts((st.ts or ()) + (args[0],))
            return [Out("v", s, NONE), Out("raise", s, ("exc", "?:builtins.Exception", ("excval", "hook", node.lineno)), node)]
        if f == G("sys.excepthook"):
            return V(NONE)
        if f == G("builtins.id") and len(args) == 1:
            return V(("call", f, (args[0],), ()))
        if f[0] == "g" and f[1].endswith("optimized.consume_tuple_messages") and len(args) == 1:
            it = eng.exact_items(args[0], st)
            if it is None:
                return None
            rows = []
            for m in it:
                if m[1] != C(b"D"):
                    break
                rows.append(("tuple", ("row", m[2][2])))
            return [eng.new_list(tuple(rows), st, node, fr)]
        if f[0] == "g" and f[1] == E3 + ".ClientError":
            return LayoutRule.call(self, eng, node, f, args, kws, st, fr)
        if f[0] == "g" and "message_expectation" in f[1] or f[0] == "attr" and f[2] == "format":
            return V(("top", "text"))
        return LayoutRule.call(self, eng, node, f, args, kws, st, fr)

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] == "is":
            kinds = {t[2][0], t[3][0]}
            # a message is the object it is; lists and requests too; a tuple is none of those
            if kinds == {"tuple"} and all(len(x) == 3 and x[2][0] == "body" for x in t[2:4]):
                return t[2] == t[3]
            if kinds == {"tuple"} and t[2] != t[3]:
                return False
            if "obj" in kinds and kinds <= {"obj", "tuple", "g", "call"}:
                return t[2] == t[3]
        if t[0] == "cmp" and t[1] == "==" and t[2][0] == "call" and t[3][0] == "call" and t[2][1] == t[3][1] == G("builtins.id"):
            return t[2] == t[3]
        if t[0] == "cmp" and t[1] == "==" and {t[2][0], t[3][0]} == {"call", "c"}:
            return False
        return LayoutRule.decide(self, eng, t, st)


def cmd_term(name, i, eng):
    if name == "Synchronize":
        return eng.global_value(E3 + ".SynchronizeMessage")
    return ("obj", "inst:%s.%s" % (E3, {"Describe": "DescribeStatement", "Close": "CloseStatement"}.get(name, name)), ("cmd", i))


def run(ck, p):
    ck.rule("table", "per request and step, the accepted reply types and the following steps are the protocol's, parsed as what they are")
    ck.rule("async", "notices, notifications and reports are handed over once and change neither step nor request")
    ck.rule("transition", "for every step and every message, position, completion, stored messages and count are the reference automaton's")
    ck.rule("error", "an error is fatal unless its severity is ERROR; otherwise the conversation skips to the next Synchronize (Query, Function: their own)")
    ck.rule("violation", "any other reply is fatal with 08P01 and completes the conversation")
    ck.rule("batch", "messages handled in one batch have the effect they have one by one")
    ck.rule("retry", "a batch handed in again after it was processed leaves position, stored messages and notifications as they are")
    ck.rule("copy", "COPY from the client always ends in CopyDone or CopyFail followed by the requests still due")
    ck.rule("start", "a conversation starts by sending all its requests; unknown request types are refused")
    ck.assumptions += ["asynchook may raise anything", "parsers are decided by P01"]
    cls = p.cls(XM + ":Instruction")
    hooks = {}
    for opt in (True, False):
        eng = Engine(p, R(opt), optimized=opt)
        owner, hk = eng.class_attr(cls, "hook")
        if hk is None or eng.hget(State(), (hk, "$items")) is None:
            raise AnalysisBroken("Instruction.hook is not a literal table")
        tab = pairs(hk, State(), eng)
        where = owner.module.rel + ":" + str(getattr(owner.assigns.get("hook"), "lineno", owner.node.lineno))
        for name, code in REQ.items():
            steps = eng.exact_items(tab.get(code, NONE), State())
            if not ck.judge(steps is not None and len(steps) > 0, "table", name, where, "no reply table for %s" % name):
                continue
            ck.judge(True, "table", name, where, "")
            # bisimulation from the start step
            m, todo = {"start": 0}, ["start"]
            while todo:
                s = todo.pop()
                acc = pairs(steps[m[s]], State(), eng)
                req, tol = SPEC[name][s]
                for typ in sorted(set(acc) | set(req)):
                    construct = "%s, step '%s', message %r" % (name, s, typ)
                    ck.ok("table", construct)
                    if typ not in acc:
                        ck.finding("table", construct, where, "the reply is not accepted")
                        continue
                    nx = req.get(typ, tol.get(typ))
                    if nx is None:
                        ck.finding("table", construct, where, "a reply the protocol does not allow here is accepted")
                        continue
                    prs = eng.exact_items(acc[typ], State())
                    if prs is None or len(prs) != 2:
                        raise AnalysisBroken("unexpected table entry " + show(acc[typ]))
                    if not parser_ok(eng, prs[0], typ):
                        ck.finding("table", construct, where, "parsed by %s" % show(prs[0]))
                    got = DONE if prs[1] == NONE else prs[1][2]
                    if nx == DONE or got == DONE:
                        if nx != got:
                            ck.finding("table", construct, where, "the request %s here" % ("ends" if got == DONE else "should end"))
                        continue
                    if not 0 <= got < len(steps):
                        ck.finding("table", construct, where, "step %d does not exist" % got)
                    elif nx in m:
                        if m[nx] != got and not equal_steps(eng, steps[m[nx]], steps[got]):
                            ck.finding("table", construct, where, "leads to step %d, not to '%s' (%d)" % (got, nx, m[nx]))
                    else:
                        m[nx] = got
                        todo.append(nx)
            hooks[name] = (m, {s: pairs(steps[i], State(), eng) for s, i in m.items()})
        ck.judge(tab.get(b"H") == NONE, "table", "Flush", where, "Flush expects a reply")
        am = pairs(eng.global_value(XM + ".AsynchronousMap"), State(), eng)
        for typ in sorted(set(am) | set(ASYNC)):
            ck.judge(typ in am and typ in ASYNC and parser_ok(eng, am[typ], typ), "async", "AsynchronousMap %r" % typ, owner.module.rel,
                     "asynchronous message table entry: %s" % (show(am[typ]) if typ in am else "missing"))
        if ck.findings:
            return
        machine(ck, p, cls, opt, hooks)
    ck.at_least("obligations:table", 60)
    ck.at_least("transitions", 300)


def equal_steps(eng, a, b):
    return pairs(a, State(), eng) == pairs(b, State(), eng)


def machine(ck, p, cls, opt, hooks):
    mode = "C" if opt else "Python"
    rule = R(opt)

    def msgs(types):
        return ("tuple",) + tuple(("tuple", C(t[:1]), ("body", t[:1], ("f%d" if t == b"Ef" else "%d") % i)) for i, t in enumerate(types))

    def initial(cmds):
        """state of a conversation about to receive"""
        st = State(ts=())
        eng = Engine(p, rule, optimized=opt)
        terms = tuple(cmd_term(c, i, eng) for i, c in enumerate(cmds))
        rule.tps = {SELF: cls.full}
        for t, c in zip(terms, cmds):
            rule.tps[t] = E3 + "." + {"Describe": "DescribeStatement", "Close": "CloseStatement"}.get(c, c)
            st = st.hset((t, "type"), C(MSG_TYPE[c]))
        return st, terms

    init = p.find_method(cls, "__init__")
    ck.func(init)

    def begin(cmds):
        st, terms = initial(cmds)
        eng = Engine(p, rule, optimized=opt)
        outs = eng.run(init, {"commands": ("tuple",) + terms, "asynchook": ("p", "$hook")}, self_class=cls.full, st=st)
        good = [o for o in outs if o.kind == "return"]
        if not ck.judge(len(good) == 1 and len(outs) == 1, "start", "__init__", init.loc(), "a valid request list is refused or has %d outcomes" % len(outs)):
            return None
        return good[0].st, terms

    # ---- __init__
    b = begin(["Parse", "Synchronize"])
    if b is None:
        return
    st0, terms = b
    eng = Engine(p, rule, optimized=opt)
    stt = st0.heap.get((SELF, "state"))
    ck.judge(stt is not None and stt[0] == "tuple" and stt[1] == C(False), "start", "__init__ state", init.loc(), "the first state is %s" % show(stt or NONE))
    ck.judge(eng.exact_items(st0.heap.get((SELF, "messages"), NONE), st0) == terms, "start", "__init__ messages", init.loc(), "the messages to send are not the commands")
    ck.judge(st0.heap.get((SELF, "fatal")) == NONE, "start", "__init__ fatal", init.loc(), "a new conversation is fatal")
    bad = ("obj", "inst:" + E3 + ".Ready", ("cmd", 9))
    rule.tps[bad] = E3 + ".Ready"
    outs = eng.run(init, {"commands": ("tuple", terms[0], bad)}, self_class=cls.full, st=initial(["Parse"])[0].hset((bad, "type"), C(b"Z")))
    rule.tps[bad] = E3 + ".Ready"
    ck.judge(all(o.kind == "raise" for o in outs), "start", "__init__ unknown type", init.loc(), "a message that is no request is accepted")

    def put_state(st):
        """(direction, method) after sending"""
        t = st.heap.get((SELF, "state"))
        if t is None or t[0] != "tuple" or len(t) != 3:
            return None
        if t == ("tuple", NONE, NONE):
            return "Complete", None
        m = t[2]
        if m[0] != "bm":
            return None
        return ("R" if t[1] == C(True) else "S"), p.func_by_dotted(m[2])

    def sent(st):
        d = put_state(st)
        if d is None or d[0] != "S":
            return None
        eng = Engine(p, rule, optimized=opt)
        ck.func(d[1])
        outs = eng.run(d[1], {}, self_class=cls.full, st=st)
        return outs[0].st if len(outs) == 1 and outs[0].kind == "return" else None

    BATCH = [0]

    def put(st, types, again=None):
        d = put_state(st)
        if d is None or d[0] != "R" or d[1] is None:
            return None
        BATCH[0] += 1
        lo = again or ("obj", "list", ("batch", BATCH[0]))
        st = st.hset((lo, "$items"), ("L", msgs(types)[1:])).with_ts(())
        eng = Engine(p, rule, optimized=opt)
        ck.func(d[1])
        args = [a.arg for a in d[1].node.args.args]
        outs = eng.run(d[1], {args[1]: lo}, self_class=cls.full, st=st, keep_defaults=True, salt=(BATCH[0],))
        for x in eng.inlined:
            ck.func(x)
        return d[1], outs

    # ---- reference
    class Ref:
        def __init__(self, cmds):
            self.cmds, self.i, self.step = cmds, 0, "start"
            self.fatal, self.done, self.stored, self.asyncs = None, False, [], []
            self.count, self.why, self.copyin, self.stop = 0, None, False, False

        def feed(self, typ, n):
            if self.done or self.stop:
                return
            t = typ[:1]
            cmd = self.cmds[self.i]
            acc = hooks[cmd][1][self.step]
            self.count += 1
            req, tol = SPEC[cmd][self.step]
            if t in acc:
                self.stored.append((t, n))
                nx = req.get(t, tol.get(t))
                if t == b"G":
                    self.copyin = True
                if nx == DONE:
                    self.i += 1
                    while self.i < len(self.cmds) and self.cmds[self.i] == "Flush":
                        self.i += 1
                    self.step = "start"
                    if self.i == len(self.cmds):
                        self.done = True
                else:
                    self.step = nx
            elif t == b"E":
                self.fatal = typ == b"Ef"
                self.why = "error"
                if self.fatal:
                    self.done = True
                    self.stop = True
                    return
                if cmd not in ("Query", "Function"):
                    while self.i < len(self.cmds) and self.cmds[self.i] != "Synchronize":
                        self.i += 1
                    if self.i == len(self.cmds):
                        self.done = True
                        self.stop = True
                        return
                self.step = "start"
            elif t in ASYNC:
                self.asyncs.append((t, n))
            else:
                self.fatal, self.done, self.stop, self.why = True, True, True, "violation"

    def marks(eng, st):
        """(type, index) of stored messages, in order"""
        comp = eng.exact_items(st.heap.get((SELF, "completed"), NONE), st)
        if comp is None:
            return None
        r = []
        for c in comp:
            pr = eng.exact_items(c, st)
            for x in eng.exact_items(pr[1], st) or ():
                if x[0] == "tuple" and len(x) == 2 and x[1][0] == "row":
                    r.append((b"D", x[1][1]))
                elif x[0] == "obj" and x[2][0] == "body":
                    r.append((x[2][1], x[2][2]))
                elif x[0] == "body":
                    r.append((b"d", x[2]))
                else:
                    r.append((b"?", show(x)))
        return r

    def compare(rule_name, construct, f, o, ref, batch, eng, base):
        where = f.loc()
        st = o.st
        what = "%s [%s, %s]" % (construct, ",".join(t.decode() for t in batch), mode)

        def say(msg, rn=rule_name):
            ck.finding(rn, construct, where, "%s: %s" % (what, msg), st.trace)
        ck.ok(rule_name, construct)
        if o.kind != "return":
            return say("raises %s" % show(o.val))
        d = put_state(st)
        fatal = st.heap.get((SELF, "fatal"))
        em = st.heap.get((SELF, "error_message"))
        if ref.done != (d is not None and d[0] == "Complete"):
            return say("the conversation %s" % ("should be complete here" if ref.done else "is complete too early"))
        if fatal != C(ref.fatal):
            return say("fatal is %s, should be %s" % (show(fatal or NONE), ref.fatal))
        if ref.why == "violation":
            codes_ = pairs(eng_args(st, em), st, eng) if em is not None else {}
            if codes_.get(b"C") != C("08P01") and codes_.get(b"C") != C(b"08P01"):
                return say("a protocol violation is reported as %s" % (show(em) if em else "nothing"), "violation")
        if ref.why == "error" and not (em is not None and em[0] == "obj" and em[2][0] == "err"):
            return say("the server's error is not kept as error_message", "error")
        # asynchronous messages
        got = tuple((x[2][1], x[2][2]) for x in st.ts if x[0] == "obj")
        if got != tuple(ref.asyncs):
            return say("asynchronous messages handed over: %s, should be %s" % (got, tuple(ref.asyncs)), "async")
        if o.val != C(ref.count):
            return say("reports %s of %d messages as used" % (show(o.val), ref.count))
        if ref.stop:
            return
        m = marks(eng, st)
        if m is None or m[base:] != ref.stored:
            return say("stores %s, should be %s" % (m and m[base:], ref.stored))
        if ref.done:
            return
        # position of the next message
        last = eng.exact_items(st.heap.get((SELF, "last"), NONE), st)
        pos = eng.exact_items(last[2], st) if last is not None and len(last) == 3 else None
        want = (C(ref.i), C(hooks[ref.cmds[ref.i]][0][ref.step]))
        if pos is None:
            raise AnalysisBroken("cannot read the position from self.last: %s" % show(st.heap.get((SELF, "last"), NONE)))
        if tuple(pos) != want:
            return say("the next message is matched at %s, should be %s (request %s, step '%s')" % (show(("tuple",) + tuple(pos)), show(("tuple",) + want), ref.cmds[ref.i], ref.step))
        if ref.copyin and ref.step == "in":
            if d[0] != "S":
                return say("COPY data was asked for, yet the conversation does not turn to sending", "copy")
        elif d[0] != "R":
            return say("the conversation turns to sending")

    def eng_args(st, em):
        if em is None:
            return NONE
        if em[0] == "obj":
            a = st.heap.get((em, "$args"))
            if a and a[1]:
                return a[1][0]
        return em

    def retry(o, ref, bt, construct, base):
        """the same list again"""
        d = put_state(o.st)
        if o.kind != "return" or ref.done or d is None or d[0] != "R":
            return
        last = eng_items(o.st, (SELF, "last"))
        lo = ("obj", "list", ("batch", BATCH[0]))
        fo = put(o.st, bt, lo)
        eng = Engine(p, rule, optimized=opt)
        for o2 in fo[1]:
            ck.ok("retry", construct)
            l2 = eng_items(o2.st, (SELF, "last"))
            if o2.kind != "return" or o2.val != o.val or not l2 or not last or l2[2] != last[2] or o2.st.ts or marks(eng, o2.st) != marks(eng, o.st):
                ck.finding("retry", construct, fo[0].loc(), "%s [%s, %s] handed in twice: %s, last %s, notifications %s, stores %s (before: %s, %s)" % (
                    construct, ",".join(t.decode() for t in bt), mode, show(o2.val), l2 and show(l2[2]), len(o2.st.ts or ()), marks(eng, o2.st), last and show(last[2]), marks(eng, o.st)),
                    o2.st.trace)

    def eng_items(st, key):
        return Engine(p, rule, optimized=opt).exact_items(st.heap.get(key, NONE), st)

    # paths to every step
    WAY = {
        "Query": {"start": [], "rows": [b"T"], "out": [b"H"], "in": None},
        "Execute": {"start": [], "rows": [b"D"], "out": [b"H"], "in": None},
        "Function": {"start": [], "result": [b"V"]}, "Describe": {"start": [], "desc": [b"t"]},
        "Parse": {"start": []}, "Bind": {"start": []}, "Close": {"start": []}, "Synchronize": {"start": []},
    }
    alltypes = sorted(set(PARSER)) + [b"d", b"E", b"Ef", b"K"]
    for cmd in REQ:
        for tail in ((), ("Synchronize",), ("Flush", "Parse", "Synchronize"), ("Flush",)) if cmd not in ("Query", "Function") else ((),):
            cmds = [cmd] + list(tail)
            b = begin(cmds)
            if b is None:
                return
            st = sent(b[0])
            if not ck.judge(st is not None and put_state(st)[0] == "R", "start", "sent", cls.module.rel, "after sending, the conversation does not receive"):
                return
            for step, way in WAY[cmd].items():
                if way is None:
                    continue
                s1, ref0 = st, ("in",)
                refb = Ref(cmds)
                okw = True
                for w in way:
                    fo = put(s1, [w])
                    refb.feed(w, "0")
                    good = [o for o in fo[1] if o.kind == "return"] if fo else []
                    if len(good) != 1:
                        okw = False
                        break
                    s1 = good[0].st
                if not okw:
                    ck.finding("transition", "%s to step %s" % (cmd, step), cls.module.rel, "cannot be reached in one way")
                    continue
                base = len(way)
                batches = [[t] for t in alltypes]
                for t in alltypes:
                    r = Ref(cmds)
                    for w in way:
                        r.feed(w, "0")
                    r.feed(t, "0")
                    if r.stop or r.done:
                        nxt = [b"Z"] if r.done and not r.stop and not tail else []
                    elif r.copyin:
                        nxt = []
                    else:
                        acc = sorted(hooks[r.cmds[r.i]][1][r.step])
                        nxt = acc + [b"E", b"N", b"K"]
                    batches += [[t, x] for x in nxt]
                if ck.thorough:
                    more = []
                    for bt in batches:
                        if len(bt) == 2:
                            more += [bt + [x] for x in (b"N", b"E", b"Z", b"D", b"C", b"d")]
                    batches += more
                for bt in batches:
                    ref = Ref(cmds)
                    for w in way:
                        ref.feed(w, "0")
                    ref.stored, ref.count, ref.asyncs = [], 0, []
                    for i, t in enumerate(bt):
                        if ref.copyin and ref.step == "in" and not ref.stop:
                            break
                        ref.feed(t, ("f%d" if t == b"Ef" else "%d") % i)
                    else:
                        i += 1
                    if ref.copyin and ref.step == "in" and i < len(bt):
                        continue
                    fo = put(s1, bt)
                    ck.count("transitions")
                    if fo is None:
                        ck.finding("transition", "%s, step %s" % (cmd, step), cls.module.rel, "the conversation is not receiving in this step")
                        continue
                    f, outs = fo
                    rn = "transition" if len(bt) == 1 else "batch"
                    if ref.why == "error" and len(bt) == 1:
                        rn = "error"
                    if ref.why == "violation" and len(bt) == 1:
                        rn = "violation"
                    eng = Engine(p, rule, optimized=opt)
                    for o in outs:
                        if len(ck.findings) > 12:
                            return
                        # a fast path may leave the rest of the batch to the next call
                        cnt = o.val[2] if o.kind == "return" and is_const(o.val) and o.val[1] == "int" else None
                        if cnt is not None and 0 < cnt < ref.count and not (o.st.heap.get((SELF, "state")) == ("tuple", NONE, NONE)):
                            f2, outs2 = put(o.st, bt[cnt:]) or (None, [])
                            r2 = Ref(cmds)
                            for w in way:
                                r2.feed(w, "0")
                            r2.stored, r2.count, r2.asyncs = [], 0, []
                            for i, t in enumerate(bt[:cnt]):
                                r2.feed(t, "%d" % i)
                            compare(rn, "%s, step %s, message %r" % (cmd, step, bt[0]), f, o, r2, bt[:cnt], eng, base)
                            continue
                        compare(rn, "%s, step %s, message %r" % (cmd, step, bt[0]), f, o, ref, bt, eng, base)
                        if len(bt) == 1 or ck.thorough:
                            retry(o, ref, bt, "%s, step %s, message %r" % (cmd, step, bt[0]), base)
    # ---- COPY from the client
    for cmds in (["Execute", "Synchronize"], ["Bind", "Execute", "Close", "Synchronize"], ["Query"]):
        b = begin(cmds)
        s = sent(b[0])
        pre = [b"2"] if cmds[0] == "Bind" else []
        outs = put(s, pre + [b"G"])[1]
        good = [o for o in outs if o.kind == "return"]
        if len(good) != 1:
            ck.finding("copy", "CopyInResponse", cls.module.rel, "%d outcomes" % len(good))
            continue
        s = good[0].st
        k = cmds.index("Execute") + 1 if "Execute" in cmds else 1
        rest = b[1][k:]
        eng = Engine(p, rule, optimized=opt)
        fs = eng.exact_items(s.heap.get((SELF, "CopyFailSequence"), NONE), s)
        ds = eng.exact_items(s.heap.get((SELF, "CopyDoneSequence"), NONE), s)
        ck.judge(fs is not None and fs[1:] == rest and is_kind(eng, fs[0], "CopyFail", cls, p), "copy", "CopyFailSequence", cls.module.rel,
                 "is %s for %s" % (show(("tuple",) + tuple(fs or ())), cmds))
        ck.judge(ds is not None and ds[1:] == rest and is_kind(eng, ds[0], "CopyDone", cls, p), "copy", "CopyDoneSequence", cls.module.rel,
                 "is %s for %s" % (show(("tuple",) + tuple(ds or ())), cmds))
        d = put_state(s)
        if d is None or d[0] != "S":
            ck.finding("copy", "CopyInResponse", cls.module.rel, "does not turn to sending")
            continue
        fseq, dseq = s.heap.get((SELF, "CopyFailSequence")), s.heap.get((SELF, "CopyDoneSequence"))
        data = ("obj", "list", ("data",))
        for lab, m, wantdir, wantm in (("nothing", s.heap.get((SELF, "messages")), "S", fseq), ("data", data, "S", fseq),
                                       ("CopyDone", dseq, "R", ("tuple",)), ("CopyFail", fseq, "R", ("tuple",))):
            eng = Engine(p, rule, optimized=opt)
            ck.func(d[1])
            for o in eng.run(d[1], {}, self_class=cls.full, st=s.hset((SELF, "messages"), m)):
                d2 = put_state(o.st)
                ck.judge(o.kind == "return" and d2 is not None and d2[0] == wantdir and o.st.heap.get((SELF, "messages")) == wantm, "copy",
                         "after sending " + lab, d[1].loc(), "direction %s, messages %s" % (d2 and d2[0], show(o.st.heap.get((SELF, "messages"), NONE))), o.st.trace)


def is_kind(eng, t, name, cls, p):
    if t[0] == "g":
        return t[1].endswith("." + name + "Message")
    if t[0] == "attr":
        o, v = eng.class_attr(cls, t[2])
        t = v or t
    if t[0] in ("obj",):
        return t[1] == "inst:%s.%s" % (E3, name)
    if t[0] in ("call", "ret"):
        return show(t).find(name) >= 0
    return False
