"""Part of P04: an interrupted transfer resumes where it stopped.

Sending, encoding, receiving and handing over are interpreted with symbolic data; at every socket call, at every
interruption and at every exit the connection's own record of what is still due must be the data minus what was done."""
from sa.rules import *

MOD = "postgresql.protocol.client3"
CON = MOD + ".Connection"
SELF = ("p", "self")
X = ("p", "$xact")
D0 = ("p", "$data")


class R(EventRule):
    """ts: (events, due) ; due: {'send': term expected in message_data, 'got': received data not yet in the buffer}"""
    max_depth = 5
    widen_after = 24
    state_cap = 1500
    initial = ((), None, None)

    def __init__(self, ck):
        self.ck = ck
        self.bad = []

    def inline(self, eng, func):
        return func.module.name == MOD and func.name not in ("__str__", "interrupt")

    def may_raise(self, eng, f, node, st):
        return False

    def say(self, rule, fr, node, msg, st):
        self.bad.append((rule, fr.func.qual.split(".")[-1], "%s:%s" % (fr.func.module.rel, getattr(node, "lineno", 0)), msg, st.trace))

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        ev, due, got = st.ts
        V = lambda t, s: Out("v", s, t)
        n = len(ev)
        if name == "send" and len(args) == 1:
            self.ck.ok("resume", "send")
            md = st.heap.get((SELF, "message_data"), ("attr", SELF, "message_data"))
            if due is not None and args[0] != due:
                self.say("resume", fr, node, "after part of the data was sent, %s is sent, not %s" % (show(args[0]), show(due)), st)
                return []
            if n >= 3:
                return []
            k = ("p", "$n%d" % n)
            rest = ("slice", args[0], k, NONE, NONE)
            s = st.with_ts((ev + ("send",), rest, got))
            e = ("exc", "?:builtins.OSError", ("excval", "again", n))
            return [V(k, s), Out("raise", st.with_ts((ev + ("again",), args[0], got)), e, node)]
        if name == "fatal_exception_message":
            return [V(NONE, st)]
        if name and name.startswith("cat_messages") or f[0] == "g" and f[1].endswith("cat_messages"):
            return [V(("encoded", args[0]), st.with_ts((ev + (("encoded", args[0]),), due, got)))]
        if name == "recv":
            self.ck.ok("resume", "recv")
            if got is not None:
                self.say("resume", fr, node, "received data is not in the buffer when more is received", st)
                return []
            if n >= 4:
                return []
            r = ("p", "$r%d" % n)
            e = ("exc", "?:builtins.OSError", ("excval", "again", n))
            return [V(r, st.with_ts((ev + ("recv",), due, r)).fact(("cmp", "==", r, C(b"")), False).fact(r, True)), Out("raise", st.with_ts((ev + ("again",), due, got)), e, node)]
        if name == "write" and recv is not None and show(recv).endswith("message_buffer"):
            self.ck.ok("resume", "buffer")
            if got is None or args != [got]:
                self.say("resume", fr, node, "%s is put into the buffer, where %s is due" % (show(args[0]) if args else "nothing", show(got) if got else "nothing"), st)
                return []
            return [V(NONE, st.with_ts((ev + ("write",), due, None)))]
        if name == "has_message":
            if n >= 4:
                return [V(TRUE, st)]
            return [V(TRUE, st), V(FALSE, st)]
        if name == "read" and recv is not None and show(recv).endswith("message_buffer"):
            return [V(("p", "$batch"), st.with_ts((ev + ("read",), due, got)))]
        return None


def run(ck, p):
    cls = p.cls(MOD + ":Connection")
    seen = set()

    def report(rule):
        for rn, q, where, msg, tr in rule.bad:
            if (q, where, msg) not in seen:
                seen.add((q, where, msg))
                ck.finding(rn, q, where, msg, tr)
        rule.bad = []

    def go(fname, args, st):
        f = p.find_method(cls, fname)
        if f is None:
            return None, []
        ck.func(f)
        rule = R(ck)
        eng = Engine(p, rule)
        names = [a.arg for a in f.node.args.args][1:]
        outs = eng.run(f, dict(zip(names, args)), self_class=cls.full, st=st, keep_defaults=False)
        report(rule)
        return f, outs

    attr = lambda st, a: st.heap.get((SELF, a), ("attr", SELF, a))
    # ---- sending
    st = State(ts=((), D0, None)).hset((SELF, "message_data"), D0).hset((SELF, "xact"), X)
    f, outs = go("send_message_data", [], st)
    n = 0
    for o in outs:
        ev, due, got = o.st.ts
        md = attr(o.st, "message_data")
        n += 1
        ok = md == due or o.kind == "return" and Engine(p, R(ck)).truth(due, o.st) is False and (md == C(b"") or Engine(p, R(ck)).truth(md, o.st) is False)
        ck.judge(ok, "resume", "send_message_data", f.loc(), "left with %s to be sent where %s is due (%s)" % (show(md), show(due), "interrupted" if o.kind == "raise" else "done"), o.st.trace)
        if o.kind == "return" and o.val == TRUE:
            ck.judge(Engine(p, R(ck)).truth(due, o.st) is False, "resume", "send_message_data", f.loc(), "reports success with %s not sent" % show(due), o.st.trace)
    if n < 4:
        raise AnalysisBroken("sending has only %d outcomes" % n)
    # ---- encoding, over three calls: the same messages again after an interruption, then other ones
    M0, M1, M2 = ("p", "$m0"), ("p", "$m1"), ("p", "$m2")
    for wname in ("standard_write_messages", "traced_write_messages"):
        if p.find_method(cls, wname) is None:
            continue
        base = State(ts=((), None, None)).hset((SELF, "message_data"), C(b"")).hset((SELF, "xact"), X)
        base = base.hset((SELF, "writing"), M0).hset((SELF, "written"), M0)
        for a, b in ((M0, M1), (M0, M2), (M1, M2)):
            base = base.fact(("cmp", "is", a, b), False).fact(("cmp", "is", b, a), False)
        frontier = [(base, ())]
        for m in (M1, M1, M2):
            nx = []
            for s, cats in frontier:
                # sending is decided above: here it keeps or clears the data
                f, outs = go(wname, [m], s.with_ts(((), None, None)))
                for o in outs:
                    if sum(e in ("send", "again") for e in o.st.ts[0]) > 1:
                        continue
                    c = cats + tuple(e[1] for e in o.st.ts[0] if e[0] == "encoded")
                    sent_all = o.kind == "return"
                    want = (M1,) if m == M1 else (M1, M2)
                    ck.judge(c == want, "resume", wname, f.loc(), "messages encoded: %s, should be %s" % ([show(x) for x in c], [show(x) for x in want]), o.st.trace)
                    if c == want and m == M1 and o.kind == "raise" and len(nx) < 6 or sent_all and len(nx) < 6:
                        nx.append((o.st, c))
            frontier = nx
    # ---- receiving
    for left in (None, ("p", "$left")):
        st = State(ts=((), None, left)).hset((SELF, "read_data"), left or NONE).hset((SELF, "xact"), X)
        if left:
            st = st.fact(("cmp", "is", left, NONE), False).fact(left, True)
        f, outs = go("read_into", [], st)
        for o in outs:
            ev, due, got = o.st.ts
            rd = attr(o.st, "read_data")
            if o.kind == "return" and o.val == FALSE:
                continue
            ck.judge(rd == (got or NONE), "resume", "read_into", f.loc(), "received data %s is %s in read_data when the call ends" % (show(got) if got else "(all buffered)", show(rd)), o.st.trace)


    hand_over(ck, p, cls, report)


OP = ("p", "$op")
READ = ("p", "$read")


class H(EventRule):
    """ts: (number of events, what self.read has to be). The transfer methods work, the conversation takes some of the batch."""
    max_depth = 4
    widen_after = 24
    state_cap = 3000

    def __init__(self, ck):
        self.ck = ck
        self.bad = []

    def inline(self, eng, func):
        return False

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name and "read_messages" in name:
            return [Out("v", st, TRUE), Out("v", st, FALSE)] if st.ts[0] < 3 else [Out("v", st, TRUE)]
        if name and "write_messages" in name:
            return [Out("v", st, TRUE)]
        if name == "try_again":
            return [Out("v", st, TRUE), Out("v", st, FALSE)]
        if f == OP or f[0] == "sub":
            n, due = st.ts
            outs = []
            cur = st.heap.get((SELF, "read"))
            if args:
                self.ck.ok("resume", "handed over")
                if args[0] != due or cur != due:
                    self.bad.append(("resume", fr.func.qual.split(".")[-1], fr.func.loc(node), "the conversation is given %s where %s is due" % (show(args[0]), show(due)), st.trace))
                    return []
                k = ("p", "$k%d" % n)
                s = st.with_ts((n + 1, ("slice", due, k, NONE, NONE)))
                outs.append(Out("raise", st, ("exc", "?:builtins.ValueError", ("excval", "wire", n)), node))
            else:
                k, s = NONE, st.with_ts((n + 1, due))
            x = st.heap.get((SELF, "xact"), X)
            nexts = [COMPLETE] if n >= 2 else [("tuple", TRUE, OP), ("tuple", FALSE, OP), COMPLETE]
            for t in nexts:
                outs.append(Out("v", s.hset((x, "state"), t), k))
            return outs
        return None


COMPLETE = ("tuple", NONE, NONE)


def hand_over(ck, p, cls, report):
    for name in ("step", "complete"):
        f = p.find_method(cls, name)
        ck.func(f)
        for first in (TRUE, FALSE):
            rule = H(ck)
            eng = Engine(p, rule)
            st = State(ts=(0, READ)).hset((SELF, "xact"), X).hset((X, "state"), ("tuple", first, OP)).hset((SELF, "read"), READ)
            outs = eng.run(f, {}, self_class=cls.full, st=st)
            report(rule)
            for o in outs:
                if o.st.heap.get((X, "fatal")) == TRUE:
                    continue
                cur = o.st.heap.get((SELF, "read"))
                ck.judge(cur == o.st.ts[1], "resume", name, f.loc(), "self.read is %s where %s is due" % (show(cur or NONE), show(o.st.ts[1])), o.st.trace)
