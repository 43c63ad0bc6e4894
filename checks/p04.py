"""P04: every transport failure ends the conversation as fatal, with its cause.

client3.Connection's entry points are interpreted with an exceptional edge at every socket operation (and an end-of-file
outcome at every receive).  At each exit after a failure the conversation must be complete, fatal, carry a coded error
message and the exception; a fatal conversation must still be attached."""
from sa.rules import *
from checks import p04_resume

MOD = "postgresql.protocol.client3"
CON = MOD + ".Connection"
SELF = ("p", "self")
X = ("p", "$xact")
COMPLETE = ("tuple", NONE, NONE)
IO = {"send", "sendall", "recv", "recv_into", "sendmsg", "recvfrom", "sendto", "do_handshake", "secure", "wrap_socket", "makefile"}


def is_factory(t):
    return t == ("attr", SELF, "socket_factory")


class R(EventRule):
    max_depth = 6
    state_cap = 1500

    def __init__(self, summarize=(), swapped=()):
        self.summarize = set(summarize)
        self.swapped = dict(swapped)

    def types(self, eng):
        return {("attr", SELF, "socket_factory"): "postgresql.python.socket.SocketFactory"}

    def inline(self, eng, func):
        if func.module.name != MOD and func.full not in ("postgresql.python.socket.SocketFactory.timed_out",):
            return False
        return func.name not in ("__str__", "interrupt") and func.qual.split(".")[-1] not in self.summarize

    def may_raise(self, eng, f, node, st):
        recv, name = callee(f)
        if f[0] == "sub" or recv is None and f[0] in ("p", "ret", "call"):
            return True
        if recv is not None and show(recv).endswith("message_buffer"):
            # malformed framing; a buffer that said 'no message yet' has none
            return not (st.ts and st.ts[0] in ("fail", "eof"))
        return False

    def prune(self, eng, st, where):
        keys = [k for k in st.heap if k[0] == SELF and k[1] not in ("xact", "socket") or k[1] == "messages"]
        if not keys:
            return st
        s = st._cp()
        s.heap = {k: v for k, v in st.heap.items() if k not in keys}
        return s

    def getattr(self, eng, node, base, attr, st, fr):
        # the tracer swaps the reading and writing methods on the instance
        if base == SELF and attr in self.swapped:
            return [Out("v", st, ("bm", SELF, self.swapped[attr]))]
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        site = (fr.module.rel, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        ts = st.ts
        eng.count_io = getattr(eng, "count_io", set())

        def fail(cls, what):
            # the newest failure decides
            e = ("exc", cls, ("excval", cls, site))
            return Out("raise", st.with_ts(("fail", what, e[2], None)), e, node)
        if name in IO or is_factory(f) or (name == "__call__" and recv is not None and is_factory(recv)):
            what = "connect" if is_factory(f) else name
            eng.count_io.add(site[:2] + (what,))
            v = ("ret", site, f, tuple(args), kws)
            s2 = eng.refresh(st, v)
            outs = []
            if name in ("recv", "recvfrom"):
                outs.append(Out("v", s2.with_ts(("eof", what, None, None)), C(b"")))
                s2 = s2.fact(v, True)
            outs.append(Out("v", s2, v))
            cls = "?:builtins.OSError"
            outs.append(fail(cls, what))
            if name in ("secure", "wrap_socket"):
                outs.append(fail("?:builtins.ValueError", what))
            return outs
        if name == "fatal_exception_message":
            if ts and ts[0] == "fail":
                v = ("ret", site, f, tuple(args), kws)
                return [Out("v", st.fact(("cmp", "is", v, NONE), False).fact(v, True).with_ts(ts[:3] + ("hard",)), v)] * (ts[3] != "transient") + \
                    [Out("v", st.with_ts(ts[:3] + ("transient",)), NONE)] * (ts[3] != "hard")
        if name == "try_again":
            if ts and ts[0] == "fail":
                return [Out("v", st.with_ts(ts[:3] + ("hard",)), FALSE)] * (ts[3] != "transient") + \
                    [Out("v", st.with_ts((None,) if ts[3] == "transient" else (None,)), TRUE)] * (ts[3] != "hard")
        if f == ("p", "$op") or f[0] == "sub" and (f[2] == C(1) or f[2] == C(-1)):
            return self.advance(eng, node, f, args, st, site)
        if name in ("complete",) and "complete" in self.summarize:
            cur = st.heap.get((SELF, "xact"), X)
            outs = []
            if st.heap.get((cur, "fatal")) == TRUE:
                return [Out("v", st, NONE)]
            a = st.hset((cur, "state"), COMPLETE).hset((cur, "fatal"), NONE).hset((SELF, "xact"), NONE)
            outs.append(Out("v", a, NONE))
            b = st.hset((cur, "state"), COMPLETE).hset((cur, "fatal"), TRUE).hset((cur, "error_message"), ("p", "$em")).hset((cur, "exception"), ("p", "$exc"))
            outs.append(Out("v", b, NONE))
            return outs
        if name in ("Instruction", "Closing", "Negotiation") and f[0] == "g":
            ob = ("obj", "inst:" + f[1], site, fr.fid)
            s = st.hset((ob, "fatal"), NONE).hset((ob, "state"), ("tuple", FALSE, ("attr", ob, "standard_sent")))
            return [Out("v", s, ob)]
        return None

    def advance(self, eng, node, f, args, st, site):
        """the conversation's own step function: changes its state, may finish it either way"""
        outs = []
        cur = st.heap.get((SELF, "xact"), X)
        v = ("ret", site, f, tuple(args), ())
        for stt in (("tuple", TRUE, ("p", "$op")), ("tuple", FALSE, ("p", "$op")), COMPLETE):
            s = st.hset((cur, "state"), stt)
            if st.ts and st.ts[0] in ("fail", "eof"):
                # state functions do not look at whether the transfer worked
                pass
            outs.append(Out("v", s, v))
            if stt == COMPLETE:
                outs.append(Out("v", s.hset((cur, "fatal"), TRUE).hset((cur, "error_message"), ("p", "$em")), v))
        outs.append(Out("raise", st, ("exc", "?:builtins.ValueError", ("excval", "wire", site)), node))
        return outs

    def setattr(self, eng, node, base, attr, val, st, fr):
        if base == SELF and attr == "xact" and val not in (NONE,):
            old = st.heap.get((SELF, "xact"), ("attr", SELF, "xact"))
            if old != NONE and old != val:
                fatal = eng.truth(("cmp", "is", st.heap.get((old, "fatal"), ("attr", old, "fatal")), TRUE), st)
                if fatal is not False:
                    self.replaced.append((fr.func, node, old, st))
        return None


def start(xfatal=NONE, state=None):
    st = State(ts=())
    st = st.hset((SELF, "xact"), X).fact(("cmp", "is", X, NONE), False)
    if xfatal is not None:
        st = st.hset((X, "fatal"), xfatal)
    if state is not None:
        st = st.hset((X, "state"), state)
    return st


def msg_ok(eng, st, em):
    """the error message carries severity FATAL-like and a code"""
    if em is None or em == NONE:
        return False
    if em == ("p", "$em"):
        return True
    args = None
    if em[0] == "obj":
        a = st.heap.get((em, "$args")) or eng.ghmap.get((em, "$args"))
        args = a[1] if a else None
    elif em[0] in ("call", "ret"):
        args = call_parts(em)[1]
    if not args:
        return False
    d = pairs(args[0], st, eng)
    code = d.get(b"C")
    return code is not None and is_const(code) and len(code[2]) == 5 and b"S" in d and is_const(d[b"S"]) and d[b"S"][2] in ("FATAL", "PANIC", b"FATAL", b"PANIC") and b"M" in d


def run(ck, p):
    ck.rule("fatal-exit", "after a failed transfer every exit leaves the conversation complete, fatal, with a coded message")
    ck.rule("cause", "the exception of the failed transfer is kept in xact.exception")
    ck.rule("no-raw-exit", "a failed transfer is not thrown at the caller as the raw exception")
    ck.rule("attached", "a conversation that ended fatally is still self.xact, and no other one replaces it")
    ck.rule("resume", "an interrupted transfer resumes where it stopped: data is sent, encoded, received and handed over exactly once")
    ck.rule("factory", "the socket factory's exception classes cover every socket error; only retryable errors are not fatal")
    ck.assumptions += ["socket operations fail with OSError (a TLS wrap with any Exception); retryable errors "
                       "(fatal_exception_message is None) are not failures"]
    cls = p.cls("postgresql.protocol.client3:Connection")
    p04_resume.run(ck, p)
    n_io = set()

    def judge(name, f, outs, eng, after_connect=False):
        for o in outs:
            ts = o.st.ts
            cur = o.st.heap.get((SELF, "xact"), ("attr", SELF, "xact"))
            xs = {k[0] for k in o.st.heap if k[1] == "fatal"} | {X}
            where = f.loc(o.node) if o.node is not None and hasattr(o.node, "lineno") else f.loc()
            fatal_ones = [x for x in xs if o.st.heap.get((x, "fatal")) == TRUE]
            ck.ok("attached", name)
            for x in fatal_ones:
                if cur != x:
                    ck.finding("attached", name, where, "the conversation ended fatally but self.xact is %s" % show(cur), o.st.trace)
                if o.st.heap.get((x, "state")) != COMPLETE:
                    ck.finding("fatal-exit", name + ": fatal but not complete", where,
                               "fatal is set, yet the state is %s" % show(o.st.heap.get((x, "state"), ("undef", "state"))), o.st.trace)
                elif not msg_ok(eng, o.st, o.st.heap.get((x, "error_message"))):
                    ck.finding("fatal-exit", name + ": fatal without coded message", where,
                               "fatal is set, error_message is %s" % show(o.st.heap.get((x, "error_message"), ("undef", "error_message"))), o.st.trace)
            if not ts or ts[0] not in ("fail", "eof") or ts[3] == "transient":
                continue
            ck.ok("fatal-exit", "%s after %s %s" % (name, ts[0], ts[1]))
            what = "%s after %s of %s" % (name, "failure" if ts[0] == "fail" else "end of file", ts[1])
            if o.kind == "raise" and o.val[2] == ts[2]:
                ck.finding("no-raw-exit", what, where, "the raw exception leaves %s; the conversation does not know" % f.qual, o.st.trace)
                continue
            x = cur if cur != NONE else X
            if o.st.heap.get((x, "fatal")) != TRUE:
                ck.finding("fatal-exit", what, where, "xact.fatal is %s at this exit" % show(o.st.heap.get((x, "fatal"), ("undef", "fatal"))), o.st.trace)
                continue
            if ts[0] == "fail":
                ck.ok("cause", name)
                if o.st.heap.get((x, "exception")) != ts[2]:
                    ck.finding("cause", what, where, "xact.exception is %s, not the failure" % show(o.st.heap.get((x, "exception"), ("undef", "exception"))), o.st.trace)

    def go(name, args=None, st=None, summarize=(), label=None, swapped=()):
        f = p.find_method(cls, name)
        if f is None:
            raise AnalysisBroken("client3.Connection.%s vanished" % name)
        ck.func(f)
        r = R(summarize, swapped)
        r.replaced = []
        eng = Engine(p, r)
        outs = eng.run(f, args or {}, st=st or start(), self_class=cls.full)
        for x in eng.inlined:
            ck.func(x)
        n_io.update(getattr(eng, "count_io", ()))
        ck.count("exits", len(outs))
        judge(label or name, f, outs, eng)
        for fn, node, old, s in r.replaced:
            ck.finding("attached", "%s: replaced in %s" % (label or name, fn.qual), fn.loc(node),
                       "self.xact is overwritten while it may hold a fatal conversation", s.trace)
        return f, outs, eng

    op = ("p", "$op")
    for ssl in (NONE, TRUE, FALSE):
        go("connect", {"ssl": ssl}, start(state=("tuple", FALSE, op)), ("complete",), "connect(ssl=%s)" % ssl[2])
    for s in (TRUE, FALSE):
        st = start(state=("tuple", s, op))
        lab = "receiving" if s == TRUE else "sending"
        for sw in ({"write_messages": CON + ".standard_write_messages", "read_messages": CON + ".standard_read_messages"},
                   {"write_messages": CON + ".traced_write_messages", "read_messages": CON + ".traced_read_messages"}):
            for m in sw.values():
                if p.func_by_dotted(m) is None:
                    raise AnalysisBroken(m + " vanished")
            tr = ", traced" if "traced" in sw["read_messages"] else ""
            go("step", {}, st, (), "step, " + lab + tr, sw)
            go("complete", {}, st, (), "complete, " + lab + tr, sw)
    go("read_into", {}, start(state=("tuple", TRUE, op)))
    go("send_message_data", {}, start(state=("tuple", FALSE, op)))
    # pushing: the old conversation may be healthy, absent or fatal
    new = ("p", "$new")
    for lab, st in (("idle", start().hset((SELF, "xact"), NONE)), ("busy", start(state=("tuple", TRUE, op))),
                    ("lost", start(xfatal=TRUE, state=COMPLETE).hset((X, "error_message"), ("p", "$em")))):
        st = st.hset((new, "state"), ("tuple", FALSE, op)).hset((new, "fatal"), NONE)
        f, outs, eng = go("push", {"x": new}, st, ("complete",), "push, " + lab)
        if lab == "lost":
            for o in outs:
                ck.judge(o.st.heap.get((SELF, "xact")) == X and o.st.heap.get((new, "state"))[1] == FALSE, "attached", "push, lost",
                         f.loc(), "a request is started over a lost channel", o.st.trace)
        go("synchronize", {}, st, ("complete",), "synchronize, " + lab)
    ck.count("io_sites", len(n_io))
    ck.at_least("io_sites", 5, "socket operations")

    # the factory
    sf = p.cls("postgresql.python.socket:SocketFactory")
    eng = Engine(p, R())
    from sa.program import py_class
    for a in ("fatal_exception", "try_again_exception"):
        owner, v = eng.class_attr(sf, a)
        k = py_class(v[1]) if v is not None and v[0] == "g" else None
        ck.judge(k is not None and issubclass(OSError, k), "factory", a, sf.module.rel, "%s = %s does not cover every socket error" % (a, show(v) if v else None))
    owner, v = eng.class_attr(sf, "timeout_exception")
    k = py_class(v[1]) if v is not None and v[0] == "g" else None
    ck.judge(k is TimeoutError, "factory", "timeout_exception", sf.module.rel, "timeout_exception = %s" % (show(v) if v else None))
    f = p.find_method(sf, "fatal_exception_message")

    class FR(Rule):
        def inline(self, eng, func):
            return func.name != "try_again"

        def may_raise(self, eng, f, node, st):
            return False

        def call(self, eng, node, f, args, kws, st, fr):
            if callee(f)[1] == "try_again":
                return [Out("v", st.with_ts("again"), TRUE), Out("v", st.with_ts("dead"), FALSE)]
    ck.func(f)
    eng = Engine(p, FR())
    for o in eng.run(f, {}):
        if o.kind != "return":
            ck.finding("factory", "fatal_exception_message", f.loc(), "raises")
            continue
        maybe_none = eng.truth(("cmp", "is", o.val, NONE), o.st) is not False and not (
            o.val[0] in ("cat", "s") or o.val[0] == "call" and o.val[1] == G("builtins.str"))
        if o.st.ts == "again":
            ck.judge(o.val == NONE, "factory", "retryable error", f.loc(), "a retryable error gets a fatal message")
        else:
            ck.judge(not maybe_none, "factory", "fatal error always has a message", f.loc(),
                     "for an error that is not retryable the message may be None (%s), so it is taken as harmless" % show(o.val), o.st.trace)
    f = p.find_method(sf, "try_again")
    ck.func(f)
    import errno
    allowed = {"errno.EAGAIN", "errno.EINTR", "errno.EWOULDBLOCK", "errno.ETIMEDOUT", "errno.EINPROGRESS"}
    class TR(Rule):
        def may_raise(self, eng, f, node, st):
            return False
    eng = Engine(p, TR())
    seen = 0
    for o in eng.run(f, {}):
        for t in walk_term(("tuple", o.val) + tuple(t for t, v in o.st.facts)):
            if t[0] == "g" and t[1].startswith("errno."):
                seen += 1
                ck.judge(t[1] in allowed, "factory", "retryable codes", f.loc(), "%s is treated as retryable" % t[1])
    codes = eng.default_term(f, f.node.args.defaults[0], True) if f.node.args.defaults else None
    for t in walk_term(codes) if codes else ():
        if t[0] == "g" and t[1].startswith("errno."):
            seen += 1
            ck.judge(t[1] in allowed, "factory", "retryable codes", f.loc(), "%s is treated as retryable" % t[1])
    if seen < 3:
        raise AnalysisBroken("retryable error codes not found")
