"""P05: a required TLS session is never replaced by plaintext.

connect() is interpreted with the socket's security as typestate and the server's answer as input; _establish() is
interpreted for every sslmode, with every outcome of every attempt, against the order of attempts the mode denotes."""
from sa.rules import *
from checks.p01 import wire

MOD = "postgresql.protocol.client3"
PQ3 = "postgresql.driver.pq3"
SELF = ("p", "self")
X = ("p", "$xact")
COMPLETE = ("tuple", NONE, NONE)
PLAIN, TLS = ("p", "$plain"), ("p", "$tls")
SENDERS = {"send", "sendall", "sendmsg", "sendto", "write"}


class R(EventRule):
    """ts: (security of the connection, server's answer)"""
    max_depth = 6
    widen_after = 24
    initial = ("none", None)

    def __init__(self, ck, sec):
        self.ck, self.sec, self.bad, self.sites = ck, sec, [], set()

    def inline(self, eng, func):
        return func.module.name == MOD and func.name not in ("complete", "step", "push", "__str__", "interrupt")

    def types(self, eng):
        return {}

    def note(self, rule, fr, node, msg, st):
        self.bad.append((rule, fr.func.loc(node), msg, st.trace))

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        exc = lambda cls, s=st: Out("raise", s, ("exc", "?:builtins." + cls, ("excval", cls, node.lineno)), node)
        sec, ans = st.ts
        if f == ("attr", SELF, "socket_factory") or name == "__call__" and recv == ("attr", SELF, "socket_factory"):
            self.sites.add(fr.func.loc(node))
            return [V(PLAIN, st.with_ts(("plain", None))), exc("OSError")]
        if name in ("secure", "wrap_socket"):
            self.sites.add(fr.func.loc(node))
            if ans != "S" or not args or args[0] != PLAIN:
                self.note("upgrade", fr, node, "%s is wrapped in TLS after the answer %s" % (show(args[0]) if args else "nothing", ans), st)
            return [V(TLS, st.with_ts(("tls", ans))), exc("Exception")]
        if name in SENDERS and recv is not None and recv in (PLAIN, TLS, ("attr", SELF, "socket")):
            self.sites.add(fr.func.loc(node))
            a = args[0] if args else NONE
            if not (contains(a, G("postgresql.protocol.element3.NegotiateSSLMessage")) or "NegotiateSSL" in show(a)):
                self.note("first-bytes", fr, node, "%s is sent before the security of the connection is settled" % show(a), st)
            k = ("p", "$sent")
            if contains(a, k):      # the second part of it: enough
                return []
            return [V(k, st.with_ts((sec, "asked"))), exc("OSError")]
        if name in ("recv", "recvfrom", "read") and recv in (PLAIN, TLS, ("attr", SELF, "socket")):
            self.sites.add(fr.func.loc(node))
            if sec != "tls" and (not args or args[0] != C(1)):
                self.note("upgrade", fr, node, "more than the one answer byte is taken from the unprotected connection", st)
            outs = [exc("OSError")]
            for b, a in ((b"S", "S"), (b"N", "N"), (b"E", "other"), (b"", "other"), (b"s", "other"), (b"\x00", "other")):
                outs.append(V(C(b), st.with_ts((sec, a))))
            return outs
        if name in ("complete", "step", "push", "write_messages", "standard_write_messages", "send_message_data") and recv == SELF:
            self.sites.add(fr.func.loc(node))
            sock = st.heap.get((SELF, "socket"))
            self.ck.ok("startup", "ssl=%s" % show(self.sec))
            what = "the startup conversation runs with ssl=%s, answer %s, on %s" % (show(self.sec), ans, show(sock or NONE))
            if self.sec == TRUE and not (sec == "tls" and sock == TLS and ans == "S"):
                self.note("startup", fr, node, what, st)
            elif self.sec == FALSE and not (ans == "S" and sock == TLS or ans == "N" and sock == PLAIN):
                self.note("startup", fr, node, what, st)
            elif self.sec == NONE and not (sock == PLAIN and ans is None):
                self.note("startup", fr, node, what, st)
            if st.heap.get((X, "fatal")) == TRUE:
                self.note("startup", fr, node, "the startup conversation runs although the attempt failed", st)
            self.ran = True
            return [V(NONE, st.with_ts(("ran", ans)).hset((X, "state"), COMPLETE))]
        if name in ("timed_out",):
            return [V(TRUE), V(FALSE)]
        return None


class E(EventRule):
    """ts: attempts so far"""
    max_depth = 5
    widen_after = 24
    state_cap = 4000
    initial = ()
    hosts = (("p", "$host1"), ("p", "$host2"))

    def __init__(self, ck):
        self.ck, self.bad = ck, []

    def inline(self, eng, func):
        return func.module.name == "postgresql.python.itertools" or func.cls is not None and func.cls.full == PQ3 + ".Connection" and func.name not in ("_receive_async", "_establish")

    def may_raise(self, eng, f, node, st):
        return False

    def decide(self, eng, t, st):
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if name == "socket_factory_sequence":
            lo = ("obj", "list", ("hosts",))
            return [V(lo, st.hset((lo, "$items"), ("L", self.hosts)))]
        if f == G("builtins.len") and len(args) == 1:
            it = eng.exact_items(args[0], st)
            if it is not None:
                return [V(C(len(it)))]
        if f == G(MOD + ".Connection"):
            ob = ("p", "$pq%d" % len(st.ts))
            s = st.hset((ob, "$factory"), arg(args, kws, 0, "socket_factory", NONE)).hset((ob, "xact"), ("p", "$neg%d" % len(st.ts)))
            return [V(ob, s.hset((ob, "socket"), ("p", "$sock")))]
        if name == "connect" and recv is not None and recv[0] == "p" and recv[1].startswith("$pq"):
            ssl = arg(args, kws, 0, "ssl", NONE)
            host = st.heap.get((recv, "$factory"), NONE)
            outs = []
            x = ("p", "$neg" + recv[1][3:])
            answers = (None,) if ssl == NONE else (True, False, None, "lost")
            for a in answers:
                if not (a is False and ssl == TRUE) and a is not None and a != "lost" or ssl == NONE:
                    s = st.with_ts(st.ts + ((ssl, host, a, "ok"),)).hset((recv, "xact"), NONE)
                    s = s.hset((recv, "ssl_negotiation"), C(a)) if a is not None else s
                    outs.append(V(NONE, s))
                for exc in (False, True):
                    s = st.with_ts(st.ts + ((ssl, host, a, "exc" if exc else "failed"),)).hset((x, "error_message"), ("p", "$em")).hset((x, "fatal"), TRUE).fact(("cmp", "is", x, NONE), False)
                    if ssl != NONE and a != "lost":
                        s = s.hset((recv, "ssl_negotiation"), C(a))
                    if exc:
                        s = s.hset((x, "exception"), ("p", "$exc"))
                    outs.append(V(NONE, s))
            return outs
        if f == G("builtins.hasattr") and len(args) == 2 and is_const(args[1]):
            if args[0][0] == "p" and args[0][1].startswith("$neg") and args[1][2] == "exception":
                return [V(C((args[0], "exception") in st.heap))]
        if f == G("builtins.getattr") and len(args) == 3 and is_const(args[1]) and args[0][0] == "p" and args[0][1].startswith("$"):
            v = st.heap.get((args[0], args[1][2]))
            return [V(v if v is not None else args[2])]
        if st.ts and st.ts[-1][3] == "ok" and name in ("normalize", "split", "Binding", "get"):
            # connected: what follows is not about the attempts
            return [Out("raise", st, ("exc", "?:builtins.Exception", ("excval", "connected", 0)), node)]
        if name == "raise_error":
            return [Out("raise", st, ("exc", "?:builtins.Exception", ("excval", "pgerror", node.lineno)), node)]
        if name == "raise_client_error":
            return [Out("raise", st, ("exc", "?:builtins.Exception", ("excval", "noconnect", node.lineno)), node)]
        return None


def allowed(mode, hosts):
    """the full list of attempts"""
    o = {"disable": (None,), "require": (True,), "allow": (None, True), "prefer": (False, None), None: (False, None)}[mode]
    return [(s, h) for h in hosts for s in o]


def run(ck, p):
    wire(ck, p, "NegotiateSSL")
    ck.rule("startup", "the startup conversation runs only on a connection as secure as the caller asked for and the server's answer allows")
    ck.rule("refused", "TLS required and not granted, or an answer that is neither S nor N: the attempt is fatal")
    ck.rule("first-bytes", "before the security is settled only the TLS request is sent")
    ck.rule("upgrade", "the connection is wrapped only after S, and nothing but the answer is read before")
    ck.rule("attempts", "each sslmode makes its attempts, per host, in its order, and stops at the first that works")
    ck.rule("mode", "an unknown sslmode is refused; without one, prefer applies")
    ck.rule("secure", "SocketFactory.secure returns the TLS-wrapped socket it was given")
    cls = p.cls(MOD + ":Connection")
    f = p.find_method(cls, "connect")
    seen = set()
    sites = set()
    for sec in (TRUE, FALSE, NONE):
        rule = R(ck, sec)
        rule.ran = False
        eng = Engine(p, rule)
        st = State(ts=("none", None)).hset((SELF, "xact"), X).hset((X, "fatal"), NONE).hset((X, "state"), ("tuple", FALSE, ("p", "$op")))
        st = st.fact(("call", G("builtins.hasattr"), (SELF, C("socket")), ()), False)
        outs = eng.run(f, {"ssl": sec, "timeout": NONE}, self_class=cls.full, st=st)
        for x in eng.inlined:
            ck.func(x)
        ck.func(f)
        sites |= rule.sites
        for rn, where, msg, tr in rule.bad:
            if (where, msg) not in seen:
                seen.add((where, msg))
                ck.finding(rn, "connect, ssl=%s" % show(sec), where, msg, tr)
        if not rule.ran:
            ck.finding("startup", "connect, ssl=%s" % show(sec), f.loc(), "no path leads to the startup conversation")
        for o in outs:
            ck.ok("refused", "ssl=%s answer=%s" % (show(sec), o.st.ts[1]))
            if o.st.ts[0] == "ran" or o.kind == "raise":
                continue
            if o.st.heap.get((X, "fatal")) != TRUE and o.st.heap.get((SELF, "socket")) is not None:
                ck.finding("refused", "connect, ssl=%s" % show(sec), f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(),
                           "the attempt ends without startup (answer %s) and is not fatal" % o.st.ts[1], o.st.trace)
    ck.count("socket_sites", len(sites))
    ck.at_least("socket_sites", 4)
    # ---- the attempts
    pcls = p.cls(PQ3 + ":Connection")
    f = p.find_method(pcls, "_establish")
    ck.func(f)
    for mode in ("disable", "allow", "prefer", "require", None, "verify-full", "bogus"):
        rule = E(ck)
        eng = Engine(p, rule)
        cn = ("attr", SELF, "connector")
        st = State(ts=()).hset((cn, "sslmode"), C(mode))
        outs = eng.run(f, {}, self_class=pcls.full, st=st)
        if mode in ("verify-full", "bogus"):
            ok = outs and all(o.kind == "raise" and not o.st.ts for o in outs)
            ck.judge(ok, "mode", "sslmode %s" % mode, f.loc(), "is not refused")
            continue
        full = allowed(mode, E.hosts)
        done = {}
        for o in outs:
            got = [((None if a[0] == NONE else a[0][2]), a[1]) for a in o.st.ts]
            ck.ok("attempts", "sslmode %s" % mode)
            msg = None
            i = 0
            for k, (g, a) in enumerate(zip(got, o.st.ts)):
                # an attempt may be left out when the one before it told that it must fail
                while i < len(full) and full[i] != g:
                    prev = o.st.ts[k - 1] if k else None
                    skip = prev is not None and full[i][1] == prev[1] and (prev[3] == "exc" or mode in ("prefer", None) and prev[2] is False)
                    if not skip:
                        break
                    i += 1
                if i >= len(full) or full[i] != g:
                    msg = "makes attempt %s after %s" % ((g[0], show(g[1])), [(x, show(h)) for x, h in got[:k]])
                    break
                i += 1
                if a[3] == "ok" and k != len(got) - 1:
                    msg = "goes on after an attempt that worked"
                    break
            if msg is None and not (o.st.ts and o.st.ts[-1][3] == "ok"):
                prev = o.st.ts[-1] if o.st.ts else None
                rest = full[i:]
                if rest and not (len(rest) == 1 and prev is not None and rest[0][1] == prev[1] and (prev[3] == "exc" or mode in ("prefer", None) and prev[2] is False)):
                    msg = "gives up without attempt %s" % [(x, show(h)) for x, h in rest]
                elif o.kind != "raise":
                    msg = "no attempt worked, yet connect does not raise"
            connected = o.kind == "return" or o.val[2][:2] == ("excval", "connected")
            if msg is None and connected and o.st.ts and o.st.ts[-1][3] == "ok":
                sec = o.st.heap.get((SELF, "security"))
                if (sec == C("ssl")) != (o.st.ts[-1][2] is True):
                    msg = "security is reported as %s after %s" % (show(sec or NONE), o.st.ts[-1][2])
            done.setdefault(tuple(got), msg)
            if msg:
                done[tuple(got)] = msg
        for g, msg in done.items():
            if msg:
                ck.finding("attempts", "sslmode %s" % mode, f.loc(), "sslmode %s %s" % (mode, msg))
        ck.judge(len(done) >= len(full), "attempts", "sslmode %s, all attempts" % mode, f.loc(), "only the attempt sequences %s occur" % list(done))
    # ---- the wrapper
    sf = p.func("postgresql.python.socket:SocketFactory.secure")
    ck.func(sf)
    rule = EventRule()
    outs = Engine(p, rule).run(sf, {"socket": PLAIN}, self_class=sf.cls.full)
    for o in outs:
        if o.kind != "return":
            continue
        cp = call_parts(o.val)
        ok = cp is not None and callee(cp[0])[1] == "wrap_socket" and PLAIN in cp[1]
        ck.judge(ok, "secure", "SocketFactory.secure", sf.loc(), "returns %s" % show(o.val))
