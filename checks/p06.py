"""P06: the password is sent only in the form the server's request asks for.

The startup generator is interpreted against every first reply, every authentication request code and every later
reply; what it hands out for sending is compared, as a term, with the form requested."""
from sa.rules import *
from checks.p01 import wire

XM = "postgresql.protocol.xact3"
E3 = "postgresql.protocol.element3"
SELF = ("p", "self")
PW = ("attr", SELF, "password")
SM = ("attr", SELF, "startup_message")
CODES = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255, 2147483648)
TYPES = (b"R", b"K", b"Z", b"T", b"p", b"D", b"v")


def peel(t):
    """x.encode(..) and bytes(x, ..) around ASCII text"""
    while True:
        cp = call_parts(t)
        if cp is None:
            return t
        recv, name = callee(cp[0])
        if name == "encode" and recv is not None:
            t = recv
        elif cp[0] in (G("builtins.bytes"), G("codecs.encode")) and cp[1]:
            t = cp[1][0]
        else:
            return t


def md5_of(t):
    """the term t is the hex md5 of -> that term"""
    cp = call_parts(peel(t))
    if cp is None:
        return None
    recv, name = callee(cp[0])
    if name == "hexdigest" and recv is not None:
        h = call_parts(recv)
        if h is not None and callee(h[0])[1] in ("md5", "openssl_md5") and len(h[1]) == 1:
            return h[1][0]
        if h is not None and callee(h[0])[1] == "new" and len(h[1]) == 2 and h[1][0] == C("md5"):
            return h[1][1]
    if name in ("hexlify",) and len(cp[1]) == 1:
        d = call_parts(cp[1][0])
        if d is not None and callee(d[0])[1] == "digest":
            return md5_of(("call", ("attr", callee(d[0])[0], "hexdigest"), (), ()))
    return None


def digest_of(t):
    h = call_parts(t)
    return h is not None and (callee(h[0])[1] in ("md5", "openssl_md5") or callee(h[0])[1] == "new" and h[1][:1] and h[1][0] == C("md5"))


def parts(t):
    return [(k, x[0] if len(x) == 1 else x[1]) for k, *x in pieces(t)]


def is_md5_form(t, salt):
    a = pieces(peel(t))
    if len(a) != 2 or a[0] not in (("lit", b"md5"), ("lit", "md5")) or a[1][0] != "hole":
        return False
    outer = md5_of(a[1][2])
    if outer is None:
        return False
    b = pieces(outer)
    if len(b) != 2 or b[1][-1] != salt:
        return False
    inner = md5_of(b[0][-1])
    if inner is None:
        return False
    c = pieces(inner)
    return len(c) == 2 and c[0][-1] == PW and c[1][-1] == ("sub", SM, C(b"user"))


class R(EventRule):
    """ts: tuple of ('send', messages) and ('got', type, code)"""
    max_depth = 5
    initial = ()

    def inline(self, eng, func):
        return func.module.name == XM

    def may_raise(self, eng, f, node, st):
        return False

    def on_yield(self, eng, node, val, st, fr):
        ts = st.ts + (("send", val),)
        n = sum(1 for e in ts if e[0] == "got")
        outs = []
        if n >= 5:
            return []
        for t in TYPES:
            for code in (CODES if t == b"R" else (None,)):
                if n > 1 and t == b"R" and code not in (0, 3, 5):
                    continue
                m = ("tuple", C(t), ("body", t, code, n))
                outs.append(Out("v", st.with_ts(ts + (("got", t, code),)), m))
        return outs

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: [Out("v", s, t)]
        if name == "parse" and len(args) == 1 and args[0][0] == "body":
            cls = show(recv) if recv is not None else f[1] if f[0] == "g" else ""
            b = args[0]
            if "Authentication" in cls:
                ob = ("auth", b[2], b[3])
                if b[1] != b"R":
                    return [Out("raise", st, ("exc", "?:builtins.Exception", ("excval", "parse", node.lineno)), node), Out("v", st.hset((("auth", "any", b[3]), "request"), ("p", "$anyreq")), ("auth", "any", b[3]))]
                return V(ob, st.hset((ob, "request"), C(b[2])).hset((ob, "salt"), ("p", "$salt")))
            return V(("parsed", cls.rsplit(".", 1)[-1], b))
        if f == G("%s.Password" % E3) or f == G("%s.crypt" % XM) or f[0] == "g" and f[1].endswith("crypt.crypt"):
            return V(("call", G(E3 + ".Password") if f[1].endswith("Password") else G("crypt"), tuple(args), ()))
        if recv is not None and name == "update" and len(args) == 1 and digest_of(recv):
            # h.update(x): the text of the digest grows; what it is made of is kept beside it
            return V(NONE, st.hset((recv, "fed"), st.heap.get((recv, "fed"), ()) + (args[0],)))
        if recv is not None and name in ("hexdigest", "digest") and digest_of(recv) and st.heap.get((recv, "fed")):
            h = call_parts(recv)
            text = tuple(x for x in h[1] if x != C("md5")) + st.heap[(recv, "fed")]
            whole = text[0] if len(text) == 1 else ("cat", text)
            return V(("call", ("attr", ("call", G("hashlib.md5"), (whole,), ()), name), (), ()))
        if f[0] == "g" and f[1] in (E3 + ".ClientError",) or f[0] == "g" and "message_expectation" in f[1]:
            return V(("p", "$client_error"))
        return None


def run(ck, p):
    wire(ck, p, "Authentication", "Password")
    ck.rule("first", "the conversation opens with the startup message alone")
    ck.rule("form", "an authentication request is answered with the password in the form it asks for, once")
    ck.rule("silent", "nothing derived from the password is sent in any other case")
    ck.rule("abort", "an unknown request, a refusal or an unexpected reply is fatal with a coded message")
    ck.rule("complete", "the startup succeeds only after OK, the cancel key and ReadyForQuery, each kept")
    ck.rule("drive", "put_messages feeds the generator in order, stops at an error reply and sends what the generator hands out")
    cls = p.cls(XM + ":Negotiation")
    f = p.find_method(cls, "state_machine")
    ck.func(f)
    eng = Engine(p, R())
    outs = eng.run(f, {}, self_class=cls.full, st=State(ts=()).hset((SELF, "fatal"), NONE))
    found = {}

    def say(rule, construct, msg, o):
        found.setdefault((rule, construct, msg), o)
    forms = set()
    for o in outs:
        ts = o.st.ts
        sends = [e[1] for e in ts if e[0] == "send"]
        got = [(e[1], e[2]) for e in ts if e[0] == "got"]
        hist = ", ".join("%s%s" % (t.decode(), "" if c is None else c) for t, c in got)
        fatal = o.st.heap.get((SELF, "fatal"))
        ck.ok("first", "")
        m0 = eng.exact_items(sends[0], o.st) if sends else None
        if m0 != (SM,):
            say("first", "startup", "opens with %s" % (show(sends[0]) if sends else "nothing"), o)
        # reference
        t0, c0 = got[0]
        reply = None
        state = "fatal"
        want = 1
        if t0 == b"R" and c0 in (0, 3, 4, 5):
            reply = {0: None, 3: "clear", 4: "crypt", 5: "md5"}[c0]
            seq = got[1:]
            state = None
            if reply:
                if not seq:
                    state = "fatal"
                elif seq[0] != (b"R", 0):
                    state, want = "fatal", 2
                else:
                    seq = seq[1:]
            if state is None:
                exp = [b"K", b"Z"]
                state = "ok" if [t for t, _ in seq] == exp else "fatal"
                want = None
        # what was sent after the startup message
        later = []
        for s in sends[1:]:
            it = eng.exact_items(s, o.st)
            if it is not None:
                later += list(it)
            elif s != NONE:
                later.append(s)
        ck.ok("form" if reply else "silent", hist)
        if reply is None:
            if later:
                say("silent", "after %s%s" % (t0.decode(), "" if c0 is None else " %d" % c0), "sends %s" % show(later[0]), o)
        else:
            if len(later) != 1:
                say("form", "request %d" % c0, "sends %d messages in answer" % len(later), o)
            else:
                cp = call_parts(later[0])
                pw = cp[1][0] if cp and cp[0] == G(E3 + ".Password") and cp[1] else None
                forms.add(reply)
                good = pw is not None and (reply == "clear" and pw == PW or reply == "crypt" and pw == ("call", G("crypt"), (PW, ("p", "$salt")), ())
                                           or reply == "md5" and is_md5_form(pw, ("p", "$salt")))
                if not good:
                    say("form", "request %d" % c0, "answered with %s" % show(pw or later[0]), o)
        if o.kind != "return":
            if fatal != TRUE:
                say("abort", "replies %s" % hist, "raises %s instead of ending as fatal" % show(o.val), o)
            continue
        ck.ok("abort" if state == "fatal" else "complete", hist)
        if state == "fatal":
            if fatal != TRUE:
                say("abort", "replies %s" % hist, "the startup ends as a success", o)
            elif (SELF, "error_message") not in o.st.heap:
                say("abort", "replies %s" % hist, "fatal without an error message", o)
        else:
            if fatal == TRUE:
                say("complete", "replies %s" % hist, "the startup fails", o)
            ki, lr = o.st.heap.get((SELF, "killinfo")), o.st.heap.get((SELF, "last_ready"))
            if not (ki is not None and ki[0] == "parsed" and ki[1] == "KillInformation" and ki[2][1] == b"K"):
                say("complete", "killinfo", "is %s" % show(ki or NONE), o)
            if not (lr is not None and contains(lr, ("parsed", "Ready", ("body", b"Z", None, len(got) - 1)))):
                say("complete", "last_ready", "is %s" % show(lr or NONE), o)
    for (rule, construct, msg), o in sorted(found.items(), key=str)[:12]:
        ck.finding(rule, construct, f.loc(), "%s: %s" % (construct, msg), o.st.trace)
    ck.judge(forms == {"clear", "crypt", "md5"}, "form", "all forms", f.loc(), "only the forms %s are ever sent" % sorted(forms))
    ck.count("reply_histories", len(outs))
    ck.at_least("reply_histories", 100)
    drive(ck, p, cls)


class D(EventRule):
    """ts: messages given to the generator; it answers with nothing, with messages, or is finished"""
    max_depth = 5
    widen_after = 24
    initial = ()

    def inline(self, eng, func):
        return func.module.name == XM and func.name != "state_machine"

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: Out("v", s, t)
        if name == "send" and len(args) == 1 or f == G("builtins.next") and args and "machine" in show(args[0]):
            n = sum(1 for e in st.ts if e[0] == "fed")
            s = st.with_ts(st.ts + (("fed", args[0]),))
            outs = [V(NONE, s), V(("tuple", ("p", "$reply")), s.with_ts(s.ts + (("reply",),)))]
            outs.append(Out("raise", s.with_ts(s.ts + (("done",),)), ("exc", "builtins.StopIteration", ("excval", "stop", n)), node))
            return outs
        if name == "parse" or f[0] == "sub" or f[0] in ("bm", "g") and show(f).endswith("parse"):
            return [V(("parsed", show(f), args[0]))]
        return None


def drive(ck, p, cls):
    f = p.find_method(cls, "put_messages")
    ck.func(f)
    mk = lambda t, i: ("tuple", C(t), ("body", t, i))
    import itertools
    kinds = (b"R", b"E", b"N", b"A", b"S", b"K", b"Z")
    seen = set()
    for n in (1, 2, 3):
        for ts in itertools.product(kinds if n < 3 else (b"R", b"E", b"S", b"Z"), repeat=n):
            rule = D()
            eng = Engine(p, rule)
            lo = ("obj", "list", ("batch",))
            al = ("obj", "list", ("asyncs",))
            rl = ("obj", "list", ("received",))
            msgs = tuple(mk(t, i) for i, t in enumerate(ts))
            st = State(ts=()).hset((lo, "$items"), ("L", msgs)).hset((al, "$items"), ("L", ())).hset((SELF, "asyncs"), al)
            st = st.hset((rl, "$items"), ("L", (("tuple",),))).hset((SELF, "received"), rl).hset((SELF, "fatal"), NONE)
            st = st.hset((SELF, "messages"), ("tuple",)).hset((SELF, "state"), ("p", "$receiving"))
            st = st.fact(("cmp", "is", lo, ("tuple",)), False).fact(("cmp", "is", ("tuple",), lo), False)
            args = [a.arg for a in f.node.args.args]
            for o in eng.run(f, {args[1]: lo}, self_class=cls.full, st=st):
                ck.ok("drive", ",".join(t.decode() for t in ts))
                what = "replies %s" % ",".join(t.decode() for t in ts)
                fed = [e[1] for e in o.st.ts if e[0] == "fed"]
                ended = "done" if ("done",) in o.st.ts else "reply" if ("reply",) in o.st.ts else None
                # reference: how far the batch goes
                want, cnt, err, asy = [], 0, None, []
                for m, t in zip(msgs, ts):
                    cnt += 1
                    if t == b"E":
                        err = m
                        break
                    if t in (b"N", b"A", b"S"):
                        asy.append(m)
                        continue
                    want.append(m)
                    if ended and len(want) == len(fed):
                        break
                else:
                    err = None
                msg = None
                if o.kind != "return":
                    msg = "raises %s" % show(o.val)
                elif fed != want:
                    msg = "the generator is given %s, should be %s" % ([show(x[1]) for x in fed], [show(x[1]) for x in want])
                elif o.val != C(cnt):
                    msg = "reports %s of %d messages as used" % (show(o.val), cnt)
                else:
                    state = o.st.heap.get((SELF, "state"))
                    fatal, em = o.st.heap.get((SELF, "fatal")), o.st.heap.get((SELF, "error_message"))
                    got = eng.exact_items(al, o.st)
                    if got is None or len(got) != len(asy) or any(g[0] != "parsed" or g[2] != a[2] for g, a in zip(got, asy)):
                        msg = "asynchronous messages kept: %s" % (got and [show(x) for x in got])
                    if err is not None and not ended:
                        if fatal != TRUE or state != ("tuple", NONE, NONE) or not (em and em[0] == "parsed" and em[2] == err[2]):
                            msg = "an error reply does not end the startup as fatal with that error"
                    elif fatal == TRUE:
                        msg = "fatal without an error reply"
                    elif ended == "done":
                        if state != ("tuple", NONE, NONE):
                            msg = "the startup is over, the conversation is not complete"
                    elif ended == "reply":
                        if not (state and state[0] == "tuple" and state[1] == FALSE) or o.st.heap.get((SELF, "messages")) != ("tuple", ("p", "$reply")):
                            msg = "the answer is not sent"
                    elif state != ("p", "$receiving"):
                        msg = "the conversation leaves the receiving state"
                if msg and (what, msg) not in seen and len(seen) < 12:
                    seen.add((what, msg))
                    ck.finding("drive", what, f.loc(), "%s: %s" % (what, msg), o.st.trace)
