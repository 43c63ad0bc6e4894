"""P07: a failed request always raises, and with the class its SQLSTATE denotes."""
import ast
from sa.rules import *
from checks.p01 import wire

PQ3 = "postgresql.driver.pq3"
XC = "postgresql.exceptions"
SELF = ("p", "self")
PQ = ("attr", SELF, "pq")
X = ("p", "$xact")
NEW = ("p", "$new")
EM = ("p", "$error_message")
REQ = ("_pq_push", "_pq_complete", "_pq_step")
COMPLETE = ("tuple", NONE, NONE)
PGERR = "?:postgresql.exceptions.Error"


def raised(st, node, tag):
    return Out("raise", st, ("exc", PGERR, ("excval", tag, getattr(node, "lineno", 0))), node)


# ---------------------------------------------------------------- report
class Report(EventRule):
    """ts: events"""
    initial = ()
    max_depth = 4

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.cls is not None and func.cls.name == "Connection"

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name in ("complete", "step") and recv == PQ:
            outs = []
            for fatal in (NONE, FALSE, TRUE):
                for state in (COMPLETE,) if name == "complete" else (COMPLETE, ("tuple", FALSE, ("p", "$op"))):
                    if state != COMPLETE and fatal != NONE:
                        continue
                    s = st.with_ts(st.ts + ((name, fatal, state),)).hset((X, "fatal"), fatal).hset((X, "state"), state).hset((X, "error_message"), EM)
                    s = s.fact(("cmp", "is", state, COMPLETE), state == COMPLETE).fact(("cmp", "is", COMPLETE, state), state == COMPLETE)
                    # a dead channel keeps the transaction
                    s = s.hset((PQ, "xact"), X if fatal == TRUE or state != COMPLETE else NONE)
                    outs.append(Out("v", s, NONE))
            return outs
        if name == "push" and recv == PQ:
            return [Out("v", st.with_ts(st.ts + (("push", args[0] if args else NONE),)), NONE)]
        if name in ("raise_error", "raise_client_error", "raise_server_error"):
            s = st.with_ts(st.ts + (("error", arg(args, kws, 0, "error_message", NONE)),))
            return [raised(s, node, "reported")]
        return None


def report(ck, p):
    cls = p.cls(PQ3 + ":Connection")
    for name in REQ:
        f = p.find_method(cls, name)
        ck.func(f)
        for pending in (True, False):
            st = State(ts=()).hset((PQ, "xact"), X if pending else NONE).hset((X, "fatal"), NONE).hset((X, "state"), ("tuple", FALSE, ("p", "$op")))
            st = st.fact(("cmp", "is", X, NONE), False)
            params = [a.arg for a in f.node.args.args]
            env = {params[1]: NEW} if name == "_pq_push" else {params[1]: COMPLETE} if name == "_pq_step" and len(params) > 1 else {}
            for o in Engine(p, Report()).run(f, env, self_class=cls.full, st=st):
                done = [e for e in o.st.ts if e[0] in ("complete", "step")]
                err = [e for e in o.st.ts if e[0] == "error"]
                pushed = [e[1] for e in o.st.ts if e[0] == "push"]
                last = done[-1] if done else None
                failed = last is not None and last[1] != NONE
                what = "%s, %s" % (name, "nothing pending" if last is None else "after %s: fatal is %s" % (last[0], show(last[1])))
                msg = None
                if pending and not done:
                    msg = "the pending request is not driven"
                elif not pending and done:
                    msg = None
                if failed and o.kind != "raise":
                    msg = "returns although the request failed"
                elif failed and (not err or err[0][1] != EM):
                    msg = "raises %s, not the error the request ended with" % show(o.val)
                elif not failed and err:
                    msg = "raises although nothing failed"
                elif not failed and o.kind == "raise":
                    msg = "raises %s although nothing failed" % show(o.val)
                elif name == "_pq_push" and pushed != ([] if failed else [NEW]):
                    msg = "pushes %s" % [show(x) for x in pushed]
                ck.judge(msg is None, "report", what, f.loc(), "%s: %s" % (what, msg), o.st.trace)


# ---------------------------------------------------------------- propagate
SCOPE = ("driver.pq3", "driver.dbapi20", "alock", "lib", "temporal")


def called_names(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                yield n.func.attr
            elif isinstance(n.func, ast.Name):
                yield n.func.id


def requesters(p):
    """names of the driver's functions that may carry out a request"""
    names = set(REQ)
    fs = [f for f in p.all_funcs() if f.module.name == PQ3]
    generic = {"get", "keys", "values", "items", "append", "next", "iter", "close", "update", "__init__", "join", "write", "pop"}
    calls = {f: set(called_names(f)) - generic for f in fs}
    while True:
        more = {f.name for f in fs if calls[f] & names} - names - generic
        if not more:
            return names
        names |= more


class Propagate(EventRule):
    initial = ()
    max_depth = 1
    state_cap = 3000

    def __init__(self, names):
        self.names, self.sites = names, set()

    def inline(self, eng, func):
        return False

    def may_raise(self, eng, f, node, st):
        return False

    def prune(self, eng, st, where):
        return st

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name in self.names or name == "next" or name == "__next__" and recv is not None:
            self.sites.add(fr.func.loc(node))
            s = st.with_ts((name, fr.func.loc(node)))
            # after a failure the next requests may work
            outs = [Out("v", st, ("ret", node.lineno, f, tuple(args), tuple(kws)))]
            if not st.ts:
                outs.append(Out("raise", s, ("exc", PGERR, ("excval", "failed", 0)), node))
            return outs
        return None


def propagate(ck, p):
    names = requesters(p)
    ck.count("request_functions", len(names))
    n = 0
    for f in p.all_funcs():
        m = f.module.name[len("postgresql."):]
        if m not in SCOPE:
            continue
        tries = [x for x in ast.walk(f.node) if isinstance(x, (ast.Try, ast.With))]
        if not any(set(called_names_in(t)) & (names | {"next"}) for t in tries if isinstance(t, ast.Try)):
            continue
        n += 1
        ck.func(f)
        rule = Propagate(names)
        eng = Engine(p, rule)
        sc = f.cls.full if f.cls is not None else None
        outs = eng.run(f, {}, self_class=sc, st=State(ts=()))
        seen = set()
        for o in outs:
            ck.ok("propagate", f.full)
            if o.st.ts and o.kind != "raise" and o.st.ts not in seen:
                seen.add(o.st.ts)
                ck.finding("propagate", f.full, o.st.ts[1], "a failure of %s() is swallowed by %s" % (o.st.ts[0], f.name), o.st.trace)
    ck.count("functions_with_handlers", n)


# ---------------------------------------------------------------- reads
class Reads(EventRule):
    """ts: (pending transaction, has it been stepped, transactions known not to have failed)"""
    initial = (None, False, frozenset())
    max_depth = 3
    state_cap = 3000
    PRIMITIVE = ("_pq_push", "_pq_complete", "_pq_step", "_ins")

    def __init__(self, helpers=frozenset()):
        self.bad, self.reads, self.pushes, self.helpers = {}, set(), set(), helpers

    def inline(self, eng, func):
        return func.full in self.helpers

    def may_raise(self, eng, f, node, st):
        return False

    def checked(self, t, st):
        pend, stepped, ok = st.ts
        if t in ok or t == pend and stepped:
            return True
        fatal = st.heap.get((t, "fatal"), ("attr", t, "fatal"))
        return fatal == NONE or (("cmp", "is", fatal, NONE), True) in st.facts or (("cmp", "is", NONE, fatal), True) in st.facts

    def read(self, eng, node, t, st, fr):
        self.reads.add(fr.func.loc(node))
        if not self.checked(t, st):
            self.bad.setdefault((fr.func.full, fr.func.loc(node)), (t, st.trace))

    def subscript(self, eng, node, base, idx, st, fr):
        if base[0] == "attr" and base[2] == "completed":
            self.read(eng, node, base[1], st, fr)
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        pend, stepped, ok = st.ts
        V = lambda t, s: Out("v", s, t)
        where = (node.lineno, node.col_offset)
        if name in ("_ins", "Instruction"):
            return [V(("p", "$x%d.%d" % where), st)]
        if name == "_pq_push":
            self.pushes.add(fr.func.loc(node))
            x = arg(args, kws, 0, "xact", NONE)
            return [V(NONE, st.with_ts((x, False, ok - {x}))), raised(st, node, "push")]
        if name == "_pq_complete":
            if pend is not None:
                more = {pend}
            else:
                more = set()
                for t, v in st.facts:
                    if v and t[0] == "cmp" and t[1] == "is":
                        for a, b in ((t[2], t[3]), (t[3], t[2])):
                            if a[0] == "attr" and a[2] == "xact" and a[1][0] == "attr" and a[1][2] == "pq":
                                more |= {b, ("attr",) + b[1:] if b[0] == "attr" else b}
            return [V(NONE, st.with_ts((None, False, ok | more))), raised(st, node, "complete")]
        if name == "_pq_step" or f[0] == "attr" and f[2] == "_pq_step":
            return [V(NONE, st.with_ts((pend, True, ok))), raised(st, node, "step")]
        if name == "messages_received" and recv is not None:
            self.read(eng, node, recv, st, fr)
            return None
        if name in ("raise_error", "raise_client_error", "raise_server_error"):
            return [raised(st, node, "reported")]
        return None


def reads(ck, p):
    total, pushes = set(), set()
    # a function that makes, sends or completes a request for its caller is judged where it is called
    helpers, hnames = set(), set()
    for f in p.all_funcs():
        if f.module.name != PQ3 or f.outer is not None or f.name in Reads.PRIMITIVE or f.cls is not None and f.cls.name == "Connection":
            continue
        names = set(called_names(f))
        params = {a.arg for a in f.node.args.args}
        mine = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
                } if names & {"_ins", "Instruction"} else set()
        gives = any(isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in mine for n in ast.walk(f.node))
        takes = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_pq_push" and n.args
                    and isinstance(n.args[0], ast.Name) and n.args[0].id in params for n in ast.walk(f.node))
        waits = names <= {"_pq_complete"} and names
        if names & set(Reads.PRIMITIVE) and (gives or takes or waits):
            helpers.add(f.full)
            hnames.add(f.name)
    for f in p.all_funcs():
        if f.module.name != PQ3:
            continue
        names = set(called_names(f))
        attrs = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        if not (names & ({"messages_received", "_pq_push"} | hnames) or "completed" in attrs) or f.outer is not None:
            continue
        ck.func(f)
        rule = Reads(frozenset(helpers))
        outs = Engine(p, rule).run(f, {}, self_class=f.cls.full if f.cls is not None else None, st=State(ts=Reads.initial))
        total |= rule.reads
        pushes |= rule.pushes
        for (full, where), (t, tr) in rule.bad.items():
            ck.finding("unchecked", full, where, "%s: the messages of %s are used on a path where it may have failed" % (full, show(t)), tr)
        for w in rule.reads:
            ck.ok("unchecked", w)
        for o in outs:
            pend, stepped, ok = o.st.ts
            if o.kind == "raise" or pend is None:
                continue
            ck.ok("kept", f.full)
            if f.full in helpers and (o.val == pend or pend[0] == "p" and pend[1] in {a.arg for a in f.node.args.args}):
                continue
            kept = any(k[0] == SELF and v == pend for k, v in o.st.heap.items() if isinstance(k, tuple) and len(k) == 2)
            if not kept and not (("cmp", "is", ("attr", pend, "state"), G("postgresql.protocol.xact3.Complete")), True) in o.st.facts:
                ck.finding("kept", f.full, f.loc(o.node) if hasattr(o.node, "lineno") else f.loc(), "%s returns while the request is neither complete nor kept for later" % f.name, o.st.trace)
    ck.count("reads", len(total))
    ck.count("pushes", len(pushes))
    ck.at_least("reads", 5)
    ck.at_least("pushes", 5)


def called_names_in(t):
    for b in t.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    yield n.func.attr
                elif isinstance(n.func, ast.Name):
                    yield n.func.id


def run(ck, p):
    wire(ck, p, "Error", "Notice")
    ck.rule("report", "completing or stepping a request raises the error it ended with, and a new request is not sent after a failed one")
    ck.rule("propagate", "no driver function swallows the failure of a request it makes")
    ck.rule("unchecked", "the messages of a request are used only where it is known not to have failed")
    ck.rule("kept", "a request is complete when the function that made it returns, or kept in the object for its next operation")
    ck.rule("hierarchy", "every class with a code is an Error or a Warning")
    ck.rule("unique", "of the classes with one code one is the most general, and codes have five characters")
    ck.rule("denotes", "each SQLSTATE denotes the exception named for its condition")
    ck.rule("lookup", "a code is looked up itself, then by its class xx000, then the base class applies")
    ck.rule("mapping", "the tables are filled with the most general class of each code, errors and warnings apart")
    ck.rule("details", "the exception is made of the code, message and every other known field of the reply")
    report(ck, p)
    propagate(ck, p)
    reads(ck, p)
    classes(ck, p)
    details(ck, p)


# ---------------------------------------------------------------- classes
# SQLSTATE -> condition (PostgreSQL documentation, appendix A) for the codes the hierarchy denotes by other names
PREFIX_OF_CLASS = "xx000"


def const_attr(p, c, name):
    """value of a constant class attribute through the MRO"""
    for k in p.mro(c):
        k = k if hasattr(k, "assigns") else p.class_by_dotted(k)
        if k is None:
            continue
        v = k.assigns.get(name)
        if v:
            n = getattr(v[-1], "value", None)
            return n.value if isinstance(n, ast.Constant) else None
    return None


class Lookup(EventRule):
    initial = ()
    max_depth = 3

    def inline(self, eng, func):
        return func.module.name == XC

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if recv == ("p", "container") and name == "get":
            k = args[0]
            d = arg(args, kws, 1, "default", NONE)
            hit = ("p", "$hit%d" % len(st.ts))
            s = st.with_ts(st.ts + ((k, d),))
            return [Out("v", s.fact(("cmp", "is", hit, NONE), False), hit), Out("v", s, d)]
        return None


class Map(EventRule):
    initial = ()
    max_depth = 3
    OBJ, CUR = ("p", "$obj"), ("p", "$cur")

    def __init__(self, cfg):
        self.cfg = cfg

    def inline(self, eng, func):
        return func.module.name == XC

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        cls, code, family, cur, pg = self.cfg
        V = lambda t: [Out("v", st, t)]
        if f == G("builtins.issubclass"):
            a, b = args
            if a == self.OBJ:
                bs = b[1:] if b[0] == "tuple" else (b,)
                fam = {"error": XC + ".Error", "warning": XC + ".Warning"}.get(family)
                return V(C(any(x == G(fam) for x in bs) if fam else False))
            if a == self.CUR and b == self.OBJ:
                return V(C(cur == "special"))
            if a[0] == "call" and a[1] == G("builtins.type") or a[0] == "type":
                return V(C(cls))
        if f == G("builtins.isinstance"):
            return V(C(cls))
        if f == G("builtins.getattr") and args[0] == self.OBJ and args[1] == C("code"):
            return V(("p", "$code") if code else NONE)
        if f == G("builtins.getattr") and args[0] == self.OBJ and args[1] == C("pg_code"):
            return V(("p", "$pgcode") if pg else NONE)
        if f == G("builtins.hasattr") and args[0] == self.OBJ:
            return V(C(pg if args[1] == C("pg_code") else code))
        if name == "get" and recv in (("p", "$errors"), ("p", "$warnings")):
            return V(self.CUR if cur else NONE)
        return None

    def getattr(self, eng, node, base, attr, st, fr):
        if base == self.OBJ and attr in ("code", "pg_code"):
            return [Out("v", st, ("p", "$" + attr.replace("_", "")))]
        return None

    def setitem(self, eng, node, base, idx, val, st, fr):
        return [Out("next", st.with_ts(st.ts + ((base, idx, val),)))]


def classes(ck, p):
    m = p.module(XC)
    err, wrn = p.cls(XC + ":Error"), p.cls(XC + ":Warning")
    # -- one class per code
    byc = {}
    n = 0
    for c in m.classes.values():
        is_e, is_w = p.is_subclass(c.full, err.full), p.is_subclass(c.full, wrn.full)
        own = "code" in c.assigns
        if own:
            n += 1
            ck.judge(bool(is_e or is_w), "hierarchy", c.name, "%s:%d" % (m.rel, c.node.lineno), "%s declares a code and is neither an Error nor a Warning: its code denotes nothing" % c.name)
        if not (is_e or is_w):
            continue
        for a in ("code", "pg_code"):
            v = const_attr(p, c, a)
            if v:
                byc.setdefault((bool(is_e), v), []).append((c, a, a in c.assigns))
    for (e, code), cs in sorted(byc.items(), key=str):
        top = [c for c, a, own in cs if own]
        general = [c for c in top if all(p.is_subclass(d.full, c.full) for d, _, _ in cs)]
        ck.judge(len(general) == 1 and (len(code) == 5), "unique", code, "%s:%d" % (m.rel, cs[0][0].node.lineno),
                 "%s is denoted by %s" % (code, ", ".join(sorted({c.name for c in top}))))
    ck.count("codes", len(byc))
    ck.at_least("codes", 150)
    # -- class codes: a code's class (xx000) is an ancestor or unrelated by name, never a class of the other family
    for (e, code), cs in sorted(byc.items(), key=str):
        base = byc.get((e, code[:2] + "000"))
        other = byc.get((not e, code[:2] + "000"))
        ck.judge(not (other and not base), "unique", code + ", class", "%s:%d" % (m.rel, cs[0][0].node.lineno), "the class of %s is of the other kind" % code)
    # -- the oracle
    import json, os
    ref = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p07_codes.json")))
    for code, name in sorted(ref.items()):
        have = [c.name for (e, k), cs in byc.items() if k == code for c, a, own in cs if own]
        top = None
        for e in (True, False):
            cs = byc.get((e, code))
            if cs:
                g = [c for c, a, own in cs if own and all(p.is_subclass(d.full, c.full) for d, _, _ in cs)]
                top = g[0].name if g else top
        ck.judge(top is None or top == name, "denotes", code, m.rel, "SQLSTATE %s (%s) is raised as %s" % (code, name, top))
        ck.judge(top is not None, "denotes", code + " present", m.rel, "SQLSTATE %s (%s) denotes no exception any more" % (code, name))
    # -- the lookup
    f = p.func(XC + ":code_lookup")
    ck.func(f)
    code = ("p", "code")
    params = [a.arg for a in f.node.args.args]
    for o in Engine(p, Lookup()).run(f, {params[0]: ("p", "default"), params[1]: ("p", "container"), params[2]: code}, st=State(ts=())):
        ts = o.st.ts
        ck.ok("lookup", "%d steps" % len(ts))
        msg = None
        sl = lambda k: pieces(k)
        if o.kind != "return":
            msg = "raises %s" % show(o.val)
        elif not ts or ts[0][0] != code:
            msg = "does not look for the code itself first"
        elif o.val == ("p", "$hit0"):
            msg = None
        elif o.val == ("p", "$hit1") or o.val == ("p", "default"):
            if len(ts) < 2:
                msg = "does not look for the code's class"
            else:
                k = sl(ts[1][0])
                cut = k[0][-1] if k and k[0][0] == "hole" else None
                good = len(k) == 2 and k[1] == ("lit", "000") and cut is not None and cut[0] == "slice" and cut[1] == code and cut[2] in (NONE, C(0)) and cut[3] == C(2)
                if not good:
                    msg = "looks for %s as the code's class" % show(ts[1][0])
        else:
            msg = "yields %s" % show(o.val)
        if msg:
            ck.finding("lookup", "code_lookup", f.loc(), msg, o.st.trace)
    # -- which lookup is which
    for name, base, cont in (("ErrorLookup", "Error", "code_to_error"), ("WarningLookup", "Warning", "code_to_warning")):
        bs = [b for b in m.bindings.get(name, ()) if b[0] == "value"]
        v = bs[-1][1] if bs else None
        v = v.value if isinstance(v, (ast.Assign, ast.AnnAssign)) else v
        src = ast.unparse(v) if v is not None else ""
        ok = isinstance(v, ast.Call) and p.expr_dotted(m, v.func) == "functools.partial" and [ast.unparse(a) for a in v.args] == ["code_lookup", base, cont] and not v.keywords
        if not bs and name in m.funcs:
            ok = True       # written as a function: decided by the rule below
        ck.judge(ok, "lookup", name, m.rel, "is %s" % src)
    # -- the mapping
    f = p.func(XC + ":map_errors_and_warnings")
    ck.func(f)
    params = [a.arg for a in f.node.args.args]
    import itertools
    for cfg in itertools.product((True, False), (True, False), ("error", "warning", "other"), (None, "special", "general"), (True, False)):
        cls, code, family, cur, pg = cfg
        if not cls and (code or family != "other" or cur or pg) or pg and not code:
            continue
        lo = ("obj", "list", ("objs",))
        st = State(ts=()).hset((lo, "$items"), ("L", (Map.OBJ,)))
        env = {params[0]: lo, params[1]: ("p", "$errors"), params[2]: ("p", "$warnings")}
        st = st.fact(("cmp", "is", ("p", "$code"), NONE), False).fact(("cmp", "is", Map.CUR, NONE), False).fact(("p", "$code"), True).fact(Map.CUR, True)
        want = ()
        if cls and code and family != "other" and cur != "general":
            d = ("p", "$errors" if family == "error" else "$warnings")
            want = ((d, ("p", "$code"), Map.OBJ),) + (((d, ("p", "$pgcode"), Map.OBJ),) if pg else ())
        for o in Engine(p, Map(cfg)).run(f, env, st=st):
            what = "class of kind %s, %s code, the code is %s" % (family, "with" if code else "without", {None: "free", "special": "taken by a subclass", "general": "taken by another class"}[cur])
            ck.judge(o.kind != "raise" and set(o.st.ts) == set(want), "mapping", what, f.loc(),
                     "%s: stores %s" % (what, ", ".join("%s[%s] = %s" % tuple(show(x) for x in e) for e in o.st.ts) or "nothing"), o.st.trace)


# ---------------------------------------------------------------- details
class Raise(EventRule):
    initial = ()
    max_depth = 4

    def inline(self, eng, func):
        return func.module.name == PQ3 and func.cls is not None and func.cls.name == "TypeIO" and func.name not in ("lookup_exception", "_decode_failsafe")

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        V = lambda t, s=st: [Out("v", s, t)]
        if name == "_decode_failsafe":
            return V(args[0])
        if name == "lookup_exception":
            return V(("p", "$class"), st.with_ts(st.ts + (("lookup", args[0] if args else NONE),)))
        if f == ("p", "$class"):
            det = arg(args, kws, 2, "details", NONE)
            c = eng.hget(st, (det, "$items")) if det[0] == "obj" else None
            e = (arg(args, kws, 0, "message", NONE), arg(args, kws, 1, "code", NONE), c[1] if c and c[0] == "D" else det, arg(args, kws, 3, "source", NONE))
            return V(("p", "$exception"), st.with_ts(st.ts + (("make", e),)))
        return None


def details(ck, p):
    cls = p.cls(PQ3 + ":TypeIO")
    for name, source in (("raise_server_error", "SERVER"), ("raise_client_error", "CLIENT")):
        f = p.find_method(cls, name)
        ck.func(f)
        params = [a.arg for a in f.node.args.args]
        em = ("obj", "dict", ("message",))
        ntf = {"S": "severity", "C": "code", "M": "message", "D": "detail", "P": "position", "H": "hint", "p": "internal_position",
               "q": "internal_query", "W": "context", "F": "file", "L": "line", "R": "function"}
        for cause in (NONE, ("p", "$cause")):
            st = State(ts=())
            st = st.hset((em, "$items"), ("D", tuple((C(k.encode()), ("p", "$" + v)) for k, v in ntf.items()) + ((C(b"Z"), ("p", "$unknown")),)))
            outs = Engine(p, Raise()).run(f, {params[1]: em, "cause": cause, "creator": NONE}, self_class=cls.full, st=st)
            for o in outs:
                mk = [e[1] for e in o.st.ts if e[0] == "make"]
                lk = [e[1] for e in o.st.ts if e[0] == "lookup"]
                msg = None
                if o.kind != "raise":
                    msg = "returns"
                elif lk != [("p", "$code")]:
                    msg = "the class is looked up by %s" % [show(x) for x in lk]
                elif len(mk) != 1:
                    msg = "raises %s" % show(o.val)
                else:
                    m, c, d, s = mk[0]
                    rest = {k[2]: v for k, v in d if is_const(k)} if isinstance(d, tuple) and d and isinstance(d[0], tuple) and len(d[0]) == 2 else d
                    if m != ("p", "$message") or c != ("p", "$code") or s != C(source):
                        msg = "message, code and source of the exception are %s, %s, %s" % (show(m), show(c), show(s))
                    elif rest != {v: ("p", "$" + v) for v in ntf.values() if v not in ("code", "message")}:
                        msg = "the details of the exception are %s" % (rest if isinstance(rest, dict) else show(rest))
                ck.judge(msg is None, "details", "%s, %s cause" % (name, "no" if cause == NONE else "with"), f.loc(), "%s: %s" % (name, msg), o.st.trace)
    f = p.find_method(cls, "raise_error")
    ck.func(f)
    # the exception keeps what it is given
    mc = p.cls("postgresql.message:Message")
    f = p.find_method(mc, "__init__")
    ck.func(f)
    params = [a.arg for a in f.node.args.args][1:]
    env = {n: ("p", "$" + n) for n in params}

    class Init(EventRule):
        def may_raise(self, eng, f, node, st):
            return False
    for o in Engine(p, Init()).run(f, env, self_class=None, st=State(ts=())):
        h = o.st.heap
        for n in params:
            v = h.get((SELF, n))
            if n in ("code", "source") and v is None:
                ok = any(t[0] == "cmp" and ("p", "$" + n) in (t[2], t[3]) for t, b in o.st.facts)
            else:
                ok = v == ("p", "$" + n)
            ck.judge(o.kind != "raise" and ok, "details", "Message.%s" % n, f.loc(), "Message keeps %s as its %s" % (show(v or NONE), n), o.st.trace)
    for c in p.subclasses("postgresql.message.Message"):
        if "__init__" in c.methods and c.full != mc.full and c.module.name == XC:
            ck.finding("details", c.full, c.methods["__init__"].loc(), "%s replaces the constructor of Message" % c.name)
    for name, want in (("lookup_exception", "Error"), ("lookup_warning", "Warning")):
        f = p.find_method(cls, name)
        ck.func(f)

        class L(EventRule):
            def may_raise(self, eng, f, node, st):
                return False

            def inline(self, eng, func):
                return False
        for o in Engine(p, L()).run(f, {[a.arg for a in f.node.args.args][1]: ("p", "$code")}, self_class=cls.full, st=State(ts=()), keep_defaults=True):
            cp = call_parts(o.val) if o.kind == "return" else None
            ok = cp is not None and (cp[1] == (("p", "$code"),) and cp[0] == G(XC + ".%sLookup" % want)
                                     or cp[1][:1] == (G(XC + "." + want),) and cp[1][-1] == ("p", "$code") and len(cp[1]) == 3 and "code_lookup" in show(cp[0]))
            ck.judge(ok, "lookup", "TypeIO." + name, f.loc(), "yields %s" % show(o.val), o.st.trace)
