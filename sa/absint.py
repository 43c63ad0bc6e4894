"""Disjunctive abstract interpreter for Python functions.

The abstract domain: an environment and a heap that map locations to *terms*
(a value numbering: constants, parameters, attribute paths, call results,
string concatenations in normal form), a finite set of branch facts, and a
rule-specific typestate.  Loops run to a fixpoint with widening, calls into
the repository are inlined up to a depth, all other calls are opaque and, when
the rule says so, may raise.  No solver is involved and nothing of the
analysed program runs; branch facts are only compared with each other
structurally (plus constants)."""
import ast
import builtins
import sys

from .program import Program, Func, Class, AnalysisBroken, walk_own, py_class

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ terms


def C(v):
    return ("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t[0] == "c"


def G(name):
    return ("g", name)


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        for y in t:
            if isinstance(y, (tuple, frozenset)) and contains(y, x):
                return True
    return False


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        n = tuple(subst(y, a, b) if isinstance(y, (tuple, frozenset)) else y for y in t)
        return n if n != t else t
    if isinstance(t, frozenset):
        return frozenset(subst(y, a, b) if isinstance(y, (tuple, frozenset)) else y for y in t)
    return t


def walk_term(t):
    """every sub-term (tuples headed by a string)"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                if x[0] in ("c", "p", "g"):
                    continue
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))


NUMERIC_TYPES = ("int", "float", "bool", "complex")


def is_num(t):
    if t[0] == "c":
        return t[1] in NUMERIC_TYPES
    if t[0] == "call" and t[1] in (G("builtins.len"), G("builtins.int"), G("builtins.ord"), G("builtins.abs")):
        return True
    if t[0] == "op" and t[1] in ("+", "-", "*", "//", "%", "/", "<<", ">>", "&", "|", "^"):
        return is_num(t[2]) or is_num(t[3])
    return False


def cat(a, b):
    """a + b"""
    if is_const(a) and is_const(b):
        try:
            return C(a[2] + b[2])
        except Exception:
            pass
    if a[0] == "tuple" and b[0] == "tuple":
        return a + b[1:]
    if a[0] == "tuple" and a == ("tuple",):
        return b if b[0] in ("tuple",) else ("cat", (a, b))
    if is_num(a) or is_num(b):
        # normalise:  (x + c1) + c2
        if is_const(b) and a[0] == "op" and a[1] == "+" and is_const(a[3]):
            return mk_add(a[2], C(a[3][2] + b[2]))
        if is_const(a) and not is_const(b):
            return cat(b, a)
        return mk_add(a, b)
    parts = []
    for x in (a, b):
        for p in (x[1] if x[0] == "cat" else (x,)):
            if is_const(p) and p[1] in ("str", "bytes") and p[2] in ("", b"") and parts:
                continue
            if parts and is_const(p) and is_const(parts[-1]) and p[1] == parts[-1][1] and p[1] in ("str", "bytes"):
                parts[-1] = C(parts[-1][2] + p[2])
            else:
                parts.append(p)
    if len(parts) > 1:
        parts = [p for p in parts if not (is_const(p) and p[1] in ("str", "bytes") and len(p[2]) == 0)] or parts[:1]
    if len(parts) == 1:
        return parts[0]
    return ("cat", tuple(parts))


def mk_add(a, b):
    if is_const(b) and b[1] == "int" and b[2] == 0:
        return a
    return ("op", "+", a, b)


def catn(parts, empty):
    r = C(empty)
    for p in parts:
        r = cat(r, p)
    return r


# ------------------------------------------------------------------ state


class State:
    __slots__ = ("env", "heap", "facts", "ts", "exc", "trace", "_key")

    def __init__(self, env=None, heap=None, facts=frozenset(), ts=None, exc=(), trace=()):
        self.env = env or {}
        self.heap = heap or {}
        self.facts = facts
        self.ts = ts
        self.exc = exc
        self.trace = trace
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.env.items()), frozenset(self.heap.items()), self.facts, self.ts, self.exc)
        return self._key

    def _cp(self):
        return State(self.env, self.heap, self.facts, self.ts, self.exc, self.trace)

    def set(self, k, v):
        s = self._cp()
        s.env = dict(self.env)
        s.env[k] = v
        return s

    def unset(self, k):
        if k not in self.env:
            return self
        s = self._cp()
        s.env = dict(self.env)
        del s.env[k]
        return s

    def hset(self, k, v):
        s = self._cp()
        s.heap = dict(self.heap)
        s.heap[k] = v
        return s

    def hdel(self, k):
        if k not in self.heap:
            return self
        s = self._cp()
        s.heap = dict(self.heap)
        del s.heap[k]
        return s

    def fact(self, t, v):
        s = self._cp()
        s.facts = self.facts | {(t, v)}
        return s

    def with_ts(self, ts):
        s = self._cp()
        s.ts = ts
        return s

    def with_exc(self, exc):
        s = self._cp()
        s.exc = exc
        return s

    def step(self, what):
        s = self._cp()
        s.trace = (self.trace + (what,))[-60:]
        s._key = self._key
        return s


class Out:
    __slots__ = ("kind", "st", "val", "node")

    def __init__(self, kind, st, val=None, node=None):
        self.kind, self.st, self.val, self.node = kind, st, val, node

    def __repr__(self):
        return "<Out %s %r>" % (self.kind, self.val)


class Frame:
    def __init__(self, fid, func, parent, args_self=None, module=None):
        self.fid, self.func, self.parent = fid, func, parent
        self.module = module or func.module
        self.self_term = args_self
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.cls_scope = None
        if func is not None:
            collect_locals(func.node, self.locals, self.globals, self.nonlocals)


def collect_locals(fn, loc, glob, nonloc):
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    if isinstance(fn, ast.Lambda):
        return
    comp_targets = set()
    for n in walk_own(fn):
        if isinstance(n, ast.comprehension):
            for m in ast.walk(n.target):
                comp_targets.add(id(m))
    for n in walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp_targets:
            loc.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            loc.add(n.target.id)
    loc -= glob
    loc -= nonloc


class Rule:
    """Hooks; every hook may return None for the default behaviour."""
    max_depth = 6
    recursion = 1
    state_cap = 400
    track_calls_raise = True
    cls_consts = True
    self_type = None

    def inline(self, eng, func):
        return func.module is eng.root.module if eng.root else False

    def types(self, eng):
        return {}

    def call(self, eng, node, f, args, kws, st, fr):
        return None

    def may_raise(self, eng, f, node, st):
        return True

    def setattr(self, eng, node, base, attr, val, st, fr):
        return None

    def getattr(self, eng, node, base, attr, st, fr):
        return None

    def on_yield(self, eng, node, val, st, fr):
        return None

    def on_raise(self, eng, node, exc, st, fr):
        return None

    def on_with(self, eng, node, ctx, st, fr):
        return None

    def on_with_exit(self, eng, node, ctx, kind, val, st, fr):
        return None

    def iter_raises(self, eng, it, node):
        return False

    def iterate(self, eng, it, st):
        """the items a complete iteration of a term gives, with the state after it; None: decided by the engine"""
        return None

    def on_for(self, eng, node, it, st):
        """a for statement starts on a term: outcomes with the term to go over instead, or None"""

    def on_unpack(self, eng, elts, v, st, fr):
        """the term to unpack instead"""
        return None

    def subscript(self, eng, node, base, idx, st, fr):
        return None

    def setitem(self, eng, node, base, idx, val, st, fr):
        return None

    def delete(self, eng, node, base, key, st, fr):
        return None

    def on_branch(self, eng, node, st, truth, fr):
        return None

    def interleave(self, eng, node, st, fr):
        """what may happen before a statement: the states to go on with"""
        return None

    widen_after = 3
    fresh = 0       # how many containers one site may make in one frame (needs unrolled loops)
    generators = False  # a call of a generator function runs it at once and gives what it yielded
    iterators = False   # iter() of a container gives an object that next() and loops use up
    domain = ""

    def distinct(self, eng, a, b):
        """two different terms are known to be different values"""
        return is_const(a) and is_const(b) or self.fresh and len(a) == 2 and len(b) == 2 and a[0] == b[0] == "p" and str(a[1])[:1] == str(b[1])[:1] == "$"

    def module_rule(self, optimized):
        return ModuleRule(optimized)

    def decide(self, eng, t, st):
        """truth of a normalised predicate the engine does not know"""
        return None

    def prune(self, eng, st, where):
        """drop what no longer matters; where is 'loop' or 'return'"""
        return st

    gc = True


_TRANS = {}


def transients(t):
    """call results and loop elements a term mentions"""
    r = _TRANS.get(t)
    if r is None:
        acc = set()
        if isinstance(t, tuple):
            if t and t[0] in ("ret", "elem", "w", "prev", "prevs", "excval", "obj"):
                acc.add(t)
            if not (t and t[0] in ("c", "p", "g")):
                for y in t:
                    if isinstance(y, (tuple, frozenset)):
                        acc |= transients(y)
        elif isinstance(t, frozenset):
            for y in t:
                if isinstance(y, (tuple, frozenset)):
                    acc |= transients(y)
        r = frozenset(acc)
        if len(_TRANS) > 400000:
            _TRANS.clear()
        _TRANS[t] = r
    return r


PURE_BUILTINS = {
    "len", "isinstance", "issubclass", "type", "id", "repr", "str", "bytes", "int", "float", "bool", "tuple", "list",
    "dict", "set", "frozenset", "sorted", "reversed", "range", "zip", "enumerate", "map", "filter", "iter", "abs", "min",
    "max", "sum", "ord", "chr", "hex", "oct", "bin", "callable", "hasattr", "getattr", "memoryview", "bytearray", "any",
    "all", "round", "divmod", "hash", "slice", "format", "object", "super", "ascii", "property", "staticmethod", "classmethod", "globals", "locals", "vars", "dir",
}
# builtins that do not raise for the purpose of exceptional edges
NORAISE = {
    "len", "isinstance", "issubclass", "type", "id", "repr", "str", "bool", "tuple", "list", "dict", "set", "frozenset",
    "range", "zip", "enumerate", "map", "iter", "callable", "hasattr", "super", "sorted", "reversed", "property",
    "staticmethod", "classmethod", "object", "min", "max", "sum", "any", "all", "abs", "locals", "globals", "filter", "hash", "dir", "vars",
}
STR_METHODS = {"replace", "strip", "lstrip", "rstrip", "lower", "upper", "split", "rsplit", "join", "startswith",
               "endswith", "encode", "decode", "format", "rjust", "ljust", "zfill", "find", "index", "count", "splitlines",
               "partition", "rpartition", "isdigit", "isspace", "title", "capitalize"}


SET_METHODS = {"difference": ("-", 0), "union": ("|", 0), "intersection": ("&", 0), "symmetric_difference": ("^", 0), "update": ("|", 1),
               "difference_update": ("-", 1), "intersection_update": ("&", 1), "symmetric_difference_update": ("^", 1)}


class Engine:
    def __init__(self, prog, rule, optimized=True):
        self.prog, self.rule = prog, rule
        self.optimized = optimized
        self.closures = {}
        self.cdefaults = prog.__dict__.setdefault("_cdefaults", {})
        self.cur_closure = None
        self.mclosures = prog.__dict__.setdefault("_mclosures", {})
        self.mcenv = prog.__dict__.setdefault("_mcenv", {})
        self.byteorder = "little"
        self.root = None
        self.depth = 0
        self.stack = []
        self.nstates = 0
        self.npaths = 0
        self.widened = 0
        self.inlined = set()
        self.collecting = set()
        self.callsites = set()
        self._types = {}
        self._modenv = prog.__dict__.setdefault("_modenv", {})
        self.ghmap = prog.__dict__.setdefault("_gheap", {})

    # ------------------------------------------------------------ running
    def run(self, func, args=None, self_class=None, st=None, kwargs=None, keep_defaults=False, salt=()):
        # salt: distinguishes the objects of successive runs that share a state
        """Analyse `func` with symbolic parameters. -> list[Out] (return/raise)"""
        self.root = func
        self._types = dict(self.rule.types(self))
        env = {}
        fr = Frame(("root", func.full) + tuple(salt), func, None)
        a = func.node.args
        st = st or State(ts=getattr(self.rule, "initial", None))
        params = a.posonlyargs + a.args
        given = dict(args or {})
        nd = len(a.defaults)
        for i, p in enumerate(params):
            if p.arg in given:
                v = given[p.arg]
                if i == 0 and func.cls is not None and func.kind == "class" and not func.outer:
                    fr.self_term = v
                if i == 0 and func.cls is not None and func.kind == "plain" and not func.outer:
                    fr.self_term = v
                    self._types.setdefault(v, self_class or func.cls.full)
            elif i == 0 and func.cls is not None and func.kind != "static" and not func.outer:
                v = ("p", "self") if func.kind != "class" else G(func.cls.full)
                fr.self_term = v
                c = self_class or func.cls.full
                if func.kind != "class":
                    self._types.setdefault(v, c)
            else:
                v = None
                if i >= len(params) - nd:
                    d = a.defaults[i - (len(params) - nd)]
                    v = self.default_term(func, d, keep_const=keep_defaults)
                if v is None:
                    v = ("p", p.arg)
            env[(fr.fid, p.arg)] = v
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            v = given.get(p.arg)
            if v is None and d is not None:
                v = self.default_term(func, d, keep_const=keep_defaults)
            env[(fr.fid, p.arg)] = v if v is not None else ("p", p.arg)
        if a.vararg:
            env[(fr.fid, a.vararg.arg)] = given.get(a.vararg.arg, ("p", "*" + a.vararg.arg))
        if a.kwarg:
            env[(fr.fid, a.kwarg.arg)] = given.get(a.kwarg.arg, ("p", "**" + a.kwarg.arg))
        st = st._cp()
        st.env = dict(st.env)
        st.env.update(env)
        outs = self.exec_function_body(func, st, fr)
        self.npaths += len(outs)
        return outs

    def default_term(self, func, d, keep_const):
        """Default expressions that alias globals (len = len, xl = ulong_unpack)
        are resolved; constant defaults stay symbolic unless keep_const."""
        mf = self.module_frame(func.module)
        if isinstance(d, (ast.Name, ast.Attribute)):
            for o in self.ev(d, State(), mf):
                if o.kind == "v" and (o.val[0] == "g" or keep_const):
                    return o.val
                if o.kind == "v" and o.val[0] in ("attr", "fn", "obj", "itemgetter", "attrgetter", "partial", "bmeth", "tuple", "c"):
                    return o.val
            return None
        if keep_const or isinstance(d, (ast.Call, ast.Lambda, ast.Subscript)):
            for o in self.ev(d, State(), mf):
                if o.kind == "v":
                    return o.val
        return None

    def exec_function_body(self, func, st, fr):
        if isinstance(func.node, ast.Lambda):
            outs = []
            for o in self.ev(func.node.body, st, fr):
                outs.append(Out("return" if o.kind == "v" else "raise", o.st, o.val, func.node))
            return outs
        outs = []
        for o in self.exec_block(func.node.body, st, fr):
            if o.kind == "next":
                outs.append(Out("return", o.st, NONE, func.node))
            else:
                outs.append(o)
        return outs

    def module_frame(self, m):
        fr = Frame.__new__(Frame)
        fr.fid, fr.func, fr.parent, fr.module = ("mod", m.name), None, None, m
        fr.self_term, fr.locals, fr.globals, fr.nonlocals, fr.cls_scope = None, set(), set(), set(), None
        return fr

    # ------------------------------------------------------------ globals
    def global_value(self, dotted):
        """Term for a canonical dotted name."""
        prog = self.prog
        d = prog.canon(dotted)
        m, rest = prog.split_dotted(d)
        if m is None:
            return G(d)
        if not rest:
            return G(m.name)
        head, _, tail = rest.partition(".")
        if tail:
            return G(d)
        if prog.func_by_dotted(d) is not None or prog.class_by_dotted(d) is not None:
            b = m.bindings.get(head)
            if b and b[-1][0] in ("func", "class"):
                alt = [x for x in b if x[0] == "import" and "port.optimized" in str(x[1])]
                if alt and self.optimized:
                    return G(prog.canon(alt[0][1]))
                return G(d)
        b = m.bindings.get(head)
        if not b:
            if any(True for _ in m.star):
                r = prog.resolve_in_module(m, head)
                if r and r != d:
                    return self.global_value(r)
            return G(d)
        if any(x[0] == "import" for x in b) and b[-1][0] == "import":
            t = prog.canon(b[-1][1])
            if t != d:
                return self.global_value(t)
        v = self.module_env(m).get(head)
        if v is None or v[0] in ("top", "undef"):
            return G(d)
        return v

    def module_env(self, m):
        key = (m.name, self.optimized, self.rule.domain)
        if key in self._modenv:
            return self._modenv[key]
        self._modenv[key] = {}     # recursion guard
        env = self._modenv[key]
        sub = Engine(self.prog, self.rule.module_rule(self.optimized), self.optimized)
        fr = sub.module_frame(m)
        fr.is_module = True
        st = State()
        for stmt in m.tree.body:
            try:
                outs = sub.exec_stmt(stmt, st, fr)
            except RecursionError:
                outs = []
            nx = [o for o in outs if o.kind == "next"]
            if nx:
                st = nx[0].st
            # make progress visible for recursive lookups
            for (fid, n), v in st.env.items():
                if fid == fr.fid:
                    env[n] = v
        for k, v in st.heap.items():
            self.ghmap[k] = v
        self.keep_closures(sub, st)
        return env

    def keep_closures(self, sub, st):
        self.mclosures.update(sub.closures)
        fids = {x[-1] for x in sub.closures}
        for k, v in st.env.items():
            if k[0] in fids:
                self.mcenv[k] = v

    def class_env(self, cls):
        """Class-level values by interpreting the class body. Cached."""
        cache = self.prog.__dict__.setdefault("_clsenv", {})
        k = (cls.full, self.optimized, self.rule.domain)
        if k in cache:
            return cache[k]
        cache[k] = {}
        sub = Engine(self.prog, self.rule.module_rule(self.optimized), self.optimized)
        fr = sub.module_frame(cls.module)
        fr.fid = ("cls", cls.full)
        fr.cls_scope = cls
        fr.is_module = True
        st = State()
        for stmt in cls.node.body:
            if isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
                outs = [Out("next", st.set((fr.fid, stmt.name), G(cls.full + "." + stmt.name)))]
            else:
                outs = sub.exec_stmt(stmt, st, fr)
            nx = [o for o in outs if o.kind == "next"]
            if nx:
                st = nx[0].st
        env = {n: v for (fid, n), v in st.env.items() if fid == fr.fid}
        for kk, v in st.heap.items():
            self.ghmap[kk] = v
        self.keep_closures(sub, st)
        cache[k] = env
        return env

    def class_attr(self, cls, name):
        """(owner, term) of a class-level attribute through the MRO."""
        for k in self.prog.mro(cls):
            if isinstance(k, Class):
                if name in k.methods or name in k.assigns or name in k.properties:
                    v = self.class_env(k).get(name)
                    return k, v
        return None, None

    def meth(self, c, name):
        """The method a class has under this name; of several definitions, the one its body ends up with."""
        m = self.prog.find_method(c, name)
        if m is not None and m.cls is not None and len(m.cls.variants.get(name, ())) > 1:
            v = self.class_env(m.cls).get(name)
            if v is not None and v[0] == "g":
                for x in m.cls.variants[name]:
                    if x.full == v[1]:
                        return x
        return m

    def hget(self, st, k):
        v = st.heap.get(k)
        if v is None:
            v = self.ghmap.get(k)
        return v

    def type_of(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        if t[0] == "obj" and t[1].startswith("inst:"):
            return t[1][5:]
        if t[0] == "enter":
            return self.type_of(t[1])
        if t[0] == "span":
            return "builtins.str"
        return None

    def cls_of(self, t):
        d = self.type_of(t)
        return self.prog.class_by_dotted(d) if d else None

    # ------------------------------------------------------------ statements
    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        self.nstates += len(out)
        cap = self.rule.state_cap
        if len(out) > cap:
            out = self.merge(out)
        return out

    def merge(self, states):
        """Widening when there are too many disjuncts: join per typestate."""
        self.widened += 1
        groups = {}
        for s in states:
            groups.setdefault((s.ts, s.exc), []).append(s)
        out = []
        for (ts, exc), g in groups.items():
            env, heap = {}, {}
            keys = set().union(*[set(s.env) for s in g])
            for k in keys:
                vs = {s.env.get(k, ("undef", k[1])) for s in g}
                env[k] = vs.pop() if len(vs) == 1 else ("top", k)
            keys = set().union(*[set(s.heap) for s in g])
            for k in keys:
                vs = {s.heap.get(k) for s in g}
                if len(vs) == 1:
                    heap[k] = vs.pop()
                elif k[1] == "$items":
                    heap[k] = join_contents(vs)
                else:
                    heap[k] = ("top", k)
            facts = frozenset.intersection(*[s.facts for s in g])
            out.append(State(env, heap, facts, ts, exc, g[0].trace))
        return out

    def dedupe_outs(self, outs):
        seen, res = set(), []
        for o in outs:
            k = (o.kind, o.val, o.st.key())
            if k not in seen:
                seen.add(k)
                res.append(o)
        return res

    def exec_block(self, body, st, fr):
        cur, outs = [st], []
        for stmt in body:
            nxt = []
            for s in cur:
                for o in self.exec_stmt(stmt, s, fr):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = self.dedupe(nxt)
            if not cur:
                break
        outs = self.dedupe_outs(outs)
        return [Out("next", s) for s in cur] + outs

    def exec_stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken("unhandled statement %s at %s:%d" % (type(n).__name__, fr.module.rel, n.lineno))
        states = self.rule.interleave(self, n, st, fr)
        if states is not None:
            return [o for s in states for o in m(n, s, fr)]
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return [Out("next", st)]

    def s_Global(self, n, st, fr):
        return [Out("next", st)]
    s_Nonlocal = s_Global

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [Out("next", st)]
        return [Out("next", o.st) if o.kind == "v" else stmt_out(o, n) for o in self.ev(n.value, st, fr)]

    def s_Assign(self, n, st, fr):
        outs = []
        for o in self.ev(n.value, st, fr):
            if o.kind != "v":
                outs.append(stmt_out(o, n))
                continue
            cur = [o.st]
            for t in n.targets:
                nx = []
                for s in cur:
                    for a in self.assign(t, o.val, s, fr):
                        if a.kind == "next":
                            nx.append(a.st)
                        else:
                            outs.append(a)
                cur = nx
            outs.extend(Out("next", s) for s in cur)
        return outs

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [Out("next", st)]
        outs = []
        for o in self.ev(n.value, st, fr):
            if o.kind != "v":
                outs.append(stmt_out(o, n))
            else:
                outs.extend(self.assign(n.target, o.val, o.st, fr))
        return outs

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(_as_load(n.target), n.target)
        outs = []
        for o in self.evlist([load, n.value], st, fr):
            if o.kind != "v":
                outs.append(stmt_out(o, n))
                continue
            a, b = o.val
            s = o.st
            # list += x mutates
            if isinstance(n.op, ast.Add) and a[0] == "obj" and a[1] == "list":
                s = self.list_extend(a, b, s)
                outs.append(Out("next", s))
                continue
            for r in self.binop(n.op, a, b, s, n, fr):
                if r.kind != "v":
                    outs.append(stmt_out(r, n))
                else:
                    outs.extend(self.assign(n.target, r.val, r.st, fr))
        return outs

    def frame_for_name(self, name, fr):
        """frame id owning a name assigned in fr"""
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    return p.fid
                p = p.parent
        if name in fr.globals:
            return ("mod", fr.module.name)
        return fr.fid

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            return [Out("next", st.set((self.frame_for_name(t.id, fr), t.id), v))]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, fr)
        if isinstance(t, ast.Attribute):
            outs = []
            for o in self.ev(t.value, st, fr):
                if o.kind != "v":
                    outs.append(stmt_out(o, t))
                    continue
                outs.extend(self.store_attr(t, o.val, t.attr, v, o.st, fr))
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for o in self.evlist([t.value, t.slice], st, fr):
                if o.kind != "v":
                    outs.append(stmt_out(o, t))
                    continue
                b, i = o.val
                h = self.rule.setitem(self, t, b, i, v, o.st, fr)
                if h is not None:
                    outs.extend(h)
                    continue
                outs.extend(self.store_item(t, b, i, v, o.st, fr))
            return outs
        raise AnalysisBroken("assign target %s" % ast.dump(t))

    def store_attr(self, node, base, attr, v, st, fr):
        h = self.rule.setattr(self, node, base, attr, v, st, fr)
        if h is not None:
            return h
        c = self.cls_of(base)
        if c is not None:
            p = self.prog.find_property(c, attr)
            if p and p.get("fset") is not None and self.depth < self.rule.max_depth and self.rule.inline(self, p["fset"]):
                return [Out("next", o.st) if o.kind == "v" else o for o in self.call_func(node, p["fset"], [base, v], (), st, fr)]
        return [Out("next", st.hset((base, attr), v))]

    def store_item(self, node, b, i, v, st, fr):
        cont = self.hget(st, (b, "$items"))
        if cont is not None:
            if cont[0] == "D":
                d = [(k, x) for k, x in cont[1] if k != i]
                if is_const(i) or i[0] in ("g", "attr", "tuple", "obj") or self.absent(i, [k for k, _ in d]):
                    pos = [k for k, x in cont[1]].index(i) if len(d) != len(cont[1]) else len(d)
                    d.insert(pos, (i, v))
                    return [Out("next", st.hset((b, "$items"), ("D", tuple(d))))]
                return [Out("next", st.hset((b, "$items"), ("DS", frozenset(cont[1]) | {(i, v)})))]
            if cont[0] == "DS":
                return [Out("next", st.hset((b, "$items"), ("DS", cont[1] | {(i, v)})))]
            if cont[0] == "L":
                if is_const(i) and i[1] == "int" and -len(cont[1]) <= i[2] < len(cont[1]):
                    L = list(cont[1])
                    L[i[2]] = v
                    return [Out("next", st.hset((b, "$items"), ("L", tuple(L))))]
                return [Out("next", st.hset((b, "$items"), ("S", frozenset(cont[1]) | {v})))]
            if cont[0] == "S":
                return [Out("next", st.hset((b, "$items"), ("S", cont[1] | {v})))]
        return [Out("next", st.hset((b, ("item", i)), v))]

    def unpack(self, elts, v, st, fr):
        h = self.rule.on_unpack(self, elts, v, st, fr)
        if h is not None:
            v = h
        items = self.exact_items(v, st)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = None
        if items is not None:
            if not star and len(items) == len(elts):
                vals = list(items)
            elif star and len(items) >= len(elts) - 1:
                k = star[0]
                after = len(elts) - k - 1
                mid = items[k: len(items) - after]
                vals = list(items[:k]) + [("tuple",) + tuple(mid)] + list(items[len(items) - after:] if after else [])
        if vals is None:
            vals = []
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    vals.append(("slice", v, C(i), C(i - len(elts) + 1) if i < len(elts) - 1 else NONE, NONE))
                elif star and i > star[0]:
                    vals.append(mk_sub(v, C(i - len(elts))))
                else:
                    vals.append(mk_sub(v, C(i)))
        cur, outs = [st], []
        for e, x in zip(elts, vals):
            nx = []
            for s in cur:
                for o in self.assign(e, x, s, fr):
                    if o.kind == "next":
                        nx.append(o.st)
                    else:
                        outs.append(o)
            cur = nx
        return outs + [Out("next", s) for s in cur]

    def s_Delete(self, n, st, fr):
        cur, outs = [st], []
        for t in n.targets:
            nx = []
            for s in cur:
                if isinstance(t, ast.Name):
                    nx.append(s.unset((self.frame_for_name(t.id, fr), t.id)))
                elif isinstance(t, ast.Attribute):
                    for o in self.ev(t.value, s, fr):
                        if o.kind != "v":
                            outs.append(stmt_out(o, t))
                            continue
                        h = self.rule.delete(self, t, o.val, ("attr", t.attr), o.st, fr)
                        if h is not None:
                            for x in h:
                                (nx.append(x.st) if x.kind == "next" else outs.append(x))
                            continue
                        nx.append(o.st.hset((o.val, t.attr), ("deleted",)))
                elif isinstance(t, ast.Subscript):
                    for o in self.evlist([t.value, t.slice], s, fr):
                        if o.kind != "v":
                            outs.append(stmt_out(o, t))
                            continue
                        b, i = o.val
                        h = self.rule.delete(self, t, b, i, o.st, fr)
                        if h is not None:
                            for x in h:
                                (nx.append(x.st) if x.kind == "next" else outs.append(x))
                            continue
                        cont = self.hget(o.st, (b, "$items"))
                        ns = o.st
                        if cont is not None:
                            if cont[0] == "D":
                                ns = ns.hset((b, "$items"), ("D", tuple((k, x) for k, x in cont[1] if k != i)))
                            elif cont[0] == "L":
                                if is_const(i) and i[1] == "int" and -len(cont[1]) <= i[2] < len(cont[1]):
                                    L = list(cont[1])
                                    del L[i[2]]
                                    ns = ns.hset((b, "$items"), ("L", tuple(L)))
                                elif i[0] == "slice_obj" and all(is_const(z) for z in i[1:]):
                                    L = list(cont[1])
                                    del L[slice(*[z[2] for z in i[1:]])]
                                    ns = ns.hset((b, "$items"), ("L", tuple(L)))
                                else:
                                    ns = ns.hset((b, "$items"), ("S", frozenset(cont[1])))
                        nx.append(ns)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    sub = ast.Delete(targets=t.elts)
                    ast.copy_location(sub, n)
                    for o in self.s_Delete(sub, s, fr):
                        (nx.append(o.st) if o.kind == "next" else outs.append(o))
            cur = nx
        return outs + [Out("next", s) for s in cur]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [Out("return", st, NONE, n)]
        return [Out("return", o.st, o.val, n) if o.kind == "v" else stmt_out(o, n) for o in self.ev(n.value, st, fr)]

    def s_Break(self, n, st, fr):
        return [Out("break", st, None, n)]

    def s_Continue(self, n, st, fr):
        return [Out("continue", st, None, n)]

    def s_If(self, n, st, fr):
        outs = []
        for o in self.cond(n.test, st, fr):
            if o.kind == "t":
                outs.extend(self.exec_block(n.body, o.st.step("%d:if-true" % n.lineno), fr))
            elif o.kind == "f":
                outs.extend(self.exec_block(n.orelse, o.st.step("%d:if-false" % n.lineno), fr))
            else:
                outs.append(stmt_out(o, n))
        return self.dedupe_outs(outs)

    def s_Assert(self, n, st, fr):
        outs = []
        for o in self.cond(n.test, st, fr):
            if o.kind == "t":
                outs.append(Out("next", o.st))
            elif o.kind == "f":
                outs.append(Out("raise", o.st, ("exc", "builtins.AssertionError", ("site", n.lineno)), n))
            else:
                outs.append(stmt_out(o, n))
        return outs

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            if st.exc:
                return [Out("raise", st, st.exc[-1], n)]
            # a bare raise outside a handler of this function: re-raises what is current
            return [Out("raise", st, ("exc", "?", ("current",)), n)]
        outs = []
        nodes = [n.exc] + ([n.cause] if n.cause is not None else [])
        for o in self.evlist(nodes, st, fr):
            if o.kind != "v":
                outs.append(stmt_out(o, n))
                continue
            e = self.make_exc(o.val[0])
            s = o.st
            if n.cause is not None:
                s = s.hset((e[2], "__cause__"), o.val[1])
            elif st.exc:
                s = s.hset((e[2], "__context__"), st.exc[-1][2])
            h = self.rule.on_raise(self, n, e, s, fr)
            if h is not None:
                s = h
            outs.append(Out("raise", s, e, n))
        return outs

    def make_exc(self, t):
        c = self.exc_class(t)
        return ("exc", c or "?", t)

    def exc_class(self, t):
        if t[0] == "g":
            return t[1]
        if t[0] == "obj" and t[1].startswith("inst:"):
            return t[1][5:]
        if t[0] in ("call", "ret"):
            f = t[1] if t[0] == "call" else t[2]
            if f[0] == "g":
                if self.prog.class_by_dotted(f[1]) is not None:
                    return f[1]
                pc = py_class(f[1])
                if pc is not None:
                    return f[1]
        if t[0] == "excval":
            return t[1]
        return self._types.get(t)

    def s_Try(self, n, st, fr):
        res = self.exec_block(n.body, st, fr)
        after = []
        for o in res:
            if o.kind == "next":
                after.extend(self.exec_block(n.orelse, o.st, fr) if n.orelse else [o])
            elif o.kind == "raise":
                after.extend(self.handle(n, o, fr))
            else:
                after.append(o)
        after = self.dedupe_outs(after)
        if not n.finalbody:
            return after
        final = []
        for o in after:
            s = o.st
            if o.kind == "raise":
                s = s.with_exc(s.exc + (o.val,))
            for f in self.exec_block(n.finalbody, s, fr):
                fs = f.st.with_exc(o.st.exc) if o.kind == "raise" else f.st
                if f.kind == "next":
                    final.append(Out(o.kind, fs, o.val, o.node))
                else:
                    final.append(Out(f.kind, fs, f.val, f.node))
        return self.dedupe_outs(final)

    def match_exc(self, exc, handler_term):
        """-> 'yes','no','maybe'"""
        cls = exc[1]
        if handler_term[0] == "tuple":
            rs = [self.match_exc(exc, h) for h in handler_term[1:]]
            return "yes" if "yes" in rs else ("maybe" if "maybe" in rs else "no")
        if handler_term[0] == "obj":
            return "maybe"
        if handler_term[0] != "g":
            return "maybe"
        h = self.prog.canon(handler_term[1])
        ph = py_class(h)
        if cls == "?":
            if h in ("builtins.Exception", "builtins.BaseException"):
                return "yes"
            return "maybe"
        if cls == "?B":
            if h == "builtins.BaseException":
                return "yes"
            if h == "builtins.Exception":
                return "no"
            return "maybe"
        if cls.startswith("?:"):      # unknown subclass of
            base = cls[2:]
            r = self.prog.is_subclass(base, h)
            if r:
                return "yes"
            r2 = self.prog.is_subclass(h, base)
            return "maybe" if r2 or r is None else "no"
        r = self.prog.is_subclass(cls, h)
        if r is True:
            return "yes"
        if r is False:
            return "no"
        return "maybe"

    def handle(self, n, o, fr):
        outs = []
        pending = [o.st]
        for h in n.handlers:
            if not pending:
                break
            s0 = pending[0]
            if h.type is None:
                m = [("yes", s0)]
            else:
                m = []
                for t in self.ev(h.type, s0, fr):
                    if t.kind == "v":
                        m.append((self.match_exc(o.val, t.val), t.st, t.val))
                    else:
                        outs.append(t)
            nxt = []
            for item in m:
                how, s = item[0], item[1]
                if how == "no":
                    nxt.append(s)
                    continue
                if how == "maybe":
                    nxt.append(s)
                ev = o.val
                if how == "maybe" and item[2][0] == "g" and ev[1] in ("?", "?B"):
                    ev = ("exc", "?:" + self.prog.canon(item[2][1]), ev[2])
                hs = s.with_exc(s.exc + (ev,)).step("%d:except" % h.lineno)
                if h.name:
                    hs = hs.set((fr.fid, h.name), ev[2])
                for r in self.exec_block(h.body, hs, fr):
                    rs = r.st.with_exc(o.st.exc)
                    if h.name and r.kind in ("next", "break", "continue"):
                        rs = rs.unset((fr.fid, h.name))
                    outs.append(Out(r.kind, rs, r.val, r.node))
            pending = nxt[:1]
        for s in pending:
            outs.append(Out("raise", s, o.val, o.node))
        return outs

    def s_With(self, n, st, fr):
        return self.with_items(n, list(n.items), st, fr)

    def with_items(self, n, items, st, fr):
        if not items:
            return self.exec_block(n.body, st, fr)
        it = items[0]
        outs = []
        for o in self.ev(it.context_expr, st, fr):
            if o.kind != "v":
                outs.append(stmt_out(o, n))
                continue
            ctx = o.val
            h = self.rule.on_with(self, n, ctx, o.st, fr)
            if h is None:
                h = self.default_enter(n, ctx, o.st, fr)
            for e in h:
                if e.kind != "v":
                    outs.append(stmt_out(e, n))
                    continue
                starts = [Out("next", e.st)]
                if it.optional_vars is not None:
                    starts = self.assign(it.optional_vars, e.val, e.st, fr)
                for s in starts:
                    if s.kind != "next":
                        outs.append(s)
                        continue
                    for r in self.with_items(n, items[1:], s.st, fr):
                        x = self.rule.on_with_exit(self, n, ctx, r.kind, r.val, r.st, fr)
                        if x is None:
                            x = self.default_exit(n, ctx, r, fr)
                        outs.extend(x)
        return self.dedupe_outs(outs)

    def default_enter(self, n, ctx, st, fr):
        c = self.cls_of(ctx)
        if c is not None:
            m = self.meth(c, "__enter__")
            if m is not None and self.rule.inline(self, m) and self.depth < self.rule.max_depth:
                return self.call_func(n, m, [ctx], (), st, fr)
        if ctx[0] in ("call", "ret") and (ctx[1] if ctx[0] == "call" else ctx[2]) in (G("builtins.open"), G("io.open")):
            return [Out("v", st, ctx)]
        return [Out("v", st, ("enter", ctx))]

    def default_exit(self, n, ctx, r, fr):
        c = self.cls_of(ctx)
        if c is not None:
            m = self.meth(c, "__exit__")
            if m is not None and self.rule.inline(self, m) and self.depth < self.rule.max_depth:
                if r.kind == "raise":
                    args = [ctx, ("exctype", r.val[2]), r.val[2], ("tb", r.val[2])]
                else:
                    args = [ctx, NONE, NONE, NONE]
                outs = []
                for o in self.call_func(n, m, args, (), r.st, fr):
                    if o.kind != "v":
                        outs.append(Out("raise", o.st, o.val, n))
                        continue
                    if r.kind == "raise":
                        tr = self.truth(o.val, o.st)
                        if tr is not False:
                            outs.append(Out("next", o.st))
                        if tr is not True:
                            outs.append(Out("raise", o.st, r.val, r.node))
                    else:
                        outs.append(Out(r.kind, o.st, r.val, r.node))
                return outs
        return [r]

    def s_FunctionDef(self, n, st, fr):
        f = getattr(n, "_func", None)
        if f is None:
            f = Func(fr.module, "<anon>." + n.name, n, None)
        if getattr(fr, "is_module", False):
            if fr.cls_scope is not None:
                v = G(fr.cls_scope.full + "." + n.name)
                if len(fr.cls_scope.variants.get(n.name, ())) > 1:
                    v = G(f.full)
                    for d in n.args.defaults:
                        for o in self.ev(d, st, fr):
                            if o.kind == "raise":
                                return [o]
            else:
                v = G(fr.module.name + "." + n.name)
        else:
            v = self.closure(f, fr, st)
        cur = [(st, v)]
        for d in reversed(n.decorator_list):
            nx = []
            for s, val in cur:
                for o in self.ev(d, s, fr):
                    if o.kind == "v" and not getattr(fr, "is_module", False):
                        nx.append((o.st, ("call", o.val, (val,), ())))
                    else:
                        nx.append((o.st, val))
            cur = nx or cur
        return [Out("next", s.set((fr.fid, n.name), val)) for s, val in cur]
    s_AsyncFunctionDef = s_FunctionDef

    def closure(self, f, fr, st):
        k = (f.full, getattr(f.node, "lineno", 0), getattr(f.node, "col_offset", 0), fr.fid)
        self.closures[k] = (f, fr)
        for d in list(f.node.args.defaults) + [x for x in f.node.args.kw_defaults if x is not None]:
            o = [o for o in self.ev(d, st, fr) if o.kind == "v"]
            if len(o) == 1:
                self.cdefaults[(k, id(d))] = o[0].val
        return ("fn",) + k

    def s_ClassDef(self, n, st, fr):
        if getattr(fr, "is_module", False):
            pre = fr.cls_scope.full if fr.cls_scope else fr.module.name
            v = G(pre + "." + n.name)
        elif fr.func is not None:
            v = G(fr.func.full + ".<locals>." + n.name)
        else:
            v = ("top", n.lineno)
        return [Out("next", st.set((fr.fid, n.name), v))]

    def s_Import(self, n, st, fr):
        if getattr(fr, "is_module", False):
            r = self.rule.__dict__.get("no_optimized")
        for nm, tgt in fr.module.import_bindings(n):
            if nm == "*":
                continue
            if not self.optimized and "port.optimized" in tgt:
                return [Out("raise", st, ("exc", "builtins.ImportError", ("site", n.lineno)), n)]
            st = st.set((self.frame_for_name(nm, fr), nm), self.import_term(tgt))
        return [Out("next", st)]
    s_ImportFrom = s_Import

    def import_term(self, tgt):
        if tgt == "sys.byteorder":
            return C(self.byteorder)
        return self.global_value(tgt)

    # -------------------------------------------------------------- loops
    def s_While(self, n, st, fr):
        return self.loop(n, st, fr, None)

    def s_For(self, n, st, fr):
        outs = []
        for o in self.ev(n.iter, st, fr):
            if o.kind != "v":
                outs.append(stmt_out(o, n))
                continue
            r = self.rule.on_for(self, n, o.val, o.st)
            for o in r if r is not None else [o]:
                if o.kind != "v":
                    outs.append(stmt_out(o, n))
                    continue
                if o.val[0] == "obj" and o.val[1] == "iter" and self.hget(o.st, (o.val, "$items")) is not None:
                    outs.extend(self.use_up(n, o.val, o.st, fr))
                    continue
                items, ost = self.iterated(o.val, o.st)
                if items is not None and len(items) <= 130:
                    outs.extend(self.unroll(n, items, ost, fr))
                else:
                    if self.rule.iter_raises(self, o.val, n):
                        outs.append(Out("raise", o.st, self.opaque_exc(n, fr), n))
                    outs.extend(self.loop(n, o.st, fr, o.val))
        return self.dedupe_outs(outs)
    s_AsyncFor = s_For

    def use_up(self, n, it, st, fr):
        """a loop over an iterator object, which its body may advance too"""
        outs, cur = [], [st]
        while cur:
            nx = []
            for s in cur:
                items = self.hget(s, (it, "$items"))[1]
                if not items:
                    outs.extend(self.exec_block(n.orelse, s, fr))
                    continue
                s = s.hset((it, "$items"), ("L", items[1:]))
                for a in self.assign(n.target, items[0], s, fr):
                    if a.kind != "next":
                        outs.append(a)
                        continue
                    for r in self.exec_block(n.body, a.st, fr):
                        if r.kind in ("next", "continue"):
                            nx.append(r.st)
                        elif r.kind == "break":
                            outs.append(Out("next", r.st))
                        else:
                            outs.append(r)
            cur = self.dedupe(nx)
        return outs

    def unroll(self, n, items, st, fr):
        cur, outs = [st], []
        for it in items:
            nx = []
            for s in cur:
                for a in self.assign(n.target, it, s, fr):
                    if a.kind != "next":
                        outs.append(a)
                        continue
                    for r in self.exec_block(n.body, a.st, fr):
                        if r.kind in ("next", "continue"):
                            nx.append(r.st)
                        elif r.kind == "break":
                            outs.append(Out("next", r.st))
                        else:
                            outs.append(r)
            cur = self.dedupe(nx)
        for s in cur:
            outs.extend(self.exec_block(n.orelse, s, fr))
        return outs

    def loop(self, n, st, fr, it):
        outs = []
        heads = [st]
        seen = {st.key()}
        vals, facts_seen = {}, set()
        site = (fr.module.rel, n.lineno)

        def note(s):
            for k, v in s.env.items():
                vals.setdefault(("e", k), set()).add(v)
            for k, v in s.heap.items():
                vals.setdefault(("h", k), set()).add(v)
            facts_seen.update(s.facts)
        note(st)
        rounds = 0
        while heads:
            rounds += 1
            if rounds > 60:
                raise AnalysisBroken("loop at %s:%d does not stabilise" % site)
            nxt = []
            for s in heads:
                if it is None:
                    for o in self.cond(n.test, s, fr):
                        if o.kind == "t":
                            nxt.extend(self._body(n, o.st.step("%d:loop" % n.lineno), fr, outs))
                        elif o.kind == "f":
                            outs.extend(self.exec_block(n.orelse, o.st.step("%d:exit" % n.lineno), fr))
                        else:
                            outs.append(stmt_out(o, n))
                else:
                    outs.extend(self.exec_block(n.orelse, s.step("%d:exhausted" % n.lineno), fr))
                    for e in self.elem_outs(it, s, n, fr):
                        if e.kind != "v":
                            outs.append(stmt_out(e, n))
                            continue
                        for a in self.assign(n.target, e.val, e.st, fr):
                            if a.kind != "next":
                                outs.append(a)
                                continue
                            nxt.extend(self._body(n, a.st.step("%d:iter" % n.lineno), fr, outs))
            new = []
            for s in self.dedupe([self.collect(self.rule.prune(self, x, "loop"), (it,)) for x in nxt]):
                if rounds >= self.rule.widen_after:
                    s = self.widen(s, vals, facts_seen, site)
                if s.key() not in seen:
                    seen.add(s.key())
                    new.append(s)
                    note(s)
            heads = new
            outs = self.dedupe_outs(outs)
        return outs

    def collect(self, s, extra=()):
        """forget facts about call results that nothing refers to any more"""
        if not self.rule.gc or not s.facts:
            return s
        bad = [f for f in s.facts if transients(f[0])]
        if not bad:
            return s
        live = set()
        for v in s.env.values():
            live |= transients(v)
        for k, v in s.heap.items():
            live |= transients(k[0])
            live |= transients(v)
        live |= transients(s.exc)
        for x in extra:
            if x is not None:
                live |= transients(x)
        if isinstance(s.ts, (tuple, frozenset)):
            live |= transients(s.ts)
        drop = [f for f in bad if not (transients(f[0]) <= live)]
        if not drop:
            return s
        n = s._cp()
        n.facts = s.facts - frozenset(drop)
        return n

    def widen(self, s, vals, facts_seen, site):
        env, heap = dict(s.env), dict(s.heap)
        ch = False
        for k, v in s.env.items():
            sv = vals.get(("e", k))
            if sv is not None and v not in sv:
                env[k] = ("w", site, k[1])
                ch = True
        for k, v in s.heap.items():
            sv = vals.get(("h", k))
            if sv is not None and v not in sv:
                if k[1] == "$items":
                    heap[k] = join_contents(set(sv) | {v})
                    if heap[k] not in sv and len(sv) > 6:
                        heap[k] = ("S", frozenset([("w", site, k)]))
                else:
                    heap[k] = ("w", site, k[1])
                ch = True
        facts = frozenset(f for f in s.facts if f in facts_seen)
        if not ch and facts == s.facts:
            return s
        return State(env, heap, facts, s.ts, s.exc, s.trace)

    def _body(self, n, s, fr, outs):
        res = []
        for r in self.exec_block(n.body, s, fr):
            if r.kind in ("next", "continue"):
                res.append(r.st)
            elif r.kind == "break":
                outs.append(Out("next", r.st))
            else:
                outs.append(r)
        return res

    def refresh(self, st, t):
        """a term is about to denote a new value: rename older occurrences"""
        old = ("prev", t)
        hit = any(contains(f[0], t) for f in st.facts)
        henv = [k for k, v in st.env.items() if contains(v, t)]
        hheap = [k for k, v in st.heap.items() if (k[1] != "$items" and contains(v, t)) or contains(k[0], t)]
        if not hit and not henv and not hheap:
            return st
        s = st._cp()
        s.facts = frozenset(f for f in st.facts if not contains(f[0], t))
        s.env = dict(st.env)
        for k in henv:
            if not contains(s.env[k], old):
                s.env[k] = subst(s.env[k], t, old)
            else:
                s.env[k] = ("prevs", t)
        s.heap = {}
        for k, v in st.heap.items():
            k2 = k
            if contains(k[0], t):
                k2 = (subst(k[0], t, old) if not contains(k[0], old) else ("prevs", t), k[1])
            if k in hheap and k[1] != "$items":
                v = subst(v, t, old) if not contains(v, old) else ("prevs", t)
            s.heap[k2] = v
        return s

    def elem_outs(self, it, st, n, fr):
        """abstract elements of an iterable"""
        if it[0] == "call" and it[1][0] == "g" and it[1][1].startswith("builtins."):
            f, a = it[1][1][9:], it[2]
            if f == "zip":
                outs = [Out("v", st, ())]
                for x in a:
                    nx = []
                    for o in outs:
                        for e in self.elem_outs(x, o.st, n, fr):
                            nx.append(Out("v", e.st, o.val + (e.val,)))
                    outs = nx
                return [Out("v", o.st, ("tuple",) + o.val) for o in outs]
            if f == "enumerate" and a:
                more = tuple(a[1:]) + tuple(it[3])
                return [Out("v", e.st, ("tuple", ("idx", a[0]) + more, e.val)) for e in self.elem_outs(a[0], st, n, fr)]
            if f == "map" and len(a) == 2:
                outs = []
                for e in self.elem_outs(a[1], st, n, fr):
                    outs.extend(self.call(n, a[0], [e.val], (), e.st, fr))
                return outs
            if f in ("iter", "list", "tuple", "sorted", "reversed", "set", "frozenset") and a:
                return self.elem_outs(a[0], st, n, fr)
            if f == "filter" and len(a) == 2:
                return self.elem_outs(a[1], st, n, fr)
        if it[0] == "map":
            return [Out("v", st, it[1])]
        cont = self.hget(st, (it, "$items"))
        if cont is not None:
            if cont[0] == "S":
                return [Out("v", st, e) for e in cont[1]]
            if cont[0] == "L":
                return [Out("v", st, e) for e in cont[1]]
            if cont[0] == "D":
                return [Out("v", st, k) for k, v in cont[1]]
            if cont[0] == "DS":
                return [Out("v", st, k) for k, v in cont[1]]
        if it[0] == "items":
            cont = self.hget(st, (it[1], "$items"))
            if cont is not None:
                return [Out("v", st, ("tuple", k, v)) for k, v in cont[1]]
        if it[0] == "call" and it[1][0] == "attr" and it[1][2] == "items" and not it[2]:
            e = ("elem", it)
            st = self.refresh(st, e)
            return [Out("v", st, ("tuple", mk_sub(e, C(0)), mk_sub(e, C(1))))]
        e = ("elem", it)
        return [Out("v", self.refresh(st, e), e)]

    def absent(self, x, items):
        """x is known not to be among the items"""
        return all(i != x and self.rule.distinct(self, i, x) for i in items)

    def iterated(self, v, st):
        """the items of a whole iteration, and the state after it; (None, st) if unknown"""
        r = self.rule.iterate(self, v, st)
        if r is None and v[0] == "obj" and v[1] == "iter":
            return self.exact_items(v, st), st.hset((v, "$items"), ("L", ()))
        return r if r is not None else (self.exact_items(v, st), st)

    def exact_items(self, v, st):
        if v[0] == "tuple":
            if any(x[0] == "star" for x in v[1:]):
                return None
            return v[1:]
        if v[0] == "obj":
            cont = self.hget(st, (v, "$items"))
            if cont is not None:
                if cont[0] == "L":
                    return None if any(x[0] == "star" for x in cont[1]) else cont[1]
                if cont[0] == "D":
                    return tuple(k for k, _ in cont[1])
            return None
        if v[0] == "items":
            cont = self.hget(st, (v[1], "$items"))
            if cont is not None and cont[0] == "D":
                return tuple(("tuple", k, x) for k, x in cont[1])
            return None
        if v[0] == "c" and v[1] in ("str", "bytes") and len(v[2]) <= 130:
            return tuple(C(x) for x in v[2])
        if v[0] == "c" and v[1] in ("tuple", "frozenset"):
            return tuple(C(x) for x in v[2])
        if v[0] == "ret" and v[2][0] == "g" and v[2][1].startswith("itertools.") or v[0] == "ret" and v[2][0] == "attr" and v[2][1] == G("itertools.chain"):
            v = ("call", v[2], v[3], v[4])
        if v[0] == "call" and v[1] in (G("itertools.chain"), G("itertools.chain.from_iterable"), ("attr", G("itertools.chain"), "from_iterable")) and not v[3]:
            parts = v[2]
            if v[1] != G("itertools.chain"):
                parts = self.exact_items(v[2][0], st) if v[2] else None
            rs = [self.exact_items(x, st) for x in parts] if parts is not None else [None]
            return tuple(x for r in rs for x in r) if all(r is not None for r in rs) else None
        if v[0] == "call" and v[1][0] == "g":
            f, a = v[1][1], v[2]
            if f == "itertools.repeat" and len(a) == 2 and is_const(a[1]) and a[1][1] == "int" and a[1][2] <= 260:
                return (a[0],) * a[1][2]
            if f == "builtins.map" and len(a) == 2 and a[0] == G("builtins.next") and (a[1][0] == "call" and a[1][1] == G("itertools.cycle") or a[1][0] == "ret" and a[1][2] == G("itertools.cycle")):
                # taken in turn until one is exhausted
                its = self.exact_items((a[1][2] if a[1][0] == "call" else a[1][3])[0], st)
                rs = [self.exact_items(x, st) for x in its] if its is not None else [None]
                if not all(r is not None for r in rs):
                    return None
                out, k = [], 0
                while rs and k < 260 and k // len(rs) < len(rs[k % len(rs)]):
                    out.append(rs[k % len(rs)][k // len(rs)])
                    k += 1
                return tuple(out)
            if f == "builtins.range" and a and all(is_const(x) for x in a):
                try:
                    r = range(*[x[2] for x in a])
                except Exception:
                    return None
                if len(r) <= 260:
                    return tuple(C(i) for i in r)
                return None
            if f in ("builtins.iter", "builtins.tuple", "builtins.list", "builtins.sorted") and len(a) == 1:
                r = self.exact_items(a[0], st)
                if r is not None and f == "builtins.sorted":
                    try:
                        return tuple(sorted(r))
                    except TypeError:
                        return None
                return r
            if f == "builtins.reversed" and len(a) == 1:
                r = self.exact_items(a[0], st)
                return r[::-1] if r is not None else None
            if f == "builtins.zip" and a:
                rs = [self.exact_items(x, st) for x in a]
                # endless repetition takes the length of the others
                known = [len(r) for r in rs if r is not None]
                if known:
                    for i, x in enumerate(a):
                        p = (x[1], x[2]) if x[0] == "call" else (x[2], x[3]) if x[0] == "ret" else (None, ())
                        if rs[i] is None and p[0] == G("itertools.repeat") and len(p[1]) == 1:
                            rs[i] = (p[1][0],) * min(known)
                if all(r is not None for r in rs):
                    return tuple(("tuple",) + z for z in zip(*rs))
                return None
            if f == "builtins.enumerate" and a:
                r = self.exact_items(a[0], st)
                start = a[1] if len(a) > 1 else dict(v[3]).get("start", C(0)) if all(len(k) == 2 for k in v[3]) else None
                if r is not None and start is not None and is_const(start) and start[1] == "int":
                    return tuple(("tuple", C(i), x) for i, x in enumerate(r, start[2]))
        return None

    # ------------------------------------------------------------ conditions
    def cond(self, n, st, fr):
        """yields Out('t'|'f'|'raise')"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            for o in self.cond(n.operand, st, fr):
                yield Out({"t": "f", "f": "t"}.get(o.kind, o.kind), o.st, o.val, o.node)
            return
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [st]
            for i, v in enumerate(n.values):
                nx = []
                for s in cur:
                    for o in self.cond(v, s, fr):
                        if o.kind not in ("t", "f"):
                            yield o
                        elif (o.kind == "t") == isand:
                            if i == len(n.values) - 1:
                                yield o
                            else:
                                nx.append(o.st)
                        else:
                            yield o
                cur = nx
            return
        for o in self.ev(n, st, fr):
            if o.kind != "v":
                yield o
                continue
            for truth in (True, False):
                s = self.assume(o.st, o.val, truth)
                if s is not None:
                    h = self.rule.on_branch(self, n, s, truth, fr)
                    if h is not None:
                        s = h
                    yield Out("t" if truth else "f", s, o.val, n)

    def norm_pred(self, t):
        """(term, polarity) canonical predicate"""
        pol = True
        while t[0] == "not":
            t, pol = t[1], not pol
        if t[0] == "call" and t[1] == G("builtins.bool") and len(t[2]) == 1:
            return self._np(t[2][0], pol)
        if t[0] == "call" and t[1] == G("builtins.len") and len(t[2]) == 1:
            return self._np(t[2][0], pol)
        if t[0] == "cmp":
            op, a, b = t[1], t[2], t[3]
            if op in ("is not", "!=", "not in"):
                t2, p2 = self.norm_pred(("cmp", {"is not": "is", "!=": "==", "not in": "in"}[op], a, b))
                return t2, (not pol) if p2 else pol
            if op == ">":
                op, a, b = "<", b, a
            elif op == ">=":
                op, pol = "<", not pol
            elif op == "<=":
                op, a, b, pol = "<", b, a, not pol
            if op == "==" and (a == NONE or b == NONE):
                op = "is"
            if op in ("==", "is"):
                if is_const(a) and not is_const(b):
                    a, b = b, a
                if op == "is" and b in (TRUE, FALSE):
                    pass
                if op == "==" and is_const(b) and b[1] == "int" and b[2] == 0 and a[0] == "call" and a[1] == G("builtins.len"):
                    return self._np(a[2][0], not pol)
                if op == "==" and not is_const(b) and repr(b) < repr(a):
                    a, b = b, a
                if op == "is" and not is_const(b) and repr(b) < repr(a):
                    a, b = b, a
            if op == "<":
                if is_const(a) and a[1] == "int" and not is_const(b):
                    # c < x  <=>  not (x < c+1)
                    a, b, pol = b, C(a[2] + 1), not pol
                if is_const(b) and b[1] == "int" and a[0] == "call" and a[1] == G("builtins.len") and b[2] == 1:
                    return self._np(a[2][0], not pol)
            # x.find(c) < 0  <=>  x.find(c) == -1  <=>  c not in x ; x.count(c) < 1  <=>  c not in x
            if is_const(b) and b[1] == "int" and a[0] == "call" and a[1][0] == "attr" and len(a[2]) == 1 and not a[3]:
                if a[1][2] in ("find", "rfind") and (op, b[2]) in (("<", 0), ("==", -1)) or \
                        a[1][2] == "count" and (op, b[2]) in (("<", 1), ("==", 0)):
                    return ("cmp", "in", a[2][0], a[1][1]), not pol
            return ("cmp", op, a, b), pol
        return t, pol

    def _np(self, t, pol):
        t2, p2 = self.norm_pred(t)
        return t2, (p2 if pol else not p2)

    def truth(self, t, st):
        """True/False/None"""
        t, pol = self.norm_pred(t)
        r = self._truth(t, st)
        if r is None:
            return None
        return r if pol else not r

    def _truth(self, t, st):
        if is_const(t):
            return bool(t[2])
        k = t[0]
        if k == "tuple":
            if any(x[0] == "star" for x in t[1:]):
                pass
            else:
                return len(t) > 1
        if k in ("fn", "bm", "bmeth", "itemgetter", "partial", "exctype", "super"):
            return True
        if k == "g":
            if self.prog.func_by_dotted(t[1]) or self.prog.class_by_dotted(t[1]) or t[1] in self.prog.modules or t[1].startswith("builtins."):
                return True
        if k == "obj":
            cont = self.hget(st, (t, "$items"))
            if cont is not None and cont[0] in ("L", "D"):
                return len(cont[1]) > 0
            if t[1].startswith("inst:"):
                c = self.cls_of(t)
                if c is not None and not self.meth(c, "__len__") and not self.meth(c, "__bool__"):
                    if not any(self.prog.is_subclass(c.full, b) for b in ("builtins.dict", "builtins.list", "builtins.tuple", "builtins.set", "builtins.str", "builtins.bytes", "builtins.int")):
                        return True
        if k == "cat":
            for p in t[1]:
                if is_const(p) and p[1] in ("str", "bytes") and len(p[2]):
                    return True
        if k in ("call", "ret"):
            g = t[1] if k == "call" else t[2]
            if g in (G("builtins.iter"), G("builtins.map"), G("builtins.zip"), G("builtins.filter"), G("builtins.enumerate"), G("itertools.chain")):
                return True
        r = self.rule.decide(self, t, st)
        if r is not None:
            return r
        if k == "cmp":
            r = self.fold_cmp(t, st)
            if r is not None:
                return r
        if k == "call" and t[1] == G("builtins.isinstance") and len(t[2]) == 2:
            r = self.fold_isinstance(t[2][0], t[2][1], st)
            if r is not None:
                return r
        if k == "call" and t[1] == G("builtins.issubclass") and len(t[2]) == 2 and t[2][0][0] == "g" and t[2][1][0] == "g":
            r = self.prog.is_subclass(self.prog.canon(t[2][0][1]), self.prog.canon(t[2][1][1]))
            if r is not None:
                return r
        if (t, True) in st.facts:
            return True
        if (t, False) in st.facts:
            return False
        if k != "cmp":
            if (("cmp", "is", t, NONE), True) in st.facts:
                return False
            v = self.eq_const(t, st)
            if v is not None:
                return bool(v[2])
            v = self.is_const_fact(t, st)
            if v is not None:
                return bool(v[2])
        return None

    def eq_const(self, t, st):
        for f, v in st.facts:
            if v and f[0] == "cmp" and f[1] in ("==", "is") and f[2] == t and is_const(f[3]):
                return f[3]
        return None

    def is_const_fact(self, t, st):
        for f, v in st.facts:
            if v and f[0] == "cmp" and f[1] == "is" and f[2] == t and is_const(f[3]):
                return f[3]
        return None

    def fold_isinstance(self, x, c, st):
        tx = self.type_of(x)
        if tx is None:
            if is_const(x):
                tx = "builtins." + x[1]
            elif x[0] == "tuple":
                tx = "builtins.tuple"
            elif x[0] == "obj" and x[1] in ("list", "dict", "set"):
                tx = "builtins." + x[1]
            elif x[0] == "excval" and x[1] not in ("?", "?B"):
                tx = x[1]
        if tx is None:
            return None
        cs = c[1:] if c[0] == "tuple" else (c,)
        rs = []
        for cc in cs:
            if cc[0] != "g":
                return None
            rs.append(self.prog.is_subclass(tx, self.prog.canon(cc[1])))
        if True in rs:
            return True
        if all(r is False for r in rs):
            return False
        return None

    def nonnull(self, t, st):
        """is t known not to be None"""
        if is_const(t):
            return t != NONE
        if t[0] in ("tuple", "obj", "fn", "bm", "bmeth", "cat", "op", "itemgetter", "partial", "map", "super", "new"):
            return True
        if t[0] == "g":
            return bool(self._truth(t, st))
        if t[0] == "call" and t[1][0] == "g" and t[1][1] in ("builtins.len", "builtins.str", "builtins.bytes", "builtins.tuple", "builtins.list", "builtins.int", "builtins.repr", "builtins.set", "builtins.dict", "builtins.range", "builtins.map", "builtins.zip", "builtins.iter"):
            return True
        if t[0] in ("excval", "p") and t == ("p", "self"):
            return True
        if t[0] == "excval":
            return True
        if t[0] == "exctype":
            return True
        if (t, True) in st.facts:
            return True
        if (("cmp", "is", t, NONE), False) in st.facts:
            return True
        v = self.eq_const(t, st)
        if v is not None and v != NONE:
            return True
        for f, val in st.facts:
            if val and f[0] == "call" and f[1] == G("builtins.isinstance") and f[2][0] == t:
                return True
            if val and f[0] == "cmp" and f[1] == "in" and f[2] == t:
                items = self.exact_items(f[3], st)
                if items is not None and NONE not in items:
                    return True
        return False

    def fold_cmp(self, t, st):
        op, a, b = t[1], t[2], t[3]
        if is_const(a) and is_const(b):
            try:
                if op == "==":
                    return a[2] == b[2] if a[1] == b[1] or (a[1] in NUMERIC_TYPES and b[1] in NUMERIC_TYPES) else False
                if op == "is":
                    return a == b
                if op == "<":
                    return a[2] < b[2]
                if op == "in":
                    return a[2] in b[2]
            except TypeError:
                return None
        if op in ("is", "==") and a == b and a[0] not in ("top", "w", "undef"):
            return True
        if op == "is" and b == NONE:
            if self.nonnull(a, st):
                return False
            v = self.eq_const(a, st)
            if v is not None:
                return v == NONE
        if op in ("is", "==") and is_const(b):
            if a[0] in ("obj", "fn", "bm", "g") and not (a[0] == "g" and self._truth(a, st) is None):
                return False
            if a[0] == "tuple" and b[1] != "tuple":
                return False
            v = self.eq_const(a, st)
            if v is not None and not (v == b) and (v[1] == b[1] or v == NONE or b == NONE or v[1] in NUMERIC_TYPES and b[1] not in NUMERIC_TYPES):
                return False
            if v is not None and v == b and op == "==":
                return True
            # truthiness facts
            if (a, True) in st.facts and not b[2]:
                return False
            if (a, False) in st.facts and b[2]:
                return False
            if op == "==" and ((("cmp", "is", a, b), True) in st.facts):
                return True
            if op == "is" and (("cmp", "==", a, b), False) in st.facts:
                return False
            if op == "is" and b == TRUE and ((a, False) in st.facts):
                return False
        if op in ("is", "==") and a[0] == "g" and b[0] == "g" and a != b:
            ka = self.prog.class_by_dotted(a[1]) or self.prog.func_by_dotted(a[1]) or a[1].startswith("builtins.")
            kb = self.prog.class_by_dotted(b[1]) or self.prog.func_by_dotted(b[1]) or b[1].startswith("builtins.")
            if ka and kb:
                return False
        if op == "==" and a[0] == "tuple" and b[0] == "tuple":
            if len(a) != len(b) and not any(x[0] == "star" for x in a[1:] + b[1:]):
                return False
            rs = [self.truth(("cmp", "==", x, y), st) if x != y else True for x, y in zip(a[1:], b[1:])]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        if op == "<" and is_const(b) and b[1] == "int":
            v = self.eq_const(a, st)
            if v is not None and v[1] in NUMERIC_TYPES:
                return v[2] < b[2]
            for f, val in st.facts:
                if f[0] == "cmp" and f[1] == "<" and f[2] == a and is_const(f[3]) and f[3][1] == "int":
                    if val and f[3][2] <= b[2]:
                        return True
                    if not val and f[3][2] >= b[2]:
                        return False
            if a[0] == "call" and a[1] == G("builtins.len") and b[2] <= 0:
                return False
        if op == "==" and is_const(b) and b[1] == "int":
            for f, val in st.facts:
                if f[0] == "cmp" and f[1] == "<" and f[2] == a and is_const(f[3]) and f[3][1] == "int":
                    if val and b[2] >= f[3][2]:
                        return False
                    if not val and b[2] < f[3][2]:
                        return False
        if op == "in":
            items = self.exact_items(b, st)
            if items is None and b[0] == "c" and b[1] in ("str", "bytes") and is_const(a):
                try:
                    return a[2] in b[2]
                except TypeError:
                    return None
            if items is not None and not (b[0] == "c" and b[1] in ("str", "bytes")):
                v = a if is_const(a) else self.eq_const(a, st)
                if a in items:
                    return True
                if v is not None:
                    if v in items:
                        return True
                    if all(is_const(x) for x in items):
                        return False
                rs = [self.truth(("cmp", "==", a, x), st) for x in items]
                if all(r is False for r in rs):
                    return False
                if self.absent(a, items):
                    return False
        return None

    def assume(self, st, t, truth):
        t, pol = self.norm_pred(t)
        if not pol:
            truth = not truth
        r = self._truth(t, st)
        if r is not None:
            return st if r == truth else None
        s = st
        if t[0] == "cmp" and t[1] == "in" and truth:
            pass
        s = s.fact(t, truth)
        # consistency against membership facts
        if t[0] == "cmp" and t[1] in ("==", "is") and is_const(t[3]) and truth:
            for f, v in st.facts:
                if f[0] == "cmp" and f[1] == "in" and f[2] == t[2]:
                    items = self.exact_items(f[3], st)
                    if items is not None and all(is_const(x) for x in items):
                        if v and t[3] not in items:
                            return None
                        if not v and t[3] in items:
                            return None
                if f[0] == "cmp" and f[1] == "<" and f[2] == t[2] and is_const(f[3]) and t[3][1] in NUMERIC_TYPES:
                    try:
                        if (t[3][2] < f[3][2]) != v:
                            return None
                    except TypeError:
                        pass
        return s

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken("unhandled expression %s at %s:%d" % (type(n).__name__, fr.module.rel, getattr(n, "lineno", 0)))
        return m(n, st, fr)

    def evlist(self, nodes, st, fr):
        outs = [Out("v", st, [])]
        res = []
        for n in nodes:
            nx = []
            for o in outs:
                for r in self.ev(n, o.st, fr):
                    if r.kind == "v":
                        nx.append(Out("v", r.st, o.val + [r.val]))
                    else:
                        res.append(r)
            outs = nx
        return res + outs

    def e_Constant(self, n, st, fr):
        return [Out("v", st, C(n.value))]

    def e_Name(self, n, st, fr):
        v = self.lookup(n.id, st, fr)
        if v[0] == "undef" and getattr(fr, "is_module", False):
            return [Out("raise", st, ("exc", "builtins.NameError", ("site", n.lineno)), n)]
        return [Out("v", st, v)]

    def lookup(self, name, st, fr):
        f = fr
        # comprehension variables live in the frame too
        v = st.env.get((fr.fid, name))
        if v is not None:
            return v
        if name in fr.locals and fr.func is not None and name not in fr.globals:
            if not getattr(fr, "is_module", False):
                return ("undef", name)
        p = fr.parent
        while p is not None:
            v = st.env.get((p.fid, name))
            if v is None:
                v = self.mcenv.get((p.fid, name))
            if v is not None:
                return v
            if name in p.locals:
                return ("free", name)
            p = p.parent
        if getattr(fr, "cls_scope", None) is not None:
            v = st.env.get((("mod", fr.module.name), name))
            if v is not None:
                return v
        v = st.env.get((("mod", fr.module.name), name))
        if v is not None:
            return v
        m = fr.module
        if getattr(fr, "is_module", False):
            # module body in execution: later bindings are not there yet
            if fr.cls_scope is not None:
                me = self._modenv.get((m.name, self.optimized, self.rule.domain))
                if me is not None and name in me:
                    return me[name]
            elif name in m.bindings and not self._bound_by_star(m, name):
                if hasattr(builtins, name):
                    return G("builtins." + name)
        d = self.prog.resolve_in_module(m, name)
        if d is not None:
            if not self.optimized and "port.optimized" in d:
                return ("undef", name)
            return self.global_value(d)
        if hasattr(builtins, name):
            return G("builtins." + name)
        return ("undef", name)

    def _bound_by_star(self, m, name):
        return name not in m.bindings

    def e_Attribute(self, n, st, fr):
        outs = []
        for o in self.ev(n.value, st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            outs.extend(self.load_attr(n, o.val, n.attr, o.st, fr))
        return outs

    def load_attr(self, n, base, attr, st, fr):
        h = self.rule.getattr(self, n, base, attr, st, fr)
        if h is not None:
            return h
        if attr == "__class__" :
            tc = self.type_of(base)
            if tc:
                return [Out("v", st, G(tc))]
            if base[0] == "tuple":
                return [Out("v", st, G("builtins.tuple"))]
            if is_const(base):
                return [Out("v", st, G("builtins." + base[1]))]
            if base[0] == "obj" and base[1] in ("list", "dict", "set"):
                return [Out("v", st, G("builtins." + base[1]))]
            return [Out("v", st, ("call", G("builtins.type"), (base,), ()))]
        if base[0] == "g":
            d = base[1]
            hv = st.heap.get((base, attr))
            if hv is not None:
                return [Out("v", st, hv)]
            if d in self.prog.modules:
                return [Out("v", st, self.global_value(d + "." + attr))]
            c = self.prog.class_by_dotted(d)
            if c is not None:
                owner, v = self.class_attr(c, attr)
                if owner is not None:
                    m = self.meth(c, attr)
                    if m is not None and m.cls is owner and attr in owner.methods and (v is None or v[0] == "g"):
                        if m.kind == "class":
                            return [Out("v", st, ("bm", base, m.full))]
                        return [Out("v", st, G(m.full))]
                    if v is not None:
                        w = self.wrapped(v, base)
                        return [Out("v", st, v if w is None else w)]
                return [Out("v", st, ("attr", base, attr))]
            return [Out("v", st, G(d + "." + attr))]
        if base[0] == "super":
            return [Out("v", st, ("supm", base, attr))]
        hv = self.hget(st, (base, attr))
        if hv is not None:
            return [Out("v", st, hv)]
        c = self.cls_of(base)
        if c is not None:
            p = self.prog.find_property(c, attr)
            if p is not None and p.get("fget") is not None:
                g = p["fget"]
                if self.depth < self.rule.max_depth and self.rule.inline(self, g) and g.full not in self.stack:
                    return self.call_func(n, g, [base], (), st, fr)
                return [Out("v", st, ("attr", base, attr))]
            m = self.meth(c, attr)
            if m is not None:
                if m.kind == "static":
                    return [Out("v", st, G(m.full))]
                if m.kind == "class":
                    return [Out("v", st, ("bm", G(c.full), m.full))]
                owner, v = self.class_attr(c, attr)
                w = self.wrapped(v, G(c.full.replace(":", "."))) if v is not None else None
                if w is not None:
                    return [Out("v", st, w)]
                if owner is m.cls:
                    return [Out("v", st, ("bm", base, m.full))]
            owner, v = self.class_attr(c, attr)
            if owner is not None and v is not None and self.rule.cls_consts:
                # property(...) objects are not values
                if v[0] in ("call", "ret") and (v[1] if v[0] == "call" else v[2]) == G("builtins.property"):
                    return self.load_property_obj(n, base, attr, v, st, fr)
                if v[0] == "call" and v[1] == G("builtins.staticmethod"):
                    return [Out("v", st, v[2][0])]
                if v[0] in ("c", "tuple", "g", "fn", "itemgetter") or (v[0] == "obj" and not v[1].startswith("inst")):
                    if not self.instance_assigned(c, attr):
                        if v[0] == "g" and self.prog.func_by_dotted(v[1]) is not None and (self.prog.func_by_dotted(v[1]).cls is not None and self.prog.func_by_dotted(v[1]).kind == "plain"):
                            return [Out("v", st, ("bm", base, v[1]))]
                        return [Out("v", st, v)]
        return [Out("v", st, ("attr", base, attr))]

    def wrapped(self, v, cls):
        """the value of a class attribute made with classmethod(f) or staticmethod(f)"""
        if v[0] == "call" and len(v[2]) == 1:
            if v[1] == G("builtins.staticmethod"):
                return v[2][0]
            if v[1] == G("builtins.classmethod") and v[2][0][0] == "g":
                return ("bm", cls, v[2][0][1])
        return None

    def load_property_obj(self, n, base, attr, v, st, fr):
        args = v[2] if v[0] == "call" else v[3]
        kws = v[3] if v[0] == "call" else v[4]
        g = None
        if args:
            g = args[0]
        for k, x in kws:
            if k == "fget":
                g = x
        if g is not None and self.depth < self.rule.max_depth:
            if g[0] == "attrgetter":
                return self.call(n, g, [base], (), st, fr)
            f = self.prog.func_by_dotted(g[1]) if g[0] == "g" else (self.closures[g[1:]][0] if g[0] == "fn" and g[1:] in self.closures else None)
            if f is not None and self.rule.inline(self, f):
                return self.call(n, g, [base], (), st, fr)
        return [Out("v", st, ("attr", base, attr))]

    def instance_assigned(self, c, attr):
        """is self.<attr> ever assigned in the class or its relatives?"""
        cache = self.prog.__dict__.setdefault("_inst_assigned", {})
        k = c.full
        if k not in cache:
            names = set()
            rel = [x for x in self.prog.mro(c) if isinstance(x, Class)]
            for x in rel:
                for f in x.methods.values():
                    for nd in ast.walk(f.node):
                        if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, (ast.Store, ast.Del)):
                            names.add(nd.attr)
                for ps in x.properties.values():
                    for f in ps.values():
                        for nd in ast.walk(f.node):
                            if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, (ast.Store, ast.Del)):
                                names.add(nd.attr)
            cache[k] = names
        return attr in cache[k]

    def e_Subscript(self, n, st, fr):
        outs = []
        for o in self.evlist([n.value, n.slice], st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            b, i = o.val
            h = self.rule.subscript(self, n, b, i, o.st, fr)
            if h is not None:
                outs.extend(h)
                continue
            outs.extend(self.load_item(n, b, i, o.st, fr))
        return outs

    def load_item(self, n, b, i, st, fr):
        cont = self.hget(st, (b, "$items"))
        if cont is not None and cont[0] == "D":
            for k, v in cont[1]:
                if k == i:
                    return [Out("v", st, v)]
            if b[0] == "obj" and self.absent(i, [k for k, _ in cont[1]]):
                return [Out("raise", st, ("exc", "builtins.KeyError", ("site", n.lineno)), n)]
            # key unknown: one of the values, or a KeyError
            iv = self.eq_const(i, st)
            if iv is not None:
                for k, v in cont[1]:
                    if k == iv:
                        return [Out("v", st, v)]
            outs = []
            for k, v in cont[1]:
                s = self.assume(st, ("cmp", "==", i, k), True)
                if s is not None:
                    outs.append(Out("v", s, v))
            if outs and len(outs) <= 24:
                return outs + [Out("raise", st, ("exc", "builtins.KeyError", ("site", n.lineno)), n)]
        if cont is not None and cont[0] == "L":
            if is_const(i) and i[1] == "int":
                if -len(cont[1]) <= i[2] < len(cont[1]):
                    return [Out("v", st, cont[1][i[2]])]
                return [Out("raise", st, ("exc", "builtins.IndexError", ("site", n.lineno)), n)]
            if i[0] == "slice_obj" and all(is_const(z) for z in i[1:]):
                return [self.new_list(cont[1][slice(*[z[2] for z in i[1:]])], st, n, fr)]
        if cont is not None and cont[0] == "S" and i[0] != "slice_obj":
            if len(cont[1]) <= 8:
                return [Out("v", st, e) for e in cont[1]]
        if cont is not None and cont[0] == "S" and i[0] == "slice_obj":
            o = self.new_list((), st, n, fr)
            return [Out("v", o.st.hset((o.val, "$items"), cont), o.val)]
        hv = st.heap.get((b, ("item", i)))
        if hv is not None:
            return [Out("v", st, hv)]
        if i[0] == "slice_obj":
            return [Out("v", st, mk_slice(b, i))]
        return [Out("v", st, mk_sub(b, i))]

    def e_Slice(self, n, st, fr):
        parts = [x for x in (n.lower, n.upper, n.step)]
        outs = [Out("v", st, ())]
        res = []
        for p in parts:
            nx = []
            for o in outs:
                if p is None:
                    nx.append(Out("v", o.st, o.val + (NONE,)))
                else:
                    for r in self.ev(p, o.st, fr):
                        if r.kind == "v":
                            nx.append(Out("v", r.st, o.val + (r.val,)))
                        else:
                            res.append(r)
            outs = nx
        return res + [Out("v", o.st, ("slice_obj",) + o.val) for o in outs]

    def e_Index(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Tuple(self, n, st, fr):
        return self._seq(n, st, fr, "tuple")

    def e_List(self, n, st, fr):
        return self._seq(n, st, fr, "list")

    def e_Set(self, n, st, fr):
        return self._seq(n, st, fr, "set")

    def _seq(self, n, st, fr, kind):
        outs = []
        for o in self.evlist([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            items, exact = [], True
            for e, v in zip(n.elts, o.val):
                if isinstance(e, ast.Starred):
                    x = self.exact_items(v, o.st)
                    if x is not None:
                        items.extend(x)
                    else:
                        items.append(("star", v))
                        exact = False
                else:
                    items.append(v)
            if kind == "tuple":
                outs.append(Out("v", o.st, ("tuple",) + tuple(items)))
            else:
                outs.append(self.new_list(items, o.st, n, fr, kind, exact))
        return outs

    def new_list(self, items, st, n, fr, kind="list", exact=True):
        ob = self.alloc(kind, n, fr, st)
        if exact:
            if kind == "set":
                u = []
                for i in items:
                    if i not in u:
                        u.append(i)
                items = u
            c = ("L", tuple(items))
        else:
            c = ("S", frozenset(("elem", i[1]) if i[0] == "star" else i for i in items))
        return Out("v", st.hset((ob, "$items"), c), ob)

    def alloc(self, kind, n, fr, st=None):
        site = (fr.module.rel, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))
        r = ("obj", kind, site, fr.fid)
        if self.rule.fresh and st is not None:
            i = 0
            while ((r, "$items") in st.heap or (r, "$made") in st.heap) and i < self.rule.fresh:
                i += 1
                r = ("obj", kind, site + (i,), fr.fid)
        return r

    def e_Dict(self, n, st, fr):
        outs = []
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        for o in self.evlist(nodes, st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            vals = list(o.val)
            items, exact = {}, True
            for k, v in zip(n.keys, n.values):
                if k is not None:
                    kk = vals.pop(0)
                    items[kk] = vals.pop(0)
                else:
                    src = vals.pop(0)
                    c = self.hget(o.st, (src, "$items"))
                    if c is not None and c[0] == "D":
                        items.update(dict(c[1]))
                    else:
                        exact = False
                        items[("elem", src)] = ("sub", src, ("elem", src))
            ob = self.alloc("dict", n, fr, o.st if getattr(self.rule, "fresh_dicts", False) else None)
            c = ("D", tuple(items.items())) if exact else ("DS", frozenset(items.items()))
            outs.append(Out("v", o.st.hset((ob, "$items"), c), ob))
        return outs

    def e_JoinedStr(self, n, st, fr):
        outs = []
        nodes = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        for o in self.evlist(nodes, st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            r = C("")
            for v, t in zip(n.values, o.val):
                if isinstance(v, ast.FormattedValue):
                    conv = {-1: "s", 115: "s", 114: "r", 97: "a"}[v.conversion]
                    if v.format_spec is not None:
                        t = ("fmt", ast.unparse(v.format_spec), t)
                    else:
                        t = fmt_piece(conv, t)
                r = cat(r, t)
            outs.append(Out("v", o.st, r))
        return outs

    def e_FormattedValue(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_UnaryOp(self, n, st, fr):
        outs = []
        for o in self.ev(n.operand, st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            v = o.val
            if isinstance(n.op, ast.Not):
                t = self.truth(v, o.st)
                outs.append(Out("v", o.st, C(not t) if t is not None else ("not", v)))
            elif isinstance(n.op, ast.USub) and is_const(v):
                outs.append(Out("v", o.st, C(-v[2])))
            elif isinstance(n.op, ast.Invert) and is_const(v):
                outs.append(Out("v", o.st, C(~v[2])))
            else:
                outs.append(Out("v", o.st, ("un", {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)], v)))
        return outs

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
           ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}

    def e_BinOp(self, n, st, fr):
        outs = []
        for o in self.evlist([n.left, n.right], st, fr):
            if o.kind != "v":
                outs.append(o)
            else:
                outs.extend(self.binop(n.op, o.val[0], o.val[1], o.st, n, fr))
        return outs

    def binop(self, op, a, b, st, n, fr):
        o = self.OPS[type(op)]
        if is_const(a) and is_const(b) and o != "**":
            try:
                import operator
                f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
                     "%": operator.mod, "<<": operator.lshift, ">>": operator.rshift, "|": operator.or_, "&": operator.and_,
                     "^": operator.xor}[o]
                r = f(a[2], b[2])
                if not (isinstance(r, (str, bytes, int)) and hasattr(r, "__len__") and len(r) > 100000):
                    return [Out("v", st, C(r))]
            except Exception:
                pass
        if o == "+":
            if a[0] == "obj" and a[1] == "list" and b[0] == "obj" and b[1] == "list":
                ca, cb = self.hget(st, (a, "$items")), self.hget(st, (b, "$items"))
                if ca and cb and ca[0] == "L" and cb[0] == "L":
                    return [self.new_list(ca[1] + cb[1], st, n, fr)]
                if ca and cb:
                    ob = self.alloc("list", n, fr)
                    return [Out("v", st.hset((ob, "$items"), ("S", frozenset(ca[1]) | frozenset(cb[1]))), ob)]
            return [Out("v", st, cat(a, b))]
        if o in ("-", "|", "&", "^") and a[0] == b[0] == "obj" and a[1] == b[1] == "set":
            r = self.set_op(o, self.exact_items(a, st), self.exact_items(b, st))
            if r is not None:
                return [self.new_list(r, st, n, fr, "set")]
        if o == "-" and is_const(b) and b[1] == "int" and a[0] == "op" and a[1] == "+" and is_const(a[3]):
            return [Out("v", st, mk_add(a[2], C(a[3][2] - b[2])))]
        if o == "-" and is_const(b) and b[1] == "int":
            return [Out("v", st, mk_add(a, C(-b[2])))]
        if o == "%" and (is_const(a) and a[1] in ("str", "bytes") or a[0] == "cat"):
            r = self.percent(a, b, st)
            if r is not None:
                return [Out("v", st, r)]
        if o == "*" and is_const(a) and a[1] in ("int", "float") and not is_const(b):
            a, b = b, a
        if o == "*" and is_const(b) and b[1] == "int" and b[2] <= 64 and (a[0] == "tuple" or a[0] == "obj" and a[1] == "list"):
            it = self.exact_items(a, st)
            if it is not None and len(it) * b[2] <= 260:
                it = tuple(it) * b[2]
                return [Out("v", st, ("tuple",) + it)] if a[0] == "tuple" else [self.new_list(it, st, n, fr)]
        return [Out("v", st, ("op", o, a, b))]

    def set_op(self, o, x, y):
        if x is None or y is None:
            return None
        both = [i for i in x if i in y]
        if any(i not in both and not self.absent(i, y) for i in x):
            return None
        if o == "-":
            return [i for i in x if i not in both]
        if o == "&":
            return both
        if o == "|":
            return list(x) + [i for i in y if i not in both]
        return [i for i in x if i not in both] + [i for i in y if i not in both]

    def percent(self, fmt, args, st):
        if not is_const(fmt):
            return None
        import re
        isb = fmt[1] == "bytes"
        s = fmt[2].decode("latin1") if isb else fmt[2]
        items = self.exact_items(args, st) if args[0] in ("tuple",) else None
        single = items is None
        parts, pos, ai = [], 0, 0
        for m in re.finditer(r"%(?:\(([^)]*)\))?([-#0 +]*)(\d*|\*)(?:\.(\d+))?([a-zA-Z%])", s):
            lit = s[pos:m.start()]
            if lit:
                parts.append(C(lit.encode("latin1") if isb else lit))
            pos = m.end()
            if m.group(5) == "%":
                parts.append(C(b"%" if isb else "%"))
                continue
            if m.group(1) is not None:
                cont = self.hget(st, (args, "$items"))
                v = None
                if cont is not None and cont[0] == "D":
                    v = dict(cont[1]).get(C(m.group(1)))
                if v is None:
                    v = mk_sub(args, C(m.group(1)))
            elif single:
                if ai == 0 and args[0] not in ("p", "attr", "call", "ret", "sub", "elem") or True:
                    v = args if ai == 0 else mk_sub(args, C(ai))
                ai += 1
            else:
                if ai >= len(items):
                    return None
                v = items[ai]
                ai += 1
            c = m.group(5)
            if m.group(2) or m.group(3) or m.group(4):
                parts.append(("fmt", m.group(0), v))
            else:
                parts.append(fmt_piece({"d": "d", "i": "d", "s": "s", "r": "r"}.get(c, c), v))
        lit = s[pos:]
        if lit:
            parts.append(C(lit.encode("latin1") if isb else lit))
        return catn(parts, b"" if isb else "")

    def e_Compare(self, n, st, fr):
        OPN = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
               ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
        outs = []
        for o in self.evlist([n.left] + n.comparators, st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            if len(n.ops) == 1:
                t = ("cmp", OPN[type(n.ops[0])], o.val[0], o.val[1])
                r = self.truth(t, o.st)
                outs.append(Out("v", o.st, C(r) if r is not None else t))
            else:
                # chain: conjunction; fork
                ts = [("cmp", OPN[type(op)], o.val[i], o.val[i + 1]) for i, op in enumerate(n.ops)]
                cur = [o.st]
                for t in ts:
                    nx = []
                    for s in cur:
                        a = self.assume(s, t, True)
                        if a is not None:
                            nx.append(a)
                        b = self.assume(s, t, False)
                        if b is not None:
                            outs.append(Out("v", b, FALSE))
                    cur = nx
                outs.extend(Out("v", s, TRUE) for s in cur)
        return outs

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        outs, cur = [], [st]
        for i, v in enumerate(n.values):
            nx = []
            last = i == len(n.values) - 1
            for s in cur:
                for o in self.ev(v, s, fr):
                    if o.kind != "v":
                        outs.append(o)
                        continue
                    if last:
                        outs.append(o)
                        continue
                    a = self.assume(o.st, o.val, True)
                    b = self.assume(o.st, o.val, False)
                    go, stop = (a, b) if isand else (b, a)
                    if go is not None:
                        nx.append(go)
                    if stop is not None:
                        val = o.val
                        if o.val[0] in ("cmp", "not"):
                            val = FALSE if isand else TRUE
                        outs.append(Out("v", stop, val))
            cur = nx
        return outs

    def e_IfExp(self, n, st, fr):
        outs = []
        for o in self.cond(n.test, st, fr):
            if o.kind == "t":
                outs.extend(self.ev(n.body, o.st, fr))
            elif o.kind == "f":
                outs.extend(self.ev(n.orelse, o.st, fr))
            else:
                outs.append(o)
        return outs

    def e_Lambda(self, n, st, fr):
        f = getattr(n, "_func", None)
        if f is None:
            f = n._func = Func(fr.module, "<lambda@%d:%d>" % (n.lineno, n.col_offset), n, fr.func.cls if fr.func else None)
        return [Out("v", st, self.closure(f, fr, st))]

    def e_NamedExpr(self, n, st, fr):
        outs = []
        for o in self.ev(n.value, st, fr):
            if o.kind == "v":
                outs.append(Out("v", o.st.set((fr.fid, n.target.id), o.val), o.val))
            else:
                outs.append(o)
        return outs

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        outs = []
        vs = self.ev(n.value, st, fr) if n.value is not None else [Out("v", st, NONE)]
        for o in vs:
            if o.kind != "v":
                outs.append(o)
                continue
            if fr.fid in self.collecting:
                outs.append(Out("v", self.yielded(fr, [o.val], o.st), NONE))
                continue
            h = self.rule.on_yield(self, n, o.val, o.st, fr)
            if h is not None:
                outs.extend(h)
            else:
                t = ("sent", (fr.module.rel, n.lineno))
                outs.append(Out("v", self.refresh(o.st, t), t))
        return outs

    def e_YieldFrom(self, n, st, fr):
        outs = []
        for o in self.ev(n.value, st, fr):
            if o.kind == "v" and fr.fid in self.collecting:
                it, s = self.iterated(o.val, o.st)
                outs.append(Out("v", self.yielded(fr, it if it is not None else [("star", o.val)], s), NONE))
            elif o.kind == "v":
                it = self.exact_items(o.val, o.st) if self.rule.fresh else None
                if it is not None:
                    cur = [o.st]
                    for x in it:
                        nx = []
                        for s in cur:
                            h = self.rule.on_yield(self, n, x, s, fr)
                            for r in (h if h is not None else [Out("v", s, NONE)]):
                                if r.kind == "v":
                                    nx.append(r.st)
                                else:
                                    outs.append(r)
                        cur = nx
                    outs.extend(Out("v", s, NONE) for s in cur)
                    continue
                h = self.rule.on_yield(self, n, ("elem", o.val), o.st, fr)
                outs.extend(h if h is not None else [Out("v", o.st, ("sent", n.lineno))])
            else:
                outs.append(o)
        return outs

    def yielded(self, fr, items, st):
        k = (("yields", fr.fid), "$items")
        had = st.heap[k]
        if had[0] != "L":
            return st.hset(k, ("S", frozenset(had[1]) | frozenset(items)))
        return st.hset(k, ("L", had[1] + tuple(items)))

    # comprehensions
    def e_ListComp(self, n, st, fr):
        return self.comp(n, [n.elt], "list", st, fr)

    def e_SetComp(self, n, st, fr):
        return self.comp(n, [n.elt], "set", st, fr)

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, [n.elt], "gen", st, fr)

    def e_DictComp(self, n, st, fr):
        return self.comp(n, [n.key, n.value], "dict", st, fr)

    def comp(self, n, elts, kind, st, fr):
        """Exact when all iterables are exact (bounded); otherwise a summary."""
        g0 = n.generators[0]
        outs = []
        for o in self.ev(g0.iter, st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            outs.extend(self._comp(n, elts, kind, o.val, o.st, fr))
        return outs

    def _comp(self, n, elts, kind, it0, st, fr):
        saved = {}
        names = set()
        for g in n.generators:
            for m in ast.walk(g.target):
                if isinstance(m, ast.Name):
                    names.add(m.id)
        for nm in names:
            saved[nm] = st.env.get((fr.fid, nm))

        def restore(s):
            s2 = s._cp()
            s2.env = dict(s.env)
            for nm, v in saved.items():
                if v is None:
                    s2.env.pop((fr.fid, nm), None)
                else:
                    s2.env[(fr.fid, nm)] = v
            return s2
        exact = True
        srcs = []

        # states: list of (State, results tuple)
        def gen(level, s, acc):
            """yield (state, acc, exact?)"""
            nonlocal exact
            if level == len(n.generators):
                res = []
                for o in self.evlist(elts, s, fr):
                    if o.kind == "v":
                        res.append((o.st, acc + (tuple(o.val),)))
                    else:
                        raises.append(o)
                return res
            g = n.generators[level]
            its = [Out("v", s, it0)] if level == 0 else self.ev(g.iter, s, fr)
            result = []
            for io in its:
                if io.kind != "v":
                    raises.append(io)
                    continue
                items, ist = self.iterated(io.val, io.st)
                if items is not None and len(items) <= 260:
                    cur = [(ist, acc)]
                    for x in items:
                        nx = []
                        for cs, ca in cur:
                            for a in self.assign(g.target, x, cs, fr):
                                if a.kind != "next":
                                    raises.append(a)
                                    continue
                                oks = [a.st]
                                skips = []
                                for cnd in g.ifs:
                                    n2 = []
                                    for q in oks:
                                        for c in self.cond(cnd, q, fr):
                                            if c.kind == "t":
                                                n2.append(c.st)
                                            elif c.kind == "f":
                                                skips.append(c.st)
                                            else:
                                                raises.append(c)
                                    oks = n2
                                for q in oks:
                                    nx.extend(gen(level + 1, q, ca))
                                nx.extend((q, ca) for q in skips)
                        # cap
                        if len(nx) > 64:
                            exact = False
                            nx = nx[:64]
                        cur = nx
                    result.extend(cur)
                else:
                    exact = False
                    srcs.append(io.val)
                    if self.rule.iter_raises(self, io.val, n):
                        raises.append(Out("raise", io.st, self.opaque_exc(n, fr), n))
                    got = []
                    for e in self.elem_outs(io.val, io.st, n, fr):
                        if e.kind != "v":
                            raises.append(e)
                            continue
                        for a in self.assign(g.target, e.val, e.st, fr):
                            if a.kind != "next":
                                raises.append(a)
                                continue
                            oks = [a.st]
                            for cnd in g.ifs:
                                n2 = []
                                for q in oks:
                                    for c in self.cond(cnd, q, fr):
                                        if c.kind == "t":
                                            n2.append(c.st)
                                        elif c.kind not in ("f",):
                                            raises.append(c)
                                oks = n2
                            for q in oks:
                                got.extend(gen(level + 1, q, ()))
                    vals = tuple(v for _, a in got for v in a)
                    # one state continues: before the loop; typestates may differ
                    tss = {}
                    for q, _ in got:
                        tss.setdefault((q.ts), q)
                    base = [io.st] + [q for t, q in tss.items() if t != io.st.ts]
                    for b in base:
                        s3 = b._cp()
                        s3.facts = b.facts & io.st.facts
                        result.append((s3, acc + vals))
            return result

        raises = []
        outs = []
        for s, acc in gen(0, st, ()):
            s = restore(s)
            if kind == "dict":
                ob = self.alloc("dict", n, fr)
                if exact:
                    d = {}
                    for k, v in acc:
                        d[k] = v
                    c = ("D", tuple(d.items()))
                else:
                    c = ("DS", frozenset(acc))
                outs.append(Out("v", s.hset((ob, "$items"), c), ob))
            else:
                vals = [a[0] for a in acc]
                if exact:
                    outs.append(self.new_list(vals, s, n, fr, "list" if kind == "gen" else kind))
                else:
                    ob = self.alloc("list" if kind == "gen" else kind, n, fr)
                    s2 = s.hset((ob, "$items"), ("S", frozenset(vals)))
                    s2 = s2.hset((ob, "$src"), tuple(srcs))
                    outs.append(Out("v", s2, ob))
        return raises + outs

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        outs = []
        nodes = [n.func] + [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        for o in self.evlist(nodes, st, fr):
            if o.kind != "v":
                outs.append(o)
                continue
            f = o.val[0]
            args = []
            for a, v in zip(n.args, o.val[1:]):
                if isinstance(a, ast.Starred):
                    x = self.exact_items(v, o.st)
                    if x is not None:
                        args.extend(x)
                    else:
                        args.append(("star", v))
                else:
                    args.append(v)
            kws = []
            for k, v in zip(n.keywords, o.val[1 + len(n.args):]):
                if k.arg is None:
                    cont = self.hget(o.st, (v, "$items"))
                    if cont is not None and cont[0] == "D" and all(is_const(kk) for kk, _ in cont[1]):
                        kws.extend((kk[2], vv) for kk, vv in cont[1])
                    else:
                        kws.append(("**", v))
                else:
                    kws.append((k.arg, v))
            outs.extend(self.call(n, f, args, tuple(kws), o.st, fr))
        return outs

    def call(self, n, f, args, kws, st, fr):
        args = list(args)
        self.callsites.add((fr.module.rel, getattr(n, "lineno", 0), getattr(n, "col_offset", 0)))
        h = self.rule.call(self, n, f, args, kws, st, fr)
        if h is not None:
            return h
        if f == G("builtins.super") and not args:
            if fr.func is not None and fr.func.cls is not None:
                return [Out("v", st, ("super", fr.self_term or ("p", "self"), fr.func.cls.full))]
        if f[0] == "supm":
            c = self.prog.class_by_dotted(f[1][2])
            selfcls = self.cls_of(f[1][1]) or (self.prog.class_by_dotted(f[1][1][1]) if f[1][1][0] == "g" else None) or c
            mro = self.prog.mro(selfcls)
            names = [x.full if isinstance(x, Class) else x for x in mro]
            start = names.index(c.full) + 1 if c.full in names else 0
            for x in mro[start:]:
                if isinstance(x, Class) and f[2] in x.methods:
                    m = x.methods[f[2]]
                    if self.can_inline(m):
                        return self.call_func(n, m, [f[1][1]] + args, kws, st, fr)
                    break
            return self.opaque(n, ("attr", f[1], f[2]), args, kws, st, fr)
        b = self.builtin_call(n, f, args, kws, st, fr)
        if b is not None:
            return b
        if f[0] == "partial":
            return self.call(n, f[1], list(f[2]) + args, tuple(f[3]) + tuple(kws), st, fr)
        if f[0] == "fn":
            fn, pfr = self.closures.get(f[1:]) or self.mclosures[f[1:]]
            if self.depth < self.rule.max_depth and self.stack.count(fn.full) < 2:
                return self.call_func(n, fn, args, kws, st, fr, parent=pfr, closure=f[1:])
            return self.opaque(n, f, args, kws, st, fr)
        if f[0] == "bm":
            m = self.prog.func_by_dotted(f[2])
            if m is not None and self.can_inline(m):
                return self.call_func(n, m, [f[1]] + args, kws, st, fr)
            return self.opaque(n, f, args, kws, st, fr)
        if f[0] == "g":
            m = self.prog.func_by_dotted(f[1])
            if m is not None:
                if self.can_inline(m):
                    return self.call_func(n, m, args, kws, st, fr)
                return self.opaque(n, f, args, kws, st, fr)
            c = self.prog.class_by_dotted(f[1])
            if c is not None:
                return self.instantiate(n, c, args, kws, st, fr)
        return self.opaque(n, f, args, kws, st, fr)

    def can_inline(self, m):
        return (self.depth < self.rule.max_depth and self.stack.count(m.full) < self.rule.recursion and (not m.is_gen or self.rule.generators)
                and self.rule.inline(self, m))

    def instantiate(self, n, c, args, kws, st, fr):
        ob = ("obj", "inst:" + c.full, (fr.module.rel, getattr(n, "lineno", 0), getattr(n, "col_offset", 0)), fr.fid)
        st = self.refresh(st, ob)
        st = st.hset((ob, "$args"), ("args", tuple(args), tuple(kws)))
        init = self.meth(c, "__init__")
        new = self.meth(c, "__new__")
        outs = []
        if init is not None and new is None and self.can_inline(init):
            for o in self.call_func(n, init, [ob] + args, kws, st, fr):
                outs.append(Out("v", o.st, ob) if o.kind == "v" else o)
            return outs
        outs.append(Out("v", st, ob))
        if self.rule.may_raise(self, G(c.full), n, st):
            outs.append(Out("raise", st, self.opaque_exc(n, fr), n))
        return outs

    def opaque_exc(self, n, fr, cls="?"):
        return ("exc", cls, ("excval", cls, (fr.module.rel, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))))

    def opaque(self, n, f, args, kws, st, fr, pure=False):
        outs = []
        if pure:
            t = ("call", f, tuple(args), tuple(kws))
        else:
            t = ("ret", (fr.module.rel, getattr(n, "lineno", 0), getattr(n, "col_offset", 0)), f, tuple(args), tuple(kws))
            st = self.refresh(st, t)
            st = self.havoc_for(f, args, st)
        if self.rule.may_raise(self, f, n, st):
            outs.append(Out("raise", st, self.opaque_exc(n, fr), n))
        outs.append(Out("v", st, t))
        return outs

    def havoc_for(self, f, args, st):
        """opaque calls may change containers they are given"""
        tgt = []
        for a in args:
            if a[0] == "obj" and a[1] in ("list", "dict", "set"):
                tgt.append(a)
        for a in tgt:
            c = st.heap.get((a, "$items"))
            if c is not None and c[0] in ("L", "D"):
                # callee might mutate; keep contents (callees in this code base
                # receive fresh containers), rules may override
                pass
        return st

    def call_func(self, n, func, args, kws, st, fr, parent=None, closure=None):
        """inline a repository function"""
        if func.is_gen and not self.rule.generators:
            t = ("gen", func.full, tuple(args), tuple(kws), (fr.module.rel, getattr(n, "lineno", 0)))
            return [Out("v", st, t)]
        fid = (fr.fid, (getattr(n, "lineno", 0), getattr(n, "col_offset", 0)), func.full)
        nf = Frame(fid, func, parent)
        self.cur_closure = closure
        bound = self.bind(func, args, kws, st, nf)
        self.cur_closure = None
        if bound is None:
            return self.opaque(n, G(func.full), args, kws, st, fr)
        s = st._cp()
        s.env = dict(st.env)
        for k, v in bound.items():
            s.env[(fid, k)] = v
        if func.cls is not None and func.kind != "static" and func.node.args.args:
            nf.self_term = bound.get(func.node.args.args[0].arg)
        saved_exc = s.exc
        self.depth += 1
        self.stack.append(func.full)
        self.inlined.add(func.full)
        if func.is_gen:
            # run to its end at once
            s = s.hset((("yields", fid), "$items"), ("L", ()))
            self.collecting.add(fid)
        try:
            outs = self.exec_function_body(func, s, nf)
        finally:
            self.depth -= 1
            self.stack.pop()
        if func.is_gen:
            nx = []
            for o in outs:
                got = o.st.heap[(("yields", fid), "$items")]
                s2 = o.st._cp()
                s2.heap = {k: v for k, v in o.st.heap.items() if k[0] != ("yields", fid)}
                if o.kind == "return":
                    ob = self.alloc("iter" if self.rule.iterators else "list", n, nf, s2)
                    nx.append(Out("return", s2.hset((ob, "$items"), got), ob, o.node))
                else:
                    nx.append(Out(o.kind, s2, o.val, o.node))
            outs = nx
        res = []
        keep = any(k[-1] == fid for k in self.closures)
        for o in outs:
            s2 = o.st
            if not keep:
                s2 = s2._cp()
                s2.env = {k: v for k, v in o.st.env.items() if k[0] != fid}
            s2 = self.collect(self.rule.prune(self, s2, "return"), (o.val,))
            if o.kind == "return":
                res.append(Out("v", s2, o.val, o.node))
            else:
                res.append(Out("raise", s2, o.val, o.node))
        return self.dedupe_outs(res)

    def bind(self, func, args, kws, st, nf):
        a = func.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        pos = list(args)
        kwd = {}
        dstar = None
        for k, v in kws:
            if k == "**":
                dstar = v
            else:
                kwd[k] = v
        i = 0
        star = None
        rest = []
        for x in pos:
            if x[0] == "star":
                star = x[1]
                rest.append(x)
                continue
            if star is None and i < len(params):
                bound[params[i]] = x
                i += 1
            else:
                rest.append(x)
        if a.vararg:
            if star is not None and len(rest) == 1 and rest[0][0] == "star" and i >= len(params):
                bound[a.vararg.arg] = star
            else:
                bound[a.vararg.arg] = ("tuple",) + tuple(rest)
        elif rest and star is None:
            return None
        nd = len(a.defaults)
        for j, p in enumerate(params):
            if p in bound:
                continue
            if p in kwd:
                bound[p] = kwd.pop(p)
            elif star is not None and j >= i and not a.vararg:
                bound[p] = mk_sub(star, C(j - i))
            elif j >= len(params) - nd:
                d = a.defaults[j - (len(params) - nd)]
                bound[p] = self.eval_default(func, d, st)
            elif dstar is not None:
                bound[p] = mk_sub(dstar, C(p))
            elif star is not None:
                bound[p] = mk_sub(star, C(j - i))
            else:
                return None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwd:
                bound[p.arg] = kwd.pop(p.arg)
            elif d is not None:
                bound[p.arg] = self.eval_default(func, d, st)
            else:
                return None
        if a.kwarg:
            if dstar is not None and not kwd:
                bound[a.kwarg.arg] = dstar
            else:
                ob = ("obj", "dict", ("kw", func.full, func.node.lineno), nf.fid)
                bound[a.kwarg.arg] = ob
                st.heap[(ob, "$items")] = ("D", tuple((C(k), v) for k, v in kwd.items())) if dstar is None else ("DS", frozenset([(C(k), v) for k, v in kwd.items()] + [(("elem", dstar), mk_sub(dstar, ("elem", dstar)))]))
                st._key = None
        elif kwd:
            return None
        return bound

    def eval_default(self, func, d, st):
        if self.cur_closure is not None:
            v = self.cdefaults.get((self.cur_closure, id(d)))
            if v is not None:
                return v
        mf = self.module_frame(func.module)
        if func.cls is not None:
            mf.fid = ("cls", func.cls.full)
            mf.cls_scope = func.cls
            env = self.class_env(func.cls)
            s = State()
            s.env = {(mf.fid, k): v for k, v in env.items()}
        else:
            s = State()
        for o in self.ev(d, s, mf):
            if o.kind == "v":
                for k, v in o.st.heap.items():
                    self.ghmap.setdefault(k, v)
                return o.val
        return ("top", "default")

    # builtin models --------------------------------------------------------
    def builtin_call(self, n, f, args, kws, st, fr):
        V = lambda t, s=st: [Out("v", s, t)]
        if f[0] == "itemgetter" and len(args) == 1:
            if len(f[1]) == 1:
                return self.load_item(n, args[0], f[1][0], st, fr)
            return V(("tuple",) + tuple(mk_sub(args[0], i) for i in f[1]))
        if f[0] == "attrgetter" and len(args) == 1:
            cur = [Out("v", st, args[0])]
            for p in f[1].split("."):
                nx = []
                for o in cur:
                    nx.extend(self.load_attr(n, o.val, p, o.st, fr) if o.kind == "v" else [o])
                cur = nx
            return cur
        if f[0] == "g":
            nm = f[1]
            if nm == "operator.itemgetter" and args:
                return V(("itemgetter", tuple(args)))
            if nm == "operator.attrgetter" and args and is_const(args[0]):
                return V(("attrgetter", args[0][2]))
            if nm == "functools.partial" and args:
                return V(("partial", args[0], tuple(args[1:]), tuple(kws)))
            if nm == "sys.exc_info" and st.exc:
                e = st.exc[-1]
                return V(("tuple", ("exctype", e[2]), e[2], ("tb", e[2])))
            if nm.startswith("builtins."):
                return self.py_builtin(n, nm[9:], args, kws, st, fr)
            return None
        if f[0] == "attr":
            return self.method_call(n, f[1], f[2], args, kws, st, fr)
        return None

    def py_builtin(self, n, nm, args, kws, st, fr):
        V = lambda t, s=st: [Out("v", s, t)]
        if nm == "getattr" and len(args) >= 2 and is_const(args[1]) and args[1][1] == "str":
            r = self.load_attr(n, args[0], args[1][2], st, fr)
            if len(args) == 3 and len(r) == 1 and r[0].kind == "v" and r[0].val == ("attr", args[0], args[1][2]):
                return V(("call", G("builtins.getattr"), tuple(args), ()))
            return r
        if nm == "setattr" and len(args) == 3 and is_const(args[1]):
            return [Out("v", o.st, NONE) if o.kind == "next" else o for o in self.store_attr(n, args[0], args[1][2], args[2], st, fr)]
        if self.rule.iterators and nm == "iter" and len(args) == 1:
            if args[0][0] == "obj" and args[0][1] == "iter":
                return V(args[0])
            it, st = self.iterated(args[0], st)
            if it is not None:
                ob = self.alloc("iter", n, fr, st)
                return V(ob, st.hset((ob, "$items"), ("L", tuple(it))))
        if nm == "next" and args and isinstance(n, ast.Call) and len(n.args) == len(args) and isinstance(n.args[0], ast.GeneratorExp):
            # the generator is nobody else's: what it would give after its first item is never asked for
            it = self.exact_items(args[0], st)
            if it:
                return V(it[0])
            if it is not None:
                return V(args[1]) if len(args) > 1 else [Out("raise", st, ("exc", "builtins.StopIteration", ("site", n.lineno)), n)]
        if nm == "next" and args and args[0][0] == "obj" and args[0][1] == "iter":
            it = self.hget(st, (args[0], "$items"))[1]
            if it:
                return V(it[0], st.hset((args[0], "$items"), ("L", it[1:])))
            if len(args) > 1:
                return V(args[1])
            return [Out("raise", st, ("exc", "builtins.StopIteration", ("site", n.lineno)), n)]
        if nm == "len" and len(args) == 1:
            it = self.exact_items(args[0], st)
            if it is not None:
                return V(C(len(it)))
            if is_const(args[0]) and args[0][1] in ("str", "bytes"):
                return V(C(len(args[0][2])))
        if nm in ("tuple", "list", "set", "frozenset") and not kws:
            if not args:
                return V(("tuple",)) if nm == "tuple" else [self.new_list((), st, n, fr, "set" if nm == "frozenset" else nm)]
            if len(args) == 1:
                it, st = self.iterated(args[0], st)
                if it is not None:
                    return V(("tuple",) + tuple(it), st) if nm == "tuple" else [self.new_list(it, st, n, fr, "set" if nm == "frozenset" else nm)]
                cont = self.hget(st, (args[0], "$items"))
                if cont is not None and cont[0] == "S":
                    ob = self.alloc("list" if nm == "tuple" else ("set" if nm == "frozenset" else nm), n, fr)
                    s = st.hset((ob, "$items"), cont)
                    src = self.hget(st, (args[0], "$src"))
                    if src is not None:
                        s = s.hset((ob, "$src"), src)
                    return V(ob, s)
                if args[0][0] == "call" and args[0][1] == G("builtins.map") and len(args[0][2]) == 2 and nm in ("tuple", "list"):
                    outs = []
                    for o in self.elem_outs(args[0], st, n, fr):
                        if o.kind != "v":
                            outs.append(o)
                            continue
                        ob = self.alloc("list", n, fr)
                        s = o.st.hset((ob, "$items"), ("S", frozenset([o.val])))
                        s = s.hset((ob, "$src"), (args[0][2][1],))
                        outs.append(Out("v", s, ob))
                    return outs
                if nm in ("list",):
                    ob = self.alloc("list", n, fr)
                    s = st.hset((ob, "$items"), ("S", frozenset([("elem", args[0])])))
                    s = s.hset((ob, "$src"), (args[0],))
                    return V(ob, s)
        if nm == "dict":
            if not args:
                ob = self.alloc("dict", n, fr)
                if any(k == "**" for k, v in kws):
                    return V(ob, st.hset((ob, "$items"), ("DS", frozenset((C(k), v) for k, v in kws))))
                return V(ob, st.hset((ob, "$items"), ("D", tuple((C(k), v) for k, v in kws))))
            if len(args) == 1:
                cont = self.hget(st, (args[0], "$items"))
                ob = self.alloc("dict", n, fr)
                if cont is not None and cont[0] in ("D", "DS"):
                    d = cont
                    if kws:
                        dd = dict(cont[1])
                        dd.update({C(k): v for k, v in kws})
                        d = (cont[0], tuple(dd.items()) if cont[0] == "D" else frozenset(dd.items()))
                    return V(ob, st.hset((ob, "$items"), d))
                it = self.exact_items(args[0], st)
                if it is not None:
                    prs = [self.exact_items(x, st) for x in it]
                    if all(p is not None and len(p) == 2 for p in prs):
                        d = {}
                        for a, b in prs:
                            d[a] = b
                        d.update({C(k): v for k, v in kws})
                        return V(ob, st.hset((ob, "$items"), ("D", tuple(d.items()))))
                if cont is not None and cont[0] == "S":
                    prs = [self.exact_items(x, st) for x in cont[1]]
                    if all(p is not None and len(p) == 2 for p in prs):
                        return V(ob, st.hset((ob, "$items"), ("DS", frozenset(tuple(p) for p in prs) | frozenset((C(k), v) for k, v in kws))))
        if nm == "isinstance" and len(args) == 2:
            t = ("call", G("builtins.isinstance"), tuple(args), ())
            r = self.truth(t, st)
            return V(C(r) if r is not None else t)
        if nm in ("any", "all") and len(args) == 1 and not kws:
            it = self.exact_items(args[0], st)
            if it is not None and len(it) <= 12:
                outs, cur, hit = [], [st], nm == "any"
                for x in it:
                    nx = []
                    for s in cur:
                        for truth in (True, False):
                            s2 = self.assume(s, x, truth)
                            if s2 is None:
                                continue
                            if truth is hit:
                                outs.append(Out("v", s2, C(hit)))
                            else:
                                nx.append(s2)
                    cur = nx
                return outs + [Out("v", s, C(not hit)) for s in cur]
        if nm == "type" and len(args) == 1:
            tc = self.type_of(args[0])
            if tc:
                return V(G(tc))
        if nm in ("int", "str", "bytes", "float", "ord", "chr", "hex", "oct", "abs", "min", "max", "bool") and args and all(is_const(a) for a in args) and all(is_const(v) for _, v in kws):
            try:
                r = getattr(builtins, nm)(*[a[2] for a in args], **{k: v[2] for k, v in kws})
                return V(C(r))
            except Exception:
                pass
        if nm == "bytes" and len(args) == 1 and not kws:
            it = self.exact_items(args[0], st)
            if it is not None and all(is_const(x) and x[1] == "int" and 0 <= x[2] < 256 for x in it):
                return V(C(bytes(x[2] for x in it)))
        if nm == "str" and len(args) == 1 and args[0][0] == "cat" and not kws:
            return V(args[0])
        if nm == "next":
            t = ("ret", (fr.module.rel, n.lineno, n.col_offset), G("builtins.next"), tuple(args), ())
            s = self.refresh(st, t)
            outs = [Out("v", s, t)]
            if len(args) == 1:
                outs.append(Out("raise", s, ("exc", "builtins.StopIteration", ("excval", "builtins.StopIteration", n.lineno)), n))
            if self.rule.may_raise(self, G("builtins.next"), n, st):
                outs.append(Out("raise", s, self.opaque_exc(n, fr), n))
            return outs
        if nm == "print":
            return V(NONE)
        if nm in PURE_BUILTINS:
            t = ("call", G("builtins." + nm), tuple(args), tuple(kws))
            outs = [Out("v", st, t)]
            if nm not in NORAISE and self.rule.may_raise(self, G("builtins." + nm), n, st):
                outs.append(Out("raise", st, self.opaque_exc(n, fr), n))
            return outs
        c = py_class("builtins." + nm)
        if c is not None and issubclass(c, BaseException):
            return V(("call", G("builtins." + nm), tuple(args), tuple(kws)))
        return None

    def list_extend(self, ob, other, st):
        cont = self.hget(st, (ob, "$items"))
        items = self.exact_items(other, st)
        oc = self.hget(st, (other, "$items"))
        if cont is None:
            return st
        if cont[0] == "L" and items is not None:
            return st.hset((ob, "$items"), ("L", cont[1] + tuple(items)))
        new = set(cont[1])
        if items is not None:
            new |= set(items)
        elif oc is not None:
            new |= set(oc[1]) if oc[0] in ("S", "L") else {k for k, _ in oc[1]}
        else:
            new.add(("elem", other))
        s = st.hset((ob, "$items"), ("S", frozenset(new)))
        return s

    def method_call(self, n, base, m, args, kws, st, fr):
        V = lambda t, s=st: [Out("v", s, t)]
        cont = self.hget(st, (base, "$items"))
        if base[0] == "obj" and cont is not None and base[1] in ("list", "set"):
            exact = cont[0] == "L"
            if m in ("append", "add") and len(args) == 1:
                if exact:
                    if base[1] == "set" and args[0] in cont[1]:
                        return V(NONE)
                    if len(cont[1]) < 260:
                        return V(NONE, st.hset((base, "$items"), ("L", cont[1] + (args[0],))))
                return V(NONE, st.hset((base, "$items"), ("S", frozenset(cont[1]) | {args[0]})))
            if base[1] == "set" and exact and len(args) == 1 and m in SET_METHODS:
                r = self.set_op(SET_METHODS[m][0], cont[1], self.exact_items(args[0], st))
                if r is not None:
                    if SET_METHODS[m][1]:
                        return V(NONE, st.hset((base, "$items"), ("L", tuple(r))))
                    return [self.new_list(r, st, n, fr, "set")]
            if m in ("extend", "update") and len(args) == 1:
                r = self.rule.iterate(self, args[0], st)
                if r is not None:
                    return V(NONE, self.list_extend(base, ("tuple",) + tuple(r[0]), r[1]))
                return V(NONE, self.list_extend(base, args[0], st))
            if m == "insert" and len(args) == 2:
                if exact and is_const(args[0]):
                    L = list(cont[1])
                    L.insert(args[0][2], args[1])
                    return V(NONE, st.hset((base, "$items"), ("L", tuple(L))))
                return V(NONE, st.hset((base, "$items"), ("S", frozenset(cont[1]) | {args[1]})))
            if m == "pop":
                if exact and cont[1] and all(is_const(a) for a in args) and base[1] == "list":
                    L = list(cont[1])
                    i = args[0][2] if args else -1
                    if -len(L) <= i < len(L):
                        v = L.pop(i)
                        return V(v, st.hset((base, "$items"), ("L", tuple(L))))
                if exact and not cont[1]:
                    return [Out("raise", st, ("exc", "builtins.IndexError", ("site", n.lineno)), n)]
                outs = [Out("v", st.hset((base, "$items"), ("S", frozenset(cont[1]))), e) for e in cont[1]]
                outs.append(Out("raise", st, ("exc", "builtins.IndexError", ("site", n.lineno)), n))
                return outs
            if m in ("discard", "remove") and len(args) == 1:
                if exact and args[0] in cont[1]:
                    L = list(cont[1])
                    L.remove(args[0])
                    return V(NONE, st.hset((base, "$items"), ("L", tuple(L))))
                if exact and m == "remove" and self.absent(args[0], cont[1]):
                    return [Out("raise", st, ("exc", "builtins.KeyError" if base[1] == "set" else "builtins.ValueError", ("site", n.lineno)), n)]
                return V(NONE)
            if m == "clear":
                return V(NONE, st.hset((base, "$items"), ("L", ())))
            if m == "copy":
                return [self.new_list(cont[1], st, n, fr, base[1], exact)]
            if m in ("reverse",) and exact:
                return V(NONE, st.hset((base, "$items"), ("L", cont[1][::-1])))
            if m in ("sort",):
                return V(NONE, st.hset((base, "$items"), ("S", frozenset(cont[1]))) if not exact else st)
        if base[0] == "obj" and cont is not None and base[1] == "dict":
            exact = cont[0] == "D"
            if m == "items":
                return V(("items", base))
            if m == "keys" and exact:
                return V(("tuple",) + tuple(k for k, _ in cont[1]))
            if m == "values":
                if exact:
                    return V(("tuple",) + tuple(v for _, v in cont[1]))
                return [self.new_list([v for _, v in cont[1]], st, n, fr, "list", False)]
            if m in ("get", "pop") and args:
                for k, v in cont[1]:
                    if k == args[0] and exact:
                        s = st
                        if m == "pop":
                            s = st.hset((base, "$items"), ("D", tuple(x for x in cont[1] if x[0] != k)))
                        return V(v, s)
                if exact and self.absent(args[0], [k for k, _ in cont[1]]):
                    if len(args) > 1:
                        return V(args[1])
                    if m == "get":
                        return V(NONE)
                    return [Out("raise", st, ("exc", "builtins.KeyError", ("site", n.lineno)), n)]
                outs = []
                if len(cont[1]) <= 24:
                    for k, v in cont[1]:
                        s = self.assume(st, ("cmp", "==", args[0], k), True)
                        if s is not None:
                            outs.append(Out("v", s, v))
                    dflt = args[1] if len(args) > 1 else (NONE if m == "get" else None)
                    s = st
                    for k, v in cont[1]:
                        s = self.assume(s, ("cmp", "==", args[0], k), False) if s is not None else None
                    if s is not None:
                        if dflt is not None:
                            outs.append(Out("v", s, dflt))
                        else:
                            outs.append(Out("raise", s, ("exc", "builtins.KeyError", ("site", n.lineno)), n))
                    return outs
            if m == "setdefault" and args:
                for k, v in cont[1]:
                    if k == args[0] and exact:
                        return V(v)
                if exact and self.absent(args[0], [k for k, _ in cont[1]]):
                    dv = args[1] if len(args) > 1 else NONE
                    return V(dv, st.hset((base, "$items"), ("D", cont[1] + ((args[0], dv),))))
            if m == "update":
                d = dict(cont[1]) if exact else None
                src = self.hget(st, (args[0], "$items")) if args else ("D", ())
                if src is not None and src[0] == "D" and exact and not any(k == "**" for k, _ in kws):
                    d.update(dict(src[1]))
                    d.update({C(k): v for k, v in kws})
                    return V(NONE, st.hset((base, "$items"), ("D", tuple(d.items()))))
                if args and src is None:
                    it = self.exact_items(args[0], st)
                    if it is not None and exact:
                        prs = [self.exact_items(x, st) for x in it]
                        if all(p is not None and len(p) == 2 for p in prs):
                            for a, b in prs:
                                d[a] = b
                            return V(NONE, st.hset((base, "$items"), ("D", tuple(d.items()))))
                new = frozenset(cont[1])
                if src is not None:
                    new |= frozenset(x for x in src[1] if isinstance(x, tuple) and len(x) == 2) if src[0] in ("D", "DS") else frozenset()
                    if src[0] == "S":
                        for x in src[1]:
                            p = self.exact_items(x, st)
                            if p is not None and len(p) == 2:
                                new |= {tuple(p)}
                elif args:
                    new |= {(("elem", args[0]), mk_sub(args[0], ("elem", args[0])))}
                new |= frozenset((C(k), v) for k, v in kws)
                return V(NONE, st.hset((base, "$items"), ("DS", new)))
            if m == "clear":
                return V(NONE, st.hset((base, "$items"), ("D", ())))
            if m == "copy":
                ob = self.alloc("dict", n, fr)
                return V(ob, st.hset((ob, "$items"), cont))
        # strings
        if m == "join" and len(args) == 1 and is_const(base) and base[1] in ("str", "bytes"):
            it = self.exact_items(args[0], st)
            if it is not None:
                parts = []
                for i, x in enumerate(it):
                    if i:
                        parts.append(base)
                    parts.append(x)
                return V(catn(parts, base[2][:0]))
            cont = self.hget(st, (args[0], "$items"))
            if cont is not None and cont[0] == "S":
                src = self.hget(st, (args[0], "$src")) or ()
                return V(("joined", base, cont[1], src))
            return V(("joined", base, frozenset([("elem", args[0])]), (args[0],)))
        if m == "format" and is_const(base) and base[1] == "str":
            r = self.str_format(base[2], args, kws, st)
            if r is not None:
                return V(r)
        if is_const(base) and base[1] in ("str", "bytes") and m in STR_METHODS and all(is_const(a) for a in args) and all(is_const(v) for _, v in kws):
            try:
                r = getattr(base[2], m)(*[a[2] for a in args], **{k: v[2] for k, v in kws})
                if isinstance(r, (str, bytes, int, bool)):
                    return V(C(r))
                if isinstance(r, (list, tuple)):
                    items = [C(x) for x in r]
                    return V(("tuple",) + tuple(items)) if isinstance(r, tuple) else [self.new_list(items, st, n, fr)]
            except Exception:
                pass
        if m in STR_METHODS or m in ("items", "keys", "values", "get", "hex", "group", "groups", "total_seconds", "toordinal"):
            t = ("call", ("attr", base, m), tuple(args), tuple(kws))
            outs = [Out("v", st, t)]
            if m in ("encode", "decode", "index") and self.rule.may_raise(self, ("attr", base, m), n, st):
                outs.append(Out("raise", st, self.opaque_exc(n, fr), n))
            return outs
        return None

    def str_format(self, s, args, kws, st):
        import string
        kw = dict(kws)
        parts, auto = [], 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(C(lit))
                if fld is None:
                    continue
                if any(a[0] == "star" for a in args) and (fld == "" or fld.isdigit()):
                    base = [a for a in args if a[0] == "star"][0][1]
                    i = auto if fld == "" else int(fld)
                    auto += 1
                    v = mk_sub(base, C(i))
                elif fld == "":
                    v = args[auto]
                    auto += 1
                elif fld.isdigit():
                    v = args[int(fld)]
                elif fld in kw:
                    v = kw[fld]
                elif "**" in kw:
                    v = mk_sub(kw["**"], C(fld))
                else:
                    return None
                if spec:
                    v = ("fmt", spec, v)
                else:
                    v = fmt_piece(conv or "s", v)
                parts.append(v)
        except (IndexError, ValueError):
            return None
        return catn(parts, "")


class ModuleRule(Rule):
    """Used for module and class bodies: constant tables only."""
    max_depth = 3
    state_cap = 8

    def __init__(self, optimized):
        self.opt = optimized

    def inline(self, eng, func):
        return False

    def may_raise(self, eng, f, node, st):
        return False

    def call(self, eng, node, f, args, kws, st, fr):
        if f[0] == "g" and eng.prog.class_by_dotted(f[1]) is None and eng.prog.func_by_dotted(f[1]) is None and not f[1].startswith("builtins.") and f[1] not in ("operator.itemgetter", "operator.attrgetter", "functools.partial"):
            return [Out("v", st, ("call", f, tuple(args), tuple(kws)))]
        if f[0] in ("attr",) and f[1][0] in ("call", "g", "attr"):
            return [Out("v", st, ("call", f, tuple(args), tuple(kws)))]
        return None


def fmt_piece(conv, t):
    if conv == "s":
        if is_const(t) and t[1] in ("str", "bytes"):
            return t
        if is_const(t) and t[1] == "int":
            return C(str(t[2]))
        return ("s", t) if t[0] not in ("cat", "s", "joined") else t
    if conv == "d":
        if is_const(t):
            return C(str(t[2]))
        return ("s", t)
    return (conv, t) if conv == "r" else ("fmt", conv, t)


def mk_sub(b, i):
    if b[0] == "tuple" and is_const(i) and i[1] == "int" and not any(x[0] == "star" for x in b[1:]):
        try:
            return b[1:][i[2]]
        except IndexError:
            pass
    if b[0] == "c" and b[1] in ("str", "bytes", "tuple") and is_const(i) and i[1] == "int":
        try:
            return C(b[2][i[2]])
        except IndexError:
            pass
    # x[a:][i] -> x[a+i]
    if b[0] == "slice" and b[4] == NONE and is_const(i) and i[1] == "int" and i[2] >= 0 and is_const(b[2]) and b[2][1] in ("int", "NoneType"):
        a = b[2][2] or 0
        if a >= 0 and b[3] == NONE:
            return ("sub", b[1], C(a + i[2]))
    return ("sub", b, i)


def mk_slice(b, i):
    lo, hi, step = i[1], i[2], i[3]
    if b[0] in ("c",) and all(is_const(x) for x in (lo, hi, step)):
        try:
            return C(b[2][slice(lo[2], hi[2], step[2])])
        except Exception:
            pass
    if b[0] == "tuple" and all(is_const(x) for x in (lo, hi, step)) and not any(x[0] == "star" for x in b[1:]):
        return ("tuple",) + b[1:][slice(lo[2], hi[2], step[2])]
    if lo == C(0):
        lo = NONE
    if lo == NONE and hi == NONE and step == NONE and b[0] == "slice":
        return b
    # x[a:][c:d] with constants
    if b[0] == "slice" and b[4] == NONE and step == NONE and is_const(b[2]) and b[3] == NONE:
        a = b[2][2] or 0
        if a >= 0 and is_const(lo) and (lo[2] or 0) >= 0 and is_const(hi) and (hi[2] is None or hi[2] >= 0):
            return ("slice", b[1], C(a + (lo[2] or 0)) if a + (lo[2] or 0) else NONE, C(a + hi[2]) if hi[2] is not None else NONE, NONE)
    return ("slice", b, lo, hi, step)


def join_contents(vs):
    vs = [v for v in vs if v is not None]
    if all(v[0] in ("L", "S") for v in vs):
        r = frozenset()
        for v in vs:
            r |= frozenset(v[1])
        return ("S", r)
    r = frozenset()
    for v in vs:
        if v[0] in ("D", "DS"):
            r |= frozenset(v[1])
    return ("DS", r)


def stmt_out(o, n):
    return Out(o.kind, o.st, o.val, o.node or n)


def _as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


# ------------------------------------------------------------------ printing

def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if depth > 8:
        return "..."
    d = depth + 1
    if k == "c":
        return repr(t[2])
    if k == "p":
        return t[1]
    if k == "g":
        return t[1].replace("builtins.", "").replace("postgresql.", "")
    if k == "attr":
        return show(t[1], d) + "." + str(t[2])
    if k == "sub":
        return "%s[%s]" % (show(t[1], d), show(t[2], d))
    if k == "slice":
        return "%s[%s:%s]" % (show(t[1], d), "" if t[2] == NONE else show(t[2], d), "" if t[3] == NONE else show(t[3], d))
    if k in ("call", "ret"):
        f, a, kw = (t[1], t[2], t[3]) if k == "call" else (t[2], t[3], t[4])
        return "%s(%s)" % (show(f, d), ", ".join([show(x, d) for x in a] + ["%s=%s" % (x, show(y, d)) for x, y in kw]))
    if k == "cat":
        return " + ".join(show(x, d) for x in t[1])
    if k == "op":
        return "(%s %s %s)" % (show(t[2], d), t[1], show(t[3], d))
    if k == "cmp":
        return "%s %s %s" % (show(t[2], d), t[1], show(t[3], d))
    if k == "not":
        return "not " + show(t[1], d)
    if k == "tuple":
        return "(" + ", ".join(show(x, d) for x in t[1:]) + ")"
    if k == "obj":
        return "<%s@%s>" % (t[1].split(".")[-1], t[2][1] if len(t[2]) > 1 else t[2])
    if k == "s":
        return "str(%s)" % show(t[1], d)
    if k == "r":
        return "repr(%s)" % show(t[1], d)
    if k == "bm":
        return "%s.%s" % (show(t[1], d), t[2].split(".")[-1])
    if k == "elem":
        return "each(%s)" % show(t[1], d)
    if k == "joined":
        return "%s.join(%s)" % (show(t[1], d), "|".join(sorted(show(x, d) for x in t[2])))
    return "%s(%s)" % (k, ", ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in t[1:]))
