"""Which local names may be unbound on an exception path.

Worlds are sets of bound names.  Branches and loops merge optimistically (a branch that binds a name is taken to have been
the one taken, a loop body to have run), so that only exception edges - which the code cannot correlate with a flag it
tested - separate worlds: the entry of a handler or a finally clause, what follows a handled exception, and the name of
a handler after its end."""
import ast
from sa.program import walk_own

CAP = 48


class Flow:
    def __init__(self, fn, locs, noreturn):
        self.fn, self.locs = fn, locs
        self.noreturn = noreturn
        self.found = {}
        self.uses = 0

    # each of the results: normal worlds; self.exc / brk / cont / ret collect the others
    def block(self, stmts, W):
        for s in stmts:
            if not W:
                return W
            W = self.stmt(s, W)
        return W

    def throw(self, W):
        self.exc |= set(W)

    def use(self, e, W):
        if e is None:
            return
        for n in own_expr(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locs:
                self.uses += 1
                if any(n.id not in w for w in W):
                    self.found.setdefault((n.id, n.lineno), n)

    def bind(self, t, W):
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} & self.locs
        return {w | names for w in W} if names else W

    def walrus(self, e, W):
        if e is None:
            return W
        names = {n.target.id for n in own_expr(e) if isinstance(n, ast.NamedExpr)} & self.locs
        return {w | names for w in W} if names else W

    def stmt(self, s, W):
        if len(W) > CAP:
            W = {frozenset.intersection(*W)} | set(list(W)[:2])
        k = type(s).__name__
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s, W)
        # simple statements
        self.use(s, W)
        if raises(s):
            self.throw(W)
        return self.walrus(s, W)

    def s_Expr(self, s, W):
        self.use(s.value, W)
        if raises(s):
            self.throw(W)
        if isinstance(s.value, ast.Call) and called(s.value) in self.noreturn:
            return set()
        return self.walrus(s.value, W)

    def s_Assign(self, s, W):
        self.use(s.value, W)
        for t in s.targets:
            self.use(t, W)
        if raises(s):
            self.throw(W)
        W = self.walrus(s.value, W)
        for t in s.targets:
            W = self.bind(t, W)
        return W

    def s_AnnAssign(self, s, W):
        self.use(s.value, W)
        self.use(s.target, W)
        if raises(s):
            self.throw(W)
        return self.bind(s.target, W) if s.value is not None else W

    def s_AugAssign(self, s, W):
        self.use(s.value, W)
        if isinstance(s.target, ast.Name):
            if s.target.id in self.locs:
                self.uses += 1
                if any(s.target.id not in w for w in W):
                    self.found.setdefault((s.target.id, s.lineno), s.target)
        else:
            self.use(s.target, W)
        if raises(s):
            self.throw(W)
        return self.bind(s.target, W)

    def s_Delete(self, s, W):
        gone = {t.id for t in s.targets if isinstance(t, ast.Name)}
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in self.locs and any(t.id not in w for w in W):
                    self.found.setdefault((t.id, t.lineno), t)
            else:
                self.use(t, W)
        if any(not isinstance(t, ast.Name) for t in s.targets):
            self.throw(W)
        return {w - gone for w in W}

    def s_Import(self, s, W):
        self.throw(W)
        names = {(a.asname or a.name).split(".")[0] for a in s.names}
        return {w | names for w in W}
    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, W):
        return {w | {s.name} for w in W}
    s_AsyncFunctionDef = s_ClassDef = s_FunctionDef

    def s_Global(self, s, W):
        return W
    s_Nonlocal = s_Pass = s_Global

    def s_Return(self, s, W):
        self.use(s.value, W)
        if s.value is not None and raises(s):
            self.throw(W)
        self.ret |= set(W)
        return set()

    def s_Raise(self, s, W):
        self.use(s.exc, W)
        self.use(s.cause, W)
        self.throw(W)
        return set()

    def s_Break(self, s, W):
        self.brk |= set(W)
        return set()

    def s_Continue(self, s, W):
        self.cont |= set(W)
        return set()

    def merge(self, T, E):
        if not T or not E:
            return set(T) | set(E)
        at, ae = frozenset.intersection(*T), frozenset.intersection(*E)
        return {t | ae for t in T} | {e | at for e in E}

    def s_If(self, s, W):
        self.use(s.test, W)
        if raises(s.test):
            self.throw(W)
        W = self.walrus(s.test, W)
        r = set()
        wt, we = self.split(s.test, W)
        for w in set(wt) | set(we):
            T = self.block(s.body, {w}) if w in wt else set()
            E = self.block(s.orelse, {w}) if w in we else set()
            r |= self.merge(T, E)
        return r

    def split(self, test, W):
        """a test that can only be evaluated in one way tells nothing here"""
        if isinstance(test, ast.Constant):
            return (W, set()) if test.value else (set(), W)
        return W, W

    def s_Match(self, s, W):
        self.use(s.subject, W)
        r = set()
        for w in W:
            acc = {w}
            for c in s.cases:
                acc = self.merge(acc, self.block(c.body, {w}))
            r |= acc
        return r

    def loop(self, s, W, forever):
        r = set()
        for w in W:
            ob, oc = self.brk, self.cont
            self.brk, self.cont = set(), set()
            N = self.block(s.body, {w})
            once = N | self.cont
            # a second round: what an earlier round left behind
            if once:
                N2 = self.block(s.body, {x for x in once})
                once = once | N2 | self.cont
            brk = self.brk
            self.brk, self.cont = ob, oc
            E = set() if forever else self.block(s.orelse, once or {w})
            r |= self.merge(brk, E)
        return r

    def s_For(self, s, W):
        self.use(s.iter, W)
        self.throw(W)
        W = self.bind(s.target, W)
        return self.loop(s, W, False)
    s_AsyncFor = s_For

    def s_While(self, s, W):
        self.use(s.test, W)
        if raises(s.test):
            self.throw(W)
        W = self.walrus(s.test, W)
        return self.loop(s, W, isinstance(s.test, ast.Constant) and bool(s.test.value))

    def s_With(self, s, W):
        for i in s.items:
            self.use(i.context_expr, W)
            self.throw(W)
            if i.optional_vars is not None:
                W = self.bind(i.optional_vars, W)
        return self.block(s.body, W)
    s_AsyncWith = s_With

    def s_Try(self, s, W):
        oexc = self.exc
        self.exc = set()
        obrk, ocont, oret = self.brk, self.cont, self.ret
        if s.finalbody:
            self.brk, self.cont, self.ret = set(), set(), set()
        N = self.block(s.body, W)
        raised = self.exc
        self.exc = set()
        catchall = False
        H = set()
        late = set()
        for h in s.handlers:
            t = ast.unparse(h.type) if h.type is not None else ""
            e = self.entry(s, h, raised)
            if h.type is not None:
                self.use(h.type, e)
            if h.name:
                e = {w | {h.name} for w in e}
            r = self.block(h.body, e)
            if h.name:
                r = {w - {h.name} for w in r}
            H |= r
            if not t or t == "BaseException":
                catchall = True
        late = self.exc
        self.exc = set()
        E = self.block(s.orelse, N) if s.orelse else N
        late = late | self.exc
        out = set(E) | H
        pending = late | (set() if catchall else raised)
        if s.finalbody:
            self.exc = set()
            b, c, rt = self.brk, self.cont, self.ret
            self.brk, self.cont, self.ret = obrk, ocont, oret
            self.block(s.finalbody, pending)
            if rt:
                self.ret |= self.block(s.finalbody, rt)
            if b:
                self.brk |= self.block(s.finalbody, b)
            if c:
                self.cont |= self.block(s.finalbody, c)
            out = self.block(s.finalbody, out) if out else out
            pending = pending | self.exc
        self.exc = oexc | pending
        return out
    s_TryStar = s_Try

    def entry(self, s, h, raised):
        """worlds in which the handler may be entered: a handler for one kind of failure of a single construct"""
        t = ast.unparse(h.type) if h.type is not None else ""
        kinds = {"KeyError", "IndexError", "LookupError", "AttributeError", "ImportError", "StopIteration", "NameError", "TypeError", "ValueError", "UnicodeDecodeError"}
        names = {x.strip() for x in t.strip("()").split(",")} if t else set()
        if names and names <= kinds:
            # only as precise as the last construct that can raise: keep the worlds that know most
            best = max((len(w) for w in raised), default=0)
            return {w for w in raised if len(w) == best} or raised
        return raised

    def run(self):
        a = self.fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        self.exc, self.brk, self.cont, self.ret = set(), set(), set(), set()
        self.block(self.fn.body, {frozenset(params)})
        return self.found


def own_expr(e):
    """nodes evaluated with e itself: lambdas are not, comprehension targets are not uses of the function's names"""
    stack = [e]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for c in ast.iter_child_nodes(n):
                for x in own_expr(c):
                    if not (isinstance(x, ast.Name) and x.id in own):
                        yield x
            continue
        yield n
        stack.extend(ast.iter_child_nodes(n))


def raises(s):
    for n in own_expr(s):
        if isinstance(n, (ast.Call, ast.Subscript, ast.Await, ast.Yield, ast.YieldFrom, ast.BinOp)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set", "tuple", "len", "isinstance", "id", "type", "hasattr", "object", "time"):
                continue
            if isinstance(n, ast.BinOp) and isinstance(n.right, ast.Constant) and not isinstance(n.op, (ast.Div, ast.Mod, ast.FloorDiv)):
                continue
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not isinstance(n.value, ast.Name):
            return False or _deep(n)
    return isinstance(s, (ast.Assert,))


def _deep(n):
    return False


def called(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None


def noreturn(p):
    """names all of whose definitions in the library only leave by an exception"""
    r = p.__dict__.get("_p27_noreturn")
    if r is None:
        by = {}
        for f in p.all_funcs():
            if not isinstance(f.node, ast.Lambda):
                by.setdefault(f.name, []).append(f)
        r = set()
        for _ in range(3):
            for nm, fs in by.items():
                if all(never(f.node.body, r) and not any(isinstance(x, (ast.Return, ast.Yield)) for x in walk_own(f.node)) for f in fs):
                    r.add(nm)
        r |= {"exit", "_exit", "abort"}
        p.__dict__["_p27_noreturn"] = r
    return r


def never(body, known):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and called(s.value) in known:
            return True
        if isinstance(s, ast.If) and s.orelse and never(s.body, known) and never(s.orelse, known):
            return True
    return False


def unbound(ck, p, f):
    from checks.p27 import local_names
    locs = set(local_names(f.node))
    if not any(isinstance(n, (ast.Try, ast.Delete)) for n in walk_own(f.node)):
        return 0
    fl = Flow(f.node, locs, noreturn(p))
    found = fl.run()
    ck.ok("bound", f.full)
    ck.count("uses of local names", fl.uses)
    for (name, line), n in sorted(found.items(), key=lambda x: x[0][1]):
        ck.finding("bound", "%s %s" % (f.full, name), f.loc(n), "%s may be unbound here: an exception can lead here past its binding" % name)
    return 1
