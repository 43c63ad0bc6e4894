"""P29: splitting SQL into quoted and unquoted parts, joining them again, splitting lists and names of identifiers.

The pattern of quotes, a constant of the source, is compared with the lexical rules of the server on every short text over
the characters that matter; the functions are interpreted over texts given by their shape (which positions hold quotes,
separators or other characters), with the text itself symbolic: what they cut is compared as positions of the text."""
import ast
import itertools
import re
from sa.rules import *

MOD = "postgresql.string"
TEXT = ("p", "$text")


def P(n):
    return ("p", "$" + n)


def T(*xs):
    return ("tuple",) + tuple(xs)


def lex(s):
    """the quoted parts of a text by the server's rules: (start, opening quote, end of content, end, terminated)"""
    r, i = [], 0
    while i < len(s):
        c = s[i]
        if c in "Ee" and s[i + 1:i + 2] == "'" and not (i and (s[i - 1].isalnum() or s[i - 1] in "_$")):
            j = i + 2
            while j < len(s):
                if s[j] == "\\":
                    j += 2
                elif s[j] == "'" and s[j + 1:j + 2] == "'":
                    j += 2
                elif s[j] == "'":
                    break
                else:
                    j += 1
            j = min(j, len(s))
            r.append((i, s[i:i + 2], j, min(j + 1, len(s)), j < len(s)))
        elif c in "'\"":
            j = i + 1
            while j < len(s):
                if s[j] == c and s[j + 1:j + 2] == c:
                    j += 2
                elif s[j] == c:
                    break
                else:
                    j += 1
            j = min(j, len(s))
            r.append((i, c, j, min(j + 1, len(s)), j < len(s)))
        else:
            m = re.match(r"\$(?:[A-Za-z_\u0080-\uffff][A-Za-z0-9_\u0080-\uffff]*)?\$", s[i:])
            if not m:
                i += 1
                continue
            q = m.group()
            j = s.find(q, i + len(q))
            r.append((i, q, j, j + len(q), True) if j >= 0 else (i, q, len(s), len(s), False))
        i = r[-1][3]
        if not r[-1][4]:
            break
    return r


# ------------------------------------------------------------ texts by shape


class Shape(EventRule):
    """the text is symbolic; its shape tells which characters are equal to the quotes and separators the code compares with.
    Slices of the text are ("span", a, b)."""
    initial = ()
    widen_after = 40
    max_depth = 8
    fresh = 128
    iterators = True
    state_cap = 2000

    def __init__(self, shape, rx=None):
        self.shape, self.rx = shape, rx
        self.ms = []
        if rx is not None:
            pos = 0
            while True:
                m = rx.search(shape, pos)
                if m is None or m.end() == m.start():
                    break
                self.ms.append(m)
                pos = m.end()

    def inline(self, eng, func):
        return func.module.name == MOD

    def may_raise(self, eng, f, node, st):
        return False

    def bounds(self, t):
        if t == TEXT:
            return 0, len(self.shape)
        if t[0] == "span":
            return t[1], t[2]

    def text(self, t):
        b = self.bounds(t)
        if b:
            return self.shape[b[0]:b[1]]
        if t[0] == "cat":
            xs = [self.text(x) if not is_const(x) else x[2] for x in t[1]]
            return "".join(xs) if all(isinstance(x, str) for x in xs) else None
        if t[0] == "replaced":
            return self.text(t[1]).replace(t[2], t[3])
        if t[0] == "lower":
            return self.text(t[1]).lower()

    def mk(self, a, b):
        return ("span", a, b) if a < b else C("")

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] in ("==", "is") and len(t) == 4:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if self.text(a) is not None and is_const(b):
                    return self.text(a) == b[2]
            if self.text(t[2]) is not None and self.text(t[3]) is not None:
                return self.text(t[2]) == self.text(t[3])
        if t[0] == "cmp" and t[1] == "in" and len(t) == 4:
            a = t[2][2] if is_const(t[2]) else self.text(t[2])
            b = t[3][2] if is_const(t[3]) else self.text(t[3])
            if isinstance(a, str) and isinstance(b, str):
                return a in b
            it = eng.exact_items(t[3], st)
            if isinstance(a, str) and it is not None:
                known = [self.text(x) if self.bounds(x) else x[2] if is_const(x) else None for x in it]
                if all(isinstance(k, str) for k in known):
                    return a in known
        if self.text(t) is not None:
            return bool(self.text(t))
        if t[0] == "p" and str(t[1]).startswith("$match"):
            return True
        if t[0] == "cmp" and t[1] in ("is", "==") and NONE in t[2:4]:
            o = [x for x in t[2:4] if x != NONE]
            if o and (self.bounds(o[0]) or o[0][0] == "p" and str(o[0][1]).startswith("$match")):
                return False
        return None

    def subscript(self, eng, node, base, idx, st, fr):
        b = self.bounds(base)
        if not b:
            if base[0] == "p" and str(base[1]).startswith("$match") and is_const(idx):
                return [Out("v", st, self.group(base, idx[2]))]
            return None
        if idx[0] == "slice_obj" and all(is_const(x) for x in idx[1:]) and idx[3][2] in (None, 1):
            a, e, _ = slice(idx[1][2], idx[2][2]).indices(b[1] - b[0])
            return [Out("v", st, self.mk(b[0] + a, b[0] + e))]
        if is_const(idx) and isinstance(idx[2], int):
            n = b[1] - b[0]
            i = idx[2] + n if idx[2] < 0 else idx[2]
            if 0 <= i < n:
                return [Out("v", st, self.mk(b[0] + i, b[0] + i + 1))]
            return [Out("raise", st, ("exc", "builtins.IndexError", ("site", node.lineno)), node)]

    def match(self, t):
        return self.ms[int(t[1][6:])] if t[0] == "p" and str(t[1]).startswith("$match") else None

    def group(self, t, *ks):
        m = self.match(t)
        r = [NONE if m.start(k) < 0 else self.mk(*m.span(k)) for k in (ks or (0,))]
        return r[0] if len(r) == 1 else T(*r)

    def getattr(self, eng, node, base, attr, st, fr):
        m = self.match(base)
        if m is not None and attr in ("lastindex", "lastgroup"):
            return [Out("v", st, C(getattr(m, attr)))]

    def iterate(self, eng, it, st):
        if it == P("matches"):
            return [P("match%d" % i) for i in range(len(self.ms))], st
        b = self.bounds(it)
        if b:
            return [self.mk(i, i + 1) for i in range(*b)], st

    def on_yield(self, eng, node, val, st, fr):
        items = eng.exact_items(val, st)
        if val[0] == "obj" and items is not None:
            val = T(*items)
        return [Out("v", st.with_ts(st.ts + (val,)), NONE)]

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        args = list(args)
        V = lambda v, s=st: [Out("v", s, v)]
        if name in ("scanner", "finditer") and recv is not None and self.rx is not None:
            return V(P("scan") if name == "scanner" else P("matches"))
        if recv == P("scan") and name == "search":
            n = st.heap.get((recv, "$pos"), C(0))[2]
            return V(P("match%d" % n) if n < len(self.ms) else NONE, st.hset((recv, "$pos"), C(n + 1)))
        if name == "search" and recv is not None and self.rx is not None and args and self.bounds(args[0]) and self.match(recv) is None:
            pos = args[1][2] if len(args) > 1 and is_const(args[1]) else 0
            for i, m in enumerate(self.ms):
                if m.start() >= pos:
                    return V(P("match%d" % i))
            return V(NONE)
        m = self.match(recv) if recv else None
        if m is not None:
            ks = [a[2] for a in args if is_const(a)]
            if name in ("start", "end"):
                return V(C(getattr(m, name)(*ks)))
            if name == "span":
                return V(T(*[C(x) for x in m.span(*ks)]))
            if name == "groups":
                return V(T(*[self.group(recv, k) for k in range(1, m.re.groups + 1)]))
            if name == "group":
                return V(self.group(recv, *ks))
            if name == "groupdict":
                return None
        if f == G("builtins.len") and args and self.text(args[0]) is not None:
            return V(C(len(self.text(args[0]))))
        b = self.bounds(recv) if recv is not None else None
        txt = self.text(recv) if recv is not None else None
        if txt is not None and not kws:
            cs = [self.text(a) if self.text(a) is not None else a[2] if is_const(a) else Ellipsis for a in args]
            if Ellipsis in cs:
                return None
            if name in ("find", "index", "rfind", "startswith", "endswith", "count", "isalnum", "isalpha", "isdecimal", "isdigit", "isidentifier", "islower", "isupper"):
                try:
                    return V(C(getattr(txt, name)(*cs)))
                except ValueError:
                    return [Out("raise", st, ("exc", "builtins.ValueError", ("site", node.lineno)), node)]
            if b and name in ("split", "partition") and cs and isinstance(cs[0], str):
                r, pos = [], b[0]
                if name == "split":
                    for x in txt.split(*cs):
                        r.append(self.mk(pos, pos + len(x)))
                        pos += len(x) + len(cs[0])
                    s = eng.alloc("list", node, fr, st)
                    return V(s, st.hset((s, "$items"), ("L", tuple(r))))
                for x in txt.partition(cs[0]):
                    r.append(self.mk(pos, pos + len(x)))
                    pos += len(x)
                return V(T(*r))
            if b and name in ("strip", "lstrip", "rstrip"):
                if not cs:
                    x = getattr(txt, name)()
                    k = txt.index(x) if x else 0
                    return V(self.mk(b[0] + k, b[0] + k + len(x)))
            if name == "replace" and len(cs) == 2:
                return V(("replaced", recv, cs[0], cs[1]) if cs[0] in txt else recv)
            if name == "lower":
                return V(("lower", recv))
        return None


def pattern(ck, p):
    m = p.module(MOD)
    split = p.func(MOD + ":split")
    used = {n.id for n in ast.walk(split.node) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(split.node) if isinstance(n, ast.Attribute)}
    got = []
    for x in m.tree.body:
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "compile" \
                and isinstance(x.targets[0], ast.Name) and x.targets[0].id in used:
            try:
                pat = ast.literal_eval(x.value.args[0])
            except ValueError:
                continue
            flags = 0
            for fl in x.value.args[1:] + [k.value for k in x.value.keywords]:
                for n in ast.walk(fl):
                    if isinstance(n, ast.Attribute):
                        flags |= getattr(re, n.attr)
            got.append((re.compile(pat, flags), x.lineno))
    if len(got) != 1:
        raise AnalysisBroken("P29: the pattern of quotes is not recognised")
    return got[0]


def lexer(ck, p, rx, line, deep):
    """the pattern against the lexical rules"""
    m = p.module(MOD)
    n = 0
    where = "%s:%d" % (m.rel, line)
    for alphabet, k in (("'\"a", 9), ("'E\\a", 8), ("'eE _", 7), ("$ab'", 8), ("$a\n;", 8), ("$1_'", 7), ("\"'$E\n\\", 5)):
        bad = None
        for size in range(k + (1 if deep else 0)):
            for s in map("".join, itertools.product(alphabet, repeat=size)):
                n += 1
                want = lex(s)
                # a tag of the pattern may be longer than one of the server: such texts are no SQL
                pos, got = 0, []
                while True:
                    x = rx.search(s, pos)
                    if x is None or x.end() == x.start():
                        break
                    got.append(x)
                    pos = x.end()
                w = [(q[0], q[3]) for q in want]
                g = [(x.start(), x.end()) for x in got][:len(want) if want and not want[-1][4] else None]
                if want and not want[-1][4] and len(g) == len(want) and g[-1][0] == w[-1][0]:
                    g, w = g[:-1], w[:-1]
                if g != w:
                    if odd_tag(s):
                        continue
                    bad = (s, g, w)
                    break
            if bad:
                break
        ck.ok("lexer", "texts of %r" % alphabet)
        if bad:
            ck.finding("lexer", "texts of %r" % alphabet, where, "in %r the quoted parts are %s, the pattern finds %s" % (bad[0], bad[2], bad[1]))
    ck.count("texts", n)


def odd_tag(s):
    """dollar signs that no SQL text has outside quotes: neither $n, nor $tag$, nor within a name"""
    return bool(re.search(r"\$[^$]*[^$\w][^$]*\$", s)) or bool(re.search(r"\w\$", s))


PIECES = ["'a'", "'a''a'", "''", '"a"', '""""', "E'a\\''", "e'\\\\'", "E''''", "$$a$$", "$t$a$t$", "$t$a$$a$t$", "$$\n'$$", "$$$$"]
OPEN = ["'a", "'", "'a''", "'''", '"', '"a""', "E'", "e'", "E'a\\'", "E'\\", "$$", "$$$", "$$a$", "$t$a", "$t$t$", "$t$a$t", "'a\n", "$$a\n"]


def splitting(ck, p, rx, deep):
    f = p.func(MOD + ":split")
    u = p.func(MOD + ":unsplit")
    ck.func(f)
    ck.func(u)
    shapes = ["", "a", "aa\n"]
    for n in (1, 2, 3) if deep else (1, 2):
        for combo in itertools.product(PIECES, repeat=n):
            if n == 3 and len({x[0] for x in combo}) < 2:
                continue
            for sep in ("b ", " "):
                shapes.append(sep + sep.join(combo) + sep)
        for combo in itertools.product(PIECES, repeat=n - 1):
            for o in OPEN:
                shapes.append("".join(x + " " for x in combo) + o)
    shapes += PIECES + OPEN
    for s in sorted(set(shapes)):
        want = lex(s)
        exp, pos = [], 0
        mk = lambda a, b: ("span", a, b) if a < b else C("")
        for a, q, c, e, done in want:
            exp.append(mk(pos, a))
            exp.append((q, mk(a + len(q), c)))
            pos = e
        if not want or want[-1][4]:
            exp.append(mk(pos, len(s)))
        rule = Shape(s, rx)
        eng = Engine(p, rule)
        outs = eng.run(f, {f.node.args.args[0].arg: TEXT}, st=State(ts=()))
        ck.count("shapes")
        nm = repr(s)
        if not outs:
            raise AnalysisBroken("P29: split has no exit")
        for o in outs:
            if o.kind == "raise":
                ck.finding("parts", nm, f.loc(), "splitting %s raises %s" % (nm, show(o.val)), o.st.trace)
                continue
            got = []
            for y in o.st.ts:
                it = eng.exact_items(y, o.st) if y[0] in ("tuple", "obj") else None
                if it is not None and len(it) == 2:
                    q = rule.text(it[0])
                    got.append((q if q is not None else it[0][2] if is_const(it[0]) else show(it[0]), it[1]))
                else:
                    got.append(y)
            ck.judge(got == exp, "parts", nm, f.loc(), "%s is split into %s instead of %s" % (nm, names(got, s), names(exp, s)), o.st.trace)
            if got != exp:
                continue
            # and joined again
            e2 = Engine(p, Shape(s))
            parts = T(*[T(C(x[0]), x[1]) if isinstance(x[0], str) and x[0] not in ("span", "c") else x for x in got])
            for o2 in e2.run(u, {u.node.args.args[0].arg: parts}, st=State(ts=())):
                ck.judge(o2.kind == "return" and tiles(o2.val, s), "join", nm, u.loc(), "the parts of %s are joined to %s" % (nm, show(o2.val)), o2.st.trace)
    ck.at_least("shapes", 300, "shapes of texts")


def names(parts, s):
    r = []
    for x in parts:
        if x[0] == "span":
            r.append(repr(s[x[1]:x[2]]))
        elif x[0] == "c":
            r.append(repr(x[2]))
        elif len(x) == 2 and isinstance(x[0], str):
            r.append("(%r, %s)" % (x[0], names([x[1]], s)))
        else:
            r.append(show(x))
    return ", ".join(r)


def tiles(t, s):
    """a text put together of slices, constants standing for the same characters: the whole text?"""
    pos = 0
    for x in (t[1] if t[0] == "cat" else (t,)):
        if x[0] == "span":
            if x[1] != pos:
                return False
            pos = x[2]
        elif is_const(x) and isinstance(x[2], str):
            if s[pos:pos + len(x[2])] != x[2]:
                return False
            pos += len(x[2])
        else:
            return False
    return pos == len(s)


# ------------------------------------------------------------ statements


class Statements(EventRule):
    """parts: unquoted ones are symbolic with a number of separators"""
    initial = ()
    widen_after = 40
    max_depth = 6
    fresh = 64
    iterators = True

    def __init__(self, parts):
        self.parts = parts

    def inline(self, eng, func):
        return func.module.name == MOD and func.name not in ("split",)

    def may_raise(self, eng, f, node, st):
        return False

    def on_yield(self, eng, node, val, st, fr):
        items = eng.exact_items(val, st)
        return [Out("v", st.with_ts(st.ts + ((val if items is None else T(*items)),)), NONE)]

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] == "in" and t[2] == C(";") and t[3][0] == "p":
            return dict(self.parts).get(t[3], 0) > 0

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        if name == "split" and f[0] == "g":
            return [Out("v", st, T(*[x for x, _ in self.parts]))]
        n = dict(self.parts).get(recv)
        if n is not None and name == "split" and args and args[0] == C(";"):
            r = T(*[P("%s.%d" % (recv[1][1:], i)) for i in range(n + 1)]) if n else T(recv)
            ob = eng.alloc("list", node, fr, st)
            return [Out("v", st.hset((ob, "$items"), ("L", r[1:])), ob)]
        if name == "unsplit" and f[0] == "g":
            return [Out("v", st, ("call", G("unsplit"), (T(*(eng.exact_items(args[0], st) or (("top", 0),))),), ()))]


def statements(ck, p):
    f = p.func(MOD + ":split_sql")
    g = p.func(MOD + ":split_sql_str")
    ck.func(f)
    ck.func(g)
    for n in (1, 2, 3):
        for seps in itertools.product((0, 1, 2, 3), repeat=n):
            for open_ in (False, True):
                parts = []
                for i, k in enumerate(seps):
                    parts.append((P("text%d" % i), k))
                    if i < n - 1 or open_:
                        parts.append((T(P("quote%d" % i), P("quoted%d" % i)), None))
                want, cur = [], []
                for x, k in parts:
                    if not k:
                        cur.append(x)
                        continue
                    for j in range(k + 1):
                        cur.append(P("%s.%d" % (x[1][1:], j)))
                        if j < k:
                            want.append(tuple(cur))
                            cur = []
                want.append(tuple(cur))
                nm = "parts %s%s" % (" quoted ".join("text with %d separators" % k for k in seps), " open quote" if open_ else "")
                rule = Statements(parts)
                eng = Engine(p, rule)
                a = [x.arg for x in f.node.args.args]
                outs = eng.run(f, {a[0]: P("sql"), a[1]: C(";")}, st=State(ts=()))
                ck.count("statement_shapes")
                if not outs:
                    raise AnalysisBroken("P29: split_sql has no exit")
                for o in outs:
                    got = [y[1:] if y[0] == "tuple" else y for y in o.st.ts]
                    ck.judge(o.kind != "raise" and got == want, "statements", nm, f.loc(),
                             "%s: the statements are %s instead of %s" % (nm, [list(map(show, x)) for x in got], [list(map(show, x)) for x in want]), o.st.trace)
    # the joined form
    class J(Statements):
        def call(self, eng, node, f, args, kws, st, fr):
            recv, name = callee(f)
            if name == "split_sql" and f[0] == "g":
                ok = args[:1] == [P("sql")] and (args[1:2] == [C(";")] or ("sep", C(";")) in tuple(kws))
                return [Out("v", st, T(T(P("a")), T(P("b"))) if ok else ("top", node.lineno))]
            return Statements.call(self, eng, node, f, args, kws, st, fr)
    eng = Engine(p, J([]))
    a = [x.arg for x in g.node.args.args]
    for o in eng.run(g, {a[0]: P("sql"), a[1]: C(";")}, st=State(ts=())):
        want = tuple(("call", G("unsplit"), (T(P(x)),), ()) for x in "ab")
        ck.judge(o.kind != "raise" and o.st.ts == want, "statements", "split_sql_str", g.loc(), "gives %s" % ", ".join(map(show, o.st.ts)), o.st.trace)


# ------------------------------------------------------------ identifiers


def cut(s, sep, maxsplit):
    """the pieces of a text, separators in quotes apart: [(start, end)]"""
    r, start, i, q = [], 0, 0, False
    while i < len(s):
        if len(r) == maxsplit:
            break
        if s[i] == '"':
            if not q:
                q = True
                i += 1
            elif s[i + 1:i + 2] == '"':
                i += 2
            else:
                q = False
                i += 1
        elif not q and s.startswith(sep, i):
            r.append((start, i))
            i = start = i + len(sep)
        else:
            i += 1
    r.append((start, len(s)))
    return r


def separated(ck, p, deep):
    f = p.func(MOD + ":split_using")
    ck.func(f)
    a = [x.arg for x in f.node.args.args]
    n = 0
    size = 7 if deep else 6
    for sep in (".", "::"):
        texts = ["".join(x) for k in range(size) for x in itertools.product("\"%sa" % sep[0], repeat=k)]
        texts += ['"a""."."a".', '"."""."', 'a."."."".a', '""".""".a', 'a."b'] if sep == "." else []
        for s in texts:
            for ms in (-1, 0, 1, 2):
                if ms >= 0 and (len(s) > 5 or '"' not in s):
                    continue
                want = cut(s, sep, ms)
                rule = Shape(s)
                eng = Engine(p, rule)
                outs = eng.run(f, {a[0]: TEXT, a[1]: C('"'), a[2]: C(sep), a[3]: C(ms)}, st=State(ts=()))
                n += 1
                nm = "%r by %r%s" % (s, sep, "" if ms < 0 else ", at most %d" % ms)
                for o in outs:
                    its = eng.exact_items(o.val, o.st) if o.kind == "return" else None
                    exp = [rule.mk(*w) for w in want]
                    ck.judge(its is not None and list(its) == exp, "separators", nm, f.loc(),
                             "%s gives %s instead of %s" % (nm, names(its or (), s) if its is not None else show(o.val), names(exp, s)), o.st.trace)
    ck.count("separated", n)
    ck.at_least("separated", 500, "shapes of texts")


def identifiers(ck, p):
    """one piece of a list of identifiers"""
    f = p.func(MOD + ":split_ident")
    ck.func(f)
    a = [x.arg for x in f.node.args.args]
    n = 0
    for k in range(0, 6):
        for s in map("".join, itertools.product('"aA ', repeat=k)):
            if cut(s, ",", -1) != [(0, len(s))]:
                continue
            x = s.strip()
            lo = s.index(x) if x else 0
            rule = Shape(s)
            eng = Engine(p, rule)
            outs = eng.run(f, {a[0]: TEXT, a[1]: C(","), a[2]: C('"'), a[3]: C(-1)}, st=State(ts=()))
            n += 1
            if not outs:
                raise AnalysisBroken("P29: split_ident has no exit")
            if x.startswith('"'):
                ok = len(x) > 1 and x.endswith('"') and '"' not in x[1:-1].replace('""', "")
                want = x[1:-1].replace('""', '"') if ok else None
            else:
                want = x.lower() if x and x.replace("_", "a").isalnum() and not x[0].isdecimal() else None
            for o in outs:
                if want is None:
                    ck.judge(o.kind == "raise" and o.val[1] == "builtins.ValueError", "identifiers", repr(s), f.loc(),
                             "%r is no list of identifiers, yet ends by %s %s" % (s, o.kind, show(o.val)), o.st.trace)
                    continue
                its = eng.exact_items(o.val, o.st) if o.kind == "return" else None
                got = value(rule, its[0]) if its and len(its) == 1 else None
                ck.judge(got == want, "identifiers", repr(s), f.loc(), "%r gives %s instead of %r" % (s, show(o.val), want), o.st.trace)
    ck.count("identifiers", n)
    # the separators it passes on, and the names of several parts
    for name, sep in (("split_qname", "."), ("split_ident", None)):
        g = p.func(MOD + ":" + name)
        ck.func(g)

        class W(Shape):
            seen = []

            def call(self, eng, node, f, args, kws, st, fr):
                if callee(f)[1] == "split_using":
                    cal = dict(zip(a2, args))
                    cal.update(dict(kws))
                    self.seen.append((cal.get("sep"), cal.get("quote"), cal.get("text")))
                    return [Out("v", st, T())]
                return Shape.call(self, eng, node, f, args, kws, st, fr)
        a2 = [x.arg for x in p.func(MOD + ":split_using").node.args.args]
        w = W("a")
        w.seen = []
        args = {g.node.args.args[0].arg: TEXT}
        names_ = [x.arg for x in g.node.args.args]
        if sep is None:
            args.update({names_[1]: C("/"), names_[2]: C('"'), names_[3]: C(-1)})
        else:
            args.update({names_[1]: C(-1)})
        Engine(p, w).run(g, args, st=State(ts=()))
        ck.judge(w.seen and all(x == (C(sep or "/"), C('"'), TEXT) for x in w.seen), "identifiers", name + ", separator", g.loc(),
                 "splits %s" % (w.seen,))
    # joining names: the parts quoted, a dot in between
    for name, quoter in (("qname", "quote_ident"), ("qname_if_needed", "quote_ident_if_needed")):
        g = p.func(MOD + ":" + name)
        ck.func(g)

        class Q(EventRule):
            initial = ()
            fresh = 16

            def may_raise(self, eng, f, node, st):
                return False

            def call(self, eng, node, f, args, kws, st, fr):
                if callee(f)[1] == quoter:
                    return [Out("v", st, ("quoted", args[0]))]
                if f == G("builtins.map") and len(args) == 2 and callee(args[0])[1] == quoter and eng.exact_items(args[1], st) is not None:
                    return [Out("v", st, T(*[("quoted", x) for x in eng.exact_items(args[1], st)]))]
        for k in (1, 2, 3):
            xs = [P("part%d" % i) for i in range(k)]
            eng = Engine(p, Q())
            for o in eng.run(g, {g.node.args.vararg.arg: T(*xs)} if g.node.args.vararg else {}, st=State(ts=())):
                want = []
                for i, x in enumerate(xs):
                    if i:
                        want.append(C("."))
                    want.append(("quoted", x))
                got = list(o.val[1]) if o.val[0] == "cat" else [o.val]
                ck.judge(o.kind == "return" and got == want, "identifiers", "%s of %d" % (name, k), g.loc(), "gives %s" % show(o.val), o.st.trace)


def value(rule, t):
    return t[2] if is_const(t) else rule.text(t)


def quoting(ck, p, deep):
    """a quoted text is one quoted part, or a name as it is, that reads as the text"""
    n = 0
    for name, q in (("quote_literal", "'"), ("quote_ident", '"'), ("escape_literal", "'"), ("escape_ident", '"'), ("quote_ident_if_needed", "")):
        g = p.func(MOD + ":" + name)
        ck.func(g)
        for k in range(6 if deep else 5):
            for s in map("".join, itertools.product("'\"aA_1 ", repeat=k)):
                if k == 4 and len(set(s)) > 2:
                    continue
                rule = Shape(s)
                n += 1
                outs = Engine(p, rule).run(g, {g.node.args.args[0].arg: TEXT}, st=State(ts=()))
                if not outs:
                    raise AnalysisBroken("P29: %s has no exit" % name)
                for o in outs:
                    got = value(rule, o.val) if o.kind == "return" else None
                    full = q + got + q if got is not None and name.startswith("escape") else got
                    ck.judge(full is not None and read(full, q or '"') == s, "quoting", "%s(%r)" % (name, s), g.loc(),
                             "%s(%r) gives %s" % (name, s, show(o.val) if got is None else repr(got)), o.st.trace)
    ck.count("quotings", n)


def read(text, q):
    """the text a literal or identifier stands for"""
    x = lex(text)
    if x:
        if len(x) == 1 and x[0][0] == 0 and x[0][1] == q and x[0][3] == len(text) and x[0][4]:
            return text[1:-1].replace(q * 2, q)
    elif q == '"' and re.fullmatch("[A-Za-z_][A-Za-z_0-9]*", text):
        return text.lower()


def run(ck, p):
    ck.rule("quoting", "a quoted text reads, by the server's rules, as the text")
    ck.rule("lexer", "the pattern finds exactly the quoted parts the server's lexical rules give")
    ck.rule("parts", "split cuts a text at its quoted parts, names their quotes, and ends on a quoted part exactly when it is not terminated")
    ck.rule("join", "joining the parts gives the text")
    ck.rule("statements", "statements are cut at every separator of the unquoted parts, and nowhere else")
    ck.rule("separators", "split_using cuts at every separator outside quotes, up to the given number")
    ck.rule("identifiers", "an identifier loses exactly its quotation, an unquoted one is folded, anything else raises; names are joined of quoted parts")
    deep = ck.tier == "thorough"
    rx, line = pattern(ck, p)
    lexer(ck, p, rx, line, deep)
    splitting(ck, p, rx, deep)
    statements(ck, p)
    separated(ck, p, deep)
    identifiers(ck, p)
    quoting(ck, p, deep)
