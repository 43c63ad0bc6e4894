"""P21: an IRI made of connection parameters parses back to them.

The values are runs of characters of which only those are known that they cannot hold.  `serialize` and `parse` are
interpreted over texts made of known characters and such runs: percent-encoding a run takes the characters of the class of
the regular expression out of it, and searching a character is decided by what the runs cannot hold.  A search for a
character that a run may hold is the violation: some value of that parameter is then cut there."""
import ast
import itertools
import re
from sa.rules import *
from sa.datarule import DataRule

MOD = "postgresql.iri"
RI = "postgresql.resolved.riparse"
HEX = frozenset("%0123456789ABCDEFabcdef")


def sym(name, excl=""):
    """a run of one or more characters, any but those of excl; not encoded"""
    return ("run", name, frozenset(excl), "")


def atoms(t):
    """the known characters and the runs of a text, None if it is no text"""
    if is_const(t):
        return tuple(("l", c) for c in t[2]) if isinstance(t[2], str) else None
    if t[0] == "run":
        return (t,)
    if t[0] == "cat":
        r = ()
        for x in t[1]:
            a = atoms(x)
            if a is None:
                return None
            r += a
        return r
    if t[0] == "s" and len(t) == 2:
        return atoms(t[1])
    if t[0] == "text":
        return t[1]
    return None


def text(a):
    if all(x[0] == "l" for x in a):
        return C("".join(x[1] for x in a))
    if len(a) == 1:
        return a[0]
    return ("text", tuple(a))


def is_text(t):
    return t[0] in ("run", "cat", "s", "text") and atoms(t) is not None


def norm(t):
    a = atoms(t)
    return text(a) if a is not None else t


def said(a):
    return "".join(x[1] if x[0] == "l" else "{%s%s}" % (x[1], x[3]) for x in a)


def encode(a, cls):
    r = []
    for x in a:
        if x[0] == "l":
            r += [("l", c) for c in "%%%02X" % ord(x[1])] if x[1] in cls else [x]
        elif cls:
            r.append(("run", x[1], (x[2] | cls) - HEX, x[3] + ("e" if "%" in cls else "b"), x[4] if len(x) > 4 else x[2]))
        else:
            r.append(x)
    return tuple(r)


def decode(a):
    r, i = [], 0
    while i < len(a):
        x = a[i]
        if x[0] == "run":
            if x[3] == "e":
                x = ("run", x[1], x[4], "")
            elif x[3] == "" and "%" in x[2]:
                pass
            else:
                x = x[:3] + (x[3] + "d",)
            r.append(x)
        elif x[1] == "%" and i + 2 < len(a) and all(y[0] == "l" and y[1] in HEX - {"%"} for y in a[i + 1:i + 3]):
            r.append(("l", chr(int(a[i + 1][1] + a[i + 2][1], 16))))
            i += 2
        else:
            r.append(x)
        i += 1
    return tuple(r)


def plain(t):
    """what a run is without what is known of it"""
    if t[0] == "run":
        return ("run", t[1], t[3])
    a = atoms(t)
    return ("text", tuple(x if x[0] == "l" else plain(x) for x in a)) if a is not None else t


class Consts:
    """the value of an expression of the module made of constants"""
    CALLS = {"chr": chr, "range": range, "len": len, "str": str}

    def __init__(self, p):
        self.p = p
        self.cache = {}

    def name(self, mod, n):
        if (mod, n) not in self.cache:
            self.cache[(mod, n)] = None
            vs = [s.value for s in self.p.module(mod).tree.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets)]
            self.cache[(mod, n)] = self.ev(mod, vs[0], {}) if len(vs) == 1 else None
        return self.cache[(mod, n)]

    def ev(self, mod, n, env):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return env[n.id] if n.id in env else self.name(mod, n.id)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "ri":
            return self.name(RI, n.attr)
        if isinstance(n, ast.Tuple):
            r = tuple(self.ev(mod, x, env) for x in n.elts)
            return None if None in r else r
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mod)):
            a, b = self.ev(mod, n.left, env), self.ev(mod, n.right, env)
            if a is None or b is None:
                return None
            return a + b if isinstance(n.op, ast.Add) else a % b
        if isinstance(n, ast.ListComp) and len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            it = self.ev(mod, n.generators[0].iter, env)
            return None if it is None else [self.ev(mod, n.elt, {**env, n.generators[0].target.id: x}) for x in it]
        if isinstance(n, ast.Call) and not n.keywords:
            args = [self.ev(mod, x, env) for x in n.args]
            if None in args:
                return None
            if isinstance(n.func, ast.Name) and n.func.id in self.CALLS:
                return self.CALLS[n.func.id](*args)
            if isinstance(n.func, ast.Attribute):
                if isinstance(n.func.value, ast.Name) and n.func.value.id == "re":
                    if n.func.attr == "escape":
                        return re.escape(*args)
                    if n.func.attr == "compile":
                        return ("regex", args[0])
                elif n.func.attr in ("join", "upper", "lower"):
                    v = self.ev(mod, n.func.value, env)
                    return None if v is None else getattr(v, n.func.attr)(*args)
        return None

    def klass(self, mod, n):
        """the characters a regular expression of one class of characters matches"""
        v = self.name(mod, n)
        if not (isinstance(v, tuple) and v[0] == "regex" and v[1][:1] == "[" and v[1][-1:] == "]"):
            return None
        x = re.compile(v[1])
        return frozenset(chr(c) for c in range(0x180) if x.fullmatch(chr(c)))


def folded(t):
    """the string that a term made of constants and re.escape is"""
    if is_const(t):
        return t[2] if isinstance(t[2], str) else None
    if t[0] == "s":
        return folded(t[1])
    if t[0] == "cat":
        r = [folded(x) for x in t[1]]
        return None if None in r else "".join(r)
    c = call_parts(t)
    if c and c[0] == G("re.escape") and len(c[1]) == 1:
        x = folded(c[1][0])
        return None if x is None else re.escape(x)


def klass(t):
    c = call_parts(t)
    x = folded(c[1][0]) if c and c[0] == G("re.compile") and len(c[1]) == 1 else None
    if x is None or x[:1] != "[" or x[-1:] != "]":
        return None
    x = re.compile(x)
    return frozenset(chr(c) for c in range(0x180) if x.fullmatch(chr(c)))


class Texts(DataRule):
    modules = (MOD, RI)
    state_cap = 20000
    fresh = 800
    fresh_dicts = True

    def __init__(self, consts):
        self.consts = consts
        self.amb = []
        self.odd = []

    def inline(self, eng, func):
        return func.module.name in self.modules and func.name not in ("unescape", "re_pct_encode")

    # ---------------------------------------------------------------- positions
    def index(self, a, t, default):
        """the place among the atoms a that a term says"""
        if t is None or t == NONE:
            return default
        if is_const(t) and isinstance(t[2], int):
            n = t[2]
            if n >= 0:
                return n if n <= len(a) and all(x[0] == "l" for x in a[:n]) else None
            return len(a) + n if -n <= len(a) and all(x[0] == "l" for x in a[n:]) else None
        if t[0] == "at":
            return t[2] if t[1] == a and isinstance(t[2], int) else None
        if t[0] == "op" and t[1] in ("+", "-"):
            k = t[3]
            if is_const(k) and isinstance(k[2], int):
                b = self.index(a, t[2], None)
                n = k[2] if t[1] == "+" else -k[2]
                if b is None or not 0 <= b + n <= len(a) or any(x[0] != "l" for x in (a[b:b + n] if n >= 0 else a[b + n:b])):
                    return None
                return b + n
        return None

    def place(self, t):
        """a position as a number comparable with the positions of the same text: (text, number)"""
        if t[0] == "at":
            return t[1], t[2]
        if t[0] == "op" and t[1] in ("+", "-"):
            b = self.place(t[2])
            if b is not None:
                i = self.index(b[0], t, None)
                return None if i is None else (b[0], i)
        return None

    def decide(self, eng, t, st):
        if is_text(t):
            return True
        if t[0] == "at":
            return t[2] > 0
        if t[0] == "op":
            q = self.place(t)
            if q is not None:
                return q[1] > 0
        if t[0] == "cmp" and len(t) == 4:
            op, a, b = t[1], t[2], t[3]
            if op == "in" and (is_text(b) or is_text(a)):
                return self.contains(a, b)
            qa, qb = self.place(a), self.place(b)
            if qa is not None or qb is not None:
                for x, y, sw in ((qa, b, False), (qb, a, True)):
                    if x is not None and is_const(y) and type(y[2]) is int:
                        # the number of characters before the position: at least as many as atoms, a run has one or more
                        lo = int(x[1]) if x[1] != int(x[1]) else x[1]
                        hi = lo if isinstance(x[1], int) and all(z[0] == "l" for z in x[0][:lo]) else float("inf")
                        n = y[2]
                        if op in ("==", "is"):
                            return True if lo == hi == n else False if n < lo or n > hi else None
                        o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op) if sw else op
                        return {"<": True if hi < n else False if lo >= n else None, "<=": True if hi <= n else False if lo > n else None,
                                ">": True if lo > n else False if hi <= n else None, ">=": True if lo >= n else False if hi < n else None}.get(o)
                if a == NONE or b == NONE:
                    return False
                if qa and qb and qa[0] == qb[0] and qa[1] is not None and qb[1] is not None:
                    return {"<": qa[1] < qb[1], "<=": qa[1] <= qb[1], ">": qa[1] > qb[1], ">=": qa[1] >= qb[1], "==": qa[1] == qb[1], "is": qa[1] == qb[1]}.get(op)
                return None
            if op in ("==", "is") and (is_text(a) or is_text(b)):
                if a == NONE or b == NONE:
                    return False
                x, y = atoms(a), atoms(b)
                if x is not None and y is not None:
                    if x == y:
                        return True
                    lit = [z for z in x + y if z[0] == "l"]
                    if len(x) == 1 and len(y) == 1 and x[0][0] == "run" and y[0][0] == "l" and y[0][1] in x[0][2] or len(y) == 1 and len(x) == 1 and y[0][0] == "run" and x[0][0] == "l" and x[0][1] in y[0][2]:
                        return False
                    if not x or not y:
                        return False
            if op in ("==", "is"):
                for x, y in ((a, b), (b, a)):
                    if x[0] == "first" and is_const(y):
                        if y[2] not in x[1][2]:
                            self.amb.append((y[2], x[1][1]))
                        return False
        return super().decide(eng, t, st)

    def contains(self, c, t):
        if not (is_const(c) and isinstance(c[2], str) and len(c[2]) == 1):
            return None
        for x in atoms(t) or ():
            if x == ("l", c[2]):
                return True
            if x[0] == "run" and c[2] not in x[2]:
                self.amb.append((c[2], x[1]))
        return False

    def is_instance(self, eng, x, c, st):
        if is_text(x):
            return c == G("builtins.str")
        return super().is_instance(eng, x, c, st)

    def subscript(self, eng, node, base, idx, st, fr):
        if is_text(base):
            a = atoms(base)
            if idx[0] == "slice_obj":
                i, j = self.index(a, idx[1], 0), self.index(a, idx[2], len(a))
                if i is None or j is None or idx[3] != NONE:
                    self.odd.append("line %d: the part %s of %s" % (node.lineno, show(idx)[:60], said(a)))
                    return None
                return [Out("v", st, text(a[i:j]))]
            i = self.index(a, idx, None)
            if i is not None and 0 <= i < len(a):
                return [Out("v", st, C(a[i][1]) if a[i][0] == "l" else ("first", a[i]))]
            self.odd.append("line %d: the character %s of %s" % (node.lineno, show(idx)[:60], said(a)))
        return super().subscript(eng, node, base, idx, st, fr)

    def items_of(self, eng, t, st):
        if is_const(t) and isinstance(t[2], str):
            return [C(c) for c in t[2]], st
        return super().items_of(eng, t, st)

    def iterate(self, eng, it, st):
        if is_const(it) and isinstance(it[2], str):
            return [C(c) for c in it[2]], st
        return super().iterate(eng, it, st)

    # ---------------------------------------------------------------- calls
    def find(self, a, needle, i):
        """every place where the needle may be: within a run that may hold it (a half), else at known characters, else nowhere"""
        n, r = len(needle), []
        while i < len(a):
            if a[i][0] == "run":
                if not any(c in a[i][2] for c in needle):
                    r.append(i + 0.5)
            elif all(x == ("l", c) for x, c in zip(a[i:i + n], needle)) and len(a[i:i + n]) == n:
                return r + [i]
            i += 1
        return r + [-1]

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        full = f[1] if f[0] == "g" else f[1][1] + "." + f[2] if f[0] == "attr" and f[1][0] == "g" else None
        args = list(args)
        Vo = lambda v, s=st: [Out("v", s, v)]
        if full == RI + ".unescape" and args and atoms(args[0]) is not None:
            return Vo(text(decode(atoms(args[0]))))
        if full == RI + ".unescape" and args and args[0] == NONE:
            return self.raises(eng, "TypeError", node, st)
        if full == "builtins.str" and len(args) == 1 and (is_text(args[0])):
            return Vo(norm(args[0]))
        if full == "builtins.hasattr" and args[0][0] == "obj" and args[0][1] in ("list", "dict", "iter") and is_const(args[1]):
            return Vo(C(hasattr({"list": [], "dict": {}, "iter": iter([])}[args[0][1]], args[1][2])))
        if full == "builtins.len" and len(args) == 1 and is_text(args[0]):
            a = atoms(args[0])
            return Vo(("at", a, len(a)))
        if full == "re.sub" or name == "sub" and recv is not None:
            rx, a = (recv, args) if full != "re.sub" else (args[0], args[1:])
            k = klass(rx)
            if k is None and rx[0] == "g" and rx[1].rsplit(".", 1)[0] in self.modules:
                k = self.consts.klass(*rx[1].rsplit(".", 1))
            if k is not None and len(a) == 2 and a[0] == G(RI + ".re_pct_encode") and atoms(a[1]) is not None:
                return Vo(text(encode(atoms(a[1]), k)))
            self.odd.append("line %d: %s(%s)" % (node.lineno, show(f), ", ".join(show(x)[:40] for x in args)))
            return None
        if recv is not None and is_text(recv):
            a = atoms(recv)
            cs = [x[2] if is_const(x) else None for x in args]
            if name == "find" and isinstance(cs[0], str):
                i = self.index(a, args[1], None) if len(args) > 1 else 0
                if i is not None and len(args) < 3:
                    r = self.find(a, cs[0], i)
                    return [Out("v", st, C(-1) if x < 0 else ("at", a, x)) for x in r]
            if name in ("split", "partition", "rpartition", "rsplit") and cs and isinstance(cs[0], str) and len(cs[0]) == 1 and name in ("split", "partition"):
                most = 1 if name == "partition" else cs[1] if len(cs) > 1 else -1
                parts, cur, full_ = [], [], False
                for x in a:
                    if not full_ and x == ("l", cs[0]) and (most < 0 or len(parts) < most):
                        parts.append(tuple(cur))
                        cur = []
                        continue
                    if x[0] == "run" and cs[0] not in x[2] and (most < 0 or len(parts) < most):
                        self.amb.append((cs[0], x[1]))
                    cur.append(x)
                parts.append(tuple(cur))
                if name == "split":
                    return [self.new(eng, "list", [text(x) for x in parts], node, st, fr)]
                return Vo(("tuple", text(parts[0]), C(cs[0]) if len(parts) > 1 else C(""), text(parts[1]) if len(parts) > 1 else C("")))
            if name in ("startswith", "endswith") and len(args) == 1 and isinstance(cs[0], str):
                w = cs[0] if name == "startswith" else cs[0][::-1]
                for x, c in zip(a if name == "startswith" else a[::-1], w):
                    if x[0] == "run":
                        if c not in x[2]:
                            self.amb.append((c, x[1]))
                        return Vo(C(False))
                    if x[1] != c:
                        return Vo(C(False))
                return Vo(C(len(a) >= len(w)))
            if name == "replace" and len(args) == 2 and all(isinstance(c, str) for c in cs) and len(cs[0]) == 1:
                r = []
                for x in a:
                    if x == ("l", cs[0]):
                        r += [("l", c) for c in cs[1]]
                    elif x[0] == "run" and cs[0] not in x[2]:
                        r.append(("run", x[1] + " with %r for %r" % (cs[1], cs[0]), x[2] - frozenset(cs[1]), x[3]))
                    else:
                        r.append(x)
                return Vo(text(r))
            if name == "join" or name in ("lower", "upper", "strip"):
                self.odd.append("line %d: %s of %s" % (node.lineno, name, said(a)))
        return super().call(eng, node, f, args, kws, st, fr)


class Run:
    def __init__(self, p, rule):
        self.p, self.rule = p, rule
        self.eng = Engine(p, rule)
        self.st = State(ts=())
        self.n = 0

    def new(self, x):
        if isinstance(x, (dict, list)):
            items = [(k, self.new(v)) for k, v in x.items()] if isinstance(x, dict) else [self.new(v) for v in x]
            self.n += 1
            nd = ast.Pass()
            nd.lineno, nd.col_offset = -self.n, 0
            ob = self.eng.alloc("dict" if isinstance(x, dict) else "list", nd, self.eng.module_frame(self.p.module(MOD)), self.st)
            self.st = self.st.hset((ob, "$items"), ("D", tuple((C(k), v) for k, v in items)) if isinstance(x, dict) else ("L", tuple(items)))
            return ob
        return x

    def py(self, t, st):
        if t[0] == "obj":
            d = self.eng.hget(st, (t, "$items"))
            if d and d[0] == "D":
                return {k[2] if is_const(k) else plain(k): self.py(v, st) for k, v in d[1]}
            it = self.eng.exact_items(t, st)
            return [self.py(x, st) for x in it] if it is not None else t
        if t[0] == "tuple":
            return ("tuple",) + tuple(self.py(x, st) for x in t[1:])
        return plain(norm(t))

    def call(self, f, args, st):
        return self.eng.call(ast.parse("f()").body[0].value, G(f.full), tuple(args), (), st, self.eng.module_frame(self.p.module(MOD)))


def sketch(x):
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (k if isinstance(k, str) else said_plain(k), sketch(v)) for k, v in sorted(x.items(), key=str)) + "}"
    if isinstance(x, list):
        return "[" + ", ".join(map(sketch, x)) + "]"
    return said_plain(x)


def said_plain(t):
    if t[0] == "run":
        return "{%s%s}" % (t[1], t[-1] if isinstance(t[-1], str) and len(t) == 3 else "")
    if t[0] == "text":
        return "".join(x[1] if x[0] == "l" else said_plain(x) for x in t[1])
    return show(t)


def want_of(x):
    if isinstance(x, dict):
        return {k: want_of(v) for k, v in x.items()}
    if isinstance(x, list):
        return [want_of(v) for v in x]
    if x[0] == "tuple":
        return ("tuple",) + tuple(want_of(v) for v in x[1:])
    return plain(norm(x))


PLACE = {
    "no address": {}, "a host": {"host": sym("host", ":[]")}, "a host and a port": {"host": sym("host", ":[]"), "port": sym("port", "@:/?#[]")},
    "an IPv6 address": {"host": ("cat", (sym("h1", "[]:ghijklmnopqrstuvwxyz"), C("::"), sym("h2", "[]:")))},
    "an IPv6 address and a port": {"host": ("cat", (C("::"), sym("h2", "[]:"))), "port": sym("port", "@:/?#[]")},
    "a unix socket": {"unix": ("cat", (C("/"), sym("dir", ":/[]"), C("/"), sym("file", ":/[]")))},
}
WHO = {"nobody": {}, "a user": {"user": sym("user")}, "a user and a password": {"user": sym("user"), "password": sym("password")}, "an empty password": {"user": sym("user"), "password": C("")}}
BASE = {"no database": {}, "a database": {"database": sym("database")}, "a database and a path": {"database": sym("database"), "path": [sym("path1"), sym("path2")]}, "a path alone": {"path": [sym("path1")]}}
MORE = {
    "nothing": {}, "a driver parameter": {"sslmode": sym("sslmode")}, "a setting": {"settings": {"timezone": sym("timezone")}},
    "an empty setting": {"settings": {"timezone": C("")}},
    "driver parameters and settings": {"sslmode": sym("sslmode"), "connect_timeout": sym("timeout"), "settings": {"timezone": sym("timezone"), "geqo": sym("geqo")}},
    "a search_path": {"settings": {"search_path": [sym("schema1"), sym("schema2")]}},
    "a search_path of one": {"settings": {"search_path": [sym("schema1")]}},
    "everything": {"sslmode": sym("sslmode"), "settings": {"search_path": [sym("schema1"), sym("schema2")], "timezone": sym("timezone")}},
}


def run(ck, p):
    ck.rule("round trip", "parsing what serialize makes of parameters gives these parameters, for all values")
    ck.rule("delimiters", "the parser searches no character that the encoded value of a parameter may hold")
    ck.rule("encoding", "re_pct_encode gives the percent escape of a character, unescape gives it back and leaves everything else")
    ser, par = p.func(MOD + ":serialize"), p.func(MOD + ":parse")
    for f in (ser, par, p.func(MOD + ":structure"), p.func(MOD + ":construct"), p.func(MOD + ":construct_path")):
        ck.func(f)
    for n in ("split", "split_netloc", "unsplit", "unsplit_netloc", "structure", "parse", "construct_query", "unescape", "re_pct_encode"):
        ck.func(p.func(RI + ":" + n))
    consts = Consts(p)
    deep = ck.tier == "thorough"
    cases = []
    for pl, wh, ba, mo in itertools.product(PLACE, WHO, BASE, MORE):
        basic = (pl == "a host and a port") + (wh == "a user and a password") + (ba == "a database") + (mo == "everything")
        none = (pl == "no address") + (wh == "nobody") + (ba == "no database") + (mo == "nothing")
        if deep or basic >= 3 or none >= 3 or basic + none == 4:
            cases.append((pl, wh, ba, mo))
    for pl, wh, ba, mo in cases:
        params = {**PLACE[pl], **WHO[wh], **BASE[ba], **MORE[mo]}
        trip(ck, p, consts, ser, par, params, "%s, %s, %s, %s" % (pl, wh, ba, mo))
    ck.at_least("round trips", 20)
    generic(ck, p, consts, deep)
    encoding(ck, p, consts)


def generic(ck, p, consts, deep):
    """the library of resource indicators by itself"""
    ser, par = p.func(RI + ":serialize"), p.func(RI + ":parse")
    hosts = {"no host": {}, "a host": {"host": sym("host", ":[]")}, "a host and a port": {"host": sym("host", ":[]"), "port": sym("port", "@:/?#[]")}}
    who = {"nobody": {}, "a user": {"user": sym("user")}, "a user and a password": {"user": sym("user"), "password": sym("password")}}
    path = {"no path": {}, "a path": {"path": [sym("path1")]}, "paths": {"path": [sym("path1"), sym("path2"), C("")]}}
    more = {"nothing": {}, "a query": {"query": [C2(sym("key1"), sym("value1"))]}, "queries": {"query": [C2(sym("key1"), sym("value1")), C2(sym("key2"), NONE), C2(sym("key3"), C(""))]}, "a fragment": {"fragment": sym("fragment")},
            "a query and a fragment": {"query": [C2(sym("key1"), sym("value1"))], "fragment": sym("fragment")}}
    for h, w, pa, mo in itertools.product(hosts, who, path, more):
        full = (h == "a host and a port") + (w == "a user and a password") + (pa == "paths") + (mo == "a query and a fragment")
        none = (h == "no host") + (w == "nobody") + (pa == "no path") + (mo == "nothing")
        if deep or full >= 3 or none >= 3:
            trip(ck, p, consts, ser, par, {"scheme": C("pq"), **hosts[h], **who[w], **path[pa], **more[mo]}, "indicator: %s, %s, %s, %s" % (h, w, pa, mo))


def C2(a, b):
    return ("tuple", a, b)


def trip(ck, p, consts, ser, par, params, what):
    ck.count("round trips")
    rule = Texts(consts)
    r = Run(p, rule)
    ob = r.new(params)
    where = "%s:%d" % ("postgresql/iri.py" if par.module.name == MOD else "postgresql/resolved/riparse.py", par.node.lineno)
    got = r.call(ser, (ob,), r.st)
    want = want_of(params)
    bad, iri, amb = [], "", set()
    if not got:
        bad.append("nothing is made")
    for o in got:
        if o.kind != "v" or atoms(o.val) is None:
            bad.append("serialize %s %s" % ("gives" if o.kind == "v" else "raises", show(o.val)[:80]))
            continue
        iri = said(atoms(o.val))
        for q in r.call(par, (norm(o.val),), o.st):
            if q.kind != "v":
                bad.append("parsing %s raises %s" % (iri, show(q.val)[:60]))
            elif r.py(q.val, q.st) != want:
                bad.append("%s parses to %s" % (iri, sketch(r.py(q.val, q.st))))
    amb = sorted(set(rule.amb))
    for c, n in amb:
        ck.judge(False, "delimiters", "%s in %s" % (c, n), where, "%s: in %s the parser searches %r, which the value of %s may hold" % (what, iri, c, n))
    ck.judge(not amb, "delimiters", "searches", where, "%s: values are cut" % what)
    ck.judge(not bad, "round trip", ("" if par.module.name == MOD else "riparse ") + "parse of serialize", where, "%s: expected %s, %s%s" % (what, sketch(want), "; ".join(bad[:2])[:300], " (%s)" % rule.odd[0] if rule.odd else ""))


class Plain(Texts):
    """the functions of the encoding themselves"""

    def inline(self, eng, func):
        return func.module.name == RI

    def __init__(self, consts, ch=None):
        super().__init__(consts)
        self.ch = ch

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        Vo = lambda v: [Out("v", st, v)]
        if name == "group" and recv == ("p", "$m"):
            return Vo(C(self.ch))
        if f == G("builtins.ord") and is_const(args[0]):
            return Vo(C(ord(args[0][2])))
        if f == G("builtins.chr") and is_const(args[0]):
            return Vo(C(chr(args[0][2])))
        if name == "__mod__" and recv is not None and is_const(recv) and is_const(args[0]):
            return Vo(C(recv[2] % args[0][2]))
        if f[0] == "call" and f[1] == G("builtins.type") and args == [C("")] or f == G("builtins.str") and tuple(args) == (C(""),):
            return Vo(C(""))
        if name == "get" and recv == G(RI + ".percent_escapes") or name == "get" and recv is not None and recv[0] == "obj" and args and atoms(args[0]) is not None and (is_text(args[0]) or is_const(args[0])):
            a = atoms(args[0])
            ok = len(a) == 2 and all(x[0] == "l" and x[1] in HEX - {"%"} for x in a)
            return Vo(C(int(said(a), 16)) if ok else args[1] if len(args) > 1 else NONE)
        if f == G(RI + ".unescape") or name == "type_name":
            return None
        return DataRule.call(self, eng, node, f, args, kws, st, fr) if f == G(RI + ".unescape") else super().call(eng, node, f, args, kws, st, fr)

    def type_name(self, eng, t):
        return "builtins.str" if is_text(t) else super().type_name(eng, t)


def encoding(ck, p, consts):
    f = p.func(RI + ":re_pct_encode")
    for i in list(range(33)) + [ord(c) for c in "%:@/?#&=,[]"] + [127]:
        rule = Plain(consts, chr(i))
        r = Run(p, rule)
        got = r.call(f, (("p", "$m"),), r.st)
        ck.count("characters")
        ck.judge(len(got) == 1 and got[0].kind == "v" and is_const(got[0].val) and got[0].val[2] in ("%%%02X" % i, "%%%02x" % i), "encoding", "re_pct_encode", "postgresql/resolved/riparse.py:%d" % f.node.lineno,
                 "the escape of the character %d: got %s" % (i, "; ".join(show(o.val)[:60] for o in got)))
    f = p.func(RI + ":unescape")
    n = lambda s: sym(s, "%")
    for what, t in (("no escape", (n("a"),)), ("escapes", (n("a"), C("%2F"), n("b"), C("%25"), n("c"))), ("escapes at the ends", (C("%20"), n("a"), C("%3a"))), ("two in a row", (n("a"), C("%41%42"))),
                    ("a percent sign and no digits", (n("a"), C("%zz"), n("b"))), ("a percent sign at the end", (n("a"), C("%"))), ("an escape of a percent sign before digits", (C("%2541"),)), ("nothing", (C(""),)), ("a digit missing", (n("a"), C("%4")))):
        t = norm(("cat", t)) if len(t) > 1 else t[0]
        rule = Plain(consts)
        r = Run(p, rule)
        ck.count("texts")
        got = r.call(f, (t,), r.st)
        want = text(decode(atoms(t)))
        ck.judge(len(got) == 1 and got[0].kind == "v" and atoms(got[0].val) is not None and plain(norm(got[0].val)) == plain(want), "encoding", "unescape", "postgresql/resolved/riparse.py:%d" % f.node.lineno,
                 "%s: expected %s, got %s%s" % (what, said(atoms(want)), "; ".join(said(atoms(o.val)) if o.kind == "v" and atoms(o.val) is not None else show(o.val)[:80] for o in got[:3]), " (%s)" % rule.odd[0] if rule.odd else ""))
