"""A layout domain for byte strings.

A byte string is a sequence of parts: constant bytes, fixed-width network fields ("pk", struct code, value term) and
opaque fields whose length is a symbol.  Packing, concatenation, slicing, splitting at NUL and unpacking are interpreted
on such sequences, so that a writer's result is its layout, and a reader applied to a layout yields the fields it picks."""
import struct
from .absint import *      # noqa
from .absint import Rule, Out, C, G, NONE, ModuleRule, is_const, catn, cat, show, mk_add

WIDTH = {"c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8}
CANON = {"i": "l", "I": "L"}
OPTCODE = {"int2": "h", "uint2": "H", "int4": "l", "uint4": "L", "int8": "q", "uint8": "Q"}
LEN = G("builtins.len")


def codes(fmt):
    """'!LhLhlh' -> (order, [code...]); 'Ns' gives ('s', N)"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order, i = "@", 0
    if fmt and fmt[0] in "!<>=@":
        order, i = fmt[0], 1
    r, n = [], ""
    for ch in fmt[i:]:
        if ch.isdigit():
            n += ch
        elif ch.isspace():
            continue
        else:
            k = int(n) if n else 1
            if ch == "s":
                r.append(("s", k))
            elif ch == "x":
                r.append(("x", k))
            else:
                r += [CANON.get(ch, ch)] * k
            n = ""
    return order, r


def pk(code, v, order="!"):
    """a fixed-width field; network order unless said otherwise"""
    if is_const(v) and order in "!>":
        try:
            return C(struct.pack("!" + code, v[2]))
        except struct.error:
            pass
    if WIDTH[code] == 1 or order in "!>":
        return ("pk", code, v)
    return ("pk", order + code, v)


def lin(t):
    """linear form {term: coef, None: const} or None"""
    if is_const(t):
        return {None: t[2]} if t[1] in ("int", "bool") else None
    if t[0] == "op" and t[1] in "+-":
        a, b = lin(t[2]), lin(t[3])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == "+" else -v)
        return {k: v for k, v in r.items() if v or k is None}
    if t[0] == "op" and t[1] == "*":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if is_const(y) and y[1] == "int":
                a = lin(x)
                return {k: v * y[2] for k, v in a.items()} if a is not None else None
    if t[0] == "op" and t[1] == "<<" and is_const(t[3]):
        return lin(("op", "*", t[2], C(1 << t[3][2])))
    return {t: 1, None: 0}


def unlin(l):
    t = None
    for k in sorted((k for k in l if k is not None), key=repr):
        x = k if l[k] == 1 else ("op", "*", k, C(l[k]))
        t = x if t is None else ("op", "+", t, x)
    c = l.get(None, 0)
    if t is None:
        return C(c)
    return mk_add(t, C(c))


class Layout:
    """operations; `fixed` maps opaque terms to their width, `nul` holds terms that may contain NUL"""

    def __init__(self, fixed=None, nul=(), nonempty=()):
        self.fixed, self.nul, self.nonempty = dict(fixed or {}), set(nul), set(nonempty)

    def isbytes(self, t):
        return (is_const(t) and t[1] == "bytes") or t[0] == "pk" or (t[0] == "cat" and any(self.isbytes(x) for x in t[1])) \
            or t in self.fixed or t in self.nul or (t[0] == "p" and str(t[1]).startswith("$"))

    def parts(self, t):
        if t[0] == "cat":
            r = []
            for x in t[1]:
                r += self.parts(x)
            return r
        if t[0] == "call" and t[1] == G("builtins.bytes") and len(t[2]) == 1:
            return self.parts(t[2][0])
        if is_const(t) and t[2] == b"":
            return []
        return [t]

    def plen(self, p):
        if is_const(p):
            return {None: len(p[2])}
        if p[0] == "pk":
            return {None: WIDTH[p[1][-1]]}
        if p in self.fixed:
            return {None: self.fixed[p]}
        return {("call", LEN, (p,), ()): 1, None: 0}

    def length(self, t):
        r = {None: 0}
        for p in self.parts(t):
            for k, v in self.plen(p).items():
                r[k] = r.get(k, 0) + v
        return r

    def cut(self, parts, pos):
        """split at linear position -> (left, right) or None"""
        cur = {None: 0}
        for i, p in enumerate(parts):
            d = {k: pos.get(k, 0) - cur.get(k, 0) for k in set(pos) | set(cur)}
            if not any(v for k, v in d.items() if k is not None):
                n = d.get(None, 0)
                if n == 0:
                    return parts[:i], parts[i:]
                if is_const(p) and 0 < n < len(p[2]):
                    return parts[:i] + [C(p[2][:n])], [C(p[2][n:])] + parts[i + 1:]
                if n < 0:
                    return None
            for k, v in self.plen(p).items():
                cur[k] = cur.get(k, 0) + v
        d = {k: pos.get(k, 0) - cur.get(k, 0) for k in set(pos) | set(cur)}
        if not any(v for k, v in d.items() if k is not None):
            if d.get(None, 0) == 0:
                return parts, []
            if d.get(None, 0) > 0:
                return parts, []        # slicing past the end
        return None

    def nonneg(self, d):
        return all(v >= 0 for v in d.values())

    def slice(self, t, lo, hi):
        parts = self.parts(t)
        total = self.length(t)

        def pos(x, dflt):
            if x == NONE:
                return dflt
            l = lin(x)
            if l is None:
                return None
            if len(l) == 1 and l.get(None, 0) < 0:
                r = dict(total)
                r[None] = r.get(None, 0) + l[None]
                return r
            return l
        a, b = pos(lo, {None: 0}), pos(hi, total)
        if a is None or b is None:
            return None
        c = self.cut(parts, a)
        if c is None:
            return None
        left, right = c
        d = {k: b.get(k, 0) - a.get(k, 0) for k in set(a) | set(b)}
        if self.nonneg({k: -v for k, v in d.items()}):
            return C(b"")
        c = self.cut(right, d)
        if c is None:
            return None
        return catn(c[0], b"")

    def find0(self, parts):
        """-> (parts before the first NUL, parts after it) / None if unknown / False if there is none"""
        for i, p in enumerate(parts):
            if is_const(p):
                j = p[2].find(b"\0")
                if j >= 0:
                    return parts[:i] + ([C(p[2][:j])] if j else []), ([C(p[2][j + 1:])] if j + 1 < len(p[2]) else []) + parts[i + 1:]
            elif p[0] == "pk" or p in self.nul:
                return None
        return False

    def split0(self, t, n):
        parts, r = self.parts(t), []
        while n != 0:
            f = self.find0(parts)
            if f is None:
                return None
            if f is False:
                break
            r.append(catn(f[0], b""))
            parts = f[1]
            n -= 1
        return r + [catn(parts, b"")]

    def endswith(self, t, suf):
        ps = self.parts(t)
        if not ps:
            return suf == b""
        if is_const(ps[-1]) and len(ps[-1][2]) >= len(suf):
            return ps[-1][2].endswith(suf)
        return None

    def unpack(self, fmt, t):
        """-> list of values; a field that is not where the format looks becomes ('misread', ...)"""
        order, cs = codes(fmt)
        parts, r = self.parts(t), []
        for c in cs:
            w = c[1] if isinstance(c, tuple) else WIDTH[c]
            k = self.cut(parts, {None: w})
            if k is None or self.length(catn(k[0], b"")) != {None: w}:
                return r + [("misread", str(c), catn(parts, b""))]
            here, parts = k
            one = catn(here, b"")
            if isinstance(c, tuple):
                if c[0] == "s":
                    r.append(one)
                continue
            if order in "!>" or w == 1:
                if is_const(one):
                    r.append(C(struct.unpack("!" + c, one[2])[0]))
                    continue
                if one[0] == "pk":
                    if one[1] == c:
                        r.append(one[2])
                    elif one[1][-1] == c[-1] or len(one[1]) > 1:
                        r.append(("misread", "byte order " + c, one))
                    elif WIDTH[one[1]] == w:
                        r.append(("reread", one[1], c, one[2]))
                    else:
                        r.append(("misread", c, one))
                    continue
                r.append(("field", c, one))
            else:
                r.append(("misread", "order " + order + c, one))
        return r

    def equal(self, a, b):
        """are two layouts the same? True/False/None"""
        if a == b:
            return True
        la, lb = self.length(a), self.length(b)
        d = {k: la.get(k, 0) - lb.get(k, 0) for k in set(la) | set(lb)}
        if not any(v for k, v in d.items() if k is not None) and d.get(None, 0) != 0:
            return False
        if all(v >= 0 for v in d.values()) and d.get(None, 0) > 0 or all(v <= 0 for v in d.values()) and d.get(None, 0) < 0:
            return False
        pa, pb = self.parts(a), self.parts(b)
        if len(pa) > len(pb):
            pa, pb = pb, pa
        # a length word is never the NULL marker
        for x, y in ((pa, pb), (pb, pa)):
            if x and is_const(x[0]) and x[0][2][:4] == b"\xff\xff\xff\xff" and y and y[0][0] == "pk":
                v = y[0][2]
                l = lin(v)
                if l is not None and self.nonneg(l) and all(k is None or k[0] == "call" and k[1] == LEN for k in l):
                    return False
            if x and y and is_const(x[0]) and is_const(y[0]):
                n = min(len(x[0][2]), len(y[0][2]))
                if x[0][2][:n] != y[0][2][:n]:
                    return False
        return None


class LayoutRule(Rule):
    max_depth = 8
    widen_after = 24
    domain = "layout"

    def __init__(self, layout=None):
        self.L = layout or Layout()

    def inline(self, eng, func):
        return True

    def may_raise(self, eng, f, node, st):
        return False

    def module_rule(self, optimized):
        return LayoutModuleRule(optimized)

    # struct.Struct objects kept in classes
    def getattr(self, eng, node, base, attr, st, fr):
        c = eng.cls_of(base)
        if c is not None and st.heap.get((base, attr)) is None:
            owner, v = eng.class_attr(c, attr)
            if v is not None and v[0] in ("call", "ret", "obj", "bound", "c") and not eng.instance_assigned(c, attr):
                if not (v[0] == "call" and v[1] in (G("builtins.property"), G("builtins.staticmethod"), G("builtins.classmethod"))):
                    if v[0] != "ret":
                        return [Out("v", st, v)]
        s = self.struct_of(base)
        if s is not None:
            if attr in ("format",):
                return [Out("v", st, C(s))]
            if attr == "size":
                return [Out("v", st, C(struct.calcsize(s)))]
        return None

    def struct_of(self, t):
        if t[0] == "call" and t[1] == G("struct.Struct") and t[2]:
            f = t[2][0]
            if is_const(f):
                return f[2]
        return None

    def codec(self, f):
        """-> (kind, fmt) for pack/unpack like callables; kind pack1, unpack1, packn, unpackn"""
        if f[0] == "attr":
            s = self.struct_of(f[1])
            if s is not None and f[2] in ("pack", "unpack", "unpack_from"):
                return (f[2], s)
        if f[0] == "g":
            d = f[1]
            if d.startswith("postgresql.port.optimized."):
                n = d.rsplit(".", 1)[1]
                swap = n.startswith("swap_")
                n = n[5:] if swap else n
                for k in ("_pack", "_unpack"):
                    if n.endswith(k) and n[:-len(k)] in OPTCODE:
                        net = swap == (self.byteorder == "little")
                        return (("opt" + k), ("!" if net else ("<" if self.byteorder == "little" else ">")) + OPTCODE[n[:-len(k)]])
            if d in ("struct.pack", "struct.unpack", "struct.unpack_from"):
                return ("f" + d[7:], None)
        return None

    byteorder = "little"

    def call(self, eng, node, f, args, kws, st, fr):
        V = lambda t, s=st: [Out("v", s, t)]
        L = self.L
        if f == G("struct.Struct") and args:
            return V(("call", f, tuple(args), ()))
        if f[0] == "g" and f[1] == "postgresql.port.optimized.pack_tuple_data" and len(args) == 1:
            it = eng.exact_items(args[0], st)
            if it is None:
                return None
            return V(catn([C(b"\xff\xff\xff\xff") if x == NONE else cat(pk("L", unlin(L.length(x))), x) for x in it], b""))
        if f[0] == "g" and f[1] == "postgresql.port.optimized.parse_tuple_message" and len(args) == 1:
            return self.parse_tuple(args[0], V)
        k = self.codec(f)
        if k is not None:
            kind, fmt = k
            args = list(args)
            if kind[0] == "f":
                if not args or not is_const(args[0]):
                    return None
                fmt, kind, args = args[0][2], kind[1:], args[1:]
                if isinstance(fmt, bytes):
                    fmt = fmt.decode()
            order, cs = codes(fmt)
            if kind in ("pack", "opt_pack"):
                if any(a[0] == "star" for a in args) or any(isinstance(c, tuple) and c[0] != "x" for c in cs):
                    return None
                vals, r = list(args), []
                for c in cs:
                    if isinstance(c, tuple):
                        r.append(C(b"\0" * c[1]))
                        continue
                    if not vals:
                        return self.fails(st, node)
                    v = vals.pop(0)
                    if c == "c":
                        r.append(v)
                    else:
                        lv = lin(v)
                        r.append(pk(c, unlin(lv) if lv is not None and len(lv) > 1 else v, order))
                if vals:
                    return self.fails(st, node)
                return V(catn(r, b""))
            if not args:
                return None
            if kind == "unpack" and not L.isbytes(args[0]):
                return None
            need = sum(c[1] if isinstance(c, tuple) else WIDTH[c] for c in cs)
            off = args[1] if len(args) > 1 else None
            t = args[0]
            if off is not None:
                t = L.slice(t, off, NONE)
                if t is None:
                    return None
            if kind == "unpack":
                ln = L.length(t)
                if len(ln) == 1 and ln[None] != need or self.L.nonneg(ln) and ln[None] > need:
                    return self.fails(st, node)
            vals = L.unpack(fmt, t)
            if kind == "opt_unpack":
                return V(vals[0])
            return V(("tuple",) + tuple(vals))
        if f == LEN and len(args) == 1 and (args[0][0] in ("cat", "pk") or args[0] in L.fixed):
            return V(unlin(L.length(args[0])))
        if f[0] == "g" and f[1] in ("builtins.bytes.__len__", "builtins.tuple.__len__", "builtins.list.__len__") and len(args) == 1:
            return eng.call(node, LEN, args, (), st, fr)
        if f == G("builtins.memoryview") and len(args) == 1:
            return V(args[0])
        if f == G("builtins.bytes") and len(args) == 1 and L.isbytes(args[0]):
            return V(args[0])
        if f[0] == "g" and f[1] == "builtins.tuple.__new__" and len(args) == 2 and args[0][0] == "g":
            it = eng.exact_items(args[1], st)
            if it is not None:
                ob = ("obj", "inst:" + args[0][1], ("tuple",) + tuple(it))
                return V(ob, st.hset((ob, "$items"), ("L", tuple(it))).hset((ob, "$args"), ("args", (args[1],), ())))
        if f[0] == "g":
            c = eng.prog.class_by_dotted(f[1])
            if c is not None:
                new = eng.prog.find_method(c, "__new__")
                if new is not None and eng.stack.count(new.full) < 1:
                    return eng.call_func(node, new, [f] + list(args), kws, st, fr)
        if f[0] == "attr":
            b, m = f[1], f[2]
            if m == "tobytes" and L.isbytes(b):
                return V(b)
            if m == "append" and False:
                pass
            if L.isbytes(b):
                if m == "split" and args and args[0] == C(b"\0"):
                    n = args[1][2] if len(args) > 1 and is_const(args[1]) else (-1 if len(args) < 2 else None)
                    if n is not None:
                        r = L.split0(b, n)
                        if r is not None:
                            return [eng.new_list(tuple(r), st, node, fr)]
                if m in ("partition", "rpartition") and len(args) == 1 and args[0] == C(b"\0"):
                    r = L.split0(b, 1 if m == "partition" else -1)
                    if r is not None:
                        mid = C(b"\0")
                        tie = lambda xs: catn([y for x in xs for y in (mid, x)][1:], b"")
                        if len(r) == 1:
                            e = C(b"")
                            return V(("tuple", b, e, e) if m == "partition" else ("tuple", e, e, b))
                        return V(("tuple", r[0], mid, tie(r[1:])) if m == "partition" else ("tuple", tie(r[:-1]), mid, r[-1]))
                if m == "endswith" and args and is_const(args[0]) and args[0][1] == "bytes":
                    r = L.endswith(b, args[0][2])
                    if r is not None:
                        return V(C(r))
                if m in ("rstrip", "strip") and args and args[0] == C(b"\0"):
                    ps = L.parts(b)
                    while ps and is_const(ps[-1]) and ps[-1][2].endswith(b"\0"):
                        x = ps[-1][2].rstrip(b"\0")
                        ps = ps[:-1] + ([C(x)] if x else [])
                    if not ps or ps[-1][0] != "pk" and ps[-1] not in L.nul:
                        return V(catn(ps, b""))
                if m in ("index", "find") and args and args[0] == C(b"\0"):
                    start = args[1] if len(args) > 1 else C(0)
                    rest = L.slice(b, start, NONE)
                    fd = L.find0(L.parts(rest)) if rest is not None else None
                    if fd:
                        base = lin(start) or {None: 0}
                        ln = L.length(catn(fd[0], b""))
                        return V(unlin({k: base.get(k, 0) + ln.get(k, 0) for k in set(base) | set(ln)}))
                if m in ("startswith",) and args and is_const(args[0]) and L.parts(b) and is_const(L.parts(b)[0]):
                    p0 = L.parts(b)[0][2]
                    if len(p0) >= len(args[0][2]):
                        return V(C(p0.startswith(args[0][2])))
        return None

    def fails(self, st, node):
        return [Out("raise", st, ("exc", "struct.error", ("excval", "struct.error", node.lineno)), node)]

    def parse_tuple(self, t, V):
        """what the C reader computes (decided by the C checks)"""
        L = self.L
        head = L.unpack("!H", t)
        if not is_const(head[0]):
            return V(("misread", "H", t))
        rest, r = L.slice(t, C(2), NONE), []
        for i in range(head[0][2]):
            w = L.slice(rest, C(0), C(4))
            if w is None:
                return V(("misread", "item", t))
            rest = L.slice(rest, C(4), NONE)
            if w == C(b"\xff\xff\xff\xff"):
                r.append(NONE)
                continue
            n = L.unpack("!L", w)[0]
            it = L.slice(rest, C(0), n)
            if it is None:
                return V(("misread", "item", t))
            r.append(it)
            rest = L.slice(rest, n, NONE)
        if L.parts(rest):
            return V(("misread", "trailing", t))
        return V(("tuple",) + tuple(r))

    def subscript(self, eng, node, b, i, st, fr):
        if b[0] not in ("cat", "pk") and not (b in self.L.fixed) and not (b[0] == "p" and i[0] == "slice_obj" and self.L.isbytes(b)):
            return None
        L = self.L
        if i[0] == "slice_obj":
            if i[3] != NONE:
                return None
            r = L.slice(b, i[1], i[2])
            return [Out("v", st, r)] if r is not None else None
        r = L.slice(b, i, mk_add(i, C(1)) if not is_const(i) else (C(i[2] + 1) if i[2] != -1 else NONE))
        if r is not None and is_const(r) and len(r[2]) == 1:
            return [Out("v", st, C(r[2][0]))]
        if r is not None and r[0] == "pk" and r[1] in "B":
            return [Out("v", st, r[2])]
        return None

    def setitem(self, eng, node, b, i, v, st, fr):
        """distinct named fields are distinct keys"""
        c = eng.hget(st, (b, "$items"))
        if b[0] == "obj" and c is not None and c[0] == "D" and i[0] == "p" and str(i[1]).startswith("$"):
            items = [(k, x) for k, x in c[1] if k != i] + [(i, v)]
            return [Out("next", st.hset((b, "$items"), ("D", tuple(items))))]
        return None

    def decide(self, eng, t, st):
        L = self.L
        if t[0] in ("cat", "pk") or t in L.fixed:
            ln = L.length(t)
            if ln.get(None, 0) > 0:
                return True
        if t in L.nonempty:
            return True
        if t[0] == "cmp":
            op, a, b = t[1], t[2], t[3]
            if op == "==" and L.isbytes(a) and L.isbytes(b):
                return L.equal(a, b)
            if op == "is" and NONE in (a, b) and (L.isbytes(a) or L.isbytes(b)):
                return False
            if op in ("==", "<") and (not is_const(a) or not is_const(b)):
                la, lb = lin(a), lin(b)
                if la is not None and lb is not None:
                    d = {k: la.get(k, 0) - lb.get(k, 0) for k in set(la) | set(lb)}
                    if not any(v for k, v in d.items() if k is not None):
                        n = d.get(None, 0)
                        return n == 0 if op == "==" else n < 0
                    # lengths are not negative
                    ks = [k for k, v in d.items() if k is not None and v]
                    if all(k[0] == "call" and k[1] == LEN for k in ks):
                        if op == "==" and (all(d[k] > 0 for k in ks) and d.get(None, 0) > 0 or all(d[k] < 0 for k in ks) and d.get(None, 0) < 0):
                            return False
                        if op == "<" and all(d[k] > 0 for k in ks) and d.get(None, 0) >= 0:
                            return False
                        if op == "<" and all(d[k] < 0 for k in ks) and d.get(None, 0) < 0:
                            return True
                        # 0xFFFFFFFF is the NULL marker: no item is that long
                        if op == "==" and len(ks) == 1 and abs(d[ks[0]]) == 1 and abs(d.get(None, 0)) == 0xFFFFFFFF:
                            return False
        return None


class LayoutModuleRule(ModuleRule):
    """module and class bodies: packers built at import time are interpreted too"""
    domain = "layout"
    max_depth = 6
    INLINE = ("postgresql.python.structlib", "postgresql.protocol.version", "postgresql.python.functools")

    def __init__(self, optimized):
        ModuleRule.__init__(self, optimized)
        self.inner = LayoutRule()

    def module_rule(self, optimized):
        return LayoutModuleRule(optimized)

    def inline(self, eng, func):
        return func.module.name in self.INLINE

    def subscript(self, *a):
        return self.inner.subscript(*a)

    def call(self, eng, node, f, args, kws, st, fr):
        r = None
        if f[0] == "g" and (f[1].startswith("struct.") or f[1].startswith("builtins.") or f[1].startswith("postgresql.protocol.version.")):
            r = self.inner.call(eng, node, f, args, kws, st, fr)
        elif f[0] == "attr" and self.inner.struct_of(f[1]) is not None:
            r = self.inner.call(eng, node, f, args, kws, st, fr)
        if r is not None:
            return r
        if f[0] == "g" and eng.prog.func_by_dotted(f[1]) is not None and self.inline(eng, eng.prog.func_by_dotted(f[1])):
            return None
        return ModuleRule.call(self, eng, node, f, args, kws, st, fr)
