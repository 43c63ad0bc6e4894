"""Interpretation of the type I/O routines: wires are sequences of typed fields, numbers are linear forms (sa.lin),
dates, times, addresses and decimals are the quantities they stand for."""
import re
import struct
from fractions import Fraction
from .rules import *
from .datarule import DataRule, NODE
from . import lin

SIZE = {c: struct.calcsize("!" + c) for c in "bBhHlLqQdfiI"}
DAY = 86400 * 10 ** 6
EPOCH = 730120          # ordinal of 2000-01-01
UTC0 = ("zone", C(0))
OPT = re.compile(r"^postgresql\.port\.optimized\.(swap_)?(u?)int(2|4|8)_(pack|unpack)$")


class Types(DataRule):
    domain = "types"
    cls_consts = True

    def __init__(self, modules, ranges=None, order=()):
        self.modules = modules
        self.lin = lin.Lin(ranges)
        self.order = order          # pairs (a, b) of names with a > b
        self.warned = 0

    def module_rule(self, optimized):
        return Types(self.modules)

    # ------------------------------------------------------------ numbers
    def num(self, t):
        """the linear form of a term, None if it is not one"""
        k = t[0]
        if k == "c":
            if t[1] in ("int", "bool", "float") and t[2] == t[2] and abs(t[2]) != float("inf"):
                return lin.const(Fraction(t[2]))
            return None
        if k == "lin":
            return t[1]
        if k in ("p", "digit"):
            return lin.atom(t)
        if k == "un" and t[1] in "-+":
            a = self.num(t[2])
            return a and lin.scale(a, -1 if t[1] == "-" else 1)
        if k == "cat":
            r = lin.const(0)
            for x in t[1]:
                a = self.num(x)
                if a is None:
                    return None
                r = lin.add(r, a)
            return r
        if k == "op":
            a, b = self.num(t[2]), self.num(t[3])
            if a is None or b is None:
                return None
            if t[1] in "+-":
                return lin.add(a, b, 1 if t[1] == "+" else -1)
            if t[1] == "*":
                if not b[1]:
                    return lin.scale(a, b[0])
                if not a[1]:
                    return lin.scale(b, a[0])
            if t[1] == "**" and not a[1] and not b[1] and b[0].denominator == 1 and abs(b[0]) < 64 and (a[0] or b[0] > 0):
                return lin.const(a[0] ** int(b[0]))
            if t[1] in ("/", "//", "%") and not b[1] and b[0]:
                if t[1] == "/":
                    return lin.scale(a, 1 / b[0])
                return self.lin.div(a, b[0]) if t[1] == "//" else self.lin.mod(a, b[0])
        return None

    def L(self, t):
        return ("lin", t) if t[1] else C(int(t[0])) if t[0].denominator == 1 else ("lin", t)

    # ------------------------------------------------------------ wires
    def atoms(self, t):
        """the fields of a wire, None if it is not one"""
        if is_const(t) and t[1] == "bytes":
            return [("bytes", t[2])] if t[2] else []
        if t[0] == "wire":
            return list(t[1])
        if t[0] == "cat":
            r = []
            for x in t[1]:
                a = self.atoms(x)
                if a is None:
                    return None
                r += a
            return r
        return None

    def size(self, a):
        return len(a[1]) if a[0] == "bytes" else a[2] if a[0] == "raw" else SIZE[a[0]]

    def wire(self, atoms):
        """one value of these fields; fields of known content become bytes"""
        out = []
        for a in atoms:
            if a[0] in SIZE:
                n = self.num(a[1])
                if n is not None and not n[1] and (a[0] in "df" or n[0].denominator == 1):
                    try:
                        a = ("bytes", struct.pack("!" + a[0], float(n[0]) if a[0] in "df" else int(n[0])))
                    except struct.error:
                        pass
            if a[0] == "bytes" and out and out[-1][0] == "bytes":
                out[-1] = ("bytes", out[-1][1] + a[1])
            elif self.size(a):
                out.append(a)
        if not out:
            return C(b"")
        if len(out) == 1 and out[0][0] == "bytes":
            return C(out[0][1])
        return ("wire", tuple(out))

    def cut(self, atoms, lo, hi):
        """the fields of [lo:hi], None when a field is divided"""
        out, at = [], 0
        for a in atoms:
            n = self.size(a)
            if a[0] == "bytes":
                x = a[1][max(lo - at, 0):max(hi - at, 0)]
                if x:
                    out.append(("bytes", x))
            elif at + n <= lo or at >= hi:
                pass
            elif at >= lo and at + n <= hi:
                out.append(a)
            else:
                return None
            at += n
        return out

    def read(self, fmt, t):
        """the values of the format from the start of the data: (values, "short"), None if not known"""
        atoms = self.atoms(t)
        if atoms is None or not fmt.startswith("!"):
            return None
        out, at = [], 0
        total = sum(map(self.size, atoms))
        for m in re.finditer(r"(\d*)([a-zA-Z])", fmt[1:]):
            n, c = int(m.group(1) or 1), m.group(2)
            if c == "x":
                at += n
                continue
            if c not in SIZE:
                return None
            for _ in range(n):
                if at + SIZE[c] > total:
                    return "short"
                x = self.cut(atoms, at, at + SIZE[c])
                at += SIZE[c]
                if x is None:
                    out.append(("misread", c, at))
                elif len(x) == 1 and x[0][0] == c:
                    out.append(x[0][1])
                elif len(x) == 1 and x[0][0] == "bytes":
                    v = struct.unpack("!" + c, x[0][1])[0]
                    out.append(C(v))
                else:
                    out.append(("misread", c, at))
        if at > total:
            return "short"
        return out

    # ------------------------------------------------------------ decisions
    def decide(self, eng, t, st):
        if t[0] == "cmp" and len(t) == 4:
            a, b = t[2], t[3]
            if NONE in (a, b) and t[1] in ("is", "==") and a != b:
                o = b if a == NONE else a
                if o[0] in ("wire", "lin", "moment", "day", "td", "clock", "raw", "text", "ip", "decimal", "prim", "comp", "zone", "chars", "p", "digit", "cat", "op"):
                    return False
            if t[1] in ("==", "is") and "wire" in (a[0], b[0]) or t[1] == "==" and "cat" in (a[0], b[0]):
                x, y = self.atoms(a), self.atoms(b)
                if x is not None and y is not None:
                    x, y = self.wire(x), self.wire(y)
                    if x == y:
                        return True
                    if is_const(x) and is_const(y):
                        return x[2] == y[2]
                    if sum(map(self.size, self.atoms(x))) != sum(map(self.size, self.atoms(y))):
                        return False
            if {a[0], b[0]} & {"zone", "moment", "day"} and a[0] == b[0] and t[1] == "==":
                return a == b
            if a[0] == b[0] == "tuple" and t[1] in ("<", "<=", ">", ">=", "=="):
                x, y = self.plain(eng, a, st), self.plain(eng, b, st)
                if x is not None and y is not None:
                    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[t[1]]
            x, y = self.num(a), self.num(b)
            if x is not None and y is not None and t[1] in ("==", "<", "<=", ">", ">=", "!="):
                d = lin.add(x, y, -1)
                lo, hi = self.lin.rng(d)
                for p, q in self.order:
                    if d == lin.add(lin.atom(("p", p)), lin.atom(("p", q)), -1):
                        lo = 1
                    elif d == lin.add(lin.atom(("p", q)), lin.atom(("p", p)), -1):
                        hi = -1
                if t[1] == "==" or t[1] == "!=":
                    r = True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
                    return r if t[1] == "==" or r is None else not r
                if t[1] == "<":
                    return True if hi < 0 else False if lo >= 0 else None
                if t[1] == "<=":
                    return True if hi <= 0 else False if lo > 0 else None
                if t[1] == ">":
                    return True if lo > 0 else False if hi <= 0 else None
                if t[1] == ">=":
                    return True if lo >= 0 else False if hi < 0 else None
        n = self.num(t)
        if n is not None and t[0] != "c":
            lo, hi = self.lin.rng(n)
            return True if lo > 0 or hi < 0 else False if lo == hi == 0 else None
        if t[0] in ("wire", "cat"):
            a = self.atoms(t)
            if a is not None:
                return bool(a)
        if t[0] in ("raw", "moment", "day", "clock", "zone", "prim", "comp", "ip", "text"):
            return True
        return super().decide(eng, t, st)

    def type_name(self, eng, t):
        n = {"wire": "builtins.bytes", "text": "builtins.str", "chars": "builtins.str", "decimal": "decimal.Decimal", "uuid": "uuid.UUID", "td": "datetime.timedelta",
             "moment": "datetime.datetime", "day": "datetime.date", "clock": "datetime.time", "lin": "builtins.int", "digit": "builtins.int"}.get(t[0])
        if n is None and t[0] in ("op", "un") and self.num(t) is not None:
            n = "builtins.int"
        if n is None and t[0] == "cat" and self.atoms(t) is not None:
            n = "builtins.bytes"
        return n or super().type_name(eng, t)

    # ------------------------------------------------------------ objects
    def getattr(self, eng, node, base, attr, st, fr):
        V = lambda v: [Out("v", st, v)]
        k = base[0]
        if k == "op" and base[1] == "-" and base[2][0] == base[3][0] == "moment":
            a, b = base[2], base[3]
            if (a[1] == NONE) != (b[1] == NONE):
                return self.raises(eng, "TypeError", node, st)
            base, k = ("td", self.L(lin.add(self.num(a[2]), self.num(b[2]), -1))), "td"
        if k == "td":
            T = self.num(base[1])
            if T is not None:
                if attr == "days":
                    return V(self.L(self.lin.div(T, DAY)))
                if attr == "seconds":
                    return V(self.L(self.lin.div(self.lin.mod(T, DAY), 10 ** 6)))
                if attr == "microseconds":
                    return V(self.L(self.lin.mod(T, 10 ** 6)))
        if k == "clock" and attr in ("hour", "minute", "second", "microsecond", "tzinfo"):
            return V(base[1 + ("hour", "minute", "second", "microsecond", "tzinfo").index(attr)])
        if k == "decimal" and attr in ("sign", "digits", "exponent"):
            return V(base[1 + ("sign", "digits", "exponent").index(attr)])
        if k == "struct" and attr in ("pack", "unpack", "unpack_from"):
            return V(("prim", "pack" if attr == "pack" else "unpack", base[1]))
        if k == "ip":
            # (kind, version, raw, mask)
            full = C(32 if base[2] == 4 else 128)
            r = {"version": C(base[2]), "packed": base[3], "max_prefixlen": full, "prefixlen": base[4],
                 "network": ("ip", "network", base[2], base[3], base[4]), "network_address": ("ip", "address", base[2], base[3], full)}.get(attr)
            if r is not None:
                return V(r)
        if k == "uuid" and attr == "bytes":
            return V(base[1])
        if base == G("datetime") and attr in ("MAXYEAR", "MINYEAR"):
            return V(C(9999 if attr == "MAXYEAR" else 1))
        return super().getattr(eng, node, base, attr, st, fr)

    def subscript(self, eng, node, base, idx, st, fr):
        V = lambda v: [Out("v", st, v)]
        a = self.atoms(base) if base[0] in ("wire", "cat") or is_const(base) and base[1] == "bytes" else None
        if a is not None and a != []:
            total = sum(map(self.size, a))
            ints = lambda t: t[2] if is_const(t) else (int(self.num(t)[0]) if self.num(t) is not None and not self.num(t)[1] else "?")
            if idx[0] == "slice_obj":
                lo, hi, step = map(ints, idx[1:])
                if "?" not in (lo, hi, step) and step in (None, 1):
                    lo, hi, _ = slice(lo, hi).indices(total)
                    x = self.cut(a, lo, hi)
                    return V(self.wire(x)) if x is not None else V(("misread", "slice", lo))
            else:
                i = ints(idx)
                if isinstance(i, int):
                    if not -total <= i < total:
                        return self.raises(eng, "IndexError", node, st)
                    i %= total
                    x = self.cut(a, i, i + 1)
                    if x is None:
                        return V(("misread", "byte", i))
                    return V(C(x[0][1][0]) if x[0][0] == "bytes" else x[0][1] if x[0][0] == "B" else ("misread", "byte", i))
        if base[0] == "chars":
            n = len(base[1])
            if idx[0] == "slice_obj" and all(is_const(x) for x in idx[1:]):
                return V(("chars", base[1][slice(*[x[2] for x in idx[1:]])]))
            if is_const(idx) and -n <= idx[2] < n:
                return V(("chars", (base[1][idx[2]],)))
        if base[0] == "decimal" and is_const(idx) and 0 <= idx[2] < 3:
            return V(base[1 + idx[2]])
        return super().subscript(eng, node, base, idx, st, fr)

    def on_unpack(self, eng, elts, v, st, fr):
        a = self.atoms(v) if v[0] in ("wire", "cat") or is_const(v) and v[1] == "bytes" else None
        if a is not None:
            its = self.byte_items(a)
            if its is not None:
                return ("tuple",) + tuple(its)
        return None

    def byte_items(self, a):
        out = []
        for x in a:
            if x[0] == "bytes":
                out += [C(i) for i in x[1]]
            elif x[0] == "B":
                out.append(x[1])
            else:
                out += [("misread", "byte", i) for i in range(self.size(x))]
        return out

    def items_of(self, eng, t, st):
        if t[0] in ("wire", "cat") or is_const(t) and t[1] == "bytes":
            a = self.atoms(t)
            if a is not None:
                return self.byte_items(a), st
        if t[0] == "chars":
            return [("chars", (c,)) for c in t[1]], st
        if is_const(t) and t[1] == "str":
            return [C(c) for c in t[2]], st
        if t[0] == "repeat":
            return [t[1]] * t[2], st
        if t[0] in ("misread", "unpadded"):
            return [t if t[0] == "misread" else ("misread", "iter", "text without its leading zeros")], st
        return super().items_of(eng, t, st)

    def iterate(self, eng, it, st):
        if it[0] in ("wire", "chars", "repeat", "misread", "unpadded"):
            return self.items_of(eng, it, st)
        return super().iterate(eng, it, st)

    def endless(self, a):
        if a[0] == "cycle":
            return lambda i: a[1][i % len(a[1])]
        return super().endless(a)

    # ------------------------------------------------------------ calls
    def fold(self, eng, t, st):
        if t[0] == "tuple":
            return ("tuple",) + tuple(self.fold(eng, x, st) for x in t[1:])
        if t[0] in ("cmp", "not"):
            b = eng.truth(t, st)
            return t if b is None else C(b)
        return t

    def small(self, t):
        n = self.num(t)
        return int(n[0]) if n is not None and not n[1] and n[0].denominator == 1 else None

    def call(self, eng, node, f, args, kws, st, fr):
        r = self.types_call(eng, node, f, list(args), dict(kws), st, fr)
        return r if r is not None else super().call(eng, node, f, args, kws, st, fr)

    def types_call(self, eng, node, f, args, kw, st, fr):
        V = lambda v, s=None: [Out("v", s or st, v)]
        if any(a[0] == "star" for a in args):
            nx, s = [], st
            for a in args:
                r = self.items_of(eng, a[1], s) if a[0] == "star" else ([a], s)
                if r is None:
                    return None
                nx += r[0]
                s = r[1]
            return eng.call(node, f, nx, tuple(kw.items()), s, fr)
        recv, name = callee(f)
        full = f[1] if f[0] == "g" else None
        if f[0] == "attr" and f[1][0] == "g":
            full = f[1][1] + "." + f[2]
        # fields of the wire
        if full:
            m = OPT.match(full)
            if m:
                c = {"2": "h", "4": "l", "8": "q"}[m.group(3)]
                f = ("prim", m.group(4), ("!" if m.group(1) else "=") + (c.upper() if m.group(2) else c))
            elif full in ("struct.pack", "struct.unpack", "struct.unpack_from") and args and is_const(args[0]):
                f, args = ("prim", full[7:].replace("_from", ""), args[0][2]), args[1:]
            elif full == "struct.Struct" and args and is_const(args[0]):
                return V(("struct", args[0][2]))
            elif full == "postgresql.python.functools.Composition" and len(args) == 1:
                r = self.items_of(eng, args[0], st)
                if r is not None:
                    return V(("comp",) + tuple(r[0]), r[1])
        if f[0] == "comp" and len(args) == 1:
            cur, outs = [(st, args[0])], []
            for g in f[1:]:
                nx = []
                for s, x in cur:
                    for o in eng.call(node, g, [x], (), s, fr):
                        (nx.append((o.st, o.val)) if o.kind == "v" else outs.append(o))
                cur = nx
            return [Out("v", s, x) for s, x in cur] + outs
        if f[0] == "prim":
            fmt = f[2]
            if f[1] == "pack":
                codes = []
                for m in re.finditer(r"(\d*)([a-zA-Z])", fmt):
                    codes += [m.group(2)] * int(m.group(1) or 1)
                if len(codes) != len(args) or not all(c in SIZE for c in codes):
                    return self.raises(eng, "struct.error", node, st)
                if not fmt.startswith("!"):
                    return V(("misread", fmt, 0))
                return V(self.wire([(c, a) for c, a in zip(codes, args)]))
            if not args:
                return None
            x = args[0]
            if len(args) > 1 and self.small(args[1]) is not None:
                o = self.subscript(eng, node, x, ("slice_obj", args[1], NONE, NONE), st, fr)
                x = o[0].val if o else x
            r = self.read(fmt, x)
            if r == "short":
                return self.raises(eng, "struct.error", node, st)
            if r is None:
                return V(("misread", fmt, 0))
            single = len(re.sub(r"\d+x|x", "", fmt.lstrip("!="))) == 1 and f in self.single
            if full and OPT.match(full):
                return V(r[0])
            return V(("tuple",) + tuple(r))
        if full == "builtins.tuple.__new__" and len(args) == 2 and args[0][0] == "g":
            r = self.items_of(eng, args[1], st)
            c = eng.prog.class_by_dotted(args[0][1])
            if r is not None and c is not None:
                ob = eng.alloc("inst:" + c.full, node, fr, r[1])
                return V(ob, r[1].hset((ob, "$made"), C(True)).hset((ob, "$items"), ("L", tuple(r[0]))))
        # the values of Python's own types
        if full == "builtins.divmod" and len(args) == 2:
            a, b = self.num(args[0]), self.num(args[1])
            if a is not None and b is not None and not b[1] and b[0]:
                return V(("tuple", self.L(self.lin.div(a, b[0])), self.L(self.lin.mod(a, b[0]))))
        if full in ("math.floor", "builtins.int", "builtins.round", "builtins.float", "math.trunc") and len(args) == 1:
            if args[0][0] == "chars":
                return self.to_int(eng, args[0][1], 10, node, st)
            n = self.num(args[0])
            if n is not None:
                if full == "builtins.float":
                    return V(args[0])
                if full == "math.floor":
                    return V(self.L(self.lin.div(n, 1)))
                if lin.is_int(n):
                    # a whole number that was computed as a double: its value is near, on either side
                    if full == "builtins.round" or not self.inexact(args[0]):
                        return V(self.L(n))
                    return V(("lossy", full[9:], self.L(n)))
                return V(("lossy", full.rsplit(".")[-1], args[0]))
        if full == "builtins.int" and len(args) == 2 and args[0][0] == "chars" and is_const(args[1]):
            return self.to_int(eng, args[0][1], args[1][2], node, st)
        if full == "builtins.str" and len(args) == 1:
            r = self.decimal_text(args[0])
            if r is not None:
                return V(r)
        if full == "builtins.len" and len(args) == 1:
            a = self.atoms(args[0]) if args[0][0] in ("wire", "cat") else None
            if a is not None:
                return V(C(sum(map(self.size, a))))
            if args[0][0] == "chars":
                return V(C(len(args[0][1])))
            if args[0][0] == "text":
                return V(("lin", lin.atom(("chars of", args[0][1]))))
        if full in ("builtins.bytes", "builtins.memoryview", "builtins.bytearray") and len(args) == 1:
            if args[0][0] in ("wire", "cat") and self.atoms(args[0]) is not None or is_const(args[0]) and args[0][1] == "bytes":
                return V(args[0])
            if full == "builtins.bytes" and (args[0][0] == "tuple" or args[0][0] in ("obj", "items")):
                r = self.items_of(eng, args[0], st)
                if r is not None:
                    return V(self.wire([("B", x) for x in r[0]]), r[1])
        if recv is not None and name == "tobytes" and self.atoms(recv) is not None:
            return V(recv)
        if full == "builtins.sum" and len(args) == 1:
            r = self.items_of(eng, args[0], st)
            ns = [self.num(x) for x in r[0]] if r is not None else [None]
            if all(n is not None for n in ns):
                t = lin.const(0)
                for n in ns:
                    t = lin.add(t, n)
                return V(self.L(t), r[1])
        if full in ("operator.mul", "operator.add", "operator.sub") and len(args) == 2:
            n = self.num(("op", {"mul": "*", "add": "+", "sub": "-"}[full[9:]], args[0], args[1]))
            if n is not None:
                return V(self.L(n))
        if full == "itertools.cycle" and len(args) == 1:
            r = self.items_of(eng, args[0], st)
            if r is not None and r[0]:
                return V(("cycle", tuple(r[0])), r[1])
        if full == "itertools.repeat" and len(args) == 2 and self.small(args[1]) is not None:
            return V(("repeat", args[0], max(0, self.small(args[1]))))
        if full == "builtins.range" and args and not all(map(is_const, args)) and all(self.small(a) is not None for a in args):
            return V(("tuple",) + tuple(C(x) for x in range(*[self.small(a) for a in args])))
        if full in ("builtins.max", "builtins.min") and len(args) > 1 and all(self.small(a) is not None for a in args):
            return V(C({"max": max, "min": min}[full[9:]](self.small(a) for a in args)))
        if full == "itertools.groupby" and len(args) == 2:
            r = self.items_of(eng, args[0], st)
            if r is not None:
                cur, outs = self.many(eng, node, args[1], [(x,) for x in r[0]], r[1], fr)
                if len(cur) == 1 and not outs and all(is_const(k) for k in cur[0][1]):
                    s, groups = cur[0][0], []
                    for k, x in zip(cur[0][1], r[0]):
                        if not groups or groups[-1][0] != k:
                            groups.append((k, []))
                        groups[-1][1].append(x)
                    return [self.new(eng, "iter", [("tuple", k, ("tuple",) + tuple(xs)) for k, xs in groups], node, s, fr)]
        if full == "builtins.map" and len(args) == 2 and args[0] == G("builtins.next") and args[1][0] == "cycle":
            its, s = [], st
            for x in args[1][1]:
                r = self.items_of(eng, x, s)
                if r is None:
                    return None
                its.append(r[0])
                s = r[1]
            out = []
            for i in range(max(map(len, its)) + 1):
                done = False
                for x in its:
                    if i >= len(x):
                        done = True
                        break
                    out.append(x[i])
                if done:
                    break
            return [self.new(eng, "iter", out, node, s, fr)]
        if name == "join" and recv is not None and is_const(recv) and recv[1] == "bytes" and len(args) == 1:
            r = self.items_of(eng, args[0], st)
            if r is not None:
                parts = []
                for i, x in enumerate(r[0]):
                    a = self.atoms(x)
                    if a is None:
                        return V(("misread", "join", i))
                    parts += ([("bytes", recv[2])] if i and recv[2] else []) + a
                return V(self.wire(parts), r[1])
        if recv is not None and recv[0] == "unpadded" and args and is_const(args[0]) and args[0][2] >= len(recv[1]) and (name == "zfill" or name == "rjust" and args[1:] == [C("0")]):
            recv = ("chars", recv[1])
        if recv is not None and recv[0] == "unpadded" and name in ("rjust", "zfill", "ljust"):
            return V(("misread", name, "text without its leading zeros"))
        if recv is not None and recv[0] == "chars":
            cs = recv[1]
            if name == "split" and len(args) == 1 and is_const(args[0]):
                out = [[]]
                for c in cs:
                    if c == args[0]:
                        out.append([])
                    else:
                        out[-1].append(c)
                return [self.new(eng, "list", [("chars", tuple(x)) for x in out], node, st, fr)]
            if name in ("rjust", "ljust") and args and is_const(args[0]):
                pad = (args[1] if len(args) > 1 else C(" "),) * max(0, args[0][2] - len(cs))
                return V(("chars", pad + cs if name == "rjust" else cs + pad))
            if name == "zfill" and is_const(args[0]):
                return V(("chars", (C("0"),) * max(0, args[0][2] - len(cs)) + cs))
        if recv is not None and recv[0] == "obj" and recv[1] == "dict" and name in ("get", "__getitem__") and args:
            d = eng.hget(st, (recv, "$items"))
            if d is not None and d[0] == "D":
                x = args[0]
                a = self.atoms(x)
                if a is not None:
                    x = self.wire(a)
                x = self.fold(eng, x, st)
                for k, v in d[1]:
                    if k == x:
                        return V(v)
                if name == "get":
                    return V(args[1] if len(args) > 1 else NONE)
                return self.raises(eng, "KeyError", node, st)
        if full == "datetime.date.fromordinal" and len(args) == 1:
            return V(("day", args[0]))
        if full == "datetime.date" and len(args) == 3 and all(map(is_const, args)):
            import datetime
            return V(("day", C(datetime.date(*[a[2] for a in args]).toordinal())))
        if full == "datetime.datetime" and all(map(is_const, args)) and len(args) >= 3:
            import datetime
            d = datetime.datetime(*[a[2] for a in args]) - datetime.datetime(2000, 1, 1)
            return V(("moment", NONE, C((d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds)))
        if full == "datetime.timedelta":
            names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
            unit = dict(zip(names, (DAY, 10 ** 6, 1, 1000, 60 * 10 ** 6, 3600 * 10 ** 6, 7 * DAY)))
            t = lin.const(0)
            for k, a in list(zip(names, args)) + list(kw.items()):
                n = self.num(a)
                if n is None or k not in unit:
                    return V(("td", ("lossy", k, a)))
                t = lin.add(t, n, unit[k])
            return V(("td", self.L(t)))
        if full == "datetime.time" and len(args) <= 5:
            a = args + [C(0)] * (4 - len(args))
            return V(("clock",) + tuple(a[:4]) + (a[4] if len(a) > 4 else kw.get("tzinfo", NONE),))
        if full == "postgresql.python.datetime.FixedOffset":
            c = eng.prog.class_by_dotted(full)
            outs = []
            for o in self.construct(eng, node, c, args, tuple(kw.items()), st, fr) or ():
                if o.kind != "v":
                    outs.append(o)
                    continue
                for o2 in eng.call_func(node, eng.meth(c, "utcoffset"), [o.val, NONE], (), o.st, fr):
                    if o2.kind == "v" and o2.val[0] == "td":
                        n = self.num(o2.val[1])
                        outs.append(Out("v", o2.st, ("zone", self.L(lin.scale(n, Fraction(1, 10 ** 6))) if n is not None else o2.val[1])))
                    else:
                        outs.append(o2)
            return outs or None
        if recv is not None and recv[0] == "zone" and name == "utcoffset":
            n = self.num(recv[1])
            return V(("td", self.L(lin.scale(n, 10 ** 6)) if n is not None else recv[1]))
        if recv is not None and recv[0] == "clock":
            if name == "utcoffset" and recv[5][0] == "zone":
                return V(("td", self.L(lin.scale(self.num(recv[5][1]), 10 ** 6))))
            if name == "replace" and set(kw) <= {"tzinfo"} and not args:
                return V(recv[:5] + (kw.get("tzinfo", recv[5]),))
        if recv is not None and recv[0] == "day" and name == "toordinal":
            return V(recv[1])
        if recv is not None and recv[0] == "moment":
            if name == "date" and self.small(recv[2]) is not None:
                return V(("day", C(EPOCH + self.small(recv[2]) // DAY)))
            if name == "replace" and set(kw) <= {"tzinfo"} and not args:
                old, new = recv[1], kw.get("tzinfo", recv[1])
                T = self.num(recv[2])
                off = lambda z: lin.const(0) if z == NONE else self.num(z[1]) if z[0] == "zone" else None
                if T is None or off(old) is None or off(new) is None:
                    return None
                # the clock stays, the moment moves
                T = lin.add(T, lin.add(off(old), off(new), -1), 10 ** 6)
                return V(("moment", new, self.L(T)))
            if name == "astimezone" and len(args) == 1 and recv[1] != NONE:
                return V(("moment", args[0], recv[2]))
            if name in ("__add__", "__radd__") and args and args[0][0] == "td":
                a, b = self.num(recv[2]), self.num(args[0][1])
                if a is not None and b is not None:
                    return V(("moment", recv[1], self.L(lin.add(a, b))))
                return V(("moment", recv[1], args[0][1]))
        if full == "warnings.warn":
            return V(NONE)
        if full == "decimal.Decimal" and len(args) == 1:
            if args[0][0] == "tuple" and len(args[0]) == 4:
                r = self.items_of(eng, args[0][2], st)
                if r is not None:
                    return V(("decimal", args[0][1], ("tuple",) + tuple(r[0]), args[0][3]), r[1])
            if is_const(args[0]) and args[0][1] == "str":
                return V(("special", args[0][2]))
            return V(args[0])
        if recv is not None and recv[0] == "decimal" and name == "as_tuple":
            return V(recv)
        if full in ("ipaddress.ip_address", "ipaddress.ip_network", "ipaddress.ip_interface") and len(args) == 1:
            kind, x, mask = full[13:], args[0], None
            if x[0] == "tuple" and len(x) == 3 and kind != "address":
                x, mask = x[1], x[2]
            if x[0] == "ip":
                if kind == "address" and x[1] != "address":
                    return self.raises(eng, "ValueError", node, st)
                return V(("ip", kind, x[2], x[3], x[4]))
            a = self.atoms(x)
            n = sum(map(self.size, a)) if a is not None else 0
            if n in (4, 16):
                m = mask if mask is not None else C(n * 8)
                return V(("ip", kind, 4 if n == 4 else 6, x, m))
            return self.raises(eng, "ValueError", node, st)
        if recv is not None and recv[0] == "ip" and name == "supernet" and set(kw) == {"new_prefix"}:
            return V(recv[:4] + (kw["new_prefix"],))
        if full == "uuid.UUID":
            x = kw.get("bytes", args[0] if args else NONE)
            if "bytes" in kw or x[0] == "uuid":
                return V(("uuid", x) if x[0] != "uuid" else x)
            return V(("uuid", ("parsed", x)))
        if full == "builtins.hasattr" and len(args) == 2 and args[0][0] in ("obj", "tuple") and is_const(args[1]):
            return V(C(args[0][1] == "dict" and args[1][2] in ("items", "keys", "values", "get")))
        return None

    single = ()

    def inexact(self, t):
        """the number was made with a division or a fraction: as a double it is only near its value"""
        if t[0] == "op":
            return t[1] == "/" or self.inexact(t[2]) or self.inexact(t[3])
        if t[0] == "cat":
            return any(map(self.inexact, t[1]))
        if t[0] == "un":
            return self.inexact(t[2])
        if t[0] == "lin":
            return not lin.is_int(t[1])
        return False

    def to_int(self, eng, cs, base, node, st):
        r = lin.const(0)
        if not cs:
            return self.raises(eng, "ValueError", node, st)
        for c in cs:
            if is_const(c):
                if not c[2].isalnum() or int(c[2], 36) >= base:
                    return self.raises(eng, "ValueError", node, st)
                n = lin.const(int(c[2], base))
            elif c[0] == "digit":
                n = lin.atom(c)
            else:
                return None
            r = lin.add(lin.scale(r, base), n)
        return [Out("v", st, self.L(r))]

    def decimal_text(self, t):
        """the decimal digits of a number made of symbols that are digits"""
        n = self.num(t)
        if n is None or not lin.is_int(n):
            return None
        if not n[1]:
            return ("chars", tuple(C(c) for c in str(int(n[0]))))
        d = {}
        for a, c in n[1]:
            if a[0] != "digit" or not re.match(r"^10*$", str(c)):
                return None
            if c in d:
                return None
            d[int(c)] = a
        c = int(n[0])
        top = max(list(d) + [10 ** (len(str(c)) - 1) if c else 1])
        out = []
        while top:
            k = (c // top) % 10
            if top in d and k:
                return None
            out.append(d.get(top) or C(str(k)))
            top //= 10
        lead = out[0]
        if lead[0] == "digit" and self.lin.arng(lead)[0] < 1:
            # digits in front may be zeros, that the text does not have
            return ("unpadded", tuple(out))
        return ("chars", tuple(out))

    # ------------------------------------------------------------ comparison
    def canon(self, eng, t, st, depth=0):
        """a value in one form"""
        if t[0] in ("wire", "cat") or is_const(t) and t[1] == "bytes":
            a = self.atoms(t)
            if a is not None:
                w = self.wire([(x[0], self.L(self.num(x[1]))) if x[0] in SIZE and self.num(x[1]) is not None else x for x in a])
                return w
        n = self.num(t) if not (is_const(t) and t[1] == "bool") else None
        if n is not None:
            return self.L(n)
        if t[0] == "op" and t[1] in "+-" and t[2][0] == "moment":
            return ("op", t[1], self.canon(eng, t[2], st), self.canon(eng, t[3], st))
        if t[0] in ("moment", "day", "td", "clock", "zone", "lossy", "ip"):
            return (t[0],) + tuple(self.canon(eng, x, st) if isinstance(x, tuple) else x for x in t[1:])
        if t[0] == "decimal":
            ds = [self.num(x) if x[0] != "chars" else None for x in t[2][1:]]
            e = self.small(t[3])
            if e is not None and all(d is not None for d in ds):
                v = lin.const(0)
                for d in ds:
                    v = lin.add(lin.scale(v, 10), d)
                s = self.small(t[1])
                return ("decimal", s, self.L(lin.scale(v, Fraction(10) ** e)), e)
            return t
        if t[0] == "tuple":
            return ("tuple",) + tuple(self.canon(eng, x, st) for x in t[1:])
        if t[0] == "obj" and depth < 6:
            if t[1] == "dict":
                d = eng.hget(st, (t, "$items"))
                if d is not None and d[0] == "D":
                    return ("mapping",) + tuple((self.canon(eng, k, st), self.canon(eng, v, st)) for k, v in d[1])
            it = eng.exact_items(t, st)
            if it is not None:
                return ("tuple",) + tuple(self.canon(eng, x, st, depth + 1) for x in it)
            if t[1].startswith("inst:"):
                return ("made", t[1][5:].rsplit(".", 1)[-1], tuple(sorted((k[1], self.canon(eng, v, st, depth + 1)) for k, v in st.heap.items() if k[0] == t and k[1] != "$made")))
        return t
