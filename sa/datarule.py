"""Interpretation of code that only moves values: the values are symbols, the containers that hold them are known exactly.

The calls of Python's own container functions are given their meaning here; what a class of the repository defines
(__iter__, __getitem__, __len__, __new__) is interpreted."""
import ast
from .rules import *

TYPES = {"int": int, "str": str, "bytes": bytes, "bool": bool, "float": float}
NODE = ast.parse("0").body[0].value


class DataRule(EventRule):
    initial = ()
    iterators = True
    generators = True
    max_depth = 14
    recursion = 6
    fresh = 400
    widen_after = 60
    state_cap = 4000
    modules = ()

    def inline(self, eng, func):
        return func.module.name in self.modules

    def may_raise(self, eng, f, node, st):
        return False

    def distinct(self, eng, a, b):
        return is_const(a) and is_const(b) and a[2] != b[2]

    # ------------------------------------------------------------ objects
    def cls(self, eng, t):
        if t[0] == "obj" and t[1].startswith("inst:"):
            return eng.prog.class_by_dotted(t[1][5:])

    def method(self, eng, t, name):
        c = self.cls(eng, t)
        if c is None:
            return None
        for x in eng.prog.mro(c):
            if not hasattr(x, "methods"):
                return None
            if name in x.methods:
                return x.methods[name]

    def type_name(self, eng, t):
        """the dotted name of the class of a value"""
        if is_const(t):
            return "builtins." + type(t[2]).__name__
        if t[0] == "tuple":
            return "builtins.tuple"
        if t[0] == "slice_obj":
            return "builtins.slice"
        if t[0] == "obj":
            if t[1].startswith("inst:"):
                return t[1][5:]
            return "builtins." + t[1]
        return None

    def fr(self, eng):
        return eng.module_frame(eng.prog.module(self.modules[0]))

    def items_of(self, eng, t, st):
        """(items, state) of an iteration of the value, None if it is not known"""
        m = self.method(eng, t, "__iter__")
        if m is not None and (t, "$items") not in st.heap:
            r = eng.call_func(NODE, m, [t], (), st, self.fr(eng))
            if len(r) == 1 and r[0].kind == "v":
                return self.items_of(eng, r[0].val, r[0].st)
            return None
        it, st = eng.iterated(t, st)
        return None if it is None else (list(it), st)

    def iterate(self, eng, it, st):
        m = self.method(eng, it, "__iter__")
        if m is not None and (it, "$items") not in st.heap:
            return self.items_of(eng, it, st)

    def on_for(self, eng, node, it, st):
        m = self.method(eng, it, "__iter__")
        if m is not None and (it, "$items") not in st.heap:
            return eng.call_func(node, m, [it], (), st, self.fr(eng))

    def subscript(self, eng, node, base, idx, st, fr):
        m = self.method(eng, base, "__getitem__")
        if m is not None:
            return eng.call_func(node, m, [base, idx], (), st, fr)
        it = eng.exact_items(base, st) if base[0] == "tuple" or base[0] == "obj" and base[1] == "list" else None
        if it is not None and is_const(idx) and isinstance(idx[2], int):
            if -len(it) <= idx[2] < len(it):
                return [Out("v", st, it[idx[2]])]
            return self.raises(eng, "IndexError", node, st)
        if base[0] == "obj" and base[1] == "dict" and is_const(idx):
            d = eng.hget(st, (base, "$items"))
            if d is not None and d[0] == "D" and all(is_const(k) for k, _ in d[1]):
                for k, v in d[1]:
                    if k[2] == idx[2]:
                        return [Out("v", st, v)]
                return self.raises(eng, "KeyError", node, st)

    def raises(self, eng, name, node, st):
        return [Out("raise", st, ("exc", "builtins." + name, ("site", getattr(node, "lineno", 0))), node)]

    def getattr(self, eng, node, base, attr, st, fr):
        if attr == "__class__":
            n = self.type_name(eng, base)
            if n:
                return [Out("v", st, G(n))]
            if base[0] == "p":
                return [Out("v", st, G("builtins.object"))]
        if base[0] == "slice_obj" and attr in ("start", "stop", "step"):
            return [Out("v", st, base[1 + ("start", "stop", "step").index(attr)])]

    def decide(self, eng, t, st):
        if t[0] == "cmp" and t[1] in ("is", "==") and len(t) == 4:
            a, b = t[2], t[3]
            if a[0] == "g" and b[0] == "g":
                return a[1] == b[1]
            if NONE in (a, b) and (a[0] in ("tuple", "obj", "slice_obj", "g") or b[0] in ("tuple", "obj", "slice_obj", "g") or a[0] == "p" or b[0] == "p"):
                return False
        if t[0] == "call" and t[1] == G("builtins.isinstance"):
            return self.is_instance(eng, t[2][0], t[2][1], st)
        if t[0] == "obj" and t[1] in ("list", "dict", "set"):
            it = eng.exact_items(t, st)
            if it is not None:
                return bool(it)

    def is_instance(self, eng, x, c, st):
        cs = eng.exact_items(c, st) if c[0] == "tuple" else [c]
        n = self.type_name(eng, x)
        if n is None or cs is None or not all(k[0] == "g" for k in cs):
            return None
        names = {n}
        k = eng.prog.class_by_dotted(n)
        if k is not None:
            names |= {y if isinstance(y, str) else y.full for y in eng.prog.mro(k)}
        elif n == "builtins.bool":
            names.add("builtins.int")
        return any(k[1] in names or k[1] == "builtins.object" for k in cs)

    # ------------------------------------------------------------ calls
    def many(self, eng, node, f, rows, st, fr):
        """call f for each tuple of arguments"""
        outs, cur = [], [(st, ())]
        for row in rows:
            nx = []
            for s, got in cur:
                for o in eng.call(node, f, list(row), (), s, fr):
                    if o.kind == "v":
                        nx.append((o.st, got + (o.val,)))
                    else:
                        outs.append(o)
            cur = nx
        return cur, outs

    def new(self, eng, kind, items, node, st, fr):
        ob = eng.alloc(kind, node, fr, st)
        return Out("v", st.hset((ob, "$items"), ("L", tuple(items))), ob)

    def ordered(self, eng, node, items, kws, st, fr):
        """[(state, items in order)], other outcomes; None when the keys are not known"""
        kw = dict(kws)
        if set(kw) - {"key", "reverse"} or "reverse" in kw and not is_const(kw["reverse"]):
            return None
        if kw.get("key", NONE) != NONE:
            cur, outs = self.many(eng, node, kw["key"], [(x,) for x in items], st, fr)
        else:
            cur, outs = [(st, tuple(items))], []
        res = []
        for s, ks in cur:
            vs = [self.plain(eng, k, s) for k in ks]
            if any(v is None for v in vs):
                return None
            order = sorted(range(len(items)), key=lambda i: vs[i], reverse=bool(kw.get("reverse", C(False))[2]))
            res.append((s, [items[i] for i in order]))
        return res, outs

    def plain(self, eng, t, st):
        if is_const(t):
            return t[2]
        if t[0] == "tuple":
            xs = [self.plain(eng, x, st) for x in t[1:]]
            return None if any(x is None for x in xs) else tuple(xs)

    def call(self, eng, node, f, args, kws, st, fr):
        args = list(args)
        recv, name = callee(f)
        full = f[1] if f[0] == "g" else None
        if f[0] == "attr" and f[1][0] == "g":
            full = f[1][1] + "." + f[2]
        V = lambda v, s=st: [Out("v", s, v)]
        if any(a[0] == "star" for a in args):
            nx = []
            for a in args:
                r = self.items_of(eng, a[1], st) if a[0] == "star" else ([a], st)
                if r is None:
                    return None
                nx += r[0]
                st = r[1]
            return eng.call(node, f, nx, kws, st, fr)
        if f[0] == "g":
            c = eng.prog.class_by_dotted(f[1])
            if c is not None and c.module.name in self.modules:
                return self.construct(eng, node, c, args, kws, st, fr)
        if f[0] == "supm":
            name = f[2]
        if name == "__new__" and f[0] in ("supm", "attr"):
            k = args[0] if args else None
            c = eng.prog.class_by_dotted(k[1]) if k is not None and k[0] == "g" else None
            if c is not None:
                ob = eng.alloc("inst:" + c.full, node, fr, st)
                st = st.hset((ob, "$made"), C(True))
                if len(args) > 1:
                    r = self.items_of(eng, args[1], st)
                    if r is None:
                        return None
                    return V(ob, r[1].hset((ob, "$items"), ("L", tuple(r[0]))))
                return V(ob, st)
        if full == "builtins.tuple.__getitem__" and len(args) == 2:
            it = eng.exact_items(args[0], st)
            if it is not None:
                t = ("tuple",) + tuple(it)
                r = self.subscript(eng, node, t, args[1], st, fr)
                return r if r is not None else eng.load_item(node, t, args[1], st, fr)
        if full == "builtins.tuple.__iter__" and len(args) == 1:
            it = eng.exact_items(args[0], st)
            if it is not None:
                return [self.new(eng, "iter", it, node, st, fr)]
        if full == "builtins.len" and len(args) == 1:
            m = self.method(eng, args[0], "__len__")
            if m is not None:
                return eng.call_func(node, m, args, (), st, fr)
        if full == "builtins.type" and len(args) == 1:
            n = self.type_name(eng, args[0])
            if n:
                return V(G(n))
        if full == "builtins.slice" and 1 <= len(args) <= 3:
            a = [NONE] + args if len(args) == 1 else args
            return V(("slice_obj",) + tuple(a) + (NONE,) * (3 - len(a)))
        if recv is not None and recv[0] == "slice_obj" and name == "indices" and is_const(args[0]) and all(is_const(x) for x in recv[1:]):
            return V(("tuple",) + tuple(C(x) for x in slice(*[x[2] for x in recv[1:]]).indices(args[0][2])))
        if full == "builtins.range" and args and all(is_const(a) and isinstance(a[2], int) for a in args):
            r = range(*[a[2] for a in args])
            if len(r) <= 300:
                return V(("tuple",) + tuple(C(x) for x in r))
        if full == "builtins.sorted" and args:
            r = self.items_of(eng, args[0], st)
            r = self.ordered(eng, node, r[0], kws, r[1], fr) if r is not None else None
            if r is not None:
                return [self.new(eng, "list", it, node, s, fr) for s, it in r[0]] + r[1]
        if name == "sort" and recv is not None and recv[0] == "obj" and recv[1] == "list":
            it = eng.exact_items(recv, st)
            r = self.ordered(eng, node, it, kws, st, fr) if it is not None else None
            if r is not None:
                return [Out("v", s.hset((recv, "$items"), ("L", tuple(x))), NONE) for s, x in r[0]] + r[1]
        if full in ("builtins.zip", "builtins.map", "itertools.starmap", "builtins.enumerate", "builtins.reversed", "builtins.filter", "itertools.chain",
                    "itertools.chain.from_iterable", "itertools.islice", "builtins.min", "builtins.max", "builtins.sum") and not kws:
            its, s, inf = [], st, []
            given = args[1:] if full in ("builtins.map", "itertools.starmap", "builtins.filter") else args[:1] if full in ("builtins.enumerate", "itertools.islice") else args
            if full in ("builtins.min", "builtins.max") and len(args) > 1:
                given = []
            for a in given:
                a2 = self.endless(a)
                if a2 is not None:
                    its.append(a2)
                    continue
                r = self.items_of(eng, a, s)
                if r is None:
                    return None
                its.append(r[0])
                s = r[1]
            stop = min([len(x) for x in its if isinstance(x, list)] or [0])
            if full not in ("builtins.zip", "builtins.map") and not all(isinstance(x, list) for x in its):
                return None
            rows = list(zip(*[x if isinstance(x, list) else [x(i) for i in range(stop)] for x in its]))
            if full == "builtins.zip":
                return [self.new(eng, "iter", [("tuple",) + r for r in rows], node, s, fr)]
            if full == "builtins.map":
                cur, outs = self.many(eng, node, args[0], rows, s, fr)
                return [self.new(eng, "iter", got, node, s2, fr) for s2, got in cur] + outs
            if full == "itertools.starmap":
                rr = [eng.exact_items(x, s) for x in its[0]]
                if any(x is None for x in rr):
                    return None
                cur, outs = self.many(eng, node, args[0], rr, s, fr)
                return [self.new(eng, "iter", got, node, s2, fr) for s2, got in cur] + outs
            if full == "builtins.enumerate":
                n0 = args[1][2] if len(args) > 1 else 0
                return [self.new(eng, "iter", [("tuple", C(n0 + i), x) for i, x in enumerate(its[0])], node, s, fr)]
            if full == "builtins.reversed":
                return [self.new(eng, "iter", its[0][::-1], node, s, fr)]
            if full == "itertools.chain":
                return [self.new(eng, "iter", [x for y in its for x in y], node, s, fr)]
            if full == "itertools.chain.from_iterable":
                rr = []
                for x in its[0]:
                    r = self.items_of(eng, x, s)
                    if r is None:
                        return None
                    rr += r[0]
                    s = r[1]
                return [self.new(eng, "iter", rr, node, s, fr)]
            if full == "itertools.islice" and all(is_const(a) for a in args[1:]):
                if args[0][:2] == ("obj", "iter") and len(args) > 1:
                    # an iterator gives up what is taken of it
                    stop = args[1][2] if len(args) == 2 else args[2][2]
                    s = s.hset((args[0], "$items"), ("L", tuple(its[0][stop:]) if stop is not None else ()))
                return [self.new(eng, "iter", its[0][slice(*[a[2] for a in args[1:]])], node, s, fr)]
            if full in ("builtins.min", "builtins.max", "builtins.sum"):
                vs = [self.plain(eng, x, s) for x in (its[0] if its else args)]
                if all(v is not None for v in vs) and (vs or full == "builtins.sum"):
                    return V(C({"min": min, "max": max, "sum": sum}[full[9:]](vs)), s)
                return None
            return None
        if recv is not None and recv[0] == "tuple" and name in ("index", "count") and len(args) == 1:
            it = [self.plain(eng, x, st) for x in recv[1:]]
            if is_const(args[0]) and all(x is not None for x in it):
                if name == "count":
                    return V(C(it.count(args[0][2])))
                if args[0][2] in it:
                    return V(C(it.index(args[0][2])))
                return self.raises(eng, "ValueError", node, st)
        return None

    def endless(self, a):
        if a[0] in ("call", "ret"):
            g, aa = (a[1], a[2]) if a[0] == "call" else (a[2], a[3])
            if g == G("itertools.count"):
                vs = [x[2] if is_const(x) else None for x in aa]
                if None not in vs:
                    n0, step = (vs + [0])[0] if vs else 0, vs[1] if len(vs) > 1 else 1
                    return lambda i: C(n0 + i * step)
            if g == G("itertools.repeat") and len(aa) == 1:
                return lambda i: aa[0]

    def construct(self, eng, node, c, args, kws, st, fr):
        """a class of the repository is called"""
        new = eng.meth(c, "__new__")
        if new is not None:
            return eng.call_func(node, new, [G(c.full)] + args, kws, st, fr)
        names = [x if isinstance(x, str) else x.full for x in eng.prog.mro(c)]
        if "builtins.tuple" in names or "builtins.list" in names:
            ob = eng.alloc("inst:" + c.full, node, fr, st)
            it = []
            if args:
                r = self.items_of(eng, args[0], st)
                if r is None:
                    return None
                it, st = r
            return [Out("v", st.hset((ob, "$items"), ("L", tuple(it))), ob)]
        init = eng.meth(c, "__init__")
        if init is not None and self.inline(eng, init):
            ob = eng.alloc("inst:" + c.full, node, fr, st)
            return [Out("v", o.st, ob) if o.kind == "v" else o for o in eng.call_func(node, init, [ob] + args, kws, st.hset((ob, "$made"), C(True)), fr)]
        return None
