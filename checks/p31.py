"""P31: rows and arrays keep position, name and shape.

The methods of Row and Array are interpreted over values that are symbols, for every width, mapping of names and shape up
to a bound; what they give is compared with what the shape says."""
import itertools
from sa.rules import *
from sa.datarule import DataRule

MOD = "postgresql.types"
ROW = MOD + ".Row"
ARR = MOD + ".Array"


def V(*i):
    return ("p", "$v" + "_".join(map(str, i)))


def T(*xs):
    return ("tuple",) + tuple(xs)


class Values(DataRule):
    modules = (MOD, "postgresql.types.namedtuple")


class Run:
    """one state in which objects are made and their methods called"""

    def __init__(self, ck, p, rule=None):
        self.ck, self.p = ck, p
        self.rule = rule or Values()
        self.eng = Engine(p, self.rule)
        self.st = State(ts=())
        self.n = 0

    def fr(self):
        return self.eng.module_frame(self.p.module(MOD))

    def node(self):
        import ast
        self.n += 1
        x = ast.Pass()
        x.lineno, x.col_offset = -self.n, 0
        return x

    def lst(self, items, kind="list"):
        ob = self.eng.alloc(kind, self.node(), self.fr(), self.st)
        self.st = self.st.hset((ob, "$items"), ("D" if kind == "dict" else "L", tuple(items)))
        return ob

    def nested(self, x):
        """lists of lists of the plan"""
        if isinstance(x, list):
            return self.lst([self.nested(y) for y in x])
        return x

    def call(self, func, args, kws=()):
        """-> ("v", term) or ("raise", class), the state goes on after a value"""
        outs = self.eng.call_func(self.node(), func, list(args), tuple(kws), self.st, self.fr())
        self.ck.count("calls")
        if len(outs) != 1:
            return ("several", T(*[x.val for x in outs]))
        o = outs[0]
        if o.kind == "v":
            self.st = o.st
            return ("v", o.val)
        return ("raise", o.val[1].rsplit(".", 1)[-1] if o.val[0] == "exc" else show(o.val))

    def py(self, t, depth=0):
        """the value as python data: arrays as ("array", nested), lists, tuples, symbols as terms"""
        if is_const(t):
            return t[2]
        if t[0] == "tuple":
            return tuple(self.py(x) for x in t[1:])
        if t[0] == "obj":
            if t[1] == "inst:" + ARR and depth < 8:
                m = self.p.find_method(self.p.cls(MOD + ":Array"), "nest")
                g = lambda a: self.st.heap.get((t, a))
                els = g("_elements")
                return Arr(self.py(g("dimensions") or NONE), self.py(g("lowerbounds") or NONE), self.py(g("upperbounds") or NONE), [self.py(x) for x in self.eng.exact_items(els, self.st) or ()] if els else None)
            if t[1] == "dict":
                d = self.eng.hget(self.st, (t, "$items"))
                return {self.py(k): self.py(v) for k, v in d[1]} if d and d[0] == "D" else t
            it = self.eng.exact_items(t, self.st)
            if it is not None:
                r = [self.py(x) for x in it]
                return tuple(r) if t[1].startswith("inst:") else r
        if t[0] == "items":
            it = self.eng.exact_items(t, self.st)
            if it is not None:
                return [self.py(x) for x in it]
        return t


class Arr(tuple):
    def __new__(cls, dims, lower, upper, elements):
        return tuple.__new__(cls, ("array", dims, lower, upper, tuple(elements) if elements is not None else None))


def text(x):
    if isinstance(x, Arr):
        return "array %s:%s of %s" % (x[2], x[3], text(list(x[4] or ())))
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "p":
        return x[1].lstrip("$")
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("call", "ret", "attr", "obj", "sub", "cat", "op", "genexp"):
        return show(x)
    if isinstance(x, list):
        return "[" + ", ".join(map(text, x)) + "]"
    if isinstance(x, tuple):
        return "(" + ", ".join(map(text, x)) + ")"
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (text(k), text(v)) for k, v in x.items()) + "}"
    return repr(x)


# ------------------------------------------------------------ rows


def keymaps(n):
    """the mappings of names to positions: distinct names, in any order of insertion; with a name of several columns the last"""
    names = "cadb"[:n]
    yield {k: i for i, k in enumerate(names)}, "distinct names"
    if n > 1:
        yield {k: i for i, k in reversed(list(enumerate(names)))}, "names inserted in reverse"
        d = {}
        for i, k in enumerate("z" + names[1:-1] + "z"):
            d[k] = i
        yield d, "first and last of one name"
    if n > 2:
        yield {"b": 1, "c": 0, "a": 2, **({"d": 3} if n > 3 else {})}, "names inserted in another order"


def rows(ck, p):
    c = p.cls(MOD + ":Row")
    meth = {}
    for name in ("from_sequence", "from_mapping", "__getitem__", "get", "keys", "values", "items", "index_from_key", "key_from_index", "column_names", "transform"):
        m = p.find_method(c, name)
        if m is None:
            raise AnalysisBroken("P31: Row.%s is not found" % name)
        ck.func(m)
        meth[name] = m
    for n in range(5):
        for km, how in keymaps(n):
            vals = [V(i) for i in range(n)]
            order = [k for k, _ in sorted(km.items(), key=lambda x: x[1])]
            new = lambda: None

            def fresh():
                r = Run(ck, p)
                d = r.lst([(C(k), C(i)) for k, i in km.items()], "dict")
                kind, row = r.call(meth["from_sequence"], [G(c.full), d, r.lst(vals)])
                return r, d, row if kind == "v" else None

            def expect(name, got, want, what):
                ck.judge(got == want, "row", "%s of %d columns, %s: %s" % (name, n, how, what), meth[name].loc(),
                         "%s(%s) gives %s instead of %s" % (name, what, text(got), text(want)))
            r, d, row = fresh()
            if row is None:
                ck.finding("row", "from_sequence of %d columns" % n, meth["from_sequence"].loc(), "from_sequence has no result")
                continue
            expect("from_sequence", r.py(row), tuple(vals), "")
            for i in range(-n - 1, n + 2):
                r, d, row = fresh()
                k, v = r.call(meth["__getitem__"], [row, C(i)])
                expect("__getitem__", v, vals[i] if -n <= i < n else "IndexError", str(i))
                r, d, row = fresh()
                k, v = r.call(meth["get"], [row, C(i)])
                expect("get", v, vals[i] if -n <= i < n else NONE, str(i))
            for k in "abcdxz":
                r, d, row = fresh()
                kk, v = r.call(meth["__getitem__"], [row, C(k)])
                expect("__getitem__", v, vals[km[k]] if k in km else "KeyError", k)
                r, d, row = fresh()
                kk, v = r.call(meth["get"], [row, C(k)])
                expect("get", v, vals[km[k]] if k in km else NONE, k)
                r, d, row = fresh()
                kk, v = r.call(meth["index_from_key"], [row, C(k)])
                expect("index_from_key", v, C(km[k]) if k in km else NONE, k)
            for i in range(n + 1):
                r, d, row = fresh()
                kk, v = r.call(meth["key_from_index"], [row, C(i)])
                want = [k for k in km if km[k] == i]
                expect("key_from_index", v, C(want[0]) if want else NONE, str(i))
            for a, b, s in ((None, None, None), (1, None, None), (None, -1, None), (0, 2, None), (None, None, -1)):
                r, d, row = fresh()
                kk, v = r.call(meth["__getitem__"], [row, ("slice_obj", C(a) if a is not None else NONE, C(b) if b is not None else NONE, C(s) if s is not None else NONE)])
                v = r.py(v) if kk == "v" else v
                expect("__getitem__", tuple(v) if isinstance(v, list) else v, tuple(vals[a:b:s]), "%s:%s:%s" % (a, b, s))
            r, d, row = fresh()
            kk, v = r.call(meth["column_names"], [row])
            expect("column_names", r.py(v) if kk == "v" else v, tuple(order), "")
            r, d, row = fresh()
            kk, v = r.call(meth["keys"], [row])
            v = r.py(v) if kk == "v" else v
            expect("keys", sorted(v) if isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v) else v, sorted(km), "")
            r, d, row = fresh()
            kk, v = r.call(meth["values"], [row])
            v = r.py(v) if kk == "v" else v
            expect("values", list(v) if isinstance(v, (tuple, list)) else v, vals, "")
            r, d, row = fresh()
            kk, v = r.call(meth["items"], [row])
            v = r.py(v) if kk == "v" else v
            expect("items", list(v) if isinstance(v, (tuple, list)) else v, [(k, vals[km[k]]) for k in order], "")
            # from a mapping of names to values
            if how != "first and last of one name":
                for missing in [None] + order:
                    r = Run(ck, p)
                    d = r.lst([(C(k), C(i)) for k, i in km.items()], "dict")
                    m = r.lst([(C(k), V(i)) for k, i in sorted(km.items()) if k != missing], "dict")
                    kk, row = r.call(meth["from_mapping"], [G(c.full), d, m])
                    expect("from_mapping", r.py(row) if kk == "v" else row, tuple(None if k == missing else V(km[k]) for k in order), "without %s" % missing if missing else "")
                    if kk == "v":
                        kk, v = r.call(meth["column_names"], [row])
                        expect("column_names", r.py(v) if kk == "v" else v, tuple(order), "of from_mapping")
            # transformations
            fs = [("p", "$f%d" % i) for i in range(n)]

            class Apply(Values):
                def call(self, eng, node, f, args, kws, st, fr):
                    if f[0] == "p" and f[1].startswith("$f"):
                        return [Out("v", st, ("call", f, tuple(args), ()))]
                    return Values.call(self, eng, node, f, args, kws, st, fr)
            app = lambda i: ("call", fs[i], (vals[i],), ())
            for npos in range(n + 1):
                for hole in [None] + list(range(npos)):
                    for kw in [None] + order:
                        if kw is not None and km[kw] < npos:
                            continue
                        r = Run(ck, p, Apply())
                        d = r.lst([(C(k), C(i)) for k, i in km.items()], "dict")
                        kk, row = r.call(meth["from_sequence"], [G(c.full), d, r.lst(vals)])
                        kk, v = r.call(meth["transform"], [row] + [NONE if i == hole else fs[i] for i in range(npos)], [(kw, fs[km[kw]])] if kw else [])
                        want = list(vals)
                        for i in range(npos):
                            if i != hole:
                                want[i] = app(i)
                        if kw:
                            want[km[kw]] = app(km[kw])
                        expect("transform", r.py(v) if kk == "v" else v, tuple(want), "first %d%s%s" % (npos, ", not %d" % hole if hole is not None else "", ", " + kw if kw else ""))
                        if kk == "v":
                            kk, v = r.call(meth["column_names"], [v])
                            expect("column_names", r.py(v) if kk == "v" else v, tuple(order), "after transform")
            r, d, row = fresh()
            kk, v = r.call(meth["transform"], [row], [("x", ("p", "$f0"))])
            expect("transform", v if kk != "raise" else "raises", "raises", "an unknown name")


# ------------------------------------------------------------ arrays


def nest(els, dims):
    els = list(els)
    if len(dims) < 2:
        return els
    w = len(els) // dims[0]
    return [nest(els[i * w:(i + 1) * w], dims[1:]) for i in range(dims[0])]


def count(dims):
    n = 1
    for d in dims:
        n *= d
    return n if dims else 0


def arrays(ck, p, deep):
    c = p.cls(MOD + ":Array")
    meth = {}
    for name in ("from_elements", "from_nest", "__new__", "elements", "nest", "get_element", "sql_get_element", "__len__", "__getitem__", "__iter__"):
        m = p.find_method(c, name)
        if m is None:
            raise AnalysisBroken("P31: Array.%s is not found" % name)
        ck.func(m)
        meth[name] = m
    typ = G(c.full)

    def expect(name, got, want, what):
        ck.judge(got == want, "array", "%s: %s" % (name, what), meth[name].loc(), "%s: %s gives %s instead of %s" % (name, what, text(got), text(want)))
    # boundaries
    bounds = [None] + [b for k in range(3) for b in itertools.product((-1, 1, 2) if k < 2 else (0, 1, 2), repeat=k)]
    for lower in bounds:
        for upper in bounds + ([(2, 2, 1), (1, 1, 1)] if deep else [(2, 1, 1)]):
            for n in range(5):
                r = Run(ck, p)
                els = [V(i) for i in range(n)]
                lo = NONE if lower is None else T(*map(C, lower))
                up = NONE if upper is None else r.lst(map(C, upper))
                kk, a = r.call(meth["from_elements"], [typ, T(*els), lo, up])
                got = r.py(a) if kk == "v" else a
                want = shape(lower, upper, n)
                want = Arr(want[0], want[1], want[2], els) if want else "ValueError"
                expect("from_elements", got, want, "%d elements, lower bounds %s, upper bounds %s" % (n, lower, upper))
                ck.count("bounds")
    # shapes
    shapes = [()] + [d for k in (1, 2, 3) for d in itertools.product((1, 2, 3) if k < 3 else (1, 2), repeat=k)]
    if deep:
        shapes += [(2, 3, 2), (3, 1, 2), (2, 2, 2, 2), (1, 2, 1, 3)]
    for dims in shapes:
        n = count(dims)
        els = [NONE if i == 1 else V(i) for i in range(n)]
        pel = [None if i == 1 else V(i) for i in range(n)]
        ck.count("shapes")
        for how in ("from_nest", "__new__"):
            r = Run(ck, p)
            kk, a = r.call(meth[how], [typ, r.nested(nest(els, dims))])
            want = Arr(tuple(dims), (1,) * len(dims), tuple(dims), pel)
            expect(how, r.py(a) if kk == "v" else a, want, "a nest of %s" % (dims,))
            if kk == "v" and how == "__new__":
                kk, b = r.call(meth[how], [typ, a])
                expect(how, r.py(b) if kk == "v" else b, want, "an array of %s" % (dims,))
        for lower in ((1,) * len(dims), tuple(range(2, 2 + len(dims)))):
            upper = tuple(l + d - 1 for l, d in zip(lower, dims))

            def made():
                r = Run(ck, p)
                kk, a = r.call(meth["from_elements"], [typ, T(*els), T(*map(C, lower)), T(*map(C, upper))])
                return r, a if kk == "v" else None
            r, a = made()
            if a is None:
                continue        # reported above
            nm = "%s from %s" % (dims, lower)
            kk, v = r.call(meth["nest"], [a])
            expect("nest", r.py(v) if kk == "v" else v, nest(pel, dims), nm)
            r, a = made()
            kk, v = r.call(meth["__len__"], [a])
            expect("__len__", v, C(dims[0] if dims else 0), nm)
            r, a = made()
            kk, v = r.call(meth["elements"], [a])
            expect("elements", r.py(v) if kk == "v" else v, pel, nm)

            def sub(i):
                w = n // dims[0]
                return Arr(tuple(dims[1:]), lower[1:], upper[1:], pel[i * w:(i + 1) * w]) if len(dims) > 1 else pel[i]
            d0 = dims[0] if dims else 0
            r, a = made()
            kk, v = r.call(meth["__iter__"], [a])
            expect("__iter__", r.py(v) if kk == "v" else v, [sub(i) for i in range(d0)], nm)
            for i in range(-d0 - 1, d0 + 2):
                r, a = made()
                kk, v = r.call(meth["__getitem__"], [a, C(i)])
                expect("__getitem__", r.py(v) if kk == "v" else v, sub(i % d0) if -d0 <= i < d0 else "IndexError", "%s, item %d" % (nm, i))
            for s in ((None, None, None), (1, None, None), (None, -1, None), (5, None, None), (None, None, 2), (None, None, -1), (0, 1, None)):
                r, a = made()
                kk, v = r.call(meth["__getitem__"], [a, ("slice_obj",) + tuple(NONE if x is None else C(x) for x in s)])
                got = r.py(v) if kk == "v" else v
                ix = list(range(d0))[slice(*s)]
                if len(dims) < 2:
                    want = [pel[i] for i in ix]
                elif not ix:
                    want = Arr((), (), (), [])
                else:
                    want = Arr((len(ix),) + tuple(dims[1:]), (1,) + lower[1:], (len(ix),) + upper[1:], [x for i in ix for x in sub(i)[4]])
                expect("__getitem__", got, want, "%s, items %s:%s:%s" % ((nm,) + s))
            addrs = list(itertools.product(*[range(-d - 1, d + 1) for d in dims])) if len(dims) < 3 else list(itertools.product(*[range(-1, d + 1) for d in dims]))
            for ad in addrs:
                r, a = made()
                kk, v = r.call(meth["get_element"], [a, T(*map(C, ad))])
                ok = dims and all(-d <= x < d for x, d in zip(ad, dims))
                pos = 0
                for x, d in zip(ad, dims):
                    pos = pos * d + x % d
                expect("get_element", r.py(v) if kk == "v" else v, pel[pos] if ok else "IndexError", "%s, at %s" % (nm, ad))
                r, a = made()
                sq = [x + l for x, l in zip(ad, lower)]
                kk, v = r.call(meth["sql_get_element"], [a, T(*map(C, sq))])
                ok = dims and all(0 <= x < d for x, d in zip(ad, dims))
                expect("sql_get_element", r.py(v) if kk == "v" else v, pel[pos] if ok else None, "%s, at %s" % (nm, tuple(sq)))
            for more in (1, 2):
                r, a = made()
                kk, v = r.call(meth["sql_get_element"], [a, T(*([C(l) for l in lower] + [C(1)] * more))])
                expect("sql_get_element", r.py(v) if kk == "v" else v, None, "%s, %d subscripts too many" % (nm, more))
            if dims:
                for ad in ((0,) * (len(dims) + 1), (0,) * (len(dims) - 1)):
                    r, a = made()
                    kk, v = r.call(meth["get_element"], [a, T(*map(C, ad))])
                    expect("get_element", kk if kk == "raise" else r.py(v), "raise", "%s, at %s" % (nm, ad))
    # malformed nests
    v = V
    bad = [[[v(0), v(1)], [v(2)]], [[v(0)], [v(1), v(2)]], [[v(0)], v(1)], [v(0), [v(1)]], [[]], [[], []], [[[v(0)]], [[v(1)], [v(2)]]], [[[v(0)], [v(1)]], [[v(2)], []]],
           [[[v(0)]], [v(1)]], [[v(0)], [[v(1)]]], [[[v(0), v(1)]], [[v(2)]]], [[v(0), v(1)], C("ab")], [[v(0), v(1)], T(v(2), v(3))], [[v(0)], NONE], [[[]]]]
    for b in bad:
        for how in ("from_nest", "__new__"):
            r = Run(ck, p)
            kk, a = r.call(meth[how], [typ, r.nested(b)])
            expect(how, kk if kk == "raise" else r.py(a), "raise", "the uneven nest %s" % text(b))
    ck.at_least("shapes", 15, "shapes of arrays")
    ck.at_least("bounds", 500, "boundaries")


def shape(lower, upper, n):
    """(dimensions, lower bounds, upper bounds) by what is given, None when it does not fit"""
    if upper is None:
        if lower is None:
            return ((n,), (1,), (n,)) if n else ((), (), ())
        if n == 0:
            return ((), (), ()) if lower == () else None
        return ((n,), tuple(lower), (lower[0] + n - 1,)) if len(lower) == 1 else None
    if lower is None:
        if not upper and n:
            return None
        lower = (1,) * len(upper)
    dims = tuple(u - l + 1 for l, u in zip(lower, upper))
    if n == 0:
        if any(d < 1 for d in dims) or len(lower) == len(upper) == 0:
            return (), (), ()
        return None
    if len(lower) != len(upper) or not dims or any(d < 1 for d in dims) or count(dims) != n:
        return None
    return dims, tuple(lower), tuple(upper)


# ------------------------------------------------------------ where rows get their names


def mapping(p, f, e, depth=0):
    """is the expression, in the function, a mapping?"""
    import ast
    if depth > 4 or e is None:
        return False
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        if n in ("dict", "OrderedDict"):
            return True
        hit = [m for m in p.all_funcs() if m.name == n and m.module.name == f.module.name]
        return bool(hit) and all(all(mapping(p, m, r.value, depth + 1) for r in ast.walk(m.node) if isinstance(r, ast.Return)) and any(isinstance(r, ast.Return) for r in ast.walk(m.node)) for m in hit)
    if isinstance(e, (ast.Name, ast.Attribute)):
        key = ast.dump(e).replace("Store()", "Load()")
        vals = [a.value for a in ast.walk(f.node) if isinstance(a, ast.Assign) for t in a.targets if ast.dump(t).replace("Store()", "Load()") == key]
        vals = [v for v in vals if not (isinstance(v, ast.Constant) and v.value is None)]
        if vals:
            return all(mapping(p, f, v, depth + 1) for v in vals)
        params = [a.arg for a in f.node.args.args]
        if isinstance(e, ast.Name) and e.id in params:
            i = params.index(e.id)
            got = []
            for g in p.all_funcs():
                if g.module.name != f.module.name:
                    continue
                for c in ast.walk(g.node):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == f.name:
                        kw = {k.arg: k.value for k in c.keywords}
                        j = i - (1 if f.cls is not None else 0)
                        if e.id in kw:
                            got.append((g, kw[e.id]))
                        elif j < len(c.args):
                            got.append((g, c.args[j]))
            return bool(got) and all(mapping(p, g, x, depth + 1) for g, x in got)
    return False


def named(ck, p):
    import ast
    n = 0
    for f in p.all_funcs():
        if f.module.name != "postgresql.driver.pq3":
            continue
        for c in walk_calls(f.node):
            if not (isinstance(c.func, ast.Attribute) and c.func.attr == "RowTypeFactory"):
                continue
            n += 1
            ck.func(f)
            kw = {k.arg: k.value for k in c.keywords}
            e = c.args[0] if c.args else kw.get("attribute_map")
            ck.judge(e is not None and mapping(p, f, e), "names", "%s makes a type of rows" % f.full, f.loc(c), "the names of the columns, %s, are not known to be a mapping" % (ast.unparse(e) if e is not None else "none"))
    ck.count("row_types", n)
    ck.at_least("row_types", 3, "places that make a type of rows")
    # the names with their positions
    am = p.func("postgresql.driver.pq3:TypeIO.attribute_map")
    ck.func(am)

    class Names(Values):
        modules = (MOD, "postgresql.driver.pq3")

        def call(self, eng, node, f, args, kws, st, fr):
            if callee(f)[1] == "keys" and callee(f)[0] == ("p", "$descriptor"):
                return [Out("v", st, T(C("k0"), C("k1"), C("k2")))]
            if callee(f)[1] == "decodes":
                return [Out("v", st, T(*[("p", "$d" + x[2]) for x in eng.exact_items(args[0], st)]))]
            return Values.call(self, eng, node, f, args, kws, st, fr)
    r = Run(ck, p, Names())
    kk, v = r.call(am, [("p", "$typio"), ("p", "$descriptor")])
    got = r.py(v) if kk == "v" else v
    got = list(got.items()) if isinstance(got, dict) else list(got) if isinstance(got, (list, tuple)) else got
    want = [(("p", "$dk%d" % i), i) for i in range(3)]
    ck.judge(got == want, "names", "attribute_map", am.loc(), "gives %s" % text(got))
    # named tuples
    NT = "postgresql.types.namedtuple"
    ntf, nts = p.func(NT + ":NamedTupleFactory"), p.func(NT + ":namedtuples")
    ck.func(ntf)
    ck.func(nts)

    class Named(Values):
        modules = (NT,)

        def call(self, eng, node, f, args, kws, st, fr):
            if f == G("collections.namedtuple"):
                it = eng.exact_items(args[1], st)
                return [Out("v", st, ("nt", T(*it) if it is not None else args[1], dict(kws).get("rename", C(False))))]
            if f[0] == "nt":
                return [Out("v", st, ("row", f, tuple(args)))]
            if callee(f)[1] == "chunks" and callee(f)[0] == ("p", "$stmt"):
                ok = args == [("star", ("p", "$args"))] or args == [("p", "$a")]
                return [Out("v", st, T(T(T(V(0, 0), V(0, 1)), T(V(1, 0), V(1, 1))), T(T(V(2, 0), V(2, 1)))) if ok else ("top", 0))]
            return Values.call(self, eng, node, f, args, kws, st, fr)

        def getattr(self, eng, node, base, attr, st, fr):
            if base == ("p", "$stmt") and attr == "column_names":
                return [Out("v", st, T(C("a b"), C("c")))]
            return Values.getattr(self, eng, node, base, attr, st, fr)
    for km in ({"a": 0, "b c": 1, "d": 2}, {"d": 2, "x": 0, "b c": 1}, {"x": 0}, {}):
        r = Run(ck, p, Named())
        d = r.lst([(C(k), C(i)) for k, i in km.items()], "dict")
        outs = r.eng.call_func(r.node(), ntf, [d], (), r.st, r.fr())
        vals = [V(i) for i in range(len(km))]
        for o in outs:
            got = None
            if o.kind == "v":
                res = r.eng.call(r.node(), o.val, [T(*vals)], (), o.st, r.fr())
                got = [x.val for x in res]
            want = [("row", ("nt", T(*[C(k.replace(" ", "_")) for k, _ in sorted(km.items(), key=lambda x: x[1])]), C(True)), tuple(vals))]
            ck.judge(got == want, "names", "named tuple of %s" % sorted(km), ntf.loc(), "gives %s" % (", ".join(map(show, got)) if got else show(o.val)))
    r = Run(ck, p, Named())
    for o in r.eng.call_func(r.node(), nts, [("p", "$stmt")], (), r.st, r.fr()):
        res = r.eng.call(r.node(), o.val, [("p", "$a")], (), o.st, r.fr())
        got = [list(r.eng.exact_items(x.val, x.st) or ()) for x in res]
        nt = ("nt", T(C("a_b"), C("c")), C(True))
        ck.judge(got == [[("row", nt, (V(i, 0), V(i, 1))) for i in range(3)]], "names", "namedtuples", nts.loc(), "gives %s" % (got,))


def walk_calls(n):
    import ast
    return [c for c in ast.walk(n) if isinstance(c, ast.Call)]


def run(ck, p):
    ck.rule("names", "every type of rows is made with a mapping of the names of the columns to their positions; named tuples have the values in the order of the names")
    ck.rule("row", "a row gives by position and by name the value of that column; names are in the order of the columns; conversions keep values, order and names")
    ck.rule("array", "an array gives at every address the element its dimensions say; conversions keep elements, order and dimensions; shapes that do not fit are refused")
    deep = ck.tier == "thorough"
    rows(ck, p)
    arrays(ck, p, deep)
    named(ck, p)
