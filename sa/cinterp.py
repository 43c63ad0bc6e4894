"""Interpretation of the C extension over abstract memory.

The syntax tree is clang's, over a header that declares Python's C interface as plain functions.  Memory is made of regions of
octets with bounds; an octet is a number, one of a value that is not known, part of a pointer, or not written yet.  Python
objects have reference counts and know what they hold.  Every call that can fail may do so; each path is followed to its end,
and what is done to memory and references on it is checked as it is done."""
import json
import os
import re
import subprocess
import tempfile
from .program import AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
INTS = {"char": (1, True), "signed char": (1, True), "unsigned char": (1, False), "short": (2, True), "unsigned short": (2, False), "int": (4, True), "unsigned int": (4, False), "long": (8, True), "unsigned long": (8, False), "long long": (8, True), "unsigned long long": (8, False), "_Bool": (1, False), "bool": (1, False)}


class Bad(Exception):
    """the path does what it must not"""

    def __init__(self, rule, msg, at):
        self.rule, self.msg, self.at = rule, msg, at


class Tree:
    """the declarations of the extension"""

    def __init__(self, root):
        self.dir = os.path.join(root, "postgresql/port/_optimized")
        src = os.path.join(self.dir, "module.c")
        if not os.path.exists(src):
            raise AnalysisBroken("the C extension is not found")
        r = subprocess.run(["clang", "-fsyntax-only", "-Wno-everything", "-Xclang", "-ast-dump=json", "-I" + os.path.join(HERE, "cstub"), "module.c"], cwd=self.dir, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("the C extension cannot be read: %s" % (r.stderr.strip().splitlines() or ["?"])[0])
        top = json.loads(r.stdout)
        self.file, self.line = "module.c", 0
        self.places(top)
        self.funcs, self.vars, self.typedefs, self.structs = {}, {}, {}, {}
        for n in top["inner"]:
            self.declare(n)

    def places(self, n):
        for k in ("loc", "range"):
            x = n.get(k)
            if x:
                b = [self.place(y) for y in ([x] if k == "loc" else [x.get("begin", {}), x.get("end", {})])]
                n["at"] = b[0]
        for c in n.get("inner", ()):
            self.places(c)

    def place(self, x):
        at = None
        for y in ([x["spellingLoc"], x["expansionLoc"]] if "spellingLoc" in x else [x]):
            if "file" in y:
                self.file = y["file"]
            if "line" in y:
                self.line = y["line"]
            at = (os.path.basename(self.file), self.line)
        return at

    def declare(self, n):
        k = n["kind"]
        if k == "FunctionDecl" and any(c["kind"] == "CompoundStmt" for c in n.get("inner", ())):
            if n.get("at") and n["at"][0].endswith(".c"):
                self.funcs[n["name"]] = n
        elif k == "VarDecl":
            if n["name"] not in self.vars or "init" in n:
                self.vars[n["name"]] = n
        elif k == "TypedefDecl":
            self.typedefs[n["name"]] = n["type"].get("desugaredQualType") or n["type"]["qualType"]
            for c in n.get("inner", ()):
                d = c.get("ownedTagDecl") or (c.get("inner") or [{}])[0].get("decl") or c.get("decl")
                if d and d.get("kind") == "RecordDecl" and d["id"] in self.structs:
                    self.structs[n["name"]] = self.structs[d["id"]]
        elif k == "RecordDecl":
            fields = [(c["name"], c["type"].get("desugaredQualType") or c["type"]["qualType"]) for c in n.get("inner", ()) if c["kind"] == "FieldDecl"]
            if fields:
                self.structs[n["id"]] = fields
                if n.get("name"):
                    self.structs["struct " + n["name"]] = fields

    # ------------------------------------------------------------ types
    cache = None

    def typ(self, s):
        if self.cache is None:
            self.cache = {}
        if s not in self.cache:
            self.cache[s] = self._typ(s)
        return self.cache[s]

    def _typ(self, s):
        s = re.sub(r"\b(const|volatile|register|restrict|static|__restrict)\b", "", s)
        s = re.sub(r"\s+", " ", s).strip()
        if "(*)" in s or s.endswith(")"):
            return ("ptr", "void") if "(*" in s or "(" in s else ("void",)
        m = re.match(r"(.*)\[(\d*)\]$", s)
        if m:
            return ("arr", m.group(1).strip(), int(m.group(2) or 0))
        if s.endswith("*"):
            return ("ptr", s[:-1].strip())
        if s in INTS:
            return ("int",) + INTS[s]
        if s == "void":
            return ("void",)
        if s in self.structs:
            return ("struct", s)
        if s in self.typedefs and self.typedefs[s] != s:
            return self.typ(self.typedefs[s])
        if s.startswith("enum "):
            return ("int", 4, False)
        if s in ("size_t", "uintptr_t"):
            return ("int", 8, False)
        if s in ("float", "double"):
            return ("float", 4 if s == "float" else 8)
        raise AnalysisBroken("the C type %s is not known" % s)

    def of(self, n):
        t = n["type"]
        return self.typ(t.get("desugaredQualType") or t["qualType"])

    def size(self, t):
        if t[0] in ("int",):
            return t[1]
        if t[0] == "float":
            return t[1]
        if t[0] == "ptr":
            return 8
        if t[0] == "arr":
            return self.size(self.typ(t[1])) * t[2]
        if t[0] == "struct":
            return self.layout(t[1])[1]
        return 1

    def align(self, t):
        if t[0] == "arr":
            return self.align(self.typ(t[1]))
        if t[0] == "struct":
            return self.layout(t[1])[2]
        return self.size(t)

    def layout(self, s):
        k = ("layout", s)
        if self.cache is None:
            self.cache = {}
        if k not in self.cache:
            at, al, out = 0, 1, {}
            for name, ts in self.structs[s]:
                t = self.typ(ts)
                a = self.align(t)
                at = (at + a - 1) // a * a
                out[name] = (at, t)
                at += self.size(t)
                al = max(al, a)
            self.cache[k] = (out, (at + al - 1) // al * al, al)
        return self.cache[k]


class Mem:
    """a region of octets"""

    def __init__(self, kind, size, name="", fill=None):
        self.kind, self.size, self.name, self.fill = kind, size, name, fill
        self.data = {}
        self.dead = False


class Ob:
    """a Python object"""

    def __init__(self, kind, name="", value=None, items=None, exact=True):
        self.kind, self.name, self.value, self.items, self.exact = kind, name, value, items, exact
        self.refs = 1
        self.dead = False
        self.mem = None      # the octets of bytes, or of an instance
        self.typ = None
        self.dict = {}

    def __repr__(self):
        return self.name or self.kind


class Choices:
    """the choices of one path; the next path differs in the last that can"""

    def __init__(self):
        self.made, self.at = [], 0

    def start(self):
        self.at = 0

    def pick(self, n, what=""):
        if self.at == len(self.made):
            self.made.append([0, n, what])
        c = self.made[self.at]
        self.at += 1
        return c[0]

    def next(self):
        del self.made[self.at:]
        while self.made and self.made[-1][0] + 1 >= self.made[-1][1]:
            self.made.pop()
        if not self.made:
            return False
        self.made[-1][0] += 1
        return True

    def story(self):
        return ", ".join(w for c, n, w in self.made[:self.at] if c and w)


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    pass


class Goto(Exception):
    pass


UNK = ("unk",)


class Machine:
    def __init__(self, tree, faults=False, choices=None):
        self.t, self.faults = tree, faults
        self.ch = choices or Choices()
        self.globals, self.obs, self.mems = {}, [], []
        self.statics = {}
        self.ranges = {}
        self.err = None
        self.calls = []
        self.at = ("module.c", 0)
        self.steps = 0
        self.depth = 0
        self.special = {}
        self.fetched = {}
        self.none, self.true, self.false = (self.ob("none", "None"), self.ob("bool", "True", True), self.ob("bool", "False", False))
        self.hooks = {}

    # ------------------------------------------------------------ objects
    def ob(self, kind, name="", value=None, items=None, exact=True):
        o = Ob(kind, name, value, items, exact)
        self.obs.append(o)
        return o

    def bytes(self, atoms, name="bytes", size=None):
        o = self.ob("bytes", name)
        o.mem = Mem("data", len(atoms) if size is None else size, name, ("o", name))
        o.mem.data = dict(enumerate(atoms))
        return o

    def atoms_of(self, o):
        return tuple(o.mem.data.get(i, o.mem.fill) for i in range(o.mem.size))

    def typeob(self, name):
        k = "type:" + name
        if k not in self.special:
            o = self.ob("type", name)
            self.special[k] = o
        return self.special[k]

    def exc(self, name):
        return self.typeob(name)

    def bad(self, rule, msg):
        raise Bad(rule, msg, self.at)

    def P(self, o):
        return ("ptr", o, 0) if o is not None else 0

    def live(self, v, what):
        """the object a pointer is of"""
        if v == 0:
            self.bad("null", "%s of a null pointer" % what)
        if v == ("uninit",) or v == UNK:
            self.bad("uninit", "%s of a pointer that was not set" % what)
        if v[0] != "ptr" or not isinstance(v[1], Ob) or v[2] != 0:
            self.bad("bounds", "%s of what is not an object" % what)
        if v[1].dead:
            self.bad("owned", "%s of an object that was released (%r)" % (what, v[1]))
        return v[1]

    def incref(self, o):
        o.refs += 1

    def decref(self, o):
        if o.dead:
            self.bad("owned", "a released object is released again (%r)" % o)
        o.refs -= 1
        if o.refs == 0:
            self.release(o)
        elif o.refs < 0:
            self.bad("owned", "an object is released more often than owned (%r)" % o)

    def release(self, o):
        if o.typ is not None:
            f = self.type_slot(o.typ, "tp_dealloc")
            if f != 0:
                self.call_value(f, [self.P(o)])
                if not o.dead:
                    self.bad("leak", "the memory of an object that ends is not given back")
                return
        o.dead = True
        for x in o.items or ():
            if x is not None:
                self.decref(x)
        if o.mem is not None:
            o.mem.dead = True
        for x in o.dict.values():
            self.decref(x)

    def slots(self, o, kind, what):
        if o.kind != kind:
            self.bad("bounds", "%s of a %s" % (what, o.kind))
        return o.items

    # ------------------------------------------------------------ values
    def conv(self, v, t):
        """a value as of an integer type"""
        if t[0] == "int":
            n, signed = t[1], t[2]
            if isinstance(v, int):
                v &= (1 << 8 * n) - 1
                return v - (1 << 8 * n) if signed and v >> (8 * n - 1) else v
            if v[0] == "sym":
                lo, hi = self.ranges[v[1]]
                a, b = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
                if a <= lo and hi <= b:
                    return v
                return ("lanes", tuple((v[1], i) for i in range(n)), signed)
            if v[0] == "lanes":
                if len(v[1]) == n:
                    return ("lanes", v[1], signed)
                if len(v[1]) > n:
                    return ("lanes", v[1][:n], signed)
                return v
        return v

    def octets(self, v, n):
        if isinstance(v, int):
            return list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))
        if v[0] == "sym":
            return [(v[1], i) for i in range(n)]
        if v[0] == "lanes":
            a = list(v[1])
            if len(a) >= n:
                return a[:n]
            return a + [("ext", v[1][-1]) if v[2] else 0] * (n - len(a))
        return [("pp", v, i) for i in range(n)]

    def value(self, a, t):
        """the value octets make"""
        x = a[0]
        if type(x) is int:
            try:
                v = int.from_bytes(bytes(a), "little")
                if t[0] == "int":
                    return self.conv(v, ("int", len(a), t[2]))
            except TypeError:
                pass
        elif type(x) is tuple and x[0] == "pp" and x[2] == 0:
            v = x[1]
            if a[-1] == ("pp", v, len(a) - 1) and [y[2] if type(y) is tuple and y[0] == "pp" and y[1] == v else -1 for y in a] == list(range(len(a))):
                return v
        if any(x is None for x in a):
            self.bad("uninit", "memory is read that was not written")
        if all(isinstance(x, int) for x in a):
            v = int.from_bytes(bytes(a), "little")
            if t[0] == "ptr":
                if v:
                    self.bad("bounds", "a number is taken for a pointer")
                return 0
            return self.conv(v, ("int", len(a), t[2] if t[0] == "int" else False))
        if all(isinstance(x, tuple) and x[0] == "pp" for x in a):
            v = a[0][1]
            if [x[2] for x in a] == list(range(len(a))) and all(x[1] == v for x in a):
                return v
            self.bad("bounds", "part of a pointer is read")
        if all(isinstance(x, tuple) and x[0] in self.ranges and x[1] == i for i, x in enumerate(a)) and len({x[0] for x in a}) == 1:
            return self.conv(("sym", a[0][0]), t)
        return ("lanes", tuple(a), t[2] if t[0] == "int" else False)

    def bounds(self, v):
        """the least and greatest a number can be"""
        if isinstance(v, int):
            return v, v
        if v[0] == "sym":
            return self.ranges[v[1]]
        if v[0] == "lanes":
            n = 8 * len(v[1])
            return (-(1 << n - 1), (1 << n - 1) - 1) if v[2] else (0, (1 << n) - 1)
        return None

    # ------------------------------------------------------------ memory
    def check(self, mem, off, n, what):
        if isinstance(mem, Ob):
            if mem.dead:
                self.bad("owned", "%s of an object that was released (%r)" % (what, mem))
            return
        if mem.dead:
            self.bad("owned", "%s of memory that was given back (%s)" % (what, mem.name))
        if mem.kind == "data" and what == "a read" and off >= 0 and off + n == mem.size + 1:
            # the data of bytes is followed by a null octet
            mem.data[mem.size] = 0
            return
        if off < 0 or off + n > mem.size:
            self.bad("bounds", "%s of octets %d to %d of %d (%s)" % (what, off, off + n, mem.size, mem.name))

    def place(self, v, what):
        if v == 0:
            self.bad("null", "%s through a null pointer" % what)
        if not isinstance(v, tuple) or v[0] != "ptr":
            self.bad("bounds" if v != ("uninit",) else "uninit", "%s through what is not a pointer" % what)
        return v[1], v[2]

    def load(self, mem, off, t):
        n = self.t.size(t)
        if t[0] == "arr":
            return ("ptr", mem, off)
        if isinstance(mem, Ob):
            self.check(mem, off, n, "a read")
            if mem.kind == "inst" and off >= 16:
                self.check(mem.mem, off, n, "a read")
                return self.value([mem.mem.data.get(i, mem.mem.fill) for i in range(off, off + n)], t)
            if off == 8 and n == 8:
                return self.P(self.type_of(mem))
            if mem.kind == "type":
                return self.type_field(mem, off)
            if off == 0:
                return UNK
            self.bad("bounds", "a read inside a %s" % mem.kind)
        self.check(mem, off, n, "a read")
        return self.value([mem.data.get(i, mem.fill) for i in range(off, off + n)], t)

    def store(self, mem, off, t, v):
        n = self.t.size(t)
        if isinstance(mem, Ob):
            self.check(mem, off, n, "a write")
            if mem.kind != "inst" or off < 16:
                self.bad("bounds", "a write inside a %s" % mem.kind)
            mem = mem.mem
        self.check(mem, off, n, "a write")
        if mem.kind == "data" and not getattr(mem, "open", False):
            self.bad("bounds", "a write into the data of an object")
        if t[0] == "int":
            v = self.conv(v, t)
        for i, a in enumerate(self.octets(v, n)):
            mem.data[off + i] = a

    def copy(self, dst, src, n):
        if isinstance(n, tuple):
            raise AnalysisBroken("an amount of memory is not known at %s:%d" % self.at)
        if n == 0:
            return
        if n < 0:
            n += 1 << 64
        (dm, do), (sm, so) = self.place(dst, "a write"), self.place(src, "a read")
        self.check(sm, so, n, "a read")
        self.check(dm, do, n, "a write")
        if isinstance(sm, Ob) or isinstance(dm, Ob):
            if isinstance(dm, Ob) and dm.kind == "inst":
                dm = dm.mem
                self.check(dm, do, n, "a write")
            if isinstance(sm, Ob) and sm.kind == "inst":
                sm = sm.mem
                self.check(sm, so, n, "a read")
            if isinstance(sm, Ob) or isinstance(dm, Ob):
                self.bad("bounds", "the inside of an object is copied")
        if dm.kind == "data" and not getattr(dm, "open", False):
            self.bad("bounds", "a write into the data of an object")
        if n > 1 << 16:
            dm.fill = ("o", "copied")
            got = {k - so + do: v for k, v in sm.data.items() if so <= k < so + n}
            for k in [k for k in dm.data if do <= k < do + n]:
                del dm.data[k]
            dm.data.update(got)
            return
        got = [sm.data.get(so + i, sm.fill) for i in range(n)]
        for i, a in enumerate(got):
            dm.data[do + i] = a

    def type_of(self, o):
        if o.typ is not None:
            return o.typ
        return self.typeob({"inst": "object"}.get(o.kind, o.kind))

    def type_field(self, o, off):
        lay = self.t.layout("struct _typeobject")[0]
        name = next((k for k, (at, t) in lay.items() if at == off), None)
        return self.type_slot(o, name)

    def type_slot(self, o, name):
        if name == "tp_name":
            return ("str", o.name)
        if name == "tp_free":
            return ("fn", "$free")
        if name == "tp_alloc":
            return ("fn", "$alloc")
        v = self.type_init(o.name).get(name)
        if v is None:
            return 0
        if isinstance(v, dict):
            return self.ev(v)
        return v

    def type_init(self, name):
        """the fields a type object is made with"""
        n = self.t.vars.get(name)
        if n is None or not n.get("inner"):
            return {}
        init = next((c for c in n["inner"] if c["kind"] == "InitListExpr"), None)
        if init is None:
            return {}
        fields = [f for f, _ in self.t.structs["struct _typeobject"]]
        vals = init.get("inner") or init.get("array_filler") or []
        return {f: v for f, v in zip(fields, vals) if v["kind"] != "ImplicitValueInitExpr"}

    # ------------------------------------------------------------ statements
    def call(self, name, args):
        """the value of a function of the extension"""
        f = self.t.funcs[name]
        self.depth += 1
        if self.depth > 40:
            raise AnalysisBroken("calls of %s do not end" % name)
        self.calls.append(name)
        was = getattr(self, "env", None)
        self.env = {}
        params = [c for c in f.get("inner", ()) if c["kind"] == "ParmVarDecl"]
        for prm, v in zip(params, args):
            t = self.t.of(prm)
            m = Mem("local", self.t.size(t), prm.get("name", "?"))
            self.env[prm["id"]] = (m, t)
            self.store(m, 0, t, v)
        body = next(c for c in f["inner"] if c["kind"] == "CompoundStmt")
        out = None
        try:
            self.stmt(body)
        except Return as r:
            out = r.args[0]
        finally:
            here = self.env
            self.env = was
            self.depth -= 1
            for m, t in here.values():
                if m.kind == "local":
                    m.dead = True
        rt = f["type"]["qualType"].split("(")[0].strip()
        if out is not None and rt != "void":
            out = self.conv(out, self.t.typ(rt))
        return out

    def stmt(self, n):
        k = n["kind"]
        self.steps += 1
        if self.steps > 200000:
            raise AnalysisBroken("a path does not end at %s:%d" % self.at)
        if n.get("at") and n["at"][0].endswith(".c"):
            self.at = n["at"]
        inner = n.get("inner", [])
        if k == "CompoundStmt":
            i = 0
            while i < len(inner):
                try:
                    self.stmt(inner[i])
                except Goto as g:
                    for j, c in enumerate(inner):
                        if self.has_label(c, g.args[0]):
                            i = j
                            break
                    else:
                        raise
                    # a label may be on a statement after others
                    continue
                i += 1
        elif k == "DeclStmt":
            for c in inner:
                if c["kind"] == "VarDecl":
                    self.local(c)
        elif k == "IfStmt":
            if n.get("hasInit") or n.get("hasVar"):
                raise AnalysisBroken("an if statement with a declaration")
            if self.true_(self.ev(inner[0])):
                self.stmt(inner[1])
            elif len(inner) > 2:
                self.stmt(inner[2])
        elif k == "WhileStmt":
            while self.true_(self.ev(inner[0])):
                if self.body(inner[1]):
                    break
        elif k == "DoStmt":
            while True:
                if self.body(inner[0]) or not self.true_(self.ev(inner[1])):
                    break
        elif k == "ForStmt":
            init, var, cond, inc, body = (inner + [{}] * 5)[:5]
            if init.get("kind"):
                self.stmt(init)
            while not cond.get("kind") or self.true_(self.ev(cond)):
                if self.body(body):
                    break
                if inc.get("kind"):
                    self.ev(inc)
        elif k == "ReturnStmt":
            raise Return(self.ev(inner[0]) if inner else None)
        elif k == "BreakStmt":
            raise Break()
        elif k == "ContinueStmt":
            raise Continue()
        elif k == "GotoStmt":
            raise Goto(n["targetLabelDeclId"])
        elif k == "LabelStmt":
            for c in inner:
                self.stmt(c)
        elif k == "NullStmt":
            pass
        elif k == "SwitchStmt":
            self.switch(n)
        elif k in ("CaseStmt", "DefaultStmt"):
            self.stmt(inner[-1])
        else:
            self.ev(n)

    def has_label(self, c, ident):
        while c["kind"] == "LabelStmt":
            if c.get("declId") == ident:
                return True
            c = (c.get("inner") or [{"kind": ""}])[0]
        return False

    def body(self, n):
        """True to leave the loop"""
        try:
            self.stmt(n)
        except Break:
            return True
        except Continue:
            pass
        return False

    def switch(self, n):
        v = self.ev(n["inner"][0])
        if not isinstance(v, int):
            raise AnalysisBroken("a switch over what is not known")
        body = n["inner"][-1].get("inner", [])
        start = None
        for i, c in enumerate(body):
            x = c
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt" and self.ev(x["inner"][0]) == v:
                    start = i
                    break
                x = x["inner"][-1]
            if start is not None:
                break
        if start is None:
            start = next((i for i, c in enumerate(body) if c["kind"] == "DefaultStmt"), None)
        if start is None:
            return
        try:
            for c in body[start:]:
                self.stmt(c)
        except Break:
            pass

    def local(self, c):
        t = self.t.of(c)
        if c.get("storageClass") == "static":
            if c["id"] not in self.statics:
                m = Mem("static", self.t.size(t), c["name"], 0)
                self.statics[c["id"]] = (m, t)
                self.init(c, m, t)
            self.env[c["id"]] = self.statics[c["id"]]
            return
        m = Mem("local", self.t.size(t), c["name"])
        self.env[c["id"]] = (m, t)
        self.init(c, m, t)

    def init(self, c, m, t):
        x = next((i for i in c.get("inner", ()) if not i["kind"].endswith("Attr")), None)
        if x is None or "init" not in c:
            return
        self.init_at(x, m, 0, t)

    def init_at(self, x, m, off, t):
        if x["kind"] == "InitListExpr":
            if t[0] == "arr":
                et = self.t.typ(t[1])
                for i in range(self.t.size(t)):
                    m.data[off + i] = 0
                for i, e in enumerate(x.get("inner") or [e for e in x.get("array_filler", []) if e["kind"] != "ImplicitValueInitExpr"]):
                    self.init_at(e, m, off + i * self.t.size(et), et)
                return
            if t[0] == "struct":
                for i in range(self.t.size(t)):
                    m.data[off + i] = 0
                lay = self.t.layout(t[1])[0]
                for (f, (o, ft)), e in zip(lay.items(), x.get("inner", ())):
                    self.init_at(e, m, off + o, ft)
                return
        if x["kind"] == "ImplicitValueInitExpr":
            for i in range(self.t.size(t)):
                m.data[off + i] = 0
            return
        if t[0] == "arr" and x["kind"] == "StringLiteral":
            s = json.loads(x["value"]).encode("latin-1") + b"\0"
            for i in range(t[2]):
                m.data[off + i] = s[i] if i < len(s) else 0
            return
        self.store(m, off, t, self.ev(x))

    # ------------------------------------------------------------ expressions
    def true_(self, v):
        if isinstance(v, int):
            return v != 0
        if v[0] in ("ptr", "fn", "str"):
            return True
        b = self.bounds(v)
        if b is None:
            raise AnalysisBroken("a condition is not known at %s:%d" % self.at)
        return self.compare("!=", v, 0)

    def compare(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        pa, pb = (isinstance(x, tuple) and x[0] in ("ptr", "fn", "str") for x in (a, b))
        if pa or pb:
            if op in ("==", "!="):
                return (a == b) == (op == "==")
            if pa and pb and a[0] == b[0] == "ptr" and a[1] is b[1]:
                return self.compare(op, a[2], b[2])
            self.bad("bounds", "pointers of different memory are compared")
        if isinstance(a, int):
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a == b:
            return op in ("==", "<=", ">=")
        x, y = self.bounds(a), self.bounds(b)
        if x is None or y is None:
            raise AnalysisBroken("a comparison is not known at %s:%d" % self.at)
        if x[1] < y[0]:
            return op in ("<", "<=", "!=")
        if x[0] > y[1]:
            return op in (">", ">=", "!=")
        if op == "<=" and x[1] <= y[0] or op == ">=" and x[0] >= y[1]:
            return True
        if op == "<" and x[0] >= y[1] or op == ">" and x[1] <= y[0]:
            return False
        r = self.ch.pick(2, "") == 0
        if a[0] == "sym" and isinstance(b, int):
            lo, hi = x
            yes = {"<": (lo, b - 1), "<=": (lo, b), ">": (b + 1, hi), ">=": (b, hi), "==": (b, b), "!=": None}[op]
            no = {"<": (b, hi), "<=": (b + 1, hi), ">": (lo, b), ">=": (lo, b - 1), "==": None, "!=": (b, b)}[op]
            n = yes if r else no
            if n is None:
                # different from a bound
                n = (lo + 1, hi) if lo == b else (lo, hi - 1) if hi == b else (lo, hi)
            self.ranges[a[1]] = n
        return r

    def lval(self, n):
        """the place an expression names: (memory, offset, type)"""
        k = n["kind"]
        inner = n.get("inner", [])
        if k == "ParenExpr":
            return self.lval(inner[0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["id"] in self.env:
                m, t = self.env[d["id"]]
                return m, 0, t
            return self.glob(d["name"], n)
        if k == "UnaryOperator" and n["opcode"] == "*":
            v = self.ev(inner[0])
            m, o = self.place(v, "a use")
            return m, o, self.t.of(n)
        if k == "ArraySubscriptExpr":
            a, b = self.ev(inner[0]), self.ev(inner[1])
            if isinstance(a, int) and isinstance(b, tuple):
                a, b = b, a
            t = self.t.of(n)
            m, o = self.place(a, "an item")
            if not isinstance(b, int):
                raise AnalysisBroken("an index is not known at %s:%d" % self.at)
            return m, o + b * self.t.size(t), t
        if k == "MemberExpr":
            t = self.t.of(n)
            if n["isArrow"]:
                v = self.ev(inner[0])
                m, o = self.place(v, "a member (%s)" % n["name"])
                st = self.t.typ(self.t.of(inner[0])[1])
            else:
                m, o, st = self.lval(inner[0])
            at, t = self.t.layout(st[1])[0][n["name"]]
            return m, o + at, t
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lval(inner[0])
        if k == "InitListExpr" or k == "CompoundLiteralExpr":
            t = self.t.of(n)
            m = Mem("local", self.t.size(t), "literal")
            self.init_at(inner[0] if k == "CompoundLiteralExpr" else n, m, 0, t)
            return m, 0, t
        raise AnalysisBroken("a place of kind %s at %s:%d" % ((k,) + self.at))

    def glob(self, name, n=None):
        special = {"_Py_NoneStruct": self.none, "_Py_TrueStruct": self.true, "_Py_FalseStruct": self.false}
        if name in special:
            return special[name], 0, ("struct", "struct _object")
        if name in self.globals:
            return self.globals[name]
        if name.startswith("PyExc_"):
            t = ("ptr", "PyObject")
            m = Mem("static", 8, name)
            self.store(m, 0, t, self.P(self.exc(name[6:])))
            self.globals[name] = (m, 0, t)
            return self.globals[name]
        m = re.match(r"(Py\w+)_Type$", name)
        d = self.t.vars.get(name)
        if d is not None and self.t.of(d)[:1] == ("struct",) and self.t.of(d)[1] in ("struct _typeobject", "PyTypeObject"):
            o = self.typeob({"PyTuple_Type": "tuple", "PyList_Type": "list", "PyBytes_Type": "bytes"}.get(name, name))
            self.globals[name] = (o, 0, self.t.of(d))
            return self.globals[name]
        if d is None:
            raise AnalysisBroken("the C variable %s is not known" % name)
        t = self.t.of(d)
        mem = Mem("static", self.t.size(t), name, 0)
        self.globals[name] = (mem, 0, t)
        self.init(d, mem, t)
        return self.globals[name]

    def ev(self, n):
        k = n["kind"]
        inner = n.get("inner", [])
        if k in ("ParenExpr", "ConstantExpr", "FullExpr"):
            return self.ev(inner[0])
        if k == "IntegerLiteral":
            return self.conv(int(n["value"]), self.t.of(n))
        if k == "CharacterLiteral":
            return n["value"]
        if k == "StringLiteral":
            s = json.loads(n["value"]) if '\\x' not in n["value"] else n["value"].strip('"')
            return ("str", s)
        if k == "ImplicitValueInitExpr" or k == "GNUNullExpr":
            return 0
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.cast(n, inner[0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] == "FunctionDecl":
                return ("fn", d["name"])
            if d["kind"] == "EnumConstantDecl":
                raise AnalysisBroken("an enumerator")
            m, o, t = self.lval(n)
            return self.load(m, o, t) if t[0] != "struct" else ("ptr", m, o)
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            m, o, t = self.lval(n)
            return self.load(m, o, t)
        if k == "UnaryOperator":
            return self.unary(n, inner[0])
        if k == "BinaryOperator":
            return self.binary(n, inner)
        if k == "CompoundAssignOperator":
            m, o, t = self.lval(inner[0])
            v = self.arith(n["opcode"][:-1], self.load(m, o, t), self.ev(inner[1]), t, self.t.of(n) if t[0] != "ptr" else t)
            self.store(m, o, t, v)
            return self.load(m, o, t)
        if k == "ConditionalOperator":
            return self.ev(inner[1] if self.true_(self.ev(inner[0])) else inner[2])
        if k == "UnaryExprOrTypeTraitExpr":
            if n.get("name") == "sizeof":
                if "argType" in n:
                    t = n["argType"]
                    return self.t.size(self.t.typ(t.get("desugaredQualType") or t["qualType"]))
                return self.t.size(self.t.of(inner[0]))
        if k == "CallExpr":
            return self.call_expr(n, inner)
        if k == "StmtExpr":
            raise AnalysisBroken("a statement expression")
        raise AnalysisBroken("an expression of kind %s at %s:%d" % ((k,) + self.at))

    def cast(self, n, x):
        ck = n.get("castKind")
        if ck == "LValueToRValue":
            m, o, t = self.lval(x)
            if t[0] == "struct":
                return ("struct", m, o, t)
            return self.load(m, o, t)
        if ck == "ArrayToPointerDecay":
            if x["kind"] == "StringLiteral" or x["kind"] == "ParenExpr" and x["inner"][0]["kind"] == "StringLiteral":
                return self.ev(x)
            m, o, t = self.lval(x)
            return ("ptr", m, o)
        if ck == "NullToPointer":
            return 0
        if ck == "ToVoid":
            self.ev(x)
            return None
        v = self.ev(x)
        if ck in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean"):
            t = self.t.of(n)
            if ck != "IntegralCast":
                return int(self.true_(v))
            return self.conv(v, t)
        return v

    def unary(self, n, x):
        op = n["opcode"]
        if op == "&":
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl":
                return self.ev(x)
            m, o, t = self.lval(x)
            return ("ptr", m, o)
        if op == "*":
            m, o, t = self.lval(n)
            return self.load(m, o, t) if t[0] != "struct" else ("struct", m, o, t)
        if op == "!":
            return int(not self.true_(self.ev(x)))
        if op in ("++", "--"):
            m, o, t = self.lval(x)
            v = self.load(m, o, t)
            w = self.arith("+" if op == "++" else "-", v, 1, t, t)
            self.store(m, o, t, w)
            return v if n.get("isPostfix") else self.load(m, o, t)
        v = self.ev(x)
        t = self.t.of(n)
        if op == "+":
            return v
        if isinstance(v, int):
            return self.conv(-v if op == "-" else ~v, t)
        raise AnalysisBroken("%s of what is not known at %s:%d" % ((op,) + self.at))

    def binary(self, n, inner):
        op = n["opcode"]
        if op == "=":
            t = self.t.of(n)
            if t[0] == "struct":
                src = self.ev(inner[1])
                m, o, _ = self.lval(inner[0])
                self.copy(("ptr", m, o), ("ptr",) + src[1:3], self.t.size(t))
                return src
            v = self.ev(inner[1])
            m, o, t = self.lval(inner[0])
            self.store(m, o, t, v)
            return v if t[0] != "int" else self.conv(v, t)
        if op == "&&":
            return int(self.true_(self.ev(inner[0])) and self.true_(self.ev(inner[1])))
        if op == "||":
            return int(self.true_(self.ev(inner[0])) or self.true_(self.ev(inner[1])))
        if op == ",":
            self.ev(inner[0])
            return self.ev(inner[1])
        a, b = self.ev(inner[0]), self.ev(inner[1])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return int(self.compare(op, a, b))
        ta = self.t.of(inner[0])
        tb = self.t.of(inner[1])
        return self.arith(op, a, b, ta if ta[0] == "ptr" else tb if tb[0] == "ptr" else ta, self.t.of(n))

    def arith(self, op, a, b, ta, t):
        pa, pb = (isinstance(x, tuple) and x[0] == "ptr" for x in (a, b))
        if pa or pb:
            if pa and pb and op == "-":
                if a[1] is not b[1]:
                    self.bad("bounds", "pointers of different memory are subtracted")
                return (a[2] - b[2]) // self.t.size(self.t.typ(ta[1]))
            if pb:
                a, b = b, a
            if not isinstance(b, int):
                raise AnalysisBroken("a pointer moves by what is not known at %s:%d" % self.at)
            w = self.t.size(self.t.typ(ta[1])) if ta[0] == "ptr" else 1
            return ("ptr", a[1], a[2] + (b if op == "+" else -b) * w)
        if isinstance(a, int) and isinstance(b, int):
            if ta[0] == "ptr":
                if a or op not in "+-":
                    raise AnalysisBroken("arithmetic of a null pointer")
                self.bad("null", "a null pointer is moved") if b else None
                return 0
            if op in ("/", "%"):
                if b == 0:
                    self.bad("bounds", "a division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return self.conv(q if op == "/" else a - q * b, t)
            v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << (b & 63), ">>": lambda: a >> (b & 63)}[op]()
            return self.conv(v, t)
        return self.lanes(op, a, b, t)

    def lanes(self, op, a, b, t):
        """shifts and masks by whole octets of numbers that are not known"""
        n = t[1]
        A, B = (self.octets(x, n) for x in (a, b))
        if op in ("<<", ">>") and isinstance(b, int) and b % 8 == 0:
            k = b // 8
            r = [0] * min(k, n) + A[:n - k] if op == "<<" else A[k:] + [(("ext", A[-1]) if t[2] and A[-1] != 0 else 0)] * min(k, n)
        elif op == "&" and all(x in (0, 255) for x in (B if isinstance(b, int) else A if isinstance(a, int) else [1])):
            m, x = (B, A) if isinstance(b, int) else (A, B)
            r = [y if k == 255 else 0 for k, y in zip(m, x)]
        elif op in ("|", "^", "+") and all(x == 0 or y == 0 for x, y in zip(A, B)):
            r = [x if y == 0 else y for x, y in zip(A, B)]
        else:
            raise AnalysisBroken("%s of numbers that are not known at %s:%d (%s, %s)" % ((op,) + self.at + (a, b)))
        if all(isinstance(x, int) for x in r):
            return self.conv(int.from_bytes(bytes(r), "little"), t)
        return ("lanes", tuple(r), t[2])

    # ------------------------------------------------------------ calls
    def call_expr(self, n, inner):
        at = self.at
        f = self.ev(inner[0])
        args = [self.ev(x) for x in inner[1:]]
        self.at = n.get("at") if n.get("at") and n["at"][0].endswith(".c") else at
        try:
            return self.call_value(f, args, [self.t.of(x) for x in inner[1:]])
        finally:
            self.at = at

    def call_value(self, f, args, types=()):
        if f == 0:
            self.bad("null", "a call of a null pointer")
        if f[0] != "fn":
            raise AnalysisBroken("what is called is not known at %s:%d" % self.at)
        if f[1] in self.t.funcs:
            at = self.at
            r = self.call(f[1], args)
            self.at = at
            return r
        h = getattr(self, "c_" + f[1].lstrip("$"), None)
        if h is None:
            raise AnalysisBroken("the C function %s is not known" % f[1])
        return h(*args)

    def fails(self, what):
        return self.faults and self.ch.pick(2, what + " fails") == 1
