"""Python's C interface, as the extension sees it: what each function takes, gives, and may fail at."""
from .cinterp import *


class Api(Machine):
    # ------------------------------------------------------------ errors
    def raise_(self, name, value=None):
        if self.err is not None:
            self.clear()
        self.err = [name, value, None]
        return 0

    def clear(self):
        if self.err is not None:
            for o in self.err[1:]:
                if o is not None:
                    self.decref(o)
        self.err = None

    def c_PyErr_Occurred(self):
        return self.P(self.exc(self.err[0])) if self.err else 0

    def c_PyErr_Clear(self):
        self.clear()

    def c_PyErr_SetString(self, t, s):
        self.raise_(self.live(t, "raising").name)

    def c_PyErr_SetNone(self, t):
        self.raise_(self.live(t, "raising").name)

    def c_PyErr_Format(self, t, s, *a):
        return self.raise_(self.live(t, "raising").name)

    def c_PyErr_NoMemory(self):
        return self.raise_("MemoryError")

    def c_PyErr_ExceptionMatches(self, t):
        name = self.live(t, "a comparison").name
        if self.err is None:
            self.bad("error", "an exception is asked for when there is none")
        return int(name == self.err[0] or name == "BaseException" or name == "Exception" and self.err[0] != "KeyboardInterrupt")

    def c_PyErr_Fetch(self, a, b, c):
        e, self.err = self.err, None
        t = ("ptr", "PyObject *")
        if e is None:
            for p in (a, b, c):
                self.store(*self.place(p, "a write"), t, 0)
            return
        o = self.exc(e[0])
        self.fetched.setdefault(o, o.refs)
        self.incref(o)
        self.store(*self.place(a, "a write"), t, self.P(o))
        self.store(*self.place(b, "a write"), t, self.P(e[1]))
        tb = e[2] or (self.ob("tb", "traceback") if self.ch.pick(2, "there is a traceback") else None)
        self.store(*self.place(c, "a write"), t, self.P(tb))

    def c_PyErr_NormalizeException(self, a, b, c):
        t = ("ptr", "PyObject *")
        m, o = self.place(b, "a write")
        if self.load(m, o, t) == 0:
            self.store(m, o, t, self.P(self.ob("exc", "exception")))

    def c_PyErr_Restore(self, a, b, c):
        self.clear()
        if a != 0:
            t = self.live(a, "raising")
            t.refs -= 1
            self.err = [t.name] + [self.live(x, "raising") if x != 0 else None for x in (b, c)]

    def c_PyErr_GetRaisedException(self):
        e, self.err = self.err, None
        if e is None:
            return 0
        o = e[1] or self.ob("exc", "exception")
        o.value = e[0]
        if e[2] is not None:
            self.decref(e[2])
        return self.P(o)

    def c_PyErr_SetRaisedException(self, p):
        self.clear()
        o = self.live(p, "raising")
        self.err = [o.value or "Exception", o, None]

    # ------------------------------------------------------------ memory
    def c_malloc(self, n):
        if self.fails("malloc"):
            return 0
        if not isinstance(n, int):
            raise AnalysisBroken("an amount of memory is not known at %s:%d" % self.at)
        n &= (1 << 64) - 1
        if n > 1 << 62:
            return 0
        m = Mem("malloc", n, "malloc at line %d" % self.at[1])
        self.mems.append(m)
        return ("ptr", m, 0)

    c_PyMem_Malloc = c_PyObject_Malloc = c_malloc

    def c_calloc(self, a, b):
        r = self.c_malloc(a * b)
        if r != 0:
            r[1].fill = 0
        return r

    def c_free(self, p):
        if p == 0:
            return
        m, o = self.place(p, "a free")
        if isinstance(m, Ob) or m.kind != "malloc" or o != 0:
            self.bad("owned", "memory is given back that was not taken (%s)" % getattr(m, "name", m))
        if m.dead:
            self.bad("owned", "memory is given back twice (%s)" % m.name)
        m.dead = True

    c_PyMem_Free = c_PyObject_Free = c_free

    def c_realloc(self, p, n):
        if p == 0:
            return self.c_malloc(n)
        if self.fails("realloc"):
            return 0
        r = Api.c_malloc(self, n) if not self.faults else self.sure(self.c_malloc, n)
        m, o = self.place(p, "a use")
        self.check(m, 0, 0, "a use")
        r[1].data = {k: v for k, v in m.data.items() if k < r[1].size}
        if m.size > 1 << 16:
            r[1].fill = m.fill
        self.c_free(p)
        return r

    c_PyMem_Realloc = c_realloc

    def sure(self, f, *a):
        was, self.faults = self.faults, False
        try:
            return f(*a)
        finally:
            self.faults = was

    def c_memcpy(self, d, s, n):
        self.copy(d, s, n)
        return d

    c_memmove = c_memcpy

    def c_memset(self, d, c, n):
        m, o = self.place(d, "a write")
        if n:
            self.check(m, o, n, "a write")
            for i in range(n):
                m.data[o + i] = c & 255
        return d

    def c_memcmp(self, a, b, n):
        (m, o), (m2, o2) = self.place(a, "a read"), self.place(b, "a read")
        self.check(m, o, n, "a read")
        self.check(m2, o2, n, "a read")
        x = [[k.data.get(j + i, k.fill) for i in range(n)] for k, j in ((m, o), (m2, o2))]
        if not all(isinstance(y, int) for y in x[0] + x[1]):
            raise AnalysisBroken("memory that is not known is compared")
        return (x[0] > x[1]) - (x[0] < x[1])

    def c_free_object(self, p):
        pass

    def c_alloc(self, t, n):
        typ = self.live(t, "an instance")
        if self.fails("tp_alloc"):
            return self.raise_("MemoryError")
        o = self.ob("inst", "a " + typ.name)
        o.typ = typ
        size = self.type_slot(typ, "tp_basicsize")
        o.mem = Mem("inst", size if isinstance(size, int) else self.ev(size), o.name, 0)
        self.incref(typ)
        return self.P(o)

    # tp_free: the memory of an instance that ends
    def c_release(self, p):
        o = p[1]

    def call_value(self, f, args, types=()):
        if f == ("fn", "$free"):
            o = args[0][1] if args and args[0] != 0 else None
            if o is None or not isinstance(o, Ob) or o.dead:
                self.bad("owned", "an object's memory is given back twice")
            o.dead = o.mem.dead = True
            self.decref(o.typ)
            return None
        return super().call_value(f, args, types)

    # ------------------------------------------------------------ references
    def c_Py_INCREF(self, p):
        self.incref(self.live(p, "a reference"))

    def c_Py_DECREF(self, p):
        self.decref(self.live(p, "a release"))

    def c_Py_XINCREF(self, p):
        if p != 0:
            self.c_Py_INCREF(p)

    def c_Py_XDECREF(self, p):
        if p != 0:
            self.c_Py_DECREF(p)

    def c_Py_NewRef(self, p):
        self.c_Py_INCREF(p)
        return p

    def c_Py_XNewRef(self, p):
        self.c_Py_XINCREF(p)
        return p

    def c_Py_TYPE(self, p):
        return self.P(self.type_of(self.live(p, "the type")))

    def c_Py_IsNone(self, p):
        return int(self.live(p, "a comparison") is self.none)

    def c_Py_SIZE(self, p):
        o = self.live(p, "the size")
        return len(o.items) if o.items is not None else o.mem.size

    # ------------------------------------------------------------ kinds
    def is_(self, p, kind, exact):
        o = self.live(p, "the kind")
        return int(o.kind == kind and (o.exact or not exact))

    def c_PyTuple_Check(self, p):
        return self.is_(p, "tuple", False)

    def c_PyTuple_CheckExact(self, p):
        return self.is_(p, "tuple", True)

    def c_PyList_Check(self, p):
        return self.is_(p, "list", False)

    def c_PyList_CheckExact(self, p):
        return self.is_(p, "list", True)

    def c_PyBytes_Check(self, p):
        return self.is_(p, "bytes", False)

    def c_PyBytes_CheckExact(self, p):
        return self.is_(p, "bytes", True)

    def c_PyLong_Check(self, p):
        return self.is_(p, "int", False)

    c_PyLong_CheckExact = c_PyLong_Check

    def c_PyUnicode_Check(self, p):
        return self.is_(p, "str", False)

    def c_PyObject_IsInstance(self, p, t):
        o, c = self.live(p, "the kind"), self.live(t, "the kind")
        if self.fails("isinstance"):
            self.raise_("Exception")
            return -1
        return int(o.kind == c.name or o.typ is c)

    def c_PyObject_TypeCheck(self, p, t):
        o, c = self.live(p, "the kind"), self.live(t, "the kind")
        return int(o.kind == c.name or o.typ is c)

    def c_PyCallable_Check(self, p):
        return int(self.live(p, "the kind").kind in ("callable", "opaque", "type"))

    # ------------------------------------------------------------ tuples and lists
    def index(self, items, i, what):
        if not isinstance(i, int):
            b = self.bounds(i)
            if b is None or b[0] < 0 or b[1] >= len(items):
                self.bad("bounds", "%s %s of %d" % (what, "%d to %d" % b if b else "?", len(items)))
            return items[self.any_index(items, i)]
        if not 0 <= i < len(items):
            self.bad("bounds", "%s %d of %d" % (what, i, len(items)))
        return items[i]

    def any_index(self, items, i):
        return 0

    def new_seq(self, kind, n):
        if not isinstance(n, int):
            raise AnalysisBroken("a number of items is not known at %s:%d" % self.at)
        if n < 0:
            return self.raise_("SystemError")
        if self.fails("a new " + kind):
            return self.raise_("MemoryError")
        return self.P(self.ob(kind, kind, items=[None] * n))

    def c_PyTuple_New(self, n):
        return self.new_seq("tuple", n)

    def c_PyList_New(self, n):
        return self.new_seq("list", n)

    def size_(self, p, kind):
        return len(self.slots(self.live(p, "the size"), kind, "the size as of a " + kind))

    def c_PyTuple_GET_SIZE(self, p):
        return self.size_(p, "tuple")

    def c_PyList_GET_SIZE(self, p):
        return self.size_(p, "list")

    c_PyTuple_Size, c_PyList_Size = c_PyTuple_GET_SIZE, c_PyList_GET_SIZE

    def item_(self, p, i, kind):
        o = self.live(p, "an item")
        return self.P(self.index(self.slots(o, kind, "an item as of a " + kind), i, "item"))

    def c_PyTuple_GET_ITEM(self, p, i):
        return self.item_(p, i, "tuple")

    def c_PyList_GET_ITEM(self, p, i):
        return self.item_(p, i, "list")

    def get_(self, p, i, kind):
        o = self.live(p, "an item")
        if o.kind != kind:
            return self.raise_("SystemError")
        if not 0 <= i < len(o.items):
            return self.raise_("IndexError")
        return self.P(o.items[i])

    def c_PyTuple_GetItem(self, p, i):
        return self.get_(p, i, "tuple")

    def c_PyList_GetItem(self, p, i):
        return self.get_(p, i, "list")

    def set_(self, p, i, v, kind):
        o = self.live(p, "a write of an item")
        items = self.slots(o, kind, "an item as of a " + kind)
        old = self.index(items, i, "item")
        if old is not None:
            self.bad("leak", "an item is written over without being released")
        items[i] = self.live(v, "keeping") if v != 0 else None

    def c_PyTuple_SET_ITEM(self, p, i, v):
        self.set_(p, i, v, "tuple")

    def c_PyList_SET_ITEM(self, p, i, v):
        self.set_(p, i, v, "list")

    def c_PyList_SetItem(self, p, i, v):
        o = self.live(p, "a write of an item")
        x = self.live(v, "keeping") if v != 0 else None
        if not 0 <= i < len(self.slots(o, "list", "an item")):
            if x is not None:
                self.decref(x)
            self.raise_("IndexError")
            return -1
        old, o.items[i] = o.items[i], x
        if old is not None:
            self.decref(old)
        return 0

    def c_PyTuple_SetItem(self, p, i, v):
        o = self.live(p, "a write of an item")
        x = self.live(v, "keeping") if v != 0 else None
        old = self.index(self.slots(o, "tuple", "an item"), i, "item")
        o.items[i] = x
        if old is not None:
            self.decref(old)
        return 0

    def c_PyList_Append(self, p, v):
        o, x = self.live(p, "an item"), self.live(v, "keeping")
        if self.fails("append"):
            self.raise_("MemoryError")
            return -1
        self.incref(x)
        self.slots(o, "list", "an item").append(x)
        return 0

    def c_PyTuple_Pack(self, n, *a):
        r = self.c_PyTuple_New(n)
        if r != 0:
            for i, x in enumerate(a[:n]):
                self.incref(self.live(x, "keeping"))
                r[1].items[i] = x[1]
        return r

    def slice_(self, p, lo, hi, kind):
        o = self.live(p, "a slice")
        items = self.slots(o, kind, "a slice as of a " + kind)
        r = self.new_seq(kind, max(0, min(hi, len(items)) - max(lo, 0)))
        if r != 0:
            for i, x in enumerate(items[max(lo, 0):hi]):
                if x is None:
                    self.bad("null", "a slice of items that were not set")
                self.incref(x)
                r[1].items[i] = x
        return r

    def c_PyList_GetSlice(self, p, lo, hi):
        return self.slice_(p, lo, hi, "list")

    def c_PyTuple_GetSlice(self, p, lo, hi):
        return self.slice_(p, lo, hi, "tuple")

    def listed(self, p, kind):
        o = self.live(p, "an iteration")
        if o.items is None:
            return self.raise_("TypeError")
        if self.fails("an iteration"):
            return self.raise_("Exception")
        r = self.sure(self.new_seq, kind, len(o.items))
        for i, x in enumerate(o.items):
            self.incref(x)
            r[1].items[i] = x
        return r

    def c_PySequence_List(self, p):
        return self.listed(p, "list")

    def c_PySequence_Tuple(self, p):
        return self.listed(p, "tuple")

    c_PyList_AsTuple = c_PySequence_Tuple

    def c_PySequence_Length(self, p):
        o = self.live(p, "the length")
        if o.items is None or self.fails("the length"):
            self.raise_("TypeError")
            return -1
        return len(o.items)

    c_PySequence_Size = c_PySequence_Length

    def c_PySequence_GetItem(self, p, i):
        o = self.live(p, "an item")
        if o.items is None or self.fails("an item"):
            return self.raise_("Exception")
        if not 0 <= i < len(o.items):
            return self.raise_("IndexError")
        self.incref(o.items[i])
        return self.P(o.items[i])

    def c_PySequence_GetSlice(self, p, lo, hi):
        o = self.live(p, "a slice")
        if o.mem is None or self.fails("a slice"):
            return self.raise_("Exception")
        a = self.atoms_of(o)
        return self.P(self.bytes(a[max(lo, 0):max(hi, 0)], "slice"))

    # ------------------------------------------------------------ bytes
    def c_PyBytes_GET_SIZE(self, p):
        o = self.live(p, "the size")
        if o.kind != "bytes":
            self.bad("bounds", "the size as of bytes of a %s" % o.kind)
        return o.mem.size

    def c_PyBytes_AS_STRING(self, p):
        o = self.live(p, "the data")
        if o.kind != "bytes":
            self.bad("bounds", "the data as of bytes of a %s" % o.kind)
        return ("ptr", o.mem, 0)

    def c_PyBytes_Size(self, p):
        o = self.live(p, "the size")
        if o.kind != "bytes":
            self.raise_("TypeError")
            return -1
        return o.mem.size

    def c_PyBytes_AsString(self, p):
        o = self.live(p, "the data")
        return ("ptr", o.mem, 0) if o.kind == "bytes" else self.raise_("TypeError")

    def c_PyBytes_AsStringAndSize(self, p, a, b):
        o = self.live(p, "the data")
        if o.kind != "bytes":
            self.raise_("TypeError")
            return -1
        self.store(*self.place(a, "a write"), ("ptr", "char"), ("ptr", o.mem, 0))
        if b != 0:
            self.store(*self.place(b, "a write"), ("int", 8, True), o.mem.size)
        return 0

    def c_PyBytes_FromStringAndSize(self, s, n):
        if not isinstance(n, int):
            raise AnalysisBroken("a size is not known at %s:%d" % self.at)
        if n < 0:
            return self.raise_("SystemError")
        if self.fails("new bytes"):
            return self.raise_("MemoryError")
        o = self.bytes([], "bytes", n)
        if s == 0:
            o.mem.fill, o.mem.open = None, True
        elif n:
            o.mem.open = True
            self.copy(("ptr", o.mem, 0), s, n)
            o.mem.open = False
            if any(v is None for v in o.mem.data.values()):
                self.bad("uninit", "bytes are made of memory that was not written")
        else:
            o.mem.fill = 0
        return self.P(o)

    def c_PyBytes_FromString(self, s):
        if self.fails("new bytes"):
            return self.raise_("MemoryError")
        return self.P(self.bytes(s[1].encode("latin-1")))

    def c_PyBytes_Concat(self, pp, w):
        m, o = self.place(pp, "a write")
        t = ("ptr", "PyObject *")
        a, b = self.load(m, o, t), w
        if a == 0:
            return
        x = self.live(a, "joining")
        if b == 0 or self.fails("joining bytes"):
            self.decref(x)
            self.store(m, o, t, 0)
            self.raise_("MemoryError")
            return
        y = self.live(b, "joining")
        r = self.bytes(self.atoms_of(x) + self.atoms_of(y))
        self.decref(x)
        self.store(m, o, t, self.P(r))

    def c_PyBytes_ConcatAndDel(self, pp, w):
        self.c_PyBytes_Concat(pp, w)
        self.c_Py_XDECREF(w)

    def buffer(self, p, what):
        o = self.live(p, what)
        return o if o.kind in ("bytes", "view") else None

    def c_PyObject_AsReadBuffer(self, p, a, b):
        o = self.buffer(p, "the data")
        if o is None:
            self.raise_("TypeError")
            return -1
        self.store(*self.place(a, "a write"), ("ptr", "void"), ("ptr", o.mem, 0))
        self.store(*self.place(b, "a write"), ("int", 8, True), o.mem.size)
        return 0

    def c_PyObject_GetBuffer(self, p, v, flags):
        o = self.buffer(p, "the data")
        if o is None:
            self.raise_("TypeError")
            return -1
        lay = self.t.layout("Py_buffer")[0]
        m, at = self.place(v, "a write")
        for k in ("internal", "shape", "strides", "suboffsets", "format"):
            self.store(m, at + lay[k][0], lay[k][1], 0)
        self.store(m, at + lay["buf"][0], lay["buf"][1], ("ptr", o.mem, 0))
        self.store(m, at + lay["obj"][0], lay["obj"][1], p)
        self.store(m, at + lay["len"][0], lay["len"][1], o.mem.size)
        self.incref(o)
        return 0

    def c_PyBuffer_Release(self, v):
        lay = self.t.layout("Py_buffer")[0]
        m, at = self.place(v, "a use")
        o = self.load(m, at + lay["obj"][0], lay["obj"][1])
        if o != 0:
            self.c_Py_DECREF(o)
            self.store(m, at + lay["obj"][0], lay["obj"][1], 0)

    def c_PyUnicode_FromString(self, s):
        if self.fails("a new str"):
            return self.raise_("MemoryError")
        return self.P(self.ob("str", s[1], s[1]))

    c_PyUnicode_InternFromString = c_PyUnicode_FromString

    # ------------------------------------------------------------ numbers
    def from_number(self, v, n, signed):
        if self.fails("a new int"):
            return self.raise_("MemoryError")
        return self.P(self.ob("int", "int", value=self.conv(v, ("int", n, signed))))

    def c_PyLong_FromLong(self, v):
        return self.from_number(v, 8, True)

    c_PyLong_FromLongLong = c_PyLong_FromSsize_t = c_PyLong_FromLong

    def c_PyLong_FromUnsignedLong(self, v):
        return self.from_number(v, 8, False)

    c_PyLong_FromUnsignedLongLong = c_PyLong_FromSize_t = c_PyLong_FromUnsignedLong

    def c_PyBool_FromLong(self, v):
        o = self.true if self.true_(v) else self.false
        self.incref(o)
        return self.P(o)

    def as_number(self, p, lo, hi):
        o = self.live(p, "a number")
        if o.kind != "int":
            self.raise_("TypeError")
            return -1
        if isinstance(o.value, int):
            if not lo <= o.value <= hi:
                self.raise_("OverflowError")
                return -1
            return o.value
        a, b = self.ranges[o.value[1]]
        if (a is None or a < lo) or (b is None or b > hi):
            if self.ch.pick(2, "the number is out of the range of the C type"):
                self.outside = (lo, hi)
                self.raise_("OverflowError")
                return -1
        self.ranges[o.value[1]] = (lo if a is None else max(a, lo), hi if b is None else min(b, hi))
        return o.value

    def c_PyLong_AsLong(self, p):
        return self.as_number(p, -(1 << 63), (1 << 63) - 1)

    c_PyLong_AsLongLong = c_PyLong_AsSsize_t = c_PyLong_AsLong

    def c_PyLong_AsUnsignedLong(self, p):
        return self.as_number(p, 0, (1 << 64) - 1)

    c_PyLong_AsUnsignedLongLong = c_PyLong_AsUnsignedLong

    # ------------------------------------------------------------ calls
    # what called objects do: (machine, object, arguments) -> pointer, 0 with an error
    behave = None
    call_kinds = ("Exception", "KeyboardInterrupt")

    def invoke(self, p, args):
        o = self.live(p, "a call")
        for a in args:
            if a.dead:
                self.bad("owned", "a released object is given to a call")
        if o is self.special.get("type:list") and len(args) == 1:
            return self.listed(self.P(args[0]), "list")
        if o is self.special.get("type:tuple") and len(args) == 1:
            return self.listed(self.P(args[0]), "tuple")
        self.calls.append((o, tuple(args)))
        if self.behave is not None:
            r = self.behave(self, o, tuple(args))
            if r is not None:
                return r
        if self.faults:
            k = self.ch.pick(1 + len(self.call_kinds), "%r fails" % o)
            if k:
                return self.raise_(self.call_kinds[k - 1], self.ob("exc", "exception") if self.ch.pick(2) == 0 else None)
        return self.P(self.ob("opaque", "result"))

    def c_PyObject_CallObject(self, f, a):
        if a == 0:
            return self.invoke(f, ())
        t = self.live(a, "the arguments")
        if t.kind != "tuple":
            return self.raise_("TypeError")
        if any(x is None for x in t.items):
            self.bad("null", "a call is given an argument that was not set")
        return self.invoke(f, t.items)

    def c_PyObject_Call(self, f, a, kw):
        return self.c_PyObject_CallObject(f, a)

    def c_PyObject_CallNoArgs(self, f):
        return self.invoke(f, ())

    def c_PyObject_CallOneArg(self, f, a):
        return self.invoke(f, (self.live(a, "an argument"),))

    def c_PyObject_CallFunctionObjArgs(self, f, *a):
        return self.invoke(f, self.until_null(a))

    def until_null(self, a):
        if 0 not in a:
            self.bad("null", "a list of arguments is not ended")
        return tuple(self.live(x, "an argument") for x in a[:a.index(0)])

    def c_PyObject_CallMethodObjArgs(self, o, name, *a):
        x, s = self.live(o, "a method"), self.live(name, "a method")
        m = self.method(x, s.value)
        if m is None:
            return self.raise_("AttributeError")
        return self.invoke(self.P(m), (x,) + self.until_null(a))

    def method(self, o, name):
        return o.dict.get(name)

    def c_PyObject_GetAttr(self, p, name):
        o, s = self.live(p, "an attribute"), self.live(name, "an attribute")
        if s.value not in o.dict or self.fails("getting an attribute"):
            return self.raise_("AttributeError")
        self.incref(o.dict[s.value])
        return self.P(o.dict[s.value])

    def c_PyObject_GetAttrString(self, p, s):
        o = self.live(p, "an attribute")
        if s[1] not in o.dict or self.fails("getting an attribute"):
            return self.raise_("AttributeError")
        self.incref(o.dict[s[1]])
        return self.P(o.dict[s[1]])

    def c_PyObject_SetAttr(self, p, name, v):
        o, s, x = self.live(p, "an attribute"), self.live(name, "an attribute"), self.live(v, "an attribute")
        if self.fails("setting an attribute"):
            self.raise_("Exception")
            return -1
        self.incref(x)
        old = o.dict.get(s.value)
        o.dict[s.value] = x
        if old is not None:
            self.decref(old)
        return 0

    def c_PyObject_IsTrue(self, p):
        o = self.live(p, "the truth")
        return int(o is self.true)

    def c_PyArg_ParseTuple(self, args, fmt, *out):
        t = self.live(args, "the arguments")
        f = fmt[1].split(":")[0].split(";")[0]
        need = len(re.findall(r"[A-Za-z]", f.split("|")[0]))
        kinds = f.replace("|", "")
        if not need <= len(t.items) <= len(kinds):
            self.raise_("TypeError")
            return 0
        for k, o, x in zip(kinds, out, t.items):
            m, at = self.place(o, "a write")
            if k == "O":
                self.store(m, at, ("ptr", "PyObject"), self.P(x))
            elif k in "iln":
                n = 4 if k == "i" else 8
                if x.kind != "int":
                    self.raise_("TypeError")
                    return 0
                v = self.as_number(self.P(x), -(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
                if self.err is not None:
                    return 0
                self.store(m, at, ("int", n, True), v)
            else:
                raise AnalysisBroken("the format of arguments %s" % fmt[1])
        return 1

    def c_PyArg_ParseTupleAndKeywords(self, args, kw, fmt, names, *out):
        return self.c_PyArg_ParseTuple(args, fmt, *out)

    # ------------------------------------------------------------ modules
    def c_PyType_Ready(self, t):
        self.live(t, "a type")
        if self.fails("a type"):
            self.raise_("MemoryError")
            return -1
        return 0

    def c_PyModule_Create(self, d):
        if self.fails("a new module"):
            return self.raise_("MemoryError")
        o = self.ob("module", "module")
        o.dict["$"] = self.ob("dict", "dict")
        return self.P(o)

    def c_PyModule_AddObject(self, m, name, v):
        o, x = self.live(m, "a module"), self.live(v, "keeping")
        if self.fails("adding to a module"):
            self.raise_("MemoryError")
            return -1
        o.dict[name[1]] = x
        return 0

    def c_PyModule_GetDict(self, m):
        return self.P(self.live(m, "a module").dict["$"])

    def c_PyImport_ImportModuleLevel(self, name, g, l, fr, level):
        for x in (g, l, fr):
            if x != 0:
                if any(y is None for y in self.live(x, "an import").items or ()):
                    self.bad("null", "an import is given a name that was not made")
        if self.fails("an import"):
            return self.raise_("ImportError")
        o = self.ob("module", "imported module")
        o.dict["message_types"] = self.imported(name[1])
        return self.P(o)

    def imported(self, name):
        k = self.ch.pick(2, "message_types is not a tuple") if self.faults else 0
        return self.ob("opaque", "message_types") if k else self.ob("tuple", "message_types", items=[])

    # ------------------------------------------------------------ the end of a path
    def finish(self, held, baseline):
        """everything held is released; what is left was leaked"""
        for o in held:
            self.decref(o)
        self.clear()
        for m, o, t in list(self.globals.values()) + [(m, 0, t) for m, t in self.statics.values()]:
            if isinstance(m, Mem) and t[0] == "ptr" and m.data:
                v = self.load(m, o, t)
                if isinstance(v, tuple) and v[0] == "ptr" and isinstance(v[1], Ob) and m.name[:6] != "PyExc_" and not v[1].dead:
                    self.decref(v[1])
                    m.data = {}
        left = [o for o in self.obs if not o.dead and (o.refs != baseline.get(o, 0) if o.kind != "type" else o.refs != self.fetched.get(o, o.refs))]
        if left:
            self.bad("leak", "%s" % ", ".join("%r is %s" % (o, "never released" if o.refs > self.fetched.get(o, baseline.get(o, 0)) else "released more often than owned") for o in left[:3]))
        lost = [m for m in self.mems if not m.dead]
        if lost:
            self.bad("leak", "memory is never given back (%s)" % lost[0].name)
