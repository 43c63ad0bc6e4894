"""Values of a byte stream whose content is known by position: headers are octets, the rest are runs of the stream.  A file
kept in memory (io.BytesIO) is its content and a position."""
from .typerule import *


def st_ts(st, ts):
    s = st._cp()
    s.ts = ts
    return s


class Streams(Types):
    def size(self, a):
        return a[2] - a[1] if a[0] == "run" else super().size(a)

    def wire(self, atoms):
        out = []
        for a in atoms:
            if a[0] == "run" and out and out[-1][0] == "run" and out[-1][2] == a[1]:
                out[-1] = ("run", out[-1][1], a[2])
            else:
                out.append(a)
        return super().wire(out)

    def cut(self, atoms, lo, hi):
        out, at = [], 0
        for a in atoms:
            n = self.size(a)
            i, j = max(lo - at, 0), min(hi - at, n)
            if i < j:
                if a[0] == "bytes":
                    out.append(("bytes", a[1][i:j]))
                elif a[0] == "run":
                    out.append(("run", a[1] + i, a[1] + j))
                elif (i, j) == (0, n):
                    out.append(a)
                else:
                    return None
            at += n
        return out

    def length(self, t):
        a = self.atoms(t)
        return None if a is None else sum(map(self.size, a))

    def read(self, fmt, t):
        r = super().read(fmt, t) if fmt[:1] == "!" else None
        if r is None:
            a = self.atoms(t)
            try:
                n = struct.calcsize(fmt)
            except struct.error:
                return None
            if a is None:
                return None
            if sum(map(self.size, a)) < n:
                return "short"
            x = self.cut(a, 0, n)
            if all(y[0] == "bytes" for y in x):
                return [C(v) for v in struct.unpack(fmt, b"".join(y[1] for y in x))]
            self.misreads += 1
            return [("misread", fmt, 0)]
        if r != "short" and any(x[0] == "misread" for x in r):
            self.misreads += 1
        return r

    # how often octets of a body were taken for a number
    misreads = 0

    # ------------------------------------------------------------ files
    def file(self, eng, st, me):
        return self.atoms(eng.hget(st, (me, "$data"))), eng.hget(st, (me, "$pos"))[2]

    def bytes_io(self, eng, node, me, name, args, st):
        V = lambda v, s=None: [Out("v", s or st, v)]
        data, pos = self.file(eng, st, me)
        n = sum(map(self.size, data))
        ints = []
        for a in args:
            x = self.num(a) if not (is_const(a) and a[2] is None) else None
            ints.append(None if x is None or x[1] else int(x[0]))
        if name == "tell":
            return V(C(pos))
        if name == "seek" and ints and None not in ints:
            how = ints[1] if len(ints) > 1 else 0
            if how == 0 and ints[0] < 0:
                return self.raises(eng, "ValueError", node, st)
            at = max(0, ints[0] + (0, pos, n)[how])
            return V(C(at), st.hset((me, "$pos"), C(at)))
        if name == "truncate" and (not args or ints[0] is not None):
            size = ints[0] if args else pos
            return V(C(size), st.hset((me, "$data"), self.wire(self.cut(data, 0, size))))
        if name in ("read", "read1") and (not args or ints[0] is not None or is_const(args[0])):
            to = n if not args or ints[0] is None or ints[0] < 0 else min(n, pos + ints[0])
            return V(self.wire(self.cut(data, pos, max(pos, to))), st.hset((me, "$pos"), C(max(pos, to))))
        if name == "write" and len(args) == 1:
            x = self.atoms(args[0])
            if x is not None:
                k = sum(map(self.size, x))
                head = self.cut(data, 0, pos) + ([("bytes", b"\0" * (pos - n))] if pos > n and k else [])
                new = head + x + self.cut(data, pos + k, n) if k else data
                return V(C(k), st.hset((me, "$data"), self.wire(new)).hset((me, "$pos"), C(pos + k)))
        if name in ("getvalue", "getbuffer") and not args:
            return V(self.wire(data))
        if name == "close":
            return V(NONE)
        return None

    def types_call(self, eng, node, f, args, kw, st, fr):
        recv, name = callee(f)
        full = f[1] if f[0] == "g" else None
        if full in ("io.BytesIO", "_io.BytesIO") and len(args) <= 1:
            d = self.atoms(args[0]) if args else []
            if d is not None:
                r = self.new(eng, "file", [], node, st, fr)
                return [Out("v", r.st.hset((r.val, "$data"), self.wire(d)).hset((r.val, "$pos"), C(0)), r.val)]
        if (name == "from_bytes" and recv == G("builtins.int") or full == "builtins.int.from_bytes") and args and (len(args) > 1 and is_const(args[1]) or "byteorder" in kw and is_const(kw["byteorder"])):
            a = self.atoms(args[0])
            if a is not None and not kw.get("signed"):
                if all(x[0] == "bytes" for x in a):
                    return [Out("v", st, C(int.from_bytes(b"".join(x[1] for x in a), (args[1] if len(args) > 1 else kw["byteorder"])[2])))]
                self.misreads += 1
                return [Out("v", st, ("misread", "from_bytes", 0))]
        if recv is not None and recv[:2] == ("obj", "file"):
            return self.bytes_io(eng, node, recv, name, args, st)
        return super().types_call(eng, node, f, args, kw, st, fr)
