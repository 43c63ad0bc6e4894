"""Shared pieces for rules written on top of the abstract interpreter."""
from .absint import *      # noqa
from .absint import Rule, Out, C, G, NONE, show, walk_term, contains, subst, is_const
from .program import AnalysisBroken


def callee(f):
    """-> (receiver term or None, name) of a called term"""
    if f[0] == "attr":
        return f[1], f[2]
    if f[0] == "bm":
        return f[1], f[2].rsplit(".", 1)[1]
    if f[0] == "supm":
        return f[1], f[2]
    if f[0] == "g":
        return None, f[1].rsplit(".", 1)[1]
    if f[0] == "fn":
        return None, "<fn>"
    return None, None


def call_parts(t):
    """(callee term, args, kws) of a call term, or None"""
    if t[0] == "call":
        return t[1], t[2], t[3]
    if t[0] == "ret":
        return t[2], t[3], t[4]
    return None


def arg(args, kws, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    for k, v in kws:
        if k == name:
            return v
    return default


def inst_fields(st, ob):
    """fields given to a constructor call kept as an opaque instance"""
    a = st.heap.get((ob, "$args"))
    return (a[1], a[2]) if a else None


def pairs(t, st, eng):
    """constant-keyed pairs in a tuple/list/dict term -> dict"""
    r = {}
    if t[0] == "obj":
        c = eng.hget(st, (t, "$items"))
        if c is not None and c[0] == "D":
            return {k[2]: v for k, v in c[1] if is_const(k)}
    items = eng.exact_items(t, st)
    for i in items or ():
        x = eng.exact_items(i, st)
        if x and len(x) == 2 and is_const(x[0]):
            r[x[0][2]] = x[1]
    return r


def pieces(t):
    """A string/bytes term -> flat list of ('lit', text) and ('hole', kind, term)"""
    if is_const(t) and t[1] in ("str", "bytes"):
        return [("lit", t[2])]
    if t[0] == "cat":
        r = []
        for p in t[1]:
            r += pieces(p)
        return r
    if t[0] in ("s", "r"):
        return [("hole", t[0], t[1])]
    if t[0] == "fmt":
        return [("hole", t[1], t[2])]
    return [("hole", "", t)]


class EventRule(Rule):
    """ts is a tuple of events; subclasses say what is an event."""
    initial = ()
    max_depth = 6

    def event(self, eng, node, f, args, kws, st, fr):
        """-> None, or (event, [outcome,...]) with outcome: ('v', term) or ('raise', class)"""
        return None

    def call(self, eng, node, f, args, kws, st, fr):
        e = self.event(eng, node, f, args, kws, st, fr)
        if e is None:
            return None
        ev, outcomes = e
        outs = []
        for o in outcomes:
            if o[0] == "v":
                s = st if ev is None else st.with_ts(st.ts + (ev,))
                outs.append(Out("v", s, o[1]))
            elif o[0] == "raise":
                s = st if ev is None else st.with_ts(st.ts + (ev + ("!",),))
                outs.append(Out("raise", s, ("exc", o[1], ("excval", o[1], (fr.module.rel, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))), node))
        return outs
