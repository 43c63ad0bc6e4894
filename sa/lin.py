"""Integer (and exactly scaled) quantities as linear forms over named atoms, with ranges; floor division is canonical.

A form is (constant, ((atom, coefficient), ...)) with Fractions.  An atom is a term of the interpreter, or ("div", form, k) for the
floor of form / k.  x mod k is written x - k * (x div k), so that the days and seconds of one quantity put together again
give back the quantity."""
from fractions import Fraction
import math

INF = math.inf


def const(c):
    return (Fraction(c), ())


def atom(t):
    return (Fraction(0), ((t, Fraction(1)),))


def add(a, b, k=1):
    d = dict(a[1])
    for t, c in b[1]:
        d[t] = d.get(t, 0) + c * k
    return (a[0] + b[0] * k, tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda x: repr(x[0]))))


def scale(a, k):
    k = Fraction(k)
    if not k:
        return const(0)
    return (a[0] * k, tuple((t, c * k) for t, c in a[1]))


def is_int(a):
    """every value of the form is an integer"""
    return all(x.denominator == 1 for x in [a[0]] + [c for _, c in a[1]])


class Lin:
    def __init__(self, ranges=None):
        self.ranges = ranges or {}

    def rng(self, a):
        lo = hi = a[0]
        for t, c in a[1]:
            l, h = self.arng(t)
            l, h = (l * c, h * c) if c > 0 else (h * c, l * c)
            lo, hi = lo + l, hi + h
        # a remainder hidden in the form: m * (x - k * (x div k))
        for t, c in a[1]:
            if t[0] == "div" and (c / t[2]).denominator == 1 and c < 0 or t[0] == "div" and c > 0 and (c / t[2]).denominator == 1:
                m = -c / t[2]
                rest = add(add(a, atom(t), -c), t[1], -m)
                if len(rest[1]) < len(a[1]):
                    l, h = self.rng(rest)
                    ml, mh = (0, m * (t[2] - 1)) if m > 0 else (m * (t[2] - 1), 0)
                    lo, hi = max(lo, l + ml), min(hi, h + mh)
        return lo, hi

    def arng(self, t):
        if t in self.ranges:
            return self.ranges[t]
        if t[0] == "div":
            l, h = self.rng(t[1])
            return (l if l in (INF, -INF) else math.floor(l / t[2])), (h if h in (INF, -INF) else math.floor(h / t[2]))
        return -INF, INF

    def div(self, a, k):
        """floor(a / k) for a whole k > 0"""
        k = Fraction(k)
        if not is_int(a):
            d = math.lcm(*[x.denominator for x in [a[0]] + [c for _, c in a[1]]])
            a, k = scale(a, d), k * d
        if k < 0:
            a, k = scale(a, -1), -k
        if k.denominator != 1:
            a, k = scale(a, k.denominator), Fraction(k.numerator)
        whole, rest = const(0), const(0)
        for t, c in ((None, a[0]),) + a[1]:
            q = c / k if (c / k).denominator == 1 else 0
            x = const(1) if t is None else atom(t)
            whole = add(whole, x, q)
            rest = add(rest, x, c - q * k)
        l, h = self.rng(rest)
        if l not in (INF, -INF) and h not in (INF, -INF) and math.floor(l / k) == math.floor(h / k):
            return add(whole, const(math.floor(l / k)))
        # floor(floor(x / a) / b) = floor(x / (a b))
        if not rest[0] and len(rest[1]) == 1 and rest[1][0][1] == 1 and rest[1][0][0][0] == "div":
            t = rest[1][0][0]
            return add(whole, self.div(t[1], k * t[2]))
        # the common factor of the rest and the divisor
        g = math.gcd(*[int(x) for x in [k, rest[0]] + [c for _, c in rest[1]]])
        if g > 1:
            return add(whole, self.div(scale(rest, Fraction(1, g)), k / g))
        return add(whole, atom(("div", rest, int(k))))

    def mod(self, a, k):
        return add(a, self.div(a, k), -k)


def text(a, name=lambda t: str(t[1] if len(t) > 1 else t)):
    out = []
    for t, c in a[1]:
        s = "(%s div %s)" % (text(t[1], name), t[2]) if t[0] == "div" else name(t)
        out.append(s if c == 1 else "-" + s if c == -1 else "%s*%s" % (c, s))
    if a[0] or not out:
        out.append(str(a[0]))
    return " + ".join(out)
