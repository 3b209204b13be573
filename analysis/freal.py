"""Equality of floating point terms as real-valued formulas.

Two terms are equal here when they denote the same real function of the same atoms: sums, products and quotients are
brought into a polynomial normal form (so reassociated or distributed versions of one formula agree, up to rounding),
and square roots, maxima and conversions are atoms compared recursively under the facts.
"""
from .terms import *

FOPS = ("f+", "f-", "f*", "f/", "flt", "f~")


def isf(t):
    return t.op in FOPS or t.op.startswith("f.") or t.op in ("i2f", "f2i")


def fsame(a, b, facts, same):
    if a is b:
        return True
    n = Norm(facts, same)
    return n.eqp(n.poly(a), n.poly(b))


class Norm:
    def __init__(self, facts, same):
        self.facts, self.same = facts, same
        self.atoms = []

    def atom(self, kind, x):
        for i, (k, y) in enumerate(self.atoms):
            if k == kind and (x is y or self.eqa(kind, x, y)):
                return i
        self.atoms.append((kind, x))
        return len(self.atoms) - 1

    def eqa(self, kind, x, y):
        if kind in ("inv", "sqrt"):
            return self.eqp(x, y)
        if kind in ("f.max", "f.min"):
            return len(x) == len(y) and (all(self.eqp(p, q) for p, q in zip(x, y)) or len(x) == 2 and self.eqp(x[0], y[1]) and self.eqp(x[1], y[0]))
        if kind == "i2f":
            return self.same(x, y, self.facts)
        if kind.startswith("f."):
            return len(x) == len(y) and all(self.eqp(p, q) for p, q in zip(x, y))
        return x.op == y.op and self.same(x, y, self.facts)

    def eqp(self, p, q):
        ks = set(p) | set(q)
        return all(close(p.get(k, 0.0), q.get(k, 0.0)) for k in ks)

    def poly(self, t):
        o = t.op
        if o == "flt":
            return {(): t.a[0]} if t.a[0] else {}
        if o == "f+":
            return self.addp(self.poly(t.a[0]), self.poly(t.a[1]), 1.0)
        if o == "f-":
            return self.addp(self.poly(t.a[0]), self.poly(t.a[1]), -1.0)
        if o == "f~":
            return self.addp({}, self.poly(t.a[0]), -1.0)
        if o == "f.fract":
            return self.addp(self.poly(t.a[0]), self.poly(mk("f.trunc", t.a[0])), -1.0)
        if o == "f.floor" and nonneg(t.a[0]):
            return self.poly(mk("f.trunc", t.a[0]))
        if o == "f*":
            return self.mulp(self.poly(t.a[0]), self.poly(t.a[1]))
        if o == "f/":
            return self.mulp(self.poly(t.a[0]), self.inv(self.poly(t.a[1])))
        if o == "i2f":
            x = t.a[0]
            if x.op == "int":
                return {(): float(x.a[0])}
            return {((self.atom("i2f", x), 1),): 1.0}
        if o == "f.sqrt":
            return {((self.atom("sqrt", self.poly(t.a[0])), 1),): 1.0}
        if o in ("f.max", "f.min"):
            xs = tuple(self.poly(x) for x in t.a)
            if all(set(x) <= {()} for x in xs):
                v = (max if o == "f.max" else min)(x.get((), 0.0) for x in xs)
                return {(): v} if v else {}
            return {((self.atom(o, xs), 1),): 1.0}
        if o.startswith("f.") and all(isinstance(x, T) for x in t.a):
            return {((self.atom(o, tuple(self.poly(x) for x in t.a)), 1),): 1.0}
        return {((self.atom("t", t), 1),): 1.0}

    def addp(self, p, q, k):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0.0) + k * c
            if abs(v) < 1e-12 * max(abs(c), 1e-300):
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mulp(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                e = dict(m)
                for x, k in n:
                    e[x] = e.get(x, 0) + k
                key = tuple(sorted((x, k) for x, k in e.items() if k))
                r[key] = r.get(key, 0.0) + c * d
        return {m: c for m, c in r.items() if c}

    def inv(self, p):
        if not p:
            return {(): float("inf")}
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((x, -k) for x, k in m): 1.0 / c}
        # pull out the common factor
        com = None
        for m in p:
            d = dict(m)
            com = d if com is None else {x: min(k, d.get(x, 0)) for x, k in com.items() if min(k, d.get(x, 0)) > 0}
        lead = max(p.items(), key=lambda mc: (len(mc[0]), mc[0]))
        lc = lead[1]
        cf = {tuple(sorted((x, -k) for x, k in com.items())): 1.0 / lc}
        rest = self.mulp(p, cf)
        i = self.atom("inv", rest)
        return self.mulp({tuple(sorted((x, -k) for x, k in com.items())): 1.0 / lc}, {((i, 1),): 1.0})


def close(x, y):
    return x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y))
