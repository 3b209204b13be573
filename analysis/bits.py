"""Bit provenance: every bit of an integer term as an affine form over the bits of the values it was computed from.

A bit is a pair (frozenset of sources, constant): its value is the XOR of the sources and the constant.  A source is
(term, k) = bit k of an integer atom, or (term, 'b') = a boolean atom.  None is an unknown bit.
Substitution of the contents of collections happens on the way, so the bits a reader extracts from a buffer can be traced
through the bytes a writer put there."""
from math import gcd

from .terms import *
from .absint import TRUE, FALSE

ZERO, ONE = (frozenset(), 0), (frozenset(), 1)
INTOPS = ("int", "lin", "mod", "udiv", "and", "or", "xor", "not", "setbit", "clrbit", "b2i", "ite", "shl", "shr", "urem", "min", "max", "mul")
BOOLOPS = ("bool", "eq", "ne", "ge", "not!", "and!", "or!", "bit", "bxor")


def bx(a, b):
    return None if a is None or b is None else (a[0] ^ b[0], a[1] ^ b[1])


class Bits:
    def __init__(self, ip, facts, m=None, prefix=None):
        self.ip, self.f, self.m, self.W = ip, facts, m or {}, 64
        self.prefix = prefix or {}
        self.cs, self.cb = {}, {}

    # ------------------------------------------------------------ substitution
    def sub(self, t):
        if t in self.m:
            return self.m[t]
        r = self.cs.get(t)
        if r is None:
            r = self.cs[t] = self._sub(t)
        return r

    def _sub(self, t):
        o = t.op
        if o in ("int", "bool", "sym", "flt"):
            return t
        if o in INTOPS:
            return self.int(t)
        if o in BOOLOPS:
            return self.bool(t)
        if o == "elem":
            r = self.ip.elem(self.sub(t.a[0]), self.sub(t.a[1]), self.f, t.a[2])
            if r.op == "elem":
                p = self.prefix.get(r.a[0])
                return p[r.a[1].a[0]] if p and r.a[1].op == "int" and 0 <= r.a[1].a[0] < len(p) else r
            return r
        if o == "len":
            return self.ip.length(self.sub(t.a[0]))
        if o == "fld":
            return self.ip.step_val2(self.sub(t.a[0]), t)
        if o == "slice":
            return self.ip.mkslice(self.sub(t.a[0]), self.sub(t.a[1]), self.sub(t.a[2]), self.f)
        if o == "ref":
            root, path = t.a
            if root[0] == "O":
                root = ("O", self.sub(root[1]))
            return mk("ref", root, tuple(tuple(self.sub(y) if isinstance(y, T) else y for y in e) for e in path))
        if o == "agg":
            return mk("agg", t.a[0], t.a[1], t.a[2], tuple(self.sub(x) for x in t.a[3]))
        return mk(o, *[self.sub(x) if isinstance(x, T) else tuple(self.sub(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in t.a])

    def int(self, t):
        b = self.bits(t)
        c = self.canon(b)
        if c is not None:
            return c
        if t.op == "lin":
            return self.lin(t)
        if t.op == "mod":
            return mod(t.a[0], self.sub(t.a[1]))
        if t.op == "udiv":
            return self.ip.udiv(self.sub(t.a[0]), self.sub(t.a[1]))
        if t.op in ("min", "max"):
            return minmax(t.op, *[self.sub(x) for x in t.a])
        if t.op == "b2i":
            return self.ip.b2i(self.sub(t.a[0]))
        if t.op == "ite":
            return ite(*[self.sub(x) for x in t.a])
        if t.op == "mul":
            return mul(self.sub(t.a[0]), self.sub(t.a[1]))
        return mk(t.op, *[self.sub(x) if isinstance(x, T) else x for x in t.a])

    def bool(self, t):
        b = self.boolbit(t)
        if b is not None:
            if not b[0]:
                return TRUE if b[1] else FALSE
            if len(b[0]) == 1:
                (a, k), = b[0]
                x = a if k == "b" else bnot(eq0(a)) if self.width(a) == 1 else mk("bit", a, I(k))
                return bnot(x) if b[1] else x
        o = t.op
        if o in ("eq", "ne", "ge"):
            z = self.lin(t.a[0]) if t.a[0].op == "lin" else self.sub(t.a[0])
            return {"ge": ge0, "eq": eq0, "ne": lambda q: bnot(eq0(q))}[o](z)
        if o == "not!":
            return bnot(self.sub(t.a[0]))
        if o == "and!":
            return band(*[self.sub(x) for x in t.a])
        if o == "or!":
            return bor(*[self.sub(x) for x in t.a])
        return mk(o, *[self.sub(x) if isinstance(x, T) else x for x in t.a])

    # ------------------------------------------------------------ bits
    def bits(self, t):
        r = self.cb.get(t)
        if r is None:
            r = self.cb[t] = (self._bits(t) + [ZERO] * self.W)[:self.W]
        return r

    def const(self, v):
        return [ONE if (v >> i) & 1 else ZERO for i in range(self.W)]

    def _bits(self, t):
        o, W = t.op, self.W
        if t in self.m:
            t = self.m[t]
            o = t.op
        if o == "int":
            return self.const(t.a[0]) if t.a[0] >= 0 else [None] * W
        if o == "b2i":
            return [self.boolbit(t.a[0])]
        if o == "mod":
            return self.bits(t.a[1])[:t.a[0]]
        if o in ("udiv", "shr") and t.a[1].op == "int" and t.a[1].a[0] > 0:
            s = t.a[1].a[0].bit_length() - 1
            if o == "shr" or t.a[1].a[0] == 1 << s:
                return self.bits(t.a[0])[t.a[1].a[0] if o == "shr" else s:]
        if o == "lin":
            return self._sum(t)
        if o in ("or", "and", "xor"):
            n = t.a[0]
            out = self.bits(t.a[1])[:n]
            for x in t.a[2:]:
                y = self.bits(x)
                out = [self._op(o, p, q) for p, q in zip(out, y)]
            return out
        if o == "not":
            return [bx(p, ONE) for p in self.bits(t.a[1])[:t.a[0]]]
        if o in ("setbit", "clrbit") and t.a[1].op == "int":
            out = list(self.bits(t.a[0]))
            out[t.a[1].a[0]] = ONE if o == "setbit" else ZERO
            return out
        if o == "ite":
            c = self.boolbit(t.a[0])
            out = []
            for p, q in zip(self.bits(t.a[1]), self.bits(t.a[2])):
                if p == q:
                    out.append(p)
                elif p is not None and q is not None and c is not None and not bx(p, q)[0]:
                    out.append(bx(q, c))           # p = q xor 1
                else:
                    out.append(None)
            return out
        if o == "elem":
            tb = self.sub(t.a[0])
            if tb.op == "arr" and t.a[1].op != "int" and all(x.op == "int" for x in tb.a):
                return self.lookup([x.a[0] for x in tb.a], self.bits(t.a[1]))
        if o in ("elem", "len", "fld"):
            s = self.sub(t)
            if s is not t:
                return self.bits(s)
        return self.atom(t)

    def _op(self, o, p, q):
        if o == "xor":
            return bx(p, q)
        z, u = (ZERO, ONE) if o == "or" else (ONE, ZERO)
        if p == z:
            return q
        if q == z:
            return p
        if p == u or q == u:
            return u
        return p if p == q else None

    def _sum(self, t):
        W = self.W
        c, items = lin_parts(t)
        if c < 0 or any(k < 0 for _, k in items):
            # the same value modulo 2^W is not needed: a difference is an atom of its own
            return self.atom(self.lin(t))
        out = self._overlay(c, items)
        if None in out:
            return self.atom(self.lin(t))
        return out

    def _overlay(self, c, items):
        W = self.W
        out = self.const(c)
        for x, k in items:
            s = 0
            bs = self.bits(x)
            while k >> s:
                if (k >> s) & 1:
                    for i in range(W):
                        if i - s >= 0 and bs[i - s] != ZERO:
                            if out[i] == ZERO:
                                out[i] = bs[i - s]
                            else:
                                # a carry: unknown from here up
                                for j in range(i, W):
                                    out[j] = None
                                break
                s += 1
        return out

    def lin(self, t):
        """canonical positive part minus canonical negative part plus the constant"""
        acc = I(t.a[0])
        for sgn in (1, -1):
            part = [(x, k * sgn) for x, k in t.a[1] if k * sgn > 0]
            if not part:
                continue
            g = gcd(*[k for _, k in part])
            c = self.canon(self._overlay(0, [(x, k // g) for x, k in part])) if len(part) > 1 or part[0][0].op in INTOPS else None
            if c is not None and g > 1:
                c = add(I(0), c, g)
            if c is None:
                c = I(0)
                for x, k in part:
                    c = add(c, self.sub(x), k)
            acc = add(acc, c, sgn)
        return acc

    def atom(self, t):
        if t.op == "int":
            return self.const(t.a[0]) if t.a[0] >= 0 else [None] * self.W
        w = self.width(t)
        return [((frozenset([(t, i)])), 0) for i in range(w)] if w is not None else [None] * self.W

    def width(self, t):
        l, h = rng(t)
        if l is None or l < 0:
            if not self.f.prove(ge0(t)):
                return None
        w = h.bit_length() if h is not None and h < 1 << self.W else self.W
        for k in (0, 1, 4, 5, 6, 7, 8, 16, 20, 32):
            if k < w and self.f.prove(cmp_lt(t, I(1 << k))):
                return k
        return w

    def boolbit(self, t):
        o = t.op
        if t in self.m:
            t = self.m[t]
            o = t.op
        if o == "bool":
            return ONE if t.a[0] else ZERO
        if o == "not!":
            return bx(self.boolbit(t.a[0]), ONE)
        if o == "bxor":
            r = ZERO
            for x in t.a:
                r = bx(r, self.boolbit(x))
            return r
        if o == "bit" and t.a[1].op == "int":
            return self.bits(t.a[0])[t.a[1].a[0]]
        if o in ("eq", "ne"):
            r = None
            x = t.a[0]
            if x.op == "lin" and x.a[0] == -1 and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
                b = self.bits(x.a[1][0][0])
                if all(y == ZERO for y in b[1:]):
                    r = bx(b[0], ONE)          # x - 1 is zero exactly if the only bit of x is set
            else:
                b = self.bits(x)
                nz = [y for y in b if y != ZERO]
                if any(y == ONE for y in nz):
                    r = ONE
                elif not nz:
                    r = ZERO
                elif len(nz) == 1:
                    r = nz[0]
            if r is not None:
                return r if o == "ne" else bx(r, ONE)
        if o == "ge" and t.a[0].op == "lin" and len(t.a[0].a[1]) == 1 and t.a[0].a[1][0][1] in (1, -1):
            x, k = t.a[0].a[1][0]
            lim = -t.a[0].a[0] if k == 1 else t.a[0].a[0] + 1
            r = self.atleast(self.bits(x), lim) if lim > 0 else None
            if r is not None:
                return r if k == 1 else bx(r, ONE)
        if o in ("eq", "ne", "ge"):
            z = self.lin(t.a[0]) if t.a[0].op == "lin" else self.sub(t.a[0])
            s = {"ge": ge0, "eq": eq0, "ne": lambda q: bnot(eq0(q))}[o](z)
            if s.op == "bool":
                return ONE if s.a[0] else ZERO
            if self.f.prove(s):
                return ONE
            if self.f.prove(bnot(s)):
                return ZERO
            return (frozenset([(s, "b")]), 0) if s.op != "ne" else (frozenset([(bnot(s), "b")]), 1)
        if o in ("and!", "or!"):
            xs = [self.boolbit(x) for x in t.a]
            z, u = (ZERO, ONE) if o == "or!" else (ONE, ZERO)
            if u in xs:
                return u
            xs = [x for x in xs if x != z]
            if not xs:
                return z
            return xs[0] if len(set(xs)) == 1 else None
        s = self.sub(t) if o in ("fld", "elem") else t
        if s.op == "bool":
            return ONE if s.a[0] else ZERO
        if s.op in BOOLOPS and s is not t:
            return self.boolbit(s)
        if self.f.prove(s):
            return ONE
        if self.f.prove(bnot(s)):
            return ZERO
        return (frozenset([(s, "b")]), 0)

    def atleast(self, b, lim):
        """is the number with bits b at least lim?  Decided by its constant bits, or by the one other bit that matters"""
        low = (lim & -lim).bit_length() - 1
        hi = sum(1 << i for i, x in enumerate(b) if x != ZERO)
        lo = sum(1 << i for i, x in enumerate(b) if x == ONE)
        if lo >= lim:
            return ONE
        if hi < lim:
            return ZERO
        var = [i for i in range(low, len(b)) if b[i] != ZERO and b[i] != ONE]
        if len(var) == 1 and b[var[0]] is not None:
            base = sum(1 << i for i in range(low, len(b)) if b[i] == ONE)
            if base < lim <= base + (1 << var[0]):
                return b[var[0]]
        return None

    def lookup(self, tb, idx):
        """table[index] for a table that is an affine map of the bits of its index"""
        n = len(tb).bit_length() - 1
        if len(tb) != 1 << n or any(b != ZERO for b in idx[n:]):
            return [None] * self.W
        for x in range(len(tb)):
            v = tb[0]
            for i in range(n):
                if x >> i & 1:
                    v ^= tb[1 << i] ^ tb[0]
            if v != tb[x]:
                return [None] * self.W
        out = []
        for j in range(self.W):
            r = (frozenset(), tb[0] >> j & 1)
            for i in range(n):
                if (tb[1 << i] ^ tb[0]) >> j & 1:
                    r = bx(r, idx[i])
            out.append(r)
        return out

    # ------------------------------------------------------------ canonical terms
    def canon(self, b):
        """the integer with these bits as a sum of scaled bit fields; None if a bit is not a plain copy of a source bit"""
        if any(x is None or len(x[0]) > 1 or x[0] and x[1] for x in b):
            return None
        acc = I(sum(1 << i for i, x in enumerate(b) if x == ONE))
        i = 0
        while i < len(b):
            if not b[i][0]:
                i += 1
                continue
            (a, k), = b[i][0]
            if k == "b":
                acc = add(acc, self.ip.b2i(a), 1 << i)
                i += 1
                continue
            n = 1
            while i + n < len(b) and b[i + n] == (frozenset([(a, k + n)]), 0):
                n += 1
            w = self.width(a)
            full = w is not None and k + n >= w
            if k == 0 and full:
                f = a
            elif n == 1 and not full:
                f = self.ip.b2i(mk("bit", a, I(k)))
            else:
                f = a if k == 0 else mk("udiv", a, I(1 << k))
                if not full:
                    f = mod(n, f)
            acc = add(acc, f, 1 << i)
            i += n
        return acc
