"""Hash-consed value terms, normalised integer arithmetic and the linear-inequality entailment used on guard facts.

Integers are mathematical; machine wrap-around is explicit as mod(bits, linear form).  A `fact` is one of
  ('ge', lin)   lin >= 0          ('eq', lin)   lin == 0          ('ne', lin)   lin != 0
  ('b', term, bool)               for every other boolean term (float comparisons, opaque predicates)
"""
from fractions import Fraction
from math import gcd


class T:
    __slots__ = ("op", "a", "id", "_s", "_r")
    tab = {}
    n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = T.tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t._s, t._r = op, a, None, None
        T.n += 1
        t.id = T.n
        T.tab[k] = t
    return t


_fresh = [0]


def fresh(hint, rng=None, tag=None):
    _fresh[0] += 1
    return mk("sym", "%s#%d" % (hint, _fresh[0]), rng, tag)


def reset_fresh():
    _fresh[0] = 0


def sym(name, rng=None, tag=None):
    return mk("sym", name, rng, tag)


def I(v):
    return mk("int", v)


TRUE, FALSE = mk("bool", True), mk("bool", False)
UNIT = mk("agg", "()", "()", (), ())


def B(v):
    return TRUE if v else FALSE


# ---------------------------------------------------------------- ranges
def rng(t):
    """(lo, hi) bounds of an integer term, None = unbounded"""
    if t._r is not None:
        return t._r
    r = (None, None)
    o = t.op
    if o == "int":
        r = (t.a[0], t.a[0])
    elif o == "sym":
        r = t.a[1] or (None, None)
    elif o == "mod":
        r = (0, (1 << t.a[0]) - 1)
    elif o == "fld" or o == "elem":
        r = t.a[2] or (None, None)
    elif o == "len":
        r = (0, 1 << 62)         # no address space holds more elements
    elif o == "discr":
        r = (0, (t.a[1] or 256) - 1)
    elif o == "b2i":
        r = (0, 1)
    elif o == "setbit":
        r = (0, (1 << 64) - 1)
    elif o == "clrbit":
        r = (0, rng(t.a[0])[1])
    elif o == "f2i":
        r = t.a[0]
    elif o == "lin":
        lo = hi = t.a[0]
        for x, c in t.a[1]:
            l, h = rng(x)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        r = (lo, hi)
    elif o == "min":
        ls = [rng(x) for x in t.a]
        lo = None if any(l is None for l, _ in ls) else min(l for l, _ in ls)
        hs = [h for _, h in ls if h is not None]
        r = (lo, min(hs) if hs else None)
    elif o == "max":
        ls = [rng(x) for x in t.a]
        hi = None if any(h is None for _, h in ls) else max(h for _, h in ls)
        los = [l for l, _ in ls if l is not None]
        r = (max(los) if los else None, hi)
    elif o in ("shr", "udiv"):
        l, h = rng(t.a[0])
        if l is not None and l >= 0:
            d = 1
            if t.a[1].op == "int":
                d = (1 << t.a[1].a[0]) if o == "shr" else max(1, t.a[1].a[0])
            r = (l // d, None if h is None else h // d)
            if t.a[1].op != "int":
                r = (0, h)
    elif o == "urem":
        l, h = rng(t.a[1])
        r = (0, None if h is None else max(0, h - 1))
    elif o in ("and", "or", "xor", "shl", "not"):
        r = (0, (1 << t.a[0]) - 1)
        if o == "and":
            hs = [rng(x)[1] for x in t.a[1:] if rng(x)[1] is not None]
            if hs:
                r = (0, min(hs + [r[1]]))
    elif o == "mul":
        l1, h1 = rng(t.a[0])
        l2, h2 = rng(t.a[1])
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
            r = (l1 * l2, None if h1 is None or h2 is None else h1 * h2)
    elif o == "ite":
        l1, h1 = rng(t.a[1])
        l2, h2 = rng(t.a[2])
        r = (None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
    elif o in ("app",):
        r = t.a[2] or (None, None)
    t._r = r
    return r


# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    if t.op == "int":
        return t.a[0], ()
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mk_lin(c, items):
    items = tuple(sorted(((x, k) for x, k in items if k != 0), key=lambda p: p[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, k=1):
    c1, i1 = lin_parts(a)
    c2, i2 = lin_parts(b)
    d = dict(i1)
    for x, c in i2:
        d[x] = d.get(x, 0) + k * c
    return mk_lin(c1 + k * c2, d.items())


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, i = lin_parts(a)
    return mk_lin(c * k, [(x, y * k) for x, y in i])


def mul(a, b):
    if a.op == "int":
        return mulc(b, a.a[0])
    if b.op == "int":
        return mulc(a, b.a[0])
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a, b)


def mod(bits, t):
    """t mod 2^bits, in [0, 2^bits)"""
    l, h = rng(t)
    M = 1 << bits
    if l is not None and h is not None and l >= 0 and h < M:
        return t
    c, items = lin_parts(t)
    d = {}
    chg = True
    while chg:
        chg = False
        d = {}
        for x, k in items:
            if x.op == "mod" and x.a[0] >= bits:
                c2, i2 = lin_parts(x.a[1])
                c += k * c2
                for y, k2 in i2:
                    d[y] = d.get(y, 0) + k * k2
                chg = True
            else:
                d[x] = d.get(x, 0) + k
        items = tuple(d.items())

    def s(v):
        v %= M
        return v - M if v >= M // 2 and v != M // 2 else v
    inner = mk_lin(s(c), [(x, s(k)) for x, k in items])
    l, h = rng(inner)
    if l is not None and h is not None and l >= 0 and h < M:
        return inner
    if inner.op == "int":
        return I(inner.a[0] % M)
    return mk("mod", bits, inner)


def wadd(bits, a, b):
    return mod(bits, add(a, b))


def wsub(bits, a, b):
    return mod(bits, sub(a, b))


def minmax(op, *xs):
    """n-ary min/max; common linear shifts are factored out when all arguments share a symbolic part"""
    fl = []
    for x in xs:
        fl.extend(x.a if x.op == op else [x])
    cs = [x.a[0] for x in fl if x.op == "int"]
    rest = sorted(set(x for x in fl if x.op != "int"), key=lambda t: t.id)
    if cs:
        c = min(cs) if op == "min" else max(cs)
        keep = True
        nr = []
        for x in rest:
            l, h = rng(x)
            if op == "min":
                if h is not None and h <= c:
                    keep = False
                if l is not None and l >= c and rest:
                    continue
            else:
                if l is not None and l >= c:
                    keep = False
                if h is not None and h <= c:
                    continue
            nr.append(x)
        if nr or not keep:
            rest = nr
        else:
            return I(c)
        if keep:
            rest = [I(c)] + rest
    # drop dominated arguments (difference constant)
    out = []
    for x in rest:
        dom = False
        for y in rest:
            if x is y:
                continue
            l, h = rng(sub(x, y))
            if op == "min" and l is not None and (l > 0 or (l == 0 and x.id > y.id)):
                dom = True
            if op == "max" and h is not None and (h < 0 or (h == 0 and x.id > y.id)):
                dom = True
        if not dom:
            out.append(x)
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=lambda t: t.id))


# ---------------------------------------------------------------- booleans
def ge0(l):
    lo, hi = rng(l)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    c, items = lin_parts(l)
    if len(items) == 1 and items[0][0].op == "b2i":
        b, k = items[0][0].a[0], items[0][1]
        return bor(band(b, B(c + k >= 0)), band(bnot(b), B(c >= 0)))
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    if g > 1:
        l = mk_lin(c // g, [(x, k // g) for x, k in items])
    return mk("ge", l)


def cmp_lt(a, b):
    return ge0(add(sub(b, a), I(-1)))


def cmp_le(a, b):
    return ge0(sub(b, a))


def _fits(t, bits):
    l, h = rng(t)
    return l is not None and h is not None and l >= 0 and h < (1 << bits)


def eq0(l):
    if l.op == "mod":
        c, items = lin_parts(l.a[1])
        if c == 0 and len(items) == 2:
            (x, k), (y, k2) = items
            if k == -k2 and abs(k) == 1 and _fits(x, l.a[0]) and _fits(y, l.a[0]):
                l = sub(x, y)
        elif c != 0 and len(items) == 1 and abs(items[0][1]) == 1 and _fits(items[0][0], l.a[0]):
            v = (-c * items[0][1]) % (1 << l.a[0])
            l = sub(items[0][0], I(v))
        if l.op == "mod":
            M = 1 << l.a[0]
            its = lin_parts(l.a[1])[1]
            if its and its[0][1] < 0:
                l2 = mod(l.a[0], mulc(l.a[1], -1))
                if l2.op == "mod":
                    l = l2
    lo, hi = rng(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if l.op == "int":
        return B(l.a[0] == 0)
    c, items = lin_parts(l)
    # and(w, x, bit) == 0  is handled as opaque term
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    if g > 1:
        if c % g:
            return FALSE
        c //= g
        items = tuple((x, k // g) for x, k in items)
    # a flag times a positive factor equals that factor
    if c == 0 and len(items) == 2 and items[0][1] == -items[1][1]:
        for (x, _), (y, _) in (items, items[::-1]):
            if x.op == "mul" and len(x.a) == 2 and y in x.a:
                b = x.a[1] if x.a[0] is y else x.a[0]
                l1, _h = rng(y)
                if b.op == "b2i" and (y.op == "pow2" or l1 is not None and l1 > 0):
                    return b.a[0]
    # x mod 2^n == y (y in range, modular reading): x - y = c with bool encodings
    if len(items) == 1 and items[0][0].op == "b2i":
        b, k = items[0][0].a[0], items[0][1]
        v = Fraction(-c, k)
        if v == 1:
            return b
        if v == 0:
            return bnot(b)
        return FALSE
    if len(items) == 1 and c == 0 and items[0][0].op == "mul":
        x, y = items[0][0].a
        if x.op == "pow2":
            return eq0(y)
        if y.op == "pow2":
            return eq0(x)
    if len(items) == 2 and c == 0 and items[0][1] == -items[1][1]:
        for x, y in ((items[0][0], items[1][0]), (items[1][0], items[0][0])):
            if y.op == "mod" and y.a[1] is x and rng(x)[0] is not None and rng(x)[0] >= 0:
                return ge0(sub(I((1 << y.a[0]) - 1), x))
    if items[0][1] < 0:
        c, items = -c, tuple((x, -k) for x, k in items)
    l = mk_lin(c, items)
    if lo == 0 and l.op != "int":
        pass
    return mk("eq", l)


def cmp_eq(a, b):
    if a is b:
        return TRUE
    # mod(b, x+c) == y  <=>  x == mod(b, y-c) when everything is in range
    return eq0(sub(a, b)) if not _modlike(a, b) else _modeq(a, b)


def _modlike(a, b):
    return (a.op == "mod") != (b.op == "mod") and a.op != "int" and b.op != "int"


def _modeq(a, b):
    if b.op == "mod":
        a, b = b, a
    bits = a.a[0]
    if _fits(b, bits):
        return eq0(mod(bits, sub(a, b)))
    return eq0(sub(a, b))


def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not!":
        return t.a[0]
    if t.op == "ge":
        return ge0(add(mulc(t.a[0], -1), I(-1)))
    if t.op == "ne":
        return mk("eq", t.a[0])
    if t.op == "eq":
        return mk("ne", t.a[0])
    if t.op == "and!":
        return bor(*[bnot(x) for x in t.a])
    if t.op == "or!":
        return band(*[bnot(x) for x in t.a])
    return mk("not!", t)


def band(*xs):
    fl = []
    for x in xs:
        fl.extend(x.a if x.op == "and!" else [x])
    if FALSE in fl:
        return FALSE
    fl = sorted(set(x for x in fl if x is not TRUE), key=lambda t: t.id)
    if not fl:
        return TRUE
    return fl[0] if len(fl) == 1 else mk("and!", *fl)


def bor(*xs):
    fl = []
    for x in xs:
        fl.extend(x.a if x.op == "or!" else [x])
    if TRUE in fl:
        return TRUE
    fl = sorted(set(x for x in fl if x is not FALSE), key=lambda t: t.id)
    if not fl:
        return FALSE
    return fl[0] if len(fl) == 1 else mk("or!", *fl)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- facts and entailment
def conj(t):
    """atoms of a conjunction"""
    return list(t.a) if t.op == "and!" else [t]


class Facts:
    """An append-only set of boolean terms known to hold."""
    __slots__ = ("items", "set", "cache", "link", "depth")

    def __init__(self, items=(), s=None, link=None, depth=0):
        self.link = link
        self.depth = depth
        self.items = tuple(items)
        self.set = s if s is not None else frozenset(items)
        self.cache = {}

    def plus(self, *ts):
        new = []
        for t in ts:
            for x in conj(t):
                if x is not TRUE and x not in self.set and x not in new:
                    new.append(x)
        if not new:
            return self
        return Facts(self.items + tuple(new), self.set | frozenset(new), (self, tuple(new)), self.depth)

    def prove(self, g):
        """does every state satisfying the facts satisfy g?"""
        if g is TRUE or g in self.set:
            return True
        if g is FALSE and self.link is not None:
            return self.inconsistent()
        r = self.cache.get(g)
        if r is None:
            r = _prove(self.items, g)
            if not r and self.depth < 6 and SPLIT and splittable(g):
                self.cache[g] = False
                r = SPLIT[0](self, g)
            self.cache[g] = r
        return r

    def refute(self, g):
        return self.prove(bnot(g))

    def inconsistent(self):
        # the facts of a path are consistent as collected; ask whether what was added last contradicts the rest
        f = self
        for _ in range(3):
            if f.link is None:
                return any(x is FALSE or bnot(x) in f.set for x in f.items)
            g, new = f.link
            if g.prove(bnot(band(*new))):
                return True
            f = g
        return False


def _dnf(t, cap=24):
    """list of conjunctions (lists of atoms)"""
    if t.op == "and!":
        out = [[]]
        for x in t.a:
            d = _dnf(x, cap)
            out = [p + q for p in out for q in d]
            if len(out) > cap:
                return [[]]
        return out
    if t.op == "or!":
        out = []
        for x in t.a:
            out += _dnf(x, cap)
        return out if len(out) <= cap else [[]]
    return [[t]]


SPLIT = []      # case split hook (set by spec)
_spl = {}


def splittable(t):
    """a subterm whose value depends on a decidable case: a conditional inside a non-linear term, or an element of an
    updated collection at another index"""
    r = _spl.get(t)
    if r is None:
        r = 0
        for x in subterms(t):
            if x.op == "ite" or x.op == "elem" and x.a[0].op in ("store", "ite"):
                if r == 0 or x.id < r.id:
                    r = x
        _spl[t] = r
    return r


def _prove(items, g):
    if g is FALSE:
        neg = TRUE
    else:
        neg = bnot(g)
    s = set(items)
    for x in _dnf(neg):
        if not _unsat(items, x, s, 0):
            return False
    return True


def _atoms_terms(a, acc):
    if a.op in ("ge", "eq", "ne"):
        for x, _ in lin_parts(a.a[0])[1]:
            acc.add(x)
    elif a.op in ("or!", "and!"):
        for x in a.a:
            _atoms_terms(x, acc)
    elif a.op == "not!":
        _atoms_terms(a.a[0], acc)
    elif a.op == "bit":
        acc.add(a)
        acc.update(x for x, _ in lin_parts(a.a[0])[1])
    else:
        acc.add(a)


_at_cache = {}


def atom_terms(a):
    r = _at_cache.get(a)
    if r is None:
        acc = set()
        _atoms_terms(a, acc)
        # terms nested in min/max/ite are linked as well
        ext = set(acc)
        work = list(acc)
        while work:
            x = work.pop()
            new = set()
            if x.op in ("min", "max"):
                for y in x.a:
                    new |= set(z for z, _ in lin_parts(y)[1])
            elif x.op in ("udiv", "shr", "urem"):
                new |= set(z for z, _ in lin_parts(x.a[0])[1])
            elif x.op == "mod":
                y = mod(x.a[0], mulc(x.a[1], -1))
                if y.op == "mod":
                    new.add(y)
                l, h = rng(x.a[1])
                if l is not None and l > -(1 << x.a[0]):
                    new |= set(z for z, _ in lin_parts(x.a[1])[1])
            elif x.op in ("ite", "b2i"):
                _atoms_terms(x.a[0], new)
                for y in x.a[1:]:
                    if y.op not in ("agg", "ref"):
                        new |= set(z for z, _ in lin_parts(y)[1])
            new -= ext
            ext |= new
            work += new
        r = frozenset(ext)
        _at_cache[a] = r
    return r


def _unsat(items, extra, s, depth):
    # direct contradictions
    for x in extra:
        if x is FALSE or bnot(x) in s:
            return True
    goal = [x for x in extra if x is not TRUE]
    rel = set()
    for x in goal:
        rel |= atom_terms(x)
        for y in atom_terms(x):
            if y.op == "mod" and y.a[1].op == "lin":
                rel.update(z for z, _ in lin_parts(y.a[1])[1])
    cons = list(goal)
    if not goal:
        cons = list(items)
        for x in items:
            if bnot(x) in s:
                return True
            rel |= atom_terms(x)
    else:
        # facts connected to the goal (3 hops)
        pool = list(items)
        for hop in range(3):
            new, rest = [], []
            for f in pool:
                (new if atom_terms(f) & rel else rest).append(f)
            if not new:
                break
            for f in new:
                rel |= atom_terms(f)
            cons += new
            pool = rest
            if len(cons) > 60:
                break
    return _unsat_cons(cons, depth)


def _reduce(f, s):
    """f under the atoms s known to hold"""
    if f in s:
        return TRUE
    if bnot(f) in s:
        return FALSE
    if f.op == "or!":
        return bor(*[_reduce(x, s) for x in f.a])
    if f.op == "and!":
        return band(*[_reduce(x, s) for x in f.a])
    return f


def _units(cons):
    """unit propagation through the disjunctions"""
    if not any(f.op in ("or!", "and!") for f in cons):
        return cons
    for _ in range(8):
        s = set()
        todo = []
        for f in cons:
            if f.op == "and!":
                s.update(f.a)
            elif f.op == "or!":
                todo.append(f)
            else:
                s.add(f)
        more = [f for f in s if f.op in ("or!", "and!")]
        todo += [f for f in more if f.op == "or!"]
        s.difference_update(more)
        out, ch = [], bool(more)
        for f in todo:
            y = _reduce(f, s)
            if y is FALSE:
                return [FALSE]
            if y is not f:
                ch = True
            if y is not TRUE:
                out.append(y)
        for f in more:
            if f.op == "and!":
                out.append(f)
        cons = sorted(s, key=lambda t: t.id) + out
        if not ch and not any(f.op == "and!" for f in cons):
            break
    return cons


def _single(l):
    """(x, k, c) for a linear form k*x + c"""
    c, it = lin_parts(l)
    return (it[0][0], it[0][1], c) if len(it) == 1 else None


def _box(cons):
    """interval of every term bounded on its own, its ends moved past excluded values; None: empty"""
    box, out = {}, {}
    for f in cons:
        if f.op in ("ge", "eq", "ne"):
            z = _single(f.a[0])
            if z is None:
                continue
            x, k, c = z
            if f.op == "ne":
                if c % k == 0:
                    out.setdefault(x, []).append(-c // k)
                continue
            lo, hi = box.get(x) or rng(x)
            if f.op == "eq":
                if c % k:
                    return None
                l = h = -c // k
            else:
                l, h = (-(c // k), None) if k > 0 else (None, c // -k)
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
            if lo is not None and hi is not None and lo > hi:
                return None
            box[x] = (lo, hi)
    for x, vs in out.items():
        lo, hi = box.get(x) or rng(x)
        while lo is not None and lo in vs and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in vs and (lo is None or lo <= hi):
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return None
        box[x] = (lo, hi)
    return box


def _boxed(f, box):
    """an atom over one bounded term, decided if its bounds decide it"""
    if f.op == "or!":
        return bor(*[_boxed(x, box) for x in f.a])
    if f.op == "and!":
        return band(*[_boxed(x, box) for x in f.a])
    if f.op not in ("ge", "eq", "ne"):
        return f
    z = _single(f.a[0])
    if z is None or z[0] not in box:
        return f
    x, k, c = z
    lo, hi = box[x]
    a, b = (lo, hi) if k > 0 else (hi, lo)
    l, h = (None if a is None else k * a + c), (None if b is None else k * b + c)
    if f.op == "ge":
        return TRUE if l is not None and l >= 0 else FALSE if h is not None and h < 0 else f
    if l is not None and l > 0 or h is not None and h < 0:
        return FALSE if f.op == "eq" else TRUE
    if l == 0 and h == 0:
        return TRUE if f.op == "eq" else FALSE
    return f


def _unsat_cons(cons, depth):
    cons = _units(cons)
    for _ in range(4):
        if not any(f.op == "ne" or f.op == "or!" for f in cons):
            break
        box = _box([f for f in cons if f.op in ("ge", "eq", "ne")])
        if box is None:
            return True
        if not any(f.op == "or!" for f in cons):
            break
        new = [_boxed(f, box) if f.op in ("or!", "and!") else f for f in cons]
        if all(x is y for x, y in zip(new, cons)):
            break
        if any(f is FALSE for f in new):
            return True
        cons = _units([f for f in new if f is not TRUE])
    ineq, nes, ors = [], [], []
    eqs = set()
    bools = {}
    for f in cons:
        if f is FALSE:
            return True
        if f.op == "ge":
            ineq.append(f.a[0])
        elif f.op == "eq":
            ineq.append(f.a[0])
            ineq.append(mulc(f.a[0], -1))
            eqs.add(f.a[0])
        elif f.op == "ne":
            nes.append(f.a[0])
        elif f.op == "or!":
            ors.append(f)
        elif f.op == "and!":
            return _unsat_cons([c for c in cons if c is not f] + list(f.a), depth)
        else:
            t, v = (f.a[0], False) if f.op == "not!" else (f, True)
            if bools.get(t, v) != v:
                return True
            bools[t] = v
            if t.op == "bit" and v and rng(t.a[0])[0] is not None:
                ineq.append(add(t.a[0], I(-(1 << t.a[1].a[0]) if t.a[1].op == "int" else -1)))
    if nes:
        for x, (lo, hi) in (_box(cons) or {}).items():
            if lo is not None and lo != rng(x)[0]:
                ineq.append(add(x, I(-lo)))
            if hi is not None and hi != rng(x)[1]:
                ineq.append(sub(I(hi), x))
    # axioms for the terms involved
    terms = set()
    for l in ineq + nes:
        for x, _ in lin_parts(l)[1]:
            terms.add(x)
    seen = {}
    work = sorted(terms, key=lambda t: -t.id)
    splits = []
    wide = []
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen[x] = True
        lo, hi = rng(x)
        if lo is not None:
            ineq.append(add(x, I(-lo)))
        if hi is not None:
            ineq.append(sub(I(hi), x))
        if x.op in ("min", "max"):
            for y in x.a:
                d = sub(y, x) if x.op == "min" else sub(x, y)
                ineq.append(d)
                for z, _ in lin_parts(d)[1]:
                    work.append(z)
            splits.append(("mm", x))
        elif x.op == "ite" and x.a[1].op not in ("agg", "ref", "bool"):
            splits.append(("ite", x))
        elif x.op == "b2i":
            splits.append(("b2i", x))
        elif x.op == "mod":
            # mod(b, L) relates to L: if L is known to lie in range it equals L (tried below as a split-free axiom)
            # mod(b, L) vanishes exactly where L does when |L| < 2^b
            l, h = rng(x.a[1])
            M = 1 << x.a[0]
            if l is not None and h is not None and l > -M and h < M:
                for t in (x.a[1], mulc(x.a[1], -1)):
                    if t in nes:
                        ineq.append(add(x, I(-1)))
                        break
                    if t in eqs:
                        ineq.append(mulc(x, -1))
                        break
            # mod(b, L) <= L for L >= 0, and mod(b, L) >= L for L < 2^b
            if l is not None and (l >= 0 and (h is None or h >= 2 * M) or -M < l < 0 and (h is None or h >= M)):
                if depth == 0 or depth <= 3 and l < 0:
                    wide.append(x)
            elif l is not None and h is not None and (l >= 0 or h < M) and l > -2 * M and h < 2 * M:
                if l >= 0:
                    ineq.append(sub(x.a[1], x))
                if h < M:
                    ineq.append(sub(x, x.a[1]))
                for z, _ in lin_parts(x.a[1])[1]:
                    work.append(z)
        elif x.op == "udiv" and x.a[1].op == "int" and x.a[1].a[0] > 0:
            k = x.a[1].a[0]
            d = sub(x.a[0], mulc(x, k))
            ineq.append(d)
            ineq.append(sub(I(k - 1), d))
            for z, _ in lin_parts(x.a[0])[1]:
                work.append(z)
        elif x.op == "shr" and x.a[1].op == "int":
            k = 1 << x.a[1].a[0]
            d = sub(x.a[0], mulc(x, k))
            ineq.append(d)
            ineq.append(sub(I(k - 1), d))
            for z, _ in lin_parts(x.a[0])[1]:
                work.append(z)
    # congruences: a term equal to a remainder may be replaced by what it is the remainder of
    mods = [x for x in seen if x.op == "mod"]
    if mods:
        iset = None
        for l in list(ineq):
            k0, its = lin_parts(l)
            if len(its) != 2 or its[0][1] != -its[1][1] or abs(its[0][1]) != 1:
                continue
            for (k, _), (m, _) in (its, its[::-1]):
                if m.op != "mod" or k.op == "mod":
                    continue
                if iset is None:
                    iset = set(ineq)
                if mulc(l, -1) not in iset:
                    break
                c0 = k0 if dict(its)[m] > 0 else -k0        # k = m + c0
                for x in mods:
                    if x.a[0] <= m.a[0]:
                        j = dict(lin_parts(x.a[1])[1]).get(k)
                        if j:
                            y = mod(x.a[0], add(x.a[1], mulc(sub(add(m.a[1], I(c0)), k), j)))
                            if y is not x:
                                d = sub(x, y)
                                ineq += [d, mulc(d, -1)]
        for x in mods:
            if x in eqs:
                for k, j in lin_parts(x.a[1])[1]:
                    if abs(j) == 1 and k.op != "mod" and (rng(k)[0] or 0) >= 0 and rng(k)[0] is not None:
                        ineq.append(sub(k, mod(x.a[0], mulc(sub(x.a[1], mulc(k, j)), -j))))
    # quotient and remainder
    for x in mods:
        for y in seen:
            if y.op == "udiv" and y.a[0] is x.a[1] and y.a[1].op == "int" and y.a[1].a[0] == 1 << x.a[0]:
                d = add(add(x, mulc(y, 1 << x.a[0])), mulc(x.a[1], -1))
                ineq += [d, mulc(d, -1)]
    # mod(b, L) and mod(b, -L) vanish together, and add up to 2^b otherwise
    for x in list(seen):
        if x.op != "mod":
            continue
        y = mod(x.a[0], mulc(x.a[1], -1))
        if y is x or y not in seen or y.op != "mod":
            continue
        v = None
        if x in eqs:
            v = 0
        elif x in nes:
            v = 1
        else:
            for l in ineq:
                k, it = lin_parts(l)
                if len(it) == 1 and it[0][0] is x:
                    if it[0][1] > 0 and k < 0:
                        v = 1
                    elif it[0][1] < 0 and k == 0:
                        v = 0
        if v == 0:
            ineq += [mulc(x, -1), mulc(y, -1)]
        elif v == 1:
            d = add(add(x, y), I(-(1 << x.a[0])))
            ineq += [d, mulc(d, -1)]
    if fm_unsat(ineq):
        return True
    if wide:
        n = len(ineq)
        for x in wide[:6]:
            if rng(x.a[1])[0] >= 0 or fm_unsat(ineq[:n] + [add(mulc(x.a[1], -1), I(-1))]):
                ineq.append(sub(x.a[1], x))
            else:
                continue
            if fm_unsat(ineq[:n] + [add(x.a[1], I(-(1 << x.a[0])))]):
                ineq.append(sub(x, x.a[1]))
        if fm_unsat(ineq):
            return True
    if depth < 5:
        # disjunctions, disequalities, min/max selections: bounded case analysis
        for i, n in enumerate(nes):
            base = [c for c in cons if not (c.op == "ne" and c.a[0] is n)]
            relv = set(x for x, _ in lin_parts(n)[1])
            if not any(relv & set(x for x, _ in lin_parts(l)[1]) for l in ineq):
                continue
            if _unsat_cons(base + [mk("ge", add(n, I(-1)))], depth + 1) and \
               _unsat_cons(base + [mk("ge", add(mulc(n, -1), I(-1)))], depth + 1):
                return True
            if depth >= 2:
                break
        for f in ors[:4]:
            base = [c for c in cons if c is not f]
            if all(_unsat_cons(base + conj(x), depth + 1) for x in f.a):
                return True
        # outermost selections first (inner ones were built earlier), after the oldest one
        for k, x in splits[:2] + sorted(splits[2:], key=lambda y: -y[1].id)[:2]:
            if k == "mm":
                ok = True
                for y in x.a:
                    e = sub(x, y)
                    c1 = mk("ge", e) if e.op != "int" else ge0(e)
                    e2 = mulc(e, -1)
                    c2 = mk("ge", e2) if e2.op != "int" else ge0(e2)
                    if c1 in cons and c2 in cons:
                        ok = False
                        break
                    if not _unsat_cons(cons + [c1, c2], depth + 1):
                        ok = False
                        break
                if ok:
                    return True
            else:
                c, a, b = x.a if k == "ite" else (x.a[0], I(1), I(0))
                e1 = mk("eq", sub(x, a))
                e2 = mk("eq", sub(x, b))
                if c in cons or bnot(c) in cons:
                    extra = [e1] if c in cons else [e2]
                    if extra[0] not in cons and extra[0] is not TRUE and _unsat_cons(cons + extra, depth + 1):
                        return True
                    continue
                if all(_unsat_cons(cons + [y for y in d] + [e1], depth + 1) for d in _dnf(c)) and \
                   all(_unsat_cons(cons + [y for y in d] + [e2], depth + 1) for d in _dnf(bnot(c))):
                    return True
    return False


def fm_unsat(ls):
    """Fourier-Motzkin on integer-tightened constraints l >= 0, bounded"""
    cs = {}
    for l in ls:
        c, items = lin_parts(l)
        if not items:
            if c < 0:
                return True
            continue
        g = 0
        for _, k in items:
            g = gcd(g, abs(k))
        cs[c // g, tuple((x, k // g) for x, k in items)] = True
    # keep the strongest of each direction
    best = {}
    for c, it in cs:
        if it not in best or best[it] > c:
            best[it] = c
    # quick: pairwise opposite
    for it, c in best.items():
        neg = tuple((x, -k) for x, k in it)
        if neg in best and best[neg] + c < 0:
            return True
    rounds = 0
    while best and rounds < 40:
        rounds += 1
        occ = {}
        for it in best:
            for x, k in it:
                p, n = occ.get(x, (0, 0))
                occ[x] = (p + 1, n) if k > 0 else (p, n + 1)
        # pick the variable with the cheapest elimination
        x = min(occ, key=lambda v: (occ[v][0] * occ[v][1] - occ[v][0] - occ[v][1], v.id))
        pos, neg, rest = [], [], {}
        for it, c in best.items():
            k = dict(it).get(x, 0)
            if k > 0:
                pos.append((it, c, k))
            elif k < 0:
                neg.append((it, c, -k))
            else:
                rest[it] = c
        if len(pos) * len(neg) > 400:
            return False
        for it1, c1, k1 in pos:
            for it2, c2, k2 in neg:
                d = {}
                for y, k in it1:
                    d[y] = d.get(y, 0) + k * k2
                for y, k in it2:
                    d[y] = d.get(y, 0) + k * k1
                c = c1 * k2 + c2 * k1
                its = tuple(sorted(((y, k) for y, k in d.items() if k), key=lambda p: p[0].id))
                if not its:
                    if c < 0:
                        return True
                    continue
                g = 0
                for _, k in its:
                    g = gcd(g, abs(k))
                its = tuple((y, k // g) for y, k in its)
                c = c // g
                if its not in rest or rest[its] > c:
                    rest[its] = c
        if len(rest) > 300:
            return False
        best = rest
    return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if t._s is not None:
        return t._s
    o = t.op
    if o == "int":
        s = str(t.a[0])
    elif o == "bool":
        s = str(t.a[0]).lower()
    elif o == "sym":
        s = t.a[0]
    elif o == "ini":
        s = show(t.a[0])
    elif o == "fld":
        s = "%s.%s" % (show(t.a[0]), t.a[1])
    elif o == "elem":
        s = "%s[%s]" % (show(t.a[0]), t.a[1] if not isinstance(t.a[1], T) else show(t.a[1]))
    elif o == "as":
        s = "%s:%s" % (show(t.a[0]), t.a[1])
    elif o == "lin":
        ps = []
        for x, k in t.a[1]:
            ps.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else "%d*" % abs(k)) + show(x))
        if t.a[0]:
            ps.append("%+d" % t.a[0])
        s = "(" + " ".join(ps) + ")"
    elif o == "mod":
        s = "m%d%s" % (t.a[0], show(t.a[1]) if t.a[1].op == "lin" else "(%s)" % show(t.a[1]))
    elif o == "ge":
        s = "[%s >= 0]" % show(t.a[0])
    elif o == "eq":
        s = "[%s == 0]" % show(t.a[0])
    elif o == "ne":
        s = "[%s != 0]" % show(t.a[0])
    elif o == "not!":
        s = "!" + show(t.a[0])
    elif o == "ref":
        s = "&" + showplace(t.a[0], t.a[1])
    elif o == "agg":
        s = "%s::%s{%s}" % (t.a[0].split("::")[-1], t.a[1], ", ".join("%s:%s" % (n, show(v)) for n, v in zip(t.a[2], t.a[3])))
    else:
        s = "%s(%s)" % (o, ", ".join(show(x) if isinstance(x, T) else str(x) for x in t.a))
    if len(s) > 600:
        s = s[:600] + "..."
    t._s = s
    return s


def showplace(root, path):
    if root[0] == "O":
        s = show(root[1])
    else:
        s = "%s_%s" % (root[1], root[2])
    for e in path:
        if e[0] == "f":
            s += "." + e[1]
        elif e[0] == "v":
            s += ":" + e[1]
        elif e[0] == "*":
            s += ""
        elif e[0] == "i":
            s += "[%s]" % show(e[1])
        elif e[0] == "r":
            s += "[%s..%s]" % (show(e[1]), show(e[2]) if e[2] is not None else "")
        else:
            s += "<%s>" % (e[0])
    return s


def subterms(t, acc=None):
    if acc is None:
        acc = set()
    if t in acc:
        return acc
    acc.add(t)
    for x in t.a:
        if isinstance(x, T):
            subterms(x, acc)
        elif isinstance(x, tuple):
            _sub_tuple(x, acc)
    return acc


def _sub_tuple(x, acc):
    for y in x:
        if isinstance(y, T):
            subterms(y, acc)
        elif isinstance(y, tuple):
            _sub_tuple(y, acc)


def nonneg(x):
    """a float that is never negative: sums, products, quotients and roots of counts, durations and fractional parts of such"""
    if x.op == "flt":
        return x.a[0] >= 0
    if x.op == "i2f":
        return rng(x.a[0])[0] is not None and rng(x.a[0])[0] >= 0
    if x.op in ("f+", "f*", "f/"):
        return all(nonneg(y) for y in x.a)
    if x.op in ("f.fract", "f.sqrt", "f.floor", "f.trunc"):
        return nonneg(x.a[0])
    if x.op == "f.max":
        return any(nonneg(y) for y in x.a)
    return x.op == "timef" or x.op == "fld" and x.a[1] == "flush_alloc_fract"


def f2i(r, x):
    """float to integer, saturating: limits at or beyond the integer's own range change nothing, nor does rounding before or after them"""
    lo, hi = r

    def peel(y):
        while y.op in ("f.min", "f.max") and len(y.a) == 2:
            for c, o in ((y.a[0], y.a[1]), (y.a[1], y.a[0])):
                if c.op == "flt" and (c.a[0] >= hi if y.op == "f.min" else c.a[0] <= lo):
                    y = o
                    break
            else:
                return y
        return y
    x = peel(x)
    if x.op == "f.trunc" or x.op == "f.floor" and nonneg(x.a[0]):
        return f2i(r, x.a[0])
    if x.op in ("f.round", "f.floor", "f.ceil", "f.trunc"):
        y = peel(x.a[0])
        if y is not x.a[0]:
            x = mk(x.op, y)
    return mk("f2i", r, x)
