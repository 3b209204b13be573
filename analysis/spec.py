"""Typed specification expressions over abstract states.

A rule states its conditions and expected values as small expressions ("m20(self.next_id - self.base_id)",
"self.window[t & self.window_mask].Some.alloc_size") which are resolved against the extracted types and evaluated to the
same hash-consed terms the interpreter computes, so a comparison is a comparison of meanings, not of text.
"""
import ast
import struct
from .terms import *
from .alias import plain
from .freal import isf, fsame
from .absint import Undecided, TRUE, FALSE, UNIT, NONE, some, agg, ref, St, Interp


class Missing(Exception):
    """an anchor the rules name (function, field, type) is not in the program"""


class Gone(Missing):
    """the program's types have no such field or variant"""


class N:
    __slots__ = ("v", "tid", "pl")

    def __init__(self, v, tid=None, pl=None):
        self.v, self.tid, self.pl = v, tid, pl


_parsed = {}


def parse(s):
    r = _parsed.get(s)
    if r is None:
        r = _parsed[s] = ast.parse(s.strip(), mode="eval").body
    return r


class Env:
    """names: dict of bound N; st: state whose memory is read"""

    def __init__(self, ip, st, names, old=None):
        self.ip, self.st, self.names, self.oldst = ip, st, names, old
        self.p = ip.p

    def at(self, st):
        return Env(self.ip, st, self.names, self.oldst)

    def bind(self, **kw):
        n = dict(self.names)
        for k, v in kw.items():
            n[k] = v if isinstance(v, N) else N(v)
        return Env(self.ip, self.st, n, self.oldst)

    def __call__(self, s):
        return self.term(s).v

    def term(self, s):
        if isinstance(s, N):
            return s
        if isinstance(s, T):
            return N(s)
        return self.ev(parse(s) if isinstance(s, str) else s)

    # ------------------------------------------------------------
    def settle(self, n):
        """follow references / Rc / Box until a plain value"""
        while True:
            if isinstance(n.tid, tuple) and len(n.tid) == 4:
                if n.tid[0] == "split" and n.tid[3] is None and n.tid[2]:      # the sequence itself: any of its parts has its length
                    return self.settle(self.virtual(n, min(n.tid[2])))
                return n
            if n.tid is None:
                if n.v.op == "ref":
                    r, p = n.v.a[0], n.v.a[1]
                    n = N(self.ip.read(self.st, r, p), None, (r, p))
                    continue
                return n
            tid = self.p.peel(n.tid)
            t = self.p.types[tid]
            if t["k"] in ("ref", "ptr"):
                root, path = self.ip.deref(n.v)
                n = N(self.ip.read(self.st, root, path), t["t"], (root, path))
                continue
            if t["k"] == "adt" and t["name"] in ("std::rc::Rc", "alloc::rc::Rc", "std::sync::Arc"):
                root = ("O", n.v)
                n = N(self.ip.read(self.st, root, ()), t["args"][0], (root, ()))
                continue
            if t["k"] == "adt" and t["name"] in ("std::cell::Ref", "std::cell::RefMut"):
                root, path = self.ip.deref(n.v)
                n = N(self.ip.read(self.st, root, path), t["args"][-1], (root, path))
                continue
            return N(n.v, tid, n.pl)

    def field(self, n, name):
        n = self.settle(n)
        if n.tid is None:
            if n.v.op == "agg" and name in n.v.a[2]:
                return N(n.v.a[3][n.v.a[2].index(name)])
            raise Missing("field %s of an untyped value %s" % (name, show(n.v)))
        t = self.p.types[n.tid]
        if name.startswith("_") and name[1:].isdigit():
            name = name[1:]
        if t["k"] == "tuple":
            if not name.isdigit() or int(name) >= len(t["ts"]):
                raise Missing("tuple field %s of %s" % (name, t["s"]))
            ft = t["ts"][int(name)]
            e = ("f", name, ft, n.tid)
            return N(self.ip.step_val(n.v, e, self.st.facts), ft, n.pl and (n.pl[0], tuple(n.pl[1]) + (e,)))
        if t["k"] != "adt":
            if self.dropped(name, t):
                return n
            raise Gone("field %s of %s" % (name, t.get("s")))
        vs = t["variants"]
        if t["adt"] == "Enum":
            for v in vs:
                if v["name"] == name:
                    e = ("v", name, n.tid)
                    x = N(self.ip.step_val(n.v, e, self.st.facts), (n.tid, name), n.pl and (n.pl[0], tuple(n.pl[1]) + (e,)))
                    if [f for f, _ in v["fields"]] == ["0"]:
                        return self.vfield(x, "0")
                    return x
            if self.dropped(name, t):
                return n
            raise Gone("variant %s of %s" % (name, t["s"]))
        for f, ft in vs[0]["fields"] if vs else ():
            if f == name:
                e = ("f", f, ft, n.tid)
                return N(self.ip.step_val(n.v, e, self.st.facts), ft, n.pl and (n.pl[0], tuple(n.pl[1]) + (e,)))
        how = self.p.layout.get((t["name"], None), {}).get(name)
        if how is not None:
            return self.moved(n, how)
        if self.dropped(name, t):
            return n
        raise Gone("field %s of %s" % (name, t["s"]))

    def dropped(self, name, t):
        """a field of a wrapper that is gone: the value itself"""
        return any(h == name and s == plain(t["s"]) for h, s in self.p.unwrap)

    def moved(self, n, how):
        kind, x = how
        if kind == "path":
            for f in x:
                n = self.vfield(n, f) if isinstance(n.tid, tuple) else self.field(n, f)
            return n
        ks = sorted(x)
        part = lambda f: self.vfield(n, f) if isinstance(n.tid, tuple) else self.field(n, f)
        return N(mk("agg", "moved", None, tuple(ks), tuple(part(x[k]).v for k in ks)), (kind, n, x, None))

    def virtual(self, n, name):
        """a field of a struct whose fields now live in the struct around it"""
        kind, base, m, i = n.tid
        if name not in m:
            raise Gone("field %s" % name)
        b = self.vfield(base, m[name]) if isinstance(base.tid, tuple) else self.field(base, m[name])
        return b if i is None else self.index(b, i)

    def vfield(self, n, name):
        if len(n.tid) == 4:
            return self.virtual(n, name)
        tid, vn = n.tid
        v = [x for x in self.p.types[tid]["variants"] if x["name"] == vn][0]
        if name.startswith("_") and name[1:].isdigit():
            name = name[1:]
        for f, ft in v["fields"]:
            if f == name:
                e = ("f", f, ft, tid, vn)
                return N(self.ip.step_val(n.v, e, self.st.facts), ft, n.pl and (n.pl[0], tuple(n.pl[1]) + (e,)))
        how = self.p.layout.get((self.p.types[tid]["name"], vn), {}).get(name)
        if how is not None:
            return self.moved(n, how)
        raise Gone("field %s of %s::%s" % (name, self.p.types[tid]["s"], vn))

    def elem_tid(self, tid):
        t = self.p.types[self.p.peel(tid)]
        if t["k"] in ("slice", "array"):
            return t["t"]
        if t["k"] == "adt" and t.get("args"):
            if t["name"].split("::")[-1] in ("HashMap", "BTreeMap"):
                return t["args"][1]
            return t["args"][0]
        return None

    def index(self, n, i):
        if isinstance(n.tid, tuple) and n.tid[0] == "split":
            return N(n.v, n.tid[:3] + (i,), n.pl)
        n = self.settle(n)
        et = self.elem_tid(n.tid) if n.tid is not None else None
        e = ("i", i.v, et)
        return N(self.ip.step_val(n.v, e, self.st.facts), et, n.pl and (n.pl[0], tuple(n.pl[1]) + (e,)))

    def place(self, s):
        n = self.term(s)
        if n.pl is None:
            raise Missing("no place for %s" % s)
        return n.pl

    # ------------------------------------------------------------
    def is_float(self, n):
        if n.tid is not None and not isinstance(n.tid, tuple):
            return self.p.types[self.p.peel(n.tid)]["k"] == "float"
        return n.v.op == "flt" or n.v.op in ("timef", "f+", "f-", "f*", "f/", "f.max", "f.min", "f.fract", "i2f", "timef")

    def num(self, n):
        return self.settle(n)

    def isvar(self, n, name):
        n = self.settle(n)
        t = self.p.types[n.tid]
        for v in t["variants"]:
            if v["name"] == name:
                return cmp_eq(self.ip.discr(n.v, n.tid), I(int(v["d"])))
        raise Missing("variant %s of %s" % (name, t["s"]))

    def ev(self, e):
        k = type(e)
        if k is ast.Constant:
            if isinstance(e.value, bool):
                return N(B(e.value))
            if isinstance(e.value, float):
                return N(mk("flt", e.value))
            return N(I(e.value))
        if k is ast.Name:
            if e.id in self.names:
                return self.names[e.id]
            if e.id == "None_":
                return N(NONE)
            raise Missing("name %s" % e.id)
        if k is ast.Attribute:
            b = self.ev(e.value)
            if isinstance(b.tid, tuple):
                return self.vfield(b, e.attr)
            return self.field(b, e.attr)
        if k is ast.Subscript:
            b = self.ev(e.value)
            b = b if isinstance(b.tid, tuple) and b.tid[0] == "split" and not isinstance(e.slice, ast.Slice) else self.settle(b)
            if isinstance(e.slice, ast.Slice):
                lo = self.num(self.ev(e.slice.lower)).v if e.slice.lower else I(0)
                hi = self.num(self.ev(e.slice.upper)).v if e.slice.upper else self.ip.length(b.v)
                return N(self.ip.mkslice(b.v, lo, hi, self.st.facts))
            return self.index(b, self.num(self.ev(e.slice)))
        if k is ast.BinOp:
            a, b = self.num(self.ev(e.left)), self.num(self.ev(e.right))
            o = type(e.op)
            if self.is_float(a) or self.is_float(b):
                n = {ast.Add: "Add", ast.Sub: "Sub", ast.Mult: "Mul", ast.Div: "Div"}[o]
                return N(self.ip.fop(n, self.tof(a), self.tof(b)))
            if o is ast.Add:
                return N(add(a.v, b.v))
            if o is ast.Sub:
                return N(sub(a.v, b.v))
            if o is ast.Mult:
                return N(mul(a.v, b.v))
            if o is ast.FloorDiv:
                return N(self.ip.udiv(a.v, b.v))
            if o is ast.Mod:
                return N(mk("urem", a.v, b.v))
            if o is ast.BitAnd:
                return N(self.ip.bitand(32, a.v, b.v))
            if o is ast.LShift and a.v is I(1):
                return N(mk("pow2", b.v))
            raise Missing("operator")
        if k is ast.UnaryOp:
            a = self.ev(e.operand)
            if isinstance(e.op, ast.Not):
                return N(bnot(a.v))
            if isinstance(e.op, ast.USub):
                return N(mk("flt", -a.v.a[0]) if a.v.op == "flt" else mulc(a.v, -1))
        if k is ast.BoolOp:
            xs = [self.ev(x).v for x in e.values]
            return N(band(*xs) if isinstance(e.op, ast.And) else bor(*xs))
        if k is ast.IfExp:
            c = self.ev(e.test).v
            if c is TRUE:
                return self.ev(e.body)
            if c is FALSE:
                return self.ev(e.orelse)
            if c.op in ("eq", "ne", "not!"):
                if self.st.facts.prove(c):
                    return self.ev(e.body)
                if self.st.facts.refute(c):
                    return self.ev(e.orelse)
            return N(ite(c, self.ev(e.body).v, self.ev(e.orelse).v))
        if k is ast.Compare:
            out, a = [], self.num(self.ev(e.left))
            for o, r in zip(e.ops, e.comparators):
                b = self.num(self.ev(r))
                out.append(self.compare(type(o), a, b))
                a = b
            return N(band(*out))
        if k is ast.Call:
            return self.callf(e)
        raise Missing("expression %s" % ast.dump(e)[:80])

    def tof(self, n):
        if n.v.op == "int":
            return mk("flt", float(n.v.a[0]))
        if self.is_float(n):
            return n.v
        if n.tid is not None and self.p.types[self.p.peel(n.tid)]["k"] in ("uint", "int"):
            return mk("i2f", n.v)
        return n.v

    def compare(self, o, a, b):
        if self.is_float(a) or self.is_float(b):
            n = {ast.Lt: "Lt", ast.LtE: "Le", ast.Gt: "Gt", ast.GtE: "Ge", ast.Eq: "Eq", ast.NotEq: "Ne"}[o]
            return self.ip.fop(n, self.tof(a), self.tof(b))
        isb = a.v.op in ("bool", "and!", "or!", "not!", "ge", "eq", "ne") or b.v.op in ("bool", "and!", "or!", "not!", "ge", "eq", "ne") \
            or any(n.tid is not None and not isinstance(n.tid, tuple) and self.p.types[self.p.peel(n.tid)]["k"] == "bool" for n in (a, b))
        if isb:
            r = bor(band(a.v, b.v), band(bnot(a.v), bnot(b.v)))
            return r if o is ast.Eq else bnot(r)
        if o is ast.Lt:
            return cmp_lt(a.v, b.v)
        if o is ast.LtE:
            return cmp_le(a.v, b.v)
        if o is ast.Gt:
            return cmp_lt(b.v, a.v)
        if o is ast.GtE:
            return cmp_le(b.v, a.v)
        if o is ast.Eq:
            return cmp_eq(a.v, b.v)
        if o is ast.NotEq:
            return bnot(cmp_eq(a.v, b.v))
        raise Missing("comparison")

    def callf(self, e):
        f = e.func.id
        if f == "old":
            o = self.at(self.oldst)
            return o.ev(e.args[0])
        if f in ("isv",):
            return N(self.isvar(self.ev(e.args[0]), e.args[1].value))
        xs = [self.ev(x) for x in e.args]
        if f == "eq":
            return N(TRUE if same(xs[0].v, xs[1].v, self.st.facts) else FALSE)
        if f == "eqv":
            return N(TRUE if same(self.settle(xs[0]).v, self.settle(xs[1]).v, self.st.facts) else FALSE)
        if f in ("is_some", "some"):
            return N(self.isvar(xs[0], "Some"))
        if f in ("is_none", "none"):
            return N(self.isvar(xs[0], "None"))
        if f in ("is_ok",):
            return N(self.isvar(xs[0], "Ok"))
        if f in ("is_err",):
            return N(self.isvar(xs[0], "Err"))
        if f == "Some":
            return N(some(self.settle(xs[0]).v))
        if f == "Opt":     # raw, without following references
            return N(some(xs[0].v))
        if f == "deref":
            return self.settle(xs[0])
        if f == "raw":
            return N(xs[0].v, None)
        if f == "len":
            n = self.settle(xs[0])
            t = self.p.types[self.p.peel(n.tid)] if isinstance(n.tid, int) else {"k": "?"}
            if t["k"] == "adt" and t["name"].startswith("uflow::"):
                raise Gone("%s is not a collection" % t["s"])
            return N(self.ip.length(n.v))
        if f[0] == "m" and f[1:].isdigit():
            return N(mod(int(f[1:]), self.num(xs[0]).v))
        if f[:3] == "tri" and f[3:].isdigit():
            # the distances of x, z from y modulo a power of two determine the distance of x from z
            b = int(f[3:])
            x, z, y = [self.num(q).v for q in xs]
            s, e, d = mod(b, sub(x, y)), mod(b, sub(z, y)), mod(b, sub(x, z))
            return N(bor(band(cmp_le(e, s), cmp_eq(d, sub(s, e))), band(cmp_lt(s, e), cmp_eq(d, add(sub(s, e), I(1 << b))))))
        if f in ("min", "max"):
            ns = [self.num(x) for x in xs]
            if any(self.is_float(n) for n in ns):
                return N(mk("f." + f, *sorted((self.tof(n) for n in ns), key=lambda t: t.id)))
            return N(minmax(f, *[n.v for n in ns]))
        if f == "bit":
            return N(self.ip.bit(self.num(xs[0]).v, self.num(xs[1]).v))
        if f == "has":
            return N(self.ip.mhas(self.settle(xs[0]).v, self.settle(xs[1]).v, self.st.facts))
        if f == "get":
            m = self.settle(xs[0])
            return N(self.ip.mget(m.v, self.settle(xs[1]).v, self.st.facts), self.elem_tid(m.tid))
        if f == "implies":
            return N(bor(bnot(xs[0].v), xs[1].v))
        if f == "iff":
            return N(bor(band(xs[0].v, xs[1].v), band(bnot(xs[0].v), bnot(xs[1].v))))
        if f == "bxor":
            return N(self.ip.bxor(xs[0].v, xs[1].v))
        if f == "tdiff":
            return N(mk("timeop", "sub", self.settle(xs[0]).v, self.settle(xs[1]).v))
        if f == "millis":
            return N(mk("app", "time.as_millis", (xs[0].v,), (0, (1 << 128) - 1)))
        if f == "secs":
            return N(mk("timef", "as_secs_f64", xs[0].v))
        if f == "isize":
            return N(f2i((-(1 << 63), (1 << 63) - 1), self.tof(self.num(xs[0]))))
        if f in ("u32", "u64"):
            return N(f2i((0, (1 << int(f[1:])) - 1), self.tof(self.num(xs[0]))))
        if f in ("sqrt", "round", "floor"):
            return N(mk("f." + f, self.tof(self.num(xs[0]))))
        if f == "i2f":
            return N(mk("i2f", self.num(xs[0]).v))
        if f == "fract":
            return N(mk("f.fract", self.num(xs[0]).v))
        if f in ("pushb", "pushf", "popf", "popb", "htop", "hpop", "hpush", "mput", "mdel", "cat", "rcof", "alive", "mempty", "hempty", "vempty", "popn"):
            vals = [self.settle(x).v if i == 0 else x.v for i, x in enumerate(xs)]
            if f == "htop":
                m = self.settle(xs[0])
                return N(mk("htop", m.v), self.elem_tid(m.tid))
            return N(mk(f, *vals))
        raise Missing("function %s" % f)


# ---------------------------------------------------------------- equality of values under facts
BOOL = ("bool", "bxor", "and!", "or!", "not!", "ge", "eq", "ne", "bit", "mhas", "keq", "peq", "f<", "f<=", "f==", "ovf", "alive")
NUM = ("int", "lin", "mod", "min", "max", "len", "mul", "udiv", "urem", "and", "or", "xor", "pow2", "b2i", "f2i")


def same(a, b, facts, depth=0):
    """are the two values equal in every state satisfying the facts?"""
    if a is b:
        return True
    if depth > 40:
        return False
    if facts.inconsistent():
        return True
    for x, y in ((a, b), (b, a)):
        # writing back what was there; setting (clearing) a bit that is set (clear)
        if x.op == "store" and x.a[0] is y and any(e is not None and same(x.a[2], e, facts, depth + 1) for e in (TT.tab.get(("elem", y, x.a[1], r)) for r in RNGS)):
            return True
        if x.op == "slice" and x.a[0] is y and x.a[1] is I(0) and facts.prove(cmp_eq(x.a[2], mk("len", y))):
            return True
        if x.op in ("setbit", "clrbit") and x.a[0] is y:
            k = mk("bit", y, x.a[1])
            if facts.prove(k if x.op == "setbit" else bnot(k)):
                return True
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            for cond, v in cases_of(x):
                f, v, w = assume(facts, cond, v, y)
                if not f.inconsistent() and not same(v, w, f, depth + 1):
                    return False
            return True
    if a.op == "agg" and b.op == "agg":
        return a.a[1] == b.a[1] and len(a.a[3]) == len(b.a[3]) and all(same(x, y, facts, depth + 1) for x, y in zip(a.a[3], b.a[3]))
    if isf(a) or isf(b):
        its = sorted((t for t in subterms(a) | subterms(b) if t.op == "ite"), key=lambda t: t.id) if depth < 8 else ()
        for t in its[:1]:
                if facts.prove(t.a[0]) or facts.refute(t.a[0]):
                    y = t.a[1] if facts.prove(t.a[0]) else t.a[2]
                    return same(subst(a, t, y), subst(b, t, y), facts, depth)
                f1, f2 = facts.plus(t.a[0]), facts.plus(bnot(t.a[0]))
                return all(f.inconsistent() or same(subst(a, t, y), subst(b, t, y), f, depth + 1) for f, y in ((f1, t.a[1]), (f2, t.a[2])))
        if a.op == "f2i" or b.op == "f2i":
            if a.op == b.op == "f2i" and a.a[0] == b.a[0] and fsame(a.a[1], b.a[1], facts, lambda x, y, f: same(x, y, f, depth + 1)):
                return True
        else:
            return fsame(a, b, facts, lambda x, y, f: x is y or not isf(x) and same(x, y, f, depth + 1))
    # a struct value against the fields of a symbolic one
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[2] and y.op in ("sym", "fld", "elem", "ini", "as") and not x.a[0].endswith(("Option", "Result")) and not x.a[0].startswith("closure") \
                and (x.a[1] in ("", x.a[0].split("::")[-1])):
            return all(_same_fld(v, y, n, facts, depth) for n, v in zip(x.a[2], x.a[3]))
    if a.op == "bxor" or b.op == "bxor":
        a, b = _bx(a, facts), _bx(b, facts)
        if a is b:
            return True
    if a.op in BOOL or b.op in BOOL:
        f1, f2 = facts.plus(a), facts.plus(bnot(a))
        if (f1.inconsistent() or f1.prove(b)) and (f2.inconsistent() or f2.prove(bnot(b))):
            return True
    if a.op in NUM or b.op in NUM:
        if facts.prove(cmp_eq(a, b)):
            return True
        if depth < 8:       # conversions of equal formulas are one atom
            fb = [x for x in subterms(b) if x.op == "f2i"]
            for x in [x for x in subterms(a) if x.op == "f2i"] if fb else ():
                for y in fb:
                    if x is not y and (x is not a or y is not b) and same(x, y, facts, depth + 1):
                        return same(a, subst(b, y, x), facts, depth + 1)
    elif a.op in ("sym", "fld", "elem") and b.op in ("sym", "fld", "elem"):
        if rng(a) != (None, None) and rng(b) != (None, None) and facts.prove(cmp_eq(a, b)):
            return True
    # Option-like: agg against a symbolic value known to have that variant
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[0].endswith("Option") and y.op not in ("agg", "ite"):
            d = mk("discr", y, 2)
            if x.a[1] == "None":
                return facts.prove(cmp_eq(d, I(0)))
            if facts.prove(bnot(cmp_eq(d, I(0)))):
                return same(x.a[3][0], _payload(y, x.a[3][0]), facts, depth + 1)
            return False
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("sym", "int", "flt", "obj"):
        if a.op in ("store",):
            ka, kb = _stores(a), _stores(b)
            if ka is not None and kb is not None:
                pass
        ok = True
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                if not same(x, y, facts, depth + 1):
                    ok = False
                    break
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for p, q in zip(x, y):
                    if isinstance(p, T) and isinstance(q, T):
                        if not same(p, q, facts, depth + 1):
                            ok = False
                            break
                    elif p != q:
                        ok = False
                        break
            elif x != y:
                ok = False
                break
        if ok:
            return True
        # operands of commutative operators are ordered by term identity, which equal but distinct terms need not share
        if a.op in ("f*", "f+", "f.max", "f.min", "keq", "peq", "and", "or", "xor", "f==") and len(a.a) == 2 and isinstance(a.a[0], T):
            if same(a.a[0], b.a[1], facts, depth + 1) and same(a.a[1], b.a[0], facts, depth + 1):
                return True
    if depth < 12:
        x = min([t for t in (splittable(a), splittable(b)) if t], key=lambda t: t.id, default=None)
        if x is not None:
            for cond, v in cases_of(x):
                f, a1, b1 = assume(facts, cond, subst(a, x, v), subst(b, x, v))
                if cond is FALSE or f.inconsistent():
                    continue
                if not same(a1, b1, f, depth + 1):
                    return False
            return True
    if depth < 6 and a.op in NUM and b.op in NUM:      # order the operands of the innermost minimum or maximum
        ms = sorted((t for t in subterms(a) | subterms(b) if t.op in ("min", "max")), key=lambda t: (len(subterms(t)), t.id))
        if ms:
            t = ms[0]
            x, y = t.a[0], t.a[1]
            for lo, hi in ((x, y), (y, x)):
                f = facts.plus(cmp_le(lo, hi))
                if f.inconsistent() or f.prove(FALSE):
                    continue
                v = lo if t.op == "min" else hi
                for z in t.a[2:]:
                    v = minmax(t.op, v, z)
                if not same(subst(a, t, v), subst(b, t, v), f, depth + 1):
                    return False
            return True
    return False


def _same_fld(v, y, n, facts, depth):
    if v.op == "fld" and v.a[0] is y and v.a[1] == n:
        return True
    for r in RNGS:
        t = TT.tab.get(("fld", y, n, r))
        if t is not None and same(v, t, facts, depth + 1):
            return True
    r0, r1 = rng(v)
    return same(v, mk("fld", y, n, (r0, r1) if r0 is not None else None), facts, depth + 1)


def _bx(t, facts):
    """exclusive or in disjunctive form, with operands known under the facts replaced"""
    if t.op in ("not!",):
        return bnot(_bx(t.a[0], facts))
    if t.op in ("and!", "or!"):
        return (band if t.op == "and!" else bor)(*[_bx(x, facts) for x in t.a])
    if t.op != "bxor":
        return TRUE if facts.prove(t) else FALSE if facts.refute(t) else t
    r = FALSE
    for x in t.a:
        x = _bx(x, facts)
        r = bor(band(r, bnot(x)), band(bnot(r), x))
    return r


def subst(t, x, y):
    r = object.__new__(Interp).inst(t, {x: y})
    return t if r is None else r


def assume(facts, cond, *ts):
    """facts and terms under a further condition; an equation for a universally quantified index (any_..) is substituted"""
    f = facts.plus(cond)
    for g in conj(cond):
        if g.op != "eq":
            continue
        for x, k in lin_parts(g.a[0])[1]:
            if x.op == "sym" and str(x.a[0]).startswith("any_") and k in (1, -1):
                v = sub(x, g.a[0] if k == 1 else mulc(g.a[0], -1))
                ts = [subst(t, x, v) for t in ts]
                break
            if x.op == "mod" and len(lin_parts(g.a[0])[1]) == 1 and lin_parts(g.a[0])[0] == 0:
                for y, k2 in lin_parts(x.a[1])[1]:
                    r = rng(y)
                    if y.op == "sym" and str(y.a[0]).startswith("any_") and k2 in (1, -1) and r[0] is not None and r[0] >= 0 and r[1] is not None and r[1] < 1 << x.a[0]:
                        v = mod(x.a[0], sub(y, x.a[1] if k2 == 1 else mulc(x.a[1], -1)))
                        ts = [subst(t, y, v) for t in ts]
                        break
    return (f, *ts)


def cases_of(x):
    """the two cases a splittable subterm falls into: (condition, value)"""
    if x.op == "ite":
        return (x.a[0], x.a[1]), (bnot(x.a[0]), x.a[2])
    c, i = x.a[0], x.a[1]
    ip = object.__new__(Interp)
    if c.op == "ite":
        return (c.a[0], ip.elem(c.a[1], i, None, x.a[2])), (bnot(c.a[0]), ip.elem(c.a[2], i, None, x.a[2]))
    g = cmp_eq(c.a[1], i)
    return (g, c.a[2]), (bnot(g), ip.elem(c.a[0], i, None, x.a[2]))


def split_prove(facts, g):
    x = splittable(g)
    for cond, v in cases_of(x):
        f, g = assume(facts, cond, g)
        f = Facts(f.items, f.set, f.link, facts.depth + 1)
        if cond is FALSE or f.inconsistent():
            continue
        if v.op in NUM and x.op in NUM:
            f = f.plus(cmp_eq(x, v))
        if not f.prove(subst(g, x, v)):
            return False
    return True


SPLIT.append(split_prove)


RNGS = ((0, 255), (0, 65535), (0, (1 << 32) - 1), (0, (1 << 64) - 1), None, (-(1 << 63), (1 << 63) - 1), (-(1 << 31), (1 << 31) - 1))


def _stores(t):
    out = []
    while t.op == "store":
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    return t, out


def _payload(y, like):
    """Some-payload of a symbolic Option (whatever range annotation the interpreter gave the field)"""
    s = mk("as", y, "Some")
    for r in RNGS:
        t = TT.tab.get(("fld", s, "0", r))
        if t is not None:
            return t
    r0, r1 = rng(like)
    return mk("fld", s, "0", (r0, r1) if r0 is not None else None)


from .terms import T as TT  # noqa: E402
