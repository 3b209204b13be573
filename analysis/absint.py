"""Trace-partitioned abstract interpretation of the extracted MIR.

Abstract state = a store of value-numbered terms (access-path memory model) + a conjunction of guard facts (linear
inequalities over those terms, plus uninterpreted predicates).  Branches partition the trace; loops are summarised by
widening every location the loop body can change to a fresh loop symbol, keeping the inductive bounds that survive one
abstract iteration.  No concrete values are ever chosen and nothing is executed; entailment is decided by the linear
domain in terms.py.
"""
import re
import struct
from .terms import *
from . import terms as TT
T_fresh = TT._fresh
from .prog import Prog, Fn, strip_generics, canon_fn


class Undecided(Exception):
    pass


class Ev:
    __slots__ = ("kind", "name", "args", "ret", "loc", "facts", "mem", "x", "fn")

    def __init__(self, kind, name, args, ret, loc, facts, mem, x=None, fn=None):
        self.kind, self.name, self.args, self.ret, self.loc, self.facts, self.mem, self.x, self.fn = kind, name, args, ret, loc, facts, mem, x, fn

    def __repr__(self):
        if self.kind == "write":
            return "write %s := %s @%s" % (showplace(*self.args), show(self.ret), self.loc)
        return "%s %s(%s)%s @%s" % (self.kind, self.name, ", ".join(show(a) if isinstance(a, T) else str(a) for a in self.args or ()),
                                    " -> " + show(self.ret) if isinstance(self.ret, T) else "", self.loc)


class St:
    __slots__ = ("mem", "facts", "trace")

    def __init__(self, mem, facts, trace):
        self.mem, self.facts, self.trace = mem, facts, trace

    def copy(self):
        return St(dict(self.mem), self.facts, self.trace)

    def assume(self, *ts):
        s = St(dict(self.mem), self.facts.plus(*ts), self.trace)
        return s

    def events(self):
        out, t = [], self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Path:
    __slots__ = ("kind", "st", "ret", "loop", "msg", "loc", "header", "x")

    def __init__(self, kind, st, ret=None, loop=None, msg=None, loc=None, header=None, x=None):
        self.kind, self.st, self.ret, self.loop, self.msg, self.loc, self.header, self.x = kind, st, ret, loop, msg, loc, header, x

    @property
    def facts(self):
        return self.st.facts

    def events(self):
        return self.st.events()


class Loop:
    __slots__ = ("id", "fn", "loc", "entry", "syms", "backs", "pre", "mods", "hst")

    def __init__(self, id, fn, loc):
        self.id, self.fn, self.loc, self.backs, self.syms, self.entry = id, fn, loc, [], {}, {}


class Frame:
    __slots__ = ("fn", "fid", "depth", "line", "parent")

    def __init__(self, fn, fid, depth, parent):
        self.fn, self.fid, self.depth, self.parent, self.line = fn, fid, depth, parent, fn.line


def agg(name, variant, fields, vals):
    return mk("agg", name, variant, tuple(fields), tuple(vals))


def some(v):
    return agg("std::option::Option", "Some", ("0",), (v,))


NONE = agg("std::option::Option", "None", (), ())


def ok(v):
    return agg("std::result::Result", "Ok", ("0",), (v,))


def err(v):
    return agg("std::result::Result", "Err", ("0",), (v,))


def tup(*vs):
    return agg("()", "()", tuple(str(i) for i in range(len(vs))), vs)


def ref(root, path):
    return mk("ref", root, tuple(path))


IGNORED_ASSERT = ("MisalignedPointerDereference", "NullPointerDereference", "NullReferenceConstructed", "InvalidEnumConstruction")
CONT = ("vempty", "arr", "rep", "pushb", "pushf", "popf", "popb", "popn", "store", "slice", "cat", "trunc", "blit", "insert", "filt", "rem")


class Interp:
    arrlen = {}
    def __init__(self, prog, boundaries=(), models=None, max_paths=6000, max_depth=40, opaque=None):
        self.p = prog
        self.bound = boundaries          # predicate or set of canonical function keys
        self.models = models or {}
        self.recs = []
        self.quiet = 0
        self.nfid = 0
        self.nloop = 0
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.unknown = {}
        self.inlined = set()
        self.arrlen = {}        # values of array type -> their length
        self.steps = 0
        self.callstack = []
        self.visited = set()
        self.nobj = 0
        self._rngs = {}
        self._href = {}
        self.fid_fn = {}
        self.traced = ()
        self.shapes = {}

    # ------------------------------------------------------------ types
    def rng_of(self, tid):
        if tid in self._rngs:
            return self._rngs[tid]
        t = self.p.types[self.p.peel(tid)]
        r = None
        if t["k"] == "uint":
            r = (0, (1 << t["bits"]) - 1)
        elif t["k"] == "int":
            r = (-(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1)
        self._rngs[tid] = r
        return r

    def newsym(self, hint, tid):
        t = self.p.types[self.p.peel(tid)]
        if t["k"] == "tuple" and not t["ts"]:
            return UNIT
        return fresh(hint, self.rng_of(tid))

    def variant(self, tid, vi):
        return self.p.types[self.p.peel(tid)]["variants"][vi]

    def nvariants(self, tid):
        return len(self.p.types[self.p.peel(tid)].get("variants", ())) or None

    # ------------------------------------------------------------ container reads
    def length(self, c):
        o = c.op
        if o in ("vempty", "mempty"):
            return I(0)
        if o == "arr":
            return I(len(c.a))
        if o == "rep":
            return c.a[1]
        if o in ("pushb", "pushf"):
            return add(self.length(c.a[0]), I(1))
        if o in ("popf", "popb"):
            return add(self.length(c.a[0]), I(-1))
        if o == "rem":
            return add(self.length(c.a[0]), I(-1))
        if o == "insert":
            return add(self.length(c.a[0]), I(1))
        if o == "popn":
            return sub(self.length(c.a[0]), c.a[1])
        if o in ("store", "blit"):
            return self.length(c.a[0])
        if o == "slice":
            return sub(c.a[2], c.a[1])
        if o == "cat":
            return add(self.length(c.a[0]), self.length(c.a[1]))
        if o == "trunc":
            return minmax("min", self.length(c.a[0]), c.a[1])
        if o == "cbytes":
            return I(len(c.a[0]))
        if o == "mput":
            return mk("len", c)
        if o == "hempty":
            return I(0)
        if o in ("hpush",):
            return add(self.length(c.a[0]), I(1))
        if o in ("hpop",):
            return add(self.length(c.a[0]), I(-1))
        if o == "ite":
            a, b = self.length(c.a[1]), self.length(c.a[2])
            return ite(c.a[0], a, b)
        if c in self.arrlen:
            return I(self.arrlen[c])
        return mk("len", c)

    def elem(self, c, i, facts, r=None):
        n = 0
        while True:
            n += 1
            o = c.op
            if o == "arr":
                if i.op == "int" and 0 <= i.a[0] < len(c.a):
                    return c.a[i.a[0]]
                break
            if o == "rep":
                return c.a[0]
            if o == "cbytes" and i.op == "int" and 0 <= i.a[0] < len(c.a[0]):
                return I(c.a[0][i.a[0]])
            if o == "pushb":
                L = self.length(c.a[0])
                d = sub(i, L)
                if d is I(0):
                    return c.a[1]
                if self._lt(i, L, facts):
                    c = c.a[0]
                    continue
                if facts is not None and facts.prove(eq0(d)):
                    return c.a[1]
                break
            if o == "pushf":
                if i is I(0):
                    return c.a[1]
                if i.op == "int" or (facts is not None and facts.prove(cmp_le(I(1), i))):
                    c, i = c.a[0], add(i, I(-1))
                    continue
                break
            if o == "popf":
                c, i = c.a[0], add(i, I(1))
                continue
            if o == "popn":
                i = add(i, c.a[1])
                c = c.a[0]
                continue
            if o in ("popb", "trunc"):
                c = c.a[0]
                continue
            if o == "slice":
                i = add(i, c.a[1])
                c = c.a[0]
                continue
            if o == "store":
                if c.a[1] is i:
                    return c.a[2]
                e = cmp_eq(c.a[1], i)
                if e is FALSE or (facts is not None and facts.refute(e)):
                    c = c.a[0]
                    continue
                if e is TRUE or (facts is not None and facts.prove(e)):
                    return c.a[2]
                break
            if o == "blit":
                base, lo, src = c.a
                d = sub(i, lo)
                if self._lt(i, lo, facts):
                    c = base
                    continue
                hi = add(lo, self.length(src))
                if self._lt(i, hi, facts) and self._lt(lo, add(i, I(1)), facts):
                    c, i = src, d
                    continue
                if self._lt(hi, add(i, I(1)), facts):
                    c = base
                    continue
                break
            if o == "cat":
                L = self.length(c.a[0])
                if self._lt(i, L, facts):
                    c = c.a[0]
                    continue
                if self._lt(L, add(i, I(1)), facts):
                    c, i = c.a[1], sub(i, L)
                    continue
                break
            break
        return mk("elem", c, i, r)

    def _lt(self, a, b, facts):
        c = cmp_lt(a, b)
        if c is TRUE:
            return True
        if c is FALSE or facts is None:
            return False
        return facts.prove(c)

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "O":
                v = root[1]
                if v.op == "refsym":
                    v = v.a[0]
                if v.op == "cval":
                    return v.a[0]
                if v.op == "static":
                    s = self.p.statics.get(v.a[0])
                    if s and s.get("a") and self.p.types[s["ty"]]["k"] in ("uint", "int", "bool", "float", "array", "ref"):
                        return self.decode(s["ty"], s["a"]["b"], s["a"]["p"], 0)
                v = mk("ini", v)
                return v
            raise Undecided("read of uninitialised local %r" % (root,))
        return v

    def step_val(self, v, e, facts):
        k = e[0]
        if k == "f":
            if v.op == "agg":
                try:
                    return v.a[3][v.a[2].index(e[1])]
                except ValueError:
                    return mk("fld", v, e[1], self.rng_of(e[2]))
            if v.op == "ite":
                return ite(v.a[0], self.step_val(v.a[1], e, facts), self.step_val(v.a[2], e, facts))
            t = self.p.types[self.p.peel(e[2])]
            if t["k"] == "tuple" and not t["ts"]:
                return UNIT
            if self.p.constant and len(e) > 3 and e[3] is not None:
                x = self.p.constant.get((self.p.types[self.p.peel(e[3])].get("name"), e[1]))
                if x is not None:
                    return I(x)
            r = mk("fld", v, e[1], self.rng_of(e[2]))
            if self.p.types[e[2]]["k"] == "array" and self.p.types[e[2]]["n"] is not None:
                self.arrlen[r] = self.p.types[e[2]]["n"]
            return r
        if k == "v":
            if v.op == "agg":
                return v
            if v.op == "ite":
                return ite(v.a[0], self.step_val(v.a[1], e, facts), self.step_val(v.a[2], e, facts))
            return mk("as", v, e[1])
        if k == "i":
            return self.elem(v, e[1], facts, self.rng_of(e[2]) if e[2] is not None else None)
        if k == "r":
            hi = e[2] if e[2] is not None else self.length(v)
            if e[1] is I(0) and hi is self.length(v):
                return v
            return self.mkslice(v, e[1], hi, facts)
        if k == "m":      # map value
            return self.mget(v, e[1], facts)
        if k == "h":      # heap top
            return mk("htop", v)
        if k == "w":
            return v
        raise Undecided("path element %r" % (e,))

    def mkslice(self, v, lo, hi, facts):
        while True:
            if v.op == "slice":
                lo, hi, v = add(lo, v.a[1]), add(hi, v.a[1]), v.a[0]
                continue
            if v.op == "blit":
                b, l2, src = v.a
                h2 = add(l2, self.length(src))
                if l2 is lo and h2 is hi:
                    return src
                if self._lt(sub(hi, I(1)), l2, facts) or self._lt(sub(h2, I(1)), lo, facts):
                    v = b
                    continue
            if lo is I(0) and hi is self.length(v):
                return v
            if v.op in ("pushb", "cat"):
                n = self.length(v.a[0])
                if self._lt(hi, add(n, I(1)), facts):
                    v = v.a[0]
                    continue
                if v.op == "cat" and self._lt(n, add(lo, I(1)), facts):
                    lo, hi, v = sub(lo, n), sub(hi, n), v.a[1]
                    continue
            if lo.op == "int" and hi.op == "int" and v.op in ("arr", "store", "cbytes", "rep") and 0 <= lo.a[0] <= hi.a[0] <= lo.a[0] + 64:
                es = [self.elem(v, I(i), facts) for i in range(lo.a[0], hi.a[0])]
                if all(e.op != "elem" or e.a[0] is not v for e in es):
                    return mk("arr", *es)
            return mk("slice", v, lo, hi)

    def mget(self, m, key, facts):
        while True:
            if m.op == "mput":
                if m.a[1] is key:
                    return m.a[2]
                e = mk("keq", *sorted((m.a[1], key), key=lambda t: t.id))
                if facts is not None and facts.prove(bnot(e)):
                    m = m.a[0]
                    continue
                if facts is not None and facts.prove(e):
                    return m.a[2]
            if m.op == "mdel" and m.a[1] is not key:
                m = m.a[0]
                continue
            return mk("mget", m, key)

    def mhas(self, m, key, facts):
        """boolean term: key present"""
        while True:
            if m.op == "mput":
                if m.a[1] is key:
                    return TRUE
                e = mk("keq", *sorted((m.a[1], key), key=lambda t: t.id))
                return bor(e, self.mhas(m.a[0], key, facts))
            if m.op == "mdel":
                if m.a[1] is key:
                    return FALSE
                e = mk("keq", *sorted((m.a[1], key), key=lambda t: t.id))
                return band(bnot(e), self.mhas(m.a[0], key, facts))
            if m.op == "mempty":
                return FALSE
            return mk("mhas", m, key)

    def read(self, st, root, path):
        v = self.root_value(st, root)
        for e in path:
            v = self.step_val(v, e, st.facts)
        return v

    def upd(self, v, path, val, facts):
        if not path:
            return val
        e, rest = path[0], path[1:]
        k = e[0]
        if k == "f":
            if v.op == "agg" and e[1] in v.a[2]:
                i = v.a[2].index(e[1])
                nv = self.upd(v.a[3][i], rest, val, facts)
                if nv is v.a[3][i]:
                    return v
                return mk("agg", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (nv,) + v.a[3][i + 1:])
            old = self.step_val(v, e, facts)
            nv = self.upd(old, rest, val, facts)
            if nv is old:
                return v
            # expand the symbolic aggregate
            name, vname, fields = self.fields_of(e[3], e[4] if len(e) > 4 else None)
            vals = []
            for fn_, ft in fields:
                vals.append(nv if fn_ == e[1] else self.step_val(v, ("f", fn_, ft), facts))
            return agg(name, vname, [f for f, _ in fields], vals)
        if k == "v":
            x = self.step_val(v, e, facts)
            nx = self.upd(x, rest, val, facts)
            if nx is x:
                return v
            return nx
        if k == "i":
            if rest:
                old = self.step_val(v, e, facts)
                val = self.upd(old, rest, val, facts)
                if val is old:
                    return v
            if v.op == "arr" and e[1].op == "int" and 0 <= e[1].a[0] < len(v.a):
                i = e[1].a[0]
                return mk("arr", *(v.a[:i] + (val,) + v.a[i + 1:]))
            if v.op == "store" and v.a[1] is e[1]:
                v = v.a[0]
            return mk("store", v, e[1], val)
        if k == "r":
            hi = e[2] if e[2] is not None else self.length(v)
            if rest and rest[0][0] == "i":
                return self.upd(v, (("i", add(e[1], rest[0][1]), rest[0][2]),) + tuple(rest[1:]), val, facts)
            if rest and rest[0][0] == "r":
                h2 = rest[0][2] if rest[0][2] is not None else sub(hi, e[1])
                return self.upd(v, (("r", add(e[1], rest[0][1]), add(e[1], h2)),) + tuple(rest[1:]), val, facts)
            if not rest:
                if e[1] is I(0) and hi is self.length(v):
                    return val
                return mk("blit", v, e[1], val)
        if k == "m":
            old = self.step_val(v, e, facts)
            nv = self.upd(old, rest, val, facts)
            return v if nv is old else mk("mput", v, e[1], nv)
        if k == "h":
            old = self.step_val(v, e, facts)
            nv = self.upd(old, rest, val, facts)
            return v if nv is old else mk("hset", v, nv)
        raise Undecided("write through %r" % (e,))

    def fields_of(self, ptid, vname=None):
        t = self.p.types[self.p.peel(ptid)]
        if t["k"] == "adt":
            vs = t["variants"]
            v = vs[0]
            if vname is not None:
                v = [x for x in vs if x["name"] == vname][0]
            return t["name"], v["name"], [(f, ft) for f, ft in v["fields"]]
        if t["k"] == "tuple":
            return "()", "()", [(str(i), x) for i, x in enumerate(t["ts"])]
        raise Undecided("fields of %s" % t["s"])

    def write(self, st, root, path, val, frame=None, quiet=False):
        old = st.mem.get(root)
        if not path:
            st.mem[root] = val
        else:
            if old is None:
                if root[0] == "O":
                    old = self.root_value(st, root)
                else:
                    old = mk("uninit", "u%d_%d" % (root[1], root[2]))
            st.mem[root] = self.upd(old, path, val, st.facts)
        if root[0] == "O" and not quiet:
            self.event(st, "write", "", (root, tuple(path)), val, frame)

    def event(self, st, kind, name, args, ret, frame, x=None):
        loc = self.loc(frame)
        ev = Ev(kind, name, args, ret, loc, st.facts, dict(st.mem), x, frame.fn.key if frame else None)
        st.trace = (st.trace, ev)
        return ev

    def loc(self, frame):
        f = frame
        while f is not None and not f.fn.local and f.parent is not None:
            f = f.parent
        return "%s:%s (%s)" % (f.fn.file, f.line, f.fn.key) if f else "?"

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """-> (root, path, tid)"""
        root, path = ("L", fr.fid, pl[0]), []
        tid = fr.fn.locals[pl[0]]
        vname = None
        boxptr = None
        P = self.p
        for e in pl[1]:
            k = e[0]
            t = P.types[tid]
            if boxptr is not None:
                if k == "*":
                    tid = boxptr
                    boxptr = None
                continue
            if k == "f" and t["k"] == "adt" and vname is None:
                if P.is_box(tid):
                    if e[1] == 0:
                        root, path = self.through_box(st, root, path)
                        boxptr = t["args"][0]
                        continue
                elif t["name"] in P.TRANSPARENT or t["name"].endswith("::MaybeDangling"):
                    tid = e[2]
                    continue
            if k == "*":
                if P.is_box(tid):
                    root, path = self.through_box(st, root, path)
                    tid = t["args"][0]
                    continue
                v = self.read(st, root, path)
                root, path = self.deref(v)
                path = list(path)
                tid = t["t"] if t["k"] in ("ref", "ptr") else P.pointee(tid)
                continue
            ptid = P.peel(tid)
            pt = P.types[ptid]
            if k == "f":
                if pt["k"] == "adt":
                    if pt.get("adt") == "Union":
                        tid = e[2]
                        continue
                    vs = pt["variants"]
                    var = vs[vname] if vname is not None else vs[0]
                    name = var["fields"][e[1]][0]
                    path.append(("f", name, e[2], ptid) + ((var["name"],) if vname is not None else ()))
                else:
                    path.append(("f", str(e[1]), e[2], ptid))
                tid, vname = e[2], None
            elif k == "v":
                vname = e[1]
                path.append(("v", pt["variants"][e[1]]["name"], ptid))
            elif k == "i":
                i = self.read(st, ("L", fr.fid, e[1]), ())
                et = pt.get("t")
                path = self.push_index(path, i, et)
                tid = et
            elif k == "c":
                et = pt.get("t")
                if e[3]:
                    L = self.length(self.read(st, root, path))
                    i = sub(L, I(e[1]))
                else:
                    i = I(e[1])
                path = self.push_index(path, i, et)
                tid = et
            elif k == "s":
                v = self.read(st, root, path)
                hi = sub(self.length(v), I(e[2])) if e[3] else I(e[2])
                path = path + [("r", I(e[1]), hi)]
            else:
                raise Undecided("projection %r" % (e,))
        return root, tuple(path), tid

    def through_box(self, st, root, path):
        if root[0] == "L" and not path:
            v = st.mem.get(root)
            if v is not None and v.op == "bref":
                return v.a[0], list(v.a[1])
        return root, path

    def push_index(self, path, i, et):
        if path and path[-1][0] == "r":
            return list(path[:-1]) + [("i", add(path[-1][1], i), et)]
        return list(path) + [("i", i, et)]

    def deref(self, v):
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op == "ite":
            raise Undecided("dereference of a merged reference")
        return ("O", v), ()

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            root, path, _ = self.place(st, fr, o[1])
            return self.read(st, root, path)
        if k == "k":
            return self.const(o[1])
        raise Undecided("operand %r" % (o,))

    def op_type(self, st, fr, o):
        if o[0] == "k":
            return o[1]["ty"]
        tid = fr.fn.locals[o[1][0]]
        if not o[1][1]:
            return tid
        for e in reversed(o[1][1]):
            if e[0] == "f":
                if e is o[1][1][-1]:
                    return e[2]
                break
        return self.place(st, fr, o[1])[2]

    def const(self, c):
        tid = c["ty"]
        if "fn" in c:
            return mk("fnref", c["fn"])
        if "fnname" in c:
            return mk("fnname", c["fnname"])
        if "u" in c:
            return I(c["u"])
        t = self.p.types[tid]
        if "zst" in c:
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt" and t["variants"] and not t["variants"][0]["fields"]:
                return agg(t["name"], t["variants"][0]["name"], (), ())
            if t["k"] == "closure":
                return agg("closure:%d" % tid, "", (), ())
            if t["k"] == "array":
                return mk("vempty")
            return mk("zst", t["s"])
        if "a" in c:
            return self.decode(tid, c["a"]["b"], c["a"]["p"], 0)
        return mk("konst", t["s"], str(c.get("x")))

    def decode(self, tid, b, prov, off):
        t = self.p.types[tid]
        k = t["k"]
        if k in ("uint", "int", "char"):
            n = t.get("bits", 32) // 8
            bs = b[off:off + n]
            if None in bs:
                return mk("konst", t["s"], "?")
            return I(int.from_bytes(bytes(bs), "little", signed=(k == "int")))
        if k == "bool":
            return B(b[off] == 1)
        if k == "float":
            n = 8 if "64" in t.get("n", "F64") or "64" in t["s"] else 4
            return mk("flt", struct.unpack("<d" if n == 8 else "<f", bytes(b[off:off + n]))[0])
        if k in ("ref", "ptr"):
            pv = dict((o, d) for o, d in prov)
            if off in pv:
                d = pv[off]
                pt = self.p.types[t["t"]]
                if "static" in d:
                    return ref(("O", mk("static", d["static"])), ())
                if "fn" in d:
                    return mk("fnref", d["fn"])
                if "mem" in d:
                    m = d["mem"]
                    bs = m["b"]
                    base = int.from_bytes(bytes(x or 0 for x in b[off:off + 8]), "little")
                    if pt["k"] in ("str",) or (pt["k"] == "slice" and self.p.types[pt["t"]].get("bits") == 8):
                        n = int.from_bytes(bytes(b[off + 8:off + 16]), "little")
                        return ref(("O", mk("cval", mk("cbytes", tuple(bs[base:base + n])))), ())
                    if pt["k"] == "slice":
                        n = int.from_bytes(bytes(b[off + 8:off + 16]), "little")
                        es = self.sizeof(pt["t"])
                        if es:
                            return ref(("O", mk("cval", mk("arr", *[self.decode(pt["t"], bs, m["p"], base + i * es) for i in range(n)]))), ())
                    try:
                        return ref(("O", mk("cval", self.decode(t["t"], bs, m["p"], base))), ())
                    except Undecided:
                        pass
                    return ref(("O", mk("cval", mk("konst", pt["s"], str(bs)))), ())
            return mk("konst", t["s"], "ptr")
        if k == "array":
            es = self.sizeof(t["t"])
            n = t["n"]
            if es and n is not None:
                if n > 64 and len(set(map(str, b[off:off + es * n]))) == 1:
                    return mk("rep", self.decode(t["t"], b, prov, off), I(n))
                return mk("arr", *[self.decode(t["t"], b, prov, off + i * es) for i in range(n)])
        if k == "tuple" and not t["ts"]:
            return UNIT
        lay = t.get("lay")
        if k == "tuple" and lay:
            return tup(*[self.decode(x, b, prov, off + o) for x, o in zip(t["ts"], lay["offs"])])
        if k == "adt" and lay and t.get("adt") != "Union":
            vs = t["variants"]
            if "one" in lay:
                v = vs[lay["one"]] if vs else {"name": "", "fields": []}
                if t["name"] in self.p.TRANSPARENT and v["fields"]:
                    return self.decode(v["fields"][0][1], b, prov, off + lay["offs"][0])
                return agg(t["name"], v["name"], [f for f, _ in v["fields"]], [self.decode(ft, b, prov, off + o) for (_, ft), o in zip(v["fields"], lay["offs"])])
            if "tag" in lay:
                to, n = lay["tag"]
                bs = b[off + to:off + to + n]
                if None not in bs:
                    raw = int.from_bytes(bytes(bs), "little")
                    haspv = any(o == off + to for o, _ in prov)
                    idx = None
                    if lay["enc"] == "direct":
                        for i, v in enumerate(vs):
                            if int(v["d"]) % (1 << (8 * n)) == raw:
                                idx = i
                    else:
                        unt, lo, hi, start = lay["enc"]
                        rel = (raw - int(start)) % (1 << (8 * n))
                        idx = lo + rel if not haspv and rel <= hi - lo else unt
                    if idx is not None:
                        v = vs[idx]
                        return agg(t["name"], v["name"], [f for f, _ in v["fields"]], [self.decode(ft, b, prov, off + o) for (_, ft), o in zip(v["fields"], lay["vo"][idx])])
        return mk("konst", t["s"], str(b[off:off + 64]) + str(prov)[:80])

    def sizeof(self, tid):
        t = self.p.types[tid]
        if t["k"] in ("uint", "int"):
            return t["bits"] // 8
        if t["k"] == "bool":
            return 1
        if t["k"] == "float":
            return 8 if "64" in t["s"] else 4
        if t["k"] in ("ref", "ptr"):
            return 16 if self.p.types[t["t"]]["k"] in ("slice", "str") else 8
        if t.get("lay"):
            return t["lay"]["size"]
        return None

    def int_bounds(self, tid):
        return self.rng_of(tid)

    def binop(self, op, a, b, tid):
        """mathematical result (or opaque term) of a MIR binary operator on values of type tid"""
        t = self.p.types[self.p.peel(tid)]
        k = t["k"]
        if k == "float":
            return self.fop(op, a, b)
        if k == "bool":
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op in ("BitXor", "Ne"):
                return self.bxor(a, b)
            if op == "Eq":
                return bnot(self.bxor(a, b))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if k in ("ref", "ptr", "fnptr"):
                r = TRUE if a is b else mk("peq", *sorted((a, b), key=lambda t: t.id))
                return r if op == "Eq" else bnot(r)
            if k in ("bool",):
                a, b = self.b2i(a), self.b2i(b)
            if op in ("Eq", "Ne"):
                # setting (clearing) a bit changes the value exactly when it was clear (set)
                for x, y in ((a, b), (b, a)):
                    if x.op in ("setbit", "clrbit") and x.a[0] is y:
                        r = self.bit(y, x.a[1])
                        return r if (op == "Eq") == (x.op == "setbit") else bnot(r)
            return {"Eq": cmp_eq, "Ne": lambda x, y: bnot(cmp_eq(x, y)), "Lt": cmp_lt, "Le": cmp_le,
                    "Gt": lambda x, y: cmp_lt(y, x), "Ge": lambda x, y: cmp_le(y, x)}[op](a, b)
        bits = t.get("bits", 64)
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "Div":
            if k == "uint":
                return self.udiv(a, b)
            return mk("sdiv", a, b)
        if op == "Rem":
            if k == "uint":
                if b.op == "int" and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
                    return mod(b.a[0].bit_length() - 1, a)
                if a.op == "int" and b.op == "int":
                    return I(a.a[0] % b.a[0])
                l, h = rng(a)
                if b.op == "int" and h is not None and l is not None and 0 <= l and h < b.a[0]:
                    return a
                return mk("urem", a, b)
            return mk("srem", a, b)
        if op in ("Shl", "ShlUnchecked"):
            if b.op == "int" and k == "uint":
                return mod(bits, mulc(a, 1 << b.a[0]))
            if a is I(1):
                return mk("pow2", b)
            if k == "uint" and a.op != "b2i":
                return mod(bits, mul(a, mk("pow2", b)))
            return mk("shl", bits, a, b)
        if op in ("Shr", "ShrUnchecked"):
            if b.op == "int" and k == "uint":
                return self.shr(a, b.a[0])
            return mk("shrv", bits, a, b)
        if op == "BitAnd" and k == "uint":
            return self.bitand(bits, a, b)
        if op == "BitOr" and k == "uint":
            return self.bitor(bits, a, b)
        if op == "BitXor" and k == "uint":
            return self.bitxor(bits, a, b)
        return mk("op:" + op, bits, a, b)

    def udiv(self, a, b):
        if b.op == "int" and b.a[0] > 0:
            if a.op == "int":
                return I(a.a[0] // b.a[0])
            if b.a[0] == 1:
                return a
            if b.a[0] & (b.a[0] - 1) == 0:
                return self.shr(a, b.a[0].bit_length() - 1)
            c, items = lin_parts(a)
            if c % b.a[0] == 0 and all(k % b.a[0] == 0 for _, k in items):
                return mk_lin(c // b.a[0], [(x, k // b.a[0]) for x, k in items])
            # whole multiples of the divisor come out: floor((y + c) / d) == floor((y + c mod d) / d) + c div d, and likewise for k*x
            d = b.a[0]
            q = mk_lin(c // d, [(x, k // d) for x, k in items if k % d == 0])
            if q is not I(0):
                return add(self.udiv(mk_lin(c % d, [(x, k) for x, k in items if k % d]), b), q)
        return mk("udiv", a, b)

    def shr(self, a, n):
        if n == 0:
            return a
        if a.op == "int":
            return I(a.a[0] >> n)
        l, h = rng(a)
        if l is not None and h is not None and l >= 0 and h < (1 << n):
            return I(0)
        if a.op == "udiv" and a.a[1].op == "int":
            return mk("udiv", a.a[0], I(a.a[1].a[0] << n))
        return mk("udiv", a, I(1 << n))

    def bitand(self, bits, a, b):
        if a.op == "int" and b.op == "int":
            return I(a.a[0] & b.a[0])
        if a.op == "int":
            a, b = b, a
        if b.op == "int":
            m = b.a[0]
            if m == 0:
                return I(0)
            if m == 1 and a.op == "shrv":
                return self.b2i(self.bit(a.a[1], a.a[2]))
            if m & (m + 1) == 0:
                return mod(m.bit_length(), a)
            if m & (m - 1) == 0:
                return mulc(self.b2i(self.bit(a, I(m.bit_length() - 1))), m)
            lowz = (m & -m).bit_length() - 1
            mm = m >> lowz
            if mm & (mm + 1) == 0:
                return mulc(mod(mm.bit_length(), self.shr(a, lowz)), 1 << lowz)
            return mk("and", 64, a, b)
        if a.op == "pow2" or b.op == "pow2":
            if a.op == "pow2":
                a, b = b, a
            return mk("mul", *sorted((self.b2i(self.bit(a, b.a[0])), b), key=lambda t: t.id))
        if a is b:
            return a
        for x, y in ((a, b), (b, a)):
            if y.op == "lin":
                c, its = lin_parts(y)
                if len(its) == 1 and its[0][1] == -1 and its[0][0].op == "pow2" and c > 0 and c & (c + 1) == 0:
                    h = rng(x)[1]
                    if h is not None and h <= c:
                        return mk("clrbit", x, its[0][0].a[0])
        return mk("and", 64, *sorted((a, b), key=lambda t: t.id))

    def bit(self, x, k):
        """bit k of x as a boolean"""
        if x.op == "int" and k.op == "int":
            return B((x.a[0] >> k.a[0]) & 1 == 1)
        if x.op == "setbit":
            if x.a[1] is k:
                return TRUE
            return bor(cmp_eq(x.a[1], k), self.bit(x.a[0], k))
        if x.op == "clrbit":
            if x.a[1] is k:
                return FALSE
            return band(bnot(cmp_eq(x.a[1], k)), self.bit(x.a[0], k))
        if x is I(0):
            return FALSE
        if x.op == "xor" and len(x.a) == 3:
            for p, y in (x.a[1:], x.a[:0:-1]):
                if p.op == "pow2":
                    return self.bxor(self.bit(y, k), cmp_eq(p.a[0], k))
        if x.op == "b2i":
            return band(x.a[0], cmp_eq(k, I(0)))
        if x.op == "or" and len(x.a) == 3:
            return bor(self.bit(x.a[1], k), self.bit(x.a[2], k))
        if x.op == "and" and len(x.a) == 3:
            return band(self.bit(x.a[1], k), self.bit(x.a[2], k))
        if x.op == "shl" and x.a[1].op == "b2i":
            return band(x.a[1].a[0], cmp_eq(k, x.a[2]))
        if x.op == "mul" and len(x.a) == 2:
            for y, z in (x.a, x.a[::-1]):
                if y.op == "b2i" and z.op == "pow2":
                    return band(y.a[0], cmp_eq(k, z.a[0]))
        if x.op == "pow2":
            return cmp_eq(k, x.a[0])
        l, h = rng(x)
        if k.op == "int" and l is not None and h is not None and l >= 0 and h < (1 << k.a[0]):
            return FALSE
        return mk("bit", x, k)

    def tz(self, x):
        """lower bound on the number of trailing zero bits"""
        if x.op == "int":
            return 64 if x.a[0] == 0 else (x.a[0] & -x.a[0]).bit_length() - 1
        c, items = lin_parts(x)
        g = c
        from math import gcd
        for _, k in items:
            g = gcd(g, abs(k))
        return (g & -g).bit_length() - 1 if g else 64

    def bitor(self, bits, a, b):
        if a.op == "int" and b.op == "int":
            return I(a.a[0] | b.a[0])
        if a is I(0):
            return b
        if b is I(0):
            return a
        for x, y in ((a, b), (b, a)):
            l, h = rng(x)
            if l is not None and l >= 0 and h is not None and h.bit_length() <= self.tz(y):
                return add(x, y)
            if y.op == "pow2":
                return mk("setbit", x, y.a[0])
        for x, y in ((a, b), (b, a)):
            if y.op == "int" and y.a[0] & (y.a[0] - 1) == 0 and x.op != "lin":
                return mk("setbit", x, I(y.a[0].bit_length() - 1))
        if a is b:
            return a
        s = self.bits_of(a, bits), self.bits_of(b, bits)
        if s[0] and s[1]:
            dis = all(p == 0 or q == 0 for p, q in zip(*s))
            if dis:
                return add(a, b)
        return mk("or", bits, *sorted((a, b), key=lambda t: t.id))

    def bits_of(self, t, n):
        """list of n bit sources (0, 1, or (term, k)), least significant first; None if unknown"""
        if t.op == "int":
            return [(t.a[0] >> i) & 1 for i in range(n)]
        if t.op == "b2i":
            return [(t, 0)] + [0] * (n - 1)
        if t.op == "mod":
            b = self.bits_of(t.a[1], max(n, t.a[0])) if t.a[1].op != "lin" else self.bits_of(t.a[1], t.a[0])
            if b is None:
                return [(t, i) if i < t.a[0] else 0 for i in range(n)]
            return (b[:t.a[0]] + [0] * n)[:n]
        if t.op == "udiv" and t.a[1].op == "int" and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0:
            s = t.a[1].a[0].bit_length() - 1
            b = self.bits_of(t.a[0], n + s)
            return None if b is None else b[s:s + n]
        if t.op == "lin":
            c, items = lin_parts(t)
            if c < 0:
                return None
            out = [(c >> i) & 1 for i in range(n)]
            for x, k in items:
                if k <= 0 or k & (k - 1):
                    return None
                s = k.bit_length() - 1
                b = self.bits_of(x, max(0, n - s))
                if b is None:
                    return None
                b = [0] * s + b
                for i in range(n):
                    if b[i] != 0:
                        if out[i] != 0:
                            return None
                        out[i] = b[i]
            return out
        l, h = rng(t)
        if l is None or l < 0:
            return None
        w = h.bit_length() if h is not None else n
        return [(t, i) if i < w else 0 for i in range(n)]

    def bitxor(self, bits, a, b):
        if a.op == "int" and b.op == "int":
            return I(a.a[0] ^ b.a[0])
        if a is b:
            return I(0)
        if a is I(0):
            return b
        if b is I(0):
            return a
        if a.op == "b2i" and b.op == "b2i":
            return self.b2i(self.bxor(a.a[0], b.a[0]))
        xs = []
        for x in (a, b):
            xs += list(x.a[1:]) if x.op == "xor" else [x]
        from collections import Counter
        cn = Counter(xs)
        xs = [x for x in cn if cn[x] % 2]
        if not xs:
            return I(0)
        if len(xs) == 1:
            return xs[0]
        return mk("xor", bits, *sorted(xs, key=lambda t: t.id))

    def bxor(self, a, b):
        if a is TRUE:
            return bnot(b)
        if b is TRUE:
            return bnot(a)
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        if a is b:
            return FALSE
        neg = False
        xs = []
        for x in (a, b):
            if x.op == "not!":
                neg = not neg
                x = x.a[0]
            xs += list(x.a) if x.op == "bxor" else [x]
        from collections import Counter
        cn = Counter(xs)
        xs = sorted((x for x in cn if cn[x] % 2), key=lambda t: t.id)
        if not xs:
            r = FALSE
        elif len(xs) == 1:
            r = xs[0]
        else:
            r = mk("bxor", *xs)
        return bnot(r) if neg else r

    def b2i(self, b):
        if b is TRUE:
            return I(1)
        if b is FALSE:
            return I(0)
        return mk("b2i", b)

    def fop(self, op, a, b):
        if op in ("Lt", "Gt", "Le", "Ge", "Eq", "Ne"):
            if a.op == "flt" and b.op == "flt":
                x, y = a.a[0], b.a[0]
                return B({"Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[op])
            if op == "Gt":
                return mk("f<", b, a)
            if op == "Ge":
                return mk("f<=", b, a)
            if op == "Lt":
                return mk("f<", a, b)
            if op == "Le":
                return mk("f<=", a, b)
            r = TRUE if False else mk("f==", *sorted((a, b), key=lambda t: t.id))
            return r if op == "Eq" else bnot(r)
        o = {"Add": "f+", "Sub": "f-", "Mul": "f*", "Div": "f/", "Rem": "f%"}[op]
        if a.op == "flt" and b.op == "flt":
            x, y = a.a[0], b.a[0]
            try:
                return mk("flt", {"f+": x + y, "f-": x - y, "f*": x * y, "f/": x / y if y else float("inf"), "f%": x}[o])
            except OverflowError:
                pass
        if o in ("f+", "f*") and a.id > b.id:
            a, b = b, a
        return mk(o, a, b)

    def rvalue(self, st, fr, rv, dest_tid):
        k = rv[0]
        if k == "use":
            if rv[1][0] == "cp" and rv[1][1][1]:
                root, path, tid = self.place(st, fr, rv[1][1])
                if self.p.is_box(tid) and fr.fn.local:
                    return mk("bref", root, path)      # a box is only ever "copied" to dereference it
            return self.operand(st, fr, rv[1])
        if k in ("ref", "addr"):
            root, path, tid = self.place(st, fr, rv[-1])
            return ref(root, path)
        if k == "bin" or k == "cbin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            tid = self.op_type(st, fr, rv[2])
            op = rv[1]
            if op == "Cmp":
                o = lambda n: agg("std::cmp::Ordering", n, (), ())
                return ite(cmp_lt(a, b), o("Less"), ite(cmp_eq(a, b), o("Equal"), o("Greater")))
            if op == "Offset":
                return mk("ptroff", a, b)
            r = self.binop(op, a, b, tid)
            if op == "Shl" and r.op == "mod" and r.a[1].op == "mul" and st.facts.prove(cmp_le(r.a[1], I((1 << r.a[0]) - 1))):
                r = r.a[1]
            if k == "cbin":
                lo, hi = self.int_bounds(tid)
                if op in ("Add", "Sub", "Mul"):
                    ovf = bor(cmp_lt(r, I(lo)), cmp_lt(I(hi), r))
                    return mk("agg", "()", "()", ("0", "1"), (r, ovf))
                return mk("agg", "()", "()", ("0", "1"), (r, mk("ovf", op, a, b)))
            if op in ("Add", "Sub", "Mul"):
                t = self.p.types[self.p.peel(tid)]
                if t["k"] == "uint":
                    return mod(t["bits"], r)
            return r
        if k == "un":
            a = self.operand(st, fr, rv[2])
            tid = self.op_type(st, fr, rv[2])
            t = self.p.types[self.p.peel(tid)]
            if rv[1] == "Not":
                if t["k"] == "bool":
                    return bnot(a)
                if a.op == "int":
                    bits = t["bits"]
                    return I((~a.a[0]) % (1 << bits)) if t["k"] == "uint" else I(~a.a[0])
                if t["k"] == "uint":
                    return sub(I((1 << t["bits"]) - 1), a)
                return mk("not", t.get("bits", 64), a)
            if rv[1] == "Neg":
                if t["k"] == "float":
                    return mk("flt", -a.a[0]) if a.op == "flt" else mk("f~", a)
                return mulc(a, -1)
            if rv[1] == "PtrMetadata":
                root, path = self.deref(a)
                return self.length(self.read(st, root, path))
            return mk("un:" + rv[1], a)
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "discr":
            root, path, tid = self.place(st, fr, rv[1])
            return self.discr(self.read(st, root, path), tid)
        if k == "len":
            root, path, tid = self.place(st, fr, rv[1])
            return self.length(self.read(st, root, path))
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            return mk("rep", v, I(rv[2]))
        if k == "agg":
            kind = rv[1]
            vals = [self.operand(st, fr, o) for o in rv[2]]
            if kind[0] == "tuple":
                return tup(*vals)
            if kind[0] == "array":
                return mk("arr", *vals) if vals else mk("vempty")
            if kind[0] == "adt":
                t = self.p.types[self.p.peel(kind[1])]
                t0 = self.p.types[kind[1]]
                if t0["name"] in self.p.TRANSPARENT or t0["name"].endswith("MaybeDangling"):
                    return vals[0] if vals else UNIT
                v = t["variants"][kind[2]]
                return agg(t["name"], v["name"], [f for f, _ in v["fields"]], vals)
            if kind[0] == "closure":
                return agg("closure:%d" % kind[1], "", [str(i) for i in range(len(vals))], vals)
            if kind[0] == "rawptr":
                return vals[0]
            raise Undecided("aggregate %r" % (kind,))
        if k == "setd":
            return None
        raise Undecided("rvalue %r" % (rv,))

    def discr(self, v, tid):
        t = self.p.types[self.p.peel(tid)]
        if v.op == "agg":
            for x in t["variants"]:
                if x["name"] == v.a[1]:
                    return I(int(x["d"]))
        if v.op == "ite":
            return ite(v.a[0], self.discr(v.a[1], tid), self.discr(v.a[2], tid))
        if v.op == "rcv":
            v = v.a[0]
        return mk("discr", v, len(t.get("variants", ())) or 256)

    def cast(self, st, fr, rv):
        kind = rv[1]
        src_t = self.op_type(st, fr, rv[2])
        if kind.startswith("BoxDeref"):
            root, path, tid = self.place(st, fr, rv[2][1])
            return ref(root, path)
        a = self.operand(st, fr, rv[2])
        s, d = self.p.types[self.p.peel(src_t)], self.p.types[self.p.peel(rv[3])]
        if s["k"] in ("ref", "ptr") or d["k"] in ("ref", "ptr"):
            if d["k"] in ("uint", "int"):
                return mk("addr", a)
            return a
        if s["k"] == "bool" and d["k"] in ("uint", "int"):
            return self.b2i(a)
        if s["k"] in ("uint", "int", "char") and d["k"] in ("uint", "int", "char"):
            bits = d.get("bits", 32)
            lo, hi = self.rng_of(rv[3]) or (0, (1 << 32) - 1)
            l, h = rng(a)
            if l is not None and h is not None and l >= lo and h <= hi:
                return a
            if st.facts.prove(cmp_le(I(lo), a)) and st.facts.prove(cmp_le(a, I(hi))):
                return a
            if d["k"] in ("uint", "char"):
                return mod(bits, a)
            return mk("scast", bits, a, None, (lo, hi)) if False else mk("app", "scast%d" % bits, (a,), (lo, hi))
        if s["k"] in ("uint", "int") and d["k"] == "float":
            if a.op == "int":
                return mk("flt", float(a.a[0]))
            return mk("i2f", a)
        if s["k"] == "float" and d["k"] in ("uint", "int"):
            if a.op == "flt":
                lo, hi = self.rng_of(rv[3])
                x = a.a[0]
                return I(max(lo, min(hi, int(x)))) if x == x and abs(x) != float("inf") else I(0 if x != x else (hi if x > 0 else lo))
            return f2i(self.rng_of(rv[3]), a)
        if s["k"] == "adt" and d["k"] in ("uint", "int"):
            r = self.discr(a, src_t)
            return r
        if s["k"] == "float" and d["k"] == "float":
            return a
        if kind.startswith("PointerCoercion") or kind.startswith("Transmute") or kind.startswith("Subtype"):
            return a
        return mk("cast", d["s"], a)

    # ------------------------------------------------------------ control flow
    def branch(self, st, cond):
        """[(state, truth)]"""
        if cond is TRUE:
            return [(st, True)]
        if cond is FALSE:
            return [(st, False)]
        f = st.facts
        if f.prove(cond):
            return [(st, True)]
        n = bnot(cond)
        if f.prove(n):
            return [(st, False)]
        return [(St(dict(st.mem), f.plus(cond), st.trace), True), (St(dict(st.mem), f.plus(n), st.trace), False)]

    def record(self, p):
        if not self.quiet:
            self.recs.append(p)
            if len(self.recs) > self.max_paths:
                raise Undecided("more than %d paths" % self.max_paths)

    def panic(self, st, msg, fr, x=None):
        self.record(Path("panic", st, msg=msg, loc=self.loc(fr), x=x))

    def explore(self, fr, start, st, loop):
        """outcomes: ('ret', st) | ('exit', block, st) | ('back', st)"""
        out = []
        loops = fr.fn.loops()
        work = [(start, st, True)]
        while work:
            b, s, first = work.pop()
            if loop is not None and not first:
                if b == loop[0]:
                    out.append(("back", s))
                    continue
                if b not in loop[1]:
                    out.append(("exit", b, s))
                    continue
            if b in loops and not (loop is not None and b == loop[0]):
                for nb, ns in self.do_loop(fr, b, loops[b], s):
                    work.append((nb, ns, False))
                continue
            for r in self.block(fr, b, s):
                if r[0] == "goto":
                    work.append((r[1], r[2], False))
                else:
                    out.append(r)
            if len(out) + len(work) > self.max_paths:
                raise Undecided("too many paths in %s" % fr.fn.key)
        return out

    def block(self, fr, b, st):
        self.steps += 1
        blk = fr.fn.blocks[b]
        fn = fr.fn
        if not self.quiet:
            self.visited.add((fn.key, b))
        for ln, pl, rv in blk["s"]:
            fr.line = ln
            if pl is None:
                continue
            if rv[0] == "setd":
                root, path, tid = self.place(st, fr, pl)
                t = self.p.types[self.p.peel(tid)]
                v = t["variants"][rv[1]]
                old = self.read(st, root, path) if root in st.mem or root[0] == "O" else None
                if not v["fields"]:
                    self.write(st, root, path, agg(t["name"], v["name"], (), ()), fr)
                continue
            val = self.rvalue(st, fr, rv, None)
            root, path, tid = self.place(st, fr, pl)
            self.write(st, root, path, val, fr)
        t = blk["t"]
        fr.line = blk["l"]
        k = t[0]
        if k == "goto":
            return [("goto", t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "drop":
            return [("goto", t[2], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            tid = self.op_type(st, fr, t[1])
            return self.switch(fr, st, v, self.p.types[self.p.peel(tid)], t[2], t[3])
        if k == "assert":
            if t[3] in IGNORED_ASSERT:
                return [("goto", t[4], st)]
            c = self.operand(st, fr, t[1])
            out = []
            for s, tv in self.branch(st, c):
                if tv == t[2]:
                    out.append(("goto", t[4], s))
                else:
                    x = None
                    if t[5]:
                        x = tuple([t[5][0]] + [self.operand(s, fr, o) for o in t[5][1:]])
                    self.panic(s, t[3], fr, x)
            return out
        if k == "call":
            res = self.call(fr, st, t)
            out = []
            for s, rvv in res:
                if t[4] is None:
                    continue
                root, path, tid = self.place(s, fr, t[3])
                self.write(s, root, path, rvv, fr)
                out.append(("goto", t[4], s))
            return out
        raise Undecided("terminator %r" % (t,))

    def switch(self, fr, st, v, ty, targets, otherwise):
        out = []
        if ty["k"] == "bool":
            d = {x: b for x, b in targets}
            for s, tv in self.branch(st, v):
                out.append(("goto", d.get(1 if tv else 0, otherwise), s))
            return out
        if v.op == "ite":
            for s, tv in self.branch(st, v.a[0]):
                out += self.switch(fr, s, v.a[1] if tv else v.a[2], ty, targets, otherwise)
            return out
        if ty["k"] == "int":
            bits = ty["bits"]
            targets = [(x - (1 << bits) if x >= (1 << (bits - 1)) and x < (1 << bits) else x, b) for x, b in targets]
        cur = st
        alive = True
        for x, blk in targets:
            c = cmp_eq(v, I(x))
            nxt = None
            for s, tv in self.branch(cur, c):
                if tv:
                    out.append(("goto", blk, s))
                else:
                    nxt = s
            if nxt is None:
                alive = False
                break
            cur = nxt
        if alive and otherwise is not None:
            if not cur.facts.inconsistent():
                out.append(("goto", otherwise, cur))
        return out

    # ------------------------------------------------------------ loops
    def diff(self, a, b, path, out):
        """access paths whose values differ between a and b"""
        if a is b:
            return
        if a is None or b is None:
            out.add(path)
            return
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2] and a.a[2]:
            for n, x, y in zip(a.a[2], a.a[3], b.a[3]):
                self.diff(x, y, path + (n,), out)
            return
        if b.op == "agg" and a.op in ("ini", "fld", "elem", "sym", "as", "mget", "htop") and b.a[0] not in ("std::option::Option", "std::result::Result") and b.a[2] and len(b.a[2]) > 1:
            for n, y in zip(b.a[2], b.a[3]):
                if y.op == "fld" and y.a[0] is a and y.a[1] == n:
                    continue
                out.add(path + (n,))
            self.shapes[a] = b
            return
        out.add(path)

    def loop_key_types(self, fr):
        pass

    def do_loop(self, fr, header, body, st):
        live, addr = fr.fn.live_in()
        lv = live[header]

        def step(s):
            return self.explore(fr, header, s, (header, body))
        # drop locals that are dead at the header
        st = st.copy()
        for k in [k for k in st.mem if k[0] == "L" and k[1] == fr.fid and k[2] not in lv and k[2] not in addr]:
            del st.mem[k]
        line = fr.fn.blocks[header]["l"]
        if self.short_loop(fr, st):
            self.quiet += 1
            try:
                r = self.unrolled(step, st)
            finally:
                self.quiet -= 1
            if r is not None:
                return r if self.quiet else self.unrolled(step, st)
        r = self.loop_core(fr, "%s:bb%d" % (fr.fn.key, header), line, st, step)
        return r

    def short_loop(self, fr, st):
        """an iterator over at most eight elements, of constant bounds"""
        for k, v in st.mem.items():
            if k[0] != "L" or k[1] != fr.fid or v is None or v.op != "agg":
                continue
            if self.short_iter(v):
                return True
        return False

    def short_iter(self, v):
        for x in subterms(v):
            if x.op != "agg":
                continue
            n = x.a[2]
            if "idx" in n and "end" in n:
                lo, hi = x.a[3][n.index("idx")], x.a[3][n.index("end")]
            elif x.a[0].endswith("ops::Range") and len(x.a[3]) == 2:
                lo, hi = x.a[3]
            else:
                continue
            d = sub(hi, lo)
            if d.op == "int" and 0 < d.a[0] <= 8:
                return True
        return False

    def unrolled(self, step, st):
        """the exits of a loop whose every turn is decided, taken turn by turn; None if it is not such a loop"""
        work, out = [st], []
        for _ in range(9):
            nxt = []
            for s in work:
                outs = step(s.copy())
                kinds = {o[0] for o in outs}
                if not kinds <= {"back", "exit"} or len(kinds) > 1 or len(outs) > 4:
                    return None
                for o in outs:
                    if o[0] == "back":
                        nxt.append(o[1])
                    else:
                        out.append((o[1], o[2]))
            work = nxt
            if not work:
                return out
            if len(work) > 8:
                return None
        return None

    def loop_core(self, fr, lid, line, st, step):
        """step(state at header) -> outcomes; returns the exits [(block, st)] of the summarised loop"""
        pre = st
        mods = {}       # root -> set of name paths
        base_roots = set(st.mem)
        self.quiet += 1
        inv = []
        try:
            for it in range(8):
                h, syms = self.havoc(pre, mods, lid, quiet=True)
                changed = False
                f0, ob0 = T_fresh[0], self.nobj
                outs = step(h.copy())
                backs = [o[1] for o in outs if o[0] == "back"]
                for s in backs:
                    for root, v in s.mem.items():
                        if root[0] == "L" and root not in base_roots:
                            continue
                        hv = h.mem.get(root)
                        if hv is None:
                            if root[0] == "L":
                                continue
                            hv = self.root_value(h, root)
                        if hv is v:
                            continue
                        ps = set()
                        self.diff(hv, v, (), ps)
                        for p in ps:
                            if root[0] == "O" and (self.varying(root[1], syms) or self.newer(root[1], f0, ob0)):
                                continue        # an object reached through this iteration's own element
                            if self.addmod(mods, root, p):
                                changed = True
                if not changed:
                    break
            else:
                raise Undecided("loop at %s:%s does not stabilise: %s" % (fr.fn.file, line, {showplace(r, ()): sorted(map(str, q)) for r, q in mods.items()}))
            # inductive bounds
            cands = []
            for (root, p), s in syms.items():
                e = self.read_names(pre, root, p)
                if e is None or rng(s) == (None, None):
                    continue
                cands += [cmp_le(e, s), cmp_le(s, e)]
            for f in list(pre.facts.items):
                m = self.subst_entry(f, pre, syms)
                if m is not None and m is not f:
                    cands.append(m)
            cands += self.iter_cands(pre, h)
            ent0 = {s: self.read_names(pre, r, p) for (r, p), s in syms.items()}
            for o in outs:          # collections only written in place keep their length
                if o[0] == "back":
                    for (root, p), s in syms.items():
                        v = self.read_names(o[1], root, p)
                        for x in (subterms(v) if v is not None and v is not s else ()):
                            if x.op == "store" and s in subterms(x.a[0]):
                                y = self.inst(x.a[0], {k: w for k, w in ent0.items() if w is not None})
                                if y is not None and y is not x.a[0] and not any(z.op == "sym" and z in ent0 for z in subterms(y)):
                                    cands.append(cmp_eq(self.length(x.a[0]), self.length(y)))
            # counters moving in step (or in opposition) keep their difference (sum)
            sig = {}
            for s, e in ent0.items():
                if e is None or rng(s)[0] is None:
                    continue
                ds = []
                for o in outs:
                    if o[0] == "back":
                        v = next((self.read_names(o[1], r, p) for (r, p), q in syms.items() if q is s), None)
                        d = sub(v, s) if v is not None and rng(v) != (None, None) else None
                        ds.append(d.a[0] if d is not None and d.op == "int" else None)
                if ds and None not in ds and any(ds):
                    sig.setdefault(tuple(ds), []).append((s, e))
            for k, g in sig.items():
                for i in range(1, len(g)):
                    cands.append(cmp_eq(sub(g[0][0], g[i][0]), sub(g[0][1], g[i][1])))
                op = sig.get(tuple(-d for d in k))
                if op:
                    cands.append(cmp_eq(add(g[0][0], op[0][0]), add(g[0][1], op[0][1])))
            # a counter moves no further than another
            gs = [(k, s, e) for k, g in sig.items() for s, e in g]
            for k, s, e in gs:
                for k2, s2, e2 in gs:
                    if k != k2 and all(0 <= x <= y for x, y in zip(k, k2)):
                        cands.append(cmp_le(sub(s, e), sub(s2, e2)))
            # what a turn needs of a counter holds, one step weaker, before every turn
            back = [o[1] for o in outs if o[0] == "back"]
            known = set(pre.facts.items) | set(h.facts.items)
            for i, o in enumerate(back):
                for f in o.facts.items:
                    if f in known or f.op != "ge" or f.a[0].op != "lin":
                        continue
                    w = f.a[0]
                    for y, c in f.a[0].a[1]:
                        for k, s, e in gs:
                            if s is y and c * k[i] < 0:
                                w = add(w, I(-c * k[i]))
                    if w is not f.a[0] and any(x in ent0 for x in subterms(w)) and not self.newer(w, f0, ob0):
                        cands.append(ge0(w))
            # a position in a sequence stays inside it
            for o in back:
                for f in o.facts.items:
                    if f in known or f.op != "ge" or f.a[0].op != "lin":
                        continue
                    ns = [y for y, c in f.a[0].a[1] if c == 1 and y.op == "len" and not self.newer(y, f0, ob0)]
                    for y, c in f.a[0].a[1]:
                        if c == -1 and y in ent0 and ent0[y] is not None:
                            cands += [cmp_le(y, z) for z in ns] + [cmp_le(y, add(z, I(f.a[0].a[0]))) for z in ns if f.a[0].a[0] < 0]
            # the same for counters that wrap around
            for s, e in ent0.items():
                if e is None or rng(s)[0] is None:
                    continue
                ds, bits = [], None
                for o in outs:
                    if o[0] == "back":
                        v = next((self.read_names(o[1], r, p) for (r, p), q in syms.items() if q is s), None)
                        d = None
                        if v is not None and v.op == "mod" and v.a[0] in (8, 16, 20, 32, 64):
                            d, bits = sub(v.a[1], s), v.a[0]
                        ds.append(d.a[0] if d is not None and d.op == "int" else None)
                if ds and None not in ds and any(ds):
                    for k, g in sig.items():
                        if k == tuple(ds):
                            cands.append(eq0(mod(bits, sub(sub(s, e), sub(g[0][0], g[0][1])))))
            cands = [c for c in cands if c is not TRUE and c is not FALSE]
            ok = []
            if cands:
                # keep the largest inductive subset (Houdini-style greatest fixpoint)
                cur = list(dict.fromkeys(cands))
                ent = []
                for c in cur:
                    ce = self.inst(c, {s: self.read_names(pre, r, p) for (r, p), s in syms.items()})
                    if ce is TRUE or (ce is not None and pre.facts.prove(ce)):
                        ent.append(c)
                cur = ent
                for rnd in range(4):
                    h2 = St(dict(h.mem), h.facts.plus(*cur), h.trace)
                    outs = step(h2.copy())
                    keep = []
                    for c in cur:
                        good = True
                        for o in outs:
                            if o[0] != "back":
                                continue
                            m = {s: self.read_names(o[1], r, p) for (r, p), s in syms.items()}
                            cb = self.inst(c, m)
                            if cb is None or not o[1].facts.prove(cb):
                                good = False
                                break
                        if good:
                            keep.append(c)
                    if len(keep) == len(cur):
                        break
                    cur = keep
                inv = cur
        finally:
            self.quiet -= 1
        rec = Loop(lid, fr.fn.key, "%s:%s" % (fr.fn.file, line))
        self.nloop += 1
        h = St(dict(h.mem), h.facts.plus(*inv), h.trace)
        rec.pre, rec.mods, rec.syms, rec.hst = pre, mods, syms, h
        rec.entry = {s: self.read_names(pre, r, p) for (r, p), s in syms.items()}
        h.trace = (h.trace, Ev("loop", lid, (), None, "%s:%s (%s)" % (fr.fn.file, line, fr.fn.key), h.facts, dict(h.mem), rec, fr.fn.key))
        exits = []
        for o in step(h.copy()):
            if o[0] == "back":
                rec.backs.append(o[1])
                self.record(Path("back", o[1], loop=rec, header=h, loc=rec.loc))
            elif o[0] == "exit":
                exits.append((o[1], o[2]))
            elif o[0] == "ret":
                raise Undecided("return inside loop body")
        return exits

    def newer(self, t, f0, ob0):
        """t mentions something created during the current iteration"""
        for x in subterms(t):
            if x.op == "sym":
                n = x.a[0].rpartition("#")[2]
                if n.isdigit() and int(n) > f0:
                    return True
            elif x.op == "obj" and x.a[0] > ob0:
                return True
        return False

    def varying(self, t, syms):
        ss = set(syms.values())
        return any(x in ss for x in subterms(t))

    def addmod(self, mods, root, p):
        s = mods.setdefault(root, set())
        for q in s:
            if p[:len(q)] == q:
                return False
        for q in [q for q in s if q[:len(p)] == p]:
            s.discard(q)
        s.add(p)
        return True

    def read_names(self, st, root, names):
        v = st.mem.get(root)
        if v is None:
            if root[0] != "O":
                return None
            v = self.root_value(st, root)
        for n in names:
            if v.op == "agg" and n in v.a[2]:
                v = v.a[3][v.a[2].index(n)]
            elif v.op in ("ini", "fld", "sym", "elem", "as"):
                return None if v.op == "uninit" else self._fld_guess(v, n)
            else:
                return None
        return v

    def _fld_guess(self, v, n):
        # a field of a symbolic value: find the interned term whatever its range annotation
        for r in ((0, 255), (0, (1 << 16) - 1), (0, (1 << 32) - 1), (0, (1 << 64) - 1), None, (-(1 << 63), (1 << 63) - 1)):
            t = T.tab.get(("fld", v, n, r))
            if t is not None:
                return t
        return None

    def havoc(self, st, mods, lid, quiet=False):
        h = st.copy()
        syms = {}
        for root, ps in mods.items():
            for p in sorted(ps, key=str):
                nm = "~%s%s" % (showplace(root, ()), "".join("." + x for x in p))
                old = self.read_names(h, root, p)
                r = None
                hint = nm
                if old is not None:
                    r = self.range_hint(old)
                ty = self.place_tid(root, p)
                if ty is not None and self.p.types[self.p.peel(ty)]["k"] in ("uint", "int"):
                    r = self.rng_of(ty)
                s = fresh(hint, r)
                if old is not None:
                    n = self.length(old)
                    if n.op == "int" and (old in self.arrlen or old.op in ("store", "arr", "rep") and self.is_array(ty)):
                        self.arrlen[s] = n.a[0]
                if p == ():
                    h.mem[root] = s
                else:
                    v = h.mem.get(root)
                    if v is None:
                        v = self.root_value(h, root)
                    h.mem[root] = self.upd_names(v, p, s)
                syms[(root, p)] = s
        return h, syms

    def is_array(self, tid):
        return tid is not None and self.p.types[tid]["k"] == "array"

    def place_tid(self, root, names):
        if root[0] != "L" or root[1] not in self.fid_fn or root[2] < 0:
            return None
        tid = self.fid_fn[root[1]].locals[root[2]]
        for n in names:
            t = self.p.types[self.p.peel(tid)]
            if t["k"] == "tuple":
                tid = t["ts"][int(n)] if n.isdigit() and int(n) < len(t["ts"]) else None
            elif t["k"] == "adt" and len(t.get("variants", ())) == 1:
                tid = next((f[1] for f in t["variants"][0]["fields"] if f[0] == n), None)
            else:
                return None
            if tid is None:
                return None
        return tid

    def range_hint(self, old):
        if old.op in ("sym", "fld", "elem", "app", "f2i"):
            a = old.a
            if old.op == "sym":
                return a[1]
            if old.op in ("fld", "elem", "app"):
                return a[2] if old.op != "app" else a[2]
            return a[0]
        if old.op == "int":
            return self._int_hint
        l, h = rng(old)
        if l is not None and h is not None:
            return (min(0, l), (1 << 64) - 1) if l >= 0 else (-(1 << 63), (1 << 63) - 1)
        if old.op in ("lin", "mod", "len", "mul", "min", "max", "udiv", "urem"):
            return (0, (1 << 64) - 1)
        return None

    _int_hint = (0, (1 << 64) - 1)

    def upd_names(self, v, names, val):
        if not names:
            return val
        if v.op == "agg" and names[0] in v.a[2]:
            i = v.a[2].index(names[0])
            nv = self.upd_names(v.a[3][i], names[1:], val)
            return mk("agg", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (nv,) + v.a[3][i + 1:])
        b = self.shapes.get(v)
        if b is not None and names[0] in b.a[2]:
            vals = []
            for n, y in zip(b.a[2], b.a[3]):
                if y.op == "fld" and y.a[0] is v and y.a[1] == n:
                    vals.append(y)
                else:
                    vals.append(self._fld_guess(v, n) or mk("fld", v, n, None))
            return self.upd_names(mk("agg", b.a[0], b.a[1], b.a[2], tuple(vals)), names, val)
        raise Undecided("loop changes %s inside a symbolic value %s" % (names, show(v)))

    def subst_entry(self, f, pre, syms):
        """f with entry values replaced by the loop symbols (candidate invariant)"""
        m = {}
        for (root, p), s in syms.items():
            e = self.read_names(pre, root, p)
            if e is not None and e.op not in ("int", "bool", "lin", "agg", "flt", "vempty"):
                m[e] = s
        if not m:
            return None
        if not any(e in subterms(f) for e in m):
            return None
        return self.inst(f, m)

    def iter_cands(self, pre, h):
        out = []
        for root, v in h.mem.items():
            if root[0] != "L":
                continue
            self._iter_cands(v, out)
        return out

    def _iter_cands(self, v, out):
        if v.op == "agg":
            if v.a[0] in ("$iter", "$into", "$range", "std::ops::Range", "core::ops::Range") or v.a[0].endswith("ops::Range"):
                d = dict(zip(v.a[2], v.a[3]))
                if "start" in d and "end" in d:
                    out.append(cmp_le(d["start"], d["end"]))
                if "idx" in d and "end" in d:
                    out.append(cmp_le(d["idx"], d["end"]))
            else:
                for x in v.a[3]:
                    self._iter_cands(x, out)

    def inst(self, t, m):
        """substitute terms; None if a substitution is unavailable"""
        cache = {}

        def go(x):
            if x in m:
                return m[x]
            if x in cache:
                return cache[x]
            o = x.op
            if o in ("int", "bool", "sym", "flt"):
                r = x
            elif o == "lin":
                acc = I(x.a[0])
                r = acc
                for y, k in x.a[1]:
                    z = go(y)
                    if z is None:
                        r = None
                        break
                    r = add(r, z, k)
            elif o == "mod":
                z = go(x.a[1])
                r = None if z is None else mod(x.a[0], z)
            elif o in ("ge", "eq", "ne"):
                z = go(x.a[0])
                r = None if z is None else {"ge": ge0, "eq": eq0, "ne": lambda q: bnot(eq0(q))}[o](z)
            elif o in ("and!", "or!"):
                zs = [go(y) for y in x.a]
                r = None if any(z is None for z in zs) else (band if o == "and!" else bor)(*zs)
            elif o == "not!":
                z = go(x.a[0])
                r = None if z is None else bnot(z)
            elif o in ("min", "max"):
                zs = [go(y) for y in x.a]
                r = None if any(z is None for z in zs) else minmax(o, *zs)
            elif o == "mul":
                a, b = go(x.a[0]), go(x.a[1])
                r = None if a is None or b is None else mul(a, b)
            elif o == "len":
                z = go(x.a[0])
                r = None if z is None else self.length(z)
            elif o == "elem":
                a, b = go(x.a[0]), go(x.a[1])
                r = None if a is None or b is None else self.elem(a, b, None, x.a[2])
            elif o == "fld":
                a = go(x.a[0])
                r = None if a is None else self.step_val2(a, x)
            elif o == "bit":
                a, b = go(x.a[0]), go(x.a[1])
                r = None if a is None or b is None else self.bit(a, b)
            elif o == "b2i":
                a = go(x.a[0])
                r = None if a is None else self.b2i(a)
            elif o == "discr":
                z = go(x.a[0])
                if z is not None and z.op == "agg" and z.a[1] in ("None", "Some"):
                    r = I(int(z.a[1] == "Some"))
                else:
                    r = None if z is None else mk(o, z, *x.a[1:])
            elif o == "as":
                z = go(x.a[0])
                r = z if z is None or z.op == "agg" else mk(o, z, *x.a[1:])
            elif o == "ite":
                zs = [go(y) for y in x.a]
                r = None if any(z is None for z in zs) else ite(*zs)
            else:
                na = []
                bad = False
                for y in x.a:
                    if isinstance(y, T):
                        z = go(y)
                        if z is None:
                            bad = True
                            break
                        na.append(z)
                    elif isinstance(y, tuple) and any(isinstance(q, T) for q in y):
                        zz = []
                        for q in y:
                            if isinstance(q, T):
                                z = go(q)
                                if z is None:
                                    bad = True
                                    break
                                zz.append(z)
                            else:
                                zz.append(q)
                        na.append(tuple(zz))
                    else:
                        na.append(y)
                r = None if bad else mk(o, *na)
            cache[x] = r
            return r
        return go(t)

    def step_val2(self, v, x):
        if v.op == "agg" and x.a[1] in v.a[2]:
            return v.a[3][v.a[2].index(x.a[1])]
        if v.op == "ite":
            return ite(v.a[0], self.step_val2(v.a[1], x), self.step_val2(v.a[2], x))
        return mk("fld", v, x.a[1], x.a[2])

    # ------------------------------------------------------------ calls
    def call(self, fr, st, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, o) for o in t[2]]
        dest_tid = self.place_type(fr, t[3])
        if f.op == "fnref":
            fn = self.p.byid[f.a[0]]
            return self.call_fn(fr, st, fn, args, dest_tid, [self.op_type(st, fr, o) for o in t[2]])
        raise Undecided("indirect call at %s" % self.loc(fr))

    def place_type(self, fr, pl):
        tid = fr.fn.locals[pl[0]]
        for e in pl[1]:
            if e[0] == "f":
                tid = e[2]
            elif e[0] == "*":
                tid = self.p.pointee(tid)
        return tid

    def is_boundary(self, fn):
        b = self.bound
        return b(fn) if callable(b) else (fn.key in b)

    def call_fn(self, fr, st, fn, args, dest_tid, arg_tids=None):
        m = self.models.get(fn.key)
        if m is not None:
            r = m(self, fr, st, fn, args, dest_tid)
            if r is not None:
                return r
        if "@cb" in self.traced and "{closure" in fn.key and args:
            v = args[0]
            if v.op == "ref":
                v = self.read(st, *self.deref(v))
            if v.op == "sym":       # a callback parameter of the analysed function
                st = st.copy()
                rest = tuple(args[1:])
                if len(rest) == 1 and rest[0].op == "agg" and rest[0].a[0] in ("", "tuple", "()"):
                    rest = rest[0].a[3]
                ev = self.event(st, "clo", v.a[0], rest, None, fr, {})
                ev.ret = self.newsym("callback", dest_tid)
                return [(st, ev.ret)]
        if fn.local and self.is_boundary(fn):
            return self.opaque_call(fr, st, fn, args, dest_tid, arg_tids)
        if fn.blocks is not None and not self.prefer_model(fn):
            if fn.key in self.traced:
                st = st.copy()
                self.event(st, "enter", fn.key, tuple(args), None, fr, {"tids": arg_tids})
            return self.inline(fr, st, fn, args)
        from . import stdmodel
        r = stdmodel.call(self, fr, st, fn, args, dest_tid, arg_tids)
        if r is not None:
            return r
        if fn.blocks is not None:
            return self.inline(fr, st, fn, args)
        self.unknown[fn.name] = self.unknown.get(fn.name, 0) + 1
        return self.opaque_call(fr, st, fn, args, dest_tid, arg_tids, kind="unk")

    def prefer_model(self, fn):
        if fn.local:
            return False
        from . import stdmodel
        return stdmodel.prefers(fn)

    def opaque_call(self, fr, st, fn, args, dest_tid, arg_tids, kind="call"):
        """record the call; everything reachable through &mut arguments becomes unknown"""
        st = st.copy()
        ev = self.event(st, kind, fn.key, tuple(args), None, fr, {"tids": arg_tids})
        seen = set()
        for i, a in enumerate(args):
            if arg_tids:
                self.havoc_value(st, a, arg_tids[i], "%s~%d" % (fn.key.split("::")[-1], i), fr, seen, True)
        ret = self.newsym(fn.key.split("::")[-1], dest_tid)
        ev.ret = ret
        ev.x["post"] = dict(st.mem)
        return [(st, ret)]

    def havoc_value(self, st, v, tid, hint, fr, seen, top=False):
        """what an opaque callee may leave in a value of type tid it can reach: everything behind
        mutable references becomes unknown; the references and closures themselves stay"""
        t = self.p.types[tid]
        if t["k"] == "ref":
            if not t["mut"] and not top:
                # a shared borrow of a mutable borrow (closure capture) still reaches its target
                pt = self.p.types[t["t"]]
                if not (pt["k"] == "ref" and pt["mut"]):
                    return v
            if not t["mut"] and top:
                return v
            if v.op != "ref":
                return v
            root, path = self.deref(v)
            if (root, path) in seen:
                return v
            seen.add((root, path))
            old = self.read(st, root, path)
            nv = self.havoc_value(st, old, t["t"], hint, fr, seen)
            if nv is not old:
                self.write(st, root, path, nv, fr, quiet=True)
            return v
        if t["k"] == "closure":
            if v.op == "agg":
                ts = self.p.types[t["args"][-1]].get("ts", ())
                for x, xt in zip(v.a[3], ts):
                    self.havoc_value(st, x, xt, hint, fr, seen)
            return v
        if top:
            if t["k"] == "adt" and v.op == "agg" and self.holds_ref(tid):
                self.havoc_value(st, v, tid, hint, fr, seen)
            return v
        if t["k"] == "adt" and v.op == "agg" and self.holds_ref(tid) and len(t.get("variants", ())) == 1:
            vals = []
            for f, x in zip(t["variants"][0]["fields"], v.a[3]):
                vals.append(self.havoc_value(st, x, f[1], hint + "." + f[0], fr, seen))
            return mk("agg", v.a[0], v.a[1], v.a[2], tuple(vals))
        return self.newsym(hint, tid)

    def holds_ref(self, tid):
        if tid in self._href:
            return self._href[tid]
        self._href[tid] = False
        t = self.p.types[tid]
        r = False
        if t["k"] in ("ref", "closure"):
            r = True
        elif t["k"] == "adt":
            r = any(self.holds_ref(f[1]) for v in t.get("variants", ()) for f in v["fields"])
        self._href[tid] = r
        return r

    def inline(self, fr, st, fn, args):
        if fr is not None and fr.depth >= self.max_depth:
            raise Undecided("call depth exceeded in %s" % fn.key)
        f = fr
        n = 0
        while f is not None:
            if f.fn is fn:
                n += 1
            f = f.parent
        if n > 2:
            raise Undecided("recursion in %s" % fn.key)
        self.inlined.add(fn.key)
        self.nfid += 1
        nf = Frame(fn, self.nfid, (fr.depth + 1) if fr else 0, fr)
        self.fid_fn[self.nfid] = fn
        st = st.copy()
        if len(args) != fn.argc:
            # closure call: the argument tuple is passed untupled
            if len(args) == 2 and args[1].op == "agg" and args[1].a[0] == "()" and fn.argc == 1 + len(args[1].a[3]):
                args = [args[0]] + list(args[1].a[3])
            else:
                raise Undecided("argument count of %s" % fn.name)
        elif len(args) == 2 and "{closure" in fn.key and args[1].op == "agg" and args[1].a[0] == "()" and len(args[1].a[3]) == 1:
            ct = self.p.types[fn.locals[2]]
            if ct["k"] != "tuple" or fn.kind == "item":
                args = [args[0], args[1].a[3][0]]
        if "{closure" in fn.key and fn.argc >= 1:
            lt = self.p.types[fn.locals[1]]
            if lt["k"] == "ref" and args[0].op != "ref":
                root = ("L", nf.fid, -1)
                st.mem[root] = args[0]
                args = [ref(root, ())] + list(args[1:])
            elif lt["k"] != "ref" and args[0].op == "ref":
                args = [self.read(st, *self.deref(args[0]))] + list(args[1:])
        for i, a in enumerate(args):
            st.mem[("L", nf.fid, i + 1)] = a
        res = []
        for o in self.explore(nf, 0, st, None):
            if o[0] == "ret":
                s = o[1]
                rv = s.mem.get(("L", nf.fid, 0), UNIT)
                s = s.copy()
                for k in [k for k in s.mem if k[0] == "L" and k[1] == nf.fid]:
                    del s.mem[k]
                res.append((s, rv))
            else:
                raise Undecided("unexpected outcome %s" % o[0])
        return self.merge(res)

    def merge(self, res):
        """join partitions that agree on everything but the branch facts (boolean helper results, no-op branches)"""
        if len(res) < 2:
            return res
        groups = {}
        for s, v in res:
            key = (id(s.trace), v, frozenset(s.mem.items()))
            groups.setdefault(key, []).append(s)
        if len(groups) == len(res):
            return res
        out = []
        for (tr, v, m), ss in groups.items():
            if len(ss) == 1:
                out.append((ss[0], v))
                continue
            common = set(ss[0].facts.items)
            for s in ss[1:]:
                common &= set(s.facts.items)
            base = [f for f in ss[0].facts.items if f in common]
            ds = []
            for s in ss:
                ds.append(band(*[f for f in s.facts.items if f not in common]))
            d = bor(*ds)
            f = Facts(base)
            if d.op == "or!" and len(d.a) <= 40:
                d = simplify_or(d)
            if d.op == "or!" and len(d.a) > 12:
                out += [(s, v) for s in ss]
                continue
            f = f.plus(d)
            out.append((St(dict(ss[0].mem), f, ss[0].trace), v))
        return out

    def callval(self, fr, st, clo, args):
        """call a closure value (by value or reference)"""
        c = clo
        if c.op == "ref":
            c = self.read(st, *self.deref(c))
        if c.op == "agg" and c.a[0].startswith("closure:"):
            t = self.p.types[int(c.a[0].split(":")[1])]
            fn = self.p.byid[t["inst"]]
            return self.inline(fr, st, fn, [clo, tup(*args)])
        if c.op == "fnref":
            fn = self.p.byid[c.a[0]]
            return self.call_fn(fr, st, fn, list(args), fn.locals[0] if fn.locals else None, None)
        raise Undecided("call of an unknown closure %s at %s" % (show(c), self.loc(fr)))

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, facts=(), mem=None, names=None):
        """analyse fn from symbolic arguments; returns the list of Paths"""
        self.recs = []
        st = St(dict(mem or {}), Facts().plus(*facts), None)
        av = []
        for i in range(fn.argc):
            tid = fn.locals[i + 1]
            nm = fn.names.get(i + 1, "arg%d" % (i + 1))
            if names and i < len(names):
                nm = names[i]
            if args and i < len(args) and args[i] is not None:
                av.append(args[i])
                continue
            t = self.p.types[tid]
            if t["k"] == "ref":
                av.append(ref(("O", sym(nm)), ()))
            else:
                av.append(sym(nm, self.rng_of(tid)))
        for s, v in self.inline(None, st, fn, av):
            self.record(Path("return", s, ret=v))
        return self.recs


def simplify_or(d):
    if d.op != "or!":
        return d
    xs = list(d.a)
    ch = True
    while ch:
        ch = False
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                a, b = set(conj(xs[i])), set(conj(xs[j]))
                if a <= b:
                    xs.pop(j)
                    ch = True
                    break
                if b <= a:
                    xs.pop(i)
                    ch = True
                    break
                if len(a) == len(b) and len(a - b) == 1 and len(b - a) == 1:
                    x, y = (a - b).pop(), (b - a).pop()
                    if bnot(x) is y:
                        xs.pop(j)
                        xs[i] = band(*(a & b))
                        ch = True
                        break
                    m = join_atoms(x, y)
                    if m is not None:
                        xs.pop(j)
                        xs[i] = band(m, *(a & b))
                        ch = True
                        break
                # R and x, or R and not x and more  ==  R and x, or R and more
                for k, u, v in ((j, a, b), (i, b, a)):
                    r = u - v
                    if len(r) == 1:
                        n = bnot(next(iter(r)))
                        if n in v:
                            xs[k] = band(*(v - {n}))
                            ch = True
                            break
                if ch:
                    break
            if ch:
                break
    return bor(*xs)


def join_atoms(x, y):
    """x or y as one atom when that is exact"""
    if x.op == "ge" and y.op == "eq":
        x, y = y, x
    if x.op == "eq" and y.op == "ge":
        # l == 0 or l' >= 0 where l' = +-l - 1
        for s in (1, -1):
            l = mulc(x.a[0], s)
            if add(l, I(-1)) is y.a[0]:
                return ge0(l)
    return None
