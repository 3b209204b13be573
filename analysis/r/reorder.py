"""ReorderBuffer: the order in which the sender learns that frames were received or lost.

State: base, and up to two pending ids beyond it.  The buffer reports every id exactly once, in order, from base on;
`true` for a received id, `false` for one that at least three later received ids (or the advanced base) have overtaken.
"""
from ..rules import *
from ..terms import *

RB = "half_connection::reorder_buffer::ReorderBuffer"
TR = frozenset(["@cb"])
BIG = 1 << 31


def d(x, base):
    return mod(32, sub(x, base))


class Machine:
    def __init__(self, c, a, extra, limit):
        """extra: ids that become pending with the call; limit: the id below which unseen ids may be given up (None: none)"""
        self.c, self.a, self.extra, self.limit = c, a, extra, limit
        self.name = a.short()
        self.inner = {}

    def state(self, st, facts):
        e = self.a.at(st, facts)
        return dict(base=e("self.base_id"), n=e("self.frame_count"), f=[e("self.frames[0]"), e("self.frames[1]")])

    def outer(self, L):
        return any(any(str(x).startswith("frame") for x in names) for (_, names) in L.syms)

    def inv(self, s, k, strong):
        out = [cmp_eq(s["n"], I(k))]
        if k == 2:
            out.append(cmp_lt(d(s["f"][0], s["base"]), d(s["f"][1], s["base"])))
        if k and strong:
            out.append(cmp_le(I(1), d(s["f"][0], s["base"])))
        out += [cmp_lt(d(x, s["base"]), I(BIG)) for x in s["f"][:k]]
        return out

    def units(self):
        """(path, start state, events, path's end state, strong start, end is a return)"""
        for p in self.a.returns + self.a.backs:
            st, ev, strong, skip = self.a.st0, [], True, False
            for e in p.events():
                if e.kind == "loop" and self.outer(e.x):
                    if not (p.kind == "back" and e.x is p.loop):
                        yield (p, st, ev, e.x.pre, strong, False)
                    st, ev, strong = e.x.hst, [], False
                else:
                    ev.append(e)
            if p.kind == "back" and not self.outer(p.loop):
                yield (p, st, ev, None, strong, False)
            else:
                yield (p, st, ev, p.st, strong, p.kind == "return")

    def run(self):
        for p, st, ev, end, strong, fin in self.units():
            for k in (0, 1, 2):
                # every id is written as its distance from the base the unit starts with
                s = self.state(st, p.facts)
                base = s["base"]
                m = {}
                vs = [sym("pending%d" % i, (1 if strong else 0, BIG - 1)) for i in range(k)]
                us = [sym("new%d" % i, (0, BIG - 1)) for i in range(len(self.extra))]
                lim = sym("limit", (1 if strong else 0, BIG - 1)) if self.limit is not None else None
                for x, v in list(zip(s["f"], vs)) + list(zip(self.extra, us)) + ([(self.limit, lim)] if lim is not None else []):
                    m[x] = mod(32, add(base, v))
                asm = [cmp_eq(s["n"], I(k))] + ([cmp_lt(vs[0], vs[1])] if k == 2 else []) + [bnot(cmp_eq(x, y)) for x in us for y in vs]
                U = Unit(self, s, k, vs + us, lim, m, asm)
                if U.facts(p.facts) is not None:
                    U.walk(p, ev, end, fin)


class Unit:
    def __init__(self, M, s, k, pend, lim, m, asm):
        self.M, self.s, self.k, self.pend, self.lim, self.m, self.asm = M, s, k, pend, lim, dict(m), list(asm)
        self.base = s["base"]

    def sub(self, t):
        r = self.M.a.ip.inst(t, self.m)
        return self.near(t if r is None else r)

    def near(self, t):
        """an equation between ids is one between their distances"""
        if t.op not in ("eq", "ne"):
            return t
        c0, it = lin_parts(t.a[0])
        diff = None
        if len(it) == 2 and c0 == 0 and it[0][1] == -it[1][1] and abs(it[0][1]) == 1 and all(x is self.base or x.op == "mod" and x.a[0] == 32 for x, _ in it):
            diff = sub(*[x if x is self.base else x.a[1] for x, _ in it])
        elif len(it) == 1 and c0 == 0 and it[0][0].op == "mod" and it[0][0].a[0] == 32:
            diff = it[0][0].a[1]
        if diff is not None:
            g = eq0(mod(32, diff))
            c0, q = lin_parts(g.a[0]) if g.op == "eq" else (None, ())
            x = q[0][0].a[1] if c0 == 0 and len(q) == 1 and q[0][0].op == "mod" else None
            if x is not None:
                lo, hi = rng(x)
                if lo is not None and hi is not None and -(1 << 32) < lo and hi < 1 << 32:
                    g = eq0(x)
            return g if t.op == "eq" else bnot(g)
        return t

    def facts(self, F, more=()):
        f = Facts().plus(*([self.sub(x) for x in F.items] + self.asm + list(more)))
        return None if f.inconsistent() or f.prove(FALSE) else f

    def off(self, ident, F):
        """the distance of an id from the unit's base"""
        return mod(32, sub(self.sub(ident), self.base))

    def loop(self, L, p):
        """the loop that gives up ids one by one: how far it may come"""
        sy = next((x for (r, n), x in L.syms.items() if n and n[-1] == "base_id"), None)
        if sy is None:
            return None, []
        a = self.M.a
        w = sym("given_up#%s" % L.id if hasattr(L, "id") else "given_up", (0, (1 << 32) - 1))
        self.m[sy] = mod(32, add(self.base, w))
        cand = [(v, lambda x, v=v: cmp_le(x, v)) for v in self.pend + ([self.lim] if self.lim is not None else [])]
        F0 = self.facts(L.pre.facts)
        if F0 is None:
            return w, []
        cand = [(v, g) for v, g in cand if F0.prove(g(self.off(L.entry[sy], F0)))]
        while True:
            keep = []
            for v, g in cand:
                ok = True
                for b in a.loop_backs(L):
                    F = self.facts(b.facts, [h(w) for _, h in cand])
                    ok = ok and (F is None or F.prove(g(self.off(a.sval(L, sy, b.st), F))))
                if ok:
                    keep.append((v, g))
            if len(keep) == len(cand):
                if cand:
                    w = sym(w.a[0] + "'", (0, BIG - 1))
                    self.m[sy] = mod(32, add(self.base, w))
                return w, [g(w) for _, g in cand]
            cand = keep

    def walk(self, p, ev, end, fin):
        M, k, pend, lim = self.M, self.k, self.pend, self.lim
        c, a, name = M.c, M.a, M.name
        cur, ntrue = I(0), 0
        inv = []
        for e in ev:
            if e.kind == "loop":
                w, i = self.loop(e.x, p)
                if w is not None:
                    F = self.facts(p.facts, inv)
                    if F is not None:
                        c.check(F.prove(cmp_eq(self.off(e.x.entry[self.symof(e.x)], F), cur)), "%s: ids must be reported one after the other" % name, e.loc, (p, cur))
                    inv += i
                    cur = w
        F = self.facts(p.facts, inv)
        if F is None:
            return
        cur = I(0)
        for e in ev:
            if e.kind == "loop" and self.symof(e.x) is not None:
                cur = self.off(self.symof(e.x), F)
            if e.kind != "clo":
                continue
            if not c.check(len(e.args) == 2, "%s: a report is an id and whether it was received" % name, e.loc, (p,)):
                return
            x, seen = self.off(e.args[0], F), e.args[1]
            c.check(F.prove(cmp_eq(x, cur)), "%s: ids must be reported one after the other, starting at the base" % name, e.loc, (p, x, cur))
            if seen is TRUE or F.prove(self.sub(seen)):
                ntrue += 1
                c.check(any(F.prove(cmp_eq(x, v)) for v in pend), "%s: only a received frame may be reported as received" % name, e.loc, (p, x))
            elif seen is FALSE or F.refute(self.sub(seen)):
                c.check(all(F.prove(bnot(cmp_eq(x, v))) for v in pend), "%s: a received frame must not be reported as lost" % name, e.loc, (p, x))
                if lim is not None:
                    c.check(F.prove(cmp_lt(x, lim)), "%s: only frames before the new base may be given up" % name, e.loc, (p, x))
                else:
                    c.check(k == 2, "%s: a frame may be reported as lost only after three later frames were received" % name, e.loc, (p, x))
            else:
                c.check(False, "%s: whether the frame was received must be known" % name, e.loc, (p, seen))
            cur = mod(32, add(x, I(1)))
        if end is None:        # a turn of the loop that gives up ids
            sy = self.symof(p.loop)
            if sy is not None:
                c.check(F.prove(cmp_eq(self.off(a.sval(p.loop, sy, p.st), F), cur)), "%s: the base must follow the reports" % name, a.where(p), (p,))
            return
        t = M.state(end, p.facts)
        b1 = self.off(t["base"], F)
        left = k + len(M.extra) - ntrue
        c.check(F.prove(cmp_eq(b1, cur)), "%s: the base must follow the reports" % name, a.where(p), (p, b1, cur))
        c.check(F.prove(cmp_eq(self.sub(t["n"]), I(left))), "%s: a frame must stay pending until it is reported, and no longer" % name, a.where(p), (p, t["n"], I(left)))
        if not c.check(0 <= left <= 2, "%s: at most two frames stay pending" % name, a.where(p), (p,)):
            return
        fs = [self.off(f, F) for f in t["f"][:left]]
        for f in fs:
            c.check(any(F.prove(cmp_eq(f, v)) for v in pend), "%s: a pending frame must be one that was received" % name, a.where(p), (p, f))
            c.check(F.prove((cmp_lt if fin else cmp_le)(cur, f)), "%s: a received frame at the base must be reported, one behind it must not stay pending" % name, a.where(p), (p, f, cur))
        if left == 2:
            c.check(F.prove(cmp_lt(fs[0], fs[1])), "%s: pending frames must be kept in order" % name, a.where(p), (p,))
        if lim is not None:
            if fin:
                c.check(F.prove(cmp_le(lim, cur)), "%s: every id before the new base must be reported" % name, a.where(p), (p, cur))
            else:
                c.check(F.prove(cmp_le(cur, lim)), "%s: ids beyond the new base must not be given up" % name, a.where(p), (p, cur))
        c.check(same(a.at(end, p.facts)("self.max_span"), a.env0("self.max_span"), p.facts), "%s: the span must stay" % name, a.where(p))

    def symof(self, L):
        return next((x for (r, n), x in L.syms.items() if n and n[-1] == "base_id"), None)


@rule("reorder.put", "C14", "reorder buffer: every frame id is reported once, in order; received frames as received, others as lost only after three later frames have been received")
def _(c):
    a = c.fn(RB + "::put", ["self", "id", "callback"], traced=TR)
    Machine(c, a, [a.env0("id")], None).run()
    b = c.fn(RB + "::can_put", ["self", "id"])
    b.cases(ret="m32(id - self.base_id) < self.max_span", frame=b.fields())


@rule("reorder.advance", "C14", "reorder buffer: advancing the base reports every id before the new base once, in order, received frames as received and the others as lost")
def _(c):
    a = c.fn(RB + "::advance", ["self", "nb", "callback"], traced=TR)
    Machine(c, a, [], a.env0("nb")).run()
    b = c.fn(RB + "::can_advance", ["self", "nb"])
    b.cases(ret="m32(nb - self.base_id) >= 1 and m32(nb - self.base_id) <= self.max_span", frame=b.fields())
    n = c.fn(RB + "::new", ["base", "span"])
    n.cases(holds=["ret.base_id == base", "ret.frame_count == 0", "ret.max_span == span"])
