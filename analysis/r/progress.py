"""Progress: every loop has a measure - a natural number over the loop's state - that gets smaller with every iteration.

The measures are found, not given: the conditions under which an iteration is entered (index below a bound, queue not empty, id not yet equal to the
goal) name the candidates; a lexicographic combination must get smaller on every path through the loop body.  Loops that end for another reason
(events and retransmissions that become due, datagrams waiting in the socket) have their own rules below."""
import re
from ..rules import *
from ..terms import *
from ..spec import Missing


def stamp(t):
    n = 0
    for x in subterms(t):
        if x.op in ("sym", "app"):
            m = re.search(r"#(\d+)$", str(x.a[0]))
            if m:
                n = max(n, int(m.group(1)))
    return n


def usable(m, L, top):
    return any(s in subterms(m) for s in L.syms.values()) and stamp(m) <= top


def measures(a, L):
    """candidate measures of a loop: what the conditions of an iteration compare"""
    top = max([stamp(s) for s in L.syms.values()] or [0])
    out = []
    for q in a.loop_backs(L):
        for f in q.facts.items:
            for g in conj(f):
                if g.op == "ge":
                    ms = [g.a[0]]
                elif g.op == "ne":
                    n = mulc(g.a[0], -1)
                    ms = [g.a[0], n, mod(20, g.a[0]), mod(20, n), mod(32, g.a[0]), mod(32, n)]
                else:
                    ms = []
                out += [m for m in ms if m not in out and usable(m, L, top)]
    for s in L.syms.values():
        if L.entry.get(s) in (TRUE, FALSE):
            out += [("flag", s, TRUE), ("flag", s, FALSE)]
    return out


def after(a, L, m, q):
    vs = {}
    for s in L.syms.values():
        if s in subterms(m):
            v = a.sval(L, s, q.st)
            if v is None:
                return None
            vs[s] = v
    return a.ip.inst(m, vs)


def moves(a, L, m, q, fx):
    """-1: m gets smaller on the back path q; 0: it does not get larger; 1: it may"""
    if type(m) is tuple:                        # a flag that is raised (lowered) once
        _, s, v = m
        w = a.sval(L, s, q.st)
        if w is None:
            return 1
        up = w if v is TRUE else bnot(w)
        was = s if v is TRUE else bnot(s)
        if fx.prove(bnot(was)) and fx.prove(up):
            return -1
        return 0 if fx.prove(up) or same(w, s, fx) else 1
    m2 = after(a, L, m, q)
    if m2 is None:
        return 1
    if fx.prove(cmp_lt(m2, m)) and fx.prove(cmp_le(I(0), m)):
        return -1
    if m.op == "mod" and m2.op == "mod":        # distance between two ids: one step closer, and not yet there
        b, x = m.a[0], m.a[1]
        if mod(b, sub(m2.a[1], x)) is I((1 << b) - 1):
            # the difference as the condition of the iteration states it
            diffs = [x] + [y for f in fx.items for g in conj(f) if g.op == "ne" for y in (g.a[0], mulc(g.a[0], -1)) if mod(b, y) is m]
            if any(fx.prove(bnot(cmp_eq(y, I(0)))) and fx.prove(cmp_lt(y, I(1 << b))) and fx.prove(cmp_lt(I(-(1 << b)), y)) for y in diffs):
                return -1
    return 0 if fx.prove(cmp_le(m2, m)) else 1


def ranked(a, L, hyp=(), left=None, extra=()):
    """tries to find a lexicographic measure for the back paths of L; returns the paths that are not covered"""
    left = list(a.loop_backs(L) if left is None else left)
    fx = {q: q.facts.plus(*hyp) for q in left}
    left = [q for q in left if not fx[q].inconsistent()]
    ms = list(extra) + measures(a, L)
    while left and ms:
        pick = None
        for m in ms:
            down = []
            for q in left:
                d = moves(a, L, m, q, fx[q])
                if d < 0:
                    down.append(q)
                elif d > 0:
                    break
            else:
                if down:
                    pick = (m, down)
                    break
        if pick is None:
            break
        left = [q for q in left if q not in pick[1]]
        ms.remove(pick[0])
    return left


def ids(a, hyp, bits=20):
    """hyp extended by what the loops keep: ids that are valid (below 2^20) when a loop starts and after every iteration"""
    hyp = list(hyp)
    for L in a.loops():
        live = []
        for s in L.syms.values():
            e = L.entry.get(s)
            if e is not None and e.op in ("sym", "fld", "elem", "lin", "mod", "int", "app") and rng(s)[1] is not None and L.pre.facts.plus(*hyp).prove(cmp_lt(e, I(1 << bits))):
                live.append(s)
        while live:
            h = hyp + [cmp_lt(s, I(1 << bits)) for s in live]
            bad = [s for s in live for v in [[a.sval(L, s, q.st) for q in a.loop_backs(L)]] if any(x is None for x in v) or
                   not all(q.facts.plus(*h).prove(cmp_lt(x, I(1 << bits))) for q, x in zip(a.loop_backs(L), v))]
            if not bad:
                hyp = h
                break
            live = [s for s in live if s not in bad]
    return hyp


def loopname(a, L):
    for q in a.paths:
        for e in q.events():
            if e.kind == "loop" and e.x is L:
                return e.name
    return "?"


def terminates(c, a, hyp=(), special=(), props=("C03",)):
    """every loop of the analysed function makes progress with every iteration.  special(a, L, q): does the back path q of L make progress in a way that
    nothing else in the loop undoes (a datagram taken from the socket, a packet taken from the send queue, ...)?"""
    hyp = ids(a, hyp)
    n = 0
    for L in a.loops():
        nm = loopname(a, L)
        if not re.search(r":bb\d+$", nm):
            continue                        # an iterator adaptor (sum, count, any, ...) over a container or range of finite length
        left = [q for q in a.loop_backs(L) if not q.facts.plus(*hyp).inconsistent()]
        n += 1
        rest = [q for q in left if not any(f(a, L, q, left) for f in special)]
        bad = ranked(a, L, hyp, rest)
        for q in bad:
            c.check(False, "%s: an iteration of this loop need not bring it closer to its end" % a.short(), L.loc, (q,), props=list(props))
        c.check(True, "%s: loop %s terminates" % (a.short(), nm))
    return n


def received(a, L, q, all_):
    """the iteration took a datagram out of the socket"""
    return any(e.kind == "io" and e.name in ("recv", "recv_from") and q.facts.prove(cmp_eq(mk("discr", e.ret, 2), I(0))) for e in a.seg(q))


def due(a, L, q, all_):
    """the iteration took a due entry off a heap, and what it queued there is not due: fewer due entries remain"""
    top = max([stamp(s) for s in L.syms.values()] or [0])
    for h in L.syms.values():
        v = a.sval(L, h, q.st)
        if v is None or h not in subterms(v) or v is h:
            continue
        new = pushed(v, h)
        if new is None or mk("hpop", h) not in chain(v):
            continue
        for g in q.facts.items:
            for x in subterms(g):
                if g.op == "ge" and x.op == "fld" and x.a[0] is mk("htop", h):
                    now = add(g.a[0], x)            # x <= now
                    if stamp(now) > top or any(s in subterms(now) for s in L.syms.values()):
                        continue
                    if all(later(a, y, x.a[1], now, q.facts) for y in new) and \
                       all(pushed(a.sval(L, h, o.st), h) is not None and all(later(a, y, x.a[1], now, o.facts) for y in pushed(a.sval(L, h, o.st), h)) for o in all_):
                        return True
    return False


def chain(v):
    out = [v]
    while v.op in ("hpush", "hpop"):
        v = v.a[0]
        out.append(v)
    return out


def pushed(v, h):
    """what was pushed on the way from heap h to heap v; None if v is not derived from h by pushes and pops"""
    out = []
    while v is not h:
        if v.op == "hpush":
            out.append(v.a[1])
        elif v.op != "hpop":
            return None
        v = v.a[0]
    return out


def later(a, y, name, now, facts):
    t = dict(zip(y.a[2], y.a[3])).get(name) if y.op == "agg" else None
    return t is not None and facts.prove(cmp_lt(now, t))


def called(names, ok):
    """the iteration called one of these functions with this outcome"""
    def f(a, L, q, all_):
        return any(e.kind == "call" and e.name in names and ok(a, e, q) for e in a.seg(q))
    return f


@rule("loops.codec", "C03 C16", "encoding, decoding and the checksum terminate: every loop runs over a container or range of finite length")
def _(c):
    from . import codec as m
    n = 0
    for a in (c.fn(m.FR + "read", ["bytes"], m.BC), c.fn(m.FR + "write", ["self"], m.BW), c.fn(m.CRC, ["data"])):
        n += terminates(c, a)
    c.check(n >= 1, "no loop found in the codec")


@rule("loops.hc", "C03 C02 C11", "a flush, a step and the processing of a frame terminate: each iteration removes a queue entry, transmits a fragment into the limited frame window, or takes a packet off the send queue")
def _(c):
    from . import hc as m
    a = m.emf(c)
    ok = lambda a, e, q: q.facts.prove(m.isok(e.ret))
    some = lambda a, e, q: q.facts.prove(cmp_eq(mk("discr", e.ret, 2), I(1)))
    acks = lambda a, e, q: True
    terminates(c, a, [], [due, called([m.PUSH], ok), called([m.EP], some), called(["half_connection::frame_ack_queue::FrameAckQueue::pop"], popped)], props="C03 C02 C11".split())
    for f, args in (("handle_data_frame", ["self", "frame"]), ("handle_sync_frame", ["self", "frame"]), ("handle_ack_frame", ["self", "frame"]), ("step", ["self"])):
        terminates(c, c.fn(m.HC + "::" + f, args, m.HB), props="C03 C02 C11".split())


def popped(a, e, q):
    x = a.at(St(dict(e.mem), e.facts, None), e.facts)
    try:
        return e.args[0].op == "ref" and q.facts.prove(x("len(self.frame_ack_queue.entries) >= 1"))
    except Missing:
        return False


@rule("loops.server", "C03", "Server::step and flush terminate: each iteration takes a datagram from the socket, a due timer event from the queue, or goes on to the next client")
def _(c):
    from . import server as m
    odd = m.parts(c).odd
    if odd:
        raise odd
    n = terminates(c, m.step(c), [], [received, due])
    terminates(c, c.fn(m.S + "::flush", ["self"], m.NB))
    c.check(n >= 2, "Server::step has no loops")


@rule("loops.client", "C03", "Client::step and flush terminate: each iteration takes a datagram from the socket or goes on to the next packet")
def _(c):
    from . import client as m
    n = terminates(c, m.step(c), [], [received])
    terminates(c, c.fn(m.C + "::flush", ["self"], m.NB))
    c.check(n >= 1, "Client::step has no loops")
