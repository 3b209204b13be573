"""Segments of an endpoint's entry points (between loop headers) and what happens in them: frames received and sent, events reported,
timers, the connection table and the state of the connection concerned."""
from .rules import *
from .absint import agg

HCN = "half_connection::HalfConnection"
HCM = "new send receive flush step handle_data_frame handle_sync_frame handle_ack_frame is_send_pending rtt_s send_buffer_size".split()
RD = "<frame::Frame as frame::serial::Serialize>::read"
WR = "<frame::Frame as frame::serial::Serialize>::write"
NB = frozenset([HCN + "::" + m for m in HCM] + [RD, WR])
FRAMES = ["HandshakeSynFrame", "HandshakeSynAckFrame", "HandshakeAckFrame", "HandshakeErrorFrame", "DisconnectFrame", "DisconnectAckFrame",
          "DataFrame", "SyncFrame", "AckFrame"]


class Seg:
    """one stretch of execution without (top-level) loop headers inside"""

    def __init__(self, a, st0, st, evs, L, to, p):
        self.a, self.st0, self.st, self.evs, self.L, self.to, self.p = a, st0, st, evs, L, to, p
        self.facts = st.facts
        self.loc = next((e.loc for e in reversed(evs) if e.kind != "loop" and e.loc), None) or (L.loc if L else a.where(p))

    def under(self, *gs):
        """the segment under further assumptions, None if they contradict it"""
        gs = [g for g in gs if g is not TRUE]
        if any(g is FALSE for g in gs):
            return None
        if not gs:
            return self
        fx = self.facts.plus(*gs)
        if fx.inconsistent():
            return None
        return Seg(self.a, self.st0, St(self.st.mem, fx, self.st.trace), self.evs, self.L, self.to, self.p)

    def e0(self, **bind):
        return self.a.at(self.st0, self.facts, **bind)

    def e1(self, **bind):
        return self.a.at(self.st, self.facts, **bind)

    def calls(self, name):
        return [e for e in self.evs if e.kind == "call" and (e.name == name or e.name.endswith("::" + name))]

    def io(self, *names):
        return [e for e in self.evs if e.kind == "io" and e.name in names]


def nested(a):
    """loops that are entered inside the body of another loop"""
    out = set()
    for p in a.backs:
        on = False
        for e in p.events():
            if e.kind == "loop":
                if e.x is p.loop:
                    on = True
                elif on:
                    out.add((id(e.x), id(p.loop)))
    return out


def segments(a):
    if hasattr(a, "_segs"):
        return a._segs
    nest = nested(a)
    inner = {i for i, _ in nest}
    out, seen = [], set()

    def cut(evs, i, j):
        return [e for e in evs[i:j]]

    def inside(L, M):
        return (id(L), id(M)) in nest

    for p in a.paths:
        if p.kind == "panic" or p.facts.inconsistent():
            continue
        evs = list(p.events())
        if p.kind == "back":
            if id(p.loop) in inner:
                continue
            i = max(k for k, e in enumerate(evs) if e.kind == "loop" and e.x is p.loop)
            out.append(Seg(a, p.header, p.st, cut(evs, i + 1, None), p.loop, p.loop, p))
        # chain of top-level loops
        prev, i = None, 0
        for k, e in enumerate(evs):
            if e.kind != "loop":
                continue
            L = e.x
            if prev is not None and (L is prev or inside(L, prev)):
                continue
            key = (id(prev), id(L))
            if key not in seen and not L.pre.facts.inconsistent():
                seen.add(key)
                out.append(Seg(a, prev.hst if prev else a.st0, L.pre, cut(evs, i, k), prev, L, p))
            prev, i = L, k + 1
        if p.kind == "return":
            out.append(Seg(a, prev.hst if prev else a.st0, p.st, cut(evs, i, None), prev, None, p))
    a._segs = out
    a._inner = inner
    return out


def own(e, place):
    """the rules about a collection speak of the standard containers"""
    tid = e.settle(e.term(place)).tid
    t = e.p.types[e.p.peel(tid)] if isinstance(tid, int) else {"k": "?"}
    if t["k"] == "adt" and t["name"].startswith("uflow::"):
        raise Gone("%s is a %s, not a collection" % (place, t["s"]))


def peel(s, place, ops):
    """how the collection at `place` changed in the segment: list of (op, term) in order, or None if it is not its old value
    with these operations applied"""
    e = s.e0()
    own(e, place)
    v0 = e(place)
    v = s.e1()(place)
    out = []
    for _ in range(40):
        if same(v, v0, s.facts):
            return out[::-1]
        if v.op in ops:
            out.append((v.op, v))
            v = v.a[0]
            continue
        if v.op == "cat" or v.op == "ite":
            return None
        # fresh from an opaque call that was handed the collection
        for e in s.evs:
            if e.kind == "call" and e.x and e.x.get("post") is not None:
                w = s.a.at(St(e.x["post"], s.facts, None), s.facts)(place)
                u = s.a.at(St(e.mem, s.facts, None), s.facts)(place)
                if w is v and u is not v:
                    out.append(("call", e))
                    v = u
                    break
        else:
            return None
    return None


def nows(p, upto=None):
    return [e for e in p.events() if e.kind == "io" and e.name == "Instant::now"]


def is_now(s, v, off=0):
    """is v the current time (ms since the endpoint's time base) plus off?"""
    for e in nows(s.p):
        w = s.e0(now=N(e.ret))("m64(millis(tdiff(now, self.time_base)))")
        if same(v, w if not off else add(w, I(off)), s.facts):
            return True
    return False


def now_term(s):
    es = nows(s.p)
    if not es:
        raise Missing("the current time is not read on %s" % s.loc)
    return s.e0(now=N(es[0].ret))("m64(millis(tdiff(now, self.time_base)))")


def argval(s, e, i):
    x = e.args[i]
    if x.op == "ref":
        return s.a.ip.read(St(e.mem, s.facts, None), x.a[0], x.a[1])
    return x


def sends(s):
    """(frame aggregate or None, bytes term, destination or None, event) of each datagram sent in the segment, in order"""
    out = []
    for e in s.io("send_to", "send"):
        by = e.args[1]
        if by.op == "ref":
            by = s.a.ip.read(St(e.mem, s.facts, None), by.a[0], by.a[1])
        fr = None
        for w in s.calls(WR):
            if w.ret is by or same(w.ret, by, s.facts):
                fr = argval(s, w, 0)
        out.append((fr, by, e.args[2] if len(e.args) > 2 else None, e))
    return out


def covers(a, L, seq, kinds=None):
    """loop L visits every element of the sequence term once: the index symbol, or None"""
    n = a.ip.length(seq)
    for s, e in a.counters(L, I(0)):
        ok = True
        for q in a.paths:
            if q.kind == "panic" or q.facts.inconsistent():
                continue
            evs = [e for e in q.events() if e.kind == "loop"]
            if q.kind == "back" and q.loop is L:
                continue
            if any(x.x is L for x in evs):
                # left L: through its condition only
                ok = ok and (q.facts.prove(cmp_le(n, s)))
        if ok:
            return s
    return None
