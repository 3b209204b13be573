"""FrameAckQueue: the receiving window of frames and the acknowledgement groups."""
from ..rules import *

FAQ = "half_connection::frame_ack_queue::FrameAckQueue"
W = "self.receive_window"
IN = "m32(frame_id - %s.base_id) < %s.size" % (W, W)


@rule("faq.new", "C06 C15 C11 C01", "a fresh acknowledgement queue is empty, its window has the given size and starts at the initial frame id")
def _(c):
    a = c.fn(FAQ + "::new", ["size", "base_id"])
    a.cases(holds=["len(ret.entries) == 0", "ret.receive_window.base_id == base_id", "ret.receive_window.size == size"])
    a = c.fn(FAQ + "::base_id", ["self"])
    a.cases(ret=W + ".base_id", frame=a.fields())
    a = c.fn(FAQ + "::window_contains", ["self", "frame_id"])
    a.cases(ret=IN, frame=a.fields())


@rule("faq.resync", "C11 C03 C06 C15 C01", "a resynchronisation moves the frame window only forward, by at most its size, and leaves the acknowledgements alone")
def _(c):
    a = c.fn(FAQ + "::resynchronize", ["self", "sender_next_id"])
    ok = "(m32(sender_next_id - {0}.base_id) != 0 and m32(sender_next_id - {0}.base_id) <= {0}.size)".format(W)
    a.cases(ok, final={W + ".base_id": "sender_next_id"}, frame=["self.entries", W + ".size"])
    a.cases("not " + ok, frame=a.fields())


@rule("faq.mark", "C15 C01 C06 C11 C02 C03", "a frame is recorded only if it lies in the window, which then moves past it (every frame is recorded at most once); its bit and nonce enter the last group if it lies "
      "within 32 ids of it, otherwise a new group; the number of groups stays within the window size, the oldest being forgotten")
def _(c):
    a = c.fn(FAQ + "::mark_seen", ["self", "frame_id", "nonce"])
    a.cases("not (%s)" % IN, frame=a.fields())
    n = [0, 0, 0]
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        if p.facts.refute(e(IN)):
            continue
        fx = p.facts.plus(e("{0}.size >= 1 and {0}.size <= 2147483648 and tri32(frame_id + 1, frame_id, {0}.base_id)".format(W)), e(IN))
        if fx.inconsistent():
            continue
        e, f = a.at(a.st0, fx), a.at(p.st, fx)
        c.check(same(f(W + ".base_id"), e("m32(frame_id + 1)"), fx.plus(e("%s.size >= 1 and %s.size <= 2147483648" % (W, W)))), "mark_seen: the window must move past the recorded frame", a.where(p), (p, f(W + ".base_id")))
        c.check(same(f(W + ".size"), e(W + ".size"), fx), "mark_seen: the window size must stay", a.where(p), (p,))
        L = e("len(self.entries)")
        last = e.term("self.entries[len(self.entries) - 1]")
        e, f = e.bind(last=last, L=N(L)), f.bind(last=last, L=N(L))
        near = e("len(self.entries) != 0 and m32(frame_id - last.base_id) < 32")
        q = f("self.entries")
        if fx.prove(near):
            n[0] += 1
            j = "self.entries[L - 1]"
            bit = e("m32(frame_id - last.base_id)")
            e, f = e.bind(k=N(bit), b=N(sym("any_b", (0, 31)))), f.bind(k=N(bit), b=N(sym("any_b", (0, 31))))
            c.check(same(f("len(self.entries)"), L, fx), "mark_seen: a frame near the last group must not add a group", a.where(p), (p,))
            c.check(same(f(j + ".base_id"), e("last.base_id"), fx), "mark_seen: the base of the last group must stay", a.where(p), (p,))
            c.check(same(f("bit(%s.bitfield, b)" % j), e("True if b == k else bit(last.bitfield, b)"), fx), "mark_seen: exactly the frame's bit must be set in the last group", a.where(p), (p, f(j + ".bitfield")))
            c.check(same(f(j + ".nonce"), a.ip.bxor(e("last.nonce"), band(e("nonce"), bnot(e("bit(last.bitfield, k)")))), fx), "mark_seen: the frame's nonce must enter the group's parity once", a.where(p), (p, f(j + ".nonce")))
            z = q
            while z.op == "store" and same(z.a[1], e("L - 1"), fx):
                z = z.a[0]
            c.check(z is e("self.entries"), "mark_seen: earlier groups must stay", a.where(p), (p, q))
            continue
        if not c.check(fx.refute(near), "mark_seen: whether the frame is near the last group must be decided", a.where(p), (p, near)):
            continue
        if not c.check(q.op == "pushb", "mark_seen: a frame far from the last group must start a new one", a.where(p), (p, q)):
            continue
        n[1] += 1
        x = f.bind(g=N(q.a[1], f.elem_tid(f.term("self.entries").tid)))
        c.check(same(x("g.base_id"), e("frame_id"), fx) and same(x("g.bitfield"), I(1), fx) and same(x("g.nonce"), e("nonce"), fx), "mark_seen: a new group must stand for exactly this frame and its nonce", a.where(p), (p, q.a[1]))
        r = q.a[0]
        if r is e("self.entries"):
            c.check(fx.prove(e("len(self.entries) < %s.size" % W)) or fx.prove(e("len(self.entries) == 0")), "mark_seen: the number of groups must stay bounded by the window size", a.where(p), (p,))
        else:
            n[2] += 1
            c.check(r.op in ("popf", "popn") and r.a[0] is e("self.entries"), "mark_seen: only the oldest groups may be forgotten", a.where(p), (p, q))
            c.check(fx.prove(e("len(self.entries) >= %s.size" % W)), "mark_seen: a group may be forgotten only when the queue is full", a.where(p), (p,))
    c.check(n[0] > 0 and n[1] > 0, "mark_seen records no frame")


@rule("faq.pop", "C15 C11 C02 C20 C01", "pop takes and peek shows the oldest acknowledgement group, unchanged")
def _(c):
    a = c.fn(FAQ + "::pop", ["self"])
    a.cases("len(self.entries) == 0", ret="None_", frame=a.fields())
    a.cases("len(self.entries) != 0", final={"self.entries": "popf(self.entries)"}, frame=a.fields("self", "entries"),
            holds=["is_some(ret)", "eqv(ret.Some, old(self.entries[0]))"])
    a = c.fn(FAQ + "::peek", ["self"])
    a.cases("len(self.entries) == 0", holds=["is_none(ret)"], frame=a.fields())
    a.cases("len(self.entries) != 0", holds=["is_some(ret)", "eqv(ret.Some, old(self.entries[0]))"], frame=a.fields())
