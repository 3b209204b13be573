"""PacketSender / PendingPacket: send queue, transfer window, byte accounting, fragmentation."""
from ..rules import *

PS = "half_connection::packet_sender::PacketSender"
PP = "half_connection::pending_packet::PendingPacket"
LET = {"q0": "self.packet_send_queue[0]"}
ASZ = "((len(q0.data) + 1447) // 1448 * 1448 if len(q0.data) > 1448 else len(q0.data))"


def pushed(old, new):
    """elements appended to `old` to obtain `new`, or None"""
    out = []
    while new is not old:
        if new.op != "pushb":
            return None
        out.append(new.a[1])
        new = new.a[0]
    return list(reversed(out))


def only_at(w, v, i, facts):
    """the sequence w (or each of the parallel sequences it is kept in) is v, changed at index i at most"""
    if w.op == "agg" and w.a[0] == "moved":
        return all(only_at(x, y, i, facts) for x, y in zip(w.a[3], v.a[3]))
    return w is v or w.op == "store" and w.a[0] is v and same(w.a[1], i, facts)


@rule("sender.new", "C02 C06 C20 C05", "a fresh sender has an empty queue and window, both ids at the base id, no bytes accounted, and the peer's "
      "allocation limit rounded up to whole fragments")
def _(c):
    a = c.fn(PS + "::new", ["window_size", "base_id", "max_alloc"])
    a.cases("max_alloc <= 4294967295", holds=[
        "ret.base_id == base_id", "ret.next_id == base_id", "ret.alloc == 0", "ret.total_size == 0", "len(ret.packet_send_queue) == 0",
        "ret.window_size == window_size", "ret.window_mask == window_size - 1", "is_none(ret.window_parent_id)",
        "ret.max_alloc == (max_alloc + 1447) // 1448 * 1448"])


@rule("sender.enqueue", "C20 C05 C12 C01 C02", "enqueue_packet appends exactly the given packet (data, channel, mode, flush id) to the tail of the send "
      "queue and adds its length to total_size")
def _(c):
    a = c.fn(PS + "::enqueue_packet", ["self", "data", "channel_id", "mode", "flush_id"])
    a.cases(final={"self.total_size": "self.total_size + len(data)"}, frame=a.fields("self", "total_size", "packet_send_queue"))
    for p in a.returns:
        e0, e1 = a.env0, a.env(p.st)
        xs = pushed(e0("self.packet_send_queue"), e1("self.packet_send_queue"))
        if c.check(xs is not None and len(xs) == 1, "enqueue_packet must append exactly one packet at the tail of the send queue", a.where(p)):
            n = N(xs[0], e1.elem_tid(e1.term("self.packet_send_queue").tid))
            e1 = e1.bind(x=n)
            for f, v in (("data", "data"), ("channel_id", "channel_id"), ("mode", "mode"), ("flush_id", "flush_id")):
                c.check(same(e1("x." + f), e0(v), p.facts), "enqueue_packet must queue the packet with the given %s" % f, a.where(p))


@rule("sender.stale", "C12 C20 C05", "emit_packet drops queued packets only from the head and only if TimeSensitive with another flush id, subtracts exactly "
      "their size, and never emits such a stale packet")
def _(c):
    a = c.fn(PS + "::emit_packet", ["self", "flush_id"])
    stale = "(isv(q0.mode, 'TimeSensitive') and q0.flush_id != flush_id)"
    for p in a.backs:
        b = p.header
        eb = Env(a.ip, St(b.mem, p.facts, None), a.env0.names, a.st0)
        ef = a.env(p.st)
        if same(ef("self.packet_send_queue"), eb("self.packet_send_queue"), p.facts):
            a.cases(paths=[p], kinds=("back",), frame=a.fields("self"))
            continue
        eb = eb.bind(q0=eb.term("self.packet_send_queue[0]"))
        c.check(p.facts.prove(eb("len(self.packet_send_queue) > 0 and " + stale)),
                "emit_packet: a queued packet is discarded only if it is TimeSensitive and was submitted before the last step", a.where(p), (p,))
        a.cases(paths=[p], kinds=("back",), let=LET, final={"self.packet_send_queue": "popf(self.packet_send_queue)",
                "self.total_size": "self.total_size - len(q0.data)"}, frame=a.fields("self", "packet_send_queue", "total_size"))
    # nothing else is lost on the way from the queue to the window, and no stale packet goes out
    a.cases("len(self.packet_send_queue) > 0", let=LET, holds=["implies(is_some(ret), not (isv(old(q0.mode), 'TimeSensitive') and old(q0.flush_id) != flush_id))"])
    a.cases("len(self.packet_send_queue) > 0 and " + stale, let=LET, ret="None_", need=False)
    # not before every stale packet at the head is gone
    a.cases(kinds=("return",), holds=["implies(is_none(ret) and len(self.packet_send_queue) > 0, not (isv(self.packet_send_queue[0].mode, 'TimeSensitive') "
                                      "and self.packet_send_queue[0].flush_id != flush_id))"])


@rule("sender.window", "C06 C02 C05 C11 C03", "emit_packet assigns an id only while fewer than window_size ids are outstanding and the packet's fragment-rounded "
      "size fits the peer's remaining allocation; otherwise it leaves everything in place; it never refuses when both fit")
def _(c):
    a = c.fn(PS + "::emit_packet", ["self", "flush_id"])
    fits = "(m20(self.next_id - self.base_id) < self.window_size and self.alloc + %s <= self.max_alloc)" % ASZ
    a.cases("len(self.packet_send_queue) == 0", ret="None_", frame=a.fields("self"))
    a.cases("len(self.packet_send_queue) > 0 and not " + fits, let=LET, ret="None_", frame=a.fields("self"))
    a.cases("len(self.packet_send_queue) > 0 and " + fits, let=LET, holds=["is_some(ret)"])
    a.cases("len(self.packet_send_queue) > 0 and " + fits, let=LET,
            final={"self.next_id": "m20(self.next_id + 1)", "self.alloc": "self.alloc + " + ASZ, "self.packet_send_queue": "popf(self.packet_send_queue)"},
            frame=["self.base_id", "self.total_size", "self.window_size", "self.window_mask", "self.max_alloc"])


@rule("sender.entry", "C06 C20 C02 C01", "the window slot of the assigned id stores the packet with the very allocation size that was added and its channel")
def _(c):
    a = c.fn(PS + "::emit_packet", ["self", "flush_id"])
    for p in a.returns:
        b = a.base(p)
        eb = Env(a.ip, St(b.mem, p.facts, None), a.env0.names, a.st0)
        ef = a.env(p.st, b).bind(ret=a.retn(p), q0=eb.term("self.packet_send_queue[0]"), id=eb.term("self.next_id"))
        if p.facts.prove(ef("is_none(ret)")):
            continue
        ef.st = St(p.st.mem, p.facts, None)
        for h in ("is_some(self.window[id & self.window_mask])",
                  "self.window[id & self.window_mask].Some.alloc_size == self.alloc - old(self.alloc)",
                  "self.window[id & self.window_mask].Some.channel_id == q0.channel_id",
                  "eq(raw(self.window[id & self.window_mask].Some.packet), raw(ret.Some._0))"):
            c.check(p.facts.prove(ef(h)), "emit_packet: on success it must hold that %s" % h, a.where(p), (p,))
        # the rest of the window is untouched
        w = ef("self.window")
        ok = w.op == "store" and w.a[0] is eb("self.window") and same(w.a[1], eb("self.next_id & self.window_mask"), p.facts)
        c.check(ok, "emit_packet: only the slot of the assigned id may change", a.where(p), (p, w))


@rule("sender.packet", "C01 C02 C05 C04 C12", "the emitted packet carries the queued data and channel, the assigned id, and as parent leads the distances to the "
      "latest unacknowledged Reliable packet overall and on the channel (0 if none)")
def _(c):
    a = c.fn(PS + "::emit_packet", ["self", "flush_id"])
    n = 0
    for p in a.returns:
        b = a.base(p)
        eb = Env(a.ip, St(b.mem, p.facts, None), a.env0.names, a.st0)
        eb = eb.bind(q0=eb.term("self.packet_send_queue[0]"), id=eb.term("self.next_id"))
        ef = Env(a.ip, St(p.st.mem, p.facts, None), dict(eb.names, ret=a.retn(p)), b)
        if p.facts.prove(ef("is_none(ret)")):
            continue
        n += 1
        ef = ef.bind(pk=ef.term("ret.Some._0"))
        fx = p.facts.plus(eb("len(q0.data) <= 94896128"))        # no packet larger than max_packet_size is accepted: client.send, remote.send
        ch = "self.channels[q0.channel_id].parent_id"
        for f, w in (("data", "raw(q0.data)"), ("channel_id", "q0.channel_id"), ("sequence_id", "id"),
                     ("window_parent_lead", "m20(id - self.window_parent_id.Some) if is_some(self.window_parent_id) else 0"),
                     ("channel_parent_lead", "m20(id - %s.Some) if is_some(%s) else 0" % (ch, ch)),
                     ("last_fragment_id", "0 if len(q0.data) == 0 else (len(q0.data) + 1447) // 1448 - 1")):
            # leads fit in 16 bits: the window is at most 4096 packets (safe.sender)
            c.check(same(ef("pk." + f), eb(w), fx) or "_lead" in f and same(ef("pk." + f), eb(w.replace("m20(", "m16(")), p.facts), "emit_packet: the packet's %s must be %s" % (f, w), a.where(p), (p, ef("pk." + f), eb(w)))
        rel = "isv(q0.mode, 'Reliable')"
        for pl in ("self.window_parent_id", ch):
            want = eb("Some(id) if %s else %s" % (rel, pl))
            e2 = Env(a.ip, St(p.st.mem, p.facts, None), eb.names, b)
            c.check(same(e2(pl), want, p.facts), "emit_packet: %s must be the id of the packet exactly when it is Reliable" % pl, a.where(p), (p, e2(pl), want))
        # every other channel keeps its parent
        w = ef("self.channels")
        c.check(only_at(w, eb("self.channels"), eb("q0.channel_id"), p.facts),
                "emit_packet: only the packet's own channel may change", a.where(p), (p, w))
    c.check(n > 0, "emit_packet: no path emits a packet")


@rule("sender.resend_flag", "C12 C02 C05", "emit_packet asks for retransmission exactly for Persistent and Reliable packets")
def _(c):
    a = c.fn(PS + "::emit_packet", ["self", "flush_id"])
    for m, w in (("TimeSensitive", "not ret.Some._1"), ("Unreliable", "not ret.Some._1"), ("Persistent", "ret.Some._1"), ("Reliable", "ret.Some._1")):
        n = 0
        for p in a.returns:
            b = a.base(p)
            eb = Env(a.ip, St(b.mem, p.facts, None), a.env0.names, a.st0)
            ef = Env(a.ip, St(p.st.mem, p.facts, None), dict(a.env0.names, ret=a.retn(p)), b)
            f = p.facts.plus(ef("is_some(ret)"), eb("isv(self.packet_send_queue[0].mode, '%s')" % m))
            if f.inconsistent():
                continue
            n += 1
            c.check(f.prove(ef(w)), "emit_packet: for a %s packet it must hold that %s" % (m, w), a.where(p), (p,))
        c.check(n > 0, "emit_packet: no path emits a %s packet" % m)


def sweep(a, entry, expect_loops=1):
    """loops with an index term that starts at `entry` and advances by one (mod 2^20 or plainly) on every back path"""
    out = []
    for L in a.loops():
        for s in L.syms.values():
            e = L.entry.get(s)
            if e is None or not same(e, entry, L.pre.facts):
                continue
            good = bool(L.backs)
            for st in L.backs:
                v = None
                for (root, pth), s2 in L.syms.items():
                    if s2 is s:
                        v = a.ip.read_names(st, root, pth)
                if v is None or not (same(v, mod(20, add(s, I(1))), st.facts) or same(v, add(s, I(1)), st.facts) or same(v, mod(32, add(s, I(1))), st.facts)):
                    good = False
            if good:
                out.append((L, s))
        # ids computed from the number of ids passed so far
        for k, _ in a.counters(L, I(0)):
            if entry.op != "int":
                out.append((L, mod(20, add(entry, k))))
    return out


def reaches(a, L, s, p, target, start, bits=20):
    """does the path leave loop L with the swept index at `target`?"""
    if p.facts.prove(cmp_eq(s, target)):
        return True
    # counted loops: another symbol counts the iterations up to target - start
    span = mod(bits, sub(target, start))
    for k in L.syms.values():
        e = L.entry.get(k)
        if e is None or e.op in ("agg", "bool", "ref"):
            continue
        ok = bool(L.backs)
        for st in L.backs:
            for (root, pth), s2 in L.syms.items():
                if s2 is k:
                    v = a.ip.read_names(st, root, pth)
                    ok = ok and v is not None and st.facts.prove(cmp_eq(v, add(k, I(1))))
        if ok and p.facts.prove(cmp_eq(sub(k, e), span)):
            return True
        ok = bool(L.backs)
        for st in L.backs:
            for (root, pth), s2 in L.syms.items():
                if s2 is k:
                    v = a.ip.read_names(st, root, pth)
                    ok = ok and v is not None and st.facts.prove(cmp_eq(v, sub(k, I(1))))
        if ok and p.facts.prove(cmp_eq(sub(e, k), span)):
            return True
    return False


VALID = "(receiver_base_id < 1048576 and m20(receiver_base_id - self.base_id) <= m20(self.next_id - self.base_id))"


@rule("sender.ack.guard", "C20 C06 C02 C03 C15 C11 C01", "PacketSender::acknowledge ignores ids that are invalid or outside [base id, next id], and otherwise moves the "
      "base to exactly the acknowledged id")
def _(c):
    a = c.fn(PS + "::acknowledge", ["self", "receiver_base_id"])
    a.cases("not " + VALID, at="entry", frame=a.fields("self"))
    e0 = a.env0
    n = 0
    for p in a.returns:
        f = p.facts.plus(e0(VALID))
        if f.inconsistent():
            continue
        n += 1
        ef = a.env(p.st)
        got = ef("self.base_id")
        ok = same(got, e0("receiver_base_id"), f)
        if not ok:
            for L, s in sweep(a, e0("self.base_id")):
                if got is s and any(e.kind == "loop" and e.x is L for e in p.events()) and reaches(a, L, s, p, e0("receiver_base_id"), e0("self.base_id")):
                    ok = True
        c.check(ok, "acknowledge: a valid acknowledgement must move the base to the acknowledged id", a.where(p), (p, got))
        for x in ("next_id", "packet_send_queue", "max_alloc", "window_size", "window_mask"):
            c.check(same(ef("self." + x), e0("self." + x), f), "acknowledge must not change %s" % x, a.where(p))
    c.check(n > 0, "acknowledge: no path for a valid acknowledgement")


@rule("sender.ack.release", "C20 C06 C02 C12 C19", "for every id the base passes, acknowledge releases that slot, subtracts exactly its allocation size and its payload "
      "size, and clears the parent ids that name it")
def _(c):
    a = c.fn(PS + "::acknowledge", ["self", "receiver_base_id"])
    sw = sweep(a, a.env0("self.base_id"))
    if not c.check(len(sw) > 0, "acknowledge: no loop walks the ids from the old base upwards one by one", "%s:%s" % (a.f.file, a.f.line)):
        return
    L = sw[0][0]
    idx = [s for l, s in sw if l is L]
    walked = 0
    for p in a.backs:
        if p.loop is not L and p.loop.id != L.id:
            continue
        good, why, none = False, None, False
        for t in idx:
            ok, why2 = release_ok(a, p, t)
            if ok:
                good = True
            none = none or ok is None
            why = why or why2
        if none and not good:
            continue
        walked += 1
        c.check(good, "acknowledge: %s" % (why or "an id is passed without releasing it"), a.where(p), (p,))
    c.check(walked > 0, "acknowledge: no id is ever released", L.loc)
    for p in a.returns:
        if L in a.loops_before(p) and not p.facts.plus(a.env0(VALID)).inconsistent():
            c.check(any(reaches(a, L, s, p, a.env0("receiver_base_id"), a.env0("self.base_id")) for s in idx), "acknowledge: the walk over released ids must end at the acknowledged id", a.where(p), (p,))
    # outside the loop nothing of the accounting changes
    for p in a.returns:
        b = a.base(p)
        eb, ef = Env(a.ip, b, a.env0.names, a.st0), a.env(p.st)
        for x in ("alloc", "total_size", "window", "channels", "window_parent_id"):
            if b is not a.st0:
                c.check(same(ef("self." + x), eb("self." + x), p.facts), "acknowledge: %s changes outside the walk over released ids" % x, a.where(p))
    # the loop covers the whole accounting: its entry state is the function's entry state
    for x in ("alloc", "total_size", "window", "channels", "window_parent_id"):
        pre = Env(a.ip, L.pre, a.env0.names, a.st0)
        c.check(same(pre("self." + x), a.env0("self." + x), L.pre.facts), "acknowledge: %s changes before the walk over released ids" % x, L.loc)


def release_ok(a, p, t):
    b = p.header
    eb = Env(a.ip, St(b.mem, p.facts, None), dict(a.env0.names, t=N(t)), a.st0)
    ef = Env(a.ip, St(p.st.mem, p.facts, None), eb.names, b)
    f = p.facts
    slot = "self.window[t & self.window_mask]"
    if f.refute(eb("is_some(%s)" % slot)):
        return None, None           # cannot be: every id in flight occupies its slot (sender.emit.accept)
    if not f.prove(eb("is_some(%s)" % slot)):
        return False, "the slot of the passed id is not known to be occupied"
    if not same(ef("self.alloc"), eb("self.alloc - %s.Some.alloc_size" % slot), f):
        return False, "the allocation counter must drop by exactly the slot's allocation size"
    if not same(ef("self.total_size"), eb("self.total_size - len(%s.Some.packet.data)" % slot), f):
        return False, "total_size must drop by exactly the packet's payload size"
    w = ef("self.window")
    if not (w.op == "store" and w.a[0] is eb("self.window") and same(w.a[1], eb("t & self.window_mask"), f) and same(w.a[2], NONE, f)):
        return False, "exactly the passed id's slot must be emptied"
    for pl in ("self.window_parent_id", "self.channels[%s.Some.channel_id].parent_id" % slot):
        eb2 = Env(a.ip, St(b.mem, f, None), eb.names, a.st0)
        pf = ef
        if slot in pl:
            ch = eb("%s.Some.channel_id" % slot)
            pf = ef.bind(ch=N(ch))
            eb2 = eb2.bind(ch=N(ch))
            pl = "self.channels[ch].parent_id"
        want = eb2("None_ if (is_some(%s) and %s.Some == t) else %s" % (pl, pl, pl))
        if not same(pf(pl), want, f):
            return False, "%s must be cleared exactly when it names the passed id" % pl
    w = ef("self.channels")
    if not only_at(w, eb("self.channels"), eb("%s.Some.channel_id" % slot), f):
        return False, "only the packet's own channel may change"
    return True, None


@rule("sender.getters", "C20 C02 C09 C06 C11", "PacketSender's accessors report the fields the rules reason about")
def _(c):
    for n, w in (("total_size", "self.total_size"), ("next_id", "self.next_id"), ("base_id", "self.base_id"), ("pending_count", "len(self.packet_send_queue)")):
        a = c.fn(PS + "::" + n, ["self"])
        a.cases(ret=w, frame=a.fields("self"))


# ------------------------------------------------------------------ PendingPacket
@rule("pending.new", "C04 C01 C02", "a packet of n bytes has max(1, ceil(n/1448)) fragments, one acknowledgement bit each, initially clear, and keeps its data, channel, "
      "id and leads")
def _(c):
    a = c.fn(PP + "::new", ["data", "channel_id", "sequence_id", "window_parent_lead", "channel_parent_lead"])
    a.cases("len(data) <= 94896128", holds=["eq(raw(ret.data), raw(data))", "ret.channel_id == channel_id", "ret.sequence_id == sequence_id",
            "ret.window_parent_lead == window_parent_lead", "ret.channel_parent_lead == channel_parent_lead",
            "ret.last_fragment_id == (0 if len(data) == 0 else (len(data) + 1447) // 1448 - 1)"])
    for p in a.returns:
        e = a.env(p.st).bind(ret=a.retn(p))
        for h in ("len(ret.ack_flags) * 64 >= ret.last_fragment_id + 1",):
            c.check(p.facts.prove(e(h)), "PendingPacket::new: it must hold that " + h, a.where(p), (p, e(h)))
        v = e("ret.ack_flags")
        c.check(v.op == "rep" and I(0) in v.a, "PendingPacket::new: no fragment may start out acknowledged", a.where(p), (p, v))


@rule("pending.ackbits", "C12 C02 C15 C04", "acknowledge_fragment sets exactly the bit of its fragment, and fragment_acknowledged reads that same bit")
def _(c):
    a = c.fn(PP + "::acknowledge_fragment", ["self", "fragment_id"])
    r = c.fn(PP + "::fragment_acknowledged", ["self", "fragment_id"])
    idx, bit = "fragment_id // 64", "m6(fragment_id)"
    r.cases(ret="bit(self.ack_flags[fragment_id // 64], m6(fragment_id))", frame=r.fields("self"))
    for p in a.returns:
        e0, e1 = a.env(St({}, p.facts, None)), a.env(p.st)
        w = e1("self.ack_flags")
        c.check(w.op == "store" and w.a[0] is e0("self.ack_flags") and same(w.a[1], e0("fragment_id // 64"), p.facts),
                "acknowledge_fragment must change only the word holding the fragment's bit", a.where(p), (p, w))
        x = e1("self.ack_flags[fragment_id // 64]")
        k = e0("m6(fragment_id)")
        o = e0("self.ack_flags[fragment_id // 64]")
        j = sym("j_any", (0, 63))
        c.check(p.facts.prove(a.ip.bit(x, k)), "acknowledge_fragment must set the fragment's bit", a.where(p), (p, x))
        f = p.facts.plus(bnot(cmp_eq(j, k)))
        c.check(same(a.ip.bit(x, j), a.ip.bit(o, j), f), "acknowledge_fragment must keep every other bit", a.where(p), (p, a.ip.bit(x, j)))
    a.cases(frame=a.fields("self", "ack_flags"))


@rule("pending.datagram", "C04 C01 C05 C02", "fragment i of a packet is bytes [1448 i, 1448 (i+1)) (to the end for the last), labelled with the packet's id, channel, leads "
      "and fragment ids")
def _(c):
    a = c.fn(PP + "::datagram", ["self", "fragment_id"])
    for f in ("sequence_id", "channel_id", "window_parent_lead", "channel_parent_lead"):
        a.cases(holds=["ret.%s == self.%s" % (f, f)])
    a.cases(holds=["ret.fragment_id == fragment_id", "ret.fragment_id_last == self.last_fragment_id"], frame=a.fields("self"))
    inv = " and self.last_fragment_id == (0 if len(self.data) == 0 else (len(self.data) + 1447) // 1448 - 1)"      # pending.new
    a.cases("fragment_id == self.last_fragment_id" + inv, holds=["eqv(ret.data, raw(self.data[1448 * fragment_id:]))"])
    a.cases("fragment_id < self.last_fragment_id" + inv, holds=["eqv(ret.data, raw(self.data[1448 * fragment_id : 1448 * fragment_id + 1448]))"])
    s = c.fn(PP + "::size", ["self"])
    s.cases(ret="len(self.data)")
    s = c.fn(PP + "::last_fragment_id", ["self"])
    s.cases(ret="self.last_fragment_id")
