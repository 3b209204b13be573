"""PacketReceiver: the receive window, delivery order, window advancement, resynchronisation."""
from ..rules import *

PR = "half_connection::packet_receiver::PacketReceiver"
AW = "half_connection::packet_receiver::assembly_window::AssemblyWindow"
BA = frozenset([AW + "::try_add", AW + "::clear", AW + "::new"])

VALID = ("(datagram.channel_id < 64 and datagram.fragment_id <= datagram.fragment_id_last and len(datagram.data) <= 1448 "
         "and (datagram.fragment_id >= datagram.fragment_id_last or len(datagram.data) == 1448) "
         "and (datagram.channel_parent_lead == 0 or datagram.window_parent_lead != 0 and datagram.channel_parent_lead >= datagram.window_parent_lead))")
CBASE = "(self.channels[datagram.channel_id].base_id.Some if is_some(self.channels[datagram.channel_id].base_id) else self.base_id)"
LEAD = "m20(datagram.sequence_id - self.base_id)"
IN = "(%s and %s < self.receive_window_size and %s >= m20(%s - self.base_id))" % (VALID, LEAD, LEAD, CBASE)
IDX = "(datagram.sequence_id & self.receive_window_mask)"


def anyidx(c):
    return dict(t=N(sym("any_t", (0, (1 << 64) - 1))), w=N(sym("any_w", (0, (1 << 64) - 1))), b=N(sym("any_b", (0, 63))))


@rule("pr.new", "C01 C02 C06 C05 C03", "a fresh receiver has an empty window of the given size at the initial packet id, empty channels, and an assembly window with the given memory limit")
def _(c):
    a = c.fn(PR + "::new", ["window_size", "base_id", "max_alloc"], BA)
    a.cases("window_size >= 1", holds=["ret.base_id == base_id", "ret.end_id == base_id", "ret.receive_window_size == window_size", "ret.receive_window_mask == window_size - 1",
                   "ret.channel_ready_flags == 0", "not ret.window_ready_flag", "len(ret.channel_entries) == window_size", "len(ret.window_entries) == window_size",
                   "len(ret.data_entries) == window_size", "len(ret.channel_base_markers) == window_size", "len(ret.channels) == 64",
                   "len(ret.entry_flags) * 64 >= window_size", "len(ret.data_flags) * 64 >= window_size"])
    for p in a.returns:
        f = a.at(p.st, p.facts, ret=a.retn(p), **anyidx(c))
        for x in ("ret.entry_flags[w] == 0", "ret.data_flags[w] == 0", "is_none(ret.channel_base_markers[t])", "is_none(ret.channels[t].base_id)", "ret.channels[t].packet_count == 0",
                  "is_none(ret.data_entries[t].data)"):
            c.check(p.facts.prove(f(x)), "PacketReceiver::new: %s must hold for every entry" % x, a.where(p), (p, f(x)))
    for e, p in a.only_if(is_call(AW + "::new"), "True", "the assembly window is created"):
        c.check(same(e.args[0], a.env0("max_alloc"), p.facts), "PacketReceiver::new: the assembly window must have the given memory limit", e.loc)


@rule("pr.valid", "C01 C03 C04 C05 C06", "datagram_is_valid accepts exactly the datagrams a conforming sender can produce")
def _(c):
    a = c.fn("half_connection::packet_receiver::datagram_is_valid", ["datagram"])
    a.cases(ret=VALID)
    a = c.fn(PR + "::base_id", ["self"])
    a.cases(ret="self.base_id", frame=a.fields())


@rule("pr.datagram", "C01 C02 C03 C05 C06 C11 C04", "a datagram reaches assembly if and only if it is valid, inside the receive window and not before its channel's base; a completed packet is "
      "entered at its own slot with its own metadata, its bits are set, the window end covers it, and its channel / the window is marked ready exactly when the leads allow it")
def _(c):
    a = c.fn(PR + "::handle_datagram", ["self", "datagram"], BA)
    adds = lambda p: [e for e in p.events() if is_call(AW + "::try_add")(e)]
    n = 0
    for p in a.returns:
        e0, ef = a.at(a.st0, p.facts, **anyidx(c)), a.at(p.st, p.facts, **anyidx(c))
        ev = adds(p)
        if not ev:
            c.check(p.facts.refute(e0(IN)), "handle_datagram: a valid datagram inside the window must not be dropped", a.where(p), (p,))
            a.unchanged(p, a.st0, a.fields(), "handle_datagram: %s must stay when the datagram is ignored")
            continue
        e = ev[0]
        c.check(len(ev) == 1 and e.facts.prove(a.at(a.st0, e.facts)(IN)), "handle_datagram: a datagram reaches assembly only if it is valid, within the window and not before its channel's base", e.loc, (p, e0(IN)))
        c.check(same(e.args[1], e0(IDX), p.facts) and same(e.args[2], e0("datagram"), p.facts), "handle_datagram: the datagram itself must reach its own assembly slot", e.loc, (p, e.args[1], e0(IDX)))
        c.check(e.args[0].op == "ref" and showplace(*e.args[0].a[:2]) == "self.assembly_window", "handle_datagram: the connection's assembly window must be used", e.loc)
        r = N(e.ret, a.c.p.fn(AW + "::try_add").locals[0])
        e0, ef = e0.bind(r=r), ef.bind(r=r)
        if not c.check(p.facts.prove(e0("is_some(r)")) or p.facts.refute(e0("is_some(r)")), "handle_datagram: the result of assembly must be examined", a.where(p), (p,)):
            continue
        if p.facts.refute(e0("is_some(r)")):
            a.unchanged(p, a.st0, a.fields("self", "assembly_window"), "handle_datagram: %s must stay while the packet is incomplete")
            continue
        n += 1
        a.unchanged(p, a.st0, ["self.base_id", "self.receive_window_size", "self.receive_window_mask", "self.channel_base_markers"], "handle_datagram: %s must stay")
        for x in ("channel_entries", "window_entries", "data_entries", "entry_flags", "data_flags", "channels"):
            c.check(same(ef("len(self.%s)" % x), e0("len(self.%s)" % x), p.facts), "handle_datagram: the size of %s must stay" % x, a.where(p), (p,))
        ready = "(r.Some.channel_parent_lead == 0 or r.Some.channel_parent_lead > m20(datagram.sequence_id - %s))" % CBASE
        wready = "(r.Some.window_parent_lead == 0 or r.Some.window_parent_lead > %s)" % LEAD
        for pl, w in (("self.channel_entries[t].channel_id", "r.Some.channel_id if t == %s else self.channel_entries[t].channel_id" % IDX),
                      ("self.channel_entries[t].channel_parent_lead", "r.Some.channel_parent_lead if t == %s else self.channel_entries[t].channel_parent_lead" % IDX),
                      ("self.window_entries[t].window_parent_lead", "r.Some.window_parent_lead if t == %s else self.window_entries[t].window_parent_lead" % IDX),
                      ("self.data_entries[t].data", "raw(r.Some.data) if t == %s else raw(self.data_entries[t].data)" % IDX),
                      ("bit(self.entry_flags[w], b)", "True if (w == {0} // 64 and b == m6({0})) else bit(self.entry_flags[w], b)".format(IDX)),
                      ("bit(self.data_flags[w], b)", "True if (w == {0} // 64 and b == m6({0})) else bit(self.data_flags[w], b)".format(IDX)),
                      ("self.channels[t].packet_count", "self.channels[t].packet_count + 1 if t == datagram.channel_id else self.channels[t].packet_count"),
                      ("self.channels[t].base_id", "raw(self.channels[t].base_id)"),
                      ("bit(self.channel_ready_flags, b)", "(True if (b == datagram.channel_id and %s) else bit(self.channel_ready_flags, b))" % ready),
                      ("self.window_ready_flag", "(True if %s else self.window_ready_flag)" % wready)):
            c.check(same(ef(pl), e0(w), p.facts), "handle_datagram: a completed packet must leave %s = %s" % (pl, w.replace(CBASE, "channel base")), a.where(p), (p, ef(pl), e0(w)))
        # the end of the window covers the packet: under the window invariant
        inv = "self.receive_window_size <= 4096 and m20(self.end_id - self.base_id) <= self.receive_window_size and self.base_id < 1048576 and self.end_id < 1048576 and tri20(datagram.sequence_id, self.end_id, self.base_id)"
        f = p.facts.plus(e0(inv))
        want = e0("m20(datagram.sequence_id + 1) if %s >= m20(self.end_id - self.base_id) else self.end_id" % LEAD)
        c.check(same(ef("self.end_id"), want, f), "handle_datagram: the window end must move past a packet beyond it, and only then", a.where(p), (p, ef("self.end_id"), want))
    c.check(n > 0, "handle_datagram never enters a packet")


SINKS = (("server", "<server::EventPacketSink as half_connection::PacketSink>::send"), ("client", "<client::PacketReceiveSink as half_connection::PacketSink>::send"))
SINV = "(self.receive_window_size <= 4096 and self.receive_window_size >= 1)"


def walks(a, L, start):
    """terms naming the packet id the loop L is at, if it visits the ids from `start` upwards one by one"""
    out = []
    for s, e in a.counters(L, start):
        out.append(s)
    for s, e in a.counters(L, I(0)):
        out.append(mod(20, add(start, s)))
    return out


def loop_sym(a, L, place):
    """loop symbol of L standing for the place (or a place above/below it)"""
    n = place.split(".")[1:]
    for (root, pth), s in L.syms.items():
        if isinstance(root, tuple) and root[0] == "O" and show(root[1]) == "self":
            q = [x[1] if isinstance(x, tuple) else x for x in pth]
            k = min(len(q), len(n))
            if [str(x) for x in q[:k]] == n[:k]:
                return s
    return None


def over_loop(a, p, after, place, start, stop, effect, c, msg):
    """exactly one of the loops of path p after loop `after` updates `place`; it visits all ids from start to stop and has the
    effect(h, f, q, id) on each; the place has that loop's value in the end.  `start`/`stop` are terms."""
    ls = a.loops_before(p)
    if after is not None:
        ls = ls[ls.index(after) + 1:]
    ms = [M for M in ls if loop_sym(a, M, place) is not None]
    if not ms:
        # nothing to visit?
        return c.check(p.facts.prove(cmp_eq(start, stop)), msg + " (no loop does so)", a.where(p), (p,))
    if not c.check(len(ms) == 1, msg + " (several loops change it)", a.where(p), (p,)):
        return False
    M = ms[0]
    ok = False
    ws = walks(a, M, start)
    for s in ws:
        # (ids are compared modulo 2^20, as the window slots are)
        good = (p.facts.prove(cmp_eq(s, stop)) or s.op == "mod" and p.facts.prove(cmp_eq(mod(20, sub(s, stop)), I(0)))) and bool(a.loop_backs(M))
        for q in a.loop_backs(M):
            h, f = a.at(M.hst, q.facts, id=N(s), **anyidx(a.c)), a.at(q.st, q.facts, id=N(s), **anyidx(a.c))
            good = good and effect(h, f, q)
        ok = ok or good
    c.check(ok, msg, M.loc, (p, place))
    base = (a.loops_before(p)[a.loops_before(p).index(after)].hst if after is not None else a.st0)
    # value entering the loop and leaving it
    c.check(same(a.at(M.pre, p.facts)(place), a.at(base, p.facts)(place), p.facts), msg + " (changed before the loop)", M.loc, (p, place))
    c.check(same(a.at(p.st, p.facts)(place), a.at(M.hst, p.facts)(place), p.facts), msg + " (changed after the loop)", M.loc, (p, place))
    return ok


def advanced(c, a, p, after, nb, what):
    """the window of the receiver was advanced to nb (from the state at the header of loop `after`)"""
    pre = after.hst
    e, f = a.at(pre, p.facts, nb=N(nb)), a.at(p.st, p.facts, nb=N(nb))
    c.check(same(f("self.base_id"), nb, p.facts), "%s: the window base must become the new base" % what, a.where(p), (p, f("self.base_id"), nb))
    fx = p.facts.plus(e("self.end_id < 1048576 and self.base_id < 1048576"))
    w = e("nb if m20(self.end_id - self.base_id) < m20(nb - self.base_id) else self.end_id")
    c.check(same(f("self.end_id"), w, fx), "%s: the window end must not fall behind the new base, and stay otherwise" % what, a.where(p), (p, f("self.end_id"), w))
    base = e("self.base_id")
    I20 = "(id & self.receive_window_mask)"

    def flags(h, g, q):
        w = h("False if (w == {0} // 64 and b == m6({0})) else bit(self.entry_flags[w], b)".format(I20))
        return same(g("bit(self.entry_flags[w], b)"), w, q.facts)

    def clears(h, g, q):
        ev = [x for x in a.seg(q) if is_call(AW + "::clear")(x)]
        return len(ev) == 1 and same(ev[0].args[1], h(I20), q.facts) and showplace(*ev[0].args[0].a[:2]) == "self.assembly_window"

    M1 = "(m20(id + 1) & self.receive_window_mask)"

    def unset(h, g, q):
        w = h("None_ if t == %s else raw(self.channel_base_markers[t])" % M1)
        w2 = h("None_ if (is_some(self.channel_base_markers[{0}]) and t == self.channel_base_markers[{0}].Some) else raw(self.channels[t].base_id)".format(M1))
        return optsame(g("raw(self.channel_base_markers[t])"), w, q.facts) and optsame(g("raw(self.channels[t].base_id)"), w2, q.facts) \
            and same(g("self.channels[t].packet_count"), h("self.channels[t].packet_count"), q.facts)

    over_loop(a, p, after, "self.entry_flags", base, nb, flags, c, "%s: the entry flag of exactly each packet before the new base must be cleared" % what)
    over_loop(a, p, after, "self.assembly_window", base, nb, clears, c, "%s: the assembly slot of exactly each packet before the new base must be cleared" % what)
    over_loop(a, p, after, "self.channel_base_markers", base, nb, unset, c, "%s: a channel base the window base reaches must be forgotten together with its marker, and no other" % what)
    a.unchanged(p, pre, ["self.receive_window_size", "self.receive_window_mask", "self.channel_entries", "self.window_entries", "self.data_entries", "self.data_flags",
                         "self.channel_ready_flags"], what + ": %s must stay when the window advances")


def optsame(x, y, facts):
    """equal options; the payload of None is irrelevant"""
    return same(x, y, facts) or bool(facts.prove(cmp_eq(mk("discr", x, 2), I(0))) and y is NONE)


def markers_after_delivery(h):
    return h("Some(ch) if t == nx & self.receive_window_mask else None_ if (is_some(self.channels[ch].base_id) and t == self.channels[ch].base_id.Some & self.receive_window_mask) else raw(self.channel_base_markers[t])")


@rule("pr.deliver", "C01 C02 C05 C11 C04 C03", "receive visits the window from its base to its end in order; a packet is handed to the application exactly when its data is pending, its channel is ready "
      "and its channel lead admits it; it is handed over once, with its own bytes, and its channel moves past it")
def _(c):
    for pick, snd in SINKS:
        a = c.fn(PR + "::receive", ["self", "sink"], BA | frozenset([snd]), pick=pick)
        L = [M for M in a.loops() if any(is_write("self.data_flags")(e) or is_call(snd)(e) for q in a.loop_backs(M) for e in a.seg(q))]
        if not c.check(len(L) == 1, "receive: one loop delivers packets", "%s:%s" % (a.f.file, a.f.line)):
            continue
        L = L[0]
        c.check(all(e in [x for q in a.loop_backs(L) for x in a.seg(q)] for e, _ in a.sel(is_call(snd), kinds=("return", "back"))), "receive: packets are delivered by the delivery loop only", L.loc)
        best = None
        for s in walks(a, L, a.env0("self.base_id")):
            from .frames import Collect
            g = Collect(c)
            deliver_loop(g, a, L, s, snd)
            if best is None or len(g.bad) < len(best.bad):
                best = g
        if not c.check(best is not None, "receive: the window is visited from its base upwards, one packet at a time", L.loc):
            continue
        best.flush()


def deliver_loop(c, a, L, s, snd):
    c.check(same(a.at(L.hst, L.hst.facts)("self.base_id"), a.env0("self.base_id"), L.hst.facts), "receive: the window base must not move while packets are delivered", L.loc)
    nd = 0
    keep = ["self.base_id", "self.end_id", "self.entry_flags", "self.channel_entries", "self.window_entries", "self.receive_window_size", "self.receive_window_mask", "self.window_ready_flag",
            "self.assembly_window"]
    for q in a.loop_backs(L):
        b = dict(s=N(s), nx=N(mod(20, add(s, I(1)))), **anyidx(c))
        h, f = a.at(L.hst, q.facts, **b), a.at(q.st, q.facts, **b)
        idx = h("s & self.receive_window_mask")
        h, f = h.bind(idx=N(idx)), f.bind(idx=N(idx))
        ch = h.term("self.channel_entries[idx].channel_id")
        h, f = h.bind(ch=ch), f.bind(ch=ch)
        flag = h("bit(self.data_flags[idx // 64], m6(idx))")
        rdy = h("bit(self.channel_ready_flags, ch)")
        ok = h("(self.channel_entries[idx].channel_parent_lead == 0 or self.channel_entries[idx].channel_parent_lead > m20(s - (self.channels[ch].base_id.Some if is_some(self.channels[ch].base_id) else self.base_id)))")
        a2 = [x for x in a.seg(q) if is_call(snd)(x)]
        fin = same(f("bit(self.data_flags[idx // 64], m6(idx))"), FALSE, q.facts) and not q.facts.refute(flag)
        a.unchanged(q, L.hst, keep, "receive: %s must stay while packets are delivered")
        if not fin:
            c.check(not a2, "receive: a packet that stays in the window must not be delivered", a.where(q), (q,))
            c.check(q.facts.refute(band(flag, rdy, ok)), "receive: a pending packet of a ready channel whose channel lead admits it must be delivered", a.where(q), (q,))
            a.unchanged(q, L.hst, ["self.data_flags", "self.data_entries", "self.channels", "self.channel_base_markers"], "receive: %s must stay when a packet is not delivered")
            w = h("bit(self.channel_ready_flags, b)")
            w2 = h("False if b == ch else bit(self.channel_ready_flags, b)")
            g = f("bit(self.channel_ready_flags, b)")
            c.check(same(g, w, q.facts) or q.facts.prove(band(flag, bnot(ok))) and same(g, w2, q.facts), "receive: only the channel of a blocked packet may cease to be ready", a.where(q), (q, g, w2))
            continue
        nd += 1
        c.check(q.facts.prove(band(flag, ok)), "receive: a packet may be delivered only if its data is pending and its channel lead admits it", a.where(q), (q, band(flag, ok)))
        has = h("is_some(self.data_entries[idx].data)")
        if q.facts.refute(has):
            c.check(not a2, "receive: a packet without data cannot be delivered", a.where(q), (q,))
        elif c.check(len(a2) == 1 and q.facts.prove(has), "receive: the packet's data must be delivered exactly once", a.where(q), (q,)):
            c.check(same(a2[0].args[1], h("raw(self.data_entries[idx].data.Some)"), q.facts), "receive: the delivered bytes must be the packet's own", a2[0].loc, (q, a2[0].args[1]))
            c.check(a2[0].args[0].op == "ref" and showplace(*a2[0].args[0].a[:2]).startswith("sink"), "receive: the packet must reach the given sink", a2[0].loc)
        last = "self.channels[ch].packet_count == 1"
        for pl, w in (("is_none(self.data_entries[idx].data)", "True"),
                      ("bit(self.data_flags[w], b)", "False if (w == idx // 64 and b == m6(idx)) else bit(self.data_flags[w], b)"),
                      ("self.channels[t].packet_count", "self.channels[ch].packet_count - 1 if t == ch else self.channels[t].packet_count"),
                      ("raw(self.channels[t].base_id)", "Some(nx) if t == ch else raw(self.channels[t].base_id)"),
                      ("bit(self.channel_ready_flags, b)", "False if (b == ch and %s) else bit(self.channel_ready_flags, b)" % last)):
            c.check(optsame(f(pl), h(w), q.facts), "receive: delivering a packet must leave %s = %s" % (pl, w), a.where(q), (q, f(pl), h(w)))
        w = h("None_ if t == idx else raw(self.data_entries[t].data)")
        c.check(optsame(f("raw(self.data_entries[t].data)"), w, q.facts), "receive: no other packet's data may be touched", a.where(q), (q, f("raw(self.data_entries[t].data)")))
        w = markers_after_delivery(h)
        c.check(optsame(f("raw(self.channel_base_markers[t])"), w, q.facts), "receive: the channel's base marker must move to the packet after the delivered one", a.where(q), (q, f("raw(self.channel_base_markers[t])"), w))
    c.check(nd > 0, "receive never delivers a packet", L.loc)
    for p in a.returns:
        if L not in a.loops_before(p):
            e0 = a.at(a.st0, p.facts)
            c.check(p.facts.prove(e0("self.base_id == self.end_id or self.channel_ready_flags == 0")), "receive: pending packets must not be skipped", a.where(p), (p,))
            continue
        h = a.at(L.hst, p.facts, s=N(s))
        c.check(p.facts.prove(h("s == self.end_id or self.channel_ready_flags == 0")), "receive: delivery may stop only at the window's end or when no channel is ready", a.where(p), (p,))


@rule("pr.advance", "C01 C02 C05 C06 C11 C09", "receive advances the window exactly past packets that were delivered and whose window lead admits it (no undelivered reliable packet is skipped); everything "
      "before the new base is released")
def _(c):
    for pick, snd in SINKS:
        a = c.fn(PR + "::receive", ["self", "sink"], BA | frozenset([snd]), pick=pick)
        L1 = [M for M in a.loops() if any(is_write("self.data_flags")(e) or is_call(snd)(e) for q in a.loop_backs(M) for e in a.seg(q))]
        L1 = L1[0] if L1 else None
        seen = {}
        n = 0
        for p in a.returns:
            ls = a.loops_before(p)
            h1 = L1.hst if L1 in ls else a.st0
            rest = ls[ls.index(L1) + 1:] if L1 in ls else ls
            cand = None
            for M in rest:
                k = id(M)
                if k not in seen:
                    seen[k] = advance_scan(c, a, M, h1)
                if seen[k] is not None:
                    cand = M
                    break
            e1, f = a.at(h1, p.facts), a.at(p.st, p.facts)
            if cand is None:
                c.check(p.facts.prove(e1("not self.window_ready_flag or self.base_id == self.end_id")) or not rest and p.facts.refute(e1("self.window_ready_flag")),
                        "receive: the window must be advanced when a packet admits it", a.where(p), (p,))
                a.unchanged(p, h1, a.fields(), "receive: %s must stay when the window does not advance") if L1 in ls else None
                continue
            n += 1
            s, nb, g = seen[id(cand)]
            g.flush()
            g.n = 0
            a.unchanged(a_like(p, cand.pre), h1, a.fields("self", "window_ready_flag"), "receive: %s must stay between delivery and window advancement")
            h = a.at(cand.hst, p.facts, s=N(s), nb=N(nb), idx=N(a.at(cand.hst, p.facts, s=N(s))("s & self.receive_window_mask")))
            stop = h("s == self.end_id or bit(self.entry_flags[idx // 64], m6(idx)) and (bit(self.data_flags[idx // 64], m6(idx)) or not (%s))" % WOK)
            c.check(p.facts.prove(stop), "receive: the window must advance until its end, an undelivered packet or a lead that forbids it", a.where(p), (p, stop))
            c.check(p.facts.prove(bnot(f("self.window_ready_flag"))) or p.facts.prove(f("self.window_ready_flag")), "receive: window_ready_flag", a.where(p), (p,))
            advanced(c, a, p, cand, nb, "receive")
        c.check(n > 0, "receive never advances the window")


WOK = "self.window_entries[idx].window_parent_lead == 0 or self.window_entries[idx].window_parent_lead > m20(s - nb)"


class a_like:
    """a pseudo path at the state st"""

    def __init__(self, p, st):
        self.st, self.facts, self.loc = st, p.facts, p.loc


def advance_scan(c, a, M, h1):
    """(current id, new base, checks) if the loop M determines the new base of the window"""
    from .frames import Collect
    base = a.env0("self.base_id")
    best = None
    for s in walks(a, M, base):
        for nb in M.syms.values():
            e = M.entry.get(nb)
            if nb is s or e is None or not same(e, base, M.pre.facts):
                continue
            g = Collect(c)
            moved = 0
            for q in a.loop_backs(M):
                b = dict(s=N(s), nb=N(nb))
                h = a.at(M.hst, q.facts, **b)
                h = h.bind(idx=N(h("s & self.receive_window_mask")))
                v = a.sval(M, nb, q.st)
                if v is None:
                    g.check(False, "receive: the new base is not followed", a.where(q))
                    continue
                g.check(same(a.at(q.st, q.facts)("self"), a.at(M.hst, q.facts)("self"), q.facts), "receive: nothing may change while the new base is determined", a.where(q), (q,))
                ent, dat = h("bit(self.entry_flags[idx // 64], m6(idx))"), h("bit(self.data_flags[idx // 64], m6(idx))")
                if same(v, nb, q.facts):
                    g.check(q.facts.refute(ent), "receive: the window must move past a delivered packet", a.where(q), (q,))
                elif g.check(same(v, mod(20, add(s, I(1))), q.facts), "receive: the new base must follow the last delivered packet", a.where(q), (q, v)):
                    moved += 1
                    g.check(q.facts.prove(ent), "receive: the window may move only past a packet that was received", a.where(q), (q,))
                    g.check(q.facts.refute(dat), "receive: the window must not move past a packet that still awaits delivery", a.where(q), (q,))
                    g.check(q.facts.prove(h(WOK)), "receive: the window may move past a packet only if its window lead admits it", a.where(q), (q, h(WOK)))
            if moved and (best is None or len(g.bad) < len(best[2].bad)):
                best = (s, nb, g)
    return best


@rule("pr.resync", "C01 C02 C05 C11 C03 C06", "resynchronize advances the window to the sender's next id, or to the first received packet that awaits release before it; requests that are invalid or beyond the "
      "window change nothing")
def _(c):
    a = c.fn(PR + "::resynchronize", ["self", "sender_next_id"], BA)
    valid = "(sender_next_id < 1048576 and m20(sender_next_id - self.base_id) <= self.receive_window_size)"
    n = 0
    for p in a.returns:
        e0 = a.at(a.st0, p.facts)
        ls = a.loops_before(p)
        if not ls:
            c.check(p.facts.refute(e0(valid)) or p.facts.prove(e0("sender_next_id == self.base_id")), "resynchronize: a valid request must be served", a.where(p), (p,))
            a.unchanged(p, a.st0, a.fields(), "resynchronize: %s must stay when the request is refused")
            continue
        c.check(p.facts.prove(e0(valid)), "resynchronize: a request that is invalid or beyond the window must be refused", a.where(p), (p, e0(valid)))
        M = ls[0]
        good = False
        for s in walks(a, M, e0("self.base_id")):
            h = a.at(M.hst, p.facts, s=N(s))
            h = h.bind(idx=N(h("s & self.receive_window_mask")))
            there = ("s == sender_next_id", "m20(s - self.base_id) == m20(sender_next_id - self.base_id)")  # equivalent (valid ids)
            ok = any(p.facts.prove(h(x + " or bit(self.entry_flags[idx // 64], m6(idx))")) for x in there)
            for q in a.loop_backs(M):
                hq = a.at(M.hst, q.facts, s=N(s))
                hq = hq.bind(idx=N(hq("s & self.receive_window_mask")))
                ok = ok and any(q.facts.prove(hq("not (%s) and not bit(self.entry_flags[idx // 64], m6(idx))" % x)) for x in there) and same(a.at(q.st, q.facts)("self"), hq("self"), q.facts)
            if ok:
                good = True
                n += 1
                nb = a.at(p.st, p.facts)("self.base_id")
                if not same(nb, s, p.facts):
                    nb = e0("sender_next_id") if same(nb, e0("sender_next_id"), p.facts) and any(p.facts.prove(h(x)) for x in there) else mod(20, s)
                advanced(c, a, p, M, nb, "resynchronize")
                a.unchanged(p, a.st0, ["self.window_ready_flag"], "resynchronize: %s must stay")
                break
        c.check(good, "resynchronize: the new base must be the sender's next id or the first packet before it that awaits release", M.loc, (p,))
    c.check(n > 0, "resynchronize never advances the window")


@rule("pr.sink", "C01 C05 C08", "delivered bytes reach the application's event queue as one Receive event, unchanged, in order of delivery")
def _(c):
    a = c.fn(SINKS[0][1], ["self", "packet_data"])
    for p in a.returns:
        ev = [e for e in p.events() if e.kind == "op"]
        c.check(len(ev) == 1, "EventPacketSink::send must queue exactly one event", a.where(p), (p,))
    one_receive(c, a, "uflow::server::Event", lambda e, r: same(r("ev.Receive._0"), e("self.address"), e.st.facts) and same(r("raw(ev.Receive._1)"), e("packet_data"), e.st.facts))
    a = c.fn(SINKS[1][1], ["self", "packet_data"])
    one_receive(c, a, "uflow::client::Event", lambda e, r: same(r("raw(ev.Receive)"), e("packet_data"), e.st.facts))


def one_receive(c, a, ty, ok):
    tid = [i for i, t in a.c.p.types.items() if t["k"] == "adt" and t["name"] == ty]
    if not tid:
        raise Missing("type " + ty)
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        q = f("deref(self.event_queue)")
        if c.check(q.op == "pushb" and q.a[0] is e("deref(self.event_queue)"), "%s must append exactly one event to the queue" % a.key, a.where(p), (p, q)):
            r = f.bind(ev=N(q.a[1], tid[0]))
            c.check(p.facts.prove(r("isv(ev, 'Receive')")), "%s must queue a Receive event" % a.key, a.where(p), (p, q))
            c.check(ok(e, r), "%s: the event must carry the delivered bytes (and the peer's address)" % a.key, a.where(p), (p, q))
