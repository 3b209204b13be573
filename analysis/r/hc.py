"""HalfConnection: how the components of one connection are driven (component methods are the boundary of this layer)."""
from ..rules import *
from ..terms import add as plus
from .emit import calls, val, at as eat, weak_of

H = "half_connection::"
HC = H + "HalfConnection"


def g(b, ns):
    return [H + b + "::" + n for n in ns.split()]


PS, FQ, PR, FA, SR = (H + x for x in ("packet_sender::PacketSender", "frame_queue::FrameQueue", "packet_receiver::PacketReceiver",
                                      "frame_ack_queue::FrameAckQueue", "send_rate::SendRateComp"))
DE, AE = H + "emit::DataFrameEmitter", H + "emit::AckFrameEmitter"
WR = "<frame::Frame as frame::serial::Serialize>::write"
HB = frozenset(g("packet_sender::PacketSender", "new enqueue_packet emit_packet acknowledge") +
               g("frame_queue::FrameQueue", "new push acknowledge_group advance_transfer_window forget_frames get_feedback reset_loss_rate mark_rate_limited") +
               g("packet_receiver::PacketReceiver", "new handle_datagram receive resynchronize") +
               g("frame_ack_queue::FrameAckQueue", "new mark_seen resynchronize pop") +
               g("send_rate::SendRateComp", "new notify_frame_sent step") +
               g("emit::DataFrameEmitter", "new push poll finalize") + g("emit::AckFrameEmitter", "new push push_dud finalize") + [WR])
EM = ["self", "now_ms", "rtt_ms", "rto_ms", "flush_id", "sink"]


def emf(c):
    return c.fn(HC + "::emit_frames", EM, HB)


def on(a, e, place):
    """does the first argument of the call refer to this place of the connection?"""
    x = e.args[0]
    try:
        r = a.at(a.st0, e.facts).place(place)
    except Exception:
        r = None
    return x.op == "ref" and showref(x) == place


def showref(x):
    s = show(x)
    return s[1:] if s.startswith("&") else s


def uniq(a, name):
    return a.sel(lambda e: e.kind == "call" and e.name == name)


def sends(p):
    return [e for e in p.events() if e.kind == "io" and e.name in ("send_to", "send")]


def segment_of(p, ev):
    """events of the path's segment holding ev (between loop headers)"""
    seg, hit = [], False
    for e in p.events():
        if e.kind == "loop":
            if hit:
                return seg, e.x
            seg = []
            continue
        seg.append(e)
        hit = hit or e is ev
    return seg, None


def ends(a, name):
    """(event, state and facts at the end of its segment, path or None if the segment ends at a loop header)"""
    out, seen = [], set()
    for p in a.paths:
        if p.kind == "panic":
            continue
        for e in p.events():
            if e.kind == "call" and e.name == name:
                seg, L = segment_of(p, e)
                st = L.pre if L is not None else p.st
                k = (id(e), id(L) if L is not None else id(p))
                if k in seen or st.facts.inconsistent():
                    continue
                seen.add(k)
                out.append((e, seg, st, None if L is not None else p))
    return out


def isok(r):
    return cmp_eq(mk("discr", r, 2), I(0))


# ------------------------------------------------------------------------------------------------ construction
@rule("hc.new", "C01 C02 C06 C07 C13 C20 C10 C15", "a connection starts with sequence numbers, windows, limits and ceiling taken from its configuration, each in its place, with nothing queued")
def _(c):
    a = c.fn(HC + "::new", ["config"], HB)
    want = {PS + "::new": ["config.tx_packet_window_size", "config.tx_packet_base_id", "config.tx_alloc_limit"],
            FQ + "::new": ["config.tx_frame_window_size", "config.tx_frame_window_size", "config.tx_frame_base_id"],
            PR + "::new": ["config.rx_packet_window_size", "config.rx_packet_base_id", "config.rx_alloc_limit"],
            FA + "::new": ["config.rx_frame_window_size", "config.rx_frame_base_id"],
            SR + "::new": ["config.tx_bandwidth_limit"]}
    fld = {PS: "packet_sender", FQ: "frame_queue", PR: "packet_receiver", FA: "frame_ack_queue", SR: "send_rate_comp"}
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts, ret=a.retn(p))
        for k, ws in want.items():
            cs = calls(p, k)
            if not c.check(len(cs) == 1, "HalfConnection::new: %s must be created once" % k.split("::")[-2], a.where(p), (p,)):
                continue
            for i, w in enumerate(ws):
                c.check(same(cs[0].args[i], e(w), p.facts), "HalfConnection::new: %s must get %s" % (k.split("::")[-2], w), cs[0].loc, (p, cs[0].args[i]))
            c.check(same(f("ret.%s" % fld[k[:-5]]), cs[0].ret, p.facts), "HalfConnection::new: %s must be stored" % k.split("::")[-2], a.where(p), (p,))
        for h in ("len(ret.pending_queue) == 0", "len(ret.resend_queue) == 0", "ret.flush_alloc == 0", "is_none(ret.time_last_flushed)", "not ret.sync_reply",
                  "ret.sync_timeout_base_ms == 0", "ret.now_ms == 0"):
            c.check(p.facts.prove(f(h)), "HalfConnection::new: %s" % h, a.where(p), (p, f(h)))
        c.check(same(f("ret.sync_keepalive_interval_ms"), e("config.keepalive_interval_ms"), p.facts), "HalfConnection::new: the keepalive interval must be stored", a.where(p), (p,))
        now = [x for x in p.events() if x.kind == "io"]
        c.check(len(now) == 1 and same(f("ret.time_base"), now[0].ret, p.facts), "HalfConnection::new: the clock must start now", a.where(p), (p,))


@rule("hc.send", "C01 C05 C12 C20 C02 C09", "send hands the packet, channel, mode and the current flush id to the packet sender, once, and nothing else happens")
def _(c):
    a = c.fn(HC + "::send", ["self", "data", "channel_id", "mode"], HB)
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        cs = calls(p, PS + "::enqueue_packet")
        if c.check(len(cs) == 1 and showref(cs[0].args[0]) == "self.packet_sender", "send must enqueue the packet once", a.where(p), (p,)):
            for i, w in enumerate(["data", "channel_id", "mode", "self.flush_id"]):
                c.check(same(cs[0].args[i + 1], e("raw(%s)" % w if i == 0 else w), p.facts) or same(cs[0].args[i + 1], e(w), p.facts), "send must pass on %s" % w, cs[0].loc, (p, cs[0].args[i + 1]))
        a.unchanged(p, a.st0, a.fields("self", "packet_sender"), "send must leave %s alone")


@rule("hc.queries", "C20 C09 C02", "send_buffer_size is the packet sender's total size; a send is pending iff the send queue, the fragment queue or the resend queue is not empty")
def _(c):
    a = c.fn(HC + "::send_buffer_size", ["self"], HB)
    a.cases(ret="self.packet_sender.total_size", frame=a.fields())
    a = c.fn(HC + "::is_send_pending", ["self"], HB)
    a.cases(ret="len(self.packet_sender.packet_send_queue) != 0 or len(self.pending_queue) != 0 or len(self.resend_queue) != 0", frame=a.fields())


# ------------------------------------------------------------------------------------------------ reception
@rule("hc.receive", "C01 C02 C05", "receive hands the application's sink to the packet receiver, once")
def _(c):
    k = 0
    for pick in c.p.picks(HC + "::receive") if hasattr(c.p, "picks") else [None]:
        a = c.fn(HC + "::receive", ["self", "sink"], HB, pick)
        for p in a.returns:
            cs = calls(p, PR + "::receive")
            k += 1
            if c.check(len(cs) == 1 and showref(cs[0].args[0]) == "self.packet_receiver", "receive must deliver from the packet receiver once", a.where(p), (p,)):
                c.check(same(cs[0].args[1], a.at(a.st0, p.facts)("raw(sink)"), p.facts), "receive must deliver to the given sink", cs[0].loc, (p, cs[0].args[1]))
            a.unchanged(p, a.st0, a.fields("self", "packet_receiver"), "receive must leave %s alone")
    c.check(k > 0, "receive never returns")


@rule("hc.data", "C01 C02 C04 C05 C06 C15 C11 C03", "a data frame is processed iff its id lies in the frame window: it is recorded first, once, with its nonce, then each of its datagrams is handled once, in order")
def _(c):
    a = c.fn(HC + "::handle_data_frame", ["self", "frame"], HB)
    inw = "m32(frame.sequence_id - self.frame_ack_queue.receive_window.base_id) < self.frame_ack_queue.receive_window.size"
    hd, ms = PR + "::handle_datagram", FA + "::mark_seen"
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        m = calls(p, ms)
        L = [x.x for x in p.events() if x.kind == "loop"]
        if p.facts.refute(e(inw)):
            c.check(not m and not L and not calls(p, hd), "handle_data_frame: a frame outside the window must be ignored", a.where(p), (p,))
            a.unchanged(p, a.st0, a.fields(), "handle_data_frame: a frame outside the window must leave %s alone")
            continue
        if not c.check(p.facts.prove(e(inw)), "handle_data_frame: a frame inside the window must be told from one outside", a.where(p), (p,)):
            continue
        if c.check(len(m) == 1 and showref(m[0].args[0]) == "self.frame_ack_queue", "handle_data_frame: a frame in the window must be recorded exactly once", a.where(p), (p,)):
            c.check(same(m[0].args[1], e("frame.sequence_id"), p.facts) and same(m[0].args[2], e("frame.nonce"), p.facts), "handle_data_frame: the frame's id and nonce must be recorded", m[0].loc, (p,))
    each(c, a, hd, "frame.datagrams", "handle_data_frame", lambda e, x: same(e.args[1], x, e.facts) or same(val(a, e, 1), x, e.facts))
    for e, p in a.sel(lambda e: e.kind == "call" and e.name == hd):
        c.check(showref(e.args[0]) == "self.packet_receiver", "handle_data_frame: datagrams go to the packet receiver", e.loc)
        c.check(e.facts.prove(a.at(a.st0, e.facts)(inw)), "handle_data_frame: datagrams may be handled only if the frame lies in the window", e.loc, (p,))


def each(c, a, name, seq, who, isx):
    """the call happens exactly once for every element of the sequence, in order: it is made once per iteration of a loop that takes
    the elements from the front, and the loop is left only when none is left"""
    evs = uniq(a, name)
    if not c.check(len(evs) > 0, "%s: the elements of %s are not handled" % (who, seq)):
        return
    for e, p in evs:
        Ls = [x.x for x in p.events()[:p.events().index(e)] if x.kind == "loop"]
        if not c.check(bool(Ls), "%s: every element of %s must be handled" % (who, seq), e.loc, (p,)):
            continue
        L = Ls[-1]
        s0 = a.env0(seq)
        found = None
        for s in L.syms.values():
            en = L.entry.get(s)
            if en is None:
                continue
            # a remaining sequence, taken from the front
            if same(en, s0, L.pre.facts) and all(same(a.sval(L, s, st), mk("popf", s), st.facts) for st in L.backs) and L.backs:
                found = ("seq", s)
        if found is None:
            for i, i0 in a.counters(L, I(0)):
                found = ("idx", i)
        if not c.check(found is not None, "%s: the elements of %s must be taken in order" % (who, seq), e.loc, (p,)):
            continue
        ev = Env(a.ip, St(L.hst.mem, e.facts, None), dict(a.env0.names), a.st0)
        if found[0] == "seq":
            tid = a.env0.elem_tid(a.env0.term(seq).tid)
            x = ev.bind(q=N(found[1], a.env0.term(seq).tid))("q[0]") if False else a.ip.step_val(found[1], ("i", I(0), tid), e.facts)
            left = cmp_eq(a.ip.length(St(L.hst.mem, e.facts, None), found[1]) if hasattr(a.ip, "length") else mk("len", found[1]), I(0))
        else:
            tid = a.env0.elem_tid(a.env0.term(seq).tid)
            x = a.ip.step_val(s0, ("i", found[1], tid), e.facts)
            left = cmp_le(mk("len", s0), found[1])
        c.check(isx(e, x), "%s: each element of %s must be handled itself" % (who, seq), e.loc, (p, x, e.args[-1]))
        for q in a.loop_backs(L):
            n = [v for v in a.seg(q) if v.kind == "call" and v.name == name]
            c.check(len(n) == 1, "%s: each element of %s must be handled exactly once" % (who, seq), e.loc, (q,))
        for q in a.returns:
            if any(v.kind == "loop" and v.x is L for v in q.events()):
                c.check(q.facts.prove(left), "%s: every element of %s must be handled" % (who, seq), a.where(q), (q, left))


@rule("hc.sync", "C11 C02 C03 C01 C10", "a sync frame moves the frame window to its frame id if it has one, the packet window to its packet id if it has one, and is answered")
def _(c):
    a = c.fn(HC + "::handle_sync_frame", ["self", "frame"], HB)
    for p in a.returns:
        f = a.at(p.st, p.facts)
        c.check(p.facts.prove(f("self.sync_reply")), "handle_sync_frame: the sync must be answered", a.where(p), (p,))
        a.unchanged(p, a.st0, a.fields("self", "frame_ack_queue", "packet_receiver", "sync_reply"), "handle_sync_frame must leave %s alone")
    for what, key, fld in (("next_frame_id", FA + "::resynchronize", "self.frame_ack_queue"), ("next_packet_id", PR + "::resynchronize", "self.packet_receiver")):
        for p, some in [x for p in a.returns for x in a.split(p, "is_some(frame.%s)" % what)]:
            cs = calls(p, key)
            if some:
                ok = len(cs) == 1 and showref(cs[0].args[0]) == fld and same(cs[0].args[1], a.at(a.st0, p.facts)("frame.%s.Some" % what), p.facts)
                c.check(ok, "handle_sync_frame: the %s must be applied" % what, a.where(p), (p,))
            else:
                c.check(not cs, "handle_sync_frame: without %s nothing may be resynchronised" % what, a.where(p), (p,))


@rule("hc.ack", "C15 C02 C11 C12 C20 C14 C06 C13", "an acknowledgement frame: each of its groups is applied once, in order, with the current RTT estimate; then the frame window and the packet window move to its bases")
def _(c):
    a = c.fn(HC + "::handle_ack_frame", ["self", "frame"], HB)
    ag, ad, pa = FQ + "::acknowledge_group", FQ + "::advance_transfer_window", PS + "::acknowledge"
    each(c, a, ag, "frame.frame_acks", "handle_ack_frame", lambda e, x: eqv(a, e, x))
    for e, p in uniq(a, ag):
        c.check(showref(e.args[0]) == "self.frame_queue", "handle_ack_frame: groups go to the frame queue", e.loc)
        c.check(same(e.args[2], a.at(a.st0, e.facts)("self.send_rate_comp.prev_rtt_ms") if False else rtt(a, c, e.facts), e.facts), "handle_ack_frame: groups are applied with the current RTT estimate", e.loc, (p, e.args[2]))
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        x, y = calls(p, ad), calls(p, pa)
        if c.check(len(x) == 1 and showref(x[0].args[0]) == "self.frame_queue", "handle_ack_frame: the frame window must be moved once", a.where(p), (p,)):
            c.check(same(x[0].args[1], e("frame.frame_window_base_id"), p.facts), "handle_ack_frame: the frame window must move to the acknowledged base", x[0].loc, (p, x[0].args[1]))
            c.check(same(x[0].args[2], rtt(a, c, p.facts), p.facts), "handle_ack_frame: the window is moved with the current RTT estimate", x[0].loc, (p, x[0].args[2]))
            lp = [k for k, v in enumerate(p.events()) if v.kind == "loop"]
            c.check(bool(lp) and p.events().index(x[0]) > lp[0], "handle_ack_frame: groups must be applied before the frame window moves past them", x[0].loc, (p,))
        if c.check(len(y) == 1 and showref(y[0].args[0]) == "self.packet_sender", "handle_ack_frame: the packet window must be moved once", a.where(p), (p,)):
            c.check(same(y[0].args[1], e("frame.packet_window_base_id"), p.facts), "handle_ack_frame: the packet window must move to the acknowledged base", y[0].loc, (p, y[0].args[1]))
        a.unchanged(p, a.st0, a.fields("self", "frame_queue", "packet_sender"), "handle_ack_frame must leave %s alone")


def eqv(a, e, x):
    v = val(a, e, 1)
    if same(v, x, e.facts):
        return True
    if v.op == "agg":
        return all(same(y, a.ip.step_val(x, ("f", n, t), e.facts), e.facts) for (n, t), y in zip(a.c.p.types[e.x["tids"][1]]["variants"][0]["fields"], v.a[3]))
    return False


def rtt(a, c, facts):
    """the value SendRateComp::rtt_ms() has at function entry"""
    f = c.fn(SR + "::rtt_ms", ["self"])
    e = a.at(a.st0, facts)
    r = [p for p in f.returns]
    fld = [n for n in ("rtt_ms",) if n]
    return e("self.send_rate_comp.rtt_ms")


# ------------------------------------------------------------------------------------------------ emission
def xof(a, e):
    """the queue entry a data push stands for: ('heap', entry) or ('pend', entry)"""
    x = eat(a, e)
    out = []
    pk = val(a, e, 1)
    for kind, ex in (("heap", "htop(self.resend_queue)"), ("pend", "self.pending_queue[0]")):
        q = "self.resend_queue" if kind == "heap" else "self.pending_queue"
        if e.facts.refute(x("len(%s) != 0" % q)):
            continue
        tid = x.elem_tid(x.term(q).tid)
        v = mk("htop", x(q)) if kind == "heap" else x("raw(self.pending_queue[0])")
        y = x.bind(X=N(v, tid))
        if pk is mk("rcof", y("raw(X.fragment_ref.packet)")) or (pk.op == "ini" and pk.a[0] is mk("rcof", y("raw(X.fragment_ref.packet)"))):
            out.append((kind, v, tid))
    return out[0] if len(out) == 1 else None


PUSH = DE + "::push"


@rule("hc.data_push", "C12 C02 C01 C15 C11 C05 C20", "a fragment is transmitted only from the head of the resend queue, once due, or the head of the pending queue; only while its packet is alive and the fragment is unacknowledged; "
      "and it is recorded for resending iff its packet is resendable")
def _(c):
    a = emf(c)
    evs = uniq(a, PUSH)
    kinds = set()
    for e, p in evs:
        X = xof(a, e)
        if not c.check(X is not None, "a transmitted fragment must be of the packet at the head of the resend or pending queue", e.loc, (p, val(a, e, 1))):
            continue
        kind, v, tid = X
        kinds.add(kind)
        x = eat(a, e).bind(X=N(v, tid))
        x = x.bind(PK=N(mk("ini", mk("rcof", x("raw(X.fragment_ref.packet)"))), pkt(c)))
        rc = mk("rcof", x("raw(X.fragment_ref.packet)"))
        c.check(same(e.args[2], x("X.fragment_ref.fragment_id"), e.facts), "a transmission must be of the queued fragment", e.loc, (p, e.args[2]))
        c.check(e.facts.prove(mk("alive", rc)), "a fragment may be transmitted only while its packet is alive", e.loc, (p,))
        c.check(e.facts.refute(ackbit(a, e, x)), "a fragment may be transmitted only while it is not acknowledged", e.loc, (p, ackbit(a, e, x)))
        if kind == "heap":
            c.check(same(e.args[3], TRUE, e.facts), "a retransmission must be recorded as resendable", e.loc, (p, e.args[3]))
            c.check(e.facts.prove(x("X.resend_time <= now_ms")), "a fragment may be retransmitted only when it is due", e.loc, (p,))
        else:
            c.check(same(e.args[3], x("X.resend"), e.facts), "a transmission must be recorded as resendable iff the packet is", e.loc, (p, e.args[3]))
    c.check(kinds == {"heap", "pend"}, "fragments must be sent from the resend queue and from the pending queue (%s)" % sorted(kinds))


def pkt(c):
    return c.p.fn(H + "pending_packet::PendingPacket::new").locals[0]


def ackbit(a, e, x):
    return x("bit(PK.ack_flags[X.fragment_ref.fragment_id // 64], m6(X.fragment_ref.fragment_id))")


@rule("hc.data_after", "C12 C02 C11 C01 C05 C20", "after a transmission exactly its queue entry is removed, and a resendable fragment is queued for resending once, due one RTT later (doubled after the first retransmission, at most four RTTs); "
      "after a refusal nothing is removed, and sending goes on later; a sync frame may still follow when the window was full")
def _(c):
    a = emf(c)
    n = {}
    for e, seg, st, p in ends(a, PUSH):
        X = xof(a, e)
        if X is None:
            continue
        kind, v, tid = X
        b = eat(a, e)
        f = a.at(st, st.facts)
        fx = st.facts
        pend0, heap0 = b("self.pending_queue"), b("self.resend_queue")
        pend1, heap1 = f("self.pending_queue"), f("self.resend_queue")
        ok = isok(e.ret)
        if len([y for y in seg if y.kind == "call" and y.name == PUSH]) != 1:
            c.fail("one queue entry must be transmitted at a time", e.loc, (st.facts,))
            continue
        if fx.refute(ok):
            n[kind, "no"] = 1
            c.check(same(pend0, pend1, fx) and same(heap0, heap1, fx), "a refused fragment must stay queued", e.loc, (Path("x", st), pend1, heap1))
            c.check(p is not None, "after a refusal no further fragment may be tried in this flush", e.loc, (Path("x", st),))
            continue
        if not c.check(fx.prove(ok), "whether a fragment was accepted must be looked at", e.loc, (Path("x", st),)):
            continue
        n[kind, "yes"] = 1
        x = b.bind(X=N(v, tid))
        if kind == "heap":
            c.check(same(pend0, pend1, fx), "a retransmission must leave the pending queue alone", e.loc, (Path("x", st),))
            base, rs = mk("hpop", heap0), TRUE
            when = x("now_ms + rtt_ms * pow2(X.send_count)") if False else plus(x("now_ms"), a.ip.mul(x("rtt_ms"), a.ip.pow2(x("X.send_count")))) if hasattr(a.ip, "pow2") else None
        else:
            c.check(same(pend1, mk("popf", pend0), fx), "exactly the transmitted fragment must leave the pending queue", e.loc, (Path("x", st), pend1))
            base, rs = heap0, x("X.resend")
        for fx2, r in ((fx.plus(rs), True), (fx.plus(bnot(rs)), False)):
            if fx2.inconsistent():
                continue
            if not r:
                c.check(same(heap1, base, fx2), "a fragment that is sent once must not be queued for resending", e.loc, (Path("x", st), heap1))
                continue
            if not c.check(heap1.op == "hpush" and same(heap1.a[0], base, fx2), "a resendable fragment must be queued for resending exactly once", e.loc, (Path("x", st), heap1)):
                continue
            y = f.bind(Y=N(heap1.a[1], f.elem_tid(f.term("self.resend_queue").tid)))
            c.check(same(y("raw(Y.fragment_ref.packet)"), x("raw(X.fragment_ref.packet)"), fx2) and same(y("Y.fragment_ref.fragment_id"), x("X.fragment_ref.fragment_id"), fx2),
                    "the fragment queued for resending must be the one transmitted", e.loc, (Path("x", st), heap1))
            if kind == "pend":
                c.check(same(y("Y.resend_time"), x("now_ms + rtt_ms"), fx2), "the first resend must be due one RTT after transmission", e.loc, (Path("x", st), y("Y.resend_time")))
                c.check(fx2.prove(y("Y.send_count >= 1 and Y.send_count <= 2")), "the resend backoff must start between two and four RTTs", e.loc, (Path("x", st), y("Y.send_count")))
            else:
                t, s, k = y("Y.resend_time"), y("Y.send_count"), x("X.send_count")
                f3 = fx2.plus(x("X.send_count >= 1 and X.send_count <= 2"))
                c.check(f3.prove(y("Y.send_count >= 1 and Y.send_count <= 2")), "the resend backoff must stay between two and four RTTs", e.loc, (Path("x", st), s))
                for kk in (1, 2):
                    f4 = fx2.plus(cmp_eq(k, I(kk)), x("rtt_ms <= %d" % (1 << 40)))
                    tt = f4.simp(t) if hasattr(f4, "simp") else t
                    want = plus(x("now_ms"), a.ip.mul(x("rtt_ms"), I(1 << kk))) if hasattr(a.ip, "mul") else x("now_ms + %d * rtt_ms" % (1 << kk))
                    c.check(resend_at(a, t, k, kk, x("now_ms"), x("rtt_ms"), f4), "a resend must be due %d RTTs later (send count %d)" % (1 << kk, kk), e.loc, (Path("x", st), t))
    for k in (("heap", "no"), ("heap", "yes"), ("pend", "no"), ("pend", "yes")):
        c.check(k in n, "no path for a %s fragment %s" % (k[0], {"no": "refused", "yes": "accepted"}[k[1]]))


def subst(t, x, v, facts=None):
    """t with the subterm x replaced by v, rebuilt for the operators of resend times"""
    if t is x:
        return v
    if t.op == "pow2":
        y = subst(t.a[0], x, v, facts)
        return I(1 << y.a[0]) if y.op == "int" else mk("pow2", y)
    if t.op == "mul":
        y, z = subst(t.a[0], x, v, facts), subst(t.a[1], x, v, facts)
        if y.op == "int":
            return scale(z, y.a[0])
        if z.op == "int":
            return scale(y, z.a[0])
        return mk("mul", y, z)
    if t.op == "lin":
        r = I(t.a[0])
        for y, k in t.a[1]:
            r = plus(r, scale(subst(y, x, v, facts), k))
        return r
    if t.op == "mod":
        y = subst(t.a[1], x, v, facts)
        return y if facts is not None and facts.prove(cmp_le(y, I((1 << t.a[0]) - 1))) else mk("mod", t.a[0], y)
    if t.op in ("min", "max"):
        ys = [subst(y, x, v, facts) for y in t.a]
        if all(y.op == "int" for y in ys):
            return I((min if t.op == "min" else max)(y.a[0] for y in ys))
    return t


def scale(t, k):
    r = I(0)
    for _ in range(k):
        r = plus(r, t)
    return r


def resend_at(a, t, k, kk, now, rtt_, facts):
    return same(subst(t, k, I(kk), facts), plus(now, scale(rtt_, 1 << kk)), facts)


@rule("hc.data_drop", "C02 C12 C01 C20 C11", "an entry leaves the resend or pending queue untransmitted only if its packet is gone or the fragment is acknowledged")
def _(c):
    a = emf(c)
    n = 0
    for e, p in a.sel(lambda e: e.kind == "op" and e.name in ("heap.pop", "pop_front", "heap.clear", "clear", "truncate", "drain", "retain", "pop_back", "remove", "swap_remove") and
                      showref(e.args[0]) in ("self.resend_queue", "self.pending_queue")):
        q = showref(e.args[0])
        heap = q == "self.resend_queue"
        if not c.check(e.name == ("heap.pop" if heap else "pop_front"), "entries may be taken only from the head of the %s" % q[5:], e.loc, (p,)):
            continue
        seg, _ = segment_of(p, e)
        i = seg.index(e)
        before = [y for y in seg[:i] if y.kind == "call" and y.name == PUSH]
        if before:
            continue            # judged by hc.data_after
        n += 1
        x = eat(a, e)
        tid = x.elem_tid(x.term(q).tid)
        v = mk("htop", x(q)) if heap else x("raw(self.pending_queue[0])")
        x = x.bind(X=N(v, tid))
        rc = mk("rcof", x("raw(X.fragment_ref.packet)"))
        gone = bnot(mk("alive", rc))
        ok = e.facts.prove(gone)
        if not ok:
            x = x.bind(PK=N(mk("ini", rc), pkt(c)))
            try:
                ok = e.facts.prove(ackbit(a, e, x))
            except Missing:
                ok = False
        c.check(ok, "an entry may be dropped from the %s only if its packet is gone or the fragment acknowledged" % q[5:], e.loc, (p,))
        fol = [y for y in seg[i + 1:] if y.kind == "op" and y.name in ("heap.pop", "pop_front") and y.args and y.args[0] is e.args[0]]
        c.check(not fol, "entries are dropped one at a time", e.loc, (p,))
    c.check(n >= 2, "stale entries must be dropped from both queues")


EP = PS + "::emit_packet"
POLL = DE + "::poll"


@rule("hc.packet", "C12 C05 C04 C02 C01", "a packet leaves the send queue only when no fragment is pending and a frame can take one at once; its fragments 0..=last are queued once, in order, resendable iff the packet is")
def _(c):
    a = emf(c)
    evs = uniq(a, EP)
    c.check(len(evs) > 0, "packets never leave the send queue")
    for e, p in evs:
        x = eat(a, e)
        c.check(showref(e.args[0]) == "self.packet_sender" and same(e.args[1], a.env0("flush_id"), e.facts), "packets must be taken from the packet sender under the given flush id", e.loc, (p, e.args[1]))
        c.check(e.facts.prove(x("len(self.pending_queue) == 0")), "a packet may leave the send queue only when no fragment is pending", e.loc, (p,))
        seg, _ = segment_of(p, e)
        prior = [y for y in seg[:seg.index(e)] if y.kind == "call" and y.name in (PUSH, POLL, EP, DE + "::finalize")]
        ok = bool(prior) and prior[-1].name == POLL and e.facts.prove(isok(prior[-1].ret))
        c.check(ok, "a packet may leave the send queue only when a frame can take a fragment at once", e.loc, (p,))
    # the fragments
    fills = a.sel(lambda e: e.kind == "op" and e.name in ("push_back", "push_front", "extend", "append", "insert") and showref(e.args[0]) == "self.pending_queue")
    c.check(len(fills) > 0, "the fragments of a packet are never queued")
    done = set()
    for e, p in fills:
        if not c.check(e.name == "push_back", "fragments must be queued at the back", e.loc, (p,)):
            continue
        src = [y for y in p.events()[:p.events().index(e)] if y.kind == "call" and y.name == EP]
        Ls = [y.x for y in p.events()[:p.events().index(e)] if y.kind == "loop"]
        if not c.check(bool(src) and bool(Ls), "fragments must be queued for the packet that left the send queue, in a loop", e.loc, (p,)):
            continue
        x = eat(a, e)
        s = src[-1]
        c.check(e.facts.prove(cmp_eq(mk("discr", s.ret, 2), I(1))), "fragments may be queued only if a packet left the send queue", e.loc, (p,))
        y = x.bind(Y=N(e.args[1], x.elem_tid(x.term("self.pending_queue").tid)), R=N(s.ret, c.p.fn(EP).locals[0]))
        w = y("raw(Y.fragment_ref.packet)")
        pkr = y("raw(R.Some)")
        c.check(w.op == "weak" and show(w.a[0]).startswith(show(s.ret)), "the fragment must refer to the packet that left the send queue", e.loc, (p, w))
        r = y("Y.resend")
        c.check(show(r).startswith(show(s.ret)) and r is not w.a[0], "the fragment must be resendable iff the packet is", e.loc, (p, r))
        L = Ls[-1]
        fid = y("Y.fragment_ref.fragment_id")
        ent = [L.entry.get(q) for q in L.syms.values() if q is fid]
        c.check(bool(ent) and ent[0] is I(0), "fragments must be numbered from 0", e.loc, (p, fid))
        if (id(L)) in done:
            continue
        done.add(id(L))
        lastf = lasts(c, y, w)
        for q in a.loop_backs(L):
            pu = [z for z in a.seg(q) if z.kind == "op" and z.name == "push_back" and showref(z.args[0]) == "self.pending_queue"]
            c.check(len(pu) == 1, "each fragment must be queued exactly once", e.loc, (q,))
            v = a.sval(L, fid, q.st)
            h = a.at(L.hst, q.facts)
            step = v is not None and same(v, plus(fid, I(1)), q.facts)
            endd = any(q.facts.prove(cmp_eq(fid, z)) for z in lastf)
            c.check(step or endd, "fragments must be queued in order, none left out", e.loc, (q, v))
        # leaving the loop: all fragments were queued
        ex = [z for z in L.syms.values() if "exhausted" in show(z)]
        okx = [z for z in ex if L.entry.get(z) is FALSE and all(same(a.sval(L, z, q.st), z, q.facts) or any(q.facts.prove(cmp_eq(fid, w2)) for w2 in lastf) for q in a.loop_backs(L))]
        for q in a.paths:
            evs2 = q.events()
            at_ = [k for k, z in enumerate(evs2) if z.kind == "loop" and z.x is L]
            if not at_ or (q.kind == "back" and q.loop is L) or q.kind == "panic":
                continue
            good = any(q.facts.prove(bor(cmp_lt(z, fid), *[o for o in okx])) for z in lastf)
            c.check(good, "every fragment of the packet must be queued", a.where(q), (q,))


def lasts(c, y, w):
    """the last fragment id of the packet behind a weak reference"""
    return [y.bind(PK=N(mk("ini", w.a[0]), pkt(c)))("PK.last_fragment_id")]


@rule("hc.order", "C11 C02 C05 C12 C13", "a flush sends acknowledgements, then due retransmissions, then pending fragments and new packets, each until nothing is left or the frame window or budget is exhausted; then a sync frame if due; every frame in progress is sent")
def _(c):
    a = emf(c)
    FIN, AFIN, AP = DE + "::finalize", AE + "::finalize", AE + "::push"
    for p in a.returns:
        ev = p.events()
        fx = p.facts
        nm = [e.name if e.kind == "call" else None for e in ev]
        lim = [e for e in ev if e.kind == "call" and e.name in (PUSH, POLL, AP, AE + "::push_dud") and fx.refute(isok(e.ret))]
        amk = [e for e in ev if e.kind == "call" and e.name == AE + "::new"]
        dmk = [e for e in ev if e.kind == "call" and e.name == DE + "::new"]
        c.check(len(amk) == 1, "a flush must send the owed acknowledgements", a.where(p), (p,))
        ack_lim = [e for e in lim if e.name.startswith(AE)]
        dat_lim = [e for e in lim if e.name.startswith(DE)]
        af = [e for e in ev if e.kind == "call" and e.name == AFIN]
        df = [e for e in ev if e.kind == "call" and e.name == FIN]
        c.check(len(af) <= 1 and len(df) <= 1, "a flush must finish its last frame once", a.where(p), (p,))
        if not ack_lim:
            c.check(len(af) == 1, "a flush must send the acknowledgement frame in progress", a.where(p), (p,))
            if af:
                x = eat(a, af[0])
                ps = [e for e in ev if e.kind == "call" and e.name == AP]
                c.check(af[0].facts.prove(x("len(self.frame_ack_queue.entries) == 0")), "a flush must send every owed acknowledgement", af[0].loc, (p,))
            if not c.check(len(dmk) == 1, "a flush must go on to the data after the acknowledgements", a.where(p), (p,)):
                continue
            c.check(not af or ev.index(af[0]) < ev.index(dmk[0]), "acknowledgements must be sent before data", a.where(p), (p,))
        if dmk and not dat_lim:
            if c.check(len(df) == 1, "a flush must send the data frame in progress", a.where(p), (p,)):
                x = eat(a, df[0])
                c.check(df[0].facts.prove(x("len(self.pending_queue) == 0")), "a flush must send every pending fragment", df[0].loc, (p,))
                em = [e for e in ev if e.kind == "call" and e.name == EP]
                none = em and df[0].facts.prove(cmp_eq(mk("discr", em[-1].ret, 2), I(0)))
                c.check(none or df[0].facts.prove(x("len(self.packet_sender.packet_send_queue) == 0")), "a flush must send new packets while the sender admits them", df[0].loc, (p,))
        # the due retransmissions come before anything else
        first = [e for e in ev if e.kind == "call" and e.name in (POLL, EP, FIN)]
        first += [e for e in ev if e.kind == "call" and e.name == PUSH and (xof(a, e) or ("", ""))[0] == "pend"]
        first.sort(key=lambda e: ev.index(e))
        RL = [e.x for e in ev if e.kind == "loop" and any(z.kind == "op" and z.name == "heap.pop" for q in a.loop_backs(e.x) for z in a.seg(q))]
        if first and not dat_lim or first and dat_lim and ev.index(first[0]) <= ev.index(dat_lim[0]):
            if c.check(bool(RL), "due fragments must be retransmitted first", first[0].loc, (p,)):
                L = RL[0]
                x = a.at(L.hst, first[0].facts)
                tid = x.elem_tid(x.term("self.resend_queue").tid)
                x = x.bind(X=N(mk("htop", x("self.resend_queue")), tid))
                c.check(first[0].facts.prove(x("len(self.resend_queue) == 0 or X.resend_time > now_ms")), "every due fragment must be retransmitted before new ones are sent", first[0].loc, (p,))
    # the queues are emptied only through the emitters
    for e, p in uniq(a, AP):
        x = eat(a, e)
        c.check(same(val(a, e, 1), x("raw(self.frame_ack_queue.entries[0])"), e.facts), "the acknowledgement sent must be the oldest owed one", e.loc, (p, val(a, e, 1)))
    pop = FA + "::pop"
    for e, seg, st, p in ends(a, AP):
        pops = [y for y in seg if y.kind == "call" and y.name == pop]
        pushes = [y for y in seg if y.kind == "call" and y.name == AP]
        if st.facts.prove(isok(e.ret)):
            c.check(len(pushes) == 1 and len(pops) == 1 and seg.index(pops[0]) > seg.index(e), "an acknowledgement must be removed exactly once when sent", e.loc, (Path("x", st),))
        else:
            c.check(st.facts.refute(isok(e.ret)) and not pops, "an acknowledgement must stay owed when refused", e.loc, (Path("x", st),))
            c.check(p is not None, "after a refusal no further acknowledgement may be tried in this flush", e.loc, (Path("x", st),))
    for e, p in uniq(a, pop):
        seg, _ = segment_of(p, e)
        c.check(any(y.kind == "call" and y.name == AP and seg.index(y) < seg.index(e) for y in seg), "an acknowledgement may be removed only when sent", e.loc, (p,))


@rule("hc.dud", "C11 C10 C02", "an acknowledgement frame is sent for every sync received, even when no acknowledgement is owed")
def _(c):
    a = emf(c)
    n = 0
    for p, sr in [x for p in a.returns for x in a.split(p, "self.sync_reply")]:
        d = calls(p, AE + "::push_dud")
        if sr:
            n += 1
            c.check(len(d) >= 1, "a received sync must be answered", a.where(p), (p,))
            mk_ = calls(p, AE + "::new")
            ps = calls(p, AE + "::push")
        else:
            c.check(not d, "an empty acknowledgement frame may be sent only to answer a sync", a.where(p), (p,))
    c.check(n > 0, "syncs are never answered")


@rule("hc.emitters", "C03 C13 C15 C11 C12 C14 C10", "the emitters get the present budget, time and window bases; each emitted frame is sent to the peer once, charged to the budget once, and (data) restarts the no-feedback and sync clocks")
def _(c):
    a = emf(c)
    for key, ack in ((AE + "::new", True), (DE + "::new", False)):
        evs = uniq(a, key)
        c.check(len(evs) > 0, "%s is never used" % key)
        for e, p in evs:
            x = eat(a, e)
            if ack:
                c.check(same(e.args[0], x("self.frame_ack_queue.receive_window.base_id"), e.facts), "acknowledgements must carry the frame window base", e.loc, (p, e.args[0]))
                c.check(same(e.args[1], x("self.packet_receiver.base_id"), e.facts), "acknowledgements must carry the packet window base", e.loc, (p, e.args[1]))
            else:
                c.check(same(e.args[0], x("now_ms"), e.facts), "data frames must be logged with the present time", e.loc, (p, e.args[0]))
                c.check(showref(e.args[1]) == "self.frame_queue", "data frames must be logged in the connection's frame queue", e.loc, (p, e.args[1]))
            c.check(same(e.args[2], x("self.flush_alloc"), e.facts), "the emitter must get the present budget", e.loc, (p, e.args[2]))
            clo = e.args[3]
            by = sym("frame_bytes")
            res = a.call_closure(e, clo, (by,))
            c.check(len(res) == 1 and len(a.closures(e)) == 1, "sending a frame must not depend on anything", e.loc, (p,))
            for q in a.closure_panics:
                fx = q.facts.plus(cmp_le(mk("len", by), I(1472)), cmp_le(x("self.flush_alloc"), I(1 << 62)), cmp_le(I(-(1 << 62)), x("self.flush_alloc")))
                c.check(fx.inconsistent(), "sending a frame must not panic (%s)" % q.msg, q.loc, (q,), props=["C03"])
            for q in res:
                f = a.at(q.st, q.facts)
                k0 = len([z for z in St(dict(e.mem), e.facts, None).events()])
                out = [z for z in q.events() if z.kind == "io"]
                fb = [z for z in out if z.name == "send_to"]
                if c.check(len(out) == 1 and len(fb) == 1, "an emitted frame must be sent exactly once", e.loc, (q,)):
                    by_ = fb[0].args[1]
                    c.check(same(a.ip.read(St(fb[0].mem, q.facts, None), by_.a[0], by_.a[1]) if by_.op == "ref" else by_, by, q.facts) or (by_.op == "ref" and by_.a[0] == ("O", by)), "the bytes sent must be the frame's", fb[0].loc, (q, by_))
                c.check(same(f("self.flush_alloc"), sub(x("self.flush_alloc"), mk("len", by)), q.facts), "the frame's size must be charged to the budget exactly once", e.loc, (q, f("self.flush_alloc")))
                nf = [z for z in q.events() if z.kind == "call" and z.name == SR + "::notify_frame_sent"]
                keep = ["packet_sender", "pending_queue", "resend_queue", "packet_receiver", "frame_ack_queue", "flush_id"]
                if ack:
                    c.check(not nf, "acknowledgements must not restart the no-feedback timer", e.loc, (q,))
                    c.check(q.facts.prove(f("not self.sync_reply")), "an acknowledgement frame must settle the owed sync reply", e.loc, (q,))
                    c.check(same(f("self.sync_timeout_base_ms"), x("self.sync_timeout_base_ms"), q.facts), "acknowledgements must not restart the sync clock", e.loc, (q,))
                else:
                    c.check(len(nf) == 1 and showref(nf[0].args[0]) == "self.send_rate_comp" and same(nf[0].args[1], x("now_ms"), q.facts), "every data frame must be reported to the rate controller with the present time", e.loc, (q,))
                    c.check(same(f("self.sync_timeout_base_ms"), x("now_ms"), q.facts), "a data frame must restart the sync clock", e.loc, (q,))
                    c.check(same(f("self.sync_reply"), x("self.sync_reply"), q.facts), "a data frame must not settle the owed sync reply", e.loc, (q,))
                for z in keep:
                    c.check(same(f("self." + z), x("self." + z), q.facts), "sending a frame must leave %s alone" % z, e.loc, (q,))
    # no other transmission than through the emitters and the sync frame
    for e, p in a.sel(is_io("send_to")):
        seg, _ = segment_of(p, e)
        w = [y for y in p.events()[:p.events().index(e)] if y.kind == "call" and y.name == WR]
        c.check(bool(w), "frames may be sent only through the emitters or as a sync frame", e.loc, (p,))


SYNCDUE = "now_ms - self.sync_timeout_base_ms >= max(rto_ms, 2000)"
FID = "self.frame_queue.frame_log.next_id != self.frame_queue.window.base_id"
PID = "(self.packet_sender.next_id != self.packet_sender.base_id and len(self.resend_queue) == 0 and len(self.pending_queue) == 0)"
KEEP = "(is_some(self.sync_keepalive_interval_ms) and now_ms - self.sync_timeout_base_ms >= self.sync_keepalive_interval_ms.Some)"


@rule("hc.syncs", "C11 C02 C10 C13", "a sync frame is sent iff max(RTO, 2 s) passed since the last data or sync frame, budget is left, and frames are unacknowledged (then it carries the next frame id), or packets are with nothing left to resend "
      "(then the next packet id), or the keepalive interval has passed; it is charged to the budget and restarts the clock")
def _(c):
    a = emf(c)
    n = 0
    for e, p in uniq(a, WR):
        x = eat(a, e)
        fx = e.facts
        n += 1
        v = val(a, e, 0)
        tid = c.p.fn(WR).locals[1]
        y = x.bind(F=N(v, c.p.types[tid]["t"] if c.p.types[tid]["k"] == "ref" else tid))
        if not c.check(fx.prove(y("isv(F, 'SyncFrame')")), "only sync frames may be written here", e.loc, (p, v)):
            continue
        c.check(fx.prove(x(SYNCDUE)), "a sync frame may be sent only when max(RTO, 2 s) passed since the last frame", e.loc, (p,))
        c.check(fx.prove(x("self.flush_alloc >= 0")), "a sync frame may be sent only while budget is left", e.loc, (p,))
        for nm, cond, val_ in (("next_frame_id", FID, "self.frame_queue.frame_log.next_id"), ("next_packet_id", PID, "self.packet_sender.next_id")):
            some = y("is_some(F.SyncFrame.%s)" % nm)
            g1, g2 = fx.plus(x(cond)), fx.plus(bnot(x(cond)))
            if not g1.inconsistent():
                c.check(g1.prove(some) and same(y.at_facts(g1)("F.SyncFrame.%s.Some" % nm) if hasattr(y, "at_facts") else Env(a.ip, St(e.mem, g1, None), y.names, a.st0)("F.SyncFrame.%s.Some" % nm), x(val_), g1),
                        "the sync frame must carry %s while unacknowledged" % nm, e.loc, (p, v))
            if not g2.inconsistent():
                c.check(g2.refute(some), "the sync frame must not carry %s otherwise" % nm, e.loc, (p, v))
        g3 = fx.plus(bnot(x(FID)), bnot(x(PID)))
        if not g3.inconsistent():
            c.check(g3.prove(x(KEEP)), "a sync frame without ids may be sent only as a keepalive", e.loc, (p,))
    c.check(n > 0, "sync frames are never sent")
    for p in a.returns:
        w = calls(p, WR)
        f = a.at(p.st, p.facts)
        if w:
            so = [z for z in sends(p) if p.events().index(z) > p.events().index(w[0])]
            c.check(len(w) == 1 and len(so) == 1 and (same(so[0].args[1], w[0].ret, p.facts) or so[0].args[1].op == "ref" and so[0].args[1].a[0] == ("O", w[0].ret)), "the sync frame must be sent once", w[0].loc, (p,))
            b = eat(a, w[0])
            c.check(same(f("self.flush_alloc"), sub(b("self.flush_alloc"), mk("len", w[0].ret)), p.facts), "the sync frame must be charged to the budget", w[0].loc, (p, f("self.flush_alloc")))
            c.check(same(f("self.sync_timeout_base_ms"), f("now_ms"), p.facts), "a sync frame must restart the sync clock", w[0].loc, (p,))
            continue
        lim = [e for e in p.events() if e.kind == "call" and e.name in (PUSH, POLL, AE + "::push", AE + "::push_dud") and p.facts.refute(isok(e.ret))]
        size = [TRUE if e.name.startswith(AE) else cmp_eq(mk("discr", errof(a, e), 2), I(0)) for e in lim]
        no = f("not (%s) or not (%s or %s or %s) or self.flush_alloc < 0" % (SYNCDUE, FID, PID, KEEP))
        if TRUE not in size:
            c.check(p.facts.plus(*[bnot(z) for z in size]).prove(no), "a due sync frame must be sent (also when the frame window is full)", a.where(p), (p, no))


def errof(a, e):
    return a.ip.step_val(a.ip.step_val(e.ret, ("v", "Err", 1), e.facts), ("f", "0", e_tid(a, e)), e.facts)


def e_tid(a, e):
    f = a.c.p.fn(e.name)
    return a.c.p.types[f.locals[0]]["variants"][1]["fields"][0][1]


# ------------------------------------------------------------------------------------------------ time
@rule("hc.flush", "C13 C12 C02", "flush emits with the time, RTT, RTO and flush id of the last step")
def _(c):
    a = c.fn(HC + "::flush", ["self", "sink"], HB | {HC + "::emit_frames"})
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        cs = calls(p, HC + "::emit_frames")
        if c.check(len(cs) == 1, "flush must emit once", a.where(p), (p,)):
            for i, w in enumerate(["self.now_ms", "self.rtt_ms", "self.rto_ms", "self.flush_id", "raw(sink)"]):
                c.check(same(cs[0].args[i + 1], e(w), p.facts), "flush must emit with %s" % w, cs[0].loc, (p, cs[0].args[i + 1]))
            c.check(all(same(a.at(cs[0] and St(cs[0].mem, p.facts, None), p.facts)(w), e(w), p.facts) for w in a.fields()), "flush must not change the connection before emitting", a.where(p), (p,))


@rule("hc.step", "C13 C12 C14 C10 C11 C15 C05", "a step reads the clock once, remembers time, RTT and RTO for the flushes, forgets frames older than the RTO, refills the budget with rate x elapsed time (no more than rate x RTT in stock), "
      "opens a new flush id, and hands the feedback to the rate controller once")
def _(c):
    a = c.fn(HC + "::step", ["self"], HB)
    for p in a.returns:
        fx = p.facts
        e, f = a.at(a.st0, fx), a.at(p.st, fx)
        io = [x for x in p.events() if x.kind == "io"]
        if not c.check(len(io) == 1, "step must read the clock once", a.where(p), (p,)):
            continue
        e = e.bind(now=N(io[0].ret))
        now = e("m64(millis(tdiff(now, self.time_base)))")
        e, f = e.bind(ms=N(now)), f.bind(ms=N(now))
        c.check(same(f("self.now_ms"), now, fx), "step must remember the present time", a.where(p), (p, f("self.now_ms")))
        for n in ("rtt_ms", "rto_ms"):
            for q, some in a.split(p, "is_some(self.send_rate_comp.%s)" % n):
                fq = a.at(q.st, q.facts)
                if some:
                    c.check(same(fq("self.%s" % n), e("self.send_rate_comp.%s.Some" % n), q.facts), "step must remember the present %s" % n, a.where(p), (q, fq("self." + n)))
                else:
                    c.check(fq("self.%s" % n).op == "int" and fq("self.%s" % n).a[0] > 0, "step must assume a fixed positive %s before it is known" % n, a.where(p), (q,))
        rto = f("self.rto_ms")
        fo, gf, ss = calls(p, FQ + "::forget_frames"), calls(p, FQ + "::get_feedback"), calls(p, SR + "::step")
        if c.check(len(fo) == 1 and showref(fo[0].args[0]) == "self.frame_queue", "step must forget old frames once", a.where(p), (p,)):
            w = a.ip.sat_sub(now, rto) if hasattr(a.ip, "sat_sub") else e.bind(r=N(rto))("max(0, ms - r)")
            c.check(same(fo[0].args[1], w, fx), "step must forget the frames older than the RTO", fo[0].loc, (p, fo[0].args[1]))
            c.check(same(fo[0].args[2], e("self.send_rate_comp.rtt_ms"), fx), "frames are forgotten with the current RTT estimate", fo[0].loc, (p, fo[0].args[2]))
        for q, some in a.split(p, "is_some(self.time_last_flushed)"):
            eq = a.at(a.st0, q.facts).bind(now=N(io[0].ret))
            fq = a.at(q.st, q.facts)
            if not some:
                c.check(same(fq("self.flush_alloc"), eq("self.flush_alloc"), q.facts), "the first step must leave the budget alone", a.where(p), (q,))
                continue
            for q2, k in a.split(q, "is_some(self.send_rate_comp.rtt_s)"):
                e2 = a.at(a.st0, q2.facts).bind(now=N(io[0].ret))
                f2 = a.at(q2.st, q2.facts)
                new = "(i2f(self.send_rate_comp.send_rate) * secs(tdiff(now, self.time_last_flushed.Some)) + self.flush_alloc_fract)"
                cap = "isize(i2f(self.send_rate_comp.send_rate) * %s)" % ("self.send_rate_comp.rtt_s.Some" if k else "0.0")
                got = f2("self.flush_alloc")
                w = e2("min(max(min(self.flush_alloc + isize(%s), 9223372036854775807), 0 - 9223372036854775808), %s)" % (new, cap))
                c.check(same(got, w, q2.facts), "the budget must grow by rate x elapsed time, up to rate x RTT", a.where(p), (q2, got, w))
                c.check(same(f2("self.flush_alloc_fract"), e2("fract(%s)" % new), q2.facts), "the fraction of a byte must be carried over exactly", a.where(p), (q2, f2("self.flush_alloc_fract")))
        c.check(p.facts.prove(f("is_some(self.time_last_flushed)")) and same(f("self.time_last_flushed.Some"), io[0].ret, fx), "step must remember when the budget was filled", a.where(p), (p,))
        c.check(same(f("self.flush_id"), e("m32(self.flush_id + 1)"), fx), "every step must open a new flush id", a.where(p), (p, f("self.flush_id")))
        if c.check(len(gf) == 1 and showref(gf[0].args[0]) == "self.frame_queue" and same(gf[0].args[1], now, fx), "step must take the feedback once, at the present time", a.where(p), (p,)) and \
           c.check(len(ss) == 1 and showref(ss[0].args[0]) == "self.send_rate_comp", "step must advance the rate controller once", a.where(p), (p,)):
            s = ss[0]
            ev = p.events()
            c.check(same(s.args[1], now, fx), "the rate controller must get the present time", s.loc, (p, s.args[1]))
            c.check(same(s.args[2], gf[0].ret, fx), "the rate controller must get the feedback", s.loc, (p, s.args[2]))
            if fo:
                c.check(ev.index(fo[0]) < ev.index(gf[0]), "old frames must be forgotten before the feedback is computed", s.loc, (p,))
            x = sym("new_rate")
            res = a.call_closure(s, s.args[3], (x,))
            for q in res:
                r = [z for z in q.events() if z.kind == "call"]
                c.check(len(r) == 1 and r[0].name == FQ + "::reset_loss_rate" and showref(r[0].args[0]) == "self.frame_queue" and same(r[0].args[1], x, q.facts), "the rate controller's loss rate reset must reach the loss history", s.loc, (q,))
        a.unchanged(p, a.st0, ["self.packet_sender", "self.pending_queue", "self.resend_queue", "self.packet_receiver", "self.frame_ack_queue", "self.time_base", "self.sync_timeout_base_ms",
                               "self.sync_reply", "self.sync_keepalive_interval_ms"], "step must leave %s alone")


@rule("rq.order", "C12 C02 C11", "the resend queue yields the fragment that is due first")
def _(c):
    E = H + "resend_queue::Entry"
    for key, w in (("<%s as std::cmp::Ord>::cmp" % E, "ret"), ("<%s as std::cmp::PartialOrd>::partial_cmp" % E, "ret.Some")):
        a = c.fn(key, ["self", "other"])
        for cond, v in (("self.resend_time < other.resend_time", "Greater"), ("self.resend_time > other.resend_time", "Less")):
            a.cases(cond, holds=["isv(%s, '%s')" % (w, v)])
