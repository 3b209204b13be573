"""Frame emitters: how datagrams and acknowledgement groups are packed into frames under the flush budget."""
from ..rules import *

DE = "half_connection::emit::DataFrameEmitter"
AE = "half_connection::emit::AckFrameEmitter"
FQ = "half_connection::frame_queue::FrameQueue"
DB = "frame::serial::build::DataFrameBuilder"
AB = "frame::serial::build::AckFrameBuilder"
DG = "half_connection::pending_packet::PendingPacket::datagram"
CB = "half_connection::HalfConnection::emit_data_frames::{closure0}"
CA = "half_connection::HalfConnection::emit_ack_frames::{closure0}"
BD = frozenset([DB + "::new", DB + "::add", DB + "::build", FQ + "::push", FQ + "::can_push", FQ + "::next_id", FQ + "::mark_rate_limited", DG, CB])
BA = frozenset([AB + "::new", AB + "::add", AB + "::build", CA])
CRC = 4
MAXF = 1472
WIN = 4096
SPAN = 1 << 20


def calls(p, name):
    return [e for e in p.events() if e.kind == "call" and (e.name == name or e.name.endswith("::" + name))]


def rand(p):
    return [e for e in p.events() if e.kind == "io" and e.name == "random"]


def at(a, e, post=False):
    return a.at(St(dict(e.x["post"] if post else e.mem), e.facts, None), e.facts)


def val(a, e, i, post=False):
    x = e.args[i]
    if x.op == "ref":
        return a.ip.read(St(e.x["post"] if post else e.mem, e.facts, None), x.a[0], x.a[1])
    return x


def finalized(c, a, p, who, ack):
    """the events of finalizing the frame in progress: built once, logged (data frames), charged to the budget, emitted once, in
    that order of data flow; returns the frame's bytes"""
    build, emit = calls(p, (AB if ack else DB) + "::build"), calls(p, CA if ack else CB)
    if not build and not emit:
        if not ack:
            c.check(not calls(p, FQ + "::push"), "%s: a frame must be logged only together with its emission" % who, a.where(p), (p,))
        return None
    if not c.check(len(build) == 1 and len(emit) == 1, "%s: finalizing a frame must build it once and emit it once" % who, a.where(p), (p,)):
        return None
    fx = p.facts
    e0 = a.at(a.st0, fx)
    bld = "self.in_progress_frame.Some" + ("" if ack else ".fbuilder")
    src = val(a, build[0], 0)
    by = build[0].ret
    done = same(src, e0(bld), fx)
    if not done:
        # the frame just filled
        done = any(same(src, val(a, x, 0, True), fx) for x in calls(p, (AB if ack else DB) + "::add"))
    c.check(done and fx.prove(e0("is_some(self.in_progress_frame)")), "%s: the frame in progress must be the one built" % who, build[0].loc, (p, src))
    got = emit[0].args[-1]
    tup = a.ip.read(St(emit[0].mem, fx, None), got.a[0], got.a[1]) if got.op == "ref" else got
    c.check(tup.op == "agg" and len(tup.a[3]) == 1 and same(tup.a[3][0], by, fx), "%s: the bytes emitted must be the bytes of the built frame" % who, emit[0].loc, (p, tup))
    if not ack:
        log = calls(p, FQ + "::push")
        if c.check(len(log) == 1, "%s: every emitted data frame must be logged exactly once" % who, a.where(p), (p,)):
            g = log[0]
            c.check(same(g.args[1], mk("len", by), fx) or same(g.args[1], lenof(a, g, by), fx), "%s: the log must record the size of the built frame" % who, g.loc, (p, g.args[1]))
            c.check(same(g.args[2], e0("self.now_ms"), fx), "%s: the log must record the present time" % who, g.loc, (p, g.args[2]))
            c.check(same(g.args[3], e0("self.in_progress_frame.Some.resend_refs"), fx), "%s: the log must record the frame's own resendable fragments" % who, g.loc, (p, g.args[3]))
            c.check(same(g.args[4], e0("self.in_progress_frame.Some.nonce"), fx), "%s: the log must record the nonce sent in the frame" % who, g.loc, (p, g.args[4]))
    return by


def lenof(a, e, v):
    return mk("len", v)


def fq_ref(c, a, p, who):
    fx = p.facts
    for e in p.events():
        if e.kind == "call" and e.name.startswith(FQ + "::"):
            q = a.at(a.st0, fx)("raw(self.frame_queue)")
            c.check(same(e.args[0], q, fx) or e.args[0].op == "ref" and e.args[0].a == (("O", q), ()), "%s: the frame queue of this connection must be used" % who, e.loc, (p, e.args[0]))


@rule("de.new", "C13 C12 C15", "a data frame emitter starts with no frame in progress and the budget it is given")
def _(c):
    a = c.fn(DE + "::new", ["now_ms", "frame_queue", "flush_alloc", "emit_cb"], BD)
    a.cases(holds=["is_none(ret.in_progress_frame)", "ret.flush_alloc == flush_alloc", "ret.now_ms == now_ms"])
    a = c.fn(AE + "::new", ["frame_window_base_id", "packet_window_base_id", "flush_alloc", "emit_cb"], BA)
    a.cases(holds=["is_none(ret.in_progress_frame)", "ret.flush_alloc == flush_alloc", "ret.frame_window_base_id == frame_window_base_id",
                   "ret.packet_window_base_id == packet_window_base_id"])


@rule("de.finalize", "C13 C15 C02 C12 C11 C01", "finalizing builds the frame in progress, logs its size, time, fragments and nonce, charges its size to the budget and emits it once")
def _(c):
    a = c.fn(DE + "::finalize", ["self"], BD)
    n = 0
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        fq_ref(c, a, p, "finalize")
        by = finalized(c, a, p, "finalize", False)
        if by is None:
            c.check(p.facts.prove(e("is_none(self.in_progress_frame)")), "finalize: a frame in progress must be sent", a.where(p), (p,))
            c.check(same(f("self.flush_alloc"), e("self.flush_alloc"), p.facts), "finalize: without a frame the budget must stay", a.where(p), (p,))
            continue
        n += 1
        c.check(same(f("self.flush_alloc"), sub(e("self.flush_alloc"), mk("len", by)), p.facts), "finalize: the frame's size must be charged to the budget", a.where(p), (p, f("self.flush_alloc")))
        c.check(p.facts.prove(f("is_none(self.in_progress_frame)")), "finalize: no frame may stay in progress", a.where(p), (p,))
        log, emit = calls(p, FQ + "::push"), calls(p, CB)
        if log and emit:
            ev = p.events()
            c.check(ev.index(log[0]) < ev.index(emit[0]), "finalize: a frame must be logged before it is emitted", log[0].loc, (p,))
    c.check(n > 0, "finalize emits nothing")


@rule("de.push", "C12 C13 C15 C04 C01 C02 C05 C11 C18", "push adds the fragment's datagram once to the frame in progress, or to a new one if that is full; refuses without budget or window; marks the queue "
      "rate limited exactly when it refuses for lack of budget; no frame exceeds 1472 bytes or repeats packet ids within the peer's window")
def _(c):
    a = c.fn(DE + "::push", ["self", "packet_rc", "fragment_id", "resend"], BD)
    n = {"new": 0, "old": 0, "size": 0, "win": 0}
    for p, had, res in [(q, had, res) for p in a.returns for p1, had in a.split(p, "is_some(self.in_progress_frame)") for q, res in a.split(p1, "resend")]:
        fx = p.facts
        e, f = a.at(a.st0, fx), a.at(p.st, fx)
        r = f.bind(ret=a.retn(p))
        who = "push"
        fq_ref(c, a, p, who)
        by = finalized(c, a, p, who, False)
        left = e("self.flush_alloc")
        if by is not None:
            left = sub(left, mk("len", by))
        c.check(same(f("self.flush_alloc"), left, fx), "push: exactly the frames emitted must be charged to the budget", a.where(p), (p, f("self.flush_alloc")))
        add, new, lim = calls(p, DB + "::add"), calls(p, DB + "::new"), calls(p, FQ + "::mark_rate_limited")
        size = e("len(self.in_progress_frame.Some.fbuilder.buffer) + %d" % CRC) if had else None
        dg = calls(p, DG)
        if fx.prove(r("isv(ret, 'Err')")):
            c.check(not add, "push: a refused fragment must not be put into a frame", a.where(p), (p,))
            c.check(fx.prove(f("is_none(self.in_progress_frame)")), "push: a refusal must leave no frame in progress", a.where(p), (p,))
            c.check(not had or by is not None, "push: a refusal must send the frame in progress", a.where(p), (p,))
            if fx.prove(r("isv(ret.Err, 'SizeLimited')")):
                n["size"] += 1
                c.check(len(lim) == 1, "push: a refusal for lack of budget must mark the queue rate limited", a.where(p), (p,))
                # the frame in progress was counted, or it was full and sent and the rest of the budget is negative
                ok = fx.prove(cmp_lt(left, I(0))) or (had and fx.prove(cmp_lt(sub(e("self.flush_alloc"), size), I(0))))
                c.check(ok, "push: a fragment may be refused for lack of budget only if the budget is exhausted", a.where(p), (p, left))
            else:
                n["win"] += 1
                c.check(fx.prove(r("isv(ret.Err, 'WindowLimited')")), "push: the reason of the refusal must be decided", a.where(p), (p,))
                can = calls(p, FQ + "::can_push")
                c.check(bool(can) and fx.refute(can[-1].ret), "push: a fragment may be refused for lack of window only if the window is full", a.where(p), (p,))
                c.check(not lim, "push: a refusal for lack of window must not mark the queue rate limited", a.where(p), (p,))
            continue
        if not c.check(fx.prove(r("isv(ret, 'Ok')")), "push: the result must be decided", a.where(p), (p,)):
            continue
        c.check(not lim, "push: the queue may be marked rate limited only on a refusal", a.where(p), (p,))
        if not c.check(len(add) == 1 and len(dg) == 1, "push: an accepted fragment must be put into exactly one frame, once", a.where(p), (p,)):
            continue
        d = add[0]
        pk = dg[0]
        c.check(same(pk.args[0], e("raw(packet_rc)"), fx) or same(val(a, pk, 0), e("deref(packet_rc)"), fx), "push: the datagram must be of the given packet", pk.loc, (p, pk.args[0], e("raw(packet_rc)")))
        c.check(same(pk.args[1], e("fragment_id"), fx), "push: the datagram must be of the given fragment", pk.loc, (p, pk.args[1]))
        c.check(same(val(a, d, 1), pk.ret, fx), "push: the datagram added must be the fragment's", d.loc, (p, val(a, d, 1)))
        if not c.check(fx.prove(f("is_some(self.in_progress_frame)")), "push: an accepted fragment must wait in the frame in progress", a.where(p), (p,)):
            continue
        c.check(same(f("self.in_progress_frame.Some.fbuilder"), val(a, d, 0, True), fx), "push: the frame in progress must be the one the fragment was added to", a.where(p), (p,))
        rf, rn = f("self.in_progress_frame.Some.resend_refs"), f("self.in_progress_frame.Some.nonce")
        if had and by is None:
            n["old"] += 1
            c.check(not new and same(val(a, d, 0), e("self.in_progress_frame.Some.fbuilder"), fx), "push: the fragment must join the frame in progress", d.loc, (p,))
            c.check(fx.prove(cmp_le(size, e("self.flush_alloc"))), "push: a fragment may join a frame only while the budget covers the frame", d.loc, (p,))
            x = e.bind(d=N(pk.ret, dgt(a, c)), size=N(size))
            c.check(all(fx.plus(x(w)).inconsistent() for w in TOO_BIG), "push: no frame may exceed 1472 bytes", d.loc, (p,))
            c.check(fx.prove(e("self.in_progress_frame.Some.fbuilder.count < %d" % min(SPAN // (WIN * 2), 127))), "push: a frame may hold at most 127 datagrams (packet ids must stay unique over the peer's window)", d.loc, (p,))
            old = e("self.in_progress_frame.Some.resend_refs")
            c.check(same(rn, e("self.in_progress_frame.Some.nonce"), fx), "push: the nonce of a frame must not change", d.loc, (p,))
        else:
            n["new"] += 1
            c.check(fx.prove(cmp_le(I(0), left)), "push: a new frame may be started only while the budget is not exhausted", d.loc, (p, left))
            can = calls(p, FQ + "::can_push")
            ids, rnd = calls(p, FQ + "::next_id"), rand(p)
            c.check(bool(can) and fx.prove(can[-1].ret), "push: a new frame may be started only if the frame window has room", d.loc, (p,))
            if by is not None and can:
                ev = p.events()
                log = calls(p, FQ + "::push")
                c.check(bool(log) and ev.index(can[-1]) > ev.index(log[-1]) and all(ev.index(i) > ev.index(log[-1]) for i in ids), "push: window and id of a new frame must be taken after the previous frame was logged", d.loc, (p,))
            if c.check(len(new) == 1 and len(ids) >= 1 and len(rnd) == 1, "push: a new frame must take one id and one random nonce", d.loc, (p,)):
                c.check(same(new[0].args[0], ids[-1].ret, fx), "push: a new frame must carry the next frame id", new[0].loc, (p, new[0].args[0]))
                c.check(same(new[0].args[1], rnd[0].ret, fx), "push: a new frame must carry a fresh random nonce", new[0].loc, (p, new[0].args[1]))
                c.check(same(rn, rnd[0].ret, fx), "push: the nonce remembered must be the one in the frame", new[0].loc, (p, rn))
                c.check(same(val(a, d, 0), new[0].ret, fx), "push: the fragment must be added to the new frame", d.loc, (p,))
            old = mk("vempty")
        if res:
            ok = rf.op == "pushb" and same(rf.a[0], old, fx)
            if c.check(ok, "push: a resendable fragment must be recorded once with its frame", d.loc, (p, rf)):
                g = f.bind(g=N(rf.a[1], f.elem_tid(f.term("self.in_progress_frame.Some.resend_refs").tid)))
                c.check(same(g("g.fragment_id"), e("fragment_id"), fx), "push: the record must name the fragment", d.loc, (p,))
                c.check(weak_of(g("raw(g.packet)"), e("deref(packet_rc)")), "push: the record must name the packet", d.loc, (p, g("raw(g.packet)")))
        else:
            c.check(same(rf, old, fx), "push: a fragment that is sent once must not be recorded for resending", d.loc, (p, rf))
    for k, v in n.items():
        c.check(v > 0, "push: no path for the outcome %s" % k)


MICRO = "d.fragment_id_last == 0 and len(d.data) < 64 and d.window_parent_lead < 128 and d.channel_parent_lead < 256"
SMALL = "d.fragment_id_last == 0 and len(d.data) < 256 and not (len(d.data) < 64 and d.window_parent_lead < 128 and d.channel_parent_lead < 256)"
LARGE = "(d.fragment_id_last != 0 or len(d.data) >= 256)"
TOO_BIG = ["%s and size + %d + len(d.data) > %d" % (k, h, MAXF) for k, h in ((MICRO, 6), (SMALL, 9), (LARGE, 14))]


def weak_of(w, x):
    return w.op == "weak" and (w.a[0] is x or x.op == "ini" and w.a[0] is x.a[0])


def dgt(a, c):
    f = c.p.fn(DG)
    return f.locals[0]


@rule("de.poll", "C12 C05 C13 C11", "poll admits a new packet exactly if any of its fragments could be sent at once: budget left after the frame in progress and frame window not full beyond it; "
      "otherwise it sends the frame in progress and tells why")
def _(c):
    a = c.fn(DE + "::poll", ["self"], BD - {FQ + "::can_push", FQ + "::next_id"})
    n = [0, 0, 0]
    for p, had in [x for p in a.returns for x in a.split(p, "is_some(self.in_progress_frame)")]:
        fx = p.facts
        e, f = a.at(a.st0, fx), a.at(p.st, fx)
        r = f.bind(ret=a.retn(p))
        fq_ref(c, a, p, "poll")
        left = e("self.flush_alloc - (len(self.in_progress_frame.Some.fbuilder.buffer) + %d)" % CRC) if had else e("self.flush_alloc")
        by = finalized(c, a, p, "poll", False)
        lim = calls(p, FQ + "::mark_rate_limited")
        room = e("m32(self.frame_queue.frame_log.next_id + %d - self.frame_queue.window.base_id) < self.frame_queue.window.size" % (1 if had else 0))
        if fx.prove(r("isv(ret, 'Ok')")):
            n[0] += 1
            c.check(fx.prove(cmp_le(I(0), left)), "poll: admits only while the budget is not exhausted", a.where(p), (p, left))
            c.check(fx.prove(room), "poll: admits only while the frame window has room", a.where(p), (p, room))
            c.check(by is None and not lim, "poll: admission changes nothing", a.where(p), (p,))
            a.unchanged(p, a.st0, ["self.in_progress_frame", "self.flush_alloc"], "poll: admission must leave %s alone")
            continue
        c.check(not had or by is not None, "poll: a refusal must send the frame in progress", a.where(p), (p,))
        c.check(fx.prove(f("is_none(self.in_progress_frame)")), "poll: a refusal must leave no frame in progress", a.where(p), (p,))
        c.check(same(f("self.flush_alloc"), sub(e("self.flush_alloc"), mk("len", by)) if by is not None else e("self.flush_alloc"), fx), "poll: exactly the frames emitted must be charged", a.where(p), (p,))
        if fx.prove(r("isv(ret, 'Err') and isv(ret.Err, 'SizeLimited')")):
            n[1] += 1
            c.check(fx.prove(cmp_lt(left, I(0))), "poll: refuses for lack of budget only if it is exhausted", a.where(p), (p, left))
            c.check(len(lim) == 1, "poll: a refusal for lack of budget must mark the queue rate limited", a.where(p), (p,))
        else:
            n[2] += 1
            c.check(fx.prove(r("isv(ret, 'Err') and isv(ret.Err, 'WindowLimited')")), "poll: the reason of the refusal must be decided", a.where(p), (p,))
            c.check(fx.refute(room), "poll: refuses for lack of window only if it is full", a.where(p), (p, room))
            c.check(not lim, "poll: a refusal for lack of window must not mark the queue rate limited", a.where(p), (p,))
    c.check(all(n), "poll: an outcome is missing %s" % n)


@rule("ae.finalize", "C13 C11 C15 C02", "finalizing builds and emits the acknowledgement frame in progress once and charges its size to the budget")
def _(c):
    a = c.fn(AE + "::finalize", ["self"], BA)
    n = 0
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        by = finalized(c, a, p, "finalize", True)
        a.unchanged(p, a.st0, ["self.frame_window_base_id", "self.packet_window_base_id"], "finalize: %s must stay")
        if by is None:
            c.check(p.facts.prove(e("is_none(self.in_progress_frame)")), "finalize: a frame in progress must be sent", a.where(p), (p,))
            c.check(same(f("self.flush_alloc"), e("self.flush_alloc"), p.facts), "finalize: without a frame the budget must stay", a.where(p), (p,))
            continue
        n += 1
        c.check(same(f("self.flush_alloc"), sub(e("self.flush_alloc"), mk("len", by)), p.facts), "finalize: the frame's size must be charged to the budget", a.where(p), (p, f("self.flush_alloc")))
        c.check(p.facts.prove(f("is_none(self.in_progress_frame)")), "finalize: no frame may stay in progress", a.where(p), (p,))
    c.check(n > 0, "finalize emits nothing")


@rule("ae.push", "C15 C11 C13 C02 C16 C12", "every acknowledgement frame carries the receiver's window bases; an acknowledgement group is put into exactly one frame or refused for lack of budget; "
      "no frame exceeds 1472 bytes")
def _(c):
    for key, dud in ((AE + "::push", False), (AE + "::push_dud", True)):
        a = c.fn(key, ["self"] if dud else ["self", "ack_group"], BA)
        who = a.short()
        n = [0, 0]
        for p, had in [x for p in a.returns for x in a.split(p, "is_some(self.in_progress_frame)")]:
            fx = p.facts
            e, f = a.at(a.st0, fx), a.at(p.st, fx)
            r = f.bind(ret=a.retn(p))
            by = finalized(c, a, p, who, True)
            left = e("self.flush_alloc")
            if by is not None:
                left = sub(left, mk("len", by))
            size = e("len(self.in_progress_frame.Some.buffer) + %d" % CRC) if had else None
            c.check(same(f("self.flush_alloc"), left, fx), "%s: exactly the frames emitted must be charged to the budget" % who, a.where(p), (p, f("self.flush_alloc")))
            a.unchanged(p, a.st0, ["self.frame_window_base_id", "self.packet_window_base_id"], who + ": %s must stay")
            add, new = calls(p, AB + "::add"), calls(p, AB + "::new")
            if fx.prove(r("isv(ret, 'Err')")):
                n[0] += 1
                c.check(not add, "%s: a refused group must not be put into a frame" % who, a.where(p), (p,))
                ok = fx.prove(cmp_lt(left, I(0))) or (had and fx.prove(cmp_lt(sub(e("self.flush_alloc"), size), I(0))))
                c.check(ok, "%s: refuses only if the budget is exhausted" % who, a.where(p), (p, left))
                c.check(not had or by is not None, "%s: a refusal must send the frame in progress" % who, a.where(p), (p,))
                continue
            if not c.check(fx.prove(r("isv(ret, 'Ok')")), "%s: the result must be decided" % who, a.where(p), (p,)):
                continue
            n[1] += 1
            if not c.check(fx.prove(f("is_some(self.in_progress_frame)")), "%s: success must leave a frame in progress" % who, a.where(p), (p,)):
                continue
            cur = f("self.in_progress_frame.Some")
            for w in new:
                c.check(same(w.args[0], e("self.frame_window_base_id"), fx), "%s: the frame must carry the frame window base" % who, w.loc, (p, w.args[0]))
                c.check(same(w.args[1], e("self.packet_window_base_id"), fx), "%s: the frame must carry the packet window base" % who, w.loc, (p, w.args[1]))
            if dud:
                c.check(not add, "push_dud: no group may be added", a.where(p), (p,))
                if had:
                    c.check(same(cur, e("self.in_progress_frame.Some"), fx), "push_dud: the frame in progress must stay", a.where(p), (p,))
                else:
                    c.check(len(new) == 1 and same(cur, new[0].ret, fx), "push_dud: an empty frame must be started", a.where(p), (p,))
                    c.check(fx.prove(cmp_le(I(0), left)), "push_dud: a frame may be started only while the budget is not exhausted", a.where(p), (p,))
                continue
            if not c.check(len(add) == 1, "push: a group must be put into exactly one frame, once", a.where(p), (p,)):
                continue
            d = add[0]
            c.check(same(val(a, d, 1), e("deref(ack_group)"), fx) or same(d.args[1], e("raw(ack_group)"), fx), "push: the group added must be the given one", d.loc, (p, d.args[1]))
            c.check(same(cur, val(a, d, 0, True), fx), "push: the frame in progress must be the one the group was added to", a.where(p), (p,))
            if had and by is None:
                c.check(not new and same(val(a, d, 0), e("self.in_progress_frame.Some"), fx), "push: the group must join the frame in progress", d.loc, (p,))
                c.check(fx.prove(cmp_le(size, e("self.flush_alloc"))), "push: a group may join a frame only while the budget covers the frame", d.loc, (p,))
                c.check(fx.prove(cmp_le(add_(size, 9), I(MAXF))), "push: no frame may exceed 1472 bytes", d.loc, (p,))
            else:
                c.check(len(new) == 1 and same(val(a, d, 0), new[0].ret, fx), "push: the group must be added to the new frame", d.loc, (p,))
                c.check(fx.prove(cmp_le(I(0), left)), "push: a frame may be started only while the budget is not exhausted", d.loc, (p,))
        c.check(all(n), "%s: an outcome is missing" % who)


def add_(x, k):
    from ..terms import add as plus
    return plus(x, I(k))
