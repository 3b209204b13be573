"""FrameQueue: the log of sent frames, acknowledgement verification, transfer window and feedback."""
from ..rules import *

FQ = "half_connection::frame_queue::FrameQueue"
FG = "half_connection::frame_queue::FeedbackGen"
RB = "half_connection::reorder_buffer::ReorderBuffer"
LI = "half_connection::loss_rate::LossIntervalQueue"
B = frozenset([RB + "::put", RB + "::advance", RB + "::new", "half_connection::pending_packet::PendingPacket::acknowledge_fragment",
               LI + "::new", LI + "::push_ack", LI + "::push_nack", LI + "::reset", LI + "::compute_loss_rate"])


@rule("fq.new", "C11 C06 C15 C02", "a fresh frame queue starts its log, transfer window and loss detector at the initial frame id, with nothing sent")
def _(c):
    a = c.fn(FQ + "::new", ["size", "tail_size", "base_id"], B)
    a.cases(holds=["ret.window.base_id == base_id", "ret.window.size == size", "ret.window.tail_size == tail_size", "ret.frame_log.base_id == base_id",
                   "ret.frame_log.next_id == base_id", "len(ret.frame_log.frames) == 0", "not ret.rate_limited", "is_none(ret.feedback_gen.ack_data)",
                   "is_none(ret.feedback_gen.last_feedback_ms)"])
    for e, p in a.only_if(is_call(RB + "::new"), "True", "the loss detector is created", need=True):
        c.check(same(e.args[0], a.env0("base_id"), p.facts), "FrameQueue::new: the loss detector must start at the initial frame id", e.loc)
        c.check(same(e.args[1], a.env0("size + tail_size"), p.facts), "FrameQueue::new: the loss detector must span the window and its tail", e.loc)


@rule("fq.can_push", "C06 C11 C12 C02 C15", "a frame may be sent only while fewer than `size` frame ids separate the next id from the window base, and whenever that is so")
def _(c):
    a = c.fn(FQ + "::can_push", ["self"])
    a.cases(ret="m32(self.frame_log.next_id - self.window.base_id) < self.window.size", frame=a.fields())
    a = c.fn(FQ + "::can_push_after", ["self", "n"])
    a.cases(ret="m32(self.frame_log.next_id + n - self.window.base_id) < self.window.size", frame=a.fields())
    for n, w in (("next_id", "self.frame_log.next_id"), ("base_id", "self.window.base_id")):
        a = c.fn(FQ + "::" + n, ["self"])
        a.cases(ret=w, frame=a.fields())
    a = c.fn(FQ + "::mark_rate_limited", ["self"])
    a.cases(final={"self.rate_limited": "True"}, frame=a.fields("self", "rate_limited"))


@rule("fq.push", "C15 C02 C12 C11 C14 C06", "push records the frame with its size, send time, fragments, nonce and the rate-limited mark, unacknowledged, under the next frame id")
def _(c):
    a = c.fn(FQ + "::push", ["self", "size", "now_ms", "fragment_refs", "nonce"])
    can = "m32(self.frame_log.next_id - self.window.base_id) < self.window.size"
    a.cases("not (%s)" % can, frame=a.fields())
    a.cases(can, final={"self.frame_log.next_id": "m32(self.frame_log.next_id + 1)", "self.rate_limited": "False"},
            frame=["self.frame_log.base_id", "self.feedback_gen", "self.window"])
    n = 0
    for p in a.returns:
        eb = a.at(a.st0, p.facts)
        if p.facts.refute(eb(can)):
            continue
        ef = a.at(p.st, p.facts)
        w = ef("self.frame_log.frames")
        n += 1
        if c.check(w.op == "pushb" and w.a[0] is eb("self.frame_log.frames"), "push must append exactly one record to the frame log", a.where(p), (p, w)):
            x = ef.bind(x=N(w.a[1], ef.elem_tid(ef.term("self.frame_log.frames").tid)))
            for f, v in (("size", "size"), ("send_time_ms", "now_ms"), ("nonce", "nonce"), ("rate_limited", "self.rate_limited"), ("acked", "False")):
                c.check(same(x("x." + f), eb(v), p.facts), "push must record %s as %s" % (f, v), a.where(p), (p, x("x." + f)))
            c.check(same(x("raw(x.fragment_refs)"), eb("raw(fragment_refs)"), p.facts), "push must record the frame's own fragments", a.where(p))
    c.check(n > 0, "push never records a frame")


def covers(a, n, facts, field):
    """is every set bit of the 32 bit field at a position below n?"""
    if facts.prove(cmp_le(I(32), n)):
        return True
    for x in (n,):
        # 32 - leading zeros
        y = sub(I(32), x)
        if y.op == "app" and y.a[0] == "leading_zeros" and y.a[1] == (field,) and y.a[2] == (0, 32):
            return True
    for L in a.loops():
        for s in L.syms.values():
            e = L.entry.get(s)
            d = sub(n, s)
            if e is None or d.op != "int" or e.op != "int":
                continue
            # downwards from 32: a position is passed only if its bit is clear
            if e.a[0] + d.a[0] >= 32 and L.backs:
                ok = True
                for st in L.backs:
                    v = a.sval(L, s, st)
                    ok = ok and v is not None and same(v, sub(s, I(1)), st.facts) and st.facts.refute(a.ip.bit(field, sub(add(s, d), I(1))))
                if ok:
                    return True
            # upwards over all positions: n follows the last set bit
            if e.a[0] + d.a[0] <= 0 and L.backs:
                for i, i0 in a.counters(L, I(0)):
                    ok = True
                    for st in L.backs:
                        v = a.sval(L, s, st)
                        if v is None:
                            ok = False
                        elif same(add(v, d), add(i, I(1)), st.facts):
                            pass
                        elif not (same(v, s, st.facts) and st.facts.refute(a.ip.bit(field, i))):
                            ok = False
                    if ok and facts.prove(cmp_le(I(32), i)):
                        return True
    return False


FR = "self.frame_log.frames[m32(ack.base_id + %s - self.frame_log.base_id)]"


def verified(a, p, e, facts):
    """the acknowledgement was checked before event e: every covered frame is in the log and the parity of the nonces of the
    claimed frames equals the claimed nonce"""
    why = "no loop over the acknowledged frames precedes it"
    for V in a.loops_before(p, e):
        for i, _ in a.counters(V, I(0)):
            for acc in V.syms.values():
                if V.entry.get(acc) is not FALSE:
                    continue
                ok = True
                for q in a.loop_backs(V):
                    h = a.at(V.hst, q.facts, i=N(i), x=N(acc))
                    v = a.sval(V, acc, q.st)
                    fr = FR % "i"
                    want = a.ip.bxor(acc, band(h("bit(ack.bitfield, i)"), h(fr + ".nonce")))
                    if not q.facts.prove(h("m32(ack.base_id + i - self.frame_log.base_id) < len(self.frame_log.frames)")):
                        ok, why = False, "a frame that is not in the log is accepted"
                    elif v is None or not same(v, want, q.facts):
                        ok, why = False, "the parity does not cover the nonces of exactly the claimed frames"
                if not ok or not a.loop_backs(V):
                    continue
                h = a.at(V.hst, facts)
                if not (same(h("self.frame_log"), a.env0("self.frame_log"), facts)):
                    why = "the log changes before it"
                    continue
                if not facts.prove(bnot(a.ip.bxor(acc, h("ack.nonce")))):
                    why = "the claimed nonce is not compared with the parity of the log"
                    continue
                # leaving the loop: which bound?
                if any(covers(a, n, facts, h("ack.bitfield")) for n in bounds_of(facts, i)):
                    return True, None
                why = "not every claimed frame is verified"
    return False, why


def bounds_of(facts, i):
    """terms n with n <= i under the facts"""
    out = [I(32)]
    for f in facts.items:
        if f.op in ("ge", "eq"):
            c, its = lin_parts(f.a[0])
            k = dict(its).get(i)
            if k == 1 or (f.op == "eq" and k == -1):
                rest = sub(i, f.a[0] if k == 1 else mulc(f.a[0], -1))
                out.append(rest)
    return [n for n in out if facts.prove(cmp_le(n, i))] + [i]


@rule("fq.ack.verified", "C15 C12 C02 C11 C14", "an acknowledgement changes nothing (fragments, log, loss or feedback data) unless every frame it spans is in the log and its "
      "nonce equals the parity of the nonces of all frames it claims")
def _(c):
    a = c.fn(FQ + "::acknowledge_group", ["self", "ack", "rtt_ms"], B)
    effects = lambda e: is_write("self")(e) or (e.kind == "call" and any(e.name.endswith(x) for x in ("::put", "::advance", "::acknowledge_fragment", "::push_ack", "::push_nack", "::reset")))
    n = 0
    for e, p in a.sel(effects):
        if e.facts.inconsistent():
            continue
        n += 1
        ok, why = verified(a, p, e, e.facts)
        c.check(ok, "acknowledge_group: state changes before the acknowledgement is verified: %s" % why, e.loc, (p,))
    c.check(n > 0, "acknowledge_group never has an effect")
    a.cases("ack.bitfield == 0", at="entry", frame=a.fields(), need=True)


@rule("fq.ack.effect", "C15 C12 C02 C11 C14", "a verified acknowledgement marks exactly the claimed, not yet acknowledged frames: their fragments are acknowledged, their record is marked, "
      "their size and send time enter the feedback and the loss detector sees their id; repeated frames change nothing")
def _(c):
    a = c.fn(FQ + "::acknowledge_group", ["self", "ack", "rtt_ms"], B)
    loops = set(e.x for p in a.backs for e in p.events() if e.kind == "loop")
    upd = [L for L in a.loops() if any(any(is_write("self.frame_log")(e) for e in a.seg(p)) for p in a.loop_backs(L))]
    c.check(len(upd) > 0, "acknowledge_group: no loop marks the acknowledged frames")
    for L in upd:
        good = None
        for j, _ in a.counters(L, I(0)):
            g = Collect(c)
            update_loop(g, a, L, j)
            if good is None or len(g.bad) < len(good.bad):
                good = g
        if good is None:
            c.fail("acknowledge_group: the claimed frames are not visited one by one from the first", L.loc)
        else:
            good.flush()


@rule("fq.ack.complete", "C11 C02 C12 C15 C14 C20", "an acknowledgement is ignored only if it claims nothing, spans a frame that is not in the log, or its nonce is wrong")
def _(c):
    a = c.fn(FQ + "::acknowledge_group", ["self", "ack", "rtt_ms"], B)
    upd = [L for L in a.loops() if any(any(is_write("self.frame_log")(e) for e in a.seg(p)) for p in a.loop_backs(L))]
    n = 0
    for p in a.returns:
        before = a.loops_before(p)
        if any(L in upd for L in before) or p.facts.inconsistent():
            continue
        n += 1
        field = a.env0("ack.bitfield")
        ok = bycase(p.facts, lambda fx: ignorable(a, p, field, before, fx))
        c.check(ok, "acknowledge_group: an acknowledgement must be ignored only if it claims nothing, spans a frame that is not in the log, or its nonce is wrong", a.where(p), (p,))
    c.check(n > 0, "acknowledge_group never ignores an acknowledgement")


def bycase(facts, good, depth=2):
    """good(facts), or good in every case of a disjunction among the facts"""
    if facts.inconsistent() or good(facts):
        return True
    return depth > 0 and any(f.op == "or!" and all(bycase(facts.plus(g), good, depth - 1) for g in f.a) for f in facts.items)


def ignorable(a, p, field, before, facts):
    e0 = a.at(a.st0, facts)
    if facts.prove(e0("ack.bitfield == 0")) or nothing_claimed(a, p, field):
        return True
    for V in before:
        for i, _ in a.counters(V, I(0)):
            h = a.at(a.st0, facts, i=N(i))
            if facts.prove(h("m32(ack.base_id + i - self.frame_log.base_id) >= len(self.frame_log.frames)")):
                # some claimed frame lies at or beyond this one
                for f in facts.items:
                    if f.op == "bit" and f.a[0] is field and facts.prove(cmp_le(i, f.a[1])):
                        return True
                # the bit below the leading zeros is set
                z = mk("app", "leading_zeros", (field,), (0, 32))
                if facts.prove(cmp_lt(z, I(32))) and facts.prove(cmp_le(add(i, z), I(31))):
                    return True
        for x in V.syms.values():
            if V.entry.get(x) is FALSE and facts.prove(a.ip.bxor(x, e0("ack.nonce"))):
                return True
    return False


def nothing_claimed(a, p, field):
    """a loop went through all 32 positions and found every bit clear"""
    for L in a.loops_before(p):
        for s in L.syms.values():
            e = L.entry.get(s)
            if e is None or not L.backs or e.op != "int":
                continue
            down = up = True
            for st in L.backs:
                v = a.sval(L, s, st)
                down = down and v is not None and same(v, sub(s, I(1)), st.facts) and st.facts.refute(a.ip.bit(field, sub(s, I(1))))
                up = up and v is not None and same(v, add(s, I(1)), st.facts) and st.facts.refute(a.ip.bit(field, s))
            if down and e.a[0] >= 32 and p.facts.prove(cmp_le(s, I(0))) or up and e.a[0] <= 0 and p.facts.prove(cmp_le(I(32), s)):
                return True
            # the position after the last set bit is still 0
            if e.a[0] == 0 and p.facts.prove(cmp_eq(s, I(0))):
                for i, _ in a.counters(L, I(0)):
                    ok = p.facts.prove(cmp_le(I(32), i))
                    for st in L.backs:
                        v = a.sval(L, s, st)
                        ok = ok and v is not None and (same(v, s, st.facts) and st.facts.refute(a.ip.bit(field, i)) or st.facts.prove(cmp_lt(I(0), v)))
                    if ok:
                        return True
    return False


class Collect:
    """gathers check results so that alternatives can be compared before reporting"""

    def __init__(self, c):
        self.c, self.bad, self.n = c, [], 0

    def check(self, cond, msg, loc=None, path=None):
        self.n += 1
        if not cond:
            self.bad.append((msg, loc, path))
        return bool(cond)

    def flush(self):
        self.c.obl += self.n
        for m, l, p in self.bad:
            self.c.fail(m, l, p)


def update_loop(c, a, L, j):
    fr = FR % "j"
    for p in a.loop_backs(L):
        h = a.at(L.hst, p.facts, j=N(j))
        f = a.at(p.st, p.facts, j=N(j))
        claimed = band(h("bit(ack.bitfield, j)"), bnot(h(fr + ".acked")))
        if unknown(h, p):
            continue
        if p.facts.refute(claimed):
            c.check(same(f("self.frame_log"), h("self.frame_log"), p.facts), "acknowledge_group: a frame that is not claimed or was acknowledged before must stay as it is", a.where(p), (p,))
            c.check(same(f("self.feedback_gen"), h("self.feedback_gen"), p.facts), "acknowledge_group: a frame that is not claimed or was acknowledged before must not reach the loss detector", a.where(p), (p,))
            continue
        if not c.check(p.facts.prove(claimed), "acknowledge_group: whether the frame is claimed and not yet acknowledged must be decided", a.where(p), (p,)):
            continue
        c.check(p.facts.prove(f(fr + ".acked")), "acknowledge_group: a claimed frame must be marked acknowledged", a.where(p), (p,))
        for x in ("nonce", "size", "send_time_ms", "rate_limited"):
            c.check(same(f(fr + "." + x), h(fr + "." + x), p.facts), "acknowledge_group: %s of the frame must stay" % x, a.where(p), (p,))
        w = f("self.frame_log.frames")
        k = h("m32(ack.base_id + j - self.frame_log.base_id)")
        z = w
        while z.op == "store" and same(z.a[1], k, p.facts):
            z = z.a[0]
        c.check(z is h("self.frame_log.frames"), "acknowledge_group: no other record of the log may change", a.where(p), (p, w))
        # fragments: some loop in this iteration visits every fragment of the frame and acknowledges it
        inner = [e.x for e in p.events() if e.kind == "loop"]
        inner = inner[inner.index(L) + 1:] if L in inner else []
        c.check(any(acks_all(a, M, h, h(fr + ".fragment_refs"), p) for M in inner), "acknowledge_group: every fragment of a claimed frame must be acknowledged", a.where(p), (p,))
        # loss detector
        puts = [e for e in a.seg(p) if is_call(RB + "::put")(e)]
        fid = h("m32(ack.base_id + j)")
        can = h("m32(ack.base_id + j - self.feedback_gen.reorder_buffer.base_id) < self.feedback_gen.reorder_buffer.max_span")
        if puts:
            c.check(len(puts) == 1 and same(puts[0].args[1], fid, p.facts) and p.facts.prove(can),
                    "acknowledge_group: the loss detector must see exactly the claimed frame's id, once, and only if it is not an old one", puts[0].loc, (p,))
        else:
            c.check(p.facts.refute(can), "acknowledge_group: the loss detector must see every new claimed frame", a.where(p), (p,))
    # accumulated feedback
    tot = [s for s in L.syms.values() if L.entry.get(s) is I(0) and all(grows(a, L, s, j, q, fr, "size", "add") for q in a.loop_backs(L))]
    last = [s for s in L.syms.values() if L.entry.get(s) is I(0) and all(grows(a, L, s, j, q, fr, "send_time_ms", "max") for q in a.loop_backs(L))]
    lim = [s for s in L.syms.values() if L.entry.get(s) is FALSE and all(limits(a, L, s, j, q, fr) for q in a.loop_backs(L))]
    ok1 = c.check(bool(tot), "acknowledge_group: the acknowledged bytes must be the sizes of exactly the newly acknowledged frames", L.loc)
    ok2 = c.check(bool(last), "acknowledge_group: the send time used for the RTT must be the latest of exactly the newly acknowledged frames", L.loc)
    ok3 = c.check(bool(lim), "acknowledge_group: the rate-limited mark must come from the frames the acknowledgement spans", L.loc)
    if not (ok1 and ok2 and ok3):
        return
    for p in a.returns:
        if L not in a.loops_before(p):
            continue
        h = a.at(L.hst, p.facts, T=N(tot[0], None), S=N(last[0]), R=N(lim[0]))
        f = a.at(p.st, p.facts, T=N(tot[0]), S=N(last[0]), R=N(lim[0]))
        if not c.check(any(covers(a, n, p.facts, h("ack.bitfield")) for n in bounds_of(p.facts, j)), "acknowledge_group: not every claimed frame is processed", a.where(p), (p,)):
            continue
        if p.facts.prove(h("T == 0")):
            c.check(same(f("self"), h("self"), p.facts) or same(f("self.feedback_gen"), h("self.feedback_gen"), p.facts), "acknowledge_group: without newly acknowledged frames there must be no feedback", a.where(p), (p,))
            continue
        fb = "self.feedback_gen.ack_data.Some"
        c.check(p.facts.prove(f("is_some(self.feedback_gen.ack_data)")), "acknowledge_group: newly acknowledged frames must produce feedback", a.where(p), (p,))
        c.check(p.facts.prove(h("T > 0")), "acknowledge_group: feedback must be produced only if a frame was newly acknowledged", a.where(p), (p,))
        for x, w1, w2 in (("total_ack_size", "T", "%s.total_ack_size + T" % fb), ("last_send_time_ms", "S", "max(S, %s.last_send_time_ms)" % fb)):
            w = h("(%s) if is_some(self.feedback_gen.ack_data) else %s" % (w2, w1))
            c.check(same(f(fb + "." + x), w, p.facts), "acknowledge_group: pending feedback %s must be merged with the new data" % x, a.where(p), (p, f(fb + "." + x), w))
        w = h("(%s.rate_limited or R) if is_some(self.feedback_gen.ack_data) else R" % fb)
        c.check(same(f(fb + ".rate_limited"), w, p.facts), "acknowledge_group: pending rate-limited mark must be merged with the new data", a.where(p), (p, f(fb + ".rate_limited"), w))


def unknown(h, p):
    """the path assumes that the frame is not in the log: fq.ack.verified excludes this before anything changes"""
    return p.facts.refute(h("m32(ack.base_id + j - self.frame_log.base_id) < len(self.frame_log.frames)"))


def grows(a, L, s, j, p, fr, field, how):
    v = a.sval(L, s, p.st)
    h = a.at(L.hst, p.facts, j=N(j))
    if unknown(h, p):
        return True
    claimed = band(h("bit(ack.bitfield, j)"), bnot(h(fr + ".acked")))
    if v is None:
        return False
    if p.facts.refute(claimed):
        return same(v, s, p.facts)
    x = h(fr + "." + field)
    return same(v, add(s, x) if how == "add" else minmax("max", s, x), p.facts)


def limits(a, L, s, j, p, fr):
    v = a.sval(L, s, p.st)
    h = a.at(L.hst, p.facts, j=N(j))
    if unknown(h, p):
        return True
    return v is not None and same(v, bor(s, h(fr + ".rate_limited")), p.facts)


def acks_all(a, M, h, refs, p):
    """loop M visits the fragments in `refs` from the first to the last and acknowledges each one whose packet still exists"""
    for k, k0 in a.counters(M, I(0)):
        ok = bool(a.loop_backs(M))
        for q in a.loop_backs(M):
            ev = [e for e in a.seg(q) if is_call("acknowledge_fragment")(e)]
            el = a.ip.step_val(refs, ("i", k, None), q.facts)
            el = N(el, frag_tid(a))
            x = a.at(M.hst, q.facts, r=el)
            rc = mk("rcof", x("raw(r.packet)"))
            if not ev:
                ok = ok and q.facts.refute(mk("alive", rc))
            else:
                tgt = ev[0].args[0]
                ok = ok and len(ev) == 1 and same(ev[0].args[1], x("r.fragment_id"), q.facts) and rc in subterms(tgt)
        if ok and p.facts.prove(cmp_le(h.ip.length(refs), k)):
            return True
    return False


def frag_tid(a):
    for i, t in a.c.p.types.items():
        if t["k"] == "adt" and t["name"].endswith("pending_packet::FragmentRef"):
            return i
    raise Missing("type FragmentRef")


@rule("fq.loss", "C14 C15 C11", "the loss detector's verdicts enter the loss intervals: a seen frame as an acknowledgement, an unseen one as a loss at its send time with the current RTT "
      "(100 ms before the first sample)")
def _(c):
    for m in ("acknowledge_group", "advance_transfer_window", "forget_frames"):
        a = c.fn(FQ + "::" + m, None, B)
        n = 0
        for e, p in a.sel(lambda e: is_call(RB + "::put")(e) or is_call(RB + "::advance")(e)):
            n += 1
            clos = a.closures(e)
            if c.check(len(clos) == 1, "%s: the loss detector's verdicts must reach the loss intervals" % m, e.loc, (p,)):
                loss_callback(c, a, e, clos[0])
        c.check(n > 0, "%s never informs the loss detector" % m)


def loss_callback(c, a, e, clo):
    fid, seen = sym("judged_id", (0, (1 << 32) - 1)), sym("was_seen")
    for q in a.call_closure(e, clo, [fid, seen]):
        h = a.at(St(e.mem, q.facts, None), q.facts, id=N(fid))
        acks = [x for x in q.events() if is_call(LI + "::push_ack")(x)]
        nacks = [x for x in q.events() if is_call(LI + "::push_nack")(x)]
        if q.facts.prove(seen):
            c.check(len(acks) == 1 and not nacks, "loss detector callback: a seen frame must count as one acknowledgement", e.loc, (q,))
        elif q.facts.refute(seen):
            c.check(len(nacks) == 1 and not acks, "loss detector callback: an unseen frame must count as one loss", e.loc, (q,))
        else:
            c.check(False, "loss detector callback: the verdict is ignored", e.loc, (q,))
        for x in nacks:
            w = h("self.frame_log.frames[m32(id - self.frame_log.base_id)].send_time_ms")
            c.check(same(x.args[1], w, q.facts), "loss detector callback: the loss time must be the lost frame's send time", x.loc, (q, x.args[1], w))
            w = h("rtt_ms.Some if is_some(rtt_ms) else 100")
            c.check(same(x.args[2], w, q.facts), "loss detector callback: the RTT must be the current estimate, or 100 ms without one", x.loc, (q, x.args[2]))
        for x in acks + nacks:
            c.check(x.args[0].op == "ref" and "loss_intervals" in showplace(*x.args[0].a[:2]), "loss detector callback: the verdict must enter the loss intervals", x.loc)


@rule("fq.advance", "C11 C06 C02 C15 C03", "the transfer window advances to an acknowledged base if and only if it lies ahead and not beyond the next frame id; the log keeps the tail")
def _(c):
    a = c.fn(FQ + "::can_advance_transfer_window", ["self", "new_base_id"])
    valid = "(m32(new_base_id - self.window.base_id) != 0 and m32(new_base_id - self.window.base_id) <= m32(self.frame_log.next_id - self.window.base_id))"
    a.cases(ret=valid, frame=a.fields())
    a = c.fn(FQ + "::advance_transfer_window", ["self", "new_base_id", "rtt_ms"], B)
    a.cases("not " + valid, at="entry", frame=a.fields())
    ok = "(m32(new_base_id - self.window.tail_size - self.frame_log.base_id) != 0 and m32(new_base_id - self.window.tail_size - self.frame_log.base_id) <= m32(len(self.frame_log.frames)))"
    a.cases(valid, at="entry", final={"self.window.base_id": "new_base_id"}, frame=["self.window.size", "self.window.tail_size", "self.frame_log.next_id", "self.rate_limited"])
    a.cases(valid + " and not " + ok, at="entry", frame=["self.frame_log", "self.feedback_gen"])
    a.cases(valid + " and " + ok, at="entry", final={"self.frame_log.base_id": "m32(new_base_id - self.window.tail_size)",
            })
    log_shift(c, a)


def log_shift(c, a):
    for p in a.returns:
        e0, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        adv = [e for e in p.events() if is_call(RB + "::advance")(e)]
        if same(f("self.frame_log"), e0("self.frame_log"), p.facts):
            c.check(not adv, "%s: the loss detector advances only with the log" % a.short(), a.where(p), (p,))
            continue
        nb = f("self.frame_log.base_id")
        w = a.at(a.st0, p.facts, nb=N(nb))("popn(self.frame_log.frames, m32(nb - self.frame_log.base_id))")
        g = f("self.frame_log.frames")
        c.check(same(g, w, p.facts) or g.op == "popn" and g.a[0] is w.a[0] and same(g.a[1], w.a[1], p.facts) or same(nb, e0("self.frame_log.base_id"), p.facts) and same(g, e0("self.frame_log.frames"), p.facts),
                "%s: the log must lose exactly the records between its old and its new base" % a.short(), a.where(p), (p, g, w))
        can = "(m32(nb - self.feedback_gen.reorder_buffer.base_id) >= 1 and m32(nb - self.feedback_gen.reorder_buffer.base_id) <= self.feedback_gen.reorder_buffer.max_span)"
        g = a.at(a.st0, p.facts, nb=N(nb))(can)
        if adv:
            c.check(len(adv) == 1 and same(adv[0].args[1], nb, p.facts) and p.facts.prove(g), "%s: the loss detector must follow the log to its new base, if that lies ahead" % a.short(), adv[0].loc, (p, adv[0].args[1]))
            c.check(all(not is_write("self.frame_log")(e) for e in p.events()[:p.events().index(adv[0])]), "%s: forgotten frames must be judged before they leave the log" % a.short(), adv[0].loc)
        else:
            c.check(p.facts.refute(g), "%s: the loss detector must judge frames before they leave the log" % a.short(), a.where(p), (p,))


@rule("fq.forget", "C11 C06 C14 C15", "forget_frames drops exactly the records at the head of the log that were sent before the threshold")
def _(c):
    a = c.fn(FQ + "::forget_frames", ["self", "thresh_ms", "rtt_ms"], B)
    a.cases(frame=["self.window", "self.frame_log.next_id", "self.rate_limited"], at="entry")
    # the cutoff: a loop counts the head records older than the threshold
    found = 0
    for L in a.loops():
        for k, _ in a.counters(L, I(0)):
            bs = a.loop_backs(L)
            if not bs or not all(q.facts.prove(a.at(L.hst, q.facts, k=N(k))("k < len(self.frame_log.frames) and self.frame_log.frames[k].send_time_ms < thresh_ms")) for q in bs):
                continue
            found += 1
            for p in a.returns:
                if L not in a.loops_before(p):
                    continue
                f, e0 = a.at(p.st, p.facts, k=N(k)), a.at(a.st0, p.facts, k=N(k))
                c.check(p.facts.prove(e0("k >= len(self.frame_log.frames) or self.frame_log.frames[k].send_time_ms >= thresh_ms")), "forget_frames: every expired record at the head must be dropped", a.where(p), (p,))
                if p.facts.prove(cmp_eq(k, I(0))):
                    c.check(same(f("self.frame_log"), e0("self.frame_log"), p.facts), "forget_frames: without expired records the log must stay", a.where(p), (p,))
                    continue
                nb = f("self.frame_log.base_id")
                want = e0("m32(self.frame_log.base_id + k)")
                good = same(nb, want, p.facts)
                if not good:
                    for s, e in a.counters(L, e0("self.frame_log.base_id")):
                        good = good or same(nb, s, p.facts) or same(nb, mod(32, s), p.facts)
                if not good and same(nb, e0("self.frame_log.base_id"), p.facts):
                    good = any(p.facts.prove(cmp_eq(k, j)) and p.facts.prove(eq0(mod(32, j))) for j, _ in a.counters(L, I(0))) and same(f("self.frame_log"), e0("self.frame_log"), p.facts)
                c.check(good, "forget_frames: the log base must advance by the number of dropped records", a.where(p), (p, nb))
    c.check(found > 0, "forget_frames: no loop counts the expired records at the head of the log")
    log_shift(c, a)


@rule("fq.feedback", "C14 C11 C15", "get_feedback consumes the pending acknowledgement data once: the RTT sample is now minus the latest acknowledged send time, the receive rate the "
      "acknowledged bytes over the time since the last feedback, the loss rate that of the loss intervals")
def _(c):
    a = c.fn(FQ + "::get_feedback", ["self", "now_ms"], B)
    a.cases("is_none(self.feedback_gen.ack_data)", ret="None_", frame=a.fields())
    fb = "self.feedback_gen.ack_data.Some"
    ex = c.fn(FQ + "::get_feedback", ["self", "now_ms"], B)
    a.cases("is_some(self.feedback_gen.ack_data)", final={"self.feedback_gen.ack_data": "None_", "self.feedback_gen.last_feedback_ms": "Some(now_ms)"},
            frame=["self.frame_log", "self.window", "self.rate_limited", "self.feedback_gen.reorder_buffer"],
            holds=["ret.Some.rtt_ms == now_ms - old(%s.last_send_time_ms)" % fb, "ret.Some.rate_limited == old(%s.rate_limited)" % fb])
    a.cases("is_some(self.feedback_gen.ack_data) and is_none(self.feedback_gen.last_feedback_ms)", holds=["ret.Some.receive_rate == 0"])
    n = 0
    for p in a.returns:
        e0 = a.at(a.st0, p.facts)
        ef = a.at(p.st, p.facts, ret=a.retn(p))
        if p.facts.refute(e0("is_some(self.feedback_gen.ack_data)")):
            continue
        r = a.at(p.st, p.facts, ret=a.retn(p))("ret.Some.loss_rate")
        cl = [e for e in p.events() if is_call(LI + "::compute_loss_rate")(e)]
        c.check(len(cl) == 1 and same(r, cl[0].x if isinstance(cl[0].x, T) else r, p.facts) and r.op != "flt", "get_feedback: the loss rate must be computed from the loss intervals", a.where(p), (p, r))
        if p.facts.prove(e0("is_some(self.feedback_gen.last_feedback_ms)")):
            n += 1
            rr = ef("ret.Some.receive_rate")
            dt = a.ip.fop("Div", mk("i2f", e0("now_ms - self.feedback_gen.last_feedback_ms.Some")), mk("flt", 1000.0))
            want = a.ip.fop("Div", mk("i2f", e0(fb + ".total_ack_size")), dt)
            c.check(want in subterms(rr) and rr.op in ("f2i", "min", "mod"), "get_feedback: the receive rate must be the acknowledged bytes over the seconds since the last feedback", a.where(p), (p, rr, want))
    c.check(n > 0, "get_feedback never computes a receive rate")
    a = c.fn(FQ + "::reset_loss_rate", ["self", "p"], B)
    ev = a.sel(is_call(LI + "::reset"))
    c.check(len(ev) >= 1 and all(same(e.args[1], a.env0("p"), q.facts) for e, q in ev), "reset_loss_rate must reset the loss intervals to the given rate", a.where(a.returns[0]))
