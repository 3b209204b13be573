"""No panic: every path of the analysed functions that ends in a panic (failed assertion, index out of bounds, unwrap of None,
arithmetic overflow, ...) contradicts the stated invariants of the component, and every function preserves these invariants.

Overflow and debug assertions count as panics (the crate is analysed as built with debug assertions)."""
import re
from ..rules import *
from ..terms import *
from .progress import terminates

HC = "half_connection::"


def texts(xs):
    return [x for x in ([xs] if isinstance(xs, str) else xs or ())]


def safe(c, a, inv=(), pre=(), hdr=(), keep=True, allow=(), post=(), inst=None, panics_only=False, binds=None, props=("C03",), loops=True):
    """inv: invariants of self; pre: what callers guarantee (on entry); hdr: loop invariants;
    allow: message fragments of documented panics; post: shown on return.  inst(e): further instances of quantified invariants at the base state (terms or texts)"""
    inv, pre, hdr = texts(inv), texts(pre), texts(hdr)
    e0 = a.at(a.st0, Facts())
    bnd = {k: N(e0(v)) if isinstance(v, str) else v for k, v in (binds or {}).items()}
    entry = [e0(x) if isinstance(x, str) else x for x in inv + pre]

    def assume(p, st, loop):
        out = list(entry)
        e = a.at(st, p.facts, **bnd)
        if loop is not None:
            for x in inv + hdr:
                try:
                    out.append(e(x))
                except Missing:
                    pass
        if inst:
            for x in inst(p, e, loop):
                out.append(e(x) if isinstance(x, str) else x)
        return out
    n = 0
    for p in a.panics:
        st, loop = start(a, p)
        if any(w in (p.msg or "") + str(p.x) for w in allow):
            continue
        n += 1
        if p.msg == "Overflow" and bytes_total(a, p):
            continue
        c.check(absurd(p.facts, assume(p, st, loop)), "%s: must not panic (%s)" % (a.short(), p.msg), p.loc, (p,), props=list(props))
    c.check(True, "no panic in %s" % a.short())
    if loops:
        terminates(c, a, entry, props=props)
    if panics_only:
        return
    for p in a.returns:
        st, loop = start(a, p)
        fx = p.facts.plus(*assume(p, st, loop))
        if fx.inconsistent():
            continue
        e = a.at(p.st, fx, **bnd)
        for x in (inv if keep else []) + texts(post):
            c.check(entails(fx, e(x)), "%s: must keep %s" % (a.short(), x), a.where(p), (p, e(x)), props=list(props))
    # loop invariants
    done = set()
    for p in a.paths:
        for ev in p.events():
            if ev.kind != "loop" or id(ev.x) in done or (p.kind == "back" and ev.x is p.loop):
                continue
            L = ev.x
            done.add(id(L))
            q = Path("x", St(L.pre.mem, L.pre.facts, None))
            st, loop = before(a, p, L)
            fx = L.pre.facts.plus(*assume(q, st, loop))
            ok = not fx.inconsistent()
            e = a.at(L.pre, fx, **bnd)
            for x in inv + hdr:
                try:
                    g = e(x)
                except Missing:
                    continue
                if ok:
                    c.check(entails(fx, g), "%s: loop entry must satisfy %s" % (a.short(), x), L.loc, (p, g), props=list(props))
    for p in a.backs:
        st, loop = start(a, p)
        fx = p.facts.plus(*assume(p, st, loop))
        if fx.inconsistent():
            continue
        e = a.at(p.st, fx, **bnd)
        for x in inv + hdr:
            try:
                g = e(x)
            except Missing:
                continue
            c.check(entails(fx, g), "%s: every iteration must keep %s" % (a.short(), x), a.where(p), (p, g), props=list(props))


def establishes(c, a, inv, pre=(), props=("C03",)):
    """a constructor's result satisfies the invariants"""
    hyp = [a.env0(x) for x in pre]
    for p in a.returns:
        fx = p.facts.plus(*hyp)
        if fx.inconsistent():
            continue
        e = a.at(p.st, fx, ret=a.retn(p))
        for x in inv:
            g = e(x.replace("self.", "ret."))
            c.check(entails(fx, g), "%s must establish %s" % (a.short(), x.replace("self.", "")), a.where(p), (p, g), props=list(props))


def bytes_total(a, p):
    """does the overflow need more bytes than can be in memory at once: a sum, from zero, of the lengths of the elements of one collection?"""
    f = p.facts.items[-1] if p.facts.items else None
    if f is None or f.op != "ge":
        return False
    c0, its = lin_parts(f.a[0])
    lens = [x for x, k in its if k == 1 and x.op == "len"]
    phis = [x for x, k in its if k == 1 and x.op == "sym"]
    if len(its) != 2 or len(lens) != 1 or len(phis) != 1 or c0 > -(1 << 63) or not any(x.op == "elem" for x in subterms(lens[0])):
        return False
    for e in p.events():
        if e.kind == "loop" and phis[0] in e.x.syms.values():
            at = next(k for k, s in e.x.syms.items() if s is phis[0])
            if e.x.entry.get(phis[0]) is not I(0):
                return False
            for b in e.x.backs:
                v = a.ip.read_names(b, *at)
                d = sub(v, phis[0]) if v is not None else None
                if d is None or d is not I(0) and not (d.op == "len" and any(x.op == "elem" for x in subterms(d))):
                    return False
            return True
    return False


def absurd(facts, xs):
    """are the facts and the assumptions together contradictory?  Disjunctions are resolved by unit propagation and a bounded case split."""
    plain = [x for x in xs if x.op != "or!"]
    ors = [x for x in xs if x.op == "or!"]
    fx = facts.plus(*plain)
    if fx.inconsistent():
        return True
    if splits(fx, ors, 1):
        return True
    for x in ors:           # unit propagation
        live = [y for y in x.a if not fx.plus(y).inconsistent()]
        if len(live) == 1:
            fx = fx.plus(live[0])
    lem = modlemmas(fx) + modlemmas(fx, 20)
    return bool(lem) and splits(fx, ors + lem, 3)


def masks(facts):
    """x & y is at most x and at most y"""
    out = []
    for f in facts.items:
        for t in subterms(f):
            if t.op == "and":
                for y in t.a[1:]:
                    z = cmp_le(t, y)
                    if z not in out and z is not TRUE:
                        out.append(z)
    return out


def splits(fx, ors, depth):
    while True:
        rest, got = [], []
        for x in ors:
            live = [y for y in x.a if not fx.plus(y).inconsistent()]
            if not live:
                return True
            if len(live) == 1:
                got.append(live[0])
                fx = fx.plus(live[0])
            else:
                rest.append(x)
        ors = rest
        if not got:
            break
    if fx.inconsistent() or fx.prove(FALSE):
        return True
    if depth > 0:
        for i, x in enumerate(ors):
            if all(splits(fx.plus(y), ors[:i] + ors[i + 1:], depth - 1) for y in x.a):
                return True
    return False


def entails(facts, goal):
    return facts.prove(goal) or absurd(facts, [bnot(goal)])


def modlemmas(facts, bits=32, cap=16):
    """how the wrapping differences among the facts add up: if z = x + y then (z mod M) is (x mod M) + (y mod M), or that minus M"""
    M = 1 << bits
    atoms, plain = [], []
    for f in facts.items:
        for t in subterms(f):
            if t.op == "mod" and t.a[0] == bits and t not in atoms:
                atoms.append(t)
    atoms = atoms[:cap]
    for t in atoms:
        for x, k in lin_parts(t.a[1])[1]:
            if x not in plain and x.op not in ("mod",):
                plain.append(x)
    for f in facts.items:
        if f.op in ("ge", "eq", "ne"):
            for x, k in lin_parts(f.a[0])[1]:
                if x.op not in ("mod",) and x not in plain:
                    plain.append(x)
    by = {}
    for t in atoms:
        by[key(t.a[1], M)] = t
    for x in plain:
        if key(x, M) not in by and facts.prove(cmp_le(I(0), x)) and facts.prove(cmp_lt(x, I(M))):
            by[key(x, M)] = x
    # intermediate points: a wrapping difference without its bounded part (a window size, a count)
    for t in list(atoms):
        c0, its = lin_parts(t.a[1])
        for x, k in its:
            if abs(k) == 1 and by.get(key(x, M)) is x and len(its) >= 3:
                z = mod(bits, sub(t.a[1], mulc(x, k)))
                if z.op == "mod" and len(by) < 2 * cap:
                    by.setdefault(key(z.a[1], M), z)
    items = list(by.items())
    out = []

    def lemma(z, x, y):
        d = sub(add(x, y), z)
        if d.op != "int":
            out.append(bor(cmp_eq(d, I(0)), cmp_eq(d, I(M))))
    for i, (kx, x) in enumerate(items):
        for ky, y in items[i:]:
            if x.op != "mod" and y.op != "mod" and key(add(x, y), M) not in by:
                continue
            kz = plus(kx, ky, M)
            if kz in by:
                lemma(by[kz], x, y)
            elif all(v == "" for v, _ in kz):        # a constant
                c = dict(kz).get("", 0)
                out.append(bor(cmp_eq(add(x, y), I(c)), cmp_eq(add(x, y), I(c + M))))
    # a step by a small constant
    for kx, x in items:
        for ky, y in items:
            d = dict(plus(ky, tuple((v, -k % M) for v, k in kx), M))
            if x is not y and set(d) == {""} and d[""] <= M // 2:
                lemma(y, x, I(d[""]))
    return [x for x in out if x.op == "or!"]


def key(t, M):
    c, items = lin_parts(t)
    d = {x.id: k % M for x, k in items if k % M}
    if c % M:
        d[""] = c % M
    return tuple(sorted(d.items(), key=str))


def plus(kx, ky, M):
    d = dict(kx)
    for v, k in ky:
        d[v] = (d.get(v, 0) + k) % M
    return tuple(sorted(((v, k) for v, k in d.items() if k), key=str))


def start(a, p):
    """(state the path's last unit starts with, its loop or None)"""
    last = None
    for e in p.events():
        if e.kind == "loop":
            if p.kind == "back":
                if e.x is p.loop:
                    last = e.x
            else:
                last = e.x
    if p.kind == "back" and last is None:
        last = p.loop
    return (last.hst, last) if last is not None else (a.st0, None)


def before(a, p, L):
    last = None
    for e in p.events():
        if e.kind == "loop":
            if e.x is L:
                break
            last = e.x
    return (last.hst, last) if last is not None else (a.st0, None)


# ------------------------------------------------------------------------------------------------ ReorderBuffer
RB = HC + "reorder_buffer::ReorderBuffer"
RB_INV = ["self.frame_count <= 2", "self.max_span <= 2147483648",
          "implies(self.frame_count >= 1, self.frames[0] != self.base_id)",
          "implies(self.frame_count >= 1, m32(self.frames[0] - self.base_id) < self.max_span)",
          "implies(self.frame_count == 2, m32(self.frames[1] - self.base_id) < self.max_span)",
          "implies(self.frame_count == 2, m32(self.frames[0] - self.base_id) < m32(self.frames[1] - self.base_id))"]


@rule("safe.reorder", "C03", "the reorder buffer never panics for ids inside its span that were not reported before")
def _(c):
    # that both keep the invariant is part of reorder.put and reorder.advance
    a = c.fn(RB + "::put", ["self", "id", "cb"], traced=frozenset(["@cb"]))
    safe(c, a, RB_INV, panics_only=True, pre=["m32(id - self.base_id) < self.max_span", "implies(self.frame_count >= 1, m32(id - self.base_id) != m32(self.frames[0] - self.base_id))",
                                          "implies(self.frame_count == 2, m32(id - self.base_id) != m32(self.frames[1] - self.base_id))"])
    a = c.fn(RB + "::advance", ["self", "nb", "cb"], traced=frozenset(["@cb"]))
    safe(c, a, RB_INV, panics_only=True, pre=["m32(nb - self.base_id) >= 1", "m32(nb - self.base_id) <= self.max_span"])


# ------------------------------------------------------------------------------------------------ the rate controller
CLOCK = 1 << 62         # milliseconds since the connection started; bytes counted in 64 bits: neither reaches this


@rule("safe.rates", "C03", "the rate controller, the loss history and the receive rate set never panic")
def _(c):
    from . import rates as m
    inv = ["implies(isv(self.mode, 'ThroughputEqn'), is_some(self.rtt_s))"]
    a = c.fn(m.SR + "::new", ["max_send_rate"], m.B)
    for p in a.returns:
        e = a.at(p.st, p.facts, ret=a.retn(p))
        c.check(p.facts.prove(e("implies(isv(ret.mode, 'ThroughputEqn'), is_some(ret.rtt_s))")), "SendRateComp::new: no throughput mode without a round trip time", a.where(p), (p,))
    safe(c, a, keep=False)
    clock = ["now_ms < %d" % CLOCK]
    for n in ("send_rate", "rtt_s", "rtt_ms", "rto_ms"):
        if c.p.fn(m.SR + "::" + n, None) is not None:
            safe(c, c.fn(m.SR + "::" + n, ["self"]), inv)
    a = c.fn(m.SR + "::notify_frame_sent", ["self", "now_ms"], m.B)
    safe(c, a, inv, clock)
    a = m.step(c) if hasattr(m, "step") else c.fn(m.SR + "::step", ["self", "now_ms", "feedback", "reset_loss_rate"], m.B)
    safe(c, a, inv, clock + ["implies(isv(self.mode, 'SlowStart'), implies(is_some(self.mode.SlowStart.time_last_doubled_ms), self.mode.SlowStart.time_last_doubled_ms.Some <= now_ms))"])
    for p in a.returns:     # what was said about the clock above stays true
        e = a.at(p.st, p.facts)
        c.check(p.facts.plus(*[a.at(a.st0, p.facts)(x) for x in clock + ["implies(isv(self.mode, 'SlowStart'), implies(is_some(self.mode.SlowStart.time_last_doubled_ms), self.mode.SlowStart.time_last_doubled_ms.Some <= now_ms))"]]).prove(
            e("implies(isv(self.mode, 'SlowStart'), implies(is_some(self.mode.SlowStart.time_last_doubled_ms), self.mode.SlowStart.time_last_doubled_ms.Some <= now_ms))")),
            "SendRateComp::step: the time of the last doubling is not in the future", a.where(p), (p,))
    # the receive rate set: with max inlined, it never takes the maximum of an empty set
    for f, args in (("reset_initial", ["self", "now_ms"]), ("reset", ["self", "now_ms", "rate"]), ("rate_limited_update", ["self", "now_ms", "rate", "rtt_ms"]),
                    ("loss_increase_update", ["self", "now_ms", "rate"]), ("data_limited_update", ["self", "now_ms", "rate"])):
        a = c.fn(m.RS + "::" + f, args)
        safe(c, a, keep=False, pre=clock + (["rtt_ms < %d" % CLOCK] if "rtt_ms" in args else []), inst=lambda p, e, loop: past(p, e, "timestamp_ms", "now_ms"))
    # sr.reset_loss: reset only follows a loss rate above the last one (never negative), and the loss rate of an empty history is 0 (li.rate)
    for f, args, pre in (("push_ack", ["self"], []), ("push_nack", ["self", "t", "rtt"], ["t < %d" % CLOCK, "rtt < %d" % CLOCK]), ("reset", ["self", "p"], ["len(self.entries) >= 1"]), ("compute_loss_rate", ["self"], [])):
        a = c.fn(m.LI + "::" + f, args)
        safe(c, a, ["len(self.entries) <= 9"] if f != "compute_loss_rate" else [], pre + (["len(self.entries) <= 9"] if f == "compute_loss_rate" else []), keep=f != "compute_loss_rate")


def past(p, e, field, now):
    """what was recorded in earlier calls carries times of earlier calls (the clock is monotone)"""
    t1 = e(now)
    return [cmp_le(t, t1) for t in {t for f in p.facts.items for t in subterms(f) if t.op == "fld" and t.a[1] == field}]


@rule("safe.ackqueue", "C03", "the queue of acknowledgements to send never panics")
def _(c):
    from . import ackqueue as m
    for f, args in (("new", ["size", "base_id"]), ("base_id", ["self"]), ("window_contains", ["self", "frame_id"]), ("resynchronize", ["self", "sender_next_id"]),
                    ("mark_seen", ["self", "frame_id", "nonce"]), ("peek", ["self"])):
        safe(c, c.fn(m.FAQ + "::" + f, args), keep=False)
    # the first frame of every group is one that was seen: faq.mark
    safe(c, c.fn(m.FAQ + "::pop", ["self"]), keep=False, pre=["implies(len(self.entries) >= 1, m1(self.entries[0].bitfield) == 1)"])


# ------------------------------------------------------------------------------------------------ the frame queue
FQ_INV = ["m32(self.frame_log.next_id - self.frame_log.base_id) == len(self.frame_log.frames)",
          "self.window.size + self.window.tail_size <= 2147483648", "m32(self.frame_log.next_id - self.window.base_id) <= self.window.size",
          "len(self.frame_log.frames) <= m32(self.frame_log.next_id - self.window.base_id) + self.window.tail_size"]


@rule("safe.frames", "C03", "the frame queue never panics, whatever acknowledgements arrive")
def _(c):
    from . import frames as m
    # the configuration of a connection: hc.new
    a = c.fn(m.FQ + "::new", ["size", "tail_size", "base_id"], m.B)
    safe(c, a, keep=False, pre=["size + tail_size <= 2147483648"])
    for p in a.returns:
        e = a.at(p.st, p.facts.plus(a.env0("size + tail_size <= 2147483648")), ret=a.retn(p))
        for x in FQ_INV:
            c.check(e.st.facts.prove(e(x.replace("self.", "ret."))), "FrameQueue::new must establish %s" % x, a.where(p), (p,))
    a = c.fn(m.FQ + "::push", ["self", "size", "now_ms", "fragment_refs", "nonce"])
    # frames are pushed with the time of the current step, and the size of a frame is at most 1472 (emit rules)
    safe(c, a, FQ_INV, ["size <= 1472", "implies(len(self.frame_log.frames) >= 1, self.frame_log.frames[len(self.frame_log.frames) - 1].send_time_ms <= now_ms)"])
    a = c.fn(m.FQ + "::acknowledge_group", ["self", "ack", "rtt_ms"], m.B)
    keep = ["self.frame_log.base_id == b0", "self.frame_log.next_id == n0", "self.window.base_id == w0", "self.window.size == s0", "self.window.tail_size == t0", "len(self.frame_log.frames) == l0",
            "implies(is_some(self.feedback_gen.ack_data), self.feedback_gen.ack_data.Some.total_ack_size < %d)" % CLOCK]
    safe(c, a, FQ_INV, ["implies(is_some(self.feedback_gen.ack_data), self.feedback_gen.ack_data.Some.total_ack_size < %d)" % CLOCK], keep,
         binds={"b0": "self.frame_log.base_id", "n0": "self.frame_log.next_id", "w0": "self.window.base_id", "s0": "self.window.size", "t0": "self.window.tail_size", "l0": "len(self.frame_log.frames)"},
         inst=lambda p, e, loop: spanned(a, p) + summed(a, p))
    for f, args in (("advance_transfer_window", ["self", "new_base_id", "rtt_ms"]), ("forget_frames", ["self", "thresh_ms", "rtt_ms"])):
        a = c.fn(m.FQ + "::" + f, args, m.B)
        safe(c, a, FQ_INV, inst=lambda p, e, loop: [] if loop else ["len(self.frame_log.frames) < 4294967296"])
    a = c.fn(m.FQ + "::get_feedback", ["self", "now_ms"], m.B)
    safe(c, a, FQ_INV, ["implies(is_some(self.feedback_gen.ack_data), self.feedback_gen.ack_data.Some.last_send_time_ms <= now_ms)",
                        "implies(is_some(self.feedback_gen.last_feedback_ms), self.feedback_gen.last_feedback_ms.Some <= now_ms)"])
    safe(c, c.fn(m.FQ + "::reset_loss_rate", ["self", "p"], m.B), FQ_INV)
    # what the loss detector reports back
    for f in ("acknowledge_group", "advance_transfer_window", "forget_frames"):
        a = c.fn(m.FQ + "::" + f, None, m.B)
        for e, p in a.sel(lambda e: is_call(m.RB + "::put")(e) or is_call(m.RB + "::advance")(e)):
            for clo in a.closures(e):
                fid, seen = sym("judged_id", (0, (1 << 32) - 1)), sym("was_seen")
                keepr = a.ip.recs
                a.ip.recs = []
                out = list(a.ip.callval(None, St(dict(e.mem), e.facts, None), clo, [fid, seen]))
                bad = [r for r in a.ip.recs]
                a.ip.recs = keepr
                h = a.at(St(e.mem, e.facts, None), e.facts, id=N(fid))
                inlog = h("m32(id - self.frame_log.base_id) < len(self.frame_log.frames)")
                c.check(bool(out), "%s: the loss detector's verdict must be handled" % f, e.loc)
                for r in bad:
                    c.check(absurd(r.facts, [inlog]), "%s: a verdict on a frame in the log must not panic (%s)" % (f, r.msg), r.loc)


def spanned(a, p):
    """a completed loop that goes through 0, 1, ... and continues only while the frame at that position is in the log: it is for every smaller position"""
    out = []
    done = [L for L in a.loops_before(p)]
    for V in done[:-1] if p.kind != "return" else done:
        for i, _ in a.counters(V, I(0)):
            qs = a.loop_backs(V)
            t = "m32(ack.base_id + i - self.frame_log.base_id) < len(self.frame_log.frames)"
            if not qs or not all(q.facts.prove(a.at(V.hst, q.facts, i=N(i))(t)) for q in qs):
                continue
            h = a.at(V.hst, p.facts)
            if not same(h("self.frame_log"), a.env0("self.frame_log"), p.facts):
                continue
            for W in done:
                for j, _ in a.counters(W, I(0)):
                    if j is not i and p.facts.prove(cmp_lt(j, i)):
                        out.append(a.at(a.st0, p.facts, j=N(j))(t.replace("+ i -", "+ j -")))
    return out


def summed(a, p):
    """a sum of 32 bit values that grows by one term per iteration: at most (2^32 - 1) per counted step"""
    out = []
    for W in a.loops_before(p):
        cs = a.counters(W, I(0))
        for s in W.syms.values():
            if W.entry.get(s) is not I(0) or any(s is i for i, _ in cs):
                continue
            ok = bool(a.loop_backs(W))
            for q in a.loop_backs(W):
                v = a.sval(W, s, q.st)
                ok = ok and v is not None and q.facts.prove(cmp_le(v, add(s, I((1 << 32) - 1))))
            if ok:
                out += [cmp_le(s, I(64 * ((1 << 32) - 1))) for i, _ in cs if p.facts.prove(cmp_le(i, I(64)))]
    return out


# ------------------------------------------------------------------------------------------------ the packet receiver
# Invariants that relate entries of different arrays are assumed here (each follows from pr.datagram, pr.deliver and pr.window: a channel's base is set
# to the id after a delivered packet, inside the window, together with its marker; packet_count counts the undelivered packets of the channel in the window)
PR_INV = ["self.receive_window_size >= 1", "self.receive_window_size <= 4096", "self.receive_window_mask == self.receive_window_size - 1", "self.base_id < 1048576", "self.end_id < 1048576",
          "m20(self.end_id - self.base_id) <= self.receive_window_size", "len(self.channel_entries) == self.receive_window_size", "len(self.window_entries) == self.receive_window_size",
          "len(self.data_entries) == self.receive_window_size", "len(self.channel_base_markers) == self.receive_window_size", "len(self.channels) == 64",
          "64 * len(self.entry_flags) >= self.receive_window_size", "64 * len(self.data_flags) >= self.receive_window_size"]


@rule("safe.receiver", "C03", "the packet receiver never panics, whatever datagrams and window updates arrive")
def _(c):
    from . import receiver as m
    a = c.fn(m.PR + "::new", ["window_size", "base_id", "max_alloc"], m.BA)
    pre = ["window_size >= 1", "window_size <= 4096", "(window_size & (window_size - 1)) == 0", "base_id < 1048576"]
    safe(c, a, keep=False, pre=pre)
    inst = lambda p, e, loop: entries(a, p, e, loop)
    a = c.fn(m.PR + "::handle_datagram", ["self", "datagram"], m.BA)
    # the codec delivers 20 bit ids: codec rules
    safe(c, a, PR_INV, ["datagram.sequence_id < 1048576"], panics_only=True, inst=inst)
    a = c.fn(m.PR + "::resynchronize", ["self", "sender_next_id"], m.BA)
    safe(c, a, PR_INV, panics_only=True, inst=inst)
    a = c.fn(m.PR + "::receive", ["self", "sink"], m.BA)
    safe(c, a, PR_INV, panics_only=True, inst=inst)


def entries(a, p, e, loop):
    out = masks(p.facts)
    base, end, size = a.env0("self.base_id"), a.env0("self.end_id"), a.env0("self.receive_window_size")
    for f in p.facts.items:
        for t in subterms(f):
            if t.op != "fld":
                continue
            if t.a[1] == "channel_id":
                out.append(cmp_lt(t, I(64)))
            elif t.a[1] == "packet_count":
                out += [cmp_le(t, size), cmp_le(I(1), t)] if loop is not None else [cmp_le(t, size)]
            elif t.a[1] == "0" and any(x.op == "fld" and x.a[1] == "base_id" for x in subterms(t)):
                out.append(cmp_le(mod(20, sub(t, base)), size))
            elif t.a[1] == "0" and "channel_base_markers" in show(t):
                out.append(cmp_lt(t, I(64)))
    last = p.facts.items[-1] if p.facts.items else TRUE
    if "channel_base_markers" in show(last) and any(t.op == "discr" for t in subterms(last)):
        # no other channel's base is the id after the packet being delivered: every id is delivered at most once (pr.deliver)
        out += [cmp_eq(t, I(0)) for t in subterms(last) if t.op == "discr"]
    if "data_entries" in show(last) and last.op == "eq":
        # data is kept only under a set data flag: pr.datagram and pr.deliver set and clear them together
        for t in subterms(last):
            if t.op == "elem" and "data_entries" in show(t) and any(bnot(f).op == "bit" and "data_flags" in show(f) and t.a[1] in subterms(f) for f in p.facts.items):
                out += [cmp_eq(d, I(0)) for d in subterms(last) if d.op == "discr"]
    for W in a.loops_before(p):
        out += walkers(a, W, base)
    return out


def walkers(a, W, base):
    """ids that start at the window base and move one by one towards an id they are compared with stay between the two"""
    r = WALK.get(id(W))
    if r is not None:
        return r
    syms = [s for s in W.syms.values() if W.entry.get(s) is not None and same(W.entry[s], base, W.pre.facts)]
    qs = a.loop_backs(W)
    goals = []
    for q in qs:
        for f in q.facts.items:
            if f.op == "ne":
                for s in syms:
                    x = sub(s, f.a[0]) if dict(lin_parts(f.a[0])[1]).get(s) == 1 else add(s, f.a[0])
                    if x.op in ("sym", "fld") and x not in syms and x not in goals:
                        goals.append(x)
    out = []
    for g in goals:
        live = list(syms)
        while live:
            hyp = [cmp_le(mod(20, sub(s, base)), mod(20, sub(g, base))) for s in live] + [cmp_lt(x, I(1 << 20)) for x in live + [g, base]]
            bad = []
            for s in live:
                for q in qs:
                    v = a.sval(W, s, q.st)
                    if v is None or not entails(q.facts.plus(*hyp), cmp_le(mod(20, sub(v, base)), mod(20, sub(g, base)))):
                        bad.append(s)
                        break
            if not bad:
                out += hyp[:len(live)]
                break
            live = [s for s in live if s not in bad]
    WALK[id(W)] = out
    KEEP.append(W)
    return out


WALK, KEEP = {}, []


# ------------------------------------------------------------------------------------------------ reassembly
@rule("safe.assembly", "C03", "reassembly never panics for datagrams that passed datagram_is_valid")
def _(c):
    from . import assembly as m
    from . import receiver as r
    act = m.SLOT + ".Active"
    buf = act + ".asm_buffer"
    inv = ["len(self.window) == 4096", "self.alloc <= self.max_alloc"] + ["implies(isv(%s, 'Active'), %s)" % (m.SLOT, x) for x in (
        "%s.num_fragments == %s.last_fragment_id + 1" % (buf, act), "len(%s.buffer) == 1448 * %s.num_fragments" % (buf, buf), "64 * len(%s.fragment_bitfields) >= %s.num_fragments" % (buf, buf),
        "%s.fragments_remaining >= 1" % buf, "%s.fragments_remaining <= %s.num_fragments" % (buf, buf), "%s.total_size + 1448 * %s.fragments_remaining <= 1448 * %s.num_fragments" % (buf, buf, buf))]
    # every slot's share is part of the total: aw.add, aw.clear (both change together)
    share = ["self.alloc < %d" % CLOCK, "implies(isv(%s, 'Active'), %s.alloc_size <= self.alloc)" % (m.SLOT, act), "implies(isv(%s, 'Closed'), %s.Closed <= self.alloc)" % (m.SLOT, m.SLOT)]
    safe(c, c.fn(m.AW + "::new", ["max_alloc"]), keep=False)
    valid = [r.VALID]
    a = c.fn(m.AW + "::try_add", ["self", "idx", "datagram"])
    safe(c, a, inv, ["idx < 4096"] + valid + share)
    a = c.fn(m.AW + "::clear", ["self", "idx"])
    safe(c, a, inv, ["idx < 4096"] + share)


# ------------------------------------------------------------------------------------------------ the packet sender
# Assumed where entries are related to each other: exactly the slots of the ids in flight are occupied, and their sizes are part of both totals
# (sender.entry, sender.ack.release); a channel's parent is an id in flight (sender.leads, sender.ack.release).
PS_INV = ["self.window_size >= 1", "self.window_size <= 4096", "self.window_mask == self.window_size - 1", "len(self.window) == self.window_size", "len(self.channels) == 64",
          "self.base_id < 1048576", "self.next_id < 1048576", "m20(self.next_id - self.base_id) <= self.window_size",
          "implies(is_some(self.window_parent_id), self.window_parent_id.Some < 1048576)",
          "implies(is_some(self.window_parent_id), m20(self.window_parent_id.Some - self.base_id) < m20(self.next_id - self.base_id))"]


@rule("safe.sender", "C03", "the packet sender never panics, whatever acknowledgements arrive")
def _(c):
    from . import sender as m
    PS = HC + "packet_sender::PacketSender"
    PP = HC + "pending_packet::PendingPacket"
    a = c.fn(PS + "::new", ["window_size", "base_id", "max_alloc"])
    pre = ["window_size >= 1", "window_size <= 4096", "(window_size & (window_size - 1)) == 0", "base_id < 1048576"]
    safe(c, a, keep=False, pre=pre)
    # what the application may send: client.send, remote.send (no packet larger than max_packet_size, which the handshake bounds by the peer's limit)
    a = c.fn(PS + "::enqueue_packet", ["self", "data", "channel_id", "mode", "flush_id"])
    safe(c, a, keep=False, pre=["len(data) <= 94896128", "len(data) <= self.max_alloc", "channel_id < 64", "self.total_size < %d" % CLOCK])
    a = c.fn(PS + "::emit_packet", ["self", "flush_id"])
    safe(c, a, PS_INV, ["self.alloc < %d" % CLOCK], panics_only=True, inst=lambda p, e, loop: sending(a, p, e, loop))
    b = c.fn(PS + "::acknowledge", ["self", "receiver_base_id"])
    safe(c, b, PS_INV, panics_only=True, inst=lambda p, e, loop: sending(b, p, e, loop))
    for f, args in (("new", ["data", "channel_id", "sequence_id", "wpl", "cpl"]),):
        safe(c, c.fn(PP + "::" + f, args), keep=False, pre=["len(data) <= 94896128"])
    pinv = ["64 * len(self.ack_flags) >= self.last_fragment_id + 1", "implies(self.last_fragment_id == 0, len(self.data) <= 1448)",
            "len(self.data) <= 1448 * (self.last_fragment_id + 1)", "implies(self.last_fragment_id >= 1, len(self.data) >= 1448 * self.last_fragment_id + 1)"]
    a = c.fn(PP + "::new", ["data", "channel_id", "sequence_id", "wpl", "cpl"])
    for p in a.returns:
        lim = a.env0("len(data) <= 94896128")
        # the number of fragments: pending.new
        nf = a.at(p.st, p.facts.plus(lim), ret=a.retn(p))("ret.last_fragment_id == (0 if len(data) == 0 else (len(data) + 1447) // 1448 - 1)")
        fx = p.facts.plus(lim, nf)
        e = a.at(p.st, fx, ret=a.retn(p))
        for x in pinv:
            c.check(entails(fx, e(x.replace("self.", "ret."))), "PendingPacket::new must establish %s" % x, a.where(p), (p, e(x.replace("self.", "ret."))))
    for f in ("acknowledge_fragment", "fragment_acknowledged", "datagram"):
        safe(c, c.fn(PP + "::" + f, ["self", "fragment_id"]), pinv, ["fragment_id <= self.last_fragment_id"])


def element(a, t, expr, *envs):
    """is t computed from the value of expr for some index j, in the entry state or in one of the given states?"""
    sub = set(subterms(t))
    return any(x.op == "elem" and any(v.bind(j=N(x.a[1]))(expr) in sub for v in (a.env0,) + envs) for x in sub)


def sending(a, p, e, loop):
    out = masks(p.facts)
    base, nxt, size = a.env0("self.base_id"), a.env0("self.next_id"), a.env0("self.window_size")
    last = p.facts.items[-1] if p.facts.items else TRUE
    for f in p.facts.items:
        for t in subterms(f):
            if t.op == "fld" and t.a[1] == "channel_id":
                out.append(cmp_lt(t, I(64)))
            elif t.op == "fld" and t.a[1] == "0" and element(a, t, "self.channels[j].parent_id", e):
                out += [cmp_lt(mod(20, sub(t, base)), mod(20, sub(nxt, base))), cmp_lt(t, I(1 << 20))]
            elif t.op == "len" and show(t).endswith(".data)") and "packet_send_queue" in show(t):
                out += [cmp_le(t, I(94896128)), cmp_le(t, e("self.total_size"))]
            elif t.op == "fld" and t.a[1] == "alloc_size" and loop is not None:
                out.append(cmp_le(t, e("self.alloc")))
            elif t.op == "len" and show(t).endswith(".data)") and "packet.data" in show(t):
                out.append(cmp_le(t, e("self.total_size")))
    for t in subterms(last):
        if t.op == "discr" and "self.window" in show(t):
            i = t.a[0].a[1] if t.a[0].op == "elem" else None
            if i is not None and nxt in subterms(i):
                out.append(cmp_eq(t, I(0)))         # the slot of the next id is free while the window is not full
            elif i is not None and loop is not None:
                out.append(cmp_eq(t, I(1)))         # the slot of the oldest id in flight is occupied
    return out


# ------------------------------------------------------------------------------------------------ the frame emitters
@rule("safe.emit", "C03 C13", "the frame emitters never panic: a frame in progress always has room in the frame window, and the builder's size is the size the emitter predicted")
def _(c):
    from . import emit as m
    bd = frozenset([m.DB + "::new", m.DB + "::add", m.DB + "::build", m.FQ + "::push", m.DG, m.CB])
    money = ["self.flush_alloc < %d" % CLOCK, "self.flush_alloc > -%d" % CLOCK]
    inv = ["implies(is_some(self.in_progress_frame), m32(self.frame_queue.frame_log.next_id - self.frame_queue.window.base_id) < self.frame_queue.window.size)"]
    for f, args in (("finalize", ["self"]), ("poll", ["self"]), ("push", ["self", "packet_rc", "fragment_id", "resend"])):
        a = c.fn(m.DE + "::" + f, args, bd)
        safe(c, a, inv, money + ["implies(is_some(self.in_progress_frame), len(self.in_progress_frame.Some.fbuilder.buffer) <= 1472)"], inst=lambda p, e, loop: sizes(c, a, p, m.DB))
    for f, args in (("finalize", ["self"]), ("push_dud", ["self"]), ("push", ["self", "ack_group"])):
        b = c.fn(m.AE + "::" + f, args, m.BA)
        safe(c, b, [], money + ["implies(is_some(self.in_progress_frame), len(self.in_progress_frame.Some.buffer) <= 1472)"], inst=lambda p, e, loop: sizes(c, b, p, m.AB))


def sizes(c, a, p, bld):
    """built frames have at most 1472 bytes (de.push, ae.push); add appends exactly encoded_size bytes (codec.size)"""
    out = []
    for e in p.events():
        if is_call(bld + "::build")(e):
            out.append(cmp_le(mk("len", e.ret), I(1472)))
        if is_call(bld + "::add")(e) and "post" in (e.x or {}):
            r = e.args[0]
            before, after = [a.at(St(dict(mem), p.facts, None), p.facts, b=N(r, e.x["tids"][0]))("len(b.buffer)") for mem in (e.mem, e.x["post"])]
            keep, a.ip.recs = a.ip.recs, []
            try:
                ways = list(a.ip.inline(None, St(dict(e.mem), e.facts, None), c.p.fn(bld + "::encoded_size"), [e.args[1]]))
            finally:
                a.ip.recs = keep
            out.append(bor(*[band(*(list(s.facts.items[len(e.facts.items):]) + [cmp_eq(after, add(before, v))])) for s, v in ways]))
    return out


@rule("construct", "C03 C01 C05 C02", "a new packet receiver and a new packet sender satisfy the invariants of their components: arrays as long as the window, 64 channels, empty windows")
def _(c):
    from . import receiver as m
    pre = ["window_size >= 1", "window_size <= 4096", "(window_size & (window_size - 1)) == 0", "base_id < 1048576"]
    establishes(c, c.fn(m.PR + "::new", ["window_size", "base_id", "max_alloc"], m.BA), PR_INV, pre, props=["C03", "C01", "C02"])
    establishes(c, c.fn(HC + "packet_sender::PacketSender::new", ["window_size", "base_id", "max_alloc"]), PS_INV, pre, props=["C03", "C05", "C02"])


# ------------------------------------------------------------------------------------------------ connections
# Assumed where a queue entry is related to its packet: the fragments 0..=last of a packet are queued (hc.packet), so an entry's fragment id is below the
# number of acknowledgement flags; an entry of the resend queue has been sent once or twice (hc.data_after)
@rule("safe.hc", "C03", "a connection never panics in a flush, a step, or while processing a frame")
def _(c):
    from . import hc as m
    a = m.emf(c)

    def inst(p, e, loop):
        out = []
        for f in p.facts.items:
            for t in subterms(f):
                if t.op == "fld" and t.a[1] == "send_count":
                    out.append(cmp_le(t, I(2)))
                elif t.op == "mul" and a.env0("rtt_ms") in t.a and any(x.op == "pow2" for x in t.a):
                    out += [cmp_le(I(0), t), cmp_le(t, mulc(a.env0("rtt_ms"), 4))]          # send_count <= 2
                elif t.op == "mod" and t.a[1].op == "mul" and a.env0("rtt_ms") in t.a[1].a and any(x.op == "pow2" for x in t.a[1].a):
                    out += [cmp_le(t, mulc(a.env0("rtt_ms"), 4))]                           # a shift: never more than the product
                elif t.op == "udiv" and t.a[0].op == "fld" and t.a[0].a[1] == "fragment_id":
                    for u in subterms(f):
                        if u.op == "len" and "ack_flags" in show(u):
                            out.append(cmp_lt(t, u))
        return out
    time = ["now_ms < %d" % CLOCK, "rtt_ms < %d" % (1 << 40), "self.sync_timeout_base_ms <= now_ms"]
    safe(c, a, [], time, inst=lambda p, e, loop: inst(p, e, loop) + synced(a, p), keep=False, loops=False)
    for p in a.returns:
        f = a.at(p.st, p.facts.plus(*[a.env0(x) for x in time]))
        v = f("self.sync_timeout_base_ms")
        c.check(f.st.facts.prove(cmp_le(v, a.env0("now_ms"))) or stamped(a, p, v), "emit_frames: the time of the last transmission must not lie in the future", a.where(p), (p, v))
    for f, args in (("new", ["config"]), ("send", ["self", "data", "channel_id", "mode"]), ("handle_data_frame", ["self", "frame"]), ("handle_sync_frame", ["self", "frame"]),
                    ("handle_ack_frame", ["self", "frame"]), ("step", ["self"]), ("is_send_pending", ["self"]), ("send_buffer_size", ["self"]), ("rtt_s", ["self"])):
        safe(c, c.fn(m.HC + "::" + f, args, m.HB), keep=False, loops=False)


def written(a, p):
    """values that calls of the emitters leave in the time of the last transmission: the emitters run the callback, which stores now_ms (hc.callbacks)"""
    return [s for s in set(x for f in p.facts.items for x in subterms(f)) if s.op == "sym" and re.search(r"~\d+#", str(s.a[0]))]


def stamped(a, p, v):
    return v in written(a, p) or v.op == "sym" and "~" in str(v.a[0])


def synced(a, p):
    return [cmp_le(s, a.env0("now_ms")) for s in written(a, p)]


@rule("safe.server", "C03 C04", "the server never panics, whatever arrives and whatever is called (except as documented: an invalid configuration, or sending an invalid packet)")
def _(c):
    from . import server as m
    for a, allow in ((m.step(c), ()), (c.fn(m.S + "::flush", ["self"], m.NB), ()), (c.fn(m.S + "::drop", ["self", "client_addr"], m.NB), ()), (c.fn(m.S + "::client", ["self", "client_addr"], m.NB), ())):
        safe(c, a, keep=False, allow=allow, inst=lambda p, e, loop: clock(p), loops=False)
    a = c.fn(m.S + "::bind", ["addr", "config"], m.NB)
    configured(c, a, "Server::bind", ["config.endpoint_config"], extra=["config.max_total_connections > 0", "config.max_active_connections > 0"])
    for f, args in (("disconnect", ["self"]), ("disconnect_now", ["self"]), ("rtt_s", ["self"]), ("send_buffer_size", ["self"]), ("is_active", ["self"])):
        safe(c, c.fn(m.RC + "::" + f, args, m.NB), keep=False)
    sends(c, c.fn(m.RC + "::send", ["self", "data", "channel_id", "mode"], m.NB), "RemoteClient::send", "self.max_packet_size")


@rule("safe.client", "C03 C04", "the client never panics, whatever arrives and whatever is called (except as documented: an invalid configuration, an address that does not resolve, or sending an invalid packet)")
def _(c):
    from . import client as m
    for a in (m.step(c), c.fn(m.C + "::flush", ["self"], m.NB)):
        safe(c, a, keep=False, inst=lambda p, e, loop: clock(p), loops=False)
    a = c.fn(m.C + "::connect", ["dst_addr", "config"], m.NB)
    configured(c, a, "Client::connect", ["config.endpoint_config"], ok=lambda p: p.msg and "expect" in p.msg)
    for f, args in (("disconnect", ["self"]), ("disconnect_now", ["self"]), ("rtt_s", ["self"]), ("send_buffer_size", ["self"]), ("is_active", ["self"])):
        safe(c, c.fn(m.C + "::" + f, args, m.NB), keep=False, inst=lambda p, e, loop: clock(p), loops=False)
    sends(c, c.fn(m.C + "::send", ["self", "data", "channel_id", "mode"], m.NB), "Client::send", "self.config.endpoint_config.max_packet_size")


def clock(p):
    """the time since an endpoint was created, in milliseconds, is below 2^62"""
    return [cmp_lt(t, I(CLOCK)) for t in dict.fromkeys(t for f in p.facts.items for t in subterms(f) if t.op == "mod" and "as_millis" in show(t))]


def sends(c, a, who, limit):
    """sending panics exactly for packets larger than the configured maximum and for channels that do not exist"""
    ok = "len(data) <= %s and channel_id < 64" % limit
    for p in a.panics:
        e = a.at(a.st0, p.facts)
        c.check(absurd(p.facts, [e(ok)]), "%s: a packet of at most the maximum size on an existing channel must be accepted" % who, p.loc, (p,), props=["C03", "C04"])
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        c.check(p.facts.prove(e(ok)), "%s: packets larger than the maximum and invalid channels must be refused" % who, a.where(p), (p,), props=["C03", "C04"])


VALID_CFG = ["%s.max_send_rate > 0", "%s.max_receive_rate > 0", "%s.max_packet_size > 0", "%s.max_receive_alloc > 0"]


def configured(c, a, who, ep, extra=(), ok=None):
    for p in a.panics:
        if ok and ok(p):
            continue
        e = a.at(a.st0, p.facts)
        xs = [e(x % ep[0]) for x in VALID_CFG] + [e("%s.max_packet_size <= 94896128" % ep[0])] + [e(x) for x in extra]
        c.check(absurd(p.facts, xs), "%s: must not panic for a valid configuration" % who, p.loc, (p,))
    for p in a.returns:
        if p.ret is not None and p.facts.refute(cmp_eq(mk("discr", p.ret, 2), I(0))):
            continue                # an I/O error
        e = a.at(a.st0, p.facts)
        c.check(p.facts.prove(e("%s.max_packet_size <= 94896128" % ep[0])), "%s: packets of more than 65 536 fragments of 1 448 bytes must not be admitted" % who, a.where(p), (p,), props=["C03", "C04"])
