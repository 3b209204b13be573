"""SendRateComp, RecvRateSet, LossIntervalQueue: the TFRC rate computation (RFC 5348)."""
from ..rules import *

SR = "half_connection::send_rate::SendRateComp"
SM = "half_connection::send_rate::"
RS = "half_connection::recv_rate_set::RecvRateSet"
LI = "half_connection::loss_rate::LossIntervalQueue"
B = frozenset([RS + "::" + m for m in ("reset_initial", "reset", "rate_limited_update", "loss_increase_update", "data_limited_update", "max")] +
              [SM + "eval_tcp_throughput", SM + "eval_tcp_throughput_inv", "half_connection::frame_queue::FrameQueue::reset_loss_rate"])
HI32 = "4294967295"


@rule("sr.equation", "C14", "the TCP throughput equation is X = s / (R (sqrt(2p/3) + 12 sqrt(3p/8) p (1 + 32 p^2))) with s = 1472 (RFC 5348 section 3.1, b = 1, t_RTO = 4R)")
def _(c):
    a = c.fn(SM + "eval_tcp_throughput", ["R", "p"])
    a.cases(ret="u32(1472.0 / (R * (sqrt(p * 2.0 / 3.0) + 12.0 * sqrt(p * 3.0 / 8.0) * p * (1.0 + 32.0 * p * p))))")


@rule("sr.inverse", "C14 C03", "the inverse of the throughput equation is a bisection of [0, 1] that raises p while the rate is above the target, ends within 5 % of it, and stops after a bounded "
      "number of halvings")
def _(c):
    a = c.fn(SM + "eval_tcp_throughput_inv", ["R", "target"], frozenset([SM + "eval_tcp_throughput"]))
    c.check(len(a.loops()) == 1, "eval_tcp_throughput_inv must bisect in one loop")
    for L in a.loops():
        lo = [s for s, e in L.entry.items() if e.op == "flt" and e.a[0] == 0.0]
        hi = [s for s, e in L.entry.items() if e.op == "flt" and e.a[0] == 1.0]
        if not c.check(len(lo) == 1 and len(hi) == 1, "eval_tcp_throughput_inv must start from the interval [0, 1]", L.loc):
            continue
        cnt = [s for s, _ in a.counters(L, I(0))]
        bounded = any(all(any(q.facts.prove(cmp_le(s, I(n))) for n in (10000,)) for q in a.loop_backs(L)) for s in cnt)
        down = [s for s, e in a.counters(L, None, -1)]
        bounded = bounded or any(all(q.facts.prove(cmp_lt(I(0), s)) for q in a.loop_backs(L)) for s in down)
        c.check(bounded, "eval_tcp_throughput_inv: the bisection must stop after a bounded number of steps", L.loc)
        for q in a.loop_backs(L) + [p for p in a.returns]:
            h = a.at(L.hst, q.facts, lo=N(lo[0]), hi=N(hi[0]))
            mid = a.ip.fop("Div", a.ip.fop("Add", lo[0], hi[0]), mk("flt", 2.0))
            ev = [e for e in q.events() if is_call("eval_tcp_throughput")(e)]
            if not ev:
                if q.kind == "return":
                    c.check(q.ret in (lo[0], hi[0]), "eval_tcp_throughput_inv must return a point of the final interval", a.where(q), (q, q.ret))
                continue
            rate = ev[-1].ret
            c.check(same(ev[-1].args[1], mid, q.facts) and same(ev[-1].args[0], h("R"), q.facts), "eval_tcp_throughput_inv must evaluate the middle of the interval", ev[-1].loc, (q,))
            if q.kind == "back":
                nlo, nhi = a.sval(L, lo[0], q.st), a.sval(L, hi[0], q.st)
                t = h("target")
                if q.facts.prove(cmp_lt(t, rate)):
                    c.check(same(nlo, mid, q.facts) and nhi is hi[0], "eval_tcp_throughput_inv: while the rate is above the target, p must rise", a.where(q), (q, nlo, nhi))
                elif q.facts.prove(cmp_lt(rate, t)):
                    c.check(same(nhi, mid, q.facts) and nlo is lo[0], "eval_tcp_throughput_inv: while the rate is below the target, p must fall", a.where(q), (q, nlo, nhi))
                else:
                    c.check(False, "eval_tcp_throughput_inv: an exact match must end the search", a.where(q), (q,))
            else:
                d = h("u32(i2f(target) * 0.05)")
                t = h("target")
                c.check(same(q.ret, mid, q.facts), "eval_tcp_throughput_inv must return the point it evaluated", a.where(q), (q, q.ret))
                c.check(q.facts.prove(band(cmp_le(rate, add(t, d)), cmp_le(t, add(rate, d)))), "eval_tcp_throughput_inv must end only within 5 % of the target", a.where(q), (q,))


@rule("sr.new", "C14 C13", "a new connection starts before slow start with at most one segment per second and at most the ceiling")
def _(c):
    a = c.fn(SR + "::new", ["max_send_rate"], B)
    a.cases(holds=["ret.send_rate == min(1472, max_send_rate)", "ret.max_send_rate == max_send_rate", "isv(ret.mode, 'AwaitSend')", "is_none(ret.rtt_s)", "is_none(ret.rtt_ms)",
                   "is_none(ret.rto_ms)", "is_none(ret.nofeedback_exp_ms)", "ret.prev_loss_rate == 0.0"])
    for n, w in (("rtt_s", "self.rtt_s"), ("rtt_ms", "self.rtt_ms"), ("rto_ms", "self.rto_ms")):
        g = c.fn(SR + "::" + n, ["self"])
        g.cases(ret=w, frame=g.fields())
    g = c.fn(SR + "::send_rate", ["self"])
    g.cases(ret="i2f(self.send_rate)", frame=g.fields())


@rule("sr.sent", "C14 C11 C10", "the first frame starts slow start with a 2 s nofeedback timer; every frame ends idleness and nothing else changes")
def _(c):
    a = c.fn(SR + "::notify_frame_sent", ["self", "now_ms"], B)
    rest = a.fields("self", "nofeedback_exp_ms", "nofeedback_idle", "mode", "recv_rate_set")
    a.cases("isv(self.mode, 'AwaitSend')", frame=rest, final={"self.nofeedback_exp_ms": "Some(now_ms + 2000)", "self.nofeedback_idle": "False"},
            holds=["isv(self.mode, 'SlowStart')", "is_none(self.mode.SlowStart.time_last_doubled_ms)"])
    a.cases("not isv(self.mode, 'AwaitSend')", frame=rest + ["self.nofeedback_exp_ms", "self.mode", "self.recv_rate_set"], final={"self.nofeedback_idle": "False"})
    ev = a.only_if(is_call(RS + "::reset_initial"), "isv(self.mode, 'AwaitSend')", "the receive rates are reset", at="entry")
    for p in a.returns:
        if p.facts.prove(a.at(a.st0, p.facts)("isv(self.mode, 'AwaitSend')")):
            c.check(any(is_call(RS + "::reset_initial")(e) for e in p.events()), "notify_frame_sent: slow start must begin with an unlimited receive rate", a.where(p), (p,))


def fb(a, p):
    return a.at(a.st0, p.facts)


IDLE = "(isv(self.mode, 'AwaitSend') or (is_none(feedback) and (is_none(self.nofeedback_exp_ms) or now_ms < self.nofeedback_exp_ms.Some)))"
INV = "(self.send_rate >= min(23, self.max_send_rate) and self.send_rate <= self.max_send_rate)"


def step(c):
    return c.fn(SR + "::step", ["self", "now_ms", "feedback", "reset_loss_rate"], B)


@rule("sr.step.idle", "C14 C11", "without feedback and before the nofeedback timer expires, step changes nothing; otherwise it restarts the timer one RTO ahead")
def _(c):
    a = step(c)
    a.cases(IDLE, frame=a.fields())
    for p in a.returns:
        e = fb(a, p)
        if p.facts.plus(bnot(e(IDLE))).inconsistent():
            continue
        f = a.at(p.st, p.facts.plus(bnot(e(IDLE))))
        R = f("self.rtt_s.Some if is_some(self.rtt_s) else 0.0")
        X = f("self.send_rate") if p.facts.prove(e("is_none(feedback)")) else e("self.send_rate")
        h = f.bind(R=N(R, float_tid(c)), X=N(X))
        rto = h("max(4.0 * R, 2944.0 / i2f(X))")
        h = h.bind(rto=N(rto))
        for pl, w in (("self.rto_ms", "Some(u64(round(max(0.0, rto * 1000.0))))"),
                      ("self.nofeedback_exp_ms", "Some(min(18446744073709551615, now_ms + u64(round(max(0.0, rto * 1000.0)))))")):
            c.check(same(f(pl), h(w), f.st.facts), "step: %s must be computed from RTO = max(4R, 2s/X)" % pl, a.where(p), (p, f(pl), h(w)))
        c.check(f.st.facts.prove(f("self.nofeedback_idle")), "step: a restarted nofeedback timer must start idle", a.where(p), (p,))
        c.check(same(f("self.max_send_rate"), e("self.max_send_rate"), p.facts), "step must not change the ceiling", a.where(p))


def float_tid(c):
    for i, t in c.p.types.items():
        if t["k"] == "float":
            return i


@rule("sr.rtt", "C14 C11 C10", "the RTT estimate is the first sample, then 0.9 R + 0.1 sample, in seconds and rounded milliseconds; it changes only with feedback")
def _(c):
    a = step(c)
    a.cases("is_none(feedback)", frame=["self.rtt_s", "self.rtt_ms"])
    n = 0
    for p in a.returns:
        e = fb(a, p)
        if not p.facts.prove(e("is_some(feedback) and not isv(self.mode, 'AwaitSend')")):
            continue
        n += 1
        f = a.at(p.st, p.facts)
        s = "i2f(feedback.Some.rtt_ms) / 1000.0"
        R = e("(0.9 * self.rtt_s.Some + 0.1 * (%s)) if is_some(self.rtt_s) else %s" % (s, s))
        g = a.at(a.st0, p.facts, R=N(R))
        c.check(p.facts.prove(f("is_some(self.rtt_s) and is_some(self.rtt_ms)")), "step: feedback must update the RTT", a.where(p), (p,))
        c.check(same(f("self.rtt_s.Some"), R, p.facts), "step: the RTT estimate must be 0.9 R + 0.1 sample, or the first sample", a.where(p), (p, f("self.rtt_s.Some"), R))
        w = g("u64(round(max(0.0, R * 1000.0)))") if R.op != "ite" else None
        if w is None:
            w = ite(R.a[0], a.at(a.st0, p.facts, R=N(R.a[1]))("u64(round(max(0.0, R * 1000.0)))"), a.at(a.st0, p.facts, R=N(R.a[2]))("u64(round(max(0.0, R * 1000.0)))"))
        c.check(same(f("self.rtt_ms.Some"), w, p.facts), "step: the RTT in milliseconds must be the estimate rounded", a.where(p), (p, f("self.rtt_ms.Some"), w))
    c.check(n > 0, "step never updates the RTT")


@rule("sr.nofeedback", "C14 C11", "a nofeedback expiry keeps the rate or halves it, never below s/64 nor above the ceiling, per RFC 5348 section 4.4")
def _(c):
    a = step(c)
    exp = "is_none(feedback) and not isv(self.mode, 'AwaitSend') and is_some(self.nofeedback_exp_ms) and now_ms >= self.nofeedback_exp_ms.Some"
    ini = "u32(4380.0 / self.rtt_s.Some)"
    keep = "(is_some(self.rtt_s) and self.nofeedback_idle and self.send_rate < min(%s, 2 * %s))" % (HI32, ini)
    a.cases(exp, frame=["self.rtt_s", "self.rtt_ms", "self.max_send_rate", "self.prev_loss_rate", "self.mode"])
    a.cases(exp + " and isv(self.mode, 'SlowStart') and " + keep, final={"self.send_rate": "min(self.send_rate, self.max_send_rate)"}, frame=["self.recv_rate_set"])
    a.cases(exp + " and isv(self.mode, 'SlowStart') and not " + keep, final={"self.send_rate": "min(self.max_send_rate, max(23, self.send_rate // 2))"}, frame=["self.recv_rate_set"])
    n = 0
    for p in a.returns:
        e = fb(a, p)
        if p.facts.plus(e(exp + " and isv(self.mode, 'ThroughputEqn')")).inconsistent():
            continue
        n += 1
        f = a.at(p.st, p.facts)
        mx = [x for x in p.events() if is_call(RS + "::max")(x)]
        rs = [x for x in p.events() if is_call(RS + "::reset")(x)]
        if not c.check(len(mx) == 1, "step: at a nofeedback expiry the greatest receive rate must be consulted", a.where(p), (p,)):
            continue
        e = e.bind(X=N(mx[0].ret))
        k = "(self.nofeedback_idle and X < %s)" % ini
        if p.facts.prove(e(k)):
            c.check(not rs and same(f("self.send_rate"), e("min(self.send_rate, self.max_send_rate)"), p.facts), "step: an idle sender below the recovery rate keeps its rate", a.where(p), (p, f("self.send_rate")))
            continue
        c.check(p.facts.refute(e(k)), "step: a nofeedback expiry must distinguish idle senders", a.where(p), (p,))
        e = e.bind(L=N(e("max(23, min(self.mode.ThroughputEqn.send_rate_tcp, min(%s, 2 * X)) // 2)" % HI32)))
        c.check(same(f("self.send_rate"), e("min(self.max_send_rate, max(23, min(self.mode.ThroughputEqn.send_rate_tcp, L)))"), p.facts),
                "step: a nofeedback expiry must halve the rate min(X_Bps, 2 X_recv)", a.where(p), (p, f("self.send_rate"), e("min(self.max_send_rate, max(23, min(self.mode.ThroughputEqn.send_rate_tcp, L)))")))
        c.check(len(rs) == 1 and same(rs[0].args[1], e("now_ms"), p.facts) and same(rs[0].args[2], e("L // 2"), p.facts), "step: a nofeedback expiry must lower the remembered receive rate to half the new limit",
                a.where(p), (p,))
    c.check(n > 0, "no nofeedback expiry in the throughput equation phase")


@rule("sr.feedback", "C14 C13 C11", "feedback: the receive limit is X_recv, doubled unless a loss increase limited it; slow start at most doubles the rate per RTT or sets the initial window per RTT; loss enters "
      "and governs the throughput equation phase; the result lies between s/64 and the ceiling")
def _(c):
    a = step(c)
    got = "is_some(feedback) and not isv(self.mode, 'AwaitSend')"
    n = 0
    for p in a.returns:
        e = fb(a, p)
        if not p.facts.prove(e(got)):
            continue
        n += 1
        f = a.at(p.st, p.facts)
        e = e.bind(R=N(f("self.rtt_s.Some"), float_tid(c)), M=N(f("self.rtt_ms.Some")), fbk=e.term("feedback.Some"))
        up = e("fbk.loss_rate > self.prev_loss_rate")
        F = p.facts
        w = (p,)
        # receive limit
        calls = [x for x in p.events() if x.kind == "call" and x.name.startswith(RS)]
        if F.prove(e("fbk.rate_limited")):
            k, dbl = "rate_limited_update", True
        elif F.prove(up):
            k, dbl = "loss_increase_update", False
        else:
            k, dbl = "data_limited_update", True
            c.check(F.refute(up) and F.refute(e("fbk.rate_limited")), "step: feedback must be classified by rate limitation and loss increase", a.where(p), w)
        if not c.check(len(calls) == 1 and calls[0].name.endswith("::" + k), "step: this feedback must update the receive rates with %s" % k, a.where(p), w):
            continue
        args = calls[0].args
        c.check(same(args[1], e("now_ms"), F) and same(args[2], e("fbk.receive_rate"), F) and (k != "rate_limited_update" or same(args[3], e("M"), F)), "step: the receive rates must be updated with the reported rate", calls[0].loc, w)
        lim = calls[0].ret
        lim = minmax("min", I((1 << 32) - 1), mulc(lim, 2)) if dbl else lim
        e = e.bind(L=N(lim))
        c.check(same(f("self.prev_loss_rate"), e("fbk.loss_rate"), F), "step: the loss rate must be remembered", a.where(p), w)
        clo = [x for x in p.events() if x.kind in ("call", "clo", "op") and x.name and "reset_loss_rate" in str(x.name)]
        inv = [x for x in p.events() if is_call("eval_tcp_throughput_inv")(x)]
        if F.prove(e("isv(self.mode, 'SlowStart')")):
            if F.prove(up):
                tgt = e("u32(736.0 / R) if is_none(self.mode.SlowStart.time_last_doubled_ms) else self.send_rate // 2")
                e = e.bind(G=N(tgt))
                c.check(F.prove(f("isv(self.mode, 'ThroughputEqn')")), "step: the first loss must end slow start", a.where(p), w)
                c.check(same(f("self.mode.ThroughputEqn.send_rate_tcp"), tgt, F), "step: the first loss must set the equation rate to half the rate (s/2 per RTT on first feedback)", a.where(p), w + (f("self.mode.ThroughputEqn.send_rate_tcp"), tgt))
                c.check(same(f("self.send_rate"), e("min(self.max_send_rate, max(23, min(G, L)))"), F), "step: the first loss must at least halve the rate", a.where(p), w + (f("self.send_rate"),))
                c.check(len(inv) == 1 and same(inv[0].args[1], tgt, F) and same(inv[0].args[0], e("R"), F), "step: the loss history must be initialised from the target rate", a.where(p), w)
                continue
            c.check(F.refute(up), "step: slow start must react to a loss increase", a.where(p), w)
            e = e.bind(I0=N(e("max(23, u32(4380.0 / R))")))
            c.check(F.prove(f("isv(self.mode, 'SlowStart')")), "step: without loss slow start must continue", a.where(p), w)
            tl = "self.mode.SlowStart.time_last_doubled_ms"
            if F.prove(e("is_none(%s)" % tl)):
                c.check(same(f("self.send_rate"), e("min(self.max_send_rate, I0)"), F), "step: the first feedback must set the initial window per RTT", a.where(p), w + (f("self.send_rate"),))
                c.check(same(f(tl), e("Some(now_ms)"), F), "step: the first feedback must start the doubling clock", a.where(p), w)
            elif F.prove(e("now_ms - %s.Some >= M" % tl)):
                c.check(same(f("self.send_rate"), e("min(self.max_send_rate, max(I0, min(L, min(%s, 2 * self.send_rate))))" % HI32), F), "step: slow start must at most double the rate once per RTT, limited by the receive rate",
                        a.where(p), w + (f("self.send_rate"),))
                c.check(same(f(tl), e("Some(now_ms)"), F), "step: a doubling must restart the doubling clock", a.where(p), w)
            else:
                c.check(F.refute(e("now_ms - %s.Some >= M" % tl)), "step: slow start must double at most once per RTT", a.where(p), w)
                c.check(same(f("self.send_rate"), e("min(self.send_rate, self.max_send_rate)"), F), "step: within one RTT of a doubling the rate must stay", a.where(p), w + (f("self.send_rate"),))
                c.check(same(f(tl), e(tl), F), "step: within one RTT the doubling clock must stay", a.where(p), w)
        else:
            c.check(F.prove(e("isv(self.mode, 'ThroughputEqn')")), "step: the phase must be known", a.where(p), w)
            ev = [x for x in p.events() if is_call("eval_tcp_throughput")(x)]
            if c.check(len(ev) == 1 and same(ev[0].args[0], e("R"), F) and same(ev[0].args[1], e("fbk.loss_rate"), F), "step: the throughput equation must be evaluated at the current RTT and loss rate", a.where(p), w):
                e = e.bind(X=N(ev[0].ret))
                c.check(same(f("self.send_rate"), e("min(self.max_send_rate, max(23, min(X, L)))"), F), "step: the rate must be min(X_Bps, recv_limit), at least s/64, at most the ceiling", a.where(p), w + (f("self.send_rate"),))
                c.check(F.prove(f("isv(self.mode, 'ThroughputEqn')")) and same(f("self.mode.ThroughputEqn.send_rate_tcp"), ev[0].ret, F), "step: the equation rate must be remembered", a.where(p), w)
    c.check(n > 0, "step never handles feedback")


@rule("sr.reset_loss", "C14 C03", "entering the throughput equation phase reinitialises the loss history with the loss rate that yields the target rate, and nothing else does")
def _(c):
    a = step(c)
    n = 0
    for p in a.returns:
        e = fb(a, p)
        inv = [x for x in p.events() if is_call("eval_tcp_throughput_inv")(x)]
        hit = [x for x in p.events() if is_call("FrameQueue::reset_loss_rate")(x)]
        enter = e("is_some(feedback) and isv(self.mode, 'SlowStart') and feedback.Some.loss_rate > self.prev_loss_rate")
        if p.facts.prove(enter):
            n += 1
            c.check(len(hit) == 1 and len(inv) == 1 and same(hit[0].args[1], inv[0].ret, p.facts), "step: the loss history must be reinitialised when loss first occurs", a.where(p), (p,))
        elif p.facts.refute(enter):
            c.check(not hit and not inv, "step: the loss history must be reinitialised only when loss first occurs", a.where(p), (p,))
    c.check(n > 0, "step never reinitialises the loss history")


@rule("rs.sets", "C14 C11", "the receive rate set (X_recv_set): initial = unlimited; reset = one entry; rate limited: drop entries older than two RTTs, add, take the maximum; loss increase: halve all, add 0.85 of "
      "the new rate; data limited: keep the maximum of all non-initial entries and the new rate")
def _(c):
    MX = frozenset([RS + "::max"])
    for m, args, v, ini in (("reset_initial", ["self", "now_ms"], HI32, "True"), ("reset", ["self", "now_ms", "rate"], "rate", "False")):
        a = c.fn(RS + "::" + m, args, MX)
        for p in a.returns:
            only_entry(c, a, p, a.at(a.st0, p.facts)(v), ini)
    a = c.fn(RS + "::rate_limited_update", ["self", "now_ms", "rate", "rtt_ms"], MX)
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        w = f("self.entries")
        mx = [x for x in p.events() if is_call(RS + "::max")(x)]
        if c.check(w.op == "pushb", "rate_limited_update must drop old entries and add the new one", a.where(p), (p, w)):
            kept, src = filtered(a, p, "entries", "now_ms - x.timestamp_ms < 2 * rtt_ms")
            c.check(kept is w.a[0] and src is e("self.entries"), "rate_limited_update must keep exactly the entries younger than two RTTs", a.where(p), (p, w))
            entry(c, a, p, w.a[1], e("rate"), "False")
        c.check(len(mx) == 1 and same(p.ret, mx[0].ret, p.facts), "rate_limited_update must return the maximum of the set", a.where(p), (p,))
    for m, upd in (("loss_increase_update", "u32(i2f(rate) * 0.85)"), ("data_limited_update", "rate")):
        a = c.fn(RS + "::" + m, ["self", "now_ms", "rate"], MX)
        for p in a.returns:
            e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
            mx = [x for x in p.events() if is_call(RS + "::max")(x)]
            kept, _ = filtered(a, p, "entries", "not x.is_initial")
            rate = e(upd)
            best = folded(a, p, "entries", "is_initial", rate) if kept is None else None
            if not c.check(kept is not None or best is not None, "%s must forget the initial entry" % m, a.where(p), (p,)):
                continue
            if kept is None:
                want = best
            elif mx:
                want = minmax("max", rate, mx[0].ret)
            else:
                want = rate
                c.check(p.facts.prove(cmp_eq(a.ip.length(kept), I(0))), "%s must take the maximum over all remaining entries" % m, a.where(p), (p,))
            c.check(same(p.ret, want, p.facts), "%s must return the maximum of the remaining entries and the new rate" % m, a.where(p), (p, p.ret, want))
            only_entry(c, a, p, want, "False")
        if m.startswith("loss"):
            # every entry is halved first
            n = 0
            for L in a.loops():
                for k, _ in a.counters(L, I(0)):
                    good = bool(a.loop_backs(L))
                    for q in a.loop_backs(L):
                        h, g = a.at(L.hst, q.facts, k=N(k)), a.at(q.st, q.facts, k=N(k))
                        good = good and same(g("self.entries[k].value"), h("self.entries[k].value // 2"), q.facts) and same(g("self.entries[k].timestamp_ms"), h("self.entries[k].timestamp_ms"), q.facts)
                    for p in a.returns:
                        good = good and L in a.loops_before(p) and p.facts.prove(a.at(L.hst, p.facts, k=N(k))("k >= len(self.entries)"))
                    n += good
            c.check(n > 0, "loss_increase_update must halve every entry")
        else:
            c.check(not [e for e, p in a.sel(is_write("self.entries")) if any(x[0] == "i" for x in e.args[1])], "data_limited_update must not modify entries")
    a = c.fn(RS + "::max", ["self"])
    n = 0
    for L in a.loops():
        for s in L.syms.values():
            e = L.entry.get(s)
            if e is None or not same(e, a.env0("self.entries[0].value"), L.pre.facts):
                continue
            for st0 in (0, 1):
                for k, _ in a.counters(L, I(st0)):
                    ok = bool(a.loop_backs(L)) and all(same(a.sval(L, s, q.st), a.at(L.hst, q.facts, k=N(k), s=N(s))("max(s, self.entries[k].value)"), q.facts) for q in a.loop_backs(L))
                    ok = ok and all(same(p.ret, s, p.facts) and p.facts.prove(a.at(L.hst, p.facts, k=N(k))("k >= len(self.entries)")) for p in a.returns if L in a.loops_before(p))
                    n += ok
    c.check(n > 0 or any(p.ret.op in ("amax", "maxof") for p in a.returns), "max must return the greatest receive rate in the set", "%s:%s" % (a.f.file, a.f.line))
    a.cases(frame=a.fields())


def filtered(a, p, field, cond):
    """(what path p keeps of the vector self.<field>, what it was): the elements x with cond, in order; by retain, or by a loop removing the others"""
    r = [x for x in p.events() if x.name == "retain"]
    if len(r) == 1 and a.retain_iff(r[0], cond):
        return r[0].ret, r[0].x["src"]
    if r:
        return None, None
    for L in a.loops_before(p):
        V, src = a.at(L.hst, p.facts)("self." + field), a.at(L.pre, L.pre.facts)("self." + field)
        if V is src:
            continue
        for i, e0 in L.entry.items():
            if e0 is not I(0) or not a.loop_backs(L):
                continue
            ok = p.facts.prove(a.at(L.hst, p.facts, i=N(i))("i >= len(self.%s)" % field))
            for q in a.loop_backs(L):
                h, g = a.at(L.hst, q.facts, i=N(i)), a.at(q.st, q.facts)
                h = h.bind(x=h.term("self.%s[i]" % field))
                j, now = a.sval(L, i, q.st), g("self." + field)
                keeps = q.facts.prove(h(cond)) and now is V and same(j, add(i, I(1)), q.facts)
                drops = q.facts.refute(h(cond)) and now.op in ("rem", "popf") and now.a[0] is V and (now.op == "popf" or same(now.a[1], i, q.facts)) and same(j, i, q.facts)
                ok = ok and (keeps or drops)
            if ok:
                return V, src
    return None, None


def folded(a, p, field, skip, start):
    """the loop result that is the greatest of `start` and the values of the elements of self.<field> that are not `skip`"""
    for L in a.loops_before(p):
        for k, _ in a.counters(L, I(0)):
            for s, e0 in L.entry.items():
                if not same(e0, start, L.pre.facts) or not a.loop_backs(L):
                    continue
                ok = p.facts.prove(a.at(L.hst, p.facts, k=N(k))("k >= len(self.%s)" % field))
                for q in a.loop_backs(L):
                    h = a.at(L.hst, q.facts, k=N(k), s=N(s))
                    ok = ok and same(a.sval(L, s, q.st), h("s if self.{0}[k].{1} else max(s, self.{0}[k].value)".format(field, skip)), q.facts)
                if ok:
                    return s
    # a filtered iterator: an inner loop M looks for the next element that is not skipped
    ls = a.loops_before(p)
    for L in ls:
        for M in ls[ls.index(L) + 1:]:
            for j, i in a.counters(M):
                if L.entry.get(i) is not I(0) or not a.loop_backs(L):
                    continue
                at = lambda q: a.at(M.hst, q.facts, j=N(j))
                ok = p.facts.prove(at(p)("j >= len(self.%s)" % field)) and all(q.facts.prove(at(q)("self.%s[j].%s" % (field, skip))) for q in a.loop_backs(M))
                ok = ok and all(M in a.loops_before(q) and same(a.sval(L, i, q.st), add(j, I(1)), q.facts) and q.facts.refute(at(q)("self.%s[j].%s" % (field, skip))) for q in a.loop_backs(L))
                for s, e0 in L.entry.items():
                    if ok and same(e0, start, L.pre.facts) and all(same(a.sval(L, s, q.st), at(q).bind(s=N(s))("max(s, self.%s[j].value)" % field), q.facts) for q in a.loop_backs(L)):
                        return s
    return None


def entry(c, a, p, x, val, ini):
    f = a.at(p.st, p.facts)
    f = f.bind(x=N(x, f.elem_tid(f.term("self.entries").tid)))
    for n, w in (("value", val), ("timestamp_ms", f("now_ms")), ("is_initial", TRUE if ini == "True" else FALSE)):
        c.check(same(f("x." + n), w, p.facts), "%s: the new entry's %s is wrong" % (a.short(), n), a.where(p), (p, f("x." + n), w))


def only_entry(c, a, p, val, ini):
    f = a.at(p.st, p.facts)
    w = f("self.entries")
    x = None
    if w.op == "pushb" and p.facts.prove(cmp_eq(a.ip.length(w.a[0]), I(0))):
        x = w.a[1]
    elif w.op == "arr" and len(w.a) == 1:
        x = w.a[0]
    if c.check(x is not None, "%s must leave exactly one entry" % a.short(), a.where(p), (p, w)):
        entry(c, a, p, x, val, ini)


W8 = [1.0, 1.0, 1.0, 1.0, 0.8, 0.6, 0.4, 0.2]


@rule("li.intervals", "C14", "loss intervals: an acknowledged frame lengthens the current interval; a loss at or after the end of the current interval starts a new one of length 1 that ends one RTT after the loss, "
      "at most nine are kept; an earlier loss lengthens the current interval")
def _(c):
    a = c.fn(LI + "::push_ack", ["self"])
    a.cases("len(self.entries) == 0", frame=a.fields())
    SAT = "min(%s, self.entries[0].length + 1)" % HI32
    a.cases("len(self.entries) > 0", final={"self.entries[0].length": SAT}, frame=["self.entries[0].end_time_ms"])
    for p in a.returns:
        w = a.at(p.st, p.facts)("self.entries")
        o = a.env0("self.entries")
        c.check(w is o or w.op == "store" and w.a[0] is o and p.facts.prove(cmp_eq(w.a[1], I(0))), "push_ack must only touch the current interval", a.where(p), (p, w))
    a = c.fn(LI + "::push_nack", ["self", "t", "rtt"])
    new = "(len(self.entries) == 0 or t >= self.entries[0].end_time_ms)"
    a.cases("not " + new, final={"self.entries[0].length": SAT}, frame=["self.entries[0].end_time_ms"])
    a.cases(new, final={"self.entries[0].length": "1", "self.entries[0].end_time_ms": "t + rtt"})
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        w, o = f("self.entries"), a.env0("self.entries")
        if p.facts.refute(e(new)):
            c.check(w.op == "store" and w.a[0] is o and p.facts.prove(cmp_eq(w.a[1], I(0))), "push_nack must only touch the current interval", a.where(p), (p, w))
            continue
        z = w
        if z.op == "trunc":
            c.check(z.a[1] is I(9) or p.facts.prove(cmp_le(I(9), z.a[1])), "push_nack must keep nine intervals", a.where(p), (p, w))
            z = z.a[0]
        else:
            F = p.facts.plus(e("len(self.entries) <= 9"))
            if F.inconsistent() or F.prove(FALSE):
                continue
            c.check(F.prove(cmp_le(a.ip.length(w), I(9))), "push_nack must keep at most nine intervals", a.where(p), (p, w))
            if z.op == "popb":          # only ever the tenth
                c.check(F.prove(cmp_le(I(9), a.ip.length(w))), "push_nack must keep nine intervals", a.where(p), (p, w))
                z = z.a[0]
        if z.op == "pushf" and z is w and z.a[0].op in ("popb", "trunc") and z.a[0].a[0] is o:
            # room was made before: the oldest of nine intervals goes
            F = p.facts.plus(e("len(self.entries) <= 9"))
            c.check(F.prove(cmp_le(I(9), a.ip.length(o))) or z.a[0].op == "trunc" and p.facts.prove(cmp_le(I(8), z.a[0].a[1])), "push_nack must keep nine intervals", a.where(p), (p, w))
            continue
        c.check(z.op == "pushf" and z.a[0] is o, "push_nack must add the new interval in front of the earlier ones", a.where(p), (p, w))
    a = c.fn(LI + "::new", [])
    a.cases(holds=["len(ret.entries) == 0"])
    a = c.fn(LI + "::reset", ["self", "p"])
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        c.check(p.facts.prove(f("len(self.entries) <= 1")), "reset must keep only the current interval", a.where(p), (p, f("self.entries")))
        c.check(same(f("self.entries[0].length"), e("u32(round(min(max(1.0 / p, 0.0), 4294967295.0)))"), p.facts), "reset must set the interval length to 1/p", a.where(p), (p, f("self.entries[0].length")))
        c.check(same(f("self.entries[0].end_time_ms"), e("self.entries[0].end_time_ms"), p.facts), "reset must keep the end of the interval", a.where(p))


@rule("li.rate", "C14", "the loss event rate is the inverse of the weighted average loss interval (weights 1,1,1,1,.8,.6,.4,.2; the maximum with and without the current interval), and 0 before any loss")
def _(c):
    a = c.fn(LI + "::compute_loss_rate", ["self"])
    a.cases("len(self.entries) == 0", ret="0.0")
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        if p.facts.prove(e("len(self.entries) == 1")):
            c.check(same(p.ret, e("1.0 / i2f(self.entries[0].length)"), p.facts), "compute_loss_rate: with one interval the rate is 1/length", a.where(p), (p, p.ret))
    sums = {0: [], 1: [], "w": []}
    for L in a.loops():
        for s in L.syms.values():
            e0 = L.entry.get(s)
            if e0 is None or not (e0.op == "flt" and e0.a[0] == 0.0):
                continue
            for kk, k0 in a.counters(L):
                if k0.op != "int":
                    continue
                i = sub(kk, k0)                     # the number of turns so far
                for which in (0, 1, "w"):
                    if a.loop_backs(L) and all(accum(a, L, s, i, which, a.sval(L, s, q.st), q) for q in a.loop_backs(L)):
                        sums[which].append((L, s, i))
    c.check(bool(sums[0]), "compute_loss_rate: I_tot0 must sum the intervals 0 .. n-1 with weights 0 .. n-1")
    c.check(bool(sums[1]), "compute_loss_rate: I_tot1 must sum the intervals 1 .. n with weights 0 .. n-1")
    c.check(bool(sums["w"]), "compute_loss_rate: W_tot must sum the weights 0 .. n-1")
    tab = weights(a)
    c.check(tab == W8, "compute_loss_rate: the weights must be 1, 1, 1, 1, 0.8, 0.6, 0.4, 0.2", "%s:%s" % (a.f.file, a.f.line))
    n = 0
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        F = p.facts.plus(e("len(self.entries) > 1"), e("len(self.entries) <= 9"))       # at most nine: li.intervals
        if F.inconsistent() or F.prove(FALSE):
            continue
        n += 1
        ok = False
        N1 = sub(a.ip.length(e("self.entries")), I(1))
        for _, s0, k0 in sums[0]:
            for _, s1, k1 in sums[1]:
                for _, sw, kw in sums["w"]:
                    want = a.ip.fop("Div", sw, mk("f.max", *sorted((s0, s1), key=lambda t: t.id)))
                    ok = ok or same(p.ret, want, F) and all(F.prove(cmp_eq(N1, k)) for k in (k0, k1, kw))
        c.check(ok, "compute_loss_rate: the rate must be W_tot / max(I_tot0, I_tot1) over all intervals", a.where(p), (p, p.ret))
    c.check(n > 0, "compute_loss_rate never averages")
    a.cases(frame=a.fields())


def weights(a):
    """the constant weight table the function indexes"""
    for p in a.paths:
        for t in [p.ret] if p.ret is not None else []:
            pass
        for L in a.loops():
            for st in L.backs:
                for s in L.syms.values():
                    v = a.sval(L, s, st)
                    if v is None:
                        continue
                    for x in subterms(v):
                        if x.op == "arr" and len(x.a) == 8 and all(y.op == "flt" for y in x.a):
                            return [y.a[0] for y in x.a]
    return None


def accum(a, L, s, i, which, v, q):
    """v = s + weight[i] * length[i or i+1] (or the weight alone)"""
    tab = weights(a)
    if tab is None or v is None:
        return False
    h = a.at(L.hst, q.facts, i=N(i), s=N(s, float_tid(a.c)))
    w = a.ip.step_val(mk("arr", *[mk("flt", x) for x in tab]), ("i", i, None), q.facts)
    if which == "w":
        x = w
    else:
        x = a.ip.fop("Mul", h("i2f(self.entries[i + %d].length)" % which), w)
    return same(v, a.ip.fop("Add", s, x), q.facts)
