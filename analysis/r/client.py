"""Client: which frame, timer or call moves the connection from one state to the next, and what is sent and reported when it does
(the half connection and the frame codec are the boundary of this layer)."""
from ..net import *
from ..spec import Missing
from .server import rdtid, c_size, norm, HPROP, EP, RETRY, COUNT, LINGER, STATES, config, REPLY, FRAMES

C = "client::Client"


def step(c):
    return c.fn(C + "::step", ["self"], NB)


class K:
    def __init__(self, c, s, what, **bind):
        self.c, self.s, self.what, self.bind = c, s, what, bind

    def e0(self, x):
        return self.s.e0(**self.bind)(x)

    def e1(self, x):
        return self.s.e1(**self.bind)(x)

    def ok(self, cond, msg, props, x=None, loc=None):
        return self.c.check(cond, "%s: %s" % (self.what, msg), loc or self.s.loc, (self.s.p,) + ((x,) if x is not None else ()), props=props.split())

    def prove(self, g):
        return self.s.facts.prove(self.e0(g) if isinstance(g, str) else g)

    def same(self, x, g):
        return same(x, self.e0(g) if isinstance(g, str) else g, self.s.facts)

    # ------------------------------------------------------------ facets
    def state(self, to, props="C07 C08 C09 C10"):
        fx = self.s.facts
        if to is None:
            for v in STATES:
                g0, g1 = self.e0("isv(self.state, '%s')" % v), self.e1("isv(self.state, '%s')" % v)
                self.ok(same(g0, g1, fx), "the connection must stay in its state", props, g1)
        else:
            self.ok(fx.prove(self.e1("isv(self.state, '%s')" % to)), "the connection must become %s" % to, props, self.e1("raw(self.state)"))

    def kept(self, *fields, props="C10 C09 C07"):
        for f in fields:
            self.ok(same(self.e1("raw(self.state.%s)" % f), self.e0("raw(self.state.%s)" % f), self.s.facts), "%s must not change" % f, props, self.e1("raw(self.state.%s)" % f))

    def frame_of(self, st):
        """everything in the state is as before"""
        for f in {"Pending": ["local_nonce", "request_bytes", "resend_time_ms", "resend_count"], "Active": ["local_nonce", "timeout_time_ms", "disconnect_signal"],
                  "Closing": ["request_bytes", "resend_time_ms", "resend_count"], "Closed": ["timeout_time_ms"]}.get(st, []):
            self.kept("%s.%s" % (st, f) if st != "Closed" else "Closed.%s" % f)

    def events(self, want, props="C08"):
        s = self.s
        if s.to is None and s.p.kind == "return" and s.p.ret is not None and s.p.ret.op == "agg" and s.p.ret.a[0].startswith("$"):
            v = s.p.ret.a[3][s.p.ret.a[2].index("src")]
        else:
            v = s.e1()("raw(self.events_out)")
        ch = self.peelv(v)
        if not self.ok(ch is not None, "events must be appended to the ones waiting", props, v):
            return
        got = []
        for k, x in ch:
            if k == "call":
                got.append("recv" if x.name.endswith("::receive") else x.name)
                if x.name.endswith("::receive"):
                    self.ok(norm(x.args[0].a[1])[-1] == ("f", "half_connection") and x.args[0].a[0] == s.e0().place("self.state")[0], "the packets received must be this connection's", props)
            else:
                x = x.a[1]
                if x.op == "agg" and x.a[1] == "Error":
                    w = x.a[3][0]
                    got.append("Error(%s)" % (w.a[1] if w.op == "agg" else show(w)[:60]))
                else:
                    got.append(x.a[1] if x.op == "agg" else show(x)[:60])
        self.ok(got == want, "the events reported must be [%s], not [%s]" % (", ".join(want), ", ".join(map(str, got))), props)

    def peelv(self, v):
        s = self.s
        v0 = s.e0()("self.events_out")
        out = []
        for _ in range(40):
            if same(v, v0, s.facts):
                return out[::-1]
            if v.op == "pushb":
                out.append(("pushb", v))
                v = v.a[0]
                continue
            for e in s.evs:
                if e.kind == "call" and e.x and e.x.get("post") is not None:
                    w = s.a.at(St(e.x["post"], s.facts, None), s.facts)("self.events_out")
                    u = s.a.at(St(e.mem, s.facts, None), s.facts)("self.events_out")
                    if w is v and u is not v:
                        out.append(("call", e))
                        v = u
                        break
            else:
                return None
        return None

    def sends(self, want, props="C07 C09"):
        got = sends(self.s)
        names = [g[0].a[1] if g[0] is not None and g[0].op == "agg" else "?" for g in got]
        if not self.ok(len(got) == len(want), "%d datagram(s) must be sent, not %d (%s)" % (len(want), len(got), ", ".join(names)), props):
            return got
        for (fr, by, to, e), (v, fl) in zip(got, want):
            self.ok(to is None or same(to, self.e0("raw(self.remote_addr)"), self.s.facts), "datagrams must go to the server", props, to, e.loc)
            if v == "bytes":
                self.ok(same(by, self.e0(fl), self.s.facts), "the datagram must be %s" % fl, props, by, e.loc)
                continue
            if not self.ok(fr is not None and fr.op == "agg" and fr.a[1] == v, "the datagram must be a %s" % v, props, fr if fr is not None else by, e.loc):
                continue
            x = fr.a[3][0] if fr.a[3] else fr
            for f, g in (fl or {}).items():
                w = x.a[3][x.a[2].index(f)] if x.op == "agg" and f in x.a[2] else None
                self.ok(w is not None and self.same(w, g), "%s.%s must be %s" % (v, f, g), props, w, e.loc)
        return got

    def hc(self, want, props="C01 C02 C07"):
        got = [e for e in self.s.evs if e.kind == "call" and e.name.startswith(HCN + "::") and not e.name.endswith(("is_send_pending", "rtt_s", "send_buffer_size"))]
        names = [e.name.split("::")[-1] for e in got]
        opt = [n for n in names if not (n == "receive" and "receive" not in want)]
        self.ok(opt == want, "the half connection must be driven by [%s], not [%s]" % (", ".join(want), ", ".join(names)), props)
        for e in got:
            if not e.name.endswith("::new"):
                self.ok(e.args[0].op == "ref" and norm(e.args[0].a[1])[-1] == ("f", "half_connection") and ("v", "Active") in norm(e.args[0].a[1]), "it must be the connection's half connection", props, e.args[0], e.loc)
        return got

    def timeout(self, props="C10"):
        got = self.e1("self.state.Active.timeout_time_ms")
        w = minmax("min", I((1 << 64) - 1), add(now_term(self.s), self.e0(EP + ".active_timeout_ms")))
        self.ok(same(got, w, self.s.facts), "the timeout must be active_timeout_ms from now", props, got)

    def nothing(self, st=None):
        self.hc([])
        self.state(None)
        self.events([])
        self.sends([])
        if st:
            self.frame_of(st)


def loop_segs(c):
    a = step(c)
    rl = {id(s.L) for s in segments(a) if s.L is not None and s.to is s.L and s.io("recv", "recv_from")}
    return a, rl


def recv_cases(c, variants=None):
    a, rl = loop_segs(c)
    tid = rdtid(c)
    for s0 in segments(a):
        if s0.L is None or s0.to is not s0.L or id(s0.L) not in rl:
            continue
        rd = s0.calls(RD)
        if len(rd) != 1:
            continue
        fr = N(rd[0].ret, tid)
        e = s0.e0(fr=fr)
        for v in (variants or FRAMES):
            s = s0.under(e("is_some(fr)"), e("isv(fr.Some, '%s')" % v))
            if s is None:
                continue
            for st in STATES:
                x = s.under(s.e0()("isv(self.state, '%s')" % st))
                if x is not None:
                    yield x, v, st, dict(fr=fr)


@rule("client.receive", "C03 C07 C16", "every step drains the socket: each datagram is parsed as received, and what does not parse has no effect")
def _(c):
    a, rl = loop_segs(c)
    c.check(len(rl) >= 1, "Client::step must receive datagrams in a loop")
    for s in segments(a):
        if s.L is None or id(s.L) not in rl:
            continue
        rv, rd = s.io("recv"), s.calls(RD)
        if s.to is not s.L:
            c.check(len(rv) >= 1 and s.facts.prove(bnot(cmp_eq(mk("discr", rv[-1].ret, 2), I(0)))) and not rd,
                    "Client::step: receiving must go on until the socket is empty", s.loc, (s.p,))
            continue
        if not c.check(len(rv) == 1 and len(rd) == 1, "Client::step: each datagram must be received and parsed once", s.loc, (s.p,)):
            continue
        x = rd[0].args[0]
        v = a.ip.read(St(rd[0].mem, s.facts, None), x.a[0], x.a[1]) if x.op == "ref" else x
        n = mk("fld", mk("as", rv[0].ret, "Ok"), "0", (0, (1 << 64) - 1))
        c.check(same(v, a.ip.mkslice(rv[0].x["buf"], I(0), n, s.facts), s.facts), "Client::step: exactly the bytes received must be parsed", rd[0].loc, (s.p, v))
        e = s.e0(fr=N(rd[0].ret, rdtid(c)))
        s2 = s.under(e("is_none(fr)"))
        if s2 is not None:
            K(c, s2, "Client::step: a datagram that does not parse").nothing()


HANDLED = [("HandshakeSynAckFrame", "Pending"), ("HandshakeSynAckFrame", "Active"), ("HandshakeErrorFrame", "Pending"), ("DisconnectFrame", "Active"),
           ("DisconnectFrame", "Closing"), ("DisconnectFrame", "Closed"), ("DisconnectAckFrame", "Closing"), ("DataFrame", "Active"), ("SyncFrame", "Active"),
           ("AckFrame", "Active")]


@rule("client.ignored", "C07 C08 C03 C09 C10", "frames that do not fit the state of the connection, or carry another nonce, have no effect")
def _(c):
    for x, v, st, b in recv_cases(c):
        k = K(c, x, "Client::step: a %s while %s" % (v, st), **b)
        if (v, st) not in HANDLED:
            k.nothing(st)
        elif v in ("HandshakeSynAckFrame", "HandshakeErrorFrame"):
            y = x.under(bnot(k.e0("fr.Some.%s.nonce_ack == self.state.%s.local_nonce" % (v, st))))
            if y is not None:
                K(c, y, k.what + " with the wrong nonce", **b).nothing(st)


HCFG = {"tx_frame_window_size": "4096", "rx_frame_window_size": "4096", "tx_packet_window_size": "4096", "rx_packet_window_size": "4096",
        "tx_frame_base_id": "self.state.Pending.local_nonce", "rx_frame_base_id": "fr.Some.HandshakeSynAckFrame.nonce",
        "tx_packet_base_id": "m20(self.state.Pending.local_nonce)", "rx_packet_base_id": "m20(fr.Some.HandshakeSynAckFrame.nonce)",
        "tx_bandwidth_limit": "min(min(%s.max_send_rate, 4294967295), fr.Some.HandshakeSynAckFrame.max_receive_rate)" % EP,
        "tx_alloc_limit": "fr.Some.HandshakeSynAckFrame.max_receive_alloc", "rx_alloc_limit": EP + ".max_receive_alloc"}


@rule("client.synack", "C07 C08 C13 C06 C01 C02 C05 C10 C20 C12", "the SYN-ACK echoing the client's nonce activates the connection with the negotiated parameters, is acknowledged with the server's nonce, passes on what was sent before, and reports Connect, once; incompatible limits end it with Error(Config)")
def _(c):
    n = 0
    for x, v, st, b in recv_cases(c, ["HandshakeSynAckFrame"]):
        if st not in ("Pending", "Active"):
            continue
        k = K(c, x, "Client::step: the SYN-ACK for this connection while %s" % st, **b)
        F = "fr.Some.HandshakeSynAckFrame"
        y = x.under(k.e0("%s.nonce_ack == self.state.%s.local_nonce" % (F, st)))
        if y is None:
            continue
        if st == "Active":
            k.s = y
            k.sends([("HandshakeAckFrame", {"nonce_ack": F + ".nonce"})], "C07")
            k.timeout()
            k.hc([], "C07 C08")
            k.state(None)
            k.events([], "C07 C08")
            k.kept("Active.local_nonce", "Active.disconnect_signal")
            continue
        bad = k.e0("%s.max_receive_alloc < %s.max_packet_size" % (F, EP))
        z = y.under(bad)
        if z is not None:
            k.s = z
            k.events(["Error(Config)"], "C07 C08")
            k.state("Fin")
            k.hc([], "C07")
            k.sends([], "C07")
        z = y.under(bnot(bad))
        if z is None:
            continue
        n += 1
        k.s = z
        k.sends([("HandshakeAckFrame", {"nonce_ack": F + ".nonce"})], "C07")
        k.events(["Connect"], "C07 C08")
        k.state("Active")
        k.timeout()
        k.ok(z.facts.prove(k.e1("is_none(self.state.Active.disconnect_signal)")), "no disconnect may be requested", "C08 C09")
        k.ok(same(k.e1("self.state.Active.local_nonce"), k.e0("self.state.Pending.local_nonce"), z.facts), "the nonce must be kept", "C07")
        new = [e for e in z.evs if e.kind == "call" and e.name == HCN + "::new"]
        if not k.ok(len(new) == 1, "one half connection must be created", "C07 C01"):
            continue
        config(k, new[0], HCFG)
        # packets submitted before the connection was established
        h = k.e1("raw(self.state.Active.half_connection)")
        loops = [e.x for e in z.evs if e.kind == "loop"]
        L = next((l for l in loops if any(y2 is h for y2 in l.syms.values())), None)
        if not k.ok(L is not None and L.entry.get(h) is new[0].ret, "the new half connection must be the connection's, after the packets waiting were passed to it", "C07 C01 C02", h):
            continue
        seq = k.e0("self.state.Pending.initial_sends")
        i = covers(z.a, L, seq)
        if not k.ok(i is not None, "every packet waiting must be passed on", "C02 C05 C01"):
            continue
        for q in z.a.loop_backs(L):
            if q.facts.inconsistent():
                continue
            cs = [e for e in z.a.seg(q) if e.kind == "call"]
            if not k.ok(len(cs) == 1 and cs[0].name == HCN + "::send", "each packet waiting must be sent once", "C02 C05 C01"):
                continue
            tid = z.e0().elem_tid(z.e0().settle(z.e0().term("self.state.Pending.initial_sends")).tid)
            x1 = N(z.a.ip.step_val(seq, ("i", i, tid), q.facts), tid)
            e = z.a.at(q.header, q.facts, x=x1)
            for j, f in ((1, "data"), (2, "channel_id"), (3, "mode")):
                k.ok(same(cs[0].args[j], e("raw(x.%s)" % f), q.facts) or same(cs[0].args[j], e("x.%s" % f), q.facts), "packets waiting must be passed on with their %s" % f, "C01 C02 C05 C12", cs[0].args[j], cs[0].loc)
            k.ok(same(z.a.sval(L, h, q.st), z.a.ip.read(St(cs[0].x["post"], q.facts, None), cs[0].args[0].a[0], cs[0].args[0].a[1]), q.facts), "packets waiting must go to the new half connection", "C02 C01")
    c.check(n > 0, "Client::step never activates a connection")


@rule("client.refused", "C07 C08", "a handshake error echoing the client's nonce ends the attempt with the matching error")
def _(c):
    n = set()
    for x, v, st, b in recv_cases(c, ["HandshakeErrorFrame"]):
        if st != "Pending":
            continue
        k = K(c, x, "Client::step: a handshake error", **b)
        F = "fr.Some.HandshakeErrorFrame"
        for er in ("Version", "Config", "ServerFull"):
            y = x.under(k.e0("%s.nonce_ack == self.state.Pending.local_nonce" % F), k.e0("isv(%s.error, '%s')" % (F, er)))
            if y is None:
                continue
            n.add(er)
            k.s = y
            k.what = "Client::step: the handshake error %s" % er
            k.events(["Error(%s)" % er], "C07 C08")
            k.state("Fin")
            k.sends([], "C07")
            k.hc([], "C07")
    c.check(len(n) == 3, "Client::step must report all kinds of handshake error")


@rule("client.data", "C10 C01 C02 C03 C08", "data, sync and ack frames for the active connection reach its half connection, once, and refresh its timeout; nothing else happens")
def _(c):
    n = 0
    for x, v, st, b in recv_cases(c, ["DataFrame", "SyncFrame", "AckFrame"]):
        if st != "Active":
            continue
        n += 1
        k = K(c, x, "Client::step: a %s while Active" % v, **b)
        m = {"DataFrame": "handle_data_frame", "SyncFrame": "handle_sync_frame", "AckFrame": "handle_ack_frame"}[v]
        for e in k.hc([m], "C01 C02 C10"):
            if e.name.endswith(m):
                k.ok(k.same(e.args[1], "raw(fr.Some.%s)" % v) or k.same(e.args[1], "fr.Some.%s" % v), "the frame must be handed on as received", "C01 C02", e.args[1], e.loc)
        k.timeout()
        k.kept("Active.local_nonce", "Active.disconnect_signal")
        k.state(None)
        k.events([], "C08")
        k.sends([])
    c.check(n > 0, "Client::step handles no data frames")


@rule("client.disconnect", "C08 C09 C10", "the server's disconnect request is acknowledged and ends the connection with Disconnect after what was received is delivered; afterwards it is only acknowledged")
def _(c):
    n = {}
    for x, v, st, b in recv_cases(c, ["DisconnectFrame", "DisconnectAckFrame"]):
        k = K(c, x, "Client::step: a %s while %s" % (v, st), **b)
        if v == "DisconnectFrame" and st in ("Active", "Closing"):
            n[st] = 1
            k.sends([("DisconnectAckFrame", None)], "C09")
            k.hc(["receive"] if st == "Active" else [], "C09 C08")
            k.events((["recv"] if st == "Active" else []) + ["Disconnect"], "C08 C09")
            k.state("Closed")
            k.ok(is_now(k.s, k.e1("self.state.Closed.timeout_time_ms"), LINGER), "the closed connection must be kept for %d ms" % LINGER, "C09", k.e1("self.state.Closed.timeout_time_ms"))
        elif v == "DisconnectFrame" and st == "Closed":
            n[st] = 1
            k.sends([("DisconnectAckFrame", None)], "C09")
            k.hc([], "C08")
            k.events([], "C08")
            k.state(None)
            k.frame_of(st)
        elif v == "DisconnectAckFrame" and st == "Closing":
            n["ack"] = 1
            k.sends([], "C09")
            k.hc([], "C08")
            k.events(["Disconnect"], "C08 C09")
            k.state("Fin")
    c.check(len(n) == 4, "Client::step must handle disconnect requests and acknowledgements while active, closing and closed (%s)" % ", ".join(sorted(n)))


# ------------------------------------------------------------------------------------------------ time
@rule("client.timers", "C10 C09 C08 C02", "after the socket was drained: due handshake and disconnect requests are resent 10 times, 2 s apart, then end with Error(Timeout); silence ends an active connection; otherwise it is disconnected if due, or stepped, and what it received is reported")
def _(c):
    a, rl = loop_segs(c)
    n = {}
    fin = [s for s in segments(a) if s.L is not None and id(s.L) in rl and s.to is None]
    if not c.check(len(fin) > 0, "Client::step must act on time after receiving"):
        return
    for s in fin:
        now = now_term(s)
        for st in STATES:
            x = s.under(s.e0()("isv(self.state, '%s')" % st))
            if x is None:
                continue
            what = "Client::step: while %s" % st
            if st == "Fin":
                K(c, x, what).nothing(st)
                continue
            due = cmp_le(x.e0()("self.state.%s" % {"Pending": "Pending.resend_time_ms", "Active": "Active.timeout_time_ms", "Closing": "Closing.resend_time_ms",
                                                   "Closed": "Closed.timeout_time_ms"}[st] if st != "Closed" else "self.state.Closed.timeout_time_ms"), now)
            y = x.under(bnot(due))
            if y is not None:
                if st == "Active":
                    live(c, y, n)
                else:
                    K(c, y, what + ", nothing due").nothing(st)
            y = x.under(due)
            if y is None:
                continue
            n[st] = 1
            if st == "Closed":
                k = K(c, y, what + ", after lingering")
                k.state("Fin")
                k.events([], "C08")
                k.sends([])
                k.hc([], "C08")
            elif st == "Active":
                k = K(c, y, what + ", when the timeout elapsed")
                k.state("Fin", "C10 C08")
                ch = k.peelv(y.p.ret.a[3][y.p.ret.a[2].index("src")]) if y.p.ret is not None and y.p.ret.op == "agg" and "src" in y.p.ret.a[2] else None
                k.events((["recv"] if ch and ch[0][0] == "call" else []) + ["Error(Timeout)"], "C10 C08")
                k.sends([])
            else:
                z = y.under(y.e0()("self.state.%s.resend_count > 0" % st))
                if z is not None:
                    n[st + " again"] = 1
                    k = K(c, z, what + ", resending")
                    k.state(None)
                    k.events([], "C10 C08")
                    k.hc([], "C08")
                    k.sends([("bytes", "raw(self.state.%s.request_bytes)" % st)], "C07 C10" if st == "Pending" else "C09 C10")
                    k.ok(is_now(z, z.e1()("self.state.%s.resend_time_ms" % st), RETRY), "the next resend must be %d ms from now" % RETRY, "C10 C09", z.e1()("self.state.%s.resend_time_ms" % st))
                    k.ok(same(z.e1()("self.state.%s.resend_count" % st), z.e0()("self.state.%s.resend_count - 1" % st), z.facts), "one resend must be used up", "C10 C09")
                    k.kept("%s.request_bytes" % st)
                    if st == "Pending":
                        k.kept("Pending.local_nonce", "Pending.initial_sends", props="C07 C02")
                z = y.under(y.e0()("self.state.%s.resend_count == 0" % st))
                if z is not None:
                    n[st + " over"] = 1
                    k = K(c, z, what + ", after the last resend")
                    k.state("Fin", "C10 C08" + (" C09" if st == "Closing" else ""))
                    k.events(["Error(Timeout)"], "C10 C08" + (" C09" if st == "Closing" else ""))
                    k.hc([], "C08")
                    k.sends([])
    for w in ("Pending again", "Pending over", "Closing again", "Closing over", "Active", "Closed", "close", "step"):
        c.check(w in n, "Client::step: no path for %s" % w)


def live(c, s, n):
    e = s.e0()
    k = K(c, s, "Client::step: while Active")
    pend = s.calls(HCN + "::is_send_pending")
    some_ = e("is_some(self.state.Active.disconnect_signal)")
    isnow = band(some_, e("isv(self.state.Active.disconnect_signal.Some, 'Now')"))
    isfl = band(some_, e("isv(self.state.Active.disconnect_signal.Some, 'Flush')"))
    idle = [bnot(q.ret) for q in pend]
    if s.facts.prove(bnot(s.e1()("isv(self.state, 'Active')"))):
        n["close"] = 1
        k.what = "Client::step: disconnecting"
        k.ok(s.facts.prove(bor(isnow, *[band(isfl, q) for q in idle])), "only when requested, and unless immediate only with nothing left to send", "C09 C08")
        k.hc(["receive"], "C09 C08 C02")
        k.events(["recv"], "C08 C09 C02")
        k.state("Closing")
        got = k.sends([("DisconnectFrame", None)], "C09")
        if len(got) == 1:
            k.ok(same(k.e1("raw(self.state.Closing.request_bytes)"), got[0][1], s.facts), "the request kept for resending must be the one sent", "C09", k.e1("raw(self.state.Closing.request_bytes)"))
        k.ok(is_now(s, k.e1("self.state.Closing.resend_time_ms"), RETRY), "the first resend must be %d ms from now" % RETRY, "C09 C10", k.e1("self.state.Closing.resend_time_ms"))
        k.ok(same(k.e1("self.state.Closing.resend_count"), I(COUNT), s.facts), "%d resends must be left" % COUNT, "C09 C10", k.e1("self.state.Closing.resend_count"))
    else:
        n["step"] = 1
        k.ok(s.facts.prove(bnot(isnow)) and (s.facts.prove(bnot(isfl)) or any(s.facts.prove(bnot(q)) for q in idle)), "a due disconnect must not be put off", "C09")
        k.hc(["step", "receive"], "C02 C09 C10 C08")
        k.events(["recv"], "C08 C02")
        k.state(None)
        k.sends([])
        k.kept("Active.local_nonce", "Active.timeout_time_ms", "Active.disconnect_signal")


@rule("client.result", "C08 C02", "step returns every event waiting, and nothing waits afterwards")
def _(c):
    a = step(c)
    for s in segments(a):
        if s.to is None:
            v = s.p.ret
            ok = v is not None and v.op == "agg" and "src" in v.a[2] and all(x is I(0) for f, x in zip(v.a[2], v.a[3]) if f == "idx")
            c.check(ok and all(same(x, a.ip.length(v.a[3][v.a[2].index("src")]), s.facts) for f, x in zip(v.a[2], v.a[3]) if f == "end"),
                    "Client::step must return all events, in order", a.where(s.p), (s.p,))
            c.check(s.facts.prove(s.e1()("len(self.events_out) == 0")), "Client::step: no event may be reported twice", a.where(s.p), (s.p,))


@rule("client.flush", "C02 C09 C13 C08", "flush, and the start of step, flush the active connection to the server and do nothing else")
def _(c):
    n = 0
    for a, who in ((c.fn(C + "::flush", ["self"], NB), "Client::flush"), (step(c), "Client::step, before receiving")):
        for s in segments(a):
            if s.L is not None or (who != "Client::flush" and s.to is None):
                continue
            for st in STATES:
                x = s.under(s.e0()("isv(self.state, '%s')" % st))
                if x is None:
                    continue
                k = K(c, x, "%s while %s" % (who, st))
                got = [e for e in x.evs if e.kind == "call" and e.name.startswith(HCN + "::")]
                names = [e.name.split("::")[-1] for e in got]
                if who == "Client::flush":
                    n += st == "Active"
                    k.ok(names == (["flush"] if st == "Active" else []), "the connection must be flushed iff it is active", "C02 C09 C13")
                else:
                    k.ok(names in (["flush"], []) if st == "Active" else names == [], "only an active connection may be flushed", "C02 C09 C13 C08")
                for e in got:
                    if e.name.endswith("::flush"):
                        sink = e.args[1]
                        v = a.ip.read(St(e.mem, x.facts, None), sink.a[0], sink.a[1]) if sink.op == "ref" else sink
                        ok = v.op == "agg" and "address" in v.a[2] and same(v.a[3][v.a[2].index("address")], k.e0("raw(self.remote_addr)"), x.facts)
                        k.ok(ok, "frames must go to the server", "C02 C13 C01", v, e.loc)
                k.state(None)
                k.sends([])
                k.frame_of(st)
                k.events([])
    c.check(n > 0, "Client::flush must flush the active connection")


# ------------------------------------------------------------------------------------------------ interface
@rule("client.connect", "C07 C08 C10 C13 C20", "connecting sends one request with the protocol version, a fresh nonce and the configured limits, keeps it for 10 resends 2 s apart, and starts pending without events")
def _(c):
    a = c.fn(C + "::connect", ["dst_addr", "config"], NB)
    n = 0
    for p in a.returns:
        r = a.at(p.st, p.facts, ret=a.retn(p))
        if not p.facts.prove(r("is_ok(ret)")):
            continue
        n += 1
        s = Seg(a, a.st0, p.st, list(p.events()), None, None, p)
        k = K(c, s, "Client::connect", ret=a.retn(p))
        got = sends(s)
        rnd = s.io("random")
        if k.ok(len(got) == 1 and got[0][0] is not None and got[0][0].op == "agg" and got[0][0].a[1] == "HandshakeSynFrame", "one connection request must be sent", "C07"):
            x = got[0][0].a[3][0]
            f = dict(zip(x.a[2], x.a[3]))
            k.ok(f.get("version") is I(3), "the request must carry the protocol version", "C07", f.get("version"))
            k.ok(any(e.ret is f.get("nonce") for e in rnd), "the nonce must be freshly drawn", "C07", f.get("nonce"))
            for m in ("max_receive_rate", "max_packet_size", "max_receive_alloc"):
                k.ok(k.same(f.get(m), "min(config.endpoint_config.%s, 4294967295)" % m), "the request must carry %s" % m,
                     {"max_receive_rate": "C13 C07", "max_receive_alloc": "C06 C20 C07"}.get(m, "C07"), f.get(m))
            k.ok(same(k.e1("ret.Ok.state.Pending.local_nonce"), f.get("nonce"), p.facts), "the nonce must be kept", "C07")
            k.ok(same(k.e1("raw(ret.Ok.state.Pending.request_bytes)"), got[0][1], p.facts), "the request kept for resending must be the one sent", "C07 C10")
        for h, pr in (("isv(ret.Ok.state, 'Pending')", "C07 C08"), ("ret.Ok.state.Pending.resend_time_ms == %d" % RETRY, "C10"), ("ret.Ok.state.Pending.resend_count == %d" % COUNT, "C10"),
                      ("len(ret.Ok.state.Pending.initial_sends) == 0", "C07 C08"), ("len(ret.Ok.events_out) == 0", "C08")):
            k.ok(p.facts.prove(k.e1(h)), h, pr, k.e1(h))
        k.ok(same(k.e1("raw(ret.Ok.config)"), k.e0("raw(config)"), p.facts), "the configuration must be kept", "C07 C10 C13")
        now = nows(p)
        k.ok(len(now) >= 1 and same(k.e1("raw(ret.Ok.time_base)"), now[-1].ret, p.facts), "the clock must start now", "C10")
        con, peer = s.io("connect"), s.io("peer_addr")
        k.ok(len(con) == 1, "the socket must be connected to the server", "C07 C01")
        if len(peer) == 1:
            k.ok(same(k.e1("raw(ret.Ok.remote_addr)"), mk("fld", mk("as", peer[0].ret, "Ok"), "0", None), p.facts) or
                 same(k.e1("raw(ret.Ok.remote_addr)"), con[0].args[-1], p.facts), "the server's address must be kept", "C02", k.e1("raw(ret.Ok.remote_addr)"))
        nb = s.io("set_nonblocking")
        k.ok(len(nb) >= 1 and nb[-1].args[1] is TRUE, "the socket must not block", "C03 C07 C10")
    c.check(n > 0, "Client::connect never succeeds")


def one_more(d, seq, i):
    return d.op == "len" and d.a[0].op == "fld" and d.a[0].a[1] == "data" and d.a[0].a[0].op == "elem" and d.a[0].a[0].a[0] is seq and d.a[0].a[0].a[1] is i


def adds_up(a, p, facts, v, seq):
    """v is the sum of the data lengths over all of seq: zero for none, else accumulated by a loop that visits every entry once, in order"""
    if facts.prove(cmp_eq(v, I(0))) and facts.prove(cmp_eq(mk("len", seq), I(0))):
        return True
    for L in a.loops():
        if v not in L.syms.values() or L.entry.get(v) is not I(0):
            continue
        for i, _ in a.counters(L, I(0), 1):
            if facts.prove(cmp_le(mk("len", seq), i)) and a.loop_backs(L) and \
               all(one_more(sub(a.sval(L, v, q.st), v), seq, i) for q in a.loop_backs(L)):
                return True
    return False


@rule("client.api", "C08 C09 C02 C03 C20 C01 C07", "calls act on the connection only in the states they apply to; disconnecting while pending gives up silently; none of them reports anything")
def _(c):
    for m, names in (("send", ["self", "data", "channel_id", "mode"]), ("disconnect", ["self"]), ("disconnect_now", ["self"]), ("rtt_s", ["self"]),
                     ("send_buffer_size", ["self"]), ("is_active", ["self"])):
        a = c.fn(C + "::" + m, names, NB)
        for s in segments(a):
            for st in STATES:
                x = s.under(s.e0()("isv(self.state, '%s')" % st))
                if x is None:
                    continue
                k = K(c, x, "Client::%s while %s" % (m, st))
                hc = [q for q in x.evs if q.kind == "call"]
                k.events([])
                k.sends([])
                if st == "Pending" and m in ("disconnect", "disconnect_now"):
                    k.state("Fin", "C08 C07 C09")
                    k.ok(not hc, "nothing may be done", "C08")
                    continue
                k.state(None)
                if m in ("disconnect", "disconnect_now") and st == "Active":
                    w = {"disconnect": "Flush", "disconnect_now": "Now"}[m]
                    k.ok(x.facts.prove(x.e1()("is_some(self.state.Active.disconnect_signal)")) and
                         x.facts.prove(x.e1()("isv(self.state.Active.disconnect_signal.Some, '%s')" % w)), "the disconnect must be requested (%s)" % w, "C09")
                    k.kept("Active.local_nonce", "Active.timeout_time_ms")
                else:
                    k.frame_of(st)
                want = {"send": ["send"], "rtt_s": ["rtt_s"], "send_buffer_size": ["send_buffer_size"]}.get(m, []) if st == "Active" else []
                k.ok([q.name.split("::")[-1] for q in hc] == want, "the half connection must be used for [%s]" % ", ".join(want), "C02 C20 C08")
                for q in hc:
                    k.ok(q.args[0].op == "ref" and norm(q.args[0].a[1])[-1] == ("f", "half_connection"), "it must be the connection's half connection", "C08", q.args[0], q.loc)
                if m == "send":
                    k.ok(x.facts.prove(k.e0("channel_id < 64 and len(data) <= %s.max_packet_size" % EP)), "only valid packets may be sent", "C03 C01")
                    if st == "Active" and hc:
                        q = hc[0]
                        for i, w in ((1, "data"), (2, "channel_id"), (3, "mode")):
                            k.ok(same(q.args[i], k.e0("raw(%s)" % w), x.facts) or same(q.args[i], k.e0(w), x.facts), "send must pass on %s" % w, "C01 C02", q.args[i], q.loc)
                    if st == "Pending":
                        v, v0 = k.e1("self.state.Pending.initial_sends"), k.e0("self.state.Pending.initial_sends")
                        ok = v.op == "pushb" and same(v.a[0], v0, x.facts) and v.a[1].op == "agg"
                        if k.ok(ok, "the packet must be kept until the connection is established", "C02 C05 C01", v):
                            f = dict(zip(v.a[1].a[2], v.a[1].a[3]))
                            for w in ("data", "channel_id", "mode"):
                                k.ok(w in f and (same(f[w], k.e0("raw(%s)" % w), x.facts) or same(f[w], k.e0(w), x.facts)), "the packet must be kept with its %s" % w, "C01 C02 C05", f.get(w))
                elif st == "Pending":
                    k.ok(same(k.e1("self.state.Pending.initial_sends"), k.e0("self.state.Pending.initial_sends"), x.facts), "packets waiting must stay", "C02")
                if m in ("rtt_s", "send_buffer_size") and st == "Active" and hc:
                    k.ok(same(x.p.ret, hc[0].ret, x.facts), "the result must be the half connection's", "C20", x.p.ret)
                if m == "send_buffer_size" and st == "Pending" and x.p.kind == "return":
                    k.ok(adds_up(a, x.p, x.facts, x.p.ret, k.e0("self.state.Pending.initial_sends")), "the result must be the total size of the packets waiting for the connection", "C20", x.p.ret)
                if m in ("rtt_s", "send_buffer_size") and (st not in ("Active", "Pending") or m == "rtt_s" and st == "Pending") and x.p.kind == "return":
                    k.ok(same(x.p.ret, I(0), x.facts) if m != "rtt_s" else x.p.ret.op == "agg" and x.p.ret.a[1] == "None", "there is nothing to report", "C20", x.p.ret)
                if m == "is_active":
                    k.ok(same(x.p.ret, B(st == "Active"), x.facts), "is_active must be %s" % (st == "Active"), "C08", x.p.ret)


@rule("client.sinks", "C01 C02 C08", "received packets become Receive events as they are")
def _(c):
    a = c.fn("<client::PacketReceiveSink as half_connection::PacketSink>::send", ["self", "packet_data"], NB)
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        v = f("deref(self.event_queue)")
        ok = v.op == "pushb" and same(v.a[0], e("deref(self.event_queue)"), p.facts) and v.a[1].op == "agg" and v.a[1].a[1] == "Receive" and \
            same(v.a[1].a[3][0], e("raw(packet_data)"), p.facts)
        c.check(ok, "PacketReceiveSink::send must append Receive(packet)", a.where(p), (p, v))


@rule("client.step.flush", "C02 C11", "every step flushes the active connection (an application need not call flush)")
def _(c):
    a = step(c)
    n = 0
    for p in a.returns:
        if p.facts.inconsistent():
            continue
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        fx = p.facts.plus(e("isv(self.state, 'Active')"), f("isv(self.state, 'Active')"))
        if fx.inconsistent():
            continue
        n += 1
        c.check(any(x.kind == "call" and x.name == HCN + "::flush" for x in p.events()), "Client::step must flush the active connection", a.where(p), (p,))
    c.check(n > 0, "Client::step never ends with an active connection")
