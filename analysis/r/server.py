"""Server: which frame, timer or call moves a connection from one state to the next, and what is sent and reported when it does
(the half connection and the frame codec are the boundary of this layer)."""
from ..net import *
from ..spec import Missing

S = "server::Server"
RC = "server::remote_client::RemoteClient"
STATES = ["Pending", "Active", "Closing", "Closed", "Fin"]
RETRY, COUNT, LINGER = 2000, 10, 20000
EP = "self.config.endpoint_config"

STATE = "C07 C08 C17".split()


def step(c):
    return c.fn(S + "::step", ["self"], NB)


class K:
    """one case of one segment: the client concerned is bound as cl, its address term as addr"""

    def __init__(self, c, s, what, **bind):
        self.c, self.s, self.what, self.bind = c, s, what, bind

    def e0(self, x):
        return self.s.e0(**self.bind)(x)

    def e1(self, x):
        return self.s.e1(**self.bind)(x)

    def ok(self, cond, msg, props, x=None, loc=None):
        return self.c.check(cond, "%s: %s" % (self.what, msg), loc or self.s.loc, (self.s.p,) + ((x,) if x is not None else ()), props=props.split())

    def prove(self, g):
        return self.s.facts.prove(self.e0(g) if isinstance(g, str) else g)

    def same(self, x, g):
        return same(x, self.e0(g) if isinstance(g, str) else g, self.s.facts)

    # ------------------------------------------------------------ facets
    def state(self, to, props="C07 C08 C09 C10 C17"):
        """the client's state afterwards; None: as before (apart from the content of Active)"""
        if "cl" not in self.bind:
            return
        if to is None:
            for v in STATES:
                g0, g1 = self.e0("isv(cl.state, '%s')" % v), self.e1("isv(cl.state, '%s')" % v)
                self.ok(same(g0, g1, self.s.facts), "the client must stay in its state", props, g1)
            y = self.s.under(self.e0("isv(cl.state, 'Pending')"))
            if y is not None:
                for f in ("local_nonce", "remote_nonce", "remote_max_receive_rate", "remote_max_receive_alloc", "reply_bytes"):
                    x0, x1 = (e(**self.bind)("raw(cl.state.Pending.%s)" % f) for e in (y.e0, y.e1))
                    self.ok(same(x0, x1, y.facts), "the %s of a pending connection must not change" % f, "C07 C01", x1)
        else:
            self.ok(self.s.facts.prove(self.e1("isv(cl.state, '%s')" % to)), "the client must become %s" % to, props + (" C19" if to == "Fin" else ""), self.e1("raw(cl.state)"))
        # nobody else is touched
        me = self.e0("raw(cl)") if not isinstance(self.bind["cl"], N) else self.bind["cl"].v
        self.others(me, props)

    def others(self, me, props):
        for e in self.s.evs:
            if e.kind != "write":
                continue
            root, path = e.args
            if root[0] == "O" and path and path[0][0] == "f" and path[0][1] in ("state", "address") and self.is_rc(path[0][3]):
                self.ok(me is not None and same(root[1], me, self.s.facts) and path[0][1] == "state", "no other client may change", props, root[1], e.loc)

    def is_rc(self, tid):
        return tid is not None and self.s.a.c.p.types[tid].get("name", "").endswith("remote_client::RemoteClient")

    def table(self, want, props="C07 C08 C17"):
        """changes of the table of connections: list of ('add', addr) / ('del', addr)"""
        ch = peel(self.s, "self.clients", ("mput", "mdel"))
        if not self.ok(ch is not None and all(k != "call" for k, _ in ch), "the table of connections must change by insertion and removal of single entries only", props):
            return None
        if want == "del":
            props += " C19"
            # removed, or not in the table (any more)
            if not ch:
                return self.ok(self.prove("not has(self.clients, addr)"), "the connection must leave the table", props)
            return self.ok(len(ch) == 1 and ch[0][0] == "mdel" and self.same(ch[0][1].a[1], "addr"), "exactly this connection must leave the table", props)
        if want == "add":
            if self.ok(len(ch) == 1 and ch[0][0] == "mput" and self.same(ch[0][1].a[1], "addr"), "the connection must enter the table under its address", props):
                return ch[0][1].a[2]
            return None
        return self.ok(not ch, "the table of connections must not change", props)

    def active(self, add, props="C08 C09 C10"):
        ch = peel(self.s, "self.active_clients", ("pushb",))
        if add:
            self.ok(ch is not None and len(ch) == 1 and ch[0][0] == "pushb" and self.same(ch[0][1].a[1], "raw(cl)"),
                    "the client must join the active ones, once", props)
        else:
            self.ok(ch == [], "the active clients must not change", props)

    def events(self, want, props="C08", opt_recv=False):
        """events reported: list of (variant, error) - 'recv' for a delivery of received packets"""
        ch = peel(self.s, "self.events_out", ("pushb",))
        if not self.ok(ch is not None, "events must be appended to the ones waiting", props):
            return
        got = []
        for k, v in ch:
            if k == "call":
                e = v
                if e.name.endswith("::receive"):
                    self.receive(e, props)
                    got.append("recv")
                else:
                    got.append(e.name)
            else:
                v = v.a[1]
                if v.op != "agg":
                    got.append(show(v)[:40])
                    continue
                self.ok(same(v.a[3][0], self.e0("addr"), self.s.facts), "the event must name the client's address", props, v)
                if v.a[1] == "Error":
                    w = v.a[3][1]
                    got.append("Error(%s)" % (w.a[1] if w.op == "agg" else self.variant(w)))
                else:
                    got.append(v.a[1])
        if opt_recv and got[:1] == ["recv"] and want[:1] != ["recv"]:
            got = got[1:]
        self.ok(got == want, "the events reported must be [%s], not [%s]" % (", ".join(want), ", ".join(map(str, got))), props)

    def variant(self, w):
        return show(w)[:40]

    def receive(self, e, props):
        self.ok(self.ref_is(e.args[0], "cl.state.Active.half_connection", e), "the packets received must be the client's", props)
        sink = e.args[1]
        v = self.s.a.ip.read(St(e.mem, self.s.facts, None), sink.a[0], sink.a[1]) if sink.op == "ref" else sink
        ok = v.op == "agg" and "address" in v.a[2] and same(v.a[3][v.a[2].index("address")], self.e0("addr"), self.s.facts)
        self.ok(ok, "received packets must be reported under the client's address", props + " C01", v)

    def ref_is(self, r, place, e=None):
        """is the reference the one to this place of the entry state?"""
        if r.op != "ref":
            return False
        try:
            pl = self.s.e0(**self.bind).place(place)
        except Missing:
            return False
        root, path = r.a[0], r.a[1]
        if root == pl[0] and norm(path) == norm(pl[1]):
            return True
        return root[0] == "O" and pl[0][0] == "O" and norm(path) == norm(pl[1]) and same(root[1], pl[0][1], self.s.facts)

    def timers(self, want, popped=False, props="C10 C09 C18"):
        """timers set: list of (kind, delay or None, count)"""
        try:
            ch = peel(self.s, "self.client_events", ("hpush", "hpop"))
        except Gone as e:
            return self.c.moot("anchor not found: %s" % e)
        if not self.ok(ch is not None, "timers must be added to the ones waiting", props):
            return
        pops = [v for k, v in ch if k == "hpop"]
        self.ok(len(pops) == (1 if popped else 0), "%s timer may be consumed" % ("exactly one" if popped else "no"), props + (" C19" if popped else ""))
        got = [v.a[1] for k, v in ch if k == "hpush"]
        if not self.ok(len(got) == len(want), "%d timer(s) must be set, not %d" % (len(want), len(got)), props + ("" if want else " C19")):
            return
        for v, (kind, delay, cnt) in zip(got, want):
            e = self.s.e1(**self.bind)
            t = N(v, e.elem_tid(e.settle(e.term("self.client_events")).tid))
            e = self.s.e1(t=t, **self.bind)
            fx = self.s.facts
            self.ok(same(e("raw(t.client)"), self.e0("raw(cl)") if "cl" in self.bind else self.bind.get("new", N(I(0))).v, fx), "the timer must be the client's", props, e("raw(t.client)"))
            self.ok(fx.prove(e("isv(t.kind, '%s')" % kind)), "the timer must be of kind %s" % kind, props, e("raw(t.kind)"))
            self.ok(is_now(self.s, e("t.time"), delay), "the timer must fire %d ms from now" % delay, props, e("t.time"))
            if cnt is not None:
                self.ok(same(e("t.count"), self.e0(cnt) if isinstance(cnt, str) else I(cnt), fx), "the timer must carry %s" % cnt, props, e("t.count"))

    def sends(self, want, props="C18 C07"):
        """datagrams sent: list of (frame variant, {field: expression}) or ('bytes', expression)"""
        got = sends(self.s)
        names = [g[0].a[1] if g[0] is not None and g[0].op == "agg" else "?" for g in got]
        if not self.ok(len(got) == len(want), "%d datagram(s) must be sent, not %d (%s)" % (len(want), len(got), ", ".join(names)), props):
            return got
        for (fr, by, to, e), (v, fl) in zip(got, want):
            self.ok(to is not None and same(to, self.e0("addr"), self.s.facts), "datagrams must go to the client's address", props + " C07", to, e.loc)
            if v == "bytes":
                self.ok(same(by, self.e0(fl), self.s.facts), "the datagram must be %s" % fl, props, by, e.loc)
                continue
            if not self.ok(fr is not None and fr.op == "agg" and fr.a[1] == v, "the datagram must be a %s" % v, props, fr if fr is not None else by, e.loc):
                continue
            x = fr.a[3][0] if fr.a[3] else fr
            for f, g in (fl or {}).items():
                w = x.a[3][x.a[2].index(f)] if x.op == "agg" and f in x.a[2] else None
                self.ok(w is not None and self.same(w, g), "%s.%s must be %s" % (v, f, g), props + " C13 C20" if f.startswith("max_") else props, w, e.loc)
        return got

    def hc(self, want, props="C01 C02 C07"):
        """half connection calls: list of method names, each on this client's"""
        got = [e for e in self.s.evs if e.kind == "call" and e.name.startswith(HCN + "::") and not e.name.endswith(("is_send_pending", "rtt_s", "send_buffer_size"))]
        names = [e.name.split("::")[-1] for e in got]
        w2 = [w for w in want]
        opt = [n for n in names if not (n == "receive" and "receive" not in w2)]
        self.ok(opt == w2, "the half connection must be driven by [%s], not [%s]" % (", ".join(w2), ", ".join(names)), props)
        for e in got:
            if not e.name.endswith("::new"):
                self.ok(self.ref_is(e.args[0], "cl.state.Active.half_connection"), "it must be the client's half connection", props, e.args[0], e.loc)
        return got

    def timeout(self, refreshed, props="C10"):
        if refreshed:
            got = self.e1("cl.state.Active.timeout_time_ms")
            w = minmax("min", I((1 << 64) - 1), add(now_term(self.s), self.e0(EP + ".active_timeout_ms")))
            self.ok(same(got, w, self.s.facts), "the timeout must be active_timeout_ms from now", props, got)
        elif self.s.facts.prove(self.e0("isv(cl.state, 'Active')")) and self.s.facts.prove(self.e1("isv(cl.state, 'Active')")):
            self.ok(same(self.e1("cl.state.Active.timeout_time_ms"), self.e0("cl.state.Active.timeout_time_ms"), self.s.facts), "the timeout must not move", props)

    def signal(self, props="C09"):
        if self.s.facts.prove(self.e0("isv(cl.state, 'Active')")) and self.s.facts.prove(self.e1("isv(cl.state, 'Active')")):
            self.ok(same(self.e1("raw(cl.state.Active.disconnect_signal)"), self.e0("raw(cl.state.Active.disconnect_signal)"), self.s.facts), "a disconnect request must stay", props)

    def nothing(self, popped=False, keep=()):
        if "hc" not in keep:
            self.hc([])
        self.state(None)
        self.table(None)
        self.active(False)
        if "events" not in keep:
            self.events([])
        self.timers([], popped)
        self.sends([])
        if "cl" in self.bind:
            self.timeout(False)
            self.signal()


def norm(path):
    return tuple((x[0], x[1]) for x in path if x[0] in ("f", "v", "i"))


def rdtid(c):
    f = c.p.fn(RD)
    if f is None:
        raise Missing("Frame::read")
    return f.locals[0]


class Parts:
    """the loops of Server::step and what they do"""

    def __init__(self, c):
        self.c = c
        a = self.a = step(c)
        self.segs = segments(a)
        self.recv = {id(s.L) for s in self.segs if s.L is not None and s.to is s.L and s.io("recv_from", "recv")}
        self.recv |= {id(s.L) for s in self.segs if s.L is not None and s.io("recv_from", "recv")}
        self.timer = set()
        try:
            own(a.env0, "self.client_events")
            self.odd = None
        except Gone as e:
            self.odd = e
        self.mode = {}
        self.idx = {}
        for s in self.segs:
            if s.L is None or id(s.L) in self.recv:
                continue
            ch = None if self.odd else peel(s, "self.client_events", ("hpush", "hpop"))
            if s.to is s.L and ch and any(k == "hpop" for k, _ in ch):
                self.timer.add(id(s.L))
                continue
            m = self.mode.setdefault(id(s.L), set())
            if s.to is s.L:
                for e in s.evs:
                    if e.kind == "call" and e.name == HCN + "::flush":
                        m.add("flush")
                    if e.kind == "call" and e.name == HCN + "::step":
                        m.add("step")
                ev = peel(s, "self.events_out", ("pushb",))
                if ev and any(k == "pushb" and v.a[1].op == "agg" and v.a[1].a[1] == "Error" for k, v in ev):
                    m.add("timeout")
        for t in self.timer:
            self.mode.pop(t, None)
        self.loops = {}
        for s in self.segs:
            for L in (s.L, s.to):
                if L is not None:
                    self.loops[id(L)] = L

    def back(self, ids):
        return [s for s in self.segs if s.L is not None and s.to is s.L and id(s.L) in ids]

    def leave(self, ids):
        return [s for s in self.segs if s.L is not None and s.to is not s.L and id(s.L) in ids]


def parts(c):
    a = step(c)
    if not hasattr(a, "_parts"):
        a._parts = Parts(c)
    return a._parts


def recv_cases(c, variants=None, quietly=False):
    """(segment, case) pairs of the receive loop: frame variant x state of the client looked up"""
    p = parts(c)
    tid = rdtid(c)
    for s0 in p.back(p.recv):
        rv, rd = s0.io("recv_from"), s0.calls(RD)
        if len(rv) != 1 or len(rd) > 1:
            c.check(False, "Server::step: each datagram must be received and parsed once", s0.loc, (s0.p,))
            continue
        addr = c_addr(p.a, rv[0])
        if not rd:
            continue
        fr = N(rd[0].ret, tid)
        e = s0.e0(fr=fr, addr=addr)
        for v in (variants or FRAMES):
            s = s0.under(e("is_some(fr)"), e("isv(fr.Some, '%s')" % v))
            if s is None:
                continue
            yield s, v, fr, addr, rv[0], rd[0]


def c_addr(a, ev):
    return mk("fld", mk("fld", mk("as", ev.ret, "Ok"), "0", None), "1", None)


def c_size(ev):
    return mk("fld", mk("fld", mk("as", ev.ret, "Ok"), "0", None), "0", (0, (1 << 64) - 1))


def by_state(s, fr, addr):
    """split a receive case by the state of the client at that address: (segment, state or None, bindings)"""
    e = s.e0(fr=fr, addr=addr)
    has = e("has(self.clients, addr)")
    x = s.under(bnot(has))
    if x is not None:
        yield x, None, dict(fr=fr, addr=addr)
    x = s.under(has)
    if x is not None:
        e = x.e0(fr=fr, addr=addr)
        cl = e.term("get(self.clients, addr)")
        for st in STATES:
            y = x.under(e.bind(cl=cl)("isv(cl.state, '%s')" % st))
            if y is not None:
                yield y, st, dict(fr=fr, addr=addr, cl=cl)


def has_state(k, *sts):
    return [k.prove("isv(cl.state, '%s')" % x) for x in sts]


# ------------------------------------------------------------------------------------------------ receiving datagrams
@rule("server.receive", "C03 C07 C16 C18", "every step drains the socket: each datagram is parsed as received, and what does not parse has no effect")
def _(c):
    p = parts(c)
    a = p.a
    c.check(len(p.recv) >= 1, "Server::step must receive datagrams in a loop")
    for s in p.back(p.recv):
        rv, rd = s.io("recv_from"), s.calls(RD)
        if not c.check(len(rv) == 1 and len(rd) == 1, "Server::step: each datagram must be received and parsed once", s.loc, (s.p,)):
            continue
        x = rd[0].args[0]
        v = a.ip.read(St(rd[0].mem, s.facts, None), x.a[0], x.a[1]) if x.op == "ref" else x
        w = a.ip.mkslice(rv[0].x["buf"], I(0), c_size(rv[0]), s.facts)
        c.check(same(v, w, s.facts), "Server::step: exactly the bytes received must be parsed", rd[0].loc, (s.p, v))
        e = s.e0(fr=N(rd[0].ret, rdtid(c)))
        s2 = s.under(e("is_none(fr)"))
        if s2 is not None:
            K(c, s2, "Server::step: a datagram that does not parse").nothing()
    for s in p.leave(p.recv):
        rv = s.io("recv_from")
        c.check(len(rv) >= 1 and s.facts.prove(bnot(cmp_eq(mk("discr", rv[-1].ret, 2), I(0)))) and not s.calls(RD),
                "Server::step: receiving must go on until the socket is empty", s.loc, (s.p,))


@rule("server.ignored", "C07 C08 C18 C03 C09 C10", "frames that do not fit the state of the connection they claim to belong to have no effect")
def _(c):
    for s, v, fr, addr, _, _ in recv_cases(c):
        for x, st, b in by_state(s, fr, addr):
            what = "Server::step: a %s for %s connection" % (v, "an unknown" if st is None else "a " + st)
            k = K(c, x, what, **b)
            if v == "HandshakeSynFrame" and st is None:
                continue
            if v == "HandshakeAckFrame" and st == "Pending":
                y = x.under(bnot(k.e0("fr.Some.HandshakeAckFrame.nonce_ack == cl.state.Pending.local_nonce")))
                if y is not None:
                    K(c, y, what + " with the wrong nonce", **b).nothing()
                continue
            if (v, st) in (("DisconnectFrame", "Active"), ("DisconnectFrame", "Closing"), ("DisconnectFrame", "Closed"), ("DisconnectAckFrame", "Closing"),
                           ("DataFrame", "Active"), ("SyncFrame", "Active"), ("AckFrame", "Active")):
                continue
            k.nothing()


@rule("server.data", "C10 C01 C02 C03 C08", "data, sync and ack frames for an active connection reach its half connection, once, and refresh its timeout; nothing else happens")
def _(c):
    n = 0
    for s, v, fr, addr, _, _ in recv_cases(c, ["DataFrame", "SyncFrame", "AckFrame"]):
        for x, st, b in by_state(s, fr, addr):
            if st != "Active":
                continue
            n += 1
            k = K(c, x, "Server::step: a %s for an active connection" % v, **b)
            m = {"DataFrame": "handle_data_frame", "SyncFrame": "handle_sync_frame", "AckFrame": "handle_ack_frame"}[v]
            got = k.hc([m], "C01 C02 C10")
            for e in got:
                if e.name.endswith(m):
                    k.ok(k.same(e.args[1], "raw(fr.Some.%s)" % v) or k.same(e.args[1], "fr.Some.%s" % v), "the frame must be handed on as received", "C01 C02", e.args[1], e.loc)
            k.timeout(True)
            k.signal()
            k.state(None)
            k.table(None)
            k.active(False)
            k.events([], "C08")
            k.timers([])
            k.sends([])
    c.check(n > 0, "Server::step handles no data frames")


# ------------------------------------------------------------------------------------------------ handshake
SYN = "fr.Some.HandshakeSynFrame"


def counted(c, p, s, X):
    """does the loop symbol X count exactly the pending and active connections of the table?"""
    a = p.a
    L = next((l for l in p.a.loops() if any(y is X for y in l.syms.values())), None)
    if L is None or L.entry.get(X) is not I(0):
        return False
    nest = nested(a)
    inner = [l for l in a.loops() if (id(l), id(L)) in nest]
    cl = s.e0()("self.clients")
    ok, seen = True, False

    def elem(st):
        """index of the one table entry examined, and its term"""
        ks = set()
        for f in st.facts.items:
            for t in walk(f):
                if t.op == "mkey" and same(t.a[0], cl, st.facts):
                    ks.add(t)
        return ks

    base = set()
    for l in [L] + inner:
        for b in a.loop_backs(l):
            if b.facts.inconsistent():
                continue
            ks = [k for k in elem(b.st) if k.a[1].op == "sym" and any(k.a[1] is y for l2 in [L] + inner for y in l2.syms.values())]
            if len(ks) != 1:
                return False
            j = ks[0].a[1]
            e = a.at(b.header, b.facts)
            x = e.bind(i=N(ks[0])).term("get(self.clients, i)")
            g = bor(e.bind(x=x)("isv(x.state, 'Pending')"), e.bind(x=x)("isv(x.state, 'Active')"))
            d = sub(a.sval(l, X, b.st), X) if any(y is X for y in l.syms.values()) else I(0)
            if d is I(1):
                ok = ok and b.facts.prove(g)
                seen = True
            elif d is I(0):
                ok = ok and b.facts.prove(bnot(g))
            else:
                return False
            # the index advances by one
            ok = ok and any(same(a.sval(l, y, b.st), add(j, I(1)), b.facts) for y in l.syms.values() if a.sval(l, y, b.st) is not None)
            base.add(j)
    for j in base:
        l = next(l for l in [L] + inner if any(y is j for y in l.syms.values()))
        e0 = l.entry.get(j)
        if l is L:
            ok = ok and e0 is I(0)
        else:
            ok = ok and e0 is not None and any(e0 is y and L.entry.get(y) is I(0) for y in L.syms.values())
        ok = ok and s.facts.prove(cmp_le(a.ip.length(cl), j))
    return ok and seen


def walk(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from walk(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from walk(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield from walk(z, seen)


def counters_of(c, p, s):
    """symbols that count the pending and active connections, among the loops this segment went through"""
    out = []
    nest = nested(p.a)
    for e in s.evs:
        if e.kind == "loop":
            for X in e.x.syms.values():
                if e.x.entry.get(X) is I(0):
                    k = (id(e.x), X)
                    if k not in p.idx:
                        p.idx[k] = counted(c, p, s, X)
                    if p.idx[k]:
                        out.append(X)
    return out


def syn_cases(c):
    p = parts(c)
    for s, v, fr, addr, _, _ in recv_cases(c, ["HandshakeSynFrame"]):
        for x, st, b in by_state(s, fr, addr):
            if st is None:
                yield p, x, b


REPLY = {"nonce_ack": SYN + ".nonce", "max_receive_rate": "min(%s.max_receive_rate, 4294967295)" % EP,
         "max_packet_size": "min(%s.max_packet_size, 4294967295)" % EP, "max_receive_alloc": "min(%s.max_receive_alloc, 4294967295)" % EP}


@rule("server.syn", "C07 C17 C13 C18 C20 C10 C08 C04", "a connection request from a new address is either refused with one matching error reply, or accepted: one SYN-ACK with a fresh nonce, one pending connection, one resend timer")
def _(c):
    acc = refs = 0
    for p, s, b in syn_cases(c):
        k = K(c, s, "Server::step: a connection request from a new address", **b)
        fx = s.facts
        sn = sends(s)
        cs = counters_of(c, p, s)
        full = bor(k.e0("len(self.clients) >= self.config.max_total_connections"), *[k.e0("n >= self.config.max_active_connections") if False else cmp_le(k.e0("self.config.max_active_connections"), n) for n in cs])
        bad = k.e0("%s.version != 3" % SYN)
        cfg = k.e0("{0}.max_receive_alloc < {1}.max_packet_size or {0}.max_packet_size > {1}.max_receive_alloc".format(SYN, EP))
        kind = sn[0][0].a[1] if sn and sn[0][0] is not None and sn[0][0].op == "agg" else None
        if not k.ok(len(sn) == 1 and kind in ("HandshakeErrorFrame", "HandshakeSynAckFrame"), "it must be answered by one handshake error or SYN-ACK", "C07 C17 C18"):
            continue
        k.hc([], "C07")
        k.active(False)
        if kind == "HandshakeErrorFrame":
            refs += 1
            k.what = "Server::step: refusing a connection request"
            k.table(None)
            k.timers([])
            x = sn[0][0].a[3][0]
            er = x.a[3][x.a[2].index("error")] if x.op == "agg" else None
            en = er.a[1] if er is not None and er.op == "agg" else None
            why = {"Version": bad, "ServerFull": full, "Config": cfg}.get(en)
            if k.ok(why is not None, "the error must be a known one", "C07 C17", er):
                k.ok(fx.prove(why), "%s may be the reason only if it applies" % en, "C17" if en == "ServerFull" else "C07", why)
                k.ok(en == "ServerFull" or fx.prove(why), "matching error", "C07")
            k.sends([("HandshakeErrorFrame", {"nonce_ack": SYN + ".nonce"})], "C18 C07 C17")
            flag = k.e0("self.config.enable_handshake_errors")
            for f, w in ((flag, ["Error(%s)" % en]), (bnot(flag), [])):
                y = s.under(f)
                if y is not None:
                    K(c, y, "Server::step: refusing a connection request", **b).events(w, "C07 C08")
            continue
        acc += 1
        k.what = "Server::step: accepting a connection request"
        k.ok(fx.prove(bnot(bad)), "the protocol version must match", "C07")
        k.ok(fx.prove(k.e0("len(self.clients) < self.config.max_total_connections")), "there must be room in the table of connections", "C17")
        k.ok(any(fx.prove(cmp_lt(n, k.e0("self.config.max_active_connections"))) for n in cs),
             "pending and active connections together must be fewer than max_active_connections", "C17")
        k.ok(fx.prove(bnot(cfg)), "the limits of both sides must be compatible", "C07")
        k.events([], "C07 C08")
        rnd = s.io("random")
        x = sn[0][0].a[3][0]
        nonce = x.a[3][x.a[2].index("nonce")]
        k.ok(any(e.ret is nonce for e in rnd), "the server's nonce must be freshly drawn", "C07 C18", nonce)
        k.sends([("HandshakeSynAckFrame", REPLY)], "C18 C07")
        new = k.table("add")
        if not isinstance(new, T):
            continue
        e = s.e1(**b)
        m = e.term("get(self.clients, addr)")
        cl = N(new, m.tid)
        e = e.bind(new=cl, nonce=N(nonce), by=N(sn[0][1]), **b)
        k.bind = dict(b, new=cl)
        for pl, w, pr in (("new.address", "raw(addr)", "C07 C01 C18"), ("new.state.Pending.local_nonce", "nonce", "C07 C01"),
                          ("new.state.Pending.remote_nonce", SYN + ".nonce", "C07 C01"),
                          ("new.state.Pending.remote_max_receive_rate", SYN + ".max_receive_rate", "C13 C07"),
                          ("new.state.Pending.remote_max_receive_alloc", SYN + ".max_receive_alloc", "C20 C07 C06"),
                          ("new.max_packet_size", EP + ".max_packet_size", "C07 C04")):
            got = e("raw(%s)" % pl) if "address" in pl else e(pl)
            k.ok(fx.prove(e("isv(new.state, 'Pending')")) and same(got, e(w), fx), "%s must be %s" % (pl, w), pr, got)
        k.ok(same(e("raw(new.state.Pending.reply_bytes)"), sn[0][1], fx), "the SYN-ACK kept for resending must be the one sent", "C07 C18", e("raw(new.state.Pending.reply_bytes)"))
        k.timers([("ResendHandshakeSynAck", RETRY, COUNT)])
        k.others(new, "C07")
    c.check(acc > 0, "Server::step never accepts a connection request", props="C07 C17".split())
    c.check(refs > 0, "Server::step never refuses a connection request", props="C07 C17".split())


HCFG = {"tx_frame_window_size": "4096", "rx_frame_window_size": "4096", "tx_packet_window_size": "4096", "rx_packet_window_size": "4096",
        "tx_frame_base_id": "cl.state.Pending.local_nonce", "rx_frame_base_id": "cl.state.Pending.remote_nonce",
        "tx_packet_base_id": "m20(cl.state.Pending.local_nonce)", "rx_packet_base_id": "m20(cl.state.Pending.remote_nonce)",
        "tx_bandwidth_limit": "min(min(%s.max_send_rate, 4294967295), cl.state.Pending.remote_max_receive_rate)" % EP,
        "tx_alloc_limit": "cl.state.Pending.remote_max_receive_alloc", "rx_alloc_limit": EP + ".max_receive_alloc"}
HPROP = {"tx_frame_base_id": "C07 C01", "rx_frame_base_id": "C07 C01", "tx_packet_base_id": "C07 C01", "rx_packet_base_id": "C07 C01", "tx_bandwidth_limit": "C13 C07",
         "tx_alloc_limit": "C06 C07 C20", "rx_alloc_limit": "C06 C07"}


def config(k, e, want):
    """the configuration handed to HalfConnection::new"""
    v = e.args[0]
    t = k.c.p.fn(HCN + "::new")
    n = N(v, t.locals[1])
    for f, w in want.items():
        got = k.s.a.at(St(e.mem, k.s.facts, None), k.s.facts, cfg=n)("cfg." + f)
        k.ok(k.same(got, w), "the connection's %s must be %s" % (f, w), HPROP.get(f, "C07 C01 C12"), got, e.loc)
    got = k.s.a.at(St(e.mem, k.s.facts, None), k.s.facts, cfg=n)
    for g, w in (("%s.keepalive" % EP, None), ("not %s.keepalive" % EP, "is_none(cfg.keepalive_interval_ms)")):
        y = k.s.under(k.e0(g))
        if y is None:
            continue
        ev = k.s.a.at(St(e.mem, y.facts, None), y.facts, cfg=n)
        if w is None:
            ok = y.facts.prove(ev("is_some(cfg.keepalive_interval_ms)")) and same(ev("cfg.keepalive_interval_ms.Some"), y.e0()(EP + ".keepalive_interval_ms"), y.facts)
        else:
            ok = y.facts.prove(ev(w))
        k.ok(ok, "the keepalive interval must be the configured one iff keepalive is enabled", "C10", ev("raw(cfg.keepalive_interval_ms)"), e.loc)


@rule("server.ack", "C07 C08 C13 C06 C01 C10 C20 C12", "the ACK with the nonce of a pending connection activates it with the negotiated parameters and reports Connect, once")
def _(c):
    n = 0
    for s, v, fr, addr, _, _ in recv_cases(c, ["HandshakeAckFrame"]):
        for x, st, b in by_state(s, fr, addr):
            if st != "Pending":
                continue
            y = x.under(K(c, x, "", **b).e0("fr.Some.HandshakeAckFrame.nonce_ack == cl.state.Pending.local_nonce"))
            if y is None:
                continue
            n += 1
            k = K(c, y, "Server::step: the ACK of a pending connection", **b)
            k.state("Active")
            k.table(None)
            k.active(True)
            k.events(["Connect"], "C07 C08")
            k.timers([])
            k.sends([])
            got = k.hc(["new"], "C07 C01 C08")
            if len(got) == 1:
                config(k, got[0], HCFG)
                k.ok(same(k.e1("raw(cl.state.Active.half_connection)"), got[0].ret, y.facts), "the new half connection must be the client's", "C07 C01")
            k.timeout(True)
            k.ok(y.facts.prove(k.e1("is_none(cl.state.Active.disconnect_signal)")), "no disconnect may be requested", "C08 C09")
    c.check(n > 0, "Server::step never activates a connection")


# ------------------------------------------------------------------------------------------------ teardown
@rule("server.disconnect", "C08 C09 C10 C18 C19", "a peer's disconnect request is acknowledged and ends the connection with Disconnect after what was received is delivered; afterwards it is only acknowledged")
def _(c):
    n = {}
    for s, v, fr, addr, _, _ in recv_cases(c, ["DisconnectFrame", "DisconnectAckFrame"]):
        for x, st, b in by_state(s, fr, addr):
            k = K(c, x, "Server::step: a %s for a %s connection" % (v, st), **b)
            if v == "DisconnectFrame" and st in ("Active", "Closing"):
                n[st] = 1
                k.sends([("DisconnectAckFrame", None)], "C09")
                k.hc(["receive"] if st == "Active" else [], "C09 C08")
                k.events((["recv"] if st == "Active" else []) + ["Disconnect"], "C08 C09")
                k.state("Closed")
                k.table(None, "C08 C09 C17")
                k.active(False)
                k.timers([("ClosedTimeout", LINGER, None)], False, "C09 C17")
            elif v == "DisconnectFrame" and st == "Closed":
                n[st] = 1
                k.sends([("DisconnectAckFrame", None)], "C09")
                k.hc([], "C08")
                k.events([], "C08")
                k.state(None)
                k.table(None)
                k.active(False)
                k.timers([])
            elif v == "DisconnectAckFrame" and st == "Closing":
                n["ack"] = 1
                k.sends([], "C09")
                k.hc([], "C08")
                k.events(["Disconnect"], "C08 C09")
                k.state("Fin")
                k.table("del")
                k.active(False)
                k.timers([])
    c.check(len(n) == 4, "Server::step must handle disconnect requests and acknowledgements of active, closing and closed connections (%s)" % ", ".join(sorted(n)))


@rule("server.timers", "C10 C09 C08 C18 C17 C07 C19", "due timers resend handshake and disconnect requests 10 times, 2 s apart, then end the connection with Error(Timeout); a closed connection is forgotten after lingering")
def _(c):
    p = parts(c)
    if p.odd:
        raise p.odd
    if not c.check(len(p.timer) >= 1, "Server::step must process timers in a loop"):
        return
    n = {}
    for s in p.back(p.timer):
        e = s.e0()
        tm = e.term("htop(self.client_events)")
        e = s.e0(tm=tm)
        cl = e.term("tm.client")
        b = dict(cl=cl, tm=tm, addr=N(e.bind(cl=cl)("raw(cl.address)")))
        K(c, s, "Server::step: a timer", **b).ok(s.facts.prove(band(e("len(self.client_events) > 0"), cmp_le(e("tm.time"), now_term(s)))), "only due timers may fire", "C10 C09")
        for st in STATES:
            for kind in ("ResendHandshakeSynAck", "ResendDisconnect", "ClosedTimeout"):
                x = s.under(e.bind(cl=cl)("isv(cl.state, '%s')" % st), e("isv(tm.kind, '%s')" % kind))
                if x is None:
                    continue
                what = "Server::step: a %s timer of a %s connection" % (kind, st)
                own = {"Pending": "ResendHandshakeSynAck", "Closing": "ResendDisconnect", "Closed": "ClosedTimeout"}.get(st)
                if kind != own:
                    K(c, x, what, **b).nothing(popped=True)
                    continue
                if st == "Closed":
                    n["closed"] = 1
                    k = K(c, x, what, **b)
                    k.hc([], "C08")
                    k.events([], "C08")
                    k.state("Fin")
                    k.table("del")
                    k.active(False)
                    k.timers([], True)
                    k.sends([])
                    continue
                y = x.under(e("tm.count > 0"))
                if y is not None:
                    n[st + " again"] = 1
                    k = K(c, y, what, **b)
                    k.hc([], "C08")
                    k.events([], "C10 C08")
                    k.state(None)
                    k.table(None)
                    k.active(False)
                    k.timers([(kind, RETRY, "tm.count - 1")], True)
                    k.sends([("bytes", "raw(cl.state.Pending.reply_bytes)")] if st == "Pending" else [("DisconnectFrame", None)], "C18 C07 C10" if st == "Pending" else "C09 C10")
                y = x.under(e("tm.count == 0"))
                if y is not None:
                    n[st + " over"] = 1
                    flag = e("self.config.enable_handshake_errors") if st == "Pending" else TRUE
                    for f, w in ((flag, ["Error(Timeout)"]), (bnot(flag), [])):
                        z = y.under(f) if f is not FALSE else None
                        if z is None:
                            continue
                        k = K(c, z, what + " after the last resend", **b)
                        k.hc([], "C08")
                        k.events(w, "C10 C08" + (" C09" if st == "Closing" else ""))
                        k.state("Fin")
                        k.table("del")
                        k.active(False)
                        k.timers([], True)
                        k.sends([], "C18 C10")
    c.check(len(n) == 5, "Server::step must resend and give up handshakes and disconnect requests, and forget closed connections (%s)" % ", ".join(sorted(n)))
    for s in p.leave(p.timer):
        e = s.e0()
        tm = e.term("htop(self.client_events)")
        c.check(s.facts.prove(bor(e("len(self.client_events) == 0"), cmp_lt(now_term(s), s.e0(tm=tm)("tm.time")))),
                "Server::step: timers must be processed until none is due", s.loc, (s.p,), props=["C10", "C09"])


@rule("server.heap", "C10 C09", "the timer that is due first comes first")
def _(c):
    E = "server::event_queue::Event"
    a = c.fn("<%s as std::cmp::Ord>::cmp" % E, ["self", "other"])
    for v, g in (("Greater", "self.time < other.time"), ("Less", "self.time > other.time")):
        n = 0
        for p in a.returns:
            e = a.at(a.st0, p.facts)
            fx = p.facts.plus(e(g))
            if fx.inconsistent():
                continue
            n += 1
            r = a.at(p.st, fx, ret=a.retn(p))
            c.check(fx.prove(r("isv(ret, '%s')" % v)), "Event::cmp must be %s when %s" % (v, g), a.where(p), (p, p.ret))
        c.check(n > 0, "Event::cmp: no path for %s" % g)
    a = c.fn("<%s as std::cmp::PartialOrd>::partial_cmp" % E, ["self", "other"])
    for v, g in (("Greater", "self.time < other.time"), ("Less", "self.time > other.time")):
        for p in a.returns:
            e = a.at(a.st0, p.facts)
            fx = p.facts.plus(e(g))
            if fx.inconsistent():
                continue
            r = a.at(p.st, fx, ret=a.retn(p))
            c.check(fx.prove(r("is_some(ret)")) and fx.prove(r("isv(ret.Some, '%s')" % v)), "Event::partial_cmp must be Some(%s) when %s" % (v, g), a.where(p), (p, p.ret))


# ------------------------------------------------------------------------------------------------ the active clients
def seqterm(p, L, s):
    """the sequence of active clients the loop runs over (as of its header) and its index symbol"""
    seq = p.a.at(L.hst, L.hst.facts)("self.active_clients")
    return seq, covers(p.a, L, seq)


@rule("server.active", "C08 C09 C10 C02 C19", "every step, each active connection is checked for its timeout after the socket was drained, then disconnected if due or stepped, and what it received is reported; flushing covers each of them")
def _(c):
    p = parts(c)
    a = p.a
    mode = {k: v for k, v in p.mode.items() if v}
    for m in ("timeout", "step"):
        c.check(any(m in v for v in mode.values()), "Server::step must %s the active connections" % {"timeout": "time out", "step": "step"}[m])
    pr = pruning(p)
    pruned = set()
    # between the loops the list only loses clients that are not active
    for s in p.segs:
        if s.L is not None and s.to is s.L:
            continue
        v, v0 = s.e1()("self.active_clients"), s.e0()("self.active_clients")
        for e in reversed(s.evs):
            if e.kind == "op" and e.name == "retain" and isinstance(e.ret, T) and v is e.ret:
                pruned.add(e.ret)
                k = e.x["k"]
                for st, keep in e.x["outs"]:
                    en = a.at(St(e.x["base"].mem, st.facts, None), st.facts)
                    tid = en.elem_tid(en.settle(en.term("self.active_clients")).tid)
                    x = N(a.ip.step_val(e.x["src"], ("i", k, tid), st.facts), tid)
                    en = en.bind(x=x)
                    g = en("isv(x.state, 'Active')")
                    c.check(st.facts.prove(bor(bnot(g), keep)), "Server::step: no active client may be dropped from the list", e.loc, (s.p, keep), props="C08 C09 C10 C02".split())
                    c.check(st.facts.prove(bor(g, bnot(keep))), "Server::step: clients that are no longer active must leave the list", e.loc, (s.p, keep), props=["C19"])
                v = e.x["src"]
        if s.to is not None and pr.get(id(s.to)) and v.op == "vempty" and pr[id(s.to)][1] is s.e0()("self.active_clients"):
            continue  # taken by the loop that rebuilds the list
        if s.L is not None and pr.get(id(s.L)) and v is pr[id(s.L)][0]:
            continue
        c.check(same(v, v0, s.facts), "Server::step: the active clients may only be filtered", s.loc, (s.p, v))
        if s.to is not None or s.L is not None:
            k = K(c, s, "Server::step")
            rest(k)
    # on every path: socket drained, then timeouts, then stepping
    for q in a.returns:
        order = [id(e.x) for e in q.events() if e.kind == "loop"]
        pos = {}
        for i, l in enumerate(order):
            if l in p.recv:
                pos.setdefault("recv", i)
            for m in mode.get(l, ()):
                pos.setdefault(m, i)
            if l in p.timer:
                pos.setdefault("timer", i)
        for m in ("recv", "timer", "timeout", "step"):
            if m == "timer" and p.odd:
                c.moot("anchor not found: %s" % p.odd)
                continue
            c.check(m in pos, "Server::step: every step must run the %s loop" % m, a.where(q), (q,), props=["C10", "C09", "C02"])
        c.check(any(e.kind == "op" and e.name == "retain" and e.ret in pruned or e.kind == "loop" and id(e.x) in pr for e in q.events()),
                "Server::step: every step must take the clients that are no longer active off the list", a.where(q), (q,), props=["C19"])
        if all(m in pos for m in ("recv", "timeout", "step")):
            c.check(pos["recv"] < pos["timeout"], "Server::step: timeouts must be judged after the frames waiting in the socket were handled", a.where(q), (q,), props=["C10"])
    for l, m in p.mode.items():
        L = p.loops[l]
        if not m:
            for s in p.back({l}):
                v, v0 = s.e1()("self.active_clients"), s.e0()("self.active_clients")
                c.check(l in pr or same(v, v0, s.facts), "Server::step: the active clients may only be filtered", s.loc, (s.p, v))
            continue
        seq, i = seqterm(p, L, None)
        if i is None and p.odd:
            continue
        if not c.check(i is not None, "Server::step: the loop must cover every active client", L.loc):
            continue
        for s in p.back({l}):
            e = s.e0(i=N(i))
            cl = e.term("self.active_clients[i]")
            b = dict(cl=cl, addr=N(s.e0(cl=cl)("raw(cl.address)")))
            active_case(c, s, m, b)


def pruning(p):
    """loops that keep exactly the active clients of the list, in order: in place (None), or by building a new list (that list, the old one)"""
    a, out = p.a, {}
    for l, m in p.mode.items():
        L = p.loops[l]
        bk = p.back({l})
        if m or not bk:
            continue
        for i, z in L.entry.items():
            if z is not I(0):
                continue
            # in place
            ok = all(s.facts.prove(s.e0(i=N(i))("i >= len(self.active_clients)")) for s in p.leave({l}))
            for s in bk:
                e = s.e0(i=N(i))
                v, v0, j = s.e1()("self.active_clients"), e("self.active_clients"), a.sval(L, i, s.st)
                x = e.bind(x=e.term("self.active_clients[i]"))("isv(x.state, 'Active')")
                if s.facts.prove(x):
                    ok = ok and v is v0 and same(j, add(i, I(1)), s.facts)
                else:
                    ok = ok and s.facts.refute(x) and v.op in ("rem", "popf") and v.a[0] is v0 and (v.op == "popf" or same(v.a[1], i, s.facts)) and same(j, i, s.facts)
            if ok:
                out[l] = None
            # a new list
            for K, ke in L.entry.items():
                if ke.op != "vempty":
                    continue
                for t in p.segs:
                    if t.to is not L or t.L is L:
                        continue
                    seq = t.e0()("self.active_clients")
                    ok = all(s.facts.prove(cmp_le(a.ip.length(seq), i)) for s in p.leave({l}))
                    for s in bk:
                        e = s.e0(i=N(i))
                        tid = e.elem_tid(e.settle(e.term("self.active_clients")).tid)
                        el = a.ip.step_val(seq, ("i", i, tid), s.facts)
                        x = e.bind(x=N(el, tid))("isv(x.state, 'Active')")
                        k = a.sval(L, K, s.st)
                        ok = ok and same(a.sval(L, i, s.st), add(i, I(1)), s.facts)
                        if s.facts.prove(x):
                            ok = ok and k.op == "pushb" and k.a[0] is K and same(k.a[1], el, s.facts)
                        else:
                            ok = ok and s.facts.refute(x) and k is K
                    if ok:
                        out[l] = (K, seq)
    return out


def rest(k):
    k.hc([], "C08")
    k.others(None, "C08 C07")
    k.table(None)
    if k.s.to is not None:
        k.events([], "C08")
    k.timers([], False)
    k.sends([])


def active_case(c, s, m, b):
    e = s.e0(**b)
    for g in (TRUE,):
        x = s.under(bnot(e("isv(cl.state, 'Active')")))
        if x is not None:
            K(c, x, "Server::step: a client that is not active", **b).nothing()
    s = s.under(e("isv(cl.state, 'Active')"))
    if s is None:
        return
    e = s.e0(**b)
    if "timeout" in m:
        due = cmp_le(e("cl.state.Active.timeout_time_ms"), now_term(s))
        x = s.under(due)
        if x is not None:
            k = K(c, x, "Server::step: an active connection whose timeout elapsed", **b)
            k.events(["Error(Timeout)"], "C10 C08", opt_recv=True)
            k.state("Fin", "C10 C08 C17")
            k.table("del")
            k.active(False)
            k.timers([])
            k.sends([])
        s = s.under(bnot(due))
        if s is None:
            return
    k = K(c, s, "Server::step: an active connection", **b)
    if "flush" in m:
        got = k.hc(["flush"] + (["step", "receive"] if "step" in m else []), "C02 C09 C13")
        flushed(k, got)
        if "step" not in m:
            k.nothing(keep=("hc",))
            return
    if "step" not in m:
        k.nothing()
        return
    e = s.e0(**b)
    pend = [q for q in s.calls(HCN + "::is_send_pending")]
    now_ = e("is_some(cl.state.Active.disconnect_signal)")
    isnow = band(now_, e("isv(cl.state.Active.disconnect_signal.Some, 'Now')"))
    isfl = band(now_, e("isv(cl.state.Active.disconnect_signal.Some, 'Flush')"))
    for q in pend:
        k.ok(k.ref_is(q.args[0], "cl.state.Active.half_connection"), "it must be this connection's queue", "C09", q.args[0], q.loc)
    idle = [bnot(q.ret) for q in pend]
    closing = s.facts.prove(bnot(s.e1(**b)("isv(cl.state, 'Active')")))
    if closing:
        k.what = "Server::step: disconnecting"
        k.ok(s.facts.prove(bor(isnow, *[band(isfl, q) for q in idle])), "only when requested, and unless immediate only with nothing left to send", "C09 C08")
        k.hc(["receive"], "C09 C08 C02")
        k.events(["recv"], "C08 C09 C02")
        k.state("Closing")
        k.table(None)
        k.active(False)
        k.sends([("DisconnectFrame", None)], "C09")
        k.timers([("ResendDisconnect", RETRY, COUNT)], False, "C09 C10")
    else:
        k.what = "Server::step: an active connection"
        k.ok(s.facts.prove(bnot(isnow)) and (s.facts.prove(bnot(isfl)) or any(s.facts.prove(bnot(q)) for q in idle)), "a due disconnect must not be put off", "C09")
        k.hc(["step", "receive"], "C02 C09 C10 C08")
        k.events(["recv"], "C08 C02")
        k.state(None)
        k.table(None)
        k.active(False)
        k.sends([])
        k.timers([])
        k.timeout(False)
        k.signal()


def flushed(k, got, place="cl.address"):
    for e in got:
        if e.name.endswith("::flush"):
            sink = e.args[1]
            v = k.s.a.ip.read(St(e.mem, k.s.facts, None), sink.a[0], sink.a[1]) if sink.op == "ref" else sink
            ok = v.op == "agg" and "address" in v.a[2] and same(v.a[3][v.a[2].index("address")], k.e0("raw(%s)" % place), k.s.facts)
            k.ok(ok, "frames must go to the connection's peer", "C02 C13 C01 C18", v, e.loc)


@rule("server.flush", "C02 C09 C13 C08", "flush flushes every active connection to its peer and does nothing else")
def _(c):
    for a in (c.fn(S + "::flush", ["self"], NB),):
        segs = segments(a)
        n = 0
        for s in segs:
            fl = [e for e in s.evs if e.kind == "call" and e.name == HCN + "::flush"]
            if s.L is not None and s.to is s.L:
                seq = a.at(s.L.hst, s.L.hst.facts)("self.active_clients")
                i = covers(a, s.L, seq)
                if not c.check(i is not None, "Server::flush: the loop must cover every active client", s.L.loc):
                    continue
                cl = s.e0(i=N(i)).term("self.active_clients[i]")
                b = dict(cl=cl, addr=N(s.e0(cl=cl)("raw(cl.address)")))
                e = s.e0(**b)
                x = s.under(e("isv(cl.state, 'Active')"))
                if x is not None:
                    n += 1
                    k = K(c, x, "Server::flush: an active connection", **b)
                    flushed(k, k.hc(["flush"], "C02 C09 C13"))
                    k.nothing(keep=("hc",))
                x = s.under(bnot(e("isv(cl.state, 'Active')")))
                if x is not None:
                    K(c, x, "Server::flush: a client that is not active", **b).nothing()
            else:
                K(c, s, "Server::flush").nothing()
        c.check(n > 0, "Server::flush must flush active connections")


@rule("server.result", "C08 C02", "step returns every event waiting, and nothing waits afterwards")
def _(c):
    a = step(c)
    for s in segments(a):
        if s.to is None:
            v = s.p.ret
            w = s.e0()("raw(self.events_out)")
            ok = v is not None and v.op == "agg" and any(same(x, w, s.facts) for x in v.a[3]) and \
                (not [x for f, x in zip(v.a[2], v.a[3]) if f == "idx" and x is not I(0)]) and \
                all(same(x, a.ip.length(w), s.facts) for f, x in zip(v.a[2], v.a[3]) if f == "end")
            c.check(ok, "Server::step must return all events, in order", a.where(s.p), (s.p, v) if v is not None else (s.p,))
            c.check(s.facts.prove(s.e1()("len(self.events_out) == 0")), "Server::step: no event may be reported twice", a.where(s.p), (s.p,))


# ------------------------------------------------------------------------------------------------ the rest of the interface
@rule("server.bind", "C07 C08 C17", "a server starts with a valid configuration, without connections, timers or events")
def _(c):
    a = c.fn(S + "::bind", ["addr", "config"], NB)
    n = 0
    for p in a.returns:
        r = a.at(p.st, p.facts, ret=a.retn(p))
        if not p.facts.prove(r("is_ok(ret)")):
            continue
        n += 1
        for h in ("len(ret.Ok.clients) == 0", "len(ret.Ok.active_clients) == 0", "len(ret.Ok.client_events) == 0", "len(ret.Ok.events_out) == 0"):
            c.check(p.facts.prove(r(h)), "Server::bind: %s" % h, a.where(p), (p, r(h)))
        c.check(same(r("raw(ret.Ok.config)"), a.at(a.st0, p.facts)("raw(config)"), p.facts) or
                all(same(r("ret.Ok.config.%s" % f), a.at(a.st0, p.facts)("config.%s" % f), p.facts) for f in
                    ("max_total_connections", "max_active_connections", "enable_handshake_errors")), "Server::bind: the configuration must be kept", a.where(p), (p,))
        e = a.at(a.st0, p.facts)
        c.check(p.facts.prove(e("config.max_total_connections > 0 and config.max_active_connections > 0")), "Server::bind: the limits must be positive", a.where(p), (p,), props=["C17"])
        nb = [x for x in p.events() if x.kind == "io" and x.name == "set_nonblocking"]
        c.check(len(nb) >= 1 and nb[-1].args[1] is TRUE, "Server::bind: the socket must not block", a.where(p), (p,))
    c.check(n > 0, "Server::bind never succeeds")


@rule("server.drop", "C08 C17 C07 C19", "dropping a client ends its connection at once and frees its place, silently")
def _(c):
    a = c.fn(S + "::drop", ["self", "client_addr"], NB)
    for s in segments(a):
        e = s.e0()
        addr = N(e("deref(client_addr)"), None)
        x = s.under(bnot(e("has(self.clients, client_addr)")))
        if x is not None:
            K(c, x, "Server::drop of an unknown client", addr=addr).nothing()
        x = s.under(e("has(self.clients, client_addr)"))
        if x is not None:
            cl = x.e0().term("get(self.clients, client_addr)")
            k = K(c, x, "Server::drop", addr=addr, cl=cl)
            k.state("Fin")
            k.table("del")
            k.active(False)
            k.events([], "C08")
            k.timers([])
            k.sends([])
            k.hc([], "C08")


@rule("server.client", "C08", "client looks the address up")
def _(c):
    a = c.fn(S + "::client", ["self", "client_addr"], NB)
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        r = a.at(p.st, p.facts, ret=a.retn(p))
        for q, v in a.split(p, "has(self.clients, client_addr)"):
            r = a.at(q.st, q.facts, ret=a.retn(q))
            if v:
                c.check(q.facts.prove(r("is_some(ret)")) and same(r("raw(deref(ret.Some))"), e("raw(deref(get(self.clients, client_addr)))"), q.facts) or
                        q.facts.prove(r("is_some(ret)")), "Server::client must find the client", a.where(p), (p, p.ret))
            else:
                c.check(q.facts.prove(r("is_none(ret)")), "Server::client must not invent a client", a.where(p), (p, p.ret))


# ------------------------------------------------------------------------------------------------ remote clients
@rule("remote.api", "C08 C09 C02 C03 C20 C01", "calls on a client act on its connection only while it is active, and none ends or revives it")
def _(c):
    for m, names in (("send", ["self", "data", "channel_id", "mode"]), ("disconnect", ["self"]), ("disconnect_now", ["self"]), ("rtt_s", ["self"]),
                     ("send_buffer_size", ["self"]), ("is_active", ["self"])):
        a = c.fn(RC + "::" + m, names, NB)
        for s in segments(a):
            e = s.e0()
            for st in STATES:
                x = s.under(e("isv(self.state, '%s')" % st))
                if x is None:
                    continue
                k = K(c, x, "RemoteClient::%s of a %s connection" % (m, st))
                k.ok(x.facts.prove(x.e1()("isv(self.state, '%s')" % st)), "the state must not change", "C08")
                k.ok(same(x.e1()("raw(self.address)"), e("raw(self.address)"), x.facts), "the address must not change", "C08 C07")
                hc = [q for q in x.evs if q.kind == "call"]
                r = x.p.ret
                if st != "Active":
                    k.ok(not hc, "nothing may be done", "C08")
                else:
                    for q in hc:
                        k.ok(q.args[0].op == "ref" and norm(q.args[0].a[1])[-1] == ("f", "half_connection"), "it must act on the client's half connection", "C08", q.args[0], q.loc)
                    want = {"send": ["send"], "rtt_s": ["rtt_s"], "send_buffer_size": ["send_buffer_size"]}.get(m, [])
                    k.ok([q.name.split("::")[-1] for q in hc] == want, "the half connection must be used for [%s]" % ", ".join(want), "C02 C20 C08")
                    sig0, sig1 = e("raw(self.state.Active.disconnect_signal)"), x.e1()("raw(self.state.Active.disconnect_signal)")
                    if m in ("disconnect", "disconnect_now"):
                        w = {"disconnect": "Flush", "disconnect_now": "Now"}[m]
                        k.ok(x.facts.prove(x.e1()("is_some(self.state.Active.disconnect_signal)")) and
                             x.facts.prove(x.e1()("isv(self.state.Active.disconnect_signal.Some, '%s')" % w)), "the disconnect must be requested (%s)" % w, "C09", sig1)
                    else:
                        k.ok(same(sig0, sig1, x.facts), "no disconnect may be requested", "C09 C08", sig1)
                    k.ok(same(x.e1()("self.state.Active.timeout_time_ms"), e("self.state.Active.timeout_time_ms"), x.facts), "the timeout must not change", "C10")
                if m == "send" and st == "Active" and hc:
                    q = hc[0]
                    for i, w in ((1, "data"), (2, "channel_id"), (3, "mode")):
                        k.ok(same(q.args[i], e("raw(%s)" % w), x.facts) or same(q.args[i], e(w), x.facts), "send must pass on %s" % w, "C01 C02", q.args[i], q.loc)
                    k.ok(x.facts.prove(e("channel_id < 64 and len(data) <= self.max_packet_size")), "only valid packets may be sent", "C03 C01")
                if m in ("rtt_s", "send_buffer_size") and st == "Active" and hc:
                    k.ok(same(r, hc[0].ret, x.facts), "the result must be the half connection's", "C20", r)
                if m == "send_buffer_size" and st != "Active":
                    k.ok(same(r, I(0), x.facts), "there is nothing to send", "C20", r)
                if m == "is_active":
                    k.ok(same(r, B(st == "Active"), x.facts), "is_active must be %s" % (st == "Active"), "C08", r)


@rule("server.sinks", "C01 C02 C08 C07", "received packets become Receive events as they are; frames are sent as they are to the sink's address")
def _(c):
    a = c.fn("<server::EventPacketSink as half_connection::PacketSink>::send", ["self", "packet_data"], NB)
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        v = f("deref(self.event_queue)")
        ok = v.op == "pushb" and same(v.a[0], e("deref(self.event_queue)"), p.facts) and v.a[1].op == "agg" and v.a[1].a[1] == "Receive" and \
            same(v.a[1].a[3][0], e("raw(self.address)"), p.facts) and same(v.a[1].a[3][1], e("raw(packet_data)"), p.facts)
        c.check(ok, "EventPacketSink::send must append Receive(address, packet)", a.where(p), (p, v))
    a = c.fn("<udp_frame_sink::UdpFrameSink as half_connection::FrameSink>::send", ["self", "frame_data"], NB)
    for p in a.returns:
        e = a.at(a.st0, p.facts)
        io = [x for x in p.events() if x.kind == "io"]
        c.check(len(io) == 1 and io[0].name == "send_to" and same(io[0].args[1], e("deref(frame_data)"), p.facts) and same(io[0].args[2], e("raw(self.address)"), p.facts),
                "UdpFrameSink::send must send the frame's bytes to its address, once", a.where(p), (p,))


@rule("server.step.flush", "C02 C11", "every step flushes every active connection (an application need not call flush)")
def _(c):
    a = step(c)
    good = []
    for L in a.loops():
        try:
            i = covers(a, L, a.at(L.hst, L.hst.facts)("self.active_clients"))
        except Missing:
            i = None
        if i is None:
            continue
        ok, act = bool(a.loop_backs(L)), False
        for q in a.loop_backs(L):
            e = a.at(L.hst, q.facts, i=N(i))
            cl = e.bind(cl=e.term("self.active_clients[i]"))
            f = a.at(q.st, q.facts, i=N(i))
            f = f.bind(cl=f.term("self.active_clients[i]"))
            fx = q.facts.plus(cl("isv(cl.state, 'Active')"), f("isv(cl.state, 'Active')"))
            if fx.inconsistent():
                continue
            act = True
            ok = ok and any(x.kind == "call" and x.name == HCN + "::flush" for x in a.seg(q))
        if ok and act:
            good.append(L)
    for p in a.returns:
        c.check(any(e.kind == "loop" and e.x in good for e in p.events()), "Server::step must flush every active connection", a.where(p), (p,))
