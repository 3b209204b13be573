"""Frame codec: the reader is composed with the writer symbolically (every bit of every field is traced through the bytes of the
frame), the reader's acceptance conditions are checked, and the error detection of the CRC is decided from its table."""
from ..rules import *
from ..bits import Bits, ZERO, ONE, bx

FR = "<frame::Frame as frame::serial::Serialize>::"
DB = "frame::serial::build::DataFrameBuilder"
AB = "frame::serial::build::AckFrameBuilder"
CRC = "frame::serial::crc::compute"
BC = frozenset([CRC])
BW = frozenset([CRC, DB + "::new", DB + "::add", DB + "::build", AB + "::new", AB + "::add", AB + "::build"])
MAXF = 1472
REPR_DG = ["datagram.channel_id < 64", "datagram.sequence_id < 1048576", "len(datagram.data) <= 65535", "datagram.fragment_id <= datagram.fragment_id_last"]


def crcs(p):
    return [e for e in p.events() if e.kind == "call" and e.name.endswith("crc::compute")]


def content(a, e, i=0):
    x = e.args[i]
    return a.ip.read(St(e.mem, e.facts, None), x.a[0], x.a[1])


def reader(c):
    """(analysis, return paths in front of any loop's end, content term of the input)"""
    r = c.fn(FR + "read", ["bytes"], BC)
    inp = r.env0.settle(r.env0.names["bytes"])
    return r, inp.v


def seqsame(ip, x, y, facts):
    """are two byte sequences equal?"""
    if x is y:
        return True
    for v in (x, y):        # the part of a concatenation behind its first part
        while v.op == "slice" and v.a[0].op == "cat":
            L = ip.length(v.a[0].a[0])
            if not facts.prove(cmp_eq(v.a[1], L)):
                break
            v = ip.mkslice(v.a[0].a[1], I(0), sub(ip.length(v.a[0]), L) if facts.prove(cmp_eq(v.a[2], ip.length(v.a[0]))) else sub(v.a[2], L), facts)
            if v is x or v is y:
                return True
    n, k = ip.length(x), ip.length(y)
    if not facts.prove(cmp_eq(n, k)):
        return False
    if n.op == "int" and n.a[0] <= 4096:
        return all(same(ip.elem(x, I(i), facts), ip.elem(y, I(i), facts), facts) for i in range(n.a[0]))
    return same(x, y, facts)


def equal(ip, B, got, v, tid, facts, path="frame"):
    """first place where the decoded value differs from the encoded one (v of type tid), or None"""
    P = ip.p
    tid = P.peel(tid)
    t = P.types[tid]
    g = B.sub(got)
    if t["k"] == "adt" and t["name"].split("::")[-1] in ("Box", "Vec"):
        return None if seqsame(ip, g, v, facts) or same(g, B.sub(v), facts) else "%s (%s for %s)" % (path, show(g)[:80], show(v)[:80])
    if t["k"] == "adt" and t["adt"] == "Enum":
        if g.op != "agg":
            return None if same(g, v, facts) else path
        k = [x for x in t["variants"] if x["name"] == g.a[1]]
        if not k:
            return path
        if not facts.prove(cmp_eq(ip.discr(v, tid), I(int(k[0]["d"])))):
            return "%s (decoded as %s)" % (path, g.a[1])
        for n, ft in k[0]["fields"]:
            w = ip.step_val(ip.step_val(v, ("v", g.a[1], tid), facts), ("f", n, ft, tid, g.a[1]), facts)
            d = equal(ip, B, g.a[3][g.a[2].index(n)], w, ft, facts, path + "." + n)
            if d:
                return d
        return None
    if t["k"] == "adt" and g.op == "agg":
        for n, ft in t["variants"][0]["fields"]:
            d = equal(ip, B, g.a[3][g.a[2].index(n)], ip.step_val(v, ("f", n, ft, tid), facts), ft, facts, path + "." + n)
            if d:
                return d
        return None
    if t["k"] == "bool":
        x, y = B.boolbit(g), B.boolbit(v)
        ok = x is not None and x == y or same(B.bool(g), B.bool(v), facts)
    else:
        x, y = B.sub(g), B.sub(v)
        ok = same(x, y, facts)
    return None if ok else "%s (%s for %s)" % (path, show(B.sub(g))[:80], show(v)[:80])


def feasible(B, items, facts):
    """facts extended with the substituted conditions; None if they contradict each other"""
    fx = facts
    for x in items:
        y = B.sub(x)
        if y is FALSE:
            return None
        fx = fx.plus(y)
        if fx.refute(y) or facts.refute(y):
            return None
    if fx is not facts and fx.inconsistent():
        return None
    return fx


def crcsub(c, r, rp, B, wcont, wret, who):
    """bind the checksum the reader computes to the one the writer computed, if both cover the same bytes"""
    for e in crcs(rp):
        x = B.sub(content(r, e))
        if seqsame(r.ip, x, wcont, B.f):
            B.m[e.ret] = wret
        else:
            c.check(False, "%s: the reader checks the CRC of other bytes than the writer sums" % who, e.loc, (rp, x, wcont))
            B.m[e.ret] = wret


def variant_of(ret):
    """(frame variant) of a Some result"""
    if ret.op == "agg" and ret.a[1] == "Some":
        f = ret.a[3][0]
        if f.op == "agg" and f.a[0].endswith("Frame"):
            return f.a[1]
    return None


def plain_writers(c):
    """writer paths of the frames of fixed layout: (path, bytes, length, variant, checksum event)"""
    w = c.fn(FR + "write", ["self"], BW)
    out = []
    t = c.p.types[c.p.peel(w.env0.settle(w.env0.names["self"]).tid)]
    for p in w.returns:
        if any(e.kind == "loop" or e.kind == "call" and not e.name.endswith("crc::compute") for e in p.events()):
            continue
        vs = [v["name"] for v in t["variants"] if not p.facts.refute(w.at(w.st0, p.facts)("isv(self, '%s')" % v["name"]))]
        out.append((p, p.ret, w.ip.length(p.ret), vs, [e for e in crcs(p) if e.ret in subterms(p.ret)]))
    return w, out


@rule("codec.fixed", "C16 C07 C09", "parsing the serialised form of a frame of fixed layout yields the same frame, for every value of its fields")
def _(c):
    w, ws = plain_writers(c)
    r, inp = reader(c)
    me = w.env0.settle(w.env0.names["self"])
    c.check(len(ws) >= 7, "write: frames of fixed layout")
    t = c.p.types[c.p.peel(me.tid)]
    seen = set()
    for p, out, n, vs, cr in ws:
        who = "write(%s)" % "/".join(vs)
        seen |= set(vs)
        if not c.check(len(vs) == 1, "write: the layout must be chosen by the frame's type", w.where(p), (p,)):
            continue
        if not c.check(n.op == "int" and n.a[0] <= MAXF, "%s: the length must be fixed and at most one maximum-size frame" % who, w.where(p), (p, n)):
            continue
        if not c.check(len(cr) >= 1 and all(x.ret is cr[0].ret for x in cr), "%s: exactly one checksum must be appended" % who, w.where(p), (p,)):
            continue
        wc = content(w, cr[0])
        pre = w.ip.mkslice(out, I(0), I(n.a[0] - 4), p.facts)
        c.check(seqsame(w.ip, wc, pre, p.facts), "%s: the checksum must cover everything before it" % who, cr[0].loc, (p, wc))
        hit = []
        for q in r.returns:
            B = Bits(r.ip, p.facts, {inp: out})
            crcsub(c, r, q, B, wc, cr[0].ret, who)
            fx = feasible(B, q.facts.items, p.facts)
            if fx is None:
                continue
            hit.append(q)
            if not c.check(variant_of(q.ret) is not None, "%s: the reader must accept the frame" % who, r.where(q), (q, q.ret)):
                continue
            B.f = fx
            d = equal(r.ip, B, q.ret.a[3][0], me.v, me.tid, fx)
            c.check(d is None, "%s: decoding must give back the encoded frame: %s" % (who, d), r.where(q), (q, q.ret))
        c.check(len(hit) >= 1, "%s: no reader path takes the frame" % who, w.where(p), (p,))
    rest = {v["name"] for v in t["variants"]} - seen
    c.check(rest <= {"DataFrame", "AckFrame"}, "write: every frame type must be covered")


@rule("codec.write_var", "C16", "data and acknowledgement frames are written by their builders: header from the frame, every datagram/group in order, the built bytes returned")
def _(c):
    w = c.fn(FR + "write", ["self"], BW)
    me = w.env0.settle(w.env0.names["self"])
    for var, bld, hdr, seq in (("DataFrame", DB, ["sequence_id", "nonce"], "datagrams"), ("AckFrame", AB, ["frame_window_base_id", "packet_window_base_id"], "frame_acks")):
        n = 0
        for p in w.returns:
            e0 = w.at(w.st0, p.facts)
            if not p.facts.prove(e0("isv(self, '%s')" % var)):
                continue
            n += 1
            new = [e for e in p.events() if e.kind == "call" and e.name.endswith(bld + "::new")]
            bu = [e for e in p.events() if e.kind == "call" and e.name.endswith(bld + "::build")]
            ok = c.check(len(new) == 1 and len(bu) == 1 and p.ret is bu[0].ret, "write(%s): the built frame must be returned" % var, w.where(p), (p,))
            if not ok:
                continue
            for i, f in enumerate(hdr):
                c.check(same(new[0].args[i], e0("self.%s.%s" % (var, f)), p.facts), "write(%s): header field %s" % (var, f), new[0].loc, (p, new[0].args[i]))
            Ls = w.loops_before(p)
            if not c.check(len(Ls) == 1, "write(%s): one loop over the %s" % (var, seq), w.where(p), (p,)):
                continue
            L = Ls[0]
            N_ = e0("len(self.%s.%s)" % (var, seq))
            cnt = [s for s, _ in w.counters(L, I(0))]
            at_end = [s for s in cnt if p.facts.prove(cmp_le(N_, s))]
            c.check(bool(at_end), "write(%s): the loop must run to the last of the %s" % (var, seq), w.where(p), (p,))
            for q in w.loop_backs(L):
                ad = [e for e in w.seg(q) if e.kind == "call" and e.name.endswith(bld + "::add")]
                if not c.check(len(ad) == 1, "write(%s): every element is added exactly once" % var, w.where(q), (q,)):
                    continue
                eq_ = w.at(w.st0, q.facts)
                okk = False
                for s in cnt:
                    x = eq_.index(eq_.term("self.%s.%s" % (var, seq)), N(s))
                    y = w.env(St(ad[0].mem, q.facts, None)).settle(N(ad[0].args[1], None))
                    okk = okk or agree(w, eq_, y.v, x, q.facts)
                c.check(okk, "write(%s): the element added must be the next of the %s" % (var, seq), ad[0].loc, (q, ad[0].args[1]))
            for e in p.events():
                if e.kind == "call" and e.name.endswith(bld + "::add"):
                    c.check(False, "write(%s): nothing is added outside the loop" % var, e.loc, (p,))
        c.check(n > 0, "write(%s): no path" % var)


def agree(a, env, v, x, facts):
    """is the value v (an aggregate, possibly holding references) the same record as x, field by field?"""
    if v.op != "agg":
        return same(v, env.settle(x).v, facts)
    for n, y in zip(v.a[2], v.a[3]):
        if y.op == "ref":
            y = a.ip.read(St(env.st.mem, facts, None), y.a[0], y.a[1])
        if not same(y, env.settle(env.field(x, n)).v, facts):
            return False
    return True


def split_tail(ip, v, base):
    """the segments appended to base in v (elements or sequences, in order), or None"""
    out = []
    while v is not base:
        if v.op == "pushb":
            out.append(mk("arr", v.a[1]))
            v = v.a[0]
        elif v.op == "cat":
            out.append(v.a[1])
            v = v.a[0]
        else:
            return None
    return out[::-1]


def join(segs, rest):
    r = rest
    for s in reversed(segs):
        r = mk("cat", s, r)
    return r


def builder(c, bld, var):
    """model of a frame builder: header bytes, appended segments per add path, final bytes"""
    new = c.fn(bld + "::new", None, BC)
    ad = c.fn(bld + "::add", ["self", "datagram"], BC)
    bu = c.fn(bld + "::build", ["self"], BC)
    who = bld.split("::")[-1]
    if not c.check(len(new.returns) == 1, "%s::new: one path" % who):
        return None
    r0 = new.returns[0].ret
    e = new.env(St({}, new.returns[0].facts, None))
    n = new.retn(new.returns[0])
    hdr, cnt = e.field(n, "buffer").v, e.field(n, "count").v
    ln = new.ip.length(hdr)
    c.check(ln.op == "int" and cnt is I(0), "%s::new: a header of fixed length and no elements" % who, new.where(new.returns[0]), (new.returns[0], r0))
    head = [new.ip.elem(hdr, I(i), None) for i in range(ln.a[0])]
    adds = []
    for p in ad.returns:
        e0, e1 = ad.at(ad.st0, p.facts), ad.at(p.st, p.facts)
        b = e0("self.buffer")
        segs = split_tail(ad.ip, e1("self.buffer"), b)
        c.check(segs is not None, "%s::add: existing bytes must stay, the element is appended" % who, ad.where(p), (p, e1("self.buffer")))
        c.check(same(e1("self.count"), add(e0("self.count"), I(1)), p.facts), "%s::add: the count grows by one" % who, ad.where(p), (p, e1("self.count")))
        if segs is not None:
            adds.append((p, segs))
    return new, ad, bu, hdr, head, adds


def wire_size(ip, segs):
    n = I(0)
    for s in segs:
        n = add(n, ip.length(s))
    return n


def compose(c, bld, var, seq, hdrnames, hdrfields, readable):
    m = builder(c, bld, var)
    if m is None:
        return
    new, ad, bu, hdr, head, adds = m
    who = bld.split("::")[-1]
    r, inp = reader(c)
    hp = new.returns[0]
    # elements of one size: the buffer holds the header and that many bytes per element
    sizes = {wire_size(ad.ip, segs) for _, segs in adds}
    each = next(iter(sizes)).a[0] if len(sizes) == 1 and next(iter(sizes)).op == "int" and len(adds) == len(ad.returns) else None
    # ---- the whole frame: header and trailer
    for p in bu.returns:
        e0 = bu.at(bu.st0, p.facts)
        buf, cnt = e0("self.buffer"), e0("self.count")
        cr = [e for e in crcs(p) if e.ret in subterms(p.ret)]
        if not c.check(len(cr) == 1, "%s::build: exactly one checksum must be appended" % who, bu.where(p), (p,)):
            continue
        wc = content(bu, cr[0])
        n = add(bu.ip.length(buf), I(4))
        c.check(same(bu.ip.length(p.ret), n, p.facts), "%s::build: four bytes of checksum are appended" % who, bu.where(p), (p,))
        pre = bu.ip.mkslice(p.ret, I(0), bu.ip.length(buf), p.facts)
        c.check(pre is wc or same(pre, wc, p.facts), "%s::build: the checksum must cover everything before it" % who, cr[0].loc, (p, wc))
        base = p.facts.plus(*hp.facts.items).plus(ge0(sub(bu.ip.length(buf), I(len(head)))))
        if each:
            base = base.plus(eq0(sub(bu.ip.length(buf), add(I(len(head)), cnt, each))), cmp_le(cnt, I(65535)))
        loops = set()
        hit = 0
        for q in r.returns + r.backs:
            B = Bits(r.ip, base, {inp: p.ret}, {buf: head})
            crcsub(c, r, q, B, wc, cr[0].ret, who)
            # conditions on the frame as a whole: those established in front of the loop over the elements
            L = [e.x for e in q.events() if e.kind == "loop"]
            pre_items = L[0].hst.facts.items if L else q.facts.items
            own = [x for x in pre_items if not any(y in L[0].syms.values() for y in subterms(x))] if L else pre_items
            fx = feasible(B, own, base)
            if fx is None:
                continue
            if not L:
                # accepted or rejected without looking at the elements
                c.check(False, "%s: the reader must not decide about the frame before reading its elements" % who, r.where(q), (q, q.ret))
                continue
            hit += 1
            loops.add(L[0])
            if q.kind == "return" and variant_of(q.ret) is not None:
                f = q.ret.a[3][0]
                c.check(f.a[1] == var, "%s: a %s must be read as one" % (who, var), r.where(q), (q, q.ret))
                rec = f.a[3][0]
                if rec.op == "agg" and f.a[1] == var:
                    for fn_, hn in hdrfields:
                        g = rec.a[3][rec.a[2].index(fn_)]
                        h = new.env0.names[hn]
                        isb = c.p.types[h.tid]["k"] == "bool"
                        x, y = (B.boolbit(g), B.boolbit(h.v)) if isb else (B.sub(g), h.v)
                        c.check(x == y and x is not None if isb else same(x, y, base), "%s: field %s must survive serialisation" % (who, fn_), r.where(q), (q, B.sub(g)))
        c.check(hit > 0 and len(loops) == 1, "%s: the reader must take the frame" % who, bu.where(p), (p,))
        for L in loops:
            elements(c, r, L, inp, who, var, seq, bu, p, buf, cnt, head, base, wc, cr[0].ret, ad, adds, readable, each)


def elements(c, r, L, inp, who, var, seq, bu, bp, buf, cnt, head, base, wc, wret, ad, adds, readable, each):
    """the loop of the reader over the elements, run against the builder's add paths"""
    ip = r.ip
    H = len(head)
    # cursor: a reference to the rest of the frame
    cur = [(s, e) for s, e in L.entry.items() if e is not None and e.op == "ref"]
    # or a position in the frame (or in what follows its first bytes)
    steps = [s for d in (1, -1) for s, e in r.counters(L, None, d)]
    pos = [(s, H - e.a[0]) for s, e in L.entry.items() if e is not None and e.op == "int" and 0 <= e.a[0] <= H and s not in steps]
    pos += [(s, 0) for s, e in L.entry.items() if e is not None and e.op not in ("int", "ref", "agg", "bool", "vempty") and same(e, I(H), L.pre.facts)]
    out = [(s, e) for s, e in L.entry.items() if e is not None and e.op == "vempty"]
    idx = [s for s, e in r.counters(L, I(0))]
    stride = not cur and not pos and each and idx        # the element's place is computed from its number
    if not c.check((len(cur) + len(pos) >= 1 or stride) and len(out) == 1, "%s: the reader must walk over the frame's elements and collect them" % who, L.loc):
        return
    cont = {}
    for s, e in cur:
        v = ip.read(St(L.pre.mem, L.pre.facts, None), e.a[0], e.a[1])
        B = Bits(ip, base, {inp: bp.ret}, {buf: head})
        got = B.sub(v)
        want = ip.mkslice(bp.ret, I(H), ip.length(buf), base)
        c.check(seqsame(ip, got, want, base), "%s: the reader must start right behind the header and stop at the checksum" % who, L.loc, (None, got, want))
        root, path = ip.deref(s)
        cont[ip.read(L.hst, root, path)] = s
    vec = out[0][0]
    # the number of elements the reader expects
    down = [(s, e) for s, e in r.counters(L, None, -1) if e.op != "int"]
    segp = [q for q in r.returns + r.backs if any(e.kind == "loop" and e.x is L for e in q.events())]
    k = sym("elements_read", (0, None))
    rest = sym("rest_of_frame")
    premap = sym("frame_before")
    if stride:
        premap = mk("slice", premap, I(0), add(I(H), k, each))

    def run(facts, contents, more, dg=None):
        hits = []
        for q in segp:
            mm = {inp: bp.ret}
            for ct in cont:
                mm[ct] = contents
            for s in idx:
                mm[s] = k
            fx = facts
            if pos or stride:
                whole = mk("cat", premap, mk("cat", contents, mk("arr", *[sym("crc%d" % i, (0, 255)) for i in range(4)])))
                mm[inp] = whole
                h0 = Bits(ip, base, {inp: bp.ret}, {buf: head})
                for i in range(H):
                    el = ip.elem(inp, I(i), fx, (0, 255))
                    mm[el] = h0.sub(el)
                for s, d in pos:
                    mm[s] = add(mk("len", premap), I(-d))
            mm[ip.length(vec)] = k                # one element collected per turn (checked below)
            B = Bits(ip, fx, mm, {buf: head})
            for s, e in down:
                B.m[s] = sub(B.sub(e), k)
            for e in crcs(q):
                B.m[e.ret] = wret
            items = q.facts.items[len(L.hst.facts.items):]
            f2 = feasible(B, items, fx)
            if f2 is not None:
                hits.append((q, B, f2))
        return hits
    bn = bu.at(bu.st0, base)("self.count")
    # ---- at the end: nothing left, all elements read
    fend = base.plus(eq0(sub(k, bn)))
    hits = run(fend, mk("vempty"), False)
    for q, B, f2 in hits:
        ok = q.kind == "return" and variant_of(q.ret) == var
        c.check(ok, "%s: with all elements read and nothing left the frame must be accepted" % who, r.where(q), (q, q.ret))
        if ok:
            rec = q.ret.a[3][0].a[3][0]
            c.check(rec.a[3][rec.a[2].index(seq)] is vec, "%s: the collected elements must be returned" % who, r.where(q), (q, rec))
    c.check(len(hits) > 0, "%s: no path accepts the complete frame" % who, L.loc)
    # ---- one element
    for p, segs in adds:
        e0 = ad.at(ad.st0, p.facts)
        fx = base.plus(*p.facts.items).plus(cmp_lt(k, bn))
        for g in readable:
            fx = fx.plus(e0(g))
        if fx.inconsistent():
            continue
        size = wire_size(ad.ip, segs)
        hits = run(fx, join(segs, rest), True)
        if not c.check(len(hits) > 0, "%s: an element written by add is not read" % who, ad.where(p), (p,)):
            continue
        d = e0.settle(e0.names["datagram"])
        for q, B, f2 in hits:
            if not c.check(q.kind == "back", "%s: an element written by add must be accepted" % who, r.where(q), (q, q.ret)):
                continue
            nv = r.sval(L, vec, q.st)
            if not c.check(nv is not None and nv.op == "pushb" and nv.a[0] is vec, "%s: each element read is collected once" % who, r.where(q), (q, nv)):
                continue
            got = nv.a[1]
            t = c.p.types[c.p.peel(d.tid)]
            for n, ft in t["variants"][0]["fields"]:
                g = B.sub(got.a[3][got.a[2].index(n)])
                wv = e0.settle(e0.field(d, n))
                if c.p.types[c.p.peel(ft)]["k"] == "bool":
                    x, y = B.boolbit(g), B.boolbit(wv.v)
                    ok = x is not None and x == y
                else:
                    ok = same(g, wv.v, fx) or same(g, B.sub(wv.v), fx)
                c.check(ok, "%s: field %s of an element must survive serialisation" % (who, n), r.where(q), (q, g, wv.v))
            for s, _ in cur:
                nc = r.sval(L, s, q.st)
                rr = B.sub(ip.read(q.st, nc.a[0], nc.a[1]))
                c.check(rr is rest or seqsame(ip, rr, rest, fx), "%s: after an element the reader must continue with the next one" % who, r.where(q), (q, rr))
            for s, d in pos:
                np_ = B.sub(r.sval(L, s, q.st))
                c.check(same(np_, add(add(mk("len", premap), size), I(-d)), fx), "%s: after an element the reader must continue with the next one" % who, r.where(q), (q, np_))


@rule("codec.data", "C16 C01 C04 C02", "parsing a built data frame yields the same header and datagrams, for all three datagram encodings and every field value")
def _(c):
    compose(c, DB, "DataFrame", "datagrams", None, [("sequence_id", "sequence_id"), ("nonce", "nonce")], REPR_DG)


@rule("codec.ack", "C16 C15 C02", "parsing a built acknowledgement frame yields the same header and groups")
def _(c):
    compose(c, AB, "AckFrame", "frame_acks", None, [("frame_window_base_id", "frame_window_base_id"), ("packet_window_base_id", "packet_window_base_id")], [])


@rule("codec.reject", "C16 C18 C07", "only a byte string that is exactly one well-formed frame is accepted: exact length, known type and enumeration values, matching CRC, nothing left over; no input panics")
def _(c):
    r, inp = reader(c)
    w, ws = plain_writers(c)
    ip = r.ip
    for p in r.panics:
        c.check(False, "read: no input may panic (%s)" % p.msg, r.where(p), (p,))
    n = ip.length(inp)
    for q in r.returns:
        if q.ret.op == "agg" and q.ret.a[1] == "None":
            c.obl += 1
            continue
        v = variant_of(q.ret)
        if not c.check(v is not None, "read: the result must be a frame or nothing", r.where(q), (q, q.ret)):
            continue
        fx = q.facts
        who = "read(%s)" % v
        # the checksum: computed over everything but the last four bytes, equal to those
        cr = [e for e in crcs(q)]
        okc = False
        for e in cr:
            x = content(r, e)
            want = ip.mkslice(inp, I(0), sub(n, I(4)), fx)
            if not seqsame(ip, x, want, fx):
                continue
            # the value the stored bytes must have: any one-to-one arrangement of the last four bytes
            for y in fx.items:
                if y.op == "eq" and e.ret in [t for t, _ in lin_parts(y.a[0])[1]]:
                    c0, items = lin_parts(y.a[0])
                    k = dict(items)[e.ret]
                    rest = mk_lin(-c0 * k, [(t, -kk * k) for t, kk in items if t is not e.ret])
                    bs = Bits(ip, fx).bits(rest)[:32]
                    src = set()
                    for b in bs:
                        if b is not None and len(b[0]) == 1 and not b[1]:
                            src |= b[0]
                    lastf = {(ip.elem(inp, sub(n, I(i)), fx, (0, 255)), j) for i in (1, 2, 3, 4) for j in range(8)}
                    okc = okc or abs(k) == 1 and src == lastf
        c.check(okc, "%s: accepted only if the CRC over everything before the last four bytes equals those four bytes" % who, r.where(q), (q,))
        first = ip.elem(inp, I(0), fx, (0, 255))
        cand = [x for x in ws if x[3] == [v]]
        if cand:
            c.check(any(fx.prove(cmp_eq(n, x[2])) for x in cand), "%s: the length must be exactly that of the frame" % who, r.where(q), (q,))
            ids = {ip.elem(x[1], I(0), fx) for x in cand}
            c.check(len(ids) == 1 and fx.prove(cmp_eq(first, next(iter(ids)))), "%s: the type byte must be that of the frame" % who, r.where(q), (q,))
            if len(cand) > 1 and v == "HandshakeErrorFrame":
                # enumeration values: a byte that tells the writer's layouts apart must have one of the written values
                m = min(x[2].a[0] for x in cand)
                for i in range(1, m - 4):
                    bsx = [ip.elem(x[1], I(i), fx) for x in cand]
                    if all(b.op == "int" for b in bsx) and len(set(bsx)) > 1:
                        e = ip.elem(inp, I(i), fx, (0, 255))
                        c.check(any(fx.prove(cmp_eq(e, b)) for b in set(bsx)), "%s: a byte of unknown meaning must be rejected" % who, r.where(q), (q, e))
        else:
            hd = c.fn((DB if v == "DataFrame" else AB) + "::new", None, BC).returns[0].ret
            e = Env(ip, St({}, fx, None), {}, None)
            b0 = ip.elem(hd.a[3][hd.a[2].index("buffer")], I(0), fx)
            c.check(fx.prove(cmp_eq(first, b0)), "%s: the type byte must be that of the frame" % who, r.where(q), (q,))
            Ls = r.loops_before(q)
            if not c.check(len(Ls) == 1, "%s: the elements must be read in one loop" % who, r.where(q), (q,)):
                continue
            L = Ls[0]
            left = []
            for s, en in L.entry.items():
                if en is not None and en.op == "ref":
                    root, path = ip.deref(s)
                    left.append(eq0(ip.length(ip.read(L.hst, root, path))))
                elif en is not None and en.op == "int":
                    hl = ip.length(hd.a[3][hd.a[2].index("buffer")])
                    left += [cmp_eq(s, sub(n, I(4))), cmp_eq(add(s, sub(hl, en)), sub(n, I(4)))]
            ad = c.fn((DB if v == "DataFrame" else AB) + "::add", ["self", "datagram"], BC)
            grow = {sub(ad.ip.length(ad.at(p.st, p.facts)("self.buffer")), ad.ip.length(ad.at(ad.st0, p.facts)("self.buffer"))) for p in ad.returns}
            if len(grow) == 1 and next(iter(grow)).op == "int":
                hl = ip.length(hd.a[3][hd.a[2].index("buffer")])
                left += [cmp_eq(sub(n, I(4)), add(hl, s, next(iter(grow)).a[0])) for s, _ in r.counters(L, I(0))]
            c.check(any(fx.prove(g) for g in left), "%s: accepted only if no byte is left over" % who, r.where(q), (q,))
            # the number of elements: bits of the header
            cnt = [s for s, _ in r.counters(L, I(0))]
            okn = False

            def header(num):
                ts = set()
                for b in Bits(ip, fx).bits(num):
                    ts |= {t for t, _ in (b or (frozenset(),))[0]} if b is not None else {None}
                return ts and all(t is not None and t.op == "elem" and t.a[0] is inp for t in ts)
            for s, en in r.counters(L, None, -1):
                okn = okn or header(en) and fx.prove(eq0(s))
            vec = [z for z, y in L.entry.items() if y is not None and y.op == "vempty"]
            cnt += [ip.length(z) for z in vec]
            for s in cnt:
                for y in fx.items[len(L.hst.facts.items):]:
                    if y.op == "ge" and dict(lin_parts(y.a[0])[1]).get(s) == 1:
                        num = add(s, y.a[0], -1)          # s >= num
                        if header(num):
                            okn = okn or L.hst.facts.prove(cmp_le(s, num)) or all(b.facts.prove(cmp_lt(s, num)) for b in r.loop_backs(L))
            if len(grow) == 1 and next(iter(grow)).op == "int" and not okn:
                # elements of one size, and the header's number fits what is left exactly
                g = next(iter(grow)).a[0]
                body = sub(sub(n, I(4)), ip.length(hd.a[3][hd.a[2].index("buffer")]))
                for y in fx.items if r.counters(L, None, g) else ():
                    k = dict(lin_parts(y.a[0])[1]).get(n) if y.op == "eq" else None
                    if k in (1, -1):
                        k0, its = lin_parts(add(body, y.a[0], -k))
                        if k0 % g == 0 and all(j % g == 0 for _, j in its):
                            okn = okn or header(mk_lin(k0 // g, [(x, j // g) for x, j in its]))
            c.check(okn, "%s: the number of elements must be the one the header states" % who, r.where(q), (q,))
            for b in r.loop_backs(L):
                for s, en in L.entry.items():
                    if en is not None and en.op == "ref":
                        nc = r.sval(L, s, b.st)
                        root, path = ip.deref(s)
                        old = ip.read(L.hst, root, path)
                        got = ip.read(b.st, nc.a[0], nc.a[1])
                        lo, hi = (got.a[1], got.a[2]) if got.op == "slice" and got.a[0] is old else (None, None)
                        c.check(lo is not None and same(hi, ip.length(old), b.facts) and b.facts.prove(cmp_le(I(1), lo)),
                                "%s: reading an element must consume its bytes from the front" % who, r.where(b), (b, got))
                        dv = [x for x in subterms(r.sval(L, [z for z, y in L.entry.items() if y is not None and y.op == "vempty"][0], b.st)) if x.op == "slice" and x.a[0] is old]
                        for x in dv:
                            c.check(lo is not None and same(x.a[2], lo, b.facts), "%s: an element's data must be the last of its bytes" % who, r.where(b), (b, x))


@rule("codec.panic", "C16 C03", "writing a representable frame never panics")
def _(c):
    ad = c.fn(DB + "::add", ["self", "datagram"], BC)
    for p in ad.panics:
        e0 = ad.at(ad.st0, p.facts)
        fx = p.facts.plus(*[e0(g) for g in REPR_DG + ["self.count < 127"]])
        c.check(fx.inconsistent() or fx.prove(FALSE), "DataFrameBuilder::add: a representable datagram must not panic (%s)" % p.msg, ad.where(p), (p,))
    bu = c.fn(DB + "::build", ["self"], BC)
    for p in bu.panics:
        e0 = bu.at(bu.st0, p.facts)
        fx = p.facts.plus(e0("self.count <= 127"), e0("len(self.buffer) >= 6"))
        c.check(fx.inconsistent() or fx.prove(FALSE), "DataFrameBuilder::build: must not panic (%s)" % p.msg, bu.where(p), (p,))
    aa = c.fn(AB + "::add", ["self", "datagram"], BC)
    for p in aa.panics:
        e0 = aa.at(aa.st0, p.facts)
        fx = p.facts.plus(e0("self.count < 65535"))
        c.check(fx.inconsistent() or fx.prove(FALSE), "AckFrameBuilder::add: must not panic (%s)" % p.msg, aa.where(p), (p,))
    ab = c.fn(AB + "::build", ["self"], BC)
    for p in ab.panics:
        e0 = ab.at(ab.st0, p.facts)
        fx = p.facts.plus(e0("len(self.buffer) >= 11"))
        c.check(fx.inconsistent() or fx.prove(FALSE), "AckFrameBuilder::build: must not panic (%s)" % p.msg, ab.where(p), (p,))
    w = c.fn(FR + "write", ["self"], BW)
    c.obl += 1
    for p in w.panics:
        c.check(False, "write: must not panic (%s)" % p.msg, w.where(p), (p,))


@rule("codec.size", "C16 C13 C05 C15", "the builders state exactly the bytes they will have produced")
def _(c):
    for bld in (DB, AB):
        who = bld.split("::")[-1]
        ad = c.fn(bld + "::add", ["self", "datagram"], BC)
        en = c.fn(bld + "::encoded_size", ["datagram"], BC)
        n = 0
        for p in ad.returns:
            e0, e1 = ad.at(ad.st0, p.facts), ad.at(p.st, p.facts)
            d = sub(ad.ip.length(e1("self.buffer")), ad.ip.length(e0("self.buffer")))
            for q in en.returns:
                fx = p.facts.plus(*q.facts.items)
                if fx.inconsistent():
                    continue
                n += 1
                c.check(same(q.ret, d, fx), "%s::encoded_size must be the number of bytes add appends" % who, en.where(q), (q, q.ret, d))
        c.check(n > 0, "%s::encoded_size" % who)
        for q in en.panics:
            c.check(False, "%s::encoded_size must not panic" % who, en.where(q), (q,))
        bu = c.fn(bld + "::build", ["self"], BC)
        sz = c.fn(bld + "::size", ["self"], BC)
        for p in bu.returns:
            e0 = bu.at(bu.st0, p.facts)
            for q in sz.returns:
                b2 = sz.at(sz.st0, q.facts)
                k = sub(q.ret, sz.ip.length(b2("self.buffer")))
                c.check(same(sub(bu.ip.length(p.ret), bu.ip.length(e0("self.buffer"))), k, p.facts), "%s::size must be the length of the finished frame" % who, sz.where(q), (q, q.ret))
    cn = c.fn(DB + "::count", ["self"], BC)
    for q in cn.returns:
        c.check(same(q.ret, cn.at(cn.st0, q.facts)("self.count"), q.facts), "DataFrameBuilder::count is the number of datagrams added", cn.where(q), (q, q.ret))


def apply_bits(form, val):
    """value (int) of a list of affine bits under an assignment source -> 0/1"""
    v = 0
    for i, b in enumerate(form):
        x = b[1]
        for s in b[0]:
            x ^= val(s)
        v |= x << i
    return v


@rule("codec.crc", "C16", "the CRC detects every pattern of one to four flipped bits in a frame of up to 1472 bytes")
def _(c):
    a = c.fn(CRC, ["data"])
    ip = a.ip
    if not c.check(len(a.returns) == 1 and not a.panics, "crc::compute: a single result", "%s:%s" % (a.f.file, a.f.line)):
        return
    p = a.returns[0]
    Ls = a.loops_before(p)
    if not c.check(len(Ls) == 1, "crc::compute: one pass over the data", a.where(p), (p,)):
        return
    L = Ls[0]
    inp = a.env0.settle(a.env0.names["data"]).v
    n = ip.length(inp)
    idx = [s for s, _ in a.counters(L, I(0)) if p.facts.prove(cmp_le(n, s))]
    reg = [s for s in L.syms.values() if s not in [x for x, _ in a.counters(L)] and L.entry.get(s) is not None and L.entry[s].op == "int"]
    if not c.check(len(idx) >= 1 and len(reg) == 1, "crc::compute: a register updated once for every byte, first to last", L.loc, (p,)):
        return
    reg = reg[0]
    backs = a.loop_backs(L)
    if not c.check(len(backs) == 1, "crc::compute: the same step for every byte", L.loc):
        return
    b = backs[0]
    c.check(b.facts.prove(cmp_lt(idx[0], n)), "crc::compute: only bytes of the data", L.loc)
    byte = ip.elem(inp, idx[0], b.facts, (0, 255))
    B = Bits(ip, b.facts)
    nx = B.bits(a.sval(L, reg, b.st))[:32]
    out = Bits(ip, p.facts).bits(p.ret)[:32]
    ok = all(x is not None for x in nx + out) and all(s[0] in (reg, byte) for x in nx for s in x[0]) and all(s[0] is reg for x in out for s in x[0])
    if not c.check(ok, "crc::compute: register and result must be an affine function of register and byte", L.loc, (b, a.sval(L, reg, b.st))):
        return
    # linear parts
    M = [sum(1 << i for i in range(32) if (reg, j) in nx[i][0]) for j in range(32)]      # column j
    Bc = [sum(1 << i for i in range(32) if (byte, j) in nx[i][0]) for j in range(8)]
    O = [sum(1 << i for i in range(32) if (reg, j) in out[i][0]) for j in range(32)]

    def ap(cols, v):
        r_ = 0
        j = 0
        while v:
            if v & 1:
                r_ ^= cols[j]
            v >>= 1
            j += 1
        return r_
    # syndromes of single flipped bits: data bytes from the last to the first, then the stored checksum
    syn = []
    cur = list(Bc)
    for d in range(MAXF - 4):
        syn += [ap(O, x) for x in cur]
        cur = [ap(M, x) for x in cur]
    syn += [1 << i for i in range(32)]
    c.obl += 2 * len(syn)
    S = set(syn)
    c.check(0 not in S, "crc: a single flipped bit must change the checksum", L.loc)
    if not c.check(len(S) == len(syn), "crc: two flipped bits must not cancel out", L.loc):
        return
    # order the syndromes as powers of one invertible map x -> x*z, so that patterns can be shifted to start at the first
    s0 = 1 << 31
    pol = ap(O, Bc[7])

    def step(v):
        return (v >> 1) ^ (pol if v & 1 else 0)
    chain = [s0]
    while len(chain) < len(syn):
        chain.append(step(chain[-1]))
    lfsr = set(chain) == S and len(set(chain)) == len(chain) and pol >> 31 & 1
    if not c.check(lfsr, "crc: the checksum must be the remainder of a division by one polynomial, stored bit by bit", L.loc):
        return
    # three: 1 + z^b + z^c = 0; four: 1 + z^b = z^c + z^d
    one = chain[0]
    S1 = {one ^ v for v in chain[1:]}
    c.check(S1.isdisjoint(chain[1:]), "crc: three flipped bits must not cancel out", L.loc)
    bad = False
    for i in range(1, len(chain)):
        v = chain[i]
        c.obl += 1
        if not S1.isdisjoint([v ^ x for x in chain[i + 1:]]):
            bad = True
            break
    c.check(not bad, "crc: four flipped bits must not cancel out", L.loc)
