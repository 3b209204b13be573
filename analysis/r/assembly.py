"""AssemblyWindow / FragmentBuffer: reassembly of packets and the receive memory account."""
from ..rules import *
from .receiver import anyidx

AW = "half_connection::packet_receiver::assembly_window::AssemblyWindow"
FB = "half_connection::packet_receiver::assembly_window::fragment_buffer::FragmentBuffer"
BF = frozenset([FB + x for x in ("::new", "::write", "::is_finished", "::finalize")])

SLOT = "self.window[idx]"
SIZE = "((datagram.fragment_id_last + 1) * 1448 if datagram.fragment_id_last != 0 else len(datagram.data))"
FITS = "(self.alloc + %s <= self.max_alloc)" % SIZE
MATCH = ("(datagram.channel_id == {0}.channel_id and datagram.window_parent_lead == {0}.window_parent_lead and datagram.channel_parent_lead == {0}.channel_parent_lead "
         "and datagram.fragment_id_last == {0}.last_fragment_id)").format(SLOT + ".Active")


@rule("aw.new", "C06 C01 C04", "a fresh assembly window has 4096 open slots, nothing allocated, and the given limit rounded up to a whole fragment")
def _(c):
    a = c.fn(AW + "::new", ["max_alloc"], BF)
    a.cases("max_alloc <= 4611686018427387904", holds=["len(ret.window) == 4096", "ret.alloc == 0", "ret.max_alloc >= max_alloc", "ret.max_alloc <= max_alloc + 1447", "ret.max_alloc == (max_alloc + 1447) // 1448 * 1448"])
    for p in a.returns:
        f = a.at(p.st, p.facts, ret=a.retn(p), **anyidx(c))
        c.check(p.facts.prove(f("isv(ret.window[t], 'Open')")), "AssemblyWindow::new: every slot must be open", a.where(p), (p,))


def slot_others(c, a, p):
    e, f = a.at(a.st0, p.facts, **anyidx(c)), a.at(p.st, p.facts, **anyidx(c))
    w, b = f("self.window"), e("self.window")
    z = w
    while z.op == "store" and same(z.a[1], e("idx"), p.facts):
        z = z.a[0]
    c.check(z is b, "%s: no other slot may change" % a.short(), a.where(p), (p, w))


def alloc_of(x):
    return "(0 if isv({0}, 'Open') else {0}.Closed if isv({0}, 'Closed') else {0}.Active.alloc_size)".format(x)


@rule("aw.add", "C01 C04 C06 C03 C02 C05", "the first fragment of a packet reserves its (fragment-rounded) size or closes the slot with nothing reserved when that exceeds the limit; only fragments whose "
      "header agrees with the first enter the buffer; the packet is produced once, when the buffer is complete, with its own bytes; a closed slot ignores everything")
def _(c):
    a = c.fn(AW + "::try_add", ["self", "idx", "datagram"], BF)
    ws = lambda p: [e for e in p.events() if is_call(FB + "::write")(e)]
    fin = lambda p: [e for e in p.events() if is_call(FB + "::is_finished")(e)]
    done = 0
    dg = {"channel_id": "channel_id", "sequence_id": "sequence_id", "window_parent_lead": "window_parent_lead", "channel_parent_lead": "channel_parent_lead"}
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts, ret=a.retn(p))
        slot_others(c, a, p)
        c.check(same(f("self.max_alloc"), e("self.max_alloc"), p.facts), "try_add: the memory limit must stay", a.where(p), (p,))
        # the account: what the slot holds and the total change together
        d = sub(f(alloc_of(SLOT)), e(alloc_of(SLOT)))
        t = sub(f("self.alloc"), e("self.alloc"))
        c.check(same(d, t, p.facts), "try_add: the memory account must change by exactly what the slot reserves", a.where(p), (p, d, t))
        c.check(p.facts.prove(f("self.alloc <= old(self.alloc)")) or p.facts.prove(f("self.alloc <= self.max_alloc")), "try_add: memory may be reserved only within the limit", a.where(p), (p,))
        out = p.facts.prove(f("is_some(ret)"))
        if not c.check(out or p.facts.prove(f("is_none(ret)")), "try_add: whether a packet is produced must be decided", a.where(p), (p,)):
            continue
        if out:
            c.check(p.facts.prove(f("isv(%s, 'Closed')" % SLOT)), "try_add: a produced packet's slot must be closed", a.where(p), (p,))
            for k, v in dg.items():
                c.check(same(f("ret.Some." + k), e("datagram." + v), p.facts), "try_add: the packet's %s must be that of its fragments" % k, a.where(p), (p,))
            if not c.check(p.facts.prove(f("is_some(ret.Some.data)")) or p.facts.prove(f("is_none(ret.Some.data)")), "try_add: whether the packet has data must be decided", a.where(p), (p,)):
                continue
        data = out and p.facts.prove(f("is_some(ret.Some.data)"))
        fx = p.facts
        kind = [k for k in ("Open", "Closed", "Active") if not fx.refute(e("isv(%s, '%s')" % (SLOT, k)))]
        for k in kind:
            fk = fx.plus(e("isv(%s, '%s')" % (SLOT, k)))
            ek, gk = a.at(a.st0, fk), a.at(p.st, fk, ret=a.retn(p))
            if k == "Closed":
                c.check(not out and same(gk("self"), ek("self"), fk), "try_add: a closed slot must ignore every fragment", a.where(p), (p,))
            elif k == "Open":
                fits = ek(FITS)
                single = ek("datagram.fragment_id_last == 0")
                if not fk.refute(bnot(fits)):
                    c.check(out and not data and not ws(p) if fk.refute(fits) else False, "try_add: a packet beyond the memory limit must be closed without data", a.where(p), (p, fits))
                    continue
                if not fk.refute(single):
                    c.check(data and same(gk("raw(ret.Some.data.Some)"), ek("raw(datagram.data)"), fk) and fk.prove(single), "try_add: a single-fragment packet must be produced at once with its bytes", a.where(p), (p,))
                    continue
                new = [x for x in p.events() if is_call(FB + "::new")(x)]
                w = ws(p)
                good = not out and len(new) == 1 and len(w) == 1 and same(new[0].args[0], ek("datagram.fragment_id_last + 1"), fk) and fk.prove(gk("isv(%s, 'Active')" % SLOT))
                if c.check(good, "try_add: the first fragment of a packet must open a buffer for all its fragments and enter it", a.where(p), (p,)):
                    c.check(same(w[0].args[1], ek("datagram.fragment_id"), fk) and same(w[0].args[2], ek("raw(datagram.data)"), fk), "try_add: the fragment's own bytes must be written at its own position", w[0].loc, (p,))
                    for x, y in (("channel_id", "channel_id"), ("window_parent_lead", "window_parent_lead"), ("channel_parent_lead", "channel_parent_lead"), ("last_fragment_id", "fragment_id_last")):
                        c.check(same(gk("%s.Active.%s" % (SLOT, x)), ek("datagram." + y), fk), "try_add: the slot must record the first fragment's %s" % y, a.where(p), (p,))
                c.check(same(sub(gk("self.alloc"), ek("self.alloc")), ek("(datagram.fragment_id_last + 1) * 1448"), fk), "try_add: a packet of several fragments must reserve all of them", a.where(p), (p,))
            else:
                m = ek(MATCH)
                w = ws(p)
                if not fk.refute(bnot(m)):
                    c.check(not out and not w and same(gk("self"), ek("self"), fk) and fk.refute(m), "try_add: a fragment whose header disagrees with the first one must change nothing", a.where(p), (p, m))
                    continue
                if not c.check(len(w) == 1 and same(w[0].args[1], ek("datagram.fragment_id"), fk) and same(w[0].args[2], ek("raw(datagram.data)"), fk) and is_asm(a, w[0].args[0], ek),
                               "try_add: a matching fragment's bytes must be written to its packet's buffer at its own position", a.where(p), (p,)):
                    continue
                q = fin(p)
                if not c.check(len(q) >= 1 and p.events().index(q[-1]) > p.events().index(w[0]) and is_asm(a, q[-1].args[0], ek), "try_add: completion must be judged after the fragment is written", a.where(p), (p,)):
                    continue
                r = q[-1].ret
                if fk.prove(r):
                    done += 1
                    fz = [x for x in p.events() if is_call(FB + "::finalize")(x)]
                    c.check(out and data and len(fz) == 1 and same(gk("raw(ret.Some.data.Some)"), fz[0].ret, fk), "try_add: a complete packet must be produced with the buffer's bytes", a.where(p), (p,))
                else:
                    c.check(fk.refute(r) and not out, "try_add: an incomplete packet must not be produced", a.where(p), (p,))
                    c.check(fk.prove(gk("isv(%s, 'Active')" % SLOT)), "try_add: an incomplete packet must stay in assembly", a.where(p), (p,))
                    for x in ("alloc_size", "channel_id", "window_parent_lead", "channel_parent_lead", "last_fragment_id"):
                        c.check(same(gk("%s.Active.%s" % (SLOT, x)), ek("%s.Active.%s" % (SLOT, x)), fk), "try_add: %s of a packet in assembly must stay" % x, a.where(p), (p,))
    c.check(done > 0, "try_add never completes a packet")


def is_asm(a, r, e):
    return r.op == "ref" and any(x[0] == "f" and x[1] == "asm_buffer" for x in r.a[1]) and any(x[0] == "i" and same(x[1], e("idx"), e.st.facts) for x in r.a[1])


@rule("aw.clear", "C06 C01 C04 C11 C02", "clear opens exactly the given slot and releases exactly what it had reserved")
def _(c):
    a = c.fn(AW + "::clear", ["self", "idx"], BF)
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts)
        slot_others(c, a, p)
        c.check(p.facts.prove(f("isv(%s, 'Open')" % SLOT)), "clear: the slot must be open afterwards", a.where(p), (p,))
        c.check(same(sub(e("self.alloc"), f("self.alloc")), e(alloc_of(SLOT)), p.facts), "clear: exactly the slot's reservation must be released", a.where(p), (p, f("self.alloc")))
        c.check(same(f("self.max_alloc"), e("self.max_alloc"), p.facts), "clear: the memory limit must stay", a.where(p), (p,))


@rule("fb.new", "C04 C06 C01 C03", "a fragment buffer for n fragments has room for n full fragments, one clear flag per fragment, and n fragments missing")
def _(c):
    a = c.fn(FB + "::new", ["num_fragments"])
    a.cases("num_fragments >= 1 and num_fragments <= 65536", holds=["len(ret.buffer) == num_fragments * 1448", "ret.num_fragments == num_fragments", "ret.fragments_remaining == num_fragments",
            "ret.total_size == 0", "len(ret.fragment_bitfields) * 64 >= num_fragments"])
    for p in a.returns:
        f = a.at(p.st, p.facts, ret=a.retn(p), **anyidx(c))
        c.check(p.facts.prove(f("ret.fragment_bitfields[t] == 0")), "FragmentBuffer::new: every fragment must be marked missing", a.where(p), (p,))
    a = c.fn(FB + "::is_finished", ["self"])
    a.cases(ret="self.fragments_remaining == 0", frame=a.fields())


@rule("fb.write", "C04 C01 C06 C03 C05", "a missing fragment's bytes are copied to its own place (1448 bytes per preceding fragment), it is marked present, and the counts follow; a fragment that is already present changes nothing")
def _(c):
    a = c.fn(FB + "::write", ["self", "idx", "data"])
    have = "bit(self.fragment_bitfields[idx // 64], m6(idx))"
    a.cases(have, frame=a.fields())
    n = 0
    for p in a.returns:
        e, f = a.at(a.st0, p.facts, **anyidx(c)), a.at(p.st, p.facts, **anyidx(c))
        if p.facts.prove(e(have)):
            continue
        if not c.check(p.facts.refute(e(have)), "FragmentBuffer::write: whether the fragment is present must be decided", a.where(p), (p,)):
            continue
        n += 1
        fx = p.facts.plus(e("self.fragments_remaining >= 1 and idx < 65536 and len(data) <= 1448 and self.total_size <= 100000000"))
        a.unchanged(p, a.st0, ["self.num_fragments"], "FragmentBuffer::write: %s must stay")
        for pl, w in (("self.fragments_remaining", "self.fragments_remaining - 1"), ("self.total_size", "self.total_size + len(data)"),
                      ("bit(self.fragment_bitfields[w], b)", "True if (w == idx // 64 and b == m6(idx)) else bit(self.fragment_bitfields[w], b)"),
                      ("len(self.buffer)", "len(self.buffer)"), ("len(self.fragment_bitfields)", "len(self.fragment_bitfields)")):
            c.check(same(f(pl), e(w), fx), "FragmentBuffer::write: a missing fragment must leave %s = %s" % (pl, w), a.where(p), (p, f(pl), e(w)))
        g = f("self.buffer")
        good = g.op == "blit" and g.a[0] is e("self.buffer") and same(g.a[1], e("idx * 1448"), fx) and same(g.a[2], e("deref(data)"), fx)
        c.check(good, "FragmentBuffer::write: exactly the fragment's bytes must be copied to its place in the packet", a.where(p), (p, g))
    c.check(n > 0, "FragmentBuffer::write never stores a fragment")


@rule("fb.finalize", "C04 C01 C19", "the finished packet is the buffer cut to the total size of its fragments")
def _(c):
    a = c.fn(FB + "::finalize", ["self"])
    n = 0
    for p in a.returns:
        e, f = a.at(a.st0, p.facts), a.at(p.st, p.facts, ret=a.retn(p))
        w = e("self.buffer[0:self.total_size]")
        r = f("deref(ret)")
        n += 1
        ok = same(r, w, p.facts) or r.op == "trunc" and r.a[0] is e("self.buffer") and same(r.a[1], e("self.total_size"), p.facts)
        c.check(ok, "finalize must return exactly the bytes of all fragments", a.where(p), (p, r, w))
    c.check(n > 0, "finalize never returns")
