"""Heap discipline.  Blocks obtained through Box, Vec, Rc and the collections are released exactly once, with the layout they were
obtained with, by their owners' drop glue: the compiler's ownership rules see to that as long as no unsafe operation interferes, no
value is kept from being dropped and no cycle of reference counts forms.  These rules look at every body of the crate for the
constructs that could break that."""
import re

from ..rules import *
from ..prog import strip_generics

P = "C19"

# calls that take a value out of the care of its owner; nothing returns it by itself
LEAKS = {"std::mem::forget", "std::mem::ManuallyDrop::new", "std::boxed::Box::leak", "std::vec::Vec::leak", "std::string::String::leak",
         "std::cell::Ref::leak", "std::cell::RefMut::leak", "std::sync::Arc::increment_strong_count", "std::rc::Rc::increment_strong_count",
         "std::intrinsics::forget"}
OUT = re.compile(r"^(std|core|alloc)::.*::(into_raw|into_raw_parts|into_non_null|into_parts|into_raw_with_allocator|into_raw_parts_with_alloc|into_raw_fd)$")
IN = re.compile(r"^(std|core|alloc)::.*::(from_raw|from_raw_parts|from_non_null|from_parts|from_raw_in|from_raw_parts_in|from_raw_with_allocator)$")
# operations on raw memory that bypass ownership
RAW = re.compile(r"^(std|core|alloc)::(alloc::(alloc|alloc_zeroed|dealloc|realloc|handle_alloc_error|System.*|Global.*)|"
                 r"ptr::(read|read_unaligned|read_volatile|write|write_unaligned|write_volatile|write_bytes|copy|copy_nonoverlapping|drop_in_place|replace|swap|swap_nonoverlapping)|"
                 r"ptr::(const_ptr|mut_ptr)::.*::(read|write|drop_in_place|replace|swap|copy_to|copy_from|copy_to_nonoverlapping|copy_from_nonoverlapping|write_bytes)|"
                 r"ptr::NonNull::(read|write|drop_in_place|replace|swap)|"
                 r"intrinsics::(copy|copy_nonoverlapping|write_bytes|drop_in_place|transmute.*|read_via_copy|write_via_move|typed_swap.*)|"
                 r"mem::(transmute|transmute_copy|zeroed|uninitialized|ManuallyDrop::(drop|take)|MaybeUninit::(assume_init.*|write|uninit|zeroed))|"
                 r"(rc::Rc|sync::Arc)::(decrement_strong_count|get_mut_unchecked)|vec::Vec::set_len|string::String::as_mut_vec|"
                 r"slice::(from_raw_parts|from_raw_parts_mut))$")
OWNERS = ("std::boxed::Box", "std::vec::Vec", "std::collections::", "std::rc::Rc", "std::rc::Weak", "std::sync::Arc", "std::sync::Weak", "std::string::String",
          "std::ffi::", "std::path::PathBuf", "alloc::")
CELLS = ("std::cell::RefCell", "std::cell::Cell", "std::cell::UnsafeCell", "std::cell::OnceCell", "std::sync::Mutex", "std::sync::RwLock", "std::sync::OnceLock")
COUNTED = ("std::rc::Rc", "std::sync::Arc")
NOEDGE = ("std::marker::PhantomData", "std::rc::Weak", "std::sync::Weak")


class Types:
    def __init__(self, p):
        self.p = p
        self.dyn = {}
        for f in p.fns:
            if not f.local or f.blocks is None:
                continue
            for b in f.blocks:
                for ln, pl, rv in b["s"]:
                    if rv[0] == "cast" and rv[1].startswith("PointerCoercion(Unsize") and rv[2][0] in ("cp", "mv") and not rv[2][1][1]:
                        src = self.inner(f.locals[rv[2][1][0]])
                        dst = self.inner(rv[3])
                        if dst is not None and p.types[dst]["k"] == "dyn" and src is not None:
                            self.dyn.setdefault(dst, set()).add(src)

    def t(self, tid):
        return self.p.types[tid]

    def inner(self, tid):
        t = self.t(tid)
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        if t["k"] == "adt" and t["args"]:
            return t["args"][0]
        return None

    def owns(self, tid):
        """types whose values live and die with a value of this type"""
        t = self.t(tid)
        k = t["k"]
        if k == "adt":
            if t["name"] in NOEDGE:
                return []
            if t["name"].startswith("uflow::"):
                return [f[1] for v in t["variants"] for f in v["fields"]]
            return list(t["args"])
        if k == "tuple":
            return list(t["ts"])
        if k in ("array", "slice"):
            return [t["t"]]
        if k == "closure":
            return [x for a in t["args"] for x in (self.owns(a) if self.t(a)["k"] == "tuple" else [])]
        if k == "dyn":
            return sorted(self.dyn.get(tid, ()))
        return []

    def reach(self, tid):
        """type -> path of types from tid, through ownership, with whether a cell lies on it"""
        seen = {}
        work = [(x, (tid,), self.is_cell(tid)) for x in self.owns(tid)]
        while work:
            x, path, cell = work.pop()
            cell = cell or self.is_cell(x)
            if seen.get(x, (None, False))[1] >= cell and x in seen:
                continue
            seen[x] = (path + (x,), cell)
            for y in self.owns(x):
                work.append((y, path + (x,), cell))
        return seen

    def is_cell(self, tid):
        t = self.t(tid)
        return t["k"] == "adt" and t["name"].startswith(CELLS)

    def heap(self, tid):
        """does a value of this type own memory?"""
        for x in [tid] + list(self.reach(tid)):
            t = self.t(x)
            if t["k"] == "dyn" or t["k"] == "adt" and t["name"].startswith(OWNERS) and t["name"] != "std::alloc::Global" and not t["name"].startswith("alloc::raw_vec"):
                return True
        return False

    def name(self, tid):
        return strip_generics(self.t(tid)["s"]) if "<" not in self.t(tid)["s"] else self.t(tid)["s"]


def bodies(c):
    return [f for f in c.p.fns if f.local and f.blocks is not None]


def calls(c, f):
    for i in f.reach():
        b = f.blocks[i]
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            yield i, b, t, c.p.byid[t[1][1]["fn"]]


def std(g):
    return not g.local


def base(g):
    return strip_generics(g.defn)


def defs_of(f):
    d = {}
    for i in f.reach():
        b = f.blocks[i]
        for ln, pl, rv in b["s"]:
            if pl is not None and pl[1][:1] != [["*"]]:
                d.setdefault(pl[0], []).append((i, pl[1], rv))
        t = b["t"]
        if t[0] == "call" and t[3]:
            d.setdefault(t[3][0], []).append((i, t[3][1], ("call", t)))
    return d


def origin(c, f, defs, op, depth=0):
    """the call a pointer comes from, if it comes unchanged from exactly one"""
    if depth > 40 or op[0] not in ("cp", "mv") or op[1][1]:
        return None
    ds = defs.get(op[1][0], [])
    if len(ds) != 1 or ds[0][1]:
        return None
    i, _, rv = ds[0]
    if rv[0] == "call":
        return i
    if rv[0] == "use":
        return origin(c, f, defs, rv[1], depth + 1)
    if rv[0] == "cast" and rv[1] in ("PtrToPtr", "PointerCoercion(MutToConstPointer)") and c.p.types[rv[3]]["k"] == "ptr":
        src = f.locals[rv[2][1][0]] if rv[2][0] in ("cp", "mv") and not rv[2][1][1] else None
        if src is not None and c.p.types[src]["k"] == "ptr" and c.p.types[src]["t"] == c.p.types[rv[3]]["t"]:
            return origin(c, f, defs, rv[2], depth + 1)
    return None


def once(f, start, uses):
    """is every path from block start to a return through exactly one of the blocks in uses?"""
    seen = {}

    def go(b, n):
        if (b, n) in seen:
            return True
        seen[(b, n)] = 1
        n += b in uses and b != start
        if n > 1:
            return False
        if f.blocks[b]["t"][0] == "return":
            return n == 1
        return all(go(s, n) for s in f.succ(b) if s != start)
    return go(start, 0)


def where(f, ln):
    return (f.file, ln, f.key)


@rule("heap.unsafe", P, "no operation of the crate takes memory out of the care of its owner, or gives it back with another layout than it was obtained with")
def _(c):
    T = Types(c.p)
    n = 0
    for f in bodies(c):
        defs = None
        outs, ins = {}, {}
        for i, b, t, g in calls(c, f):
            n += 1
            name = base(g)
            if g.local:
                c.check(True, "%s calls %s" % (f.key, g.key), where(f, b["l"]))
                continue
            aty = [optype(f, o) for o in t[2]]
            mine = [x for x in aty if x is not None and T.heap(x)]
            if name in LEAKS:
                c.check(not mine, "%s: the memory given to %s is never released" % (f.key, name), where(f, b["l"]))
            elif OUT.match(name) and not name.endswith("_fd"):
                outs[i] = (name, t, b["l"])
            elif IN.match(name) and g.unsafe:
                ins[i] = (name, t, b["l"])
            elif RAW.match(name):
                ty = [x for x in aty if x is not None] + [f.locals[t[3][0]]]
                held = [x for x in ty if T.heap(x) or T.inner(x) is not None and T.t(x)["k"] in ("ptr", "ref") and T.heap(T.inner(x)) or T.t(x)["k"] == "adt" and "MaybeUninit" in T.t(x)["name"] and T.heap(x)]
                bad = held or name.startswith(("std::alloc::", "core::alloc::", "alloc::alloc::"))
                c.check(not bad, "%s: %s bypasses the ownership of memory" % (f.key, name), where(f, b["l"]))
            else:
                c.check(True, "%s calls %s" % (f.key, name), where(f, b["l"]))
        # every block taken out goes back in exactly once, through the pointer it was taken out with and at the same type
        used = {}
        for i, (name, t, ln) in ins.items():
            defs = defs or defs_of(f)
            o = origin(c, f, defs, t[2][0]) if t[2] else None
            ok = o in outs and len(t[2]) == 1
            if ok:
                src = optype(f, outs[o][1][2][0])
                ok = src is not None and strip_lt(T.t(src)["s"]) == strip_lt(T.t(f.locals[t[3][0]] if not t[3][1] else -1)["s"])
            c.check(ok, "%s: the block given to %s is not known to be one of that layout (it must be the unchanged pointer of the matching into_raw, at the same type)" % (f.key, name), where(f, ln))
            if ok:
                used.setdefault(o, set()).add(i)
        for o, (name, t, ln) in outs.items():
            src = optype(f, t[2][0]) if t[2] else None
            if src is not None and not T.heap(src):
                continue
            c.check(o in used and once(f, o, used[o]), "%s: the block taken out by %s is not put back exactly once on every path" % (f.key, name), where(f, ln))
        # raw pointers: only those the compiler makes to reach into a box
        defs = defs or defs_of(f)
        for i in sorted(f.reach()):
            b = f.blocks[i]
            for ln, pl, rv in b["s"]:
                for q, rd in places(pl, rv):
                    n += 1
                    bad = raw_deref(c, f, defs, q)
                    if bad is None:
                        continue
                    ty = typeof(c, f, q)
                    c.check(rd == "ref" or not T.heap(ty), "%s: memory owner %s is %s through a raw pointer" % (f.key, T.name(ty), "copied" if rd == "rd" else "overwritten"), where(f, ln))
                if rv[0] == "cast" and rv[1] == "Transmute":
                    s = optype(f, rv[2])
                    bad = s is not None and T.heap(s) or T.heap(rv[3])
                    c.check(not bad, "%s: a memory owner is transmuted" % f.key, where(f, ln))
    c.check(n > 1000, "bodies of the crate")


def strip_lt(s):
    return re.sub(r"'[a-z_]+ ?", "", s)


def optype(f, o):
    if o[0] in ("cp", "mv"):
        return typeof(None, f, o[1])
    if o[0] == "k":
        return o[1].get("ty")
    return None


def typeof(c, f, pl):
    t = f.locals[pl[0]]
    p = f.prog
    for e in pl[1]:
        k = p.types[t]
        if e[0] == "*":
            t = k["t"] if k["k"] in ("ref", "ptr") else (k["args"][0] if k.get("args") else t)
        elif e[0] == "f":
            t = e[2]
        elif e[0] in ("i", "c"):
            t = k.get("t", t)
    return t


def places(pl, rv):
    if pl is not None:
        yield pl, "wr"

    def op(o):
        return [(o[1], "rd" if o[0] == "mv" else "rd")] if o[0] in ("cp", "mv") else []
    k = rv[0]
    if k in ("ref", "addr"):
        yield rv[-1], "ref"
        return
    for x in rv[1:]:
        if isinstance(x, list) and len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list):
            yield from op(x)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, list) and len(y) == 2 and y[0] in ("cp", "mv") and isinstance(y[1], list):
                    yield from op(y)


def raw_deref(c, f, defs, pl):
    t = f.locals[pl[0]]
    cur = [pl[0], []]
    for e in pl[1]:
        if e[0] == "*" and f.prog.types[typeof(c, f, cur)]["k"] == "ptr":
            ds = defs.get(pl[0], []) if not cur[1] else []
            if not ds or not all(d[2][0] == "cast" and d[2][1] == "BoxDerefTransmute" for d in ds):
                return cur
        cur = [cur[0], cur[1] + [e]]
    return None


@rule("heap.cycles", P, "reference-counted values cannot own themselves, so dropping the last outside handle releases them")
def _(c):
    T = Types(c.p)
    n = 0
    for tid, t in c.p.types.items():
        if t["k"] != "adt" or t["name"] not in COUNTED or not t["args"]:
            continue
        n += 1
        r = T.reach(tid).get(tid)
        ok = r is None or not r[1]
        c.check(ok, "%s can own itself (%s): a cycle is never released" % (T.name(tid), " > ".join(T.name(x) for x in r[0]) if r else ""), None)
        for x in T.reach(tid):
            if T.t(x)["k"] == "dyn":
                c.check(T.dyn.get(x), "%s owns values of an unknown type (%s)" % (T.name(tid), T.name(x)), None)
    c.check(n > 0, "counted types of the crate", None)


@rule("heap.statics", P, "nothing the crate allocates is kept in a static or thread-local place, where teardown cannot reach it")
def _(c):
    T = Types(c.p)
    for n, s in sorted(c.p.statics.items()):
        if "ty" not in s:
            continue
        t = s["ty"]
        c.check(not T.heap(t), "%s: a static owner of memory (%s) outlives every endpoint" % (n, T.name(t)), None)
    for f in bodies(c):
        for i, b, t, g in calls(c, f):
            nm = base(g)
            c.check(not nm.startswith(("std::thread::LocalKey", "std::thread::spawn", "std::thread::Builder", "std::sync::OnceLock", "std::sync::LazyLock")) ,
                    "%s: %s keeps memory beyond the endpoint's teardown" % (f.key, nm), where(f, b["l"]))


@rule("heap.threads", P, "reference counts that are not atomic are not shared between threads: every type declared Send or Sync keeps its counted values to itself")
def _(c):
    T = Types(c.p)
    rc = {tid for tid, t in c.p.types.items() if t["k"] == "adt" and t["name"] in ("std::rc::Rc", "std::rc::Weak")}
    decl = {}
    for tr, ty, fl, ln in c.p.impls:
        if tr in ("std::marker::Send", "std::marker::Sync"):
            decl.setdefault(ty, {})[tr.split("::")[-1]] = (fl, ln, ty)
    for ty, ds in sorted(decl.items()):
        tids = [tid for tid, t in c.p.types.items() if t["k"] == "adt" and t["name"] == ty]
        mine = set()
        for tid in tids:
            mine |= {x for x in weak_reach(T, tid) if x in rc}
        loc = sorted(ds.values())[0]
        c.check(True, "%s is declared %s" % (ty, "+".join(sorted(ds))), loc)
        if not mine:
            continue
        # handles (counted pointers and what they point to) of this type must not be obtainable from outside it
        inner = {T.t(x)["args"][0] for x in mine}
        mod = ty.rsplit("::", 1)[0]
        for tid, t in c.p.types.items():
            if t["k"] != "adt" or not t["name"].startswith("uflow::") or t["name"].startswith(mod + "::"):
                continue
            r = weak_reach(T, tid, stop=ty)
            bad = sorted(x for x in r if x in mine)
            c.check(not bad, "%s shares reference counts with %s, which is declared %s" % (T.name(tid), ty, "+".join(sorted(ds))), loc)
        for f in c.p.fns:
            if not f.local or f.blocks is None or f.file is None:
                continue
            if f.key.startswith(mod[len("uflow::"):]) or ("<" + mod) in f.name or mod in f.name.split(" as ")[0]:
                continue
            for l in f.locals:
                bad = T.t(l)["k"] == "adt" and l in mine
                c.check(not bad, "%s handles a reference count of %s, which is declared %s" % (f.key, ty, "+".join(sorted(ds))), where(f, f.line))
        if "Sync" in ds:
            # through a shared reference, no count may change and no cell may be entered
            for f in c.p.fns:
                if not f.local or f.blocks is None or not f.argc:
                    continue
                t0 = T.t(f.locals[1])
                if t0["k"] != "ref" or t0["mut"] or t0["t"] not in tids:
                    continue
                for g, i, b, h in closure_of(c, f):
                    nm = base(h)
                    a = optype(g, b["t"][2][0]) if b["t"][2] else None
                    o = nm.rsplit("::", 1)[-1]
                    tr = T.t(a) if a is not None else None
                    into = T.t(tr["t"]) if tr and tr["k"] == "ref" else tr
                    hit = into is not None and into["k"] == "adt" and (into["name"].startswith(CELLS) or into["name"] in COUNTED + ("std::rc::Weak",)) and o in (
                        "borrow", "borrow_mut", "try_borrow", "try_borrow_mut", "clone", "upgrade", "downgrade", "set", "replace", "take", "swap", "get", "new_cyclic")
                    c.check(not hit, "%s: %s is reached through a shared reference to %s, which is declared Sync" % (g.key, nm, ty), where(g, b["l"]))


def weak_reach(T, tid, stop=None):
    """types contained in a value, counting weak handles"""
    seen, work = set(), [tid]
    while work:
        x = work.pop()
        if x in seen or stop is not None and T.t(x).get("name") == stop:
            continue
        seen.add(x)
        t = T.t(x)
        work += T.owns(x)
        if t["k"] == "adt" and t["name"] in ("std::rc::Weak", "std::sync::Weak"):
            work += t["args"]
        if t["k"] in ("ref", "ptr"):
            work.append(t["t"])
    return seen - {tid}


def closure_of(c, f):
    seen, work = set(), [f]
    while work:
        g = work.pop()
        if g.id in seen or g.blocks is None:
            continue
        seen.add(g.id)
        for i, b, t, h in calls(c, g):
            yield g, i, b, h
            if h.local:
                work.append(h)
