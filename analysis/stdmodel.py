"""Abstract transfer functions for the standard-library operations the crate uses (containers, iterators, integer and
float primitives, reference counting, sockets, time)."""
import re
from .terms import *
from . import absint as A


def ref(root, path):
    return mk("ref", root, tuple(path))


def prefers(fn):
    """std functions with a body for which the model is nevertheless used"""
    k = fn.key
    m = k.rsplit("::", 1)[-1]
    return (m in ("max", "min", "clamp") and "cmp" in k) or (m in ("is_empty", "contains") and "ops::Range" in k) or m == "into_iter" or \
        (m in ("and_then",) and False)


def owner(fn):
    """short name of the type a std method belongs to"""
    k = fn.key
    m = re.match(r"^<(.*) as (.*)>::", k)
    if m:
        t = m.group(1)
        return t.lstrip("&").replace("mut ", "").split("::")[-1], m.group(2).split("::")[-1]
    parts = k.split("::")
    return (parts[-2] if len(parts) > 1 else ""), None


def call(ip, fr, st, fn, args, dest_tid, arg_tids):
    meth = fn.key.rsplit("::", 1)[-1]
    own, trait = owner(fn)
    h = H.get(meth)
    C = Ctx(ip, fr, st, fn, args, dest_tid, arg_tids, own, trait, meth)
    r = h(C) if h else None
    if r is None and "std::net::" in fn.name + fn.key and "UdpSocket" not in fn.name:
        # address values: pure functions of their arguments
        ts = [C.ty(i) for i in range(len(args))]
        if all(t and not (t["k"] == "ref" and t["mut"]) for t in ts) and dest_tid is not None:
            t = ip.p.types[ip.p.peel(dest_tid)]
            v = mk("app", fn.name, tuple(C.val(i) for i in range(len(args))), *([(0, 1)] if t["k"] == "bool" else []))
            if t["k"] == "bool":
                v = cmp_eq(v, I(1))
            return ret(C, v)
    return r


class Ctx:
    def __init__(s, ip, fr, st, fn, args, dest_tid, arg_tids, own, trait, meth):
        s.ip, s.fr, s.st, s.fn, s.args, s.dest, s.tids, s.own, s.trait, s.meth = ip, fr, st, fn, args, dest_tid, arg_tids, own, trait, meth

    def ty(s, i):
        if not s.tids:
            return None
        return s.ip.p.types[s.tids[i]]

    def place(s, i=0):
        return s.ip.deref(s.args[i])

    def val(s, i=0):
        """value of argument i, looking through references"""
        a = s.args[i]
        n = 0
        while a.op == "ref" and n < 4:
            a = s.ip.read(s.st, a.a[0], a.a[1])
            n += 1
        return a

    def val1(s, i=0):
        a = s.args[i]
        if a.op == "ref":
            return s.ip.read(s.st, a.a[0], a.a[1])
        t = s.ty(i)
        if t and t["k"] == "ref":
            return s.ip.read(s.st, ("O", a), ())
        return a

    def set(s, st, i, v):
        root, path = s.ip.deref(s.args[i])
        s.ip.write(st, root, path, v, s.fr)

    def ev(s, st, name, args, ret=None, x=None):
        return s.ip.event(st, "op", name, tuple(args), ret, s.fr, x)

    def elem_tid(s, i=0):
        """element type of the container behind argument i"""
        ip = s.ip
        t = s.ty(i)
        if t is None:
            return None
        for _ in range(6):
            if t["k"] in ("ref", "ptr"):
                t = ip.p.types[t["t"]]
            elif t["k"] in ("slice", "array"):
                return t["t"]
            elif t["k"] == "adt" and t.get("args"):
                nm = t["name"].split("::")[-1]
                if nm in ("Vec", "VecDeque", "BinaryHeap"):
                    return t["args"][0]
                t = ip.p.types[t["args"][0]]
            else:
                return None
        return None

    def er(s, i=0):
        t = s.elem_tid(i)
        return s.ip.rng_of(t) if t is not None else None


H = {}


def model(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def ret(C, v):
    return [(C.st, v)]


# ------------------------------------------------------------------ containers
@model("new", "with_capacity", "default")
def m_new(C):
    o = C.own
    if o in ("Vec", "VecDeque"):
        return ret(C, mk("vempty"))
    if o == "BinaryHeap":
        return ret(C, mk("hempty"))
    if o in ("HashMap", "HashSet", "BTreeMap"):
        return ret(C, mk("mempty"))
    if o in ("Box", "RefCell", "Cell"):
        if C.meth == "default":
            return ret(C, mk("vempty"))
        return ret(C, C.args[0])
    if o == "Rc":
        st = C.st.copy()
        C.ip.nobj += 1
        ob = mk("obj", C.ip.nobj)
        st.mem[("O", ob)] = C.args[0]
        C.ev(st, "Rc::new", (C.args[0],), ob)
        return [(st, ob)]
    if o == "SocketAddr":
        return ret(C, mk("sockaddr", *C.args))
    if o == "Arguments":
        return ret(C, mk("fmtargs"))
    if C.meth == "default":
        t = C.ip.p.types[C.ip.p.peel(C.dest)]
        if t["k"] in ("uint", "int"):
            return ret(C, I(0))
        if t["k"] == "bool":
            return ret(C, FALSE)
        if t["k"] == "float":
            return ret(C, mk("flt", 0.0))
        if t["k"] == "adt" and t["name"].endswith("Option"):
            return ret(C, A.NONE)
        if t["k"] in ("slice",):
            return ret(C, mk("vempty"))
    return None


@model("new_uninit")
def m_uninit(C):
    return ret(C, mk("uninit", C.fn.name))


@model("box_assume_init_into_vec_unsafe", "into_vec", "into_boxed_slice", "as_slice", "as_mut_slice", "as_ref", "as_mut", "deref",
       "deref_mut", "borrow", "borrow_mut", "into_inner", "as_deref", "as_slice_mut", "make_contiguous", "from_ref", "assume_init",
       "by_ref", "get_ref", "as_bytes", "as_str", "as_mut_ptr", "as_ptr", "unwrap_or_clone", "to_vec", "to_owned", "into_iter_sorted",
       "into_owned", "into_vec_deque", "into", "from")
def m_identity(C):
    a = C.args[0]
    if C.own in ("Rc", "Arc") and C.meth in ("deref", "as_ref", "borrow"):
        rc = C.ip.read(C.st, *C.ip.deref(a))
        return ret(C, ref(("O", rc), ()))
    if C.own in ("Ref", "RefMut") and C.meth in ("deref", "deref_mut"):
        return ret(C, C.ip.read(C.st, *C.ip.deref(a)))
    if C.own == "Rc" and C.meth in ("from",):
        return None
    dt = C.ip.p.types[C.dest]
    t = C.ty(0)
    if C.meth in ("to_vec", "to_owned", "into", "from") or (t and t["k"] == "ref" and dt["k"] != "ref" and C.meth not in ("borrow", "borrow_mut", "by_ref")):
        if dt["k"] == "adt" and dt["name"].split("::")[-1] in ("Box", "Vec", "VecDeque", "String", "Rc"):
            if a.op == "ref":
                return ret(C, C.ip.read(C.st, a.a[0], a.a[1]))
            if t and t["k"] == "ref":
                return ret(C, C.ip.read(C.st, ("O", a), ()))
            return ret(C, a)
        if C.meth in ("into", "from"):
            if dt["k"] in ("uint", "int"):
                return ret(C, C.ip.b2i(a) if t and t["k"] == "bool" else a)
            if dt["k"] == "float" and t and t["k"] in ("uint", "int"):
                return ret(C, mk("flt", float(a.a[0])) if a.op == "int" else mk("i2f", a))
            return None
    return ret(C, a)


@model("len")
def m_len(C):
    v = C.val1(0)
    if v.op == "agg" and v.a[0].startswith("$"):
        return ret(C, it_len(C.ip, C.st, v))
    if v.op == "agg" and v.a[0].endswith("Range"):
        return ret(C, minmax("max", I(0), sub(v.a[3][1], v.a[3][0])))
    return ret(C, C.ip.length(v))


@model("is_empty")
def m_empty(C):
    v = C.val1(0)
    if v.op == "agg" and v.a[0].endswith("Range"):
        return ret(C, cmp_le(v.a[3][1], v.a[3][0]))
    return ret(C, cmp_eq(C.ip.length(v), I(0)))


@model("push_back", "push", "push_front", "insert", "clear", "truncate", "extend_from_slice", "append", "resize", "extend", "reserve",
       "shrink_to_fit", "fill")
def m_mut(C):
    ip, m = C.ip, C.meth
    st = C.st.copy()
    v = C.val1(0)
    if C.own in ("HashMap", "BTreeMap", "HashSet"):
        if m == "insert":
            return m_insert(C, st, v)
        if m == "clear":
            nv = mk("mempty")
            C.ev(st, "map.clear", (C.args[0],))
            C.set(st, 0, nv)
            return [(st, UNIT)]
        return None
    if C.own == "BinaryHeap":
        if m == "push":
            C.ev(st, "heap.push", (C.args[0], C.args[1]))
            C.set(st, 0, mk("hpush", v, C.args[1]))
            return [(st, UNIT)]
        if m == "clear":
            C.ev(st, "heap.clear", (C.args[0],))
            C.set(st, 0, mk("hempty"))
            return [(st, UNIT)]
        if m in ("reserve", "shrink_to_fit"):
            return [(st, UNIT)]
        return None
    if C.own not in ("Vec", "VecDeque", "slice", "core", ""):
        return None
    if m in ("reserve", "shrink_to_fit"):
        return [(st, UNIT)]
    if m in ("push", "push_back"):
        nv = mk("pushb", v, C.args[1])
        C.ev(st, "push_back", (C.args[0], C.args[1]))
    elif m == "push_front":
        nv = mk("pushf", v, C.args[1])
        C.ev(st, "push_front", (C.args[0], C.args[1]))
    elif m == "clear":
        nv = mk("vempty")
        C.ev(st, "clear", (C.args[0],))
    elif m == "truncate":
        L = ip.length(v)
        n = C.args[1]
        if st.facts.prove(cmp_le(L, n)):
            return [(st, UNIT)]
        nv = mk("trunc", v, n)
        C.ev(st, "truncate", (C.args[0], n))
    elif m == "extend_from_slice":
        src = C.val1(1)
        nv = cat(v, src)
        C.ev(st, "extend", (C.args[0], src))
    elif m == "append":
        src = C.val1(1)
        nv = cat(v, src)
        C.ev(st, "extend", (C.args[0], src))
        C.set(st, 1, mk("vempty"))
    elif m == "extend":
        it = into_iter(C, C.args[1])
        root, path = ip.deref(C.args[0])

        def b(s, acc, x):
            s = s.copy()
            if x.op == "ref" and C.args[1].op == "ref":
                x = ip.read(s, *ip.deref(x))
            C.ev(s, "push_back", (C.args[0], x))
            ip.write(s, root, path, mk("pushb", ip.read(s, root, path), x), C.fr)
            return [(s, "cont", UNIT)]
        in_ = it
        while in_.op == "agg" and in_.a[0] == "$cloned":
            in_ = in_.a[3][in_.a[2].index("it")]
        et = dict(zip(in_.a[2], in_.a[3]))["et"].a[0] if in_.op == "agg" and in_.a[0] == "$iter" else -1
        if et >= 0 and ip.p.types[et]["k"] == "uint":
            # bytes: one append
            out = []
            for s, c in collect(C, st, A.agg("$cloned", "", ("it",), (in_,))):
                s = s.copy()
                C.ev(s, "extend", (C.args[0], c))
                ip.write(s, root, path, cat(ip.read(s, root, path), c), C.fr)
                out.append((s, UNIT))
            return out
        return consume(C, st, it, None, b, lambda s, x: [(s, UNIT)])
    elif m == "resize":
        L = ip.length(v)
        out = []
        for s, tv in ip.branch(st, cmp_le(C.args[1], L)):
            s = s.copy()
            nv = mk("trunc", v, C.args[1]) if tv else cat(v, mk("rep", C.args[2], sub(C.args[1], L)))
            C.ev(s, "resize", (C.args[0], C.args[1]))
            C.set(s, 0, nv)
            out.append((s, UNIT))
        return out
    elif m == "fill":
        nv = mk("rep", C.args[1], ip.length(v))
    elif m == "insert":
        if C.args[1] is I(0):
            nv = mk("pushf", v, C.args[2])
            C.ev(st, "push_front", (C.args[0], C.args[2]))
        elif C.args[1] is ip.length(v):
            nv = mk("pushb", v, C.args[2])
            C.ev(st, "push_back", (C.args[0], C.args[2]))
        else:
            nv = mk("insert", v, C.args[1], C.args[2])
            C.ev(st, "insert", C.args)
    else:
        return None
    C.set(st, 0, nv)
    return [(st, UNIT)]


def cat(a, b):
    if a.op == "vempty":
        return b
    if b.op == "vempty":
        return a
    if b.op == "arr" and len(b.a) <= 16:
        for x in b.a:
            a = mk("pushb", a, x)
        return a
    return mk("cat", a, b)


def m_insert(C, st, v):
    ip = C.ip
    key, val = C.args[1], C.args[2] if len(C.args) > 2 else UNIT
    out = []
    for s, tv in ip.branch(st, ip.mhas(v, key, st.facts)):
        s = s.copy()
        old = A.some(ip.mget(v, key, s.facts)) if tv else A.NONE
        nv = mk("mput", v, key, val)
        C.ev(s, "map.insert", (C.args[0], key, val), None, {"present": tv})
        s.facts = s.facts.plus(cmp_eq(ip.length(nv), add(ip.length(v), I(0 if tv else 1))))
        C.set(s, 0, nv)
        out.append((s, old if len(C.args) > 2 else B(not tv)))
    return out


@model("pop_front", "pop_back", "pop")
def m_pop(C):
    ip = C.ip
    v = C.val1(0)
    out = []
    if C.own == "BinaryHeap":
        for s, tv in ip.branch(C.st, cmp_eq(ip.length(v), I(0))):
            if tv:
                out.append((s, A.NONE))
            else:
                s = s.copy()
                C.ev(s, "heap.pop", (C.args[0],), mk("htop", v))
                C.set(s, 0, mk("hpop", v))
                out.append((s, A.some(mk("htop", v))))
        return out
    front = C.meth == "pop_front"
    for s, tv in ip.branch(C.st, cmp_eq(ip.length(v), I(0))):
        if tv:
            out.append((s, A.NONE))
            continue
        s = s.copy()
        if front:
            x = ip.elem(v, I(0), s.facts, C.er())
            nv = v.a[0] if v.op == "pushf" else mk("popf", v)
        else:
            x = ip.elem(v, add(ip.length(v), I(-1)), s.facts, C.er())
            nv = v.a[0] if v.op == "pushb" else mk("popb", v)
        C.ev(s, C.meth if C.meth != "pop" else "pop_back", (C.args[0],), x)
        C.set(s, 0, nv)
        out.append((s, A.some(x)))
    return out


@model("front", "back", "front_mut", "back_mut", "first", "last", "first_mut", "last_mut", "peek", "peek_mut")
def m_peek(C):
    ip = C.ip
    root, path = C.place()
    v = C.val1(0)
    if C.own == "Peekable":
        return None
    out = []
    for s, tv in ip.branch(C.st, cmp_eq(ip.length(v), I(0))):
        if tv:
            out.append((s, A.NONE))
        elif C.own == "BinaryHeap":
            out.append((s, A.some(ref(root, path + (("h",),)))))
        else:
            i = I(0) if C.meth.startswith(("front", "first")) else add(ip.length(v), I(-1))
            out.append((s, A.some(ref(root, tuple(ip.push_index(path, i, C.elem_tid()))))))
    return out


@model("get", "get_mut", "contains_key", "contains")
def m_get(C):
    ip = C.ip
    root, path = C.place()
    v = C.val1(0)
    out = []
    if C.own in ("HashMap", "BTreeMap", "HashSet"):
        key = C.val1(1)
        for s, tv in ip.branch(C.st, ip.mhas(v, key, C.st.facts)):
            if C.meth in ("contains_key", "contains"):
                out.append((s, B(tv)))
            else:
                out.append((s, A.some(ref(root, path + (("m", key),))) if tv else A.NONE))
        return out
    if C.own in ("RefCell", "Cell"):
        return ret(C, v if C.own == "Cell" else C.args[0])
    if C.meth in ("contains",):
        if v.op == "agg" and v.a[0].endswith("Range"):
            x = C.val1(1)
            return ret(C, band(cmp_le(v.a[3][0], x), cmp_lt(x, v.a[3][1])))
        if v.op == "agg" and v.a[0].endswith("RangeInclusive"):
            x = C.val1(1)
            return ret(C, band(cmp_le(v.a[3][0], x), cmp_le(x, v.a[3][1])))
        return ret(C, mk("contains", v, C.val1(1)))
    i = C.args[1]
    L = ip.length(v)
    if i.op == "agg":
        lo, hi = range_of(i, L)
        for s, tv in ip.branch(C.st, band(cmp_le(lo, hi), cmp_le(hi, L))):
            out.append((s, A.some(ref(root, path + (("r", lo, hi),))) if tv else A.NONE))
        return out
    for s, tv in ip.branch(C.st, cmp_lt(i, L)):
        out.append((s, A.some(ref(root, tuple(ip.push_index(path, i, C.elem_tid())))) if tv else A.NONE))
    return out


@model("remove", "swap_remove")
def m_remove(C):
    ip = C.ip
    v = C.val1(0)
    out = []
    if C.own in ("HashMap", "BTreeMap", "HashSet"):
        key = C.val1(1)
        for s, tv in ip.branch(C.st, ip.mhas(v, key, C.st.facts)):
            if not tv:
                out.append((s, A.NONE if C.own != "HashSet" else FALSE))
                continue
            s = s.copy()
            nv = mk("mdel", v, key)
            C.ev(s, "map.remove", (C.args[0], key))
            s.facts = s.facts.plus(cmp_eq(ip.length(nv), add(ip.length(v), I(-1))))
            x = A.some(ip.mget(v, key, s.facts))
            C.set(s, 0, nv)
            out.append((s, x if C.own != "HashSet" else TRUE))
        return out
    i = C.args[1]
    L = ip.length(v)
    for s, tv in ip.branch(C.st, cmp_lt(i, L)):
        isopt = C.own == "VecDeque"
        if not tv:
            if isopt:
                out.append((s, A.NONE))
            else:
                ip.panic(s, "remove index out of bounds", C.fr)
            continue
        s = s.copy()
        x = ip.elem(v, i, s.facts, C.er())
        C.ev(s, "remove", (C.args[0], i), x)
        C.set(s, 0, mk("popf", v) if i is I(0) else mk("rem", v, i))
        out.append((s, A.some(x) if isopt else x))
    return out


def range_of(r, L):
    n = r.a[0].split("::")[-1]
    d = dict(zip(r.a[2], r.a[3]))
    if n == "Range":
        return d["start"], d["end"]
    if n == "RangeFrom":
        return d["start"], L
    if n == "RangeTo":
        return I(0), d["end"]
    if n == "RangeFull":
        return I(0), L
    if n == "RangeInclusive":
        return d["start"], add(d["end"], I(1))
    if n == "RangeToInclusive":
        return I(0), add(d["end"], I(1))
    raise A.Undecided("range " + n)


@model("index", "index_mut")
def m_index(C):
    ip = C.ip
    root, path = C.place()
    v = C.val1(0)
    if C.own in ("HashMap",):
        key = C.val1(1)
        out = []
        for s, tv in ip.branch(C.st, ip.mhas(v, key, C.st.facts)):
            if tv:
                out.append((s, ref(root, path + (("m", key),))))
            else:
                ip.panic(s, "missing map key", C.fr)
        return out
    L = ip.length(v)
    i = C.args[1]
    out = []
    if i.op == "agg" or i.op == "zst" or (C.ty(1) and C.ty(1)["k"] == "adt"):
        if i.op == "zst":
            return ret(C, C.args[0])
        lo, hi = range_of(i, L)
        for s, tv in ip.branch(C.st, band(cmp_le(lo, hi), cmp_le(hi, L))):
            if tv:
                out.append((s, ref(root, path + (("r", lo, hi),) if not (lo is I(0) and hi is L) else path)))
            else:
                ip.panic(s, "slice range out of bounds", C.fr, ("Range", lo, hi, L))
        return norm_ranges(out)
    for s, tv in ip.branch(C.st, cmp_lt(i, L)):
        if tv:
            out.append((s, ref(root, tuple(ip.push_index(path, i, C.elem_tid())))))
        else:
            ip.panic(s, "BoundsCheck", C.fr, ("Bounds", L, i))
    return out


def norm_ranges(out):
    res = []
    for s, r in out:
        p = r.a[1]
        while len(p) >= 2 and p[-1][0] == "r" and p[-2][0] == "r":
            a, b = p[-2], p[-1]
            p = p[:-2] + (("r", add(a[1], b[1]), add(a[1], b[2])),)
        res.append((s, mk("ref", r.a[0], p)))
    return res


@model("split_at", "split_at_mut", "split_first", "split_last")
def m_split(C):
    ip = C.ip
    root, path = C.place()
    v = C.val1(0)
    L = ip.length(v)
    if C.meth in ("split_first",):
        out = []
        for s, tv in ip.branch(C.st, cmp_eq(L, I(0))):
            out.append((s, A.NONE if tv else A.some(A.tup(ref(root, tuple(ip.push_index(path, I(0), C.elem_tid()))), norm_ranges([(s, ref(root, path + (("r", I(1), L),)))])[0][1]))))
        return out
    if C.meth == "split_last":
        return None
    n = C.args[1]
    out = []
    for s, tv in ip.branch(C.st, cmp_le(n, L)):
        if tv:
            x = norm_ranges([(s, ref(root, path + (("r", I(0), n),)))])[0][1]
            y = norm_ranges([(s, ref(root, path + (("r", n, L),)))])[0][1]
            out.append((s, A.tup(x, y)))
        else:
            ip.panic(s, "split_at out of bounds", C.fr)
    return out


@model("copy_from_slice", "clone_from_slice")
def m_copy(C):
    ip = C.ip
    root, path = C.place()
    dst, src = C.val1(0), C.val1(1)
    out = []
    for s, tv in ip.branch(C.st, cmp_eq(ip.length(dst), ip.length(src))):
        if not tv:
            ip.panic(s, "copy_from_slice length mismatch", C.fr)
            continue
        s = s.copy()
        C.ev(s, "copy", (C.args[0], src))
        ip.write(s, root, path, src, C.fr)
        out.append((s, UNIT))
    return out


@model("drain", "split_off")
def m_drain(C):
    ip = C.ip
    v = C.val1(0)
    L = ip.length(v)
    if C.own == "BinaryHeap":
        return None
    if C.meth == "split_off":
        return None
    if C.args[1].op == "zst":
        lo, hi = I(0), L
    else:
        lo, hi = range_of(C.args[1], L)
    out = []
    for s, tv in ip.branch(C.st, band(cmp_le(lo, hi), cmp_le(hi, L))):
        if not tv:
            ip.panic(s, "drain range out of bounds", C.fr, ("Range", lo, hi, L))
            continue
        s = s.copy()
        C.ev(s, "drain", (C.args[0], lo, hi))
        if lo is I(0) and hi is L:
            nv = mk("vempty")
        elif lo is I(0):
            nv = v if hi is I(0) else mk("popn", v, hi)
        elif hi is L:
            nv = mk("trunc", v, lo)
        else:
            nv = mk("cat", mk("trunc", v, lo), mk("popn", v, hi))
        C.set(s, 0, nv)
        out.append((s, A.agg("$into", "", ("src", "idx", "end"), (v, lo, hi))))
    return out


@model("retain", "retain_mut")
def m_retain(C):
    ip = C.ip
    root, path = C.place()
    v = C.val1(0)
    k = fresh("k", (0, (1 << 63) - 1))
    et = C.elem_tid()
    st, nv = filtered(C, C.st, v, k, ip.elem(v, k, C.st.facts, C.er()),
                      lambda s: ip.callval(C.fr, s, C.args[1], [ref(root, tuple(ip.push_index(path, k, et)))]), C.args[0], (root,))
    C.set(st, 0, nv)
    return [(st, UNIT)]


@model("from_elem")
def m_from_elem(C):
    return ret(C, mk("rep", C.args[0], C.args[1]))


@model("clone", "cloned_ref", "to_string")
def m_clone(C):
    a = C.args[0]
    if C.own == "Weak" or C.own == "Rc":
        return ret(C, C.ip.read(C.st, *C.ip.deref(a)))
    return ret(C, C.val1(0))


@model("downgrade")
def m_downgrade(C):
    return ret(C, mk("weak", C.val1(0)))


@model("upgrade")
def m_upgrade(C):
    w = C.val1(0)
    rc = w.a[0] if w.op == "weak" else mk("rcof", w)
    out = []
    for s, tv in C.ip.branch(C.st, mk("alive", rc)):
        out.append((s, A.some(rc) if tv else A.NONE))
    return out


@model("ptr_eq")
def m_ptr_eq(C):
    a, b = C.val1(0), C.val1(1)
    return ret(C, TRUE if a is b else mk("keq", *sorted((a, b), key=lambda t: t.id)))


@model("strong_count", "weak_count")
def m_cnt(C):
    return ret(C, fresh("count", (0, (1 << 63) - 1)))


def tup_eq(a, b):
    """equality of tuples, element by element; None where an element needs its own notion of equality"""
    out = []
    for x, y in zip(a.a[3], b.a[3]):
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] == "()":
            r = tup_eq(x, y)
        elif rng(x) != (None, None) and rng(y) != (None, None):
            r = cmp_eq(x, y)
        elif x is y:
            r = TRUE
        else:
            r = None
        if r is None:
            return None
        out.append(r)
    return band(*out)


@model("eq", "ne")
def m_eq(C):
    a, b = C.val(0), C.val(1)
    ip = C.ip
    if a is b:
        r = TRUE
    else:
        ra, rb = rng(a), rng(b)
        t = tup_eq(a, b) if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] == "()" else None
        if t is not None:
            r = t
        elif a.op in ("int", "lin", "mod", "len") or ra != (None, None):
            r = cmp_eq(a, b)
        else:
            r = mk("keq", *sorted((a, b), key=lambda t: t.id))
    return ret(C, r if C.meth == "eq" else bnot(r))


@model("cmp", "partial_cmp", "lt", "le", "gt", "ge")
def m_cmp(C):
    """the order of integers, and of tuples of integers (lexicographic)"""
    def parts(v, t):
        if v.op == "agg" and v.a[0] == "()" and t["k"] == "tuple":
            ts = [C.ip.p.types[C.ip.p.peel(x)] for x in t["ts"]]
            if len(ts) == len(v.a[3]) and all(x["k"] in ("uint", "int") for x in ts):
                return list(v.a[3])
        return [v] if t["k"] in ("uint", "int") else None
    ts = [C.ty(i) for i in (0, 1)]
    if None in ts:
        return None
    ts = [C.ip.p.types[C.ip.p.peel(t["t"])] if t["k"] == "ref" else t for t in ts]
    a, b = (parts(C.val(i), ts[i]) for i in (0, 1))
    if a is None or b is None or len(a) != len(b):
        return None
    lt, eq = FALSE, TRUE
    for x, y in zip(a, b):
        lt, eq = bor(lt, band(eq, cmp_lt(x, y))), band(eq, cmp_eq(x, y))
    if C.meth in ("cmp", "partial_cmp"):
        o = lambda n: A.agg("std::cmp::Ordering", n, (), ())
        r = ite(lt, o("Less"), ite(eq, o("Equal"), o("Greater")))
        return ret(C, r if C.meth == "cmp" else A.some(r))
    return ret(C, {"lt": lt, "le": bor(lt, eq), "ge": bnot(lt), "gt": bnot(bor(lt, eq))}[C.meth])


@model("drop", "forget", "set_nonblocking_")
def m_drop(C):
    return ret(C, UNIT)


@model("set", "replace")
def m_cellset(C):
    if C.own not in ("Cell", "RefCell"):
        return None
    st = C.st.copy()
    old = C.val1(0)
    C.set(st, 0, C.args[1])
    return [(st, UNIT if C.meth == "set" else old)]


@model("typed_swap_nonoverlapping", "swap")
def m_swap(C):
    st = C.st.copy()
    if len(C.args) == 3:
        root, path = C.place()
        v = C.val1(0)
        t = C.ty(0)
        t = C.ip.p.types[t["t"]] if t and t["k"] == "ref" else None
        if t is None or t["k"] not in ("slice", "array"):
            return None
        et = t["t"]
        out = []
        i, j = C.args[1], C.args[2]
        L = C.ip.length(v)
        for s, tv in C.ip.branch(C.st, band(cmp_lt(i, L), cmp_lt(j, L))):
            if not tv:
                C.ip.panic(s, "swap index out of bounds", C.fr, ("Index", i, j, L))
                continue
            s = s.copy()
            pi, pj = path + (("i", i, et),), path + (("i", j, et),)
            a, b = C.ip.read(s, root, pi), C.ip.read(s, root, pj)
            C.ip.write(s, root, pi, b, C.fr)
            C.ip.write(s, root, pj, a, C.fr)
            out.append((s, UNIT))
        return out
    a, b = C.val1(0), C.val1(1)
    C.set(st, 0, b)
    C.set(st, 1, a)
    return [(st, UNIT)]


@model("read", "write")
def m_ptr_rw(C):
    if C.own != "ptr":
        return None
    if C.meth == "read":
        return ret(C, C.val1(0))
    st = C.st.copy()
    C.set(st, 0, C.args[1])
    return [(st, UNIT)]


# ------------------------------------------------------------------ panics
@model("panic", "panic_fmt", "begin_panic", "unwrap_failed", "expect_failed", "panic_display", "assert_failed", "panic_str", "unreachable_display",
       "panic_explicit", "panic_nounwind", "panic_const_div_by_zero")
def m_panic(C):
    C.ip.panic(C.st, C.fn.key.split("::")[-2] + "::" + C.meth, C.fr)
    return []


# ------------------------------------------------------------------ integers / floats
def int_ty(C, i=0):
    t = C.ty(i)
    while t and t["k"] == "ref":
        t = C.ip.p.types[t["t"]]
    return t


@model("saturating_sub", "saturating_add", "saturating_mul", "wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg", "checked_add",
       "checked_sub", "checked_mul", "abs_diff", "overflowing_sub", "overflowing_add", "rem_euclid", "div_ceil", "pow", "checked_div",
       "unsigned_abs", "wrapping_shl", "wrapping_shr", "checked_rem", "div_euclid", "next_multiple_of", "unchecked_add", "unchecked_sub",
       "checked_shl", "strict_add", "strict_sub")
def m_int(C):
    ip = C.ip
    t = int_ty(C)
    if t is None or t["k"] not in ("uint", "int"):
        return None
    bits = t["bits"]
    lo, hi = (0, (1 << bits) - 1) if t["k"] == "uint" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    a = C.val(0)
    b = C.val(1) if len(C.args) > 1 else None
    m = C.meth
    op = m.split("_")[-1]
    if m in ("abs_diff",):
        out = []
        for s, tv in ip.branch(C.st, cmp_le(b, a)):
            out.append((s, sub(a, b) if tv else sub(b, a)))
        return out
    if m == "div_ceil":
        return ret(C, ip.udiv(add(add(a, b), I(-1)), b)) if b.op == "int" else ret(C, mk("div_ceil", a, b))
    if m == "next_multiple_of":
        return ret(C, mul(ip.udiv(add(add(a, b), I(-1)), b), b)) if b.op == "int" else ret(C, mk("nmo", a, b))
    if m == "pow":
        if b.op == "int" and a.op == "int":
            return ret(C, I(a.a[0] ** b.a[0]))
        if b.op == "int" and b.a[0] <= 3:
            r = I(1)
            for _ in range(b.a[0]):
                r = mul(r, a)
            return ret(C, r)
        if a is I(2):
            return ret(C, mk("pow2", b))
        return ret(C, mk("pow", a, b))
    if m in ("rem_euclid", "checked_rem"):
        return ret(C, ip.binop("Rem", a, b, C.tids[0])) if m == "rem_euclid" else None
    if m in ("div_euclid", "checked_div"):
        r = ip.udiv(a, b) if t["k"] == "uint" else mk("sdiv", a, b)
        if m == "div_euclid":
            return ret(C, r)
        return [(s, A.NONE if tv else A.some(r)) for s, tv in ip.branch(C.st, cmp_eq(b, I(0)))]
    if m == "unsigned_abs":
        return [(s, a if tv else mulc(a, -1)) for s, tv in ip.branch(C.st, cmp_le(I(0), a))]
    if m == "wrapping_neg":
        return ret(C, mod(bits, mulc(a, -1)))
    if op in ("shl", "shr"):
        return ret(C, ip.binop("Shl" if op == "shl" else "Shr", a, b, C.tids[0])) if m.startswith("wrapping") else None
    r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
    if m.startswith("saturating"):
        if t["k"] == "uint":
            if op == "sub":
                return ret(C, minmax("max", r, I(0)))
            return ret(C, minmax("min", r, I(hi)))
        return ret(C, minmax("max", minmax("min", r, I(hi)), I(lo)))
    if m.startswith("wrapping") or m.startswith("unchecked"):
        if t["k"] == "uint":
            return ret(C, mod(bits, r))
        return ret(C, r if ip_in(C, r, lo, hi) else mk("swrap", bits, r))
    if m.startswith("strict"):
        out = []
        for s, tv in ip.branch(C.st, band(cmp_le(I(lo), r), cmp_le(r, I(hi)))):
            if tv:
                out.append((s, r))
            else:
                ip.panic(s, "Overflow", C.fr, (op.capitalize(), a, b))
        return out
    inr = band(cmp_le(I(lo), r), cmp_le(r, I(hi)))
    out = []
    for s, tv in ip.branch(C.st, inr):
        if m.startswith("checked"):
            out.append((s, A.some(r) if tv else A.NONE))
        else:
            out.append((s, A.tup(r if tv else mod(bits, r), B(not tv))))
    return out


def ip_in(C, r, lo, hi):
    l, h = rng(r)
    return l is not None and h is not None and l >= lo and h <= hi


@model("integer_max", "integer_min", "max", "min", "clamp", "max_value", "min_value", "minimum", "maximum")
def m_minmax(C):
    if C.meth in ("max_value", "min_value"):
        lo, hi = C.ip.rng_of(C.dest)
        return ret(C, I(hi if C.meth == "max_value" else lo))
    dt = C.ip.p.types[C.ip.p.peel(C.dest)] if C.dest is not None else {"k": "?"}
    if dt["k"] == "adt" and dt["name"].endswith("Option"):
        return it_minmax(C)
    a, b = C.args[0], C.args[1]
    if dt["k"] == "float":
        if C.meth == "clamp":
            return ret(C, fmm("f.min", fmm("f.max", a, b), C.args[2]))
        return ret(C, fmm("f.max" if "max" in C.meth else "f.min", a, b))
    if dt["k"] in ("uint", "int"):
        if C.meth == "clamp":
            return ret(C, minmax("min", minmax("max", a, b), C.args[2]))
        return ret(C, minmax("max" if "max" in C.meth else "min", a, b))
    return None


def fmm(op, a, b):
    if a.op == "flt" and b.op == "flt":
        return mk("flt", max(a.a[0], b.a[0]) if op == "f.max" else min(a.a[0], b.a[0]))
    if a is b:
        return a
    return mk(op, *sorted((a, b), key=lambda t: t.id))


@model("sqrt", "round", "fract", "floor", "ceil", "trunc", "abs", "powi", "powf", "exp", "ln", "recip", "mul_add", "is_nan", "is_finite", "signum",
       "cbrt", "to_bits")
def m_float(C):
    dt = C.ip.p.types[C.ip.p.peel(C.tids[0])] if C.tids else {"k": "float"}
    m = C.meth
    a = C.args[0]
    if dt["k"] in ("int", "uint") and m == "abs":
        return [(s, a if tv else mulc(a, -1)) for s, tv in C.ip.branch(C.st, cmp_le(I(0), a))]
    if dt["k"] != "float":
        return None
    if m == "recip":
        return ret(C, C.ip.fop("Div", mk("flt", 1.0), a))
    if m == "mul_add":
        return ret(C, C.ip.fop("Add", C.ip.fop("Mul", a, C.args[1]), C.args[2]))
    if m == "powi" and C.args[1].op == "int" and 0 <= C.args[1].a[0] <= 4:
        r = mk("flt", 1.0)
        for i in range(C.args[1].a[0]):
            r = a if i == 0 else C.ip.fop("Mul", r, a)
        return ret(C, r)
    if m == "sqrt" and a.op == "flt" and a.a[0] >= 0:
        return ret(C, mk("flt", a.a[0] ** 0.5))
    return ret(C, mk("f." + m, *C.args))


@model("add_assign", "sub_assign", "mul_assign", "bitor_assign", "bitand_assign", "bitxor_assign", "add", "sub", "mul", "not", "bitxor", "bitand", "bitor", "neg",
       "div", "rem", "shl", "shr")
def m_ops(C):
    ip = C.ip
    if C.own in ("Instant", "Duration") or (C.fn.key.startswith("<std::time")):
        return ret(C, mk("timeop", C.meth, *[C.val(i) for i in range(len(C.args))]))
    t = int_ty(C)
    m = C.meth
    base = m.replace("_assign", "")
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "bitor": "BitOr", "bitand": "BitAnd", "bitxor": "BitXor", "div": "Div", "rem": "Rem",
          "shl": "Shl", "shr": "Shr"}.get(base)
    if t is None or op is None or t["k"] not in ("uint", "int", "bool", "float"):
        if base == "not":
            a = C.val(0)
            return ret(C, bnot(a)) if t and t["k"] == "bool" else None
        return None
    tid = C.tids[0]
    while ip.p.types[tid]["k"] == "ref":
        tid = ip.p.types[tid]["t"]
    a, b = C.val(0), C.val(1)
    r = ip.binop(op, a, b, tid)
    out = []
    st = C.st
    if op in ("Add", "Sub", "Mul") and t["k"] in ("uint", "int"):
        lo, hi = ip.rng_of(tid)
        for s, tv in ip.branch(C.st, band(cmp_le(I(lo), r), cmp_le(r, I(hi)))):
            if tv:
                out.append(s)
            else:
                ip.panic(s, "Overflow", C.fr, (op, a, b))
    else:
        out = [st]
    res = []
    for s in out:
        if m.endswith("_assign"):
            s = s.copy()
            C.set(s, 0, r)
            res.append((s, UNIT))
        else:
            res.append((s, r))
    return res


@model("trailing_zeros", "leading_zeros", "count_ones", "is_power_of_two", "next_power_of_two", "swap_bytes", "reverse_bits", "rotate_left", "rotate_right")
def m_bits(C):
    if C.meth in ("leading_zeros", "trailing_zeros", "count_ones"):
        w = int_ty(C)["bits"]
        x = C.args[0]
        if x.op == "int":
            b = bin(x.a[0])[2:].rjust(w, "0")
            return ret(C, I({"leading_zeros": w - len(b.lstrip("0")), "trailing_zeros": w - len(b.rstrip("0")), "count_ones": b.count("1")}[C.meth]))
        t = mk("app", C.meth, (x,), (0, w))
        z = cmp_eq(x, I(0))
        e = I(0) if C.meth == "count_ones" else I(w)
        fs = [bor(bnot(z), cmp_eq(t, e)), bor(z, bnot(cmp_eq(t, e)))]
        s = C.st.copy()
        s.facts = s.facts.plus(*fs)
        return [(s, t)]
    return ret(C, mk("app", C.meth, tuple(C.args), (0, (1 << 64) - 1)))


@model("to_be_bytes", "to_le_bytes", "to_ne_bytes", "from_be_bytes", "from_le_bytes")
def m_bytes(C):
    ip = C.ip
    if C.meth.startswith("to_"):
        t = int_ty(C)
        n = t["bits"] // 8
        a = C.args[0]
        bs = [mod(8, ip.shr(a, 8 * i)) for i in range(n)]
        if C.meth == "to_be_bytes":
            bs.reverse()
        return ret(C, mk("arr", *bs))
    t = ip.p.types[C.dest]
    n = t["bits"] // 8
    bs = [ip.elem(C.args[0], I(i), C.st.facts, (0, 255)) for i in range(n)]
    if C.meth == "from_be_bytes":
        bs.reverse()
    r = I(0)
    for i, b in enumerate(bs):
        r = add(r, mulc(b, 1 << (8 * i)))
    return ret(C, r)


@model("try_into", "try_from")
def m_try(C):
    ip = C.ip
    dt = ip.p.types[C.dest]
    if dt["k"] != "adt" or not dt.get("args"):
        return None
    inner = ip.p.types[dt["args"][0]]
    a = C.args[0]
    if inner["k"] in ("uint", "int"):
        lo, hi = ip.rng_of(dt["args"][0])
        out = []
        for s, tv in ip.branch(C.st, band(cmp_le(I(lo), a), cmp_le(a, I(hi)))):
            out.append((s, A.ok(a) if tv else A.err(mk("tryerr"))))
        return out
    if inner["k"] == "array":
        v = C.val1(0)
        out = []
        for s, tv in ip.branch(C.st, cmp_eq(ip.length(v), I(inner["n"]))):
            out.append((s, A.ok(v) if tv else A.err(mk("tryerr"))))
        return out
    return None


# ------------------------------------------------------------------ iterators
def slice_iter(C, r, mut=False):
    ip = C.ip
    root, path = ip.deref(r)
    v = ip.read(C.st, root, path)
    lo, hi = I(0), ip.length(v)
    if path and path[-1][0] == "r":
        lo, hi = path[-1][1], path[-1][2]
        path = path[:-1]
    return A.agg("$iter", "", ("src", "idx", "end", "et"), (ref(root, path), lo, hi, I(C.elem_tid() if C.elem_tid() is not None else -1)))


@model("iter", "iter_mut")
def m_iter(C):
    if C.own in ("HashMap", "BinaryHeap", "BTreeMap", "HashSet", "Option"):
        if C.own == "HashMap":
            return ret(C, A.agg("$vals", "", ("src", "idx", "end", "kv"), (C.args[0], I(0), C.ip.length(C.val1(0)), TRUE)))
        return None
    return ret(C, slice_iter(C, C.args[0]))


@model("chunks", "chunks_exact")
def m_chunks(C):
    if C.args[0].op != "ref" or C.args[1].op != "int" or C.args[1].a[0] <= 0:
        return None
    it = slice_iter(C, C.args[0])
    d = dict(zip(it.a[2], it.a[3]))
    return ret(C, A.agg("$chunks", "", ("src", "idx", "end", "n", "whole"), (d["src"], d["idx"], d["end"], C.args[1], B(C.meth == "chunks_exact"))))


@model("values", "values_mut", "keys")
def m_values(C):
    return ret(C, A.agg("$vals", "", ("src", "idx", "end", "kv"), (C.args[0], I(0), C.ip.length(C.val1(0)), TRUE if C.meth == "keys" else FALSE)))


@model("into_iter", "into_values")
def m_into_iter(C):
    v = into_iter(C, C.args[0], 0)
    return None if v is None else ret(C, v)


def into_iter(C, a, argi=1):
    ip = C.ip
    if a.op == "agg" and (a.a[0].startswith("$") or "Range" in a.a[0]):
        return a
    t = C.ty(argi) if C.tids and argi < len(C.tids) else None
    if a.op == "ref":
        v = ip.read(C.st, a.a[0], a.a[1])
        if v.op == "agg" and (v.a[0].startswith("$") or "Range" in v.a[0]):
            return A.agg("$byref", "", ("it",), (a,))
        if t and t["k"] == "ref":
            it = ip.p.types[t["t"]]
            if it["k"] == "adt" and it["name"].endswith("Option"):
                return None
        C2 = Ctx(ip, C.fr, C.st, C.fn, [a], C.dest, [C.tids[argi]] if C.tids else None, C.own, C.trait, C.meth)
        return slice_iter(C2, a)
    if t and t["k"] == "ref":
        C2 = Ctx(ip, C.fr, C.st, C.fn, [a], C.dest, [C.tids[argi]] if C.tids else None, C.own, C.trait, C.meth)
        return slice_iter(C2, a)
    if t and t["k"] == "adt" and t["name"].endswith("option::Option"):
        return A.agg("$opt", "", ("o",), (a,))
    if t and t["k"] == "adt" and t["name"].split("::")[-1] in ("Vec", "VecDeque", "Box") or (t and t["k"] == "array"):
        return A.agg("$into", "", ("src", "idx", "end"), (a, I(0), ip.length(a)))
    if t and t["k"] == "adt" and t["name"].split("::")[-1] in ("IntoIter",):
        return A.agg("$ext", "", ("o", "n"), (a, I(0)))
    return None


@model("map", "filter", "filter_map", "enumerate", "rev", "skip", "take", "zip", "chain", "cloned", "copied", "take_while", "skip_while", "map_while", "peekable",
       "step_by", "inspect", "fuse", "flat_map", "flatten", "windows", "scan")
def m_adapter(C):
    ip = C.ip
    m = C.meth
    a = C.args[0]
    if m in ("flat_map", "flatten", "scan", "windows", "step_by"):
        return None
    if not is_iter(a):
        if C.own == "Option":
            return None
        return None
    if m in ("map", "filter", "filter_map", "take_while", "map_while", "inspect", "skip_while"):
        return ret(C, A.agg("$" + m, "", ("it", "f"), (a, C.args[1])))
    if m == "enumerate":
        return ret(C, A.agg("$enumerate", "", ("it", "n"), (a, I(0))))
    if m == "rev":
        return ret(C, A.agg("$rev", "", ("it",), (a,)))
    if m in ("cloned", "copied"):
        return ret(C, A.agg("$cloned", "", ("it",), (a,)))
    if m == "fuse":
        return ret(C, a)
    if m == "skip" and a.a[0] in ("$iter", "$into"):
        d = dict(zip(a.a[2], a.a[3]))
        if C.st.facts.prove(cmp_le(add(d["idx"], C.args[1]), d["end"])):
            d["idx"] = add(d["idx"], C.args[1])
        else:
            d["idx"] = minmax("min", add(d["idx"], C.args[1]), d["end"])
        return ret(C, A.agg(a.a[0], "", a.a[2], [d[n] for n in a.a[2]]))
    if m == "take" and a.a[0] in ("$iter", "$into"):
        d = dict(zip(a.a[2], a.a[3]))
        d["end"] = minmax("min", add(d["idx"], C.args[1]), d["end"])
        return ret(C, A.agg(a.a[0], "", a.a[2], [d[n] for n in a.a[2]]))
    if m in ("skip", "take"):
        return ret(C, A.agg("$" + m, "", ("it", "n"), (a, C.args[1])))
    if m in ("zip", "chain"):
        b = into_iter(C, C.args[1])
        if b is None:
            return None
        return ret(C, A.agg("$" + m, "", ("it", "b"), (a, b)))
    if m == "peekable":
        return ret(C, A.agg("$peekable", "", ("it", "p"), (a, A.NONE)))
    return None


def is_iter(a):
    return a.op == "agg" and (a.a[0].startswith("$") or "Range" in a.a[0])


def it_len(ip, st, v):
    d = dict(zip(v.a[2], v.a[3]))
    if v.a[0] in ("$iter", "$into", "$vals"):
        return sub(d["end"], d["idx"])
    if v.a[0] in ("$map", "$rev", "$cloned", "$enumerate"):
        return it_len(ip, st, d["it"])
    if v.a[0].endswith("Range"):
        return minmax("max", I(0), sub(d["end"], d["start"]))
    return fresh("itlen", (0, (1 << 63) - 1))


def nextv(C, st, it, back=False):
    """[(state, new iterator, None | item)]"""
    ip = C.ip
    k = it.a[0]
    d = dict(zip(it.a[2], it.a[3]))

    def new(**kw):
        return A.agg(k, it.a[1], it.a[2], [kw.get(n, d[n]) for n in it.a[2]])
    out = []
    if k == "$iter":
        et = d["et"].a[0] if d["et"].a[0] >= 0 else None
        root, path = d["src"].a[0], d["src"].a[1]
        for s, tv in ip.branch(st, cmp_lt(d["idx"], d["end"])):
            if not tv:
                out.append((s, it, None))
            elif back:
                i = add(d["end"], I(-1))
                out.append((s, new(end=i), ref(root, tuple(ip.push_index(path, i, et)))))
            else:
                out.append((s, new(idx=add(d["idx"], I(1))), ref(root, tuple(ip.push_index(path, d["idx"], et)))))
        return out
    if k == "$chunks":
        if back:
            return None
        root, path = d["src"].a[0], d["src"].a[1]
        to = add(d["idx"], d["n"])
        for s, tv in ip.branch(st, cmp_le(to, d["end"])):
            if tv:
                out.append((s, new(idx=to), ref(root, tuple(path) + (("r", d["idx"], to),))))
            elif d["whole"] is TRUE:
                out.append((s, it, None))
            else:
                for s2, tv2 in ip.branch(s, cmp_lt(d["idx"], d["end"])):
                    out.append((s2, new(idx=d["end"]), ref(root, tuple(path) + (("r", d["idx"], d["end"]),))) if tv2 else (s2, it, None))
        return out
    if k == "$into":
        for s, tv in ip.branch(st, cmp_lt(d["idx"], d["end"])):
            if not tv:
                out.append((s, it, None))
            elif back:
                i = add(d["end"], I(-1))
                out.append((s, new(end=i), ip.elem(d["src"], i, s.facts)))
            else:
                out.append((s, new(idx=add(d["idx"], I(1))), ip.elem(d["src"], d["idx"], s.facts)))
        return out
    if k == "$vals":
        root, path = ip.deref(d["src"])
        m = ip.read(st, root, path)
        for s, tv in ip.branch(st, cmp_lt(d["idx"], d["end"])):
            if not tv:
                out.append((s, it, None))
            else:
                key = mk("mkey", m, d["idx"])
                s = s.assume(ip.mhas(m, key, s.facts))
                out.append((s, new(idx=add(d["idx"], I(1))), ref(root, path + (("m", key),))))
        return out
    if k.endswith("ops::Range"):
        for s, tv in ip.branch(st, cmp_lt(d["start"], d["end"])):
            if not tv:
                out.append((s, it, None))
            elif back:
                i = add(d["end"], I(-1))
                out.append((s, new(end=i), i))
            else:
                out.append((s, new(start=add(d["start"], I(1))), d["start"]))
        return out
    if k.endswith("ops::RangeFrom"):
        return [(st, new(start=add(d["start"], I(1))), d["start"])]
    if k.endswith("RangeInclusive"):
        ex = d.get("exhausted", FALSE)
        for s, tv in ip.branch(st, band(bnot(ex), cmp_le(d["start"], d["end"]))):
            if not tv:
                out.append((s, it, None))
                continue
            for s2, last in ip.branch(s, cmp_eq(d["start"], d["end"])):
                if last:
                    out.append((s2, new(exhausted=TRUE), d["start"]))
                elif back:
                    out.append((s2, new(end=add(d["end"], I(-1))), d["end"]))
                else:
                    out.append((s2, new(start=add(d["start"], I(1))), d["start"]))
        return out
    if k == "$opt":
        o = d["o"]
        if o.op == "agg":
            return [(st, new(o=A.NONE), o.a[3][0] if o.a[1] == "Some" else None)]
        for s, tv in ip.branch(st, cmp_eq(mk("discr", o, 2), I(1))):
            out.append((s, new(o=A.NONE), mk("fld", mk("as", o, "Some"), "0", None) if tv else None))
        return out
    if k == "$ext":
        b = mk("itmore", d["o"], d["n"])
        for s, tv in ip.branch(st, b):
            out.append((s, new(n=add(d["n"], I(1))), mk("elem", d["o"], d["n"], None) if tv else None))
        return out
    if k == "$byref":
        root, path = ip.deref(d["it"])
        for s, n, v in nextv(C, st, ip.read(st, root, path), back):
            s = s.copy()
            ip.write(s, root, path, n, C.fr)
            out.append((s, it, v))
        return out
    if k == "$rev":
        return [(s, new(it=n), v) for s, n, v in nextv(C, st, d["it"], not back)]
    if k == "$map":
        for s, n, v in nextv(C, st, d["it"], back):
            if v is None:
                out.append((s, new(it=n), None))
            else:
                for s2, r in ip.callval(C.fr, s, d["f"], [v]):
                    out.append((s2, new(it=n), r))
        return out
    if k == "$inspect":
        for s, n, v in nextv(C, st, d["it"], back):
            if v is None:
                out.append((s, new(it=n), None))
            else:
                for s2, r in ip.callval(C.fr, s, d["f"], [tmp(C, s, v)]):
                    out.append((s2, new(it=n), v))
        return out
    if k == "$cloned":
        for s, n, v in nextv(C, st, d["it"], back):
            out.append((s, new(it=n), None if v is None else (ip.read(s, *ip.deref(v)) if v.op == "ref" else v)))
        return out
    if k == "$enumerate":
        for s, n, v in nextv(C, st, d["it"], back):
            out.append((s, new(it=n, n=add(d["n"], I(1))), None if v is None else A.tup(d["n"], v)))
        return out
    if k == "$zip":
        for s, n, v in nextv(C, st, d["it"], back):
            if v is None:
                out.append((s, new(it=n), None))
                continue
            for s2, n2, v2 in nextv(C, s, d["b"], back):
                out.append((s2, new(it=n, b=n2), None if v2 is None else A.tup(v, v2)))
        return out
    if k == "$chain":
        for s, n, v in nextv(C, st, d["it"], back):
            if v is not None:
                out.append((s, new(it=n), v))
            else:
                for s2, n2, v2 in nextv(C, s, d["b"], back):
                    out.append((s2, new(it=n, b=n2), v2))
        return out
    if k in ("$take",):
        for s, tv in ip.branch(st, cmp_lt(I(0), d["n"])):
            if not tv:
                out.append((s, it, None))
            else:
                for s2, n, v in nextv(C, s, d["it"], back):
                    out.append((s2, new(it=n, n=add(d["n"], I(-1))), v))
        return out
    if k in ("$take_while",):
        for s, n, v in nextv(C, st, d["it"], back):
            if v is None:
                out.append((s, new(it=n), None))
                continue
            for s2, r in ip.callval(C.fr, s, d["f"], [tmp(C, s, v)]):
                for s3, tv in ip.branch(s2, r):
                    out.append((s3, new(it=n), v if tv else None))
        return out
    if k == "$map_while":
        for s, n, v in nextv(C, st, d["it"], back):
            if v is None:
                out.append((s, new(it=n), None))
                continue
            for s2, r in ip.callval(C.fr, s, d["f"], [v]):
                for s3, x in opt(C, s2, r):
                    out.append((s3, new(it=n), x))
        return out
    if k in ("$filter", "$filter_map"):
        # a run of rejected items followed by an accepted one (or by the end)
        base = d["it"]
        root = tmproot(C)
        s0 = st.copy()
        s0.mem[root] = base
        acc = []

        def step(s):
            outs = []
            for s2, n, v in nextv(C, s, s.mem[root], back):
                s2 = s2.copy()
                s2.mem[root] = n
                if v is None:
                    outs.append(("exit", (None,), s2))
                    continue
                for s3, r in ip.callval(C.fr, s2, d["f"], [tmp(C, s2, v) if k == "$filter" else v]):
                    if k == "$filter":
                        for s4, tv in ip.branch(s3, r):
                            outs.append(("exit", (v,), s4) if tv else ("back", s4))
                    else:
                        for s4, x in opt(C, s3, r):
                            outs.append(("exit", (x,), s4) if x is not None else ("back", s4))
            return outs
        for b, s in ip.loop_core(C.fr, "%s:%s" % (C.fr.fn.key, k), C.fr.line, s0, step):
            n = s.mem[root]
            s = s.copy()
            del s.mem[root]
            out.append((s, new(it=n), b[0]))
        return out
    if k == "$skip":
        raise A.Undecided("skip on a composed iterator")
    if k == "$peekable":
        p = d["p"]
        if p.op == "agg" and p.a[1] == "Some":
            q = p.a[3][0]
            return [(st, new(p=A.NONE), q.a[3][0] if q.a[1] == "Some" else None)]
        return [(s, new(it=n), v) for s, n, v in nextv(C, st, d["it"], back)]
    raise A.Undecided("iterator %s" % k)


def opt(C, st, r):
    if r.op == "agg":
        return [(st, r.a[3][0] if r.a[1] == "Some" else None)]
    out = []
    for s, tv in C.ip.branch(st, cmp_eq(mk("discr", r, 2), I(1))):
        out.append((s, mk("fld", mk("as", r, "Some"), "0", None) if tv else None))
    return out


def tmproot(C):
    C.ip.nfid += 1
    return ("L", C.ip.nfid, 0)


def tmp(C, st, v):
    root = tmproot(C)
    st.mem[root] = v
    return ref(root, ())


@model("next", "next_back", "pop_if")
def m_next(C):
    ip = C.ip
    root, path = C.place()
    it = ip.read(C.st, root, path)
    if not is_iter(it):
        if C.meth == "next" and C.dest is not None and "SocketAddr" in ip.p.types[C.dest]["s"] and it.op in ("fld", "sym", "ini"):
            # resolved addresses: any of them may come first, or none
            s = C.st.copy()
            ip.write(s, root, path, fresh("addrs"), C.fr, quiet=True)
            return [(s, ip.newsym("addr", C.dest))]
        return None
    out = []
    for s, n, v in nextv(C, C.st, it, C.meth == "next_back"):
        s = s.copy()
        ip.write(s, root, path, n, C.fr, quiet=True)
        out.append((s, A.NONE if v is None else A.some(v)))
    return out


def consume(C, st, it, acc, body, end):
    """fold-like consumer summarised as a loop"""
    ip = C.ip
    r1, r2 = tmproot(C), tmproot(C)
    s0 = st.copy()
    s0.mem[r1] = it
    s0.mem[r2] = acc if acc is not None else UNIT

    def step(s):
        outs = []
        for s2, n, v in nextv(C, s, s.mem[r1]):
            s2 = s2.copy()
            s2.mem[r1] = n
            if v is None:
                outs.append(("exit", ("end",), s2))
                continue
            for s3, what, x in body(s2, s2.mem[r2], v):
                s3 = s3.copy()
                if what == "cont":
                    s3.mem[r2] = x
                    outs.append(("back", s3))
                else:
                    outs.append(("exit", ("res", x), s3))
        return outs
    out = []
    res = None
    if ip.short_iter(it):
        ip.quiet += 1
        try:
            res = ip.unrolled(step, s0)
        finally:
            ip.quiet -= 1
        if res is not None and not ip.quiet:
            res = ip.unrolled(step, s0)
    if res is None:
        res = ip.loop_core(C.fr, "%s:%s" % (C.fr.fn.key, C.meth), C.fr.line, s0, step)
    for b, s in res:
        s = s.copy()
        a = s.mem[r2]
        s.mem.pop(r1, None)
        s.mem.pop(r2, None)
        if b[0] == "end":
            for s2, v in end(s, a):
                out.append((s2, v))
        else:
            out.append((s, b[1]))
    return out


@model("count", "sum", "any", "all", "for_each", "fold", "find", "position", "find_map", "nth", "max_by_key", "min_by_key", "max_by", "min_by", "product",
       "collect", "try_for_each", "unzip", "rposition")
def m_consume(C):
    ip = C.ip
    m = C.meth
    a = C.args[0]
    if a.op == "ref":
        root, path = a.a
        v = ip.read(C.st, root, path)
        if is_iter(v):
            a = A.agg("$byref", "", ("it",), (C.args[0],))
    if not is_iter(a):
        return None
    one = lambda s, x: [(s, x)]
    st = C.st
    if m == "collect":
        return collect(C, st, a)
    if m == "count":
        if a.a[0] in ("$iter", "$into"):
            return ret(C, it_len(ip, st, a))
        return consume(C, st, a, I(0), lambda s, acc, v: [(s, "cont", add(acc, I(1)))], one)
    if m in ("sum",):
        dt = ip.p.types[ip.p.peel(C.dest)]

        def b(s, acc, v):
            if v.op == "ref":
                v = ip.read(s, *ip.deref(v))
            return [(s, "cont", ip.fop("Add", acc, v) if dt["k"] == "float" else add(acc, v))]
        return consume(C, st, a, mk("flt", 0.0) if dt["k"] == "float" else I(0), b, one)
    if m in ("any", "all"):
        def b(s, acc, v):
            out = []
            for s2, r in ip.callval(C.fr, s, C.args[1], [v]):
                for s3, tv in ip.branch(s2, r):
                    if tv == (m == "any"):
                        out.append((s3, "done", B(tv)))
                    else:
                        out.append((s3, "cont", UNIT))
            return out
        return consume(C, st, a, None, b, lambda s, x: [(s, B(m == "all"))])
    if m == "for_each":
        return consume(C, st, a, None, lambda s, acc, v: [(s2, "cont", UNIT) for s2, r in ip.callval(C.fr, s, C.args[1], [v])],
                       lambda s, x: [(s, UNIT)])
    if m == "fold":
        return consume(C, st, a, C.args[1], lambda s, acc, v: [(s2, "cont", r) for s2, r in ip.callval(C.fr, s, C.args[2], [acc, v])], one)
    if m in ("find", "position"):
        def b(s, acc, v):
            out = []
            for s2, r in ip.callval(C.fr, s, C.args[1], [tmp(C, s, v) if m == "find" else v]):
                for s3, tv in ip.branch(s2, r):
                    out.append((s3, "done", A.some(v if m == "find" else acc)) if tv else (s3, "cont", add(acc, I(1)) if m == "position" else UNIT))
            return out
        return consume(C, st, a, I(0) if m == "position" else None, b, lambda s, x: [(s, A.NONE)])
    if m == "find_map":
        def b(s, acc, v):
            out = []
            for s2, r in ip.callval(C.fr, s, C.args[1], [v]):
                for s3, x in opt(C, s2, r):
                    out.append((s3, "done", A.some(x)) if x is not None else (s3, "cont", UNIT))
            return out
        return consume(C, st, a, None, b, lambda s, x: [(s, A.NONE)])
    return None


def collect(C, st, it):
    """[(state, container)]"""
    ip = C.ip
    # closed form when the iterator is an index-wise image with a pure generator
    k = fresh("j", (0, (1 << 63) - 1))
    g = gen(C, st, it, k)
    if g is not None:
        v, n = g
        if v.op == "elem" and v.a[1] is k and k not in subterms(v.a[0]):
            c = v.a[0]
            return [(st, c if n is ip.length(c) else ip.mkslice(c, I(0), n, st.facts))]
        if k not in subterms(v):
            return [(st, mk("rep", v, n))]
        return [(st, mk("gen", k, v, n))]
    if it.a[0] == "$filter":
        d = dict(zip(it.a[2], it.a[3]))
        g = gen(C, st, d["it"], k)
        v = g[0] if g else None
        if v is not None and v.op == "elem" and v.a[1] is k and k not in subterms(v.a[0]) and g[1] is ip.length(v.a[0]):
            return [(filtered(C, st, v.a[0], k, v, lambda s: ip.callval(C.fr, s, d["f"], [tmp(C, s, v)]), UNIT, ()))]
    return consume(C, st, it, mk("vempty"), lambda s, acc, v: [(s, "cont", mk("pushb", acc, v))], lambda s, x: [(s, x)])


def filtered(C, st, v, k, el, pred, place, own):
    """(state, the elements of v satisfying pred, in order)"""
    ip = C.ip
    L = ip.length(v)
    st = st.copy()
    s0 = st.assume(cmp_lt(k, L))
    outs = list(pred(s0))
    nv = mk("filt", v, fresh("retain"))
    C.ev(st, "retain", (place, k, el), nv, {"outs": outs, "base": s0, "src": v, "k": k})
    # effects of the predicate on captured state
    for s, rv in outs:
        for r, val in s.mem.items():
            if r in st.mem and st.mem[r] is not val and r not in own:
                st.mem[r] = fresh("retain~", None)
    st.facts = st.facts.plus(cmp_le(mk("len", nv), L))
    return st, nv


def gen(C, st, it, k):
    ip = C.ip
    n = it.a[0]
    d = dict(zip(it.a[2], it.a[3]))
    if n.endswith("ops::Range"):
        return add(d["start"], k), minmax("max", I(0), sub(d["end"], d["start"]))
    if n == "$into":
        return ip.elem(d["src"], add(d["idx"], k), st.facts), sub(d["end"], d["idx"])
    if n == "$iter":
        root, path = d["src"].a
        et = d["et"].a[0] if d["et"].a[0] >= 0 else None
        return ref(root, tuple(ip.push_index(path, add(d["idx"], k), et))), sub(d["end"], d["idx"])
    if n == "$cloned":
        g = gen(C, st, d["it"], k)
        if g is None:
            return None
        return (ip.read(st, *ip.deref(g[0])) if g[0].op == "ref" else g[0]), g[1]
    if n == "$enumerate":
        g = gen(C, st, d["it"], k)
        return None if g is None else (A.tup(add(d["n"], k), g[0]), g[1])
    if n == "$map":
        g = gen(C, st, d["it"], k)
        if g is None:
            return None
        ip.quiet += 1
        try:
            s0 = st.assume(cmp_lt(k, g[1]))
            outs = ip.callval(C.fr, s0, d["f"], [g[0]])
        finally:
            ip.quiet -= 1
        if len(outs) == 1 and outs[0][0].trace is st.trace and all(st.mem.get(r) is v for r, v in outs[0][0].mem.items() if r in st.mem):
            if not ip.quiet:
                ip.callval(C.fr, s0, d["f"], [g[0]])        # once more for its panics
            return outs[0][1], g[1]
    return None


def it_minmax(C):
    """Iterator::max / min over integers: a running maximum starting with the first element"""
    a = C.args[0]
    if C.meth not in ("max", "min") or not is_iter(a):
        return None
    out = []
    for s, n, v in nextv(C, C.st, a):
        if v is None:
            out.append((s, A.NONE))
            continue
        if v.op in ("ref", "agg"):
            return None
        out += consume(C, s, n, v, lambda s2, acc, x: [(s2, "cont", minmax(C.meth, acc, x))], lambda s2, x: [(s2, A.some(x))])
    return out


# ------------------------------------------------------------------ environment
@model("now")
def m_now(C):
    v = fresh("now")
    st = C.st.copy()
    C.ip.event(st, "io", "Instant::now", (), v, C.fr)
    return [(st, v)]


@model("elapsed", "duration_since", "saturating_duration_since", "as_millis", "as_secs_f64", "as_secs", "as_micros", "as_nanos", "from_millis", "from_secs", "subsec_nanos")
def m_time(C):
    v = C.val(0)
    ip = C.ip
    if C.meth == "elapsed":
        n = fresh("now")
        st = C.st.copy()
        ip.event(st, "io", "Instant::now", (), n, C.fr)
        return [(st, mk("timeop", "sub", n, v))]
    if C.meth in ("duration_since", "saturating_duration_since"):     # the clock is monotonic
        return ret(C, mk("timeop", "sub", v, C.val(1)))
    r = ip.rng_of(C.dest)
    if r is None:
        return ret(C, mk("timef", C.meth, v))
    return ret(C, mk("app", "time." + C.meth, (v,), r))


@model("random")
def m_random(C):
    v = ip_sym(C, "random")
    st = C.st.copy()
    C.ip.event(st, "io", "random", (), v, C.fr)
    return [(st, v)]


def ip_sym(C, h):
    return C.ip.newsym(h, C.dest)


@model("recv", "recv_from", "send", "send_to", "bind", "connect", "local_addr", "peer_addr", "set_nonblocking", "to_socket_addrs", "set_read_timeout")
def m_sock(C):
    if C.own not in ("UdpSocket",) and C.meth != "to_socket_addrs":
        return None
    ip = C.ip
    st = C.st.copy()
    args = []
    for i, a in enumerate(C.args):
        t = C.ty(i)
        if i > 0 and a.op == "ref" and t and t["k"] == "ref" and not t["mut"]:
            args.append(ip.read(st, a.a[0], a.a[1]))
        else:
            args.append(a)
    rv = ip_sym(C, C.meth)
    if C.meth in ("recv", "recv_from"):
        root, path = ip.deref(C.args[1])
        buf = ip.read(st, root, path)
        L = ip.length(buf)
        data = mk("io.bytes", rv, L)
        # the buffer keeps its length
        nv = fresh("rx")
        st.facts = st.facts.plus(cmp_eq(mk("len", nv), L))
        ev = ip.event(st, "io", C.meth, tuple(args), rv, C.fr, {"buf": nv})
        ip.write(st, root, path, nv, C.fr, quiet=True)
        okv = mk("as", rv, "Ok")
        n = mk("fld", okv, "0", (0, (1 << 64) - 1)) if C.meth == "recv" else mk("fld", mk("fld", okv, "0", None), "0", (0, (1 << 64) - 1))
        st.facts = st.facts.plus(cmp_le(n, L))
    else:
        ip.event(st, "io", C.meth, tuple(args), rv, C.fr)
    return [(st, rv)]


@model("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish",
       "debug_struct_field5_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish", "debug_tuple_field2_finish", "write_str", "fmt",
       "new_display", "new_debug")
def m_fmt(C):
    return ret(C, ip_sym(C, "fmt"))
