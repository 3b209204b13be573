"""The extracted program: types, functions, control-flow facts (loops, liveness), canonical names."""
import re


def strip_generics(s):
    """remove <...> argument lists after `::` and on type names, keep `<X as T>` heads"""
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).strip(":")


class Fn:
    __slots__ = ("id", "name", "defn", "local", "file", "line", "argc", "locals", "spread", "names", "blocks", "kind",
                 "crate", "unsafe", "prog", "_succ", "_loops", "_live", "key", "_pred")

    def __init__(self, f):
        self.id, self.name, self.defn, self.local = f["id"], f["name"], f["def"], f["local"]
        self.file, self.line, self.kind, self.crate = f["file"], f["line"], f["kind"], f["crate"]
        self.unsafe = f.get("unsafe", False)
        self.argc, self.locals, self.spread = f.get("argc"), f.get("locals"), f.get("spread")
        self.names = {i: n for i, n in f.get("names", [])}
        self.blocks = f.get("blocks")
        self._succ = self._loops = self._live = self._pred = None
        self.key = canon_fn(self.defn)

    def succ(self, b):
        if self._succ is None:
            self._succ = [block_succ(x["t"]) for x in self.blocks]
        return self._succ[b]

    def reach(self):
        seen, work = {0}, [0]
        while work:
            b = work.pop()
            for s in self.succ(b):
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        return seen

    def loops(self):
        """header -> set of body blocks (natural loops, merged per header)"""
        if self._loops is not None:
            return self._loops
        reach = sorted(self.reach())
        preds = {b: [] for b in reach}
        for b in reach:
            for s in self.succ(b):
                preds[s].append(b)
        # dominators
        allb = set(reach)
        dom = {b: set(allb) for b in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in reach:
                if b == 0:
                    continue
                ps = [dom[p] for p in preds[b]]
                n = set.intersection(*ps) if ps else set()
                n = n | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in reach:
            for s in self.succ(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self._loops = loops
        return loops

    def live_in(self):
        """block -> locals live at entry (address-taken locals count as live everywhere they are initialised)"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
        addr = set()
        for b, blk in enumerate(self.blocks):
            u, d = use[b], dfn[b]

            def rd(pl):
                if pl[0] not in d:
                    u.add(pl[0])
                for e in pl[1]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def op(o):
                if o[0] in ("cp", "mv"):
                    rd(o[1])

            def wr(pl):
                if pl[1]:
                    rd(pl)
                else:
                    d.add(pl[0])
            for ln, pl, rv in blk["s"]:
                k = rv[0]
                if k in ("use", "assume"):
                    op(rv[1])
                elif k in ("ref", "addr"):
                    rd(rv[-1])
                    if not any(e[0] == "*" for e in rv[-1][1]):
                        addr.add(rv[-1][0])
                elif k in ("bin", "cbin"):
                    op(rv[2])
                    op(rv[3])
                elif k in ("un", "cast"):
                    op(rv[2])
                elif k in ("discr", "len"):
                    rd(rv[1])
                elif k == "rep":
                    op(rv[1])
                elif k == "agg":
                    for o in rv[2]:
                        op(o)
                if pl is not None:
                    wr(pl)
            t = blk["t"]
            if t[0] == "switch":
                op(t[1])
            elif t[0] == "assert":
                op(t[1])
                if t[5] and len(t[5]) > 1:
                    for o in t[5][1:]:
                        op(o)
            elif t[0] == "call":
                op(t[1])
                for o in t[2]:
                    op(o)
                wr(t[3])
            elif t[0] == "drop":
                rd(t[1])
            elif t[0] == "return":
                u.add(0) if 0 not in d else None
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in self.succ(b):
                    o |= live[s]
                x = use[b] | (o - dfn[b])
                if x != live[b]:
                    live[b] = x
                    ch = True
        self._live = (live, addr)
        return self._live


def block_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = [b for _, b in t[2]]
        if t[3] is not None:
            r.append(t[3])
        return r
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


def home(d):
    """inherent methods are known by their type, whatever module the impl block stands in"""
    while True:
        i = d.find("<impl uflow::")
        if i <= 0:
            return d
        n, j = 0, i
        while j < len(d):
            n += {"<": 1, ">": -1}.get(d[j], 0) if d[j - 1:j + 1] != "->" else 0
            j += 1
            if n == 0:
                break
        ty = d[i + 6:j - 1]
        if " for " in ty:
            return d
        k = i
        while k and (d[k - 1].isalnum() or d[k - 1] in "_:"):
            k -= 1
        d = d[:k] + ty + d[j:]


def canon_fn(d):
    """definition path without the crate name, generics or lifetimes"""
    s = re.sub(r"\{closure#(\d+)\}", r"{closure\1}", d)
    if s.startswith("<"):
        m = re.match(r"^<(.*) as (.*)>::([A-Za-z0-9_{}]+)(.*)$", s)
        if m:
            return "<%s as %s>::%s%s" % (strip_generics(m.group(1)).replace("uflow::", ""),
                                         strip_generics(m.group(2)).replace("uflow::", ""), m.group(3), m.group(4))
    s = strip_generics(s)
    if s.startswith("uflow::"):
        s = s[7:]
    return s


class Prog:
    def __init__(self, dump):
        from .alias import canonical, layout
        for f in dump["fns"]:
            f["def"], f["name"] = home(f["def"]), home(f["name"])
        self.renamed = canonical(dump)
        self.layout, self.unwrap = layout(dump)
        self.renamed += ["%s%s.%s is now %s" % (k[0], "::" + k[1] if k[1] else "", g, h[1] if h[0] != "path" else ".".join(h[1]))
                         for k, m in sorted(self.layout.items(), key=str) for g, h in sorted(m.items())]
        self.types = {int(k): v for k, v in dump["types"].items()}
        self.fns = [Fn(f) for f in dump["fns"]]
        self.byid = {f.id: f for f in self.fns}
        self.statics = dump["statics"]
        self.impls = dump.get("impls", [])
        for f in self.fns:
            f.prog = self
        self.roots = dump["roots"]
        self.bykey = {}
        for f in self.fns:
            if f.blocks is not None and f.local:
                self.bykey.setdefault(f.key, []).append(f)
        self.adt_by_name = {}
        for t in self.types.values():
            if t.get("name") == "std::cmp::Ordering":       # i8 discriminants
                for v in t.get("variants", ()):
                    v["d"] = -1 if v["name"] == "Less" else v["d"]
        for tid, t in self.types.items():
            if t["k"] == "adt":
                self.adt_by_name.setdefault(t["name"], []).append(tid)
        from .consts import infer
        self.constant = infer(self)

    def ty(self, tid):
        return self.types[tid]

    def fn(self, key, pick=None):
        fs = self.bykey.get(key, [])
        if pick:
            fs = [f for f in fs if pick in f.name]
        return fs[0] if fs else None

    def is_box(self, tid):
        t = self.types[tid]
        return t["k"] == "adt" and t["name"] in ("std::boxed::Box", "alloc::boxed::Box")

    TRANSPARENT = ("std::boxed::Box", "std::cell::RefCell", "std::cell::Cell", "std::cell::UnsafeCell",
                   "std::mem::ManuallyDrop", "std::mem::MaybeUninit", "std::mem::maybe_dangling::MaybeDangling")

    def peel(self, tid):
        """type of the value stored at a place, looking through owning wrappers that the memory model ignores"""
        t = self.types[tid]
        while t["k"] == "adt" and (t["name"] in self.TRANSPARENT or t["name"].endswith("::MaybeDangling")) and t.get("args"):
            tid = t["args"][0]
            t = self.types[tid]
        return tid

    def pointee(self, tid):
        t = self.types[self.peel(tid)]
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        if t["k"] == "adt" and t.get("args"):
            return t["args"][0]
        return None
