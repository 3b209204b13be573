"""Fields that hold one constant for the whole life of the program: every place that builds the struct gives the field the same
literal (followed through the parameters of constructors to all their callers), and nothing else ever writes or mutably borrows
it.  Only fields the rules know nothing of are considered; reading one yields the constant."""
import json
import os

GOLD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def infer(prog):
    gold = json.load(open(GOLD))["adts"]
    T = prog.types
    new = {}
    for tid, t in T.items():
        if t["k"] != "adt" or t.get("adt") != "Struct" or not t["name"].startswith("uflow::"):
            continue
        g = gold.get(t["name"])
        known = set(f for f, _ in g[1][0][1]) if g else set()
        for i, (f, ft) in enumerate(t["variants"][0]["fields"]):
            if f not in known and T[ft]["k"] in ("uint", "int"):
                new[(tid, i)] = (t["name"], f)
    if not new:
        return {}
    calls, escapes, writes, bad = {}, set(), {}, set()

    def base(fn, pl):
        """(type, field) the place ends in, or None"""
        tid = fn.locals[pl[0]]
        last = None
        for e in pl[1]:
            last = None
            if e[0] == "f":
                last = (prog.peel(tid), e[1])
                tid = e[2]
            elif e[0] == "*":
                t = T[tid]
                tid = t["t"] if t["k"] in ("ref", "ptr") else prog.pointee(tid)
            else:
                tid = None if e[0] not in ("i", "c") else prog.elem(tid) if hasattr(prog, "elem") else None
            if tid is None:
                return None
        return last

    def fnrefs(x, out):
        if isinstance(x, dict):
            if "fn" in x:
                out.append(x["fn"])
            for v in x.values():
                fnrefs(v, out)
        elif isinstance(x, list):
            for v in x:
                fnrefs(v, out)

    for fn in prog.fns:
        for b in fn.blocks or ():
            for s in b["s"]:
                if not isinstance(s[1], list) or not isinstance(s[2], list):
                    continue
                r = []
                fnrefs(s[2], r)
                escapes.update(r)
                k = base(fn, s[1]) if s[1][1] else None
                if k in new:
                    if s[2][0] == "use":
                        writes.setdefault(k, []).append((fn, s[2][1]))
                    else:
                        bad.add(k)
                if s[2][0] == "agg" and s[2][1][0] == "adt":
                    for i, o in enumerate(s[2][2]):
                        if (s[2][1][1], i) in new:
                            writes.setdefault((s[2][1][1], i), []).append((fn, o))
                if s[2][0] == "ref" and s[2][1] == "mut" or s[2][0] == "addr":
                    k = base(fn, s[2][-1])
                    if k in new:
                        bad.add(k)
            t = b["t"]
            if t[0] == "call":
                if isinstance(t[1], list) and t[1][0] == "k" and "fn" in t[1][1]:
                    calls.setdefault(t[1][1]["fn"], []).append((fn, t[2]))
                k = base(fn, t[3]) if t[3] and t[3][1] else None
                if k in new:
                    bad.add(k)
                r = []
                fnrefs(t[2], r)
                escapes.update(r)

    def value(fn, o, depth=0):
        if o[0] == "k":
            b = o[1].get("a", {}).get("b") if isinstance(o[1].get("a"), dict) else None
            return int.from_bytes(bytes(b), "little") if b is not None and not o[1]["a"].get("p") else None
        pl = o[1]
        if pl[1] and pl[1] != [["*"]] or depth > 6:
            return None
        l, defs = pl[0], []
        for b in fn.blocks or ():
            for s in b["s"]:
                if isinstance(s[1], list) and isinstance(s[2], list):
                    if s[1][0] == l:
                        defs.append(s)
                    if s[2][0] in ("ref", "addr") and s[2][-1][0] == l and s[2][1] != "shared":
                        return None
            if b["t"][0] == "call" and b["t"][3] and b["t"][3][0] == l:
                return None
        if pl[1]:                # the value of a static
            if len(defs) != 1 or defs[0][1][1] or defs[0][2][0] != "use" or defs[0][2][1][0] != "k":
                return None
            a = defs[0][2][1][1].get("a")
            p = a.get("p") if isinstance(a, dict) else None
            z = prog.statics.get(p[0][1].get("static")) if p and isinstance(p[0][1], dict) else None
            return value(fn, ["k", z]) if z and not z.get("mut") else None
        if not defs and 1 <= l <= fn.argc:
            cs = calls.get(fn.id, [])
            if not cs or fn.id in escapes:
                return None
            vs = set(value(f, a[l - 1], depth + 1) if l - 1 < len(a) else None for f, a in cs)
            return vs.pop() if len(vs) == 1 else None
        if len(defs) == 1 and not defs[0][1][1] and defs[0][2][0] == "use":
            return value(fn, defs[0][2][1], depth + 1)
        return None

    out = {}
    for k, ws in writes.items():
        if k in bad:
            continue
        vs = set(value(f, o) for f, o in ws)
        if len(vs) == 1 and None not in vs:
            out[new[k]] = vs.pop()
    return out
