"""Private names may change without changing what the code does.  The rules speak about types, fields, variants and functions by
the names they had when the rules were written (names.json); before anything is analysed, a name that is gone is looked up among
the names that are new, by kind, place and type, and given back its old name.  Nothing else is taken from names.json: what the
code does is judged on the current source alone."""
import json
import os
import re

from .prog import canon_fn

FILE = os.path.join(os.path.dirname(__file__), "names.json")


def plain(s):
    return re.sub(r"'[a-z_]+,? ?", "", s)


def snapshot(dump):
    types = {int(k): v for k, v in dump["types"].items()}
    adts, fns = {}, {}
    for tid, t in sorted(types.items()):
        if t["k"] == "adt" and t["name"].startswith("uflow::") and t["name"] not in adts:
            adts[t["name"]] = [t["adt"], [[v["name"], [[f[0], plain(types[f[1]]["s"])] for f in v["fields"]]] for v in t["variants"]]]
    for f in dump["fns"]:
        if f["local"] and f.get("blocks") and "{closure" not in f["def"] and not f["def"].startswith("<") and not f["name"].startswith("<"):
            k = canon_fn(f["def"])
            fns.setdefault(k, [plain(types[x]["s"]) for x in f["locals"][:f["argc"] + 1]])
    return {"adts": adts, "fns": fns}


def uniq(xs):
    return xs[0] if len(xs) == 1 else None


def shape(a, names):
    """kind and field types, blind to the given type names"""
    rx = re.compile("|".join(r"\b%s\b" % re.escape(n[7:]) for n in sorted(names, key=len, reverse=True))) if names else None
    return a[0], sorted(tuple(sorted(rx.sub("?", f[1]) if rx else f[1] for f in v[1])) for v in a[1])


def canonical(dump):
    """renames in place; returns what was renamed"""
    if not os.path.exists(FILE):
        return []
    old = json.load(open(FILE))
    done = []
    # types
    now = snapshot(dump)
    gone = [n for n in old["adts"] if n not in now["adts"]]
    new = [n for n in now["adts"] if n not in old["adts"]]
    ren = {}
    for test in (
        lambda g, n: g.split("::")[-1] == n.split("::")[-1],
        lambda g, n: sorted(f[0] for v in old["adts"][g][1] for f in v[1]) == sorted(f[0] for v in now["adts"][n][1] for f in v[1])
        and [v[0] for v in old["adts"][g][1]][1:] == [v[0] for v in now["adts"][n][1]][1:] and any(v[1] for v in old["adts"][g][1]) and g.rsplit("::", 1)[0] == n.rsplit("::", 1)[0],
        lambda g, n: shape(old["adts"][g], gone + new) == shape(now["adts"][n], gone + new) and g.rsplit("::", 1)[0] == n.rsplit("::", 1)[0],
    ):
        for g in gone:
            if g in ren.values():
                continue
            c = uniq([n for n in new if n not in ren and now["adts"][n][0] == old["adts"][g][0] and test(g, n)])
            if c and uniq([h for h in gone if h not in ren.values() and old["adts"][h][0] == now["adts"][c][0] and test(h, c)]) == g:
                ren[c] = g
    if ren:
        rx = re.compile("|".join(r"(?<![\w:])(?:uflow::)?%s\b" % re.escape(n[7:]) for n in sorted(ren, key=len, reverse=True)))
        table = {n[7:]: g[7:] for n, g in ren.items()}

        def sub(s):
            return rx.sub(lambda m: ("uflow::" if m.group(0).startswith("uflow::") else "") + table[m.group(0)[7:] if m.group(0).startswith("uflow::") else m.group(0)], s)
        for t in dump["types"].values():
            t["s"] = sub(t["s"])
            if "name" in t:
                t["name"] = sub(t["name"])
                if t["k"] == "adt" and t["adt"] == "Struct" and t["name"] in ren.values():
                    for v in t["variants"]:
                        v["name"] = t["name"].split("::")[-1]
        for f in dump["fns"]:
            f["name"], f["def"] = sub(f["name"]), sub(f["def"])
        for i in dump.get("impls", []):
            i[0], i[1] = sub(i[0]), sub(i[1])
        done += ["%s was %s" % x for x in sorted(ren.items())]
    # fields and variants
    now = snapshot(dump)
    for t in dump["types"].values():
        if t["k"] != "adt" or t["name"] not in old["adts"]:
            continue
        ov, nv = old["adts"][t["name"]][1], t["variants"]
        known = {v[0] for v in ov}
        have = {v["name"] for v in nv}
        if t["adt"] == "Enum" and len(ov) == len(nv):
            lost = [v for v in ov if v[0] not in have]
            fresh = [v for v in nv if v["name"] not in known]
            for v in fresh:
                tys = sorted(plain(dump["types"][str(f[1])]["s"]) for f in v["fields"])
                c = [o for o in lost if sorted(f[1] for f in o[1]) == tys]
                if len(c) > 1:
                    c = [o for o in c if ov.index(o) == nv.index(v)]
                o = uniq(c)
                if o:
                    done.append("%s::%s was %s" % (t["name"], v["name"], o[0]))
                    v["name"] = o[0]
                    lost.remove(o)
        for v in nv:
            o = next((x for x in ov if x[0] == v["name"]), None) if t["adt"] == "Enum" else ov[0] if ov else None
            if o is None:
                continue
            have = {f[0] for f in v["fields"]}
            known = {f[0] for f in o[1]}
            lost = [f for f in o[1] if f[0] not in have]
            fresh = [f for f in v["fields"] if f[0] not in known]
            if not lost or not fresh:
                continue
            by = {}
            for f in fresh:
                by.setdefault(plain(dump["types"][str(f[1])]["s"]), []).append(f)
            for ty, fs in by.items():
                gs = [g for g in lost if g[1] == ty]
                if len(gs) == len(fs):
                    for f, g in zip(fs, gs):
                        done.append("%s.%s was %s" % (t["name"], f[0], g[0]))
                        f[0] = g[0]
    # functions
    now = snapshot(dump)
    gone = [k for k in old["fns"] if k not in now["fns"]]
    new = [k for k in now["fns"] if k not in old["fns"]]
    ren = {}
    for test in (
        lambda g, n: g.split("::")[-1] == n.split("::")[-1] and old["fns"][g] == now["fns"][n],
        lambda g, n: g.rsplit("::", 1)[0] == n.rsplit("::", 1)[0] and old["fns"][g] == now["fns"][n],
        lambda g, n: g.rsplit("::", 1)[0] == n.rsplit("::", 1)[0] and sorted(old["fns"][g][1:]) == sorted(now["fns"][n][1:]) and old["fns"][g][0] == now["fns"][n][0],
    ):
        for g in gone:
            if g in ren.values():
                continue
            c = uniq([n for n in new if n not in ren and test(g, n)])
            if c and uniq([h for h in gone if h not in ren.values() and test(h, c)]) == g:
                ren[c] = g
    if ren:
        for f in dump["fns"]:
            k = canon_fn(f["def"])
            head = next((n for n in ren if k == n or k.startswith(n + "::{closure")), None)
            if head:
                a, b = head.split("::")[-1], ren[head].split("::")[-1]
                for x in ("name", "def"):
                    f[x] = ren_path(f[x], head, ren[head], a, b)
        for t in dump["types"].values():
            if t["k"] in ("closure", "fndef"):
                head = next((n for n in ren if canon_fn(t["name"]).startswith(n)), None)
                if head and (canon_fn(t["name"]) + "::").startswith(head + "::"):
                    t["name"] = ren_path(t["name"], head, ren[head], head.split("::")[-1], ren[head].split("::")[-1])
        done += ["%s was %s" % x for x in sorted(ren.items())]
    return done


def layout(dump):
    """Fields that moved: grouped into a struct of their own, taken out of one, arrays of structs merged or split, a wrapper
    dropped.  {(type, variant or None): {old field: how to reach it}} with how = ("path", [names]) or ("flat", {sub: name});
    and the dropped single-field wrappers [(field, type of what it held)]."""
    if not os.path.exists(FILE):
        return {}, set()
    old = json.load(open(FILE))["adts"]
    types = {int(k): v for k, v in dump["types"].items()}
    byname = {}
    for tid, t in sorted(types.items()):
        if t["k"] == "adt":
            byname.setdefault(t["name"], t)
    ps = lambda tid: plain(types[tid]["s"])
    said = " ".join(ps(f[1]) for t in byname.values() if t["name"].startswith("uflow::") for v in t["variants"] for f in v["fields"])
    gone = {n[7:]: f for n, f in ((n, old[n][1][0][1]) for n in old if old[n][0] == "Struct" and old[n][1]
                                  and (n not in byname or not re.search(r"(?<![\w:])%s\b" % re.escape(n[7:]), said)))}

    def struct(tid):
        t = types[tid]
        return t if t["k"] == "adt" and t["name"].startswith("uflow::") and t["adt"] == "Struct" and t["variants"] else None
    out, unwrap = {}, set()
    for n, t in sorted(byname.items()):
        if n not in old:
            continue
        for ov in old[n][1]:
            vname = ov[0] if t["adt"] == "Enum" else None
            nv = next((v for v in t["variants"] if vname is None or v["name"] == vname), None)
            if nv is None:
                continue
            have = {f[0]: f[1] for f in nv["fields"]}
            known = {f[0] for f in ov[1]}
            fresh = [f for f in nv["fields"] if f[0] not in known]
            lost = [f for f in ov[1] if f[0] not in have]
            how = {}
            # a wrapper around a single value dropped: the field stays, its type is what the wrapper held
            for g, ty in ov[1]:
                if g in have and ps(have[g]) != ty:
                    for w, fs in gone.items():
                        if len(fs) == 1 and re.search(r"\b%s\b" % re.escape(w), ty) and re.sub(r"\b%s\b" % re.escape(w), lambda m: fs[0][1], ty) == ps(have[g]):
                            unwrap.add((fs[0][0], fs[0][1]))
            # grouped: reachable inside a fresh struct-typed field
            cand = {}
            for f, ft in fresh:
                st = struct(ft)
                if st is not None and st["name"] not in old:
                    for h, ht in st["variants"][0]["fields"]:
                        cand[(f, h)] = ps(ht)
                        s2 = struct(ht)
                        if s2 is not None and s2["name"] not in old:
                            for h2, ht2 in s2["variants"][0]["fields"]:
                                cand[(f, h, h2)] = ps(ht2)
            left = list(lost)
            for test in (lambda g, c: c[-1] == g, lambda g, c: "_".join(c) == g, lambda g, c: g.endswith("_" + c[-1]) or g.startswith(c[-1] + "_"), lambda g, c: True):
                for g, ty in list(left):
                    cs = [c for c, cty in cand.items() if cty == ty and test(g, c)]
                    rivals = [h for h, hty in left if h != g and hty == ty and cs and test(h, cs[0])]
                    if len(cs) == 1 and not rivals:
                        how[g] = ("path", list(cs[0]))
                        del cand[cs[0]]
                        left.remove([g, ty])
            # taken out of its struct
            for g, ty in list(left):
                fs = gone.get(ty)
                if fs is None:
                    continue
                pool, m = [f for f in fresh if not any(f[0] in (x[1].values() if x[0] == "flat" else x[1][:1]) for x in how.values())], {}
                for test in (lambda h, f: f == g + "_" + h, lambda h, f: f == h, lambda h, f: f.endswith("_" + h) or f.startswith(h + "_"), lambda h, f: True):
                    for h, hty in fs:
                        if h in m:
                            continue
                        cs = [f for f, ft in pool if ps(ft) == hty and f not in m.values() and test(h, f)]
                        if len(cs) == 1:
                            m[h] = cs[0]
                if len(m) == len(fs):
                    how[g] = ("flat", m)
                    left.remove([g, ty])
            # sequences of structs: two merged into one, or one split by field
            for g, ty in list(left):
                w = next((w for w in gone if re.search(r"\b%s\b" % re.escape(w), ty)), None)
                if w is None:
                    continue
                hole = lambda s, x: re.sub(r"\b%s\b" % re.escape(x), "?", s)
                for f, ft in fresh:
                    for sn, st in byname.items():
                        if sn not in old and sn.startswith("uflow::") and st["adt"] == "Struct" and st["variants"] and hole(ps(ft), sn[7:]) == hole(ty, w) \
                                and all([h, hty] in [[a, ps(b)] for a, b in st["variants"][0]["fields"]] for h, hty in gone[w]):
                            how[g] = ("path", [f])
                if g not in how:
                    m = {}
                    for h, hty in gone[w]:
                        want = re.sub(r"\b%s\b" % re.escape(w), lambda _: hty, ty)
                        cs = [f for f, ft in fresh if ps(ft) == want]
                        for test in (lambda f: f.endswith("_" + h) or f.endswith("_" + h + "s"), lambda f: h in f, lambda f: True):
                            c2 = [f for f in cs if test(f) and f not in m.values()]
                            if len(c2) == 1:
                                m[h] = c2[0]
                                break
                    if len(m) == len(gone[w]):
                        how[g] = ("split", m)
            if how:
                out[(n, vname)] = how
    return out, unwrap


def ren_path(s, old, new, a, b):
    if "uflow::" + old in s:
        return s.replace("uflow::" + old, "uflow::" + new)
    # generics inside the path: only the last segment differs
    if old.rsplit("::", 1)[0] == new.rsplit("::", 1)[0]:
        i = s.rfind("::" + a)
        if i >= 0:
            return s[:i] + "::" + b + s[i + 2 + len(a):]
    return s


if __name__ == "__main__":
    import sys
    json.dump(snapshot(json.load(open(sys.argv[1]))), open(FILE, "w"), indent=0, sort_keys=True)
