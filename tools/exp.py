#!/usr/bin/env python3
"""exp.py [-v] FILE...: applies each edit file (blocks "@@ src/x.rs" of "<<<<\nold\n====\nnew\n>>>>") to a scratch copy of /repo,
extracts it and runs every rule; prints the properties whose checks would alarm.  tools/variants/*.edit must stay quiet,
tools/mutants/*.edit ("# expect Cxx" in the first line) must alarm."""
import importlib, json, multiprocessing, os, pkgutil, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def apply(txt, w):
    n = 0
    for m in re.finditer(r"@@ (\S+)\n((?:<<<<\n.*?>>>>\n?)+)", txt, re.S):
        f = os.path.join(w, m.group(1))
        s = open(f).read()
        for old, nw in re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", m.group(2), re.S):
            k = s.count(old)
            if k == 1:
                s = s.replace(old, nw)
            else:
                gap = r"(?:[ \t]*(?://[^\n]*)?\n)*"
                rx = re.compile(r"(?m)" + gap.join("^" + re.escape(l) + r"[ \t]*(?://[^\n]*)?\n" for l in (re.sub(r"\s*//.*", "", y) for y in old.split("\n")) if l.strip()))
                hits = rx.findall(s)
                if len(hits) != 1:
                    return "old text occurs %d/%d times in %s: %s" % (k, len(hits), m.group(1), old[:200])
                s = rx.sub(lambda _: nw + "\n", s)
            n += 1
        open(f, "w").write(s)
    return None if n else "no edits"


ALL = []


def one(path):
    w = tempfile.mkdtemp(prefix="exp")
    try:
        subprocess.run("cp -r /repo/src /repo/Cargo.toml /repo/Cargo.lock %s" % w, shell=True)
        txt = open(path).read()
        if path.endswith(".diff"):
            r = subprocess.run("patch -p1 --no-backup-if-mismatch < %s" % path, shell=True, cwd=w, capture_output=True, text=True)
            e = (r.stdout + r.stderr) if r.returncode else None
        else:
            e = apply(txt, w)
        if e:
            return path, "EDIT", e, None
        import analysis.extract as X
        b = "/tmp/expbuild-%d" % (multiprocessing.current_process()._identity or (0,))[0]
        os.makedirs(b, exist_ok=True)
        drv = X.build_driver()
        X.BUILD = b
        X.build_driver = lambda: drv
        try:
            mir = X.extract(w)
        except X.ExtractError as x:
            return path, "COMPILE", str(x)[-1500:], None
        from analysis.prog import Prog
        from analysis.rules import Ctx, RULES
        import analysis.r
        for m in pkgutil.iter_modules(analysis.r.__path__):
            importlib.import_module("analysis.r." + m.name)
        t = time.time()
        c = Ctx(Prog(mir))
        if os.environ.get("EXP_FAST"):      # only the rules of the modules the edit touches, and the ones about the whole program
            import mutate
            fs = re.findall(r"@@ src/(\S+)", txt) if not path.endswith(".diff") else re.findall(r"\+\+\+ b/src/(\S+)", txt)
            mods = {v for k, v in mutate.FIRST.items() for f in fs if k in f} | {"safe", "heap", "progress"}
            ALL[:] = ALL or RULES
            RULES[:] = [r for r in ALL if r[3].__module__.split(".")[-1] in mods]
        c.run()
        R = {r: ps for r, ps, _, _ in RULES}
        props = set()
        res = []
        for f in c.findings:
            ps = getattr(f, "props", None) or R[f.rid]
            props |= set(ps)
            res.append("%s [%s] %s" % (f.loc or "?", f.rid, f.msg[:150]))
        und = sorted({"%s: %s" % (r, x[:120]) for r, x in c.undecided})
        return path, "OK", res, (sorted(props), time.time() - t, und)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    v = "-v" in sys.argv
    fs = [os.path.abspath(a) for a in sys.argv[1:] if a != "-v"]
    with multiprocessing.Pool(min(7, len(fs))) as pool:
        for path, st, res, x in pool.imap(one, fs, chunksize=1):
            n = os.path.basename(os.path.dirname(path)) if path.endswith("patch.diff") else os.path.basename(path)
            if st != "OK":
                print("%-30s %s %s" % (n, st, res[:1500]))
                continue
            exp = re.search(r"# expect (C\d\d)", open(path).read())
            if exp is None and path.endswith("patch.diff"):
                mp = os.path.join(os.path.dirname(path), "meta.json")
                ex = json.load(open(mp))["property"] if os.path.exists(mp) else None
            else:
                ex = exp.group(1) if exp else None
            tag = ("caught" if ex in x[0] else "MISSED") if ex else ("quiet" if not res else "ALARM")
            print("%-30s %s %s %s %.0fs" % (n, tag, ex or "", ",".join(x[0]), x[1]))
            if res and (v or tag in ("ALARM", "MISSED")):
                for r in res[:8 if not v else 40]:
                    print("      ", r)
            for u in x[2]:
                print("       undecided", u)
            sys.stdout.flush()
