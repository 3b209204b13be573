#!/usr/bin/env python3
"""mutate.py OUT [FILE...]: small mutations of /repo's sources, one at a time, in scratch copies; prints the ones no rule notices.
Used to look for gaps in the rules (survivors are triaged by hand: equivalent, not covered by any property, or a gap)."""
import importlib, json, multiprocessing, os, pkgutil, re, shutil, subprocess, sys, tempfile, time, signal
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
sys.setrecursionlimit(20000)
SRC = "/repo/src"
FIRST = {"send_rate": "rates", "loss_rate": "rates", "recv_rate_set": "rates", "reorder_buffer": "reorder", "frame_queue": "frames", "emit": "emit", "frame_ack_queue": "ackqueue",
         "packet_sender": "sender", "pending_packet": "sender", "pending_queue": "sender", "resend_queue": "sender", "packet_receiver": "receiver", "assembly_window": "assembly",
         "fragment_buffer": "assembly", "serial": "codec", "server": "server", "client": "client", "half_connection/mod": "hc", "lib.rs": "hc"}


def lines(path):
    """(number, text) of the lines outside test modules, comments and constant tables"""
    out, depth, skip = [], 0, None
    txt = open(path).read().split("\n")
    for i, l in enumerate(txt):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            j = i + 1
            if re.match(r"\s*(mod|pub mod|use|pub use|pub const|const)\b.*;", txt[j]):
                skip = ("line", j)
                continue
            skip = ("block", None)
        if skip:
            if skip[0] == "line":
                if i >= skip[1]:
                    skip = None
                continue
            depth += l.count("{") - l.count("}")
            if depth <= 0 and "}" in l:
                skip, depth = None, 0
            continue
        s = re.sub(r"//.*", "", l)
        if not s.strip() or "debug_assert" in s or s.strip().startswith(("use ", "#[", "pub use", "mod ", "pub mod", "*", "/*")) or re.search(r"0x[0-9A-F]{8}, 0x", s):
            continue
        out.append((i, l))
    return out


def mutants(l):
    c = l.find("//")
    code = l if c < 0 else l[:c]
    res = []

    def rep(rx, f):
        for m in re.finditer(rx, code):
            r = f(m)
            for x in (r if isinstance(r, list) else [r]):
                if x is not None:
                    res.append(code[:m.start()] + x + code[m.end():])
    rep(r" (<=|>=|<|>) (?!=)", lambda m: " %s " % {"<": "<=", "<=": "<", ">": ">=", ">=": ">"}[m.group(1)] if "fn " not in code and "impl" not in code else None)
    rep(r" (==|!=) ", lambda m: " %s " % {"==": "!=", "!=": "=="}[m.group(1)])
    rep(r" (\+|-) (?!>)", lambda m: " %s " % {"+": "-", "-": "+"}[m.group(1)])
    rep(r" (\+=|-=) ", lambda m: " %s " % {"+=": "-=", "-=": "+="}[m.group(1)])
    rep(r"&&", lambda m: "||")
    rep(r"\|\|(?! [a-z{])", lambda m: "&&")
    rep(r" \|\| ", lambda m: " && ")
    rep(r"(?<![\w.\[#])(\d+)(?![\w.]|\])", lambda m: str(int(m.group(1)) + 1) if "const" not in code or True else None)
    rep(r"(?<![\w.])(\d+\.\d+)", lambda m: str(float(m.group(1)) * 1.5 + 0.25))
    rep(r"\btrue\b", lambda m: "false")
    rep(r"\bfalse\b", lambda m: "true")
    for a, b in (("wrapping_add", "wrapping_sub"), (".min(", ".max("), ("is_some()", "is_none()"), ("pop_front", "pop_back"), ("push_back", "push_front"), ("saturating_sub", "wrapping_sub"),
                 ("packet_id::add", "packet_id::sub"), ("rtt_ms", "rto_ms"), ("base_id", "next_id"), ("if let Some", "if let None")):
        for x, y in ((a, b), (b, a)):
            rep(re.escape(x), lambda m: y)
    rep(r"\bif (?!let)([^{]+) \{", lambda m: ["if !(%s) {" % m.group(1), "if true || (%s) {" % m.group(1), "if false && (%s) {" % m.group(1)])
    rep(r"\bwhile (?!let)([^{]+) \{", lambda m: ["while false && (%s) {" % m.group(1)])
    s = code.strip()
    if s.endswith(";") and not re.match(r"(let|return|const|pub|static|type|\}|\)|\])", s) and (s.count("(") == s.count(")")) and s.count("{") == s.count("}"):
        res.append("")
    if s in ("return;", "continue;", "break;") or s.startswith("return ") and s.endswith(";") and "None" not in s:
        if s in ("continue;", "break;", "return;"):
            res.append("")
    return [r for r in dict.fromkeys(res) if r != code]


def init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def one(job):
    path, i, new = job
    rel = os.path.relpath(path, "/repo")
    wid = (multiprocessing.current_process()._identity or (0,))[0]
    w = "/tmp/mutw-%d" % wid
    if not os.path.isdir(w):
        os.makedirs(w)
        subprocess.run("cp -r /repo/src /repo/Cargo.toml /repo/Cargo.lock %s" % w, shell=True)
    t = os.path.join(w, rel)
    orig = open(path).read()
    ls = orig.split("\n")
    old = ls[i]
    ls[i] = new
    open(t, "w").write("\n".join(ls))
    try:
        import analysis.extract as X
        b = "/tmp/mutbuild-%d" % wid
        os.makedirs(b, exist_ok=True)
        drv = X.build_driver()
        X.BUILD = b
        X.build_driver = lambda: drv
        try:
            mir = X.extract(w)
        except X.ExtractError:
            return job, old, "compile", ""
        from analysis.prog import Prog
        from analysis.rules import Ctx, RULES
        import analysis.rules as RR
        import analysis.r
        for m in pkgutil.iter_modules(analysis.r.__path__):
            importlib.import_module("analysis.r." + m.name)
        pref = [v for k, v in FIRST.items() if k in rel]
        order = sorted(range(len(RULES)), key=lambda k: (0 if RULES[k][3].__module__.split(".")[-1] in pref else 1, k))
        saved = list(RULES)
        c = Ctx(Prog(mir))
        try:
            for k in order:
                RULES[:] = [saved[k]]
                c.run(budget=100)
                if c.findings:
                    f = c.findings[0]
                    return job, old, "caught", "%s %s" % (f.rid, f.msg[:90])
        finally:
            RULES[:] = saved
        return job, old, "SURVIVED", ""
    except Exception as e:
        return job, old, "error", repr(e)[:200]
    finally:
        open(t, "w").write(orig)


if __name__ == "__main__":
    out = sys.argv[1]
    files = sys.argv[2:]
    if not files:
        files = [os.path.join(d, f) for d, _, fs in os.walk(SRC) for f in fs if f.endswith(".rs") and "tests" not in f and "packet_tests" not in f]
    jobs = [(f, i, m) for f in files for i, l in lines(f) for m in mutants(l)]
    print(len(jobs), "mutants", flush=True)
    nw = int(os.environ.get("MUT_WORKERS", "5"))
    with open(out, "w") as o, multiprocessing.Pool(nw, init, maxtasksperchild=20) as pool:
        for job, old, st, msg in pool.imap_unordered(one, jobs, chunksize=1):
            o.write(json.dumps([os.path.relpath(job[0], "/repo"), job[1] + 1, old, job[2], st, msg]) + "\n")
            o.flush()
