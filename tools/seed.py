#!/usr/bin/env python3
"""seed.py new ID PROP TARGETFILE 'needs' 'what' <<< "edits + demo"
stdin: blocks  "@@ file\n<<<<\nold\n====\nnew\n>>>>" and a final "@@ demo" block with Rust test code appended to TARGETFILE
(or to tests/vp_demo.rs when TARGETFILE is "tests").
seed.py try ID : confirm (build, stable tests, demo clean/patched) in a scratch copy and run the checks on the patched copy
"""
import json, os, re, shutil, subprocess, sys, tempfile
SE = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd /repo: compiles a scratch copy of the sources with the demonstration test added, and runs it
here=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d) || exit 9
trap 'rm -rf "$s"' EXIT
cp -r src Cargo.toml Cargo.lock "$s"/ || exit 9
mkdir -p "$s/tests"
%s
cd "$s" || exit 9
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$s/target" CARGO_TERM_COLOR=never
timeout 280 cargo test --offline %s vp_demo -- --test-threads 1 > out.log 2>&1
r=$?
tail -25 out.log
grep -q "test result: ok. [1-9]" out.log || [ $r -ne 0 ] || exit 8
exit $r
'''


def sh(cmd, cwd=None, t=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)


def new(id, prop, target, needs, what):
    txt = sys.stdin.read()
    d = os.path.join(SE, id)
    w = tempfile.mkdtemp(prefix="seedwt")
    sh("cp -r /repo/src /repo/Cargo.toml %s" % w)
    sh("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", w)
    head, _, demo = txt.partition("@@ demo\n")
    for m in re.finditer(r"@@ (\S+)\n((?:<<<<\n.*?>>>>\n?)+)", head, re.S):
        f = os.path.join(w, m.group(1))
        s = open(f).read()
        for old, nw in re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", m.group(2), re.S):
            if s.count(old) != 1:
                sys.exit("old text occurs %d times in %s:\n%s" % (s.count(old), m.group(1), old))
            s = s.replace(old, nw)
        open(f, "w").write(s)
    diff = sh("git diff", w).stdout
    shutil.rmtree(w)
    if not diff:
        sys.exit("no change")
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    if target == "tests":
        a = 'cp "$here/demo.rs" "$s/tests/vp_demo.rs" || exit 9', "--test vp_demo"
    else:
        a = 'cat "$here/demo.rs" >> "$s/%s" || exit 9' % target, "--lib"
    open(d + "/demo.sh", "w").write(DEMO % a)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)


def attempt(id, tests=True):
    d = os.path.join(SE, id)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seedtry")
    out = []
    try:
        sh("cp -r /repo/src /repo/Cargo.toml /repo/Cargo.lock /repo/tests /repo/examples /repo/README.md %s" % w)
        r = sh(d + "/demo.sh", w)
        out.append("demo clean: %d" % r.returncode)
        if r.returncode:
            print(r.stdout[-3000:])
        r = sh("patch -p1 --no-backup-if-mismatch < %s/patch.diff" % d, w)
        if r.returncode:
            print(id, "patch fails", r.stdout)
            return
        r = sh(d + "/demo.sh", w)
        out.append("demo patched: %d" % r.returncode)
        if r.returncode == 0 or "error" in r.stdout and "could not compile" in r.stdout:
            print(r.stdout[-3000:])
        if tests:
            env = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtarget", CARGO_NET_OFFLINE="true")
            bad = []
            r = sh("timeout 120 cargo test --offline --no-fail-fast --lib -- --test-threads 8", w, env=env)
            log = r.stdout
            for t in sorted(os.listdir(w + "/tests")):
                if t.endswith(".rs") and t != "timeouts.rs" and t != "vp_demo.rs":
                    log += sh("timeout 120 cargo test --offline --no-fail-fast --test %s -- --test-threads 8" % t[:-3], w, env=env).stdout
            log += sh("timeout 120 cargo test --offline --doc -- --test-threads 1", w, env=env).stdout
            p, f = log.count("... ok"), re.findall(r"test (\S+) .*FAILED", log)
            out.append("tests: %d pass, fail %s" % (p, f))
        props = [meta["property"]] if "--all" not in sys.argv else ["C%02d" % i for i in range(1, 21)]
        for p in props:
            r = sh("python3 -m analysis.check %s" % p, "/verif", env=dict(os.environ, UFLOW_REPO=w, UFLOW_EVIDENCE="/tmp/ev"))
            out.append("%s -> %d" % (p, r.returncode))
            if r.returncode == 1 and "-v" in sys.argv:
                print(r.stdout[:1500])
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:], r.stderr[-1500:])
    finally:
        shutil.rmtree(w)
    print(id, "|", " | ".join(out), flush=True)


if sys.argv[1] == "new":
    new(*sys.argv[2:7])
    attempt(sys.argv[2])
elif sys.argv[1] == "try":
    for i in [x for x in sys.argv[2:] if not x.startswith("-")] or sorted(os.listdir(SE)):
        attempt(i, "--notest" not in sys.argv)
