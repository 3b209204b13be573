"""Builds the MIR extractor (once) and runs it over /repo's current working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UFLOW_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOL = "nightly"


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = TOOL
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC", "RUSTFLAGS", "CARGO_BUILD_RUSTC", "RUSTC_WORKSPACE_WRAPPER", "CARGO_INCREMENTAL",
              "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sysroot():
    r = subprocess.run(["rustc", "--print", "sysroot"], env=_env(), capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("no nightly toolchain: " + r.stderr)
    return r.stdout.strip()


def build_driver():
    src = os.path.join(VERIF, "extractor", "src", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "mirdump-" + h)
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["rustc", src, "-o", tmp, "--edition", "2021", "-O", "-Awarnings"], env=_env(),
                       capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("extractor does not build:\n" + r.stderr[-4000:])
    os.replace(tmp, out)
    return out


def extract(repo=None):
    """Returns the parsed MIR dump of the crate in `repo` as it is now."""
    repo = repo or REPO
    drv = build_driver()
    tdir = os.path.join(BUILD, "target")
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for sub in (".fingerprint", "build", "incremental", "deps"):
            fp = os.path.join(tdir, "debug", sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d == "uflow" or d.startswith("uflow-") or d.startswith("libuflow"):
                        q = os.path.join(fp, d)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
        fd, out = tempfile.mkstemp(prefix="mir", suffix=".json", dir=BUILD)
        os.close(fd)
        os.unlink(out)
        e = _env()
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["CARGO_TARGET_DIR"] = tdir
        e["CARGO_INCREMENTAL"] = "0"
        e["UFLOW_MIR_OUT"] = out
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        cmd = ["cargo", "check", "--lib", "--offline", "-q", "--manifest-path", os.path.join(repo, "Cargo.toml")]
        r = subprocess.run(cmd, env=e, capture_output=True, text=True)
        if r.returncode == 0 and not os.path.exists(out):
            # a cargo that keeps its state elsewhere believed the crate was up to date: start over
            shutil.rmtree(tdir, ignore_errors=True)
            r = subprocess.run(cmd, env=e, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise ExtractError("the crate does not build:\n" + r.stderr[-4000:])
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
    return d


if __name__ == "__main__":
    import time
    t = time.time()
    d = extract(sys.argv[1] if len(sys.argv) > 1 else None)
    json.dump(d, open("/tmp/mir.json", "w"))
    print("fns", len(d["fns"]), "with body", sum(1 for f in d["fns"] if "blocks" in f), "types", len(d["types"]), "%.1fs" % (time.time() - t))
