"""Builds everything the checks need, from the current sources, under /verif/.build.

The repository is copied (by content) to .build/src so that builds leave /repo alone
and depend on file contents rather than on time stamps."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(ROOT, ".build"))
SRC = os.path.join(B, "src")
SKIP = {".git", "target", "node_modules", ".cpcache", ".clj-kondo", ".lsp"}
NOVEC = "-C no-vectorize-loops -C no-vectorize-slp"


class BuildError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        out = p.stdout.decode("utf-8", "replace")
        raise BuildError(f"{' '.join(cmd)} failed:\n{out[-3000:]}")
    return p.stdout


def files(top):
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not os.path.islink(p):
                yield os.path.relpath(p, top)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sync(frm, to):
    """copy the tree by content; the hash of it"""
    h = hashlib.sha256()
    seen = set()
    for r in files(frm):
        data = read(os.path.join(frm, r))
        h.update(r.encode() + b"\0" + hashlib.sha256(data).digest())
        seen.add(r)
        t = os.path.join(to, r)
        if not os.path.exists(t) or read(t) != data:
            os.makedirs(os.path.dirname(t), exist_ok=True)
            with open(t, "wb") as f:
                f.write(data)
    for r in list(files(to)):
        if r not in seen:
            os.remove(os.path.join(to, r))
    return h.hexdigest()


def tree_hash(*tops):
    h = hashlib.sha256()
    for top in tops:
        for r in files(top):
            h.update(r.encode() + b"\0" + hashlib.sha256(read(os.path.join(top, r))).digest())
    return h.hexdigest()


def stamp(name, value=None):
    p = os.path.join(B, name + ".stamp")
    if value is None:
        return read(p).decode() if os.path.exists(p) else ""
    with open(p, "w") as f:
        f.write(value)


def llvm_dis():
    out = sh(["rustc", "+stable", "--print", "sysroot"]).decode().strip()
    for p in glob.glob(out + "/lib/rustlib/*/bin/llvm-dis"):
        return p
    raise BuildError("no llvm-dis")


def newest(pattern):
    g = glob.glob(pattern)
    if not g:
        raise BuildError("nothing built: " + pattern)
    return max(g, key=os.path.getmtime)


def engine():
    h = tree_hash(os.path.join(ROOT, "engine"))
    out = os.path.join(B, "engine/release/symx")
    if stamp("engine") != h or not os.path.exists(out):
        log("building the symbolic executor")
        sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, "engine"),
           env={"CARGO_TARGET_DIR": os.path.join(B, "engine"), "RUSTUP_TOOLCHAIN": "stable"})
        stamp("engine", h)
    return out


def oracle():
    h = tree_hash(os.path.join(ROOT, "oracle"))
    ll = os.path.join(B, "oracle.ll")
    rp = os.path.join(B, "oracle-native/release/replay")
    if stamp("oracle") != h or not os.path.exists(ll) or not os.path.exists(rp):
        log("building the harnesses")
        d = os.path.join(ROOT, "oracle")
        sh(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib", "--", "--emit=llvm-bc"], cwd=d,
           env={"CARGO_TARGET_DIR": os.path.join(B, "oracle"), "RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": NOVEC})
        sh([llvm_dis(), newest(B + "/oracle/release/deps/oracle*.bc"), "-o", ll])
        sh(["cargo", "build", "--offline", "--release", "--bin", "replay", "--features", "native"], cwd=d,
           env={"CARGO_TARGET_DIR": os.path.join(B, "oracle-native"), "RUSTUP_TOOLCHAIN": "stable"})
        sh(["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(os.path.dirname(rp), "seed.so"), os.path.join(d, "seed.c")])
        stamp("oracle", h)
    return ll, rp


def program(bins):
    """LLVM IR and native binary of the named binaries, from the repository's current tree"""
    h = sync(REPO, SRC)
    res = {}
    for b in bins:
        ll = os.path.join(B, b + ".ll")
        exe = os.path.join(B, b + ".bin")
        if stamp(b) != h or not os.path.exists(ll) or not os.path.exists(exe):
            log("compiling", b, "to LLVM IR")
            t = time.time()
            tgt = os.path.join(B, "pod")
            env = {
                "RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": tgt,
                "CARGO_PROFILE_RELEASE_OPT_LEVEL": "1", "CARGO_PROFILE_RELEASE_LTO": "fat",
                "CARGO_PROFILE_RELEASE_PANIC": "abort", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "8",
                "CARGO_INCREMENTAL": "0",
                "RUSTFLAGS": NOVEC + " -C debug-assertions=off",
            }
            cmd = ["cargo", "rustc", "--locked", "--offline", "--release", "--bin", b, "--", "--emit=llvm-bc,link"]
            sh(cmd, cwd=os.path.join(SRC, "rust"), env=env)
            stem = b.replace("-", "_")
            # cargo leaves the file as it is where nothing this program is made of has changed
            if not glob.glob(f"{tgt}/release/deps/{stem}-*.bc"):
                sh(["cargo", "clean", "--offline", "--release", "-p", "limabean"], cwd=os.path.join(SRC, "rust"), env=env)
                sh(cmd, cwd=os.path.join(SRC, "rust"), env=env)
            bc = newest(f"{tgt}/release/deps/{stem}-*.bc")
            sh([llvm_dis(), bc, "-o", ll])
            for old in glob.glob(f"{tgt}/release/deps/{stem}-*.bc"):
                if old != bc:
                    os.remove(old)
            shutil.copy2(f"{tgt}/release/{b}", exe)
            stamp(b, h)
            log(f"  {time.time() - t:.0f} s")
        res[b] = (ll, exe)
    return res, h


def all_(bins=("limabean-pod", "limabean")):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = engine()
        ll, rp = oracle()
        res, h = program(bins)
    return {"engine": e, "oracle": ll, "replay": rp, "bins": res, "tree": h}


if __name__ == "__main__":
    all_()
