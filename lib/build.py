"""Builds: the symbolic executor, a riscv64 std as bitcode, harness groups as one IR file + a native replayer."""
import os, subprocess, shutil, glob, json, fcntl, hashlib, sys, time, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
TOOL = "1.82"
NIGHTLY = "nightly"
TARGET = "riscv64gc-unknown-linux-gnu"
CODEGEN = "-C codegen-units=1 -C no-vectorize-loops -C no-vectorize-slp"

class BuildError(Exception):
    pass

def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.update(kw)
    e["CARGO_NET_OFFLINE"] = "true"
    return e

def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(f"{what} failed\n{p.stdout[-6000:]}")
    return p.stdout

def toolchain_dir(name):
    home = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup"))
    c = [d for d in glob.glob(f"{home}/toolchains/{name}*") if os.path.isdir(d)]
    return sorted(c, key=len)[0]

NDIR = toolchain_dir("nightly-x86_64")
LLVM = glob.glob(f"{NDIR}/lib/rustlib/*/bin/llvm-link")
LLVMBIN = os.path.dirname(LLVM[0]) if LLVM else "/usr/bin"

class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(f"{B}/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def engine():
    run(["cargo", "+stable", "build", "--release", "--offline", "-q"], "building the symbolic executor",
        cwd=f"{V}/engine", env=env(CARGO_TARGET_DIR=f"{B}/engine"))
    return f"{B}/engine/release/symex"

def sysroot():
    """std for riscv64, once as bitcode for the executor and once as a sysroot for the harness build."""
    s = f"{B}/sysroot"
    if os.path.exists(f"{s}/ok"):
        return s
    shutil.rmtree(s, ignore_errors=True)
    d = f"{B}/stdbuild"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/src")
    open(f"{d}/src/lib.rs", "w").write("pub fn x() {}\n")
    open(f"{d}/Cargo.toml", "w").write('[package]\nname="stdbuild"\nversion="0.1.0"\nedition="2021"\n[profile.release]\npanic="abort"\nopt-level=2\noverflow-checks=false\n[workspace]\n')
    run(["cargo", "+" + NIGHTLY, "build", "--release", "--offline", "-q", "-Zbuild-std=std,panic_abort", "-Zbuild-std-features=", "--target", TARGET],
        "building std", cwd=d, env=env(RUSTFLAGS=f"-Zthreads=8 --emit=llvm-bc {CODEGEN}"))
    lib = f"{s}/lib/rustlib/{TARGET}/lib"
    os.makedirs(lib); os.makedirs(f"{s}/bc")
    for root, _, fs in os.walk(f"{d}/target/{TARGET}/release"):
        for f in fs:
            if "stdbuild" in f:
                continue
            if f.endswith((".rlib", ".rmeta")):
                shutil.copy(f"{root}/{f}", lib)
            elif f.endswith(".bc") and not f.startswith(("panic_unwind", "proc_macro")):
                shutil.copy(f"{root}/{f}", f"{s}/bc")
    shutil.rmtree(d)
    open(f"{s}/ok", "w").close()
    return s

def overlays():
    """Staged crates that are copies of the current source with a few files replaced (stage/X/overlay)."""
    for f in glob.glob(f"{V}/stage/*/overlay.json"):
        d = os.path.dirname(f)
        o = json.load(open(f))
        dst = f"{d}/src"
        want = {}
        src = f"{REPO}/{o['from']}"
        for base in (src, f"{d}/overlay"):
            for root, _, fs in os.walk(base):
                for n in fs:
                    if not n.endswith(".rs"):
                        continue
                    t = open(f"{root}/{n}").read()
                    if base == src:
                        for a, b in o.get("substitute", []):
                            t = t.replace(a, b)
                        drop = o.get("drop", {}).get(os.path.relpath(f"{root}/{n}", base), [])
                        if drop:
                            t = "\n".join(l for l in t.split("\n") if l not in drop)
                        t += "".join(l + "\n" for l in o.get("append", {}).get(os.path.relpath(f"{root}/{n}", base), []))
                    want[os.path.relpath(f"{root}/{n}", base)] = t
        for root, _, fs in os.walk(dst):
            for n in fs:
                if os.path.relpath(f"{root}/{n}", dst) not in want:
                    os.remove(f"{root}/{n}")
        for n, t in want.items():
            p = f"{dst}/{n}"
            if os.path.exists(p) and open(p).read() == t:
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)

def lockfile(group):
    src, dst = f"{REPO}/Cargo.lock", f"{V}/harness/{group}/Cargo.lock"
    if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
        shutil.copy(src, dst)

def cargo(group, args, e, what):
    out = run(["cargo", "+" + TOOL, "build", "--offline", "--message-format=json-render-diagnostics"] + args, what,
              cwd=f"{V}/harness/{group}", env=e)
    return out

def native(group):
    e = env(CARGO_TARGET_DIR=f"{B}/native-{group}")
    cargo(group, ["--release", "--bin", "replay", "-q"], e, f"building the native replayer of {group}")
    return f"{B}/native-{group}/release/replay"

def ir(group, entries, sysr):
    """Bitcode of the harness group and of everything it uses, linked into one textual IR file."""
    rustc = f"{NDIR}/bin/rustc"
    e = env(CARGO_TARGET_DIR=f"{B}/riscv-{group}", RUSTC=rustc)
    e["CARGO_TARGET_RISCV64GC_UNKNOWN_LINUX_GNU_RUSTFLAGS"] = f"--sysroot {sysr} -Zthreads=4 --cap-lints=allow --emit=llvm-bc {CODEGEN}"
    e["CARGO_PROFILE_RELEASE_PANIC"] = "abort"
    e["RUSTC_BOOTSTRAP"] = "1"
    e["CC_riscv64gc_unknown_linux_gnu"] = e["CXX_riscv64gc_unknown_linux_gnu"] = f"{V}/lib/nocc"
    e["AR_riscv64gc_unknown_linux_gnu"] = f"{V}/lib/nocc"
    out = cargo(group, ["--release", "--lib", "--target", TARGET, "-q"], e, f"compiling {group} to IR")
    bcs = []
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if f"/{TARGET}/" in f and f.endswith(".rlib"):
                d, b = os.path.split(f)
                bc = f"{d}/{b[3:-5]}.bc"
                if os.path.exists(bc):
                    bcs.append(bc)
                else:  # the final library is hard-linked without its hash
                    c = sorted(glob.glob(f"{d}/deps/{b[3:-5]}-*.bc"), key=os.path.getmtime)
                    bcs.append(c[-1])
    std = sorted(glob.glob(f"{sysr}/bc/*.bc"))
    all_bc, small = f"{B}/{group}.all.bc", f"{B}/{group}.bc"
    ll = f"{B}/{group}.ll"
    run([f"{LLVMBIN}/llvm-link", "--suppress-warnings", "-o", all_bc] + bcs + std, "llvm-link")
    # strlen & co. may be referenced by the executor's callers only
    run([f"{LLVMBIN}/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), all_bc, "-o", small], "opt")
    run([f"{LLVMBIN}/llvm-dis", small, "-o", ll], "llvm-dis")
    os.remove(all_bc); os.remove(small)
    return ll

def all_for(groups):
    """groups: {name: [entries]} -> (engine path, {group: (ll, replay)})"""
    res, err = {}, []
    def guard(f, *a):
        def g():
            try:
                res[(f.__name__,) + a[:1]] = f(*a)
            except BuildError as e:
                err.append(str(e))
            except Exception as e:  # noqa
                err.append(repr(e))
        t = threading.Thread(target=g); t.start(); return t
    overlays()
    for g in groups:
        lockfile(g)
    ts = [guard(sysroot), guard(engine)] + [guard(native, g) for g in groups]
    ts[0].join()
    if not err:
        t2 = [guard(ir, g, es, res[("sysroot",)]) for g, es in groups.items()]
        for t in t2:
            t.join()
    for t in ts:
        t.join()
    if err:
        raise BuildError("\n".join(err))
    return res[("engine",)], {g: (res[("ir", g)], res[("native", g)]) for g in groups}
