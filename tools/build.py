"""Builds everything a check needs from /repo's current working tree: the engine, the LLVM IR of the program linked
with the models, and (for replays) the same program natively and the real binary."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QLC_REPO", "/repo")
B = os.path.join(V, "build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"): ENV.pop(k, None)

class BuildError(Exception): pass
def sh(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=dict(ENV, **(env or {})), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0: raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")
def lock():
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, ".lock"), "w"); fcntl.flock(f, fcntl.LOCK_EX); return f
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p): fs = [p]
        else: fs = sorted(os.path.join(d, x) for d, _, n in os.walk(p) for x in n if "/target/" not in d)
        for f in fs: h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()
def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if isinstance(s, str): s = s.encode()
    if os.path.exists(p) and open(p, "rb").read() == s: return
    with open(p, "wb") as f: f.write(s)
def sync(src, dst):
    want = set()
    for d, _, n in os.walk(src):
        for x in n:
            p = os.path.join(d, x); r = os.path.relpath(p, src); want.add(r); write(os.path.join(dst, r), open(p, "rb").read())
    for d, _, n in os.walk(dst):
        for x in n:
            if os.path.relpath(os.path.join(d, x), dst) not in want: os.remove(os.path.join(d, x))

def engine():
    sh(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", V + "/engine/Cargo.toml"], {"CARGO_TARGET_DIR": B + "/engine"})
    return B + "/engine/release/symex"

def versions():
    t = open(REPO + "/Cargo.lock").read()
    return {n: re.search(r'name = "%s"\nversion = "([^"]+)"' % n, t).group(1) for n in ("crossbeam-channel", "num_cpus") if re.search(r'name = "%s"\n' % n, t)}

def package(native):
    """A copy of /repo's crate whose `std` is symstd and whose entry point is the harness."""
    d = B + ("/pkgn" if native else "/pkg")
    src = d + "/src.tmp"; shutil.rmtree(src, ignore_errors=True); shutil.copytree(REPO + "/src", src)
    m = src + "/main.rs"; t = open(m).read()
    tail = "\n#[macro_use]\nextern crate symstd as std;\n#[no_mangle]\npub extern \"C\" fn verif_entry() {\n    fn go() -> i32 { harness::Ret::code(main()) }\n    harness::run(go);\n}\n"
    if native: t = "#![no_main]\n" + t; tail += "#[no_mangle]\npub extern \"C\" fn main_verif() { verif_entry() }\n#[export_name = \"main\"]\npub extern \"C\" fn c_main(_a: i32, _b: *const *const u8) -> i32 { verif_entry(); 0 }\n"
    else: tail += "#[used]\nstatic VERIF_KEEP: extern \"C\" fn() = verif_entry;\n"
    open(m, "w").write(t + tail)
    sync(src, d + "/src"); shutil.rmtree(src)
    c = open(REPO + "/Cargo.toml").read()
    secs = re.split(r'(?m)^(?=\[)', c)
    secs = [s for s in secs if not re.match(r'\[\[(test|bench|example)\]\]|\[dev-dependencies|\[workspace|\[profile', s)]
    out = []
    for s in secs:
        if s.startswith("[dependencies]"): s = s.rstrip() + '\nsymstd = { path = "%s/sym/symstd" }\nharness = { path = "%s/sym/harness" }\n' % (V, V)
        out.append(s)
    c = "\n".join(x.rstrip() for x in out) + "\n\n"
    feats = '[features]\n' if "[features]" not in c else ""
    if feats: c += '[features]\nverif_native = ["harness/native", "symstd/native"]\n'
    else: c = c.replace("[features]\n", '[features]\nverif_native = ["harness/native", "symstd/native"]\n')
    c += "\n[patch.crates-io]\n"
    for n, v in versions().items():
        s = B + "/stubs/" + n
        sync(V + "/sym/stubs/%s/src" % n, s + "/src")
        t = re.sub(r'version = "[^"]*"', 'version = "%s"' % v, open(V + "/sym/stubs/%s/Cargo.toml" % n).read(), count=1).replace("../../symstd", V + "/sym/symstd")
        write(s + "/Cargo.toml", t)
        c += '%s = { path = "%s" }\n' % (n, s)
    c += "\n[workspace]\n\n[profile.release]\nlto = \"fat\"\npanic = \"abort\"\ncodegen-units = 1\nopt-level = 1\noverflow-checks = true\n\n[profile.dev]\ndebug = 0\n"
    write(d + "/Cargo.toml", c)
    # start from /repo's resolved versions; cargo adds the local crates
    if not os.path.exists(d + "/Cargo.lock") or not os.path.exists(d + "/.lockhash") or open(d + "/.lockhash").read() != tree_hash([REPO + "/Cargo.lock"]):
        shutil.copy(REPO + "/Cargo.lock", d + "/Cargo.lock"); write(d + "/.lockhash", tree_hash([REPO + "/Cargo.lock"]))
    return d

def ir():
    """-> (path of the IR, seconds). Rebuilt whenever /repo or the models changed."""
    t0 = time.time()
    key = tree_hash([REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", V + "/sym", os.path.abspath(__file__)])
    ll = B + "/ir/" + key[:24] + ".ll"
    if os.path.exists(ll): return ll, 0.0
    d = package(False); tgt = B + "/symtarget"
    for f in glob.glob(tgt + "/release/deps/qlc*"): 
        if os.path.isdir(f): shutil.rmtree(f)
        else: os.remove(f)
    ld = B + "/nolink.sh"
    write(ld, "#!/bin/sh\nprev=\nfor a in \"$@\"; do [ \"$prev\" = -o ] && : > \"$a\"; prev=$a; done\nexit 0\n"); os.chmod(ld, 0o755)
    sh(["cargo", "rustc", "--offline", "--release", "--bin", "qlc", "--", "-C", "save-temps", "-C", "linker=" + ld, "--cap-lints", "allow"], {"CARGO_TARGET_DIR": tgt}, cwd=d)
    bc = glob.glob(tgt + "/release/deps/qlc-*.lto.after-restriction.bc")
    if len(bc) != 1: raise BuildError("no linked bitcode: %s" % bc)
    root = sh(["rustc", "--print", "sysroot"]).strip() + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/"
    os.makedirs(B + "/ir", exist_ok=True)
    sh([root + "opt", "-passes=globaldce", "-strip-debug", bc[0], "-S", "-o", ll + ".tmp"])
    for f in glob.glob(B + "/ir/*.ll"): os.remove(f)
    os.rename(ll + ".tmp", ll)
    for f in glob.glob(tgt + "/release/deps/qlc*"): os.remove(f)
    return ll, time.time() - t0

def native():
    """-> (replay binary, real qlc, preload shim)"""
    key = tree_hash([REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", V + "/sym", os.path.abspath(__file__), V + "/tools/shim.c"])
    st = B + "/native.key"
    r = (B + "/nattarget/debug/qlc", B + "/realtarget/debug/qlc", B + "/shim.so")
    if os.path.exists(st) and open(st).read() == key and all(os.path.exists(x) for x in r): return r
    d = package(True)
    sh(["cargo", "rustc", "--offline", "--bin", "qlc", "--features", "verif_native", "--", "--cap-lints", "allow"], {"CARGO_TARGET_DIR": B + "/nattarget"}, cwd=d)
    # cargo judges by modification times and by paths relative to the workspace: never reuse the program itself
    for f in glob.glob(B + "/realtarget/debug/.fingerprint/qlc-*"): shutil.rmtree(f)
    sh(["cargo", "build", "--offline", "--locked", "--bin", "qlc", "--manifest-path", REPO + "/Cargo.toml"], {"CARGO_TARGET_DIR": B + "/realtarget"})
    sh(["gcc", "-shared", "-fPIC", "-O1", "-o", r[2], V + "/tools/shim.c", "-ldl"])
    write(st, key)
    return r
if __name__ == "__main__":
    l = lock(); t0 = time.time()
    print(engine(), time.time() - t0); print(*ir()); 
    if len(sys.argv) > 1: print(native())
