"""The intermediate representation of the code under test, made afresh from /repo with the repository's own toolchain."""
import glob
import json, os, re, shutil, subprocess
import common as C
from common import VERIF, REPO, WORK

LSE = os.path.join(WORK, "lse")
SRC = os.path.join(VERIF, "lse")


def prepare():
    os.makedirs(LSE, exist_ok=True)
    for d in ("nd", "dalek", "merlin", "wasm-bindgen", "wasm-bindgen-macro"):
        for f in glob.glob(os.path.join(SRC, d, "**", "*"), recursive=True):
            if os.path.isfile(f):
                C.write(os.path.join(LSE, d, os.path.relpath(f, os.path.join(SRC, d))), open(f).read())
    # rand: the generators used give unconstrained bytes.
    dst = os.path.join(LSE, "rand")
    mark = open(os.path.abspath(__file__)).read()
    if not os.path.exists(os.path.join(dst, ".done")) or open(os.path.join(dst, ".done")).read() != mark:
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(os.path.join(C.VENDOR, "rand-0.5.5"), dst, ignore=shutil.ignore_patterns("benches", "examples", "tests"))
        for f in (".cargo-checksum.json", "Cargo.toml.orig"):
            if os.path.exists(os.path.join(dst, f)):
                os.remove(os.path.join(dst, f))
        t = open(os.path.join(dst, "Cargo.toml")).read().replace('version = "0.5.5"', 'version = "0.5.99"', 1)
        t = t.replace("[dependencies.rand_core]", '[dependencies.nd]\npath = "../nd"\n\n[dependencies.rand_core]', 1)
        C.write(os.path.join(dst, "Cargo.toml"), t)
        core = '''
    fn next_u32(&mut self) -> u32 { ::rand_core::impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { ::rand_core::impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { ::nd::apply(dest, 1, 4, &[], &[]) }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { Ok(::nd::apply(dest, 1, 4, &[], &[])) }
}
'''
        p = os.path.join(dst, "src/rngs/thread.rs")
        s = open(p).read()
        i, j = s.index("impl RngCore for ThreadRng"), s.index("impl CryptoRng for ThreadRng")
        s = s[:i] + "impl RngCore for ThreadRng {" + core + s[j:]
        i = s.index("pub fn thread_rng() -> ThreadRng {")
        s = s[:i] + "pub fn thread_rng() -> ThreadRng { ThreadRng }\n" + s[s.index("impl RngCore for ThreadRng"):]
        s = re.sub(r"pub struct ThreadRng \{[^}]*\}", "pub struct ThreadRng;", s)
        s = re.sub(r"thread_local!\((?:.|\n)*?\n\);?\n", "", s)
        C.write(p, s.split("#[cfg(test)]")[0])
        p = os.path.join(dst, "src/prng/chacha.rs")
        s = open(p).read()
        i, j = s.index("impl RngCore for ChaChaRng"), s.index("impl SeedableRng for ChaChaRng")
        # Its bytes depend on the seed (and on how many were drawn before, see vp_apply).
        seeded = core.replace("::nd::apply(dest, 1, 4, &[], &[])", "{ let k = key(&self.0.core.state); ::nd::apply(dest, 1, 3, &k, &[]) }")
        s = s[:i] + """fn key(state: &[u32; STATE_WORDS]) -> [u8; 32] {
    let mut k = [0u8; 32];
    for i in 0..8 { for j in 0..4 { k[4 * i + j] = (state[4 + i] >> (8 * j)) as u8; } }
    k
}
impl RngCore for ChaChaRng {""" + seeded + s[j:]
        C.write(p, s.split("#[cfg(test)]")[0])
        p = os.path.join(dst, "src/lib.rs")
        s = open(p).read()
        s = s.replace("extern crate rand_core;", "extern crate rand_core;\nextern crate nd;", 1)
        C.write(p, s)
        C.write(os.path.join(dst, ".done"), mark)
    # Crates whose manifests do not offer an rlib.
    C.write(os.path.join(LSE, "ffi/Cargo.toml"), '''[package]
name = "ffi"
version = "0.1.0"
authors = ["verif"]

[lib]
name = "credential"
path = "%s/ffi/src/lib.rs"

[dependencies]
libc = { version = "0.2", default-features = false }
rand = { version = "0.5", default-features = false }
signal-credential = { path = "%s/signal-credential" }

[features]
default = ["std"]
std = []
''' % (REPO, REPO))
    C.write(os.path.join(LSE, "wasm/Cargo.toml"), '''[package]
name = "wasm"
version = "0.1.0"
authors = ["verif"]

[lib]
name = "wasm"
path = "%s/wasm/src/lib.rs"

[dependencies]
rand = "0.5"
signal-credential = { path = "%s/signal-credential" }
wasm-bindgen = { path = "../wasm-bindgen", features = ["serde-serialize"] }
''' % (REPO, REPO))
    C.write(os.path.join(LSE, "alloc/Cargo.toml"), '''[package]
name = "buildtest-alloc"
version = "0.1.0"
authors = ["verif"]

[lib]
name = "buildtest_alloc"
path = "%s/build-test/alloc/src/lib.rs"
''' % REPO)


def crate(mode):
    """mode: sym (stand-ins) or native (the real crates).  Returns the crate's directory and its target directory."""
    prepare()
    d = os.path.join(LSE, "harness-" + mode)
    for f in glob.glob(os.path.join(SRC, "harness", "src", "*.rs")):
        C.write(os.path.join(d, "src", os.path.basename(f)), open(f).read())
    patch = ['%s = { path = "%s/%s" }' % (n, LSE, p) for n, p in (("rand", "rand"), ("merlin", "merlin"), ("curve25519-dalek", "dalek"))]
    t = open(os.path.join(SRC, "harness", "Cargo.toml.in")).read()
    t = t.replace("@REPO@", REPO).replace("@LSE@", LSE)
    t = t.replace("@TYPE@", "cdylib" if mode == "sym" else "rlib")
    if mode == "sym":
        t = t.replace("@PATCH@", "\n".join(patch))
    else:
        t = t.replace("[patch.crates-io]\n@PATCH@\n", "")
    C.write(os.path.join(d, "Cargo.toml"), t)
    lock = os.path.join(d, "Cargo.lock")
    if os.path.exists(lock):
        os.remove(lock)
    return d, os.path.join(LSE, "target-" + mode)


# The parameters of the C interface, in the order in which c.rs documents them.
BYTES = lambda *names: [x for n in names for x in ((n,) if n == "seed" else (n, n + "_length"))]
CALLS = {
    "system_parameters_create": BYTES("seed"),
    "issuer_create": BYTES("system_parameters", "seed"),
    "issuer_new": BYTES("system_parameters", "keypair"),
    "issuer_get_issuer_parameters": BYTES("issuer"),
    "issuer_issue": BYTES("issuer", "phone_number", "seed"),
    "issuer_verify": BYTES("issuer", "presentation"),
    "issuer_verify_roster_membership": BYTES("issuer", "verified_credential"),
    "user_obtain_finish": BYTES("phone_number", "system_parameters", "issuer_parameters", "issuance"),
    "user_show": BYTES("user", "roster_entry_commitment", "seed"),
    "roster_entry_commitment_create": BYTES("phone_number", "system_parameters", "seed"),
    "roster_entry_commitment_remove_opening": BYTES("roster_entry_commitment"),
    "roster_entry_commitment_open": BYTES("roster_entry_commitment", "phone_number", "system_parameters"),
}


def calls():
    """Write calls.h: each function called with its arguments where the header's names say.  (Renamed parameters are taken by position.)"""
    p = subprocess.run(["clang-18", "--target=x86_64-unknown-linux-gnu", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-include", "sys/types.h",
                        os.path.join(REPO, "ffi/src/include/credential.h")], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    found = {}
    try:
        for n in json.loads(p.stdout).get("inner", []):
            if n.get("kind") == "FunctionDecl":
                found[n["name"]] = [x.get("name") for x in n.get("inner", []) if x.get("kind") == "ParmVarDecl"]
    except ValueError:
        pass
    d = os.path.join(LSE, "capi")
    os.makedirs(d, exist_ok=True)
    lines = []
    for f, names in sorted(CALLS.items()):
        order = found.get(f, names)
        lines.append("#define CALL_%s %s(%s)\n" % (f, f, ", ".join(order if sorted(map(str, order)) == sorted(names) else names)))
    C.write(os.path.join(d, "calls.h"), "".join(lines))
    return d


def callers(args):
    """The C program's view of the interface, compiled against /repo's header."""
    return subprocess.run(["clang-18", "-I", calls(), "--target=x86_64-unknown-linux-gnu", "-O1", "-fPIC", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types",
                           "-I", os.path.join(REPO, "ffi/src/include"), "-c", os.path.join(SRC, "capi/callers.c")] + args,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_ir():
    """Returns (path of the textual IR or None, log)."""
    d, target = crate("sym")
    e = C.old_env(target)
    if not glob.glob(os.path.join(target, "release/deps/lse_harness*.bc")):
        # Without its result a finished build is not finished.
        for f in glob.glob(os.path.join(target, "release/.fingerprint/lse-harness-*")):
            shutil.rmtree(f)
    p = subprocess.run(["cargo", "rustc", "--release", "--lib", "--", "--emit=llvm-bc", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    found = sorted(glob.glob(os.path.join(target, "release/deps/lse_harness*.bc")), key=os.path.getmtime, reverse=True)
    if p.returncode or not found:
        return None, p.stdout
    ll = os.path.join(LSE, "harness.ll")
    bc = os.path.join(LSE, "callers.bc")
    q = callers(["-emit-llvm", "-o", bc])
    if q.returncode:
        return None, p.stdout + q.stdout
    q = subprocess.run(["llvm-link-18", "-disable-debug-info-type-map", "-S", found[0], bc, "-o", ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if q.returncode:
        return None, p.stdout + q.stdout
    return ll, p.stdout


def build_native():
    """The replay program, with the real crates.  Returns (path or None, log)."""
    d, target = crate("native")
    o = os.path.join(LSE, "callers.o")
    q = callers(["-o", o])
    if q.returncode:
        return None, q.stdout
    p = subprocess.run(["cargo", "rustc", "--release", "--bin", "lse_replay", "--features", "native", "--", "-C", "link-arg=-Wl,--wrap=malloc", "-C", "link-arg=" + o], cwd=d,
                       env=C.old_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (os.path.join(target, "release", "lse_replay") if p.returncode == 0 else None), p.stdout
