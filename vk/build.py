"""Builds /repo's proc macro (and the external crates it supports) from the current working tree,
and compiles generated Rust sources against it with plain rustc."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly-2025-03-20"

ALL_FEATURES = ["std", "type_analysis", "transpose_methods", "ops", "convert", "fmt", "futures03",
                "futures01", "rayon", "serde", "tokio1", "tokio03", "tokio02", "tokio01", "http_body1",
                "unstable", "coroutine_trait", "fn_traits", "trusted_len"]
DEFAULT_FEATURES = ["std"]

EXT = {
    "futures03": 'futures03_crate = { package = "futures-util", version = "0.3", default-features = false, features = ["std", "io", "sink"] }',
    "futures01": 'futures01_crate = { package = "futures", version = "0.1" }',
    "tokio1": 'tokio1_crate = { package = "tokio", version = "1", default-features = false }',
    "tokio03": 'tokio03_crate = { package = "tokio", version = "0.3", default-features = false }',
    "tokio02": 'tokio02_crate = { package = "tokio", version = "0.2", default-features = false }',
    "tokio01": 'tokio01_crate = { package = "tokio", version = "0.1", default-features = false, features = ["io"] }',
    "rayon": 'rayon_crate = { package = "rayon", version = "1" }',
    "serde": 'serde_crate = { package = "serde", version = "1" }',
    "serde_json": 'serde_json = { version = "1" }',
    "http_body1": 'http_body1_crate = { package = "http-body", version = "1", default-features = false }',
    "bytes": 'bytes = { version = "1" }',
}
# external key -> (package name, version prefix)
EXT_PKG = {"futures03": ("futures-util", "0.3"), "futures01": ("futures", "0.1"), "tokio1": ("tokio", "1."),
           "tokio03": ("tokio", "0.3"), "tokio02": ("tokio", "0.2"), "tokio01": ("tokio", "0.1"),
           "rayon": ("rayon", "1"), "serde": ("serde", "1"), "serde_json": ("serde_json", "1"),
           "http_body1": ("http-body", "1"), "bytes": ("bytes", "1")}


class Infra(Exception):
    """The check itself could not run (never a verdict)."""


def env():
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith("CARGO_") or k.startswith("RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["HOME"] = os.environ.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    return e


_rustc = None
def rustc():
    global _rustc
    if _rustc is None:
        p = subprocess.run(["rustup", "which", "rustc", "--toolchain", TOOLCHAIN], env=env(),
                           capture_output=True, text=True)
        _rustc = p.stdout.strip() if p.returncode == 0 and p.stdout.strip() else "rustc"
    return _rustc


class Macro:
    """Paths of a built auto_enums proc macro and of external crates."""
    def __init__(self, so, externs, deps):
        self.so, self.externs, self.deps = so, externs, deps
    def flags(self, use=(), macro=True):
        f = ["-L", "dependency=" + self.deps]
        if macro:
            f += ["--extern", "auto_enums=" + self.so]
        for name, key in use:
            f += ["--extern", "%s=%s" % (name, self.externs[key])]
        return f


def cargo_build(flavour, features, ext=(), extra_dep="", extra_pkgs=()):
    """flavour: directory name. Returns Macro."""
    d = os.path.join(BUILD, "ws-" + flavour)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    toml = '[package]\nname = "ws_%s"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n' % flavour.replace("-", "_")
    toml += '[lib]\npath = "src/lib.rs"\n[profile.dev]\ndebug = false\nincremental = false\n[dependencies]\n'
    toml += 'auto_enums = { path = "%s", default-features = false, features = %s }\n' % (REPO, json.dumps(list(features)))
    for e in ext:
        toml += EXT[e] + "\n"
    toml += extra_dep
    with open(os.path.join(BUILD, ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _write(os.path.join(d, "Cargo.toml"), toml)
        _write(os.path.join(d, "src", "lib.rs"), "")
        lock = os.path.join(d, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(VERIF, "ws", "Cargo.lock"), lock)
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        e["CARGO_INCREMENTAL"] = "0"
        p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=d, env=e,
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise Infra("cargo build of /repo (%s) failed:\n%s\n%s" % (flavour, p.stderr[-3000:], _errors(p.stdout)))
    so, externs, other = None, {}, {}
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        name = m["target"]["name"]
        files = m["filenames"]
        pid = m["package_id"]
        if name == "auto_enums":
            so = [f for f in files if f.endswith(".so")][0]
        for key in ext:
            pkg, ver = EXT_PKG[key]
            if m["target"]["kind"] in (["lib"], ["rlib"]) and _pkg_is(pid, pkg, ver):
                externs[key] = [f for f in files if f.endswith(".rlib")][0]
        rl = [f for f in files if f.endswith(".rlib") or f.endswith(".so")]
        if rl:
            other[name] = rl[0]
    mac = Macro(so, externs, os.path.join(BUILD, "target", "debug", "deps"))
    mac.other = other
    return mac


def _pkg_is(pid, pkg, ver):
    # "registry+https://github.com/rust-lang/crates.io-index#futures-util@0.3.31"
    tail = pid.split("#")[-1]
    if "@" in tail:
        n, v = tail.split("@")
    else:
        n, v = pid.split("#")[0].rsplit("/", 1)[-1], tail
    return n == pkg and v.startswith(ver)


def _errors(stdout):
    out = []
    for line in stdout.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                out.append(m["message"].get("rendered") or m["message"]["message"])
    return "\n".join(out)[:4000]


def _write(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def run_rustc(args, cwd, timeout=600):
    """Returns (returncode, diagnostics list, raw stderr)."""
    cmd = [rustc(), "--error-format=json"] + ([] if "--edition" in args else ["--edition", "2021"]) + args
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(), capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Infra("rustc timed out in " + cwd)
    diags, rest = [], []
    for line in p.stderr.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
                continue
            except ValueError:
                pass
        rest.append(line)
    return p.returncode, diags, "\n".join(rest)


def scratch(name):
    d = os.path.join(BUILD, "scratch", "%s-%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def spy():
    """Builds the recording attribute macros and the program that judges their records. Returns (spy .so, judge)."""
    d = os.path.join(BUILD, "spy")
    os.makedirs(os.path.join(d, "judge", "src"), exist_ok=True)
    so, exe = os.path.join(d, "libspy.so"), os.path.join(BUILD, "target-judge", "debug", "judge")
    src = os.path.join(VERIF, "rs", "spy", "lib.rs")
    with open(os.path.join(BUILD, ".lock-spy"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha1(open(src, "rb").read()).hexdigest()
        if not os.path.exists(so) or not os.path.exists(so + "." + h):
            rc, diags, raw = run_rustc(["--crate-type", "proc-macro", "--crate-name", "spy", "-o", so, "-C", "debuginfo=0", "--extern", "proc_macro", src], d)
            if rc:
                raise Infra("the spy does not compile: %s %s" % (diags[:1], raw))
            open(so + "." + h, "w").close()
        _write(os.path.join(d, "judge", "Cargo.toml"), '[package]\nname = "judge"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[profile.dev]\ndebug = false\n'
               '[dependencies]\nquote = "1"\nsyn = { version = "2", features = ["full", "visit-mut", "extra-traits"] }\n')
        _write(os.path.join(d, "judge", "src", "main.rs"), open(os.path.join(VERIF, "rs", "judge", "main.rs")).read())
        lock = os.path.join(d, "judge", "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(VERIF, "ws", "Cargo.lock"), lock)
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-judge")
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(d, "judge"), env=e, capture_output=True, text=True)
        if p.returncode:
            raise Infra("the judge does not build:\n" + p.stderr[-3000:])
    return so, exe
