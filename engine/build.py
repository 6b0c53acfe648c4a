"""Builds a harness crate against /repo's working tree and returns the LLVM IR
of the whole program (fat LTO), regenerated on every run."""
import atexit
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_work = None


class BuildError(Exception):
    pass


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("TMPDIR", "/tmp"))
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_work, ignore_errors=True)
        atexit.register(clean)
    return _work


def run(cmd, env, cwd, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


class Config:
    """one build configuration of one harness crate"""

    def __init__(self, crate, features=(), cfgs=(), rustc=(), name=None, target=None, release_checks=True,
                 tokens=None, opt=None):
        self.crate = crate
        self.features = tuple(features)
        self.cfgs = tuple(cfgs)
        self.rustc = tuple(rustc)
        self.target = target
        self.checks = release_checks      # overflow-checks / debug-assertions on
        self.opt = opt
        self.tokens = tokens or {}
        self.name = name or crate

    def key(self):
        return (self.crate, self.features, self.cfgs, self.rustc, self.target, self.checks, self.opt)


_built = {}


def prepare(crate):
    """a copy of the harness crate in the work directory (so that nothing is
    written into /verif), pointing at the repository under test"""
    w = workdir()
    dst = os.path.join(w, "src", crate)
    if not os.path.exists(dst):
        shutil.copytree(os.path.join(ROOT, "harness", crate), dst)
        c = os.path.join(w, "src", "common.rs")
        if not os.path.exists(c):
            shutil.copy(os.path.join(ROOT, "harness", "common.rs"), c)
        if REPO != "/repo":
            p = os.path.join(dst, "Cargo.toml")
            s = open(p).read().replace('path = "/repo/', 'path = "%s/' % REPO)
            open(p, "w").write(s)
    return dst


def toolchain_env():
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env.pop("CARGO_BUILD_TARGET", None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def build_ir(cfg):
    """-> path of the .ll file"""
    k = cfg.key()
    if k in _built:
        return _built[k]
    src = prepare(cfg.crate)
    env = toolchain_env()
    tgt = os.path.join(workdir(), "t" + hashlib.sha256(repr(k).encode()).hexdigest()[:12])
    env["CARGO_TARGET_DIR"] = tgt
    flags = []
    for c in cfg.cfgs:
        flags += ["--cfg", c]
    flags += list(cfg.rustc)
    env["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(flags)
    if not cfg.checks:
        env["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "false"
        env["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = "false"
    if cfg.opt is not None:
        env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = str(cfg.opt)
    cmd = ["cargo", "rustc", "--release", "--offline"]
    if cfg.features:
        cmd += ["--features", ",".join(cfg.features)]
    if cfg.target:
        env["RUSTC_BOOTSTRAP"] = "1"
        env["__CARGO_TESTS_ONLY_SRC_ROOT"] = ""
        cmd += ["-Zbuild-std=core", "--target", cfg.target, "--crate-type", "staticlib"]
        env.pop("__CARGO_TESTS_ONLY_SRC_ROOT")
    cmd += ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    rc, out = run(cmd, env, src)
    if rc:
        raise BuildError("harness %s does not build against %s:\n%s" % (cfg.crate, REPO, out[-6000:]))
    pat = os.path.join(tgt, cfg.target or "", "release", "deps", "h_%s*.ll" % cfg.crate)
    lls = glob.glob(pat)
    if len(lls) != 1:
        raise BuildError("no IR produced: %s" % pat)
    _built[k] = lls[0]
    return lls[0]


def rustlib_bin():
    r = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=toolchain_env(),
                       cwd=ROOT)
    for p in glob.glob(os.path.join(r.stdout.strip(), "lib/rustlib/*/bin")):
        if os.path.exists(os.path.join(p, "llc")):
            return p
    return None


def token_patch(text, tokens):
    """the IR with the CPU-feature cache (cpufeatures' STORAGE byte) preset, so
    that native replay takes the same backend"""
    def rep(m):
        name = m.group(1)
        v = token_value(name, tokens)
        return m.group(0) if v is None else "%s%s[1 x i8] c\"\\%02X\"" % (m.group(1), m.group(2), v)
    return re.sub(r'^(@[^ ]*STORAGE[^ ]*)( = [^\n]*?)\[1 x i8\] (?:c"[^"]*"|zeroinitializer)', rep, text, flags=re.M)


def token_value(gname, tokens):
    for k, v in tokens.items():
        if k in gname:
            return v
    return None


STUB = r"""
#include <unistd.h>
void verif_panic(void) { _exit(77); }
void rust_eh_personality(void) { _exit(78); }
"""


def build_native(cfg):
    """compiles the very IR that was analysed to a shared object"""
    ll = build_ir(cfg)
    k = ("so", ll, tuple(sorted(cfg.tokens.items())))
    if k in _built:
        return _built[k]
    d = tempfile.mkdtemp(dir=workdir())
    p = os.path.join(d, "h.ll")
    open(p, "w").write(token_patch(open(ll).read(), cfg.tokens))
    b = rustlib_bin()
    if b is None:
        raise BuildError("llc not found")
    env = dict(os.environ)
    rc, out = run([os.path.join(b, "llc"), "-O1", "-relocation-model=pic", "-filetype=obj", p, "-o", p + ".o"], env, d)
    if rc:
        raise BuildError("llc: " + out[-2000:])
    open(p + ".c", "w").write(STUB)
    rc, out = run(["cc", "-shared", "-fPIC", "-o", os.path.join(d, "h.so"), p + ".o", p + ".c"], env, d)
    if rc:
        raise BuildError("cc: " + out[-2000:])
    _built[k] = os.path.join(d, "h.so")
    return _built[k]


_flags = None


def cpu_supports(cfg):
    """can this machine run the code of that configuration natively?"""
    global _flags
    if cfg.target:
        return False
    if _flags is None:
        _flags = set()
        try:
            for l in open("/proc/cpuinfo"):
                if l.startswith("flags"):
                    _flags = set(l.split(":")[1].split())
                    break
        except OSError:
            pass
    need = set()
    txt = " ".join(cfg.cfgs + cfg.rustc) + " " + " ".join(k for k, v in cfg.tokens.items() if v)
    if cfg.crate == "chacha":
        if "avx512" in txt:
            need |= {"avx512f", "avx512vl", "avx2"}
        elif "avx2" in txt or cfg.tokens.get("", 0):
            need |= {"avx2"}
    return need <= _flags


def repo_state():
    """short description of the tree under test"""
    try:
        h = subprocess.run(["git", "-C", REPO, "rev-parse", "--short", "HEAD"], stdout=subprocess.PIPE, text=True)
        d = subprocess.run(["git", "-C", REPO, "status", "--porcelain", "-uno"], stdout=subprocess.PIPE, text=True)
        return h.stdout.strip() + ("+dirty" if d.stdout.strip() else "")
    except OSError:
        return "unknown"
