"""Builds the executor and the LLVM IR of the harnesses and of /repo's current source.

Everything lands in a cache directory outside /repo and /verif's tracked files. Nothing there is trusted
to be present: every check calls build() and missing parts are made again. /repo's crate is always handed
to cargo, which recompiles it whenever its source changed.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
TC = "stable"
TRIPLE = "x86_64-unknown-linux-gnu"
PASSES = ("function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,"
          "instcombine<max-iterations=1;no-verify-fixpoint>,simplifycfg)")


# Features of /repo the harnesses are built with.
VARIANTS = {"tokio": [], "agnostic": ["--no-default-features", "--features", "agnostic"]}


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **kw)
    return e


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (what, p.returncode, p.stdout[-6000:]))
    return p.stdout


def sysroot():
    return run(["rustc", "--print", "sysroot"], "rustc", env=env()).strip()


def llvm(tool):
    return os.path.join(sysroot_cached(), "lib/rustlib", TRIPLE, "bin", tool)


_sr = None


def sysroot_cached():
    global _sr
    if _sr is None:
        _sr = sysroot()
    return _sr


def build_engine():
    t = os.path.join(CACHE, "engine")
    run(["cargo", "build", "--release", "--offline"], "building the symbolic executor",
        cwd=os.path.join(VERIF, "engine"), env=env(CARGO_TARGET_DIR=t))
    return os.path.join(t, "release", "symex")


def to_ll(bc):
    """Optimises and disassembles one module; the result is named by the module's content."""
    h = hashlib.sha256((PASSES + "\0").encode())
    with open(bc, "rb") as f:
        h.update(f.read())
    d = os.path.join(CACHE, "ll")
    base = os.path.basename(bc).split("-")[0]
    out = os.path.join(d, "%s-%s.ll" % (base, h.hexdigest()[:24]))
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        run([llvm("opt"), "-passes=" + PASSES, bc, "-o", tmp + ".bc"], "opt " + bc)
        run([llvm("llvm-dis"), tmp + ".bc", "-o", tmp], "llvm-dis " + bc)
        os.remove(tmp + ".bc")
        os.rename(tmp, out)
    return out


def std_ll():
    """The IR embedded in the toolchain's own core, alloc and std."""
    d = os.path.join(CACHE, "std")
    os.makedirs(d, exist_ok=True)
    lib = os.path.join(sysroot_cached(), "lib/rustlib", TRIPLE, "lib")

    def one(name):
        rl = glob.glob(os.path.join(lib, "lib%s-*.rlib" % name))
        if len(rl) != 1:
            raise BuildError("no unique lib%s in %s" % (name, lib))
        out = os.path.join(d, "%s-%s.ll" % (name, os.path.basename(rl[0])[:-5].split("-")[-1]))
        if os.path.exists(out):
            return out
        w = os.path.join(d, "x-%s-%d" % (name, os.getpid()))
        os.makedirs(w)
        run([llvm("llvm-ar"), "x", rl[0]], "llvm-ar", cwd=w)
        objs = [o for o in glob.glob(os.path.join(w, "*.o"))]
        if len(objs) != 1:
            raise BuildError("%s: %d objects" % (name, len(objs)))
        run([llvm("llvm-objcopy"), "--dump-section=.llvmbc=" + os.path.join(w, "x.bc"), objs[0]], "objcopy")
        run([llvm("llvm-dis"), os.path.join(w, "x.bc"), "-o", os.path.join(w, "x.ll")], "llvm-dis std")
        os.rename(os.path.join(w, "x.ll"), out)
        shutil.rmtree(w)
        return out

    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, ["core", "alloc", "std", "std_detect"]))


def build_ir(variant="tokio"):
    """Compiles the harness crate (and with it /repo) to LLVM IR; returns the .ll files."""
    t = os.path.join(CACHE, "ir-" + variant)
    hd = os.path.join(VERIF, "harness")
    cmd = ["cargo", "build", "--offline", "--target", TRIPLE, "--lib", "--message-format=json-render-diagnostics"] + VARIANTS[variant]
    p = subprocess.run(cmd, cwd=hd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env=env(CARGO_TARGET_DIR=t, RUSTFLAGS="--emit=llvm-bc,link -C no-prepopulate-passes -C embed-bitcode=no"))
    if p.returncode != 0:
        raise BuildError("compiling /repo and the harnesses failed:\n" + p.stderr[-6000:])
    bcs = []
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m.get("filenames", []):
            if f.endswith(".rmeta") or f.endswith(".rlib"):
                b = os.path.basename(f)
                stem = b[3:].rsplit(".", 1)[0]      # lib<name>-<hash>
                if TRIPLE not in f:
                    continue
                d = os.path.dirname(f)
                if "-" not in stem:                 # the root package is also hard-linked without a hash
                    continue
                c = [os.path.join(d, stem + ".bc")] + sorted(glob.glob(os.path.join(d, stem + ".*.rcgu.bc")))
                c = [x for x in c if os.path.exists(x)]
                bcs += [x for x in c if x not in bcs]
    d = os.path.join(t, TRIPLE, "debug/deps")
    hb = glob.glob(os.path.join(d, "harness-*.bc"))
    for x in hb:
        if x not in bcs:
            bcs.append(x)
    if not hb or len(hb) > 1:
        raise BuildError("harness bitcode: %r" % hb)
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(to_ll, bcs))
    return lls


def build_native(profile, variant="tokio"):
    """The native replay binaries."""
    t = os.path.join(CACHE, "native" if variant == "tokio" else "native-" + variant)
    cmd = ["cargo", "build", "--offline", "--bin", "replay"] + VARIANTS[variant]
    sub = "debug"
    if profile == "release":
        cmd.append("--release")
        sub = "release"
    run(cmd, "building the native replay (%s)" % profile, cwd=os.path.join(VERIF, "harness"), env=env(CARGO_TARGET_DIR=t))
    return os.path.join(t, sub, "replay")


def locked():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


if __name__ == "__main__":
    t0 = time.time()
    l = locked()
    print(build_engine(), "%.1f" % (time.time() - t0))
    s = std_ll()
    print("std %.1f" % (time.time() - t0))
    v = sys.argv[2] if len(sys.argv) > 2 else "tokio"
    i = build_ir(v)
    print("ir %.1f" % (time.time() - t0), len(i))
    if len(sys.argv) > 1:
        open(sys.argv[1], "w").write("\n".join(s + i))
