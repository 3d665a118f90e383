"""Builds what a check needs from /repo's current working tree: the engine, the LLVM IR of the
harnesses together with the real crate and the standard library, and the native replayer."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("VERIF_WORK", os.path.join(V, ".work"))
REPO = "/repo"
TC = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_ENCODED"))}
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin"
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e.update(kw)
    return e


def run(cmd, cwd=V, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s\n%s" % (" ".join(cmd[:6]), p.stdout[-3000:], p.stderr[-6000:]))
    return p.stdout


def sysroot():
    return run(["rustc", "--print", "sysroot"]).strip()


def tool(name):
    p = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)
    if not os.path.exists(p):
        raise BuildError("no " + p)
    return p


def engine():
    run(["cargo", "build", "--release", "--offline", "--manifest-path", V + "/engine/Cargo.toml"],
        CARGO_TARGET_DIR=W + "/engine")
    return W + "/engine/release/symex"


STD = ["core", "alloc", "std", "compiler_builtins", "hashbrown", "std_detect", "memchr", "cfg_if",
       "rustc_demangle", "libc", "unwind", "panic_abort", "addr2line", "gimli", "object", "miniz_oxide", "adler2"]


def std_bc():
    out = W + "/std.bc"
    if os.path.exists(out):
        return out
    d = W + "/stdbc"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lib = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/lib")
    bcs = []
    for s in STD:
        for r in glob.glob("%s/lib%s-*.rlib" % (lib, s)):
            x = d + "/" + s
            os.makedirs(x)
            run([tool("llvm-ar"), "x", r], cwd=x)
            for o in sorted(glob.glob(x + "/*.o")):
                b = o + ".bc"
                # objects compiled from C carry no bitcode
                subprocess.run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + b, o, "/dev/null"],
                               stderr=subprocess.DEVNULL)
                if os.path.exists(b) and os.path.getsize(b):
                    bcs.append(b)
    run([tool("llvm-link"), "-o", out + ".tmp"] + bcs)
    os.rename(out + ".tmp", out)
    shutil.rmtree(d)
    return out


def lockfile(d):
    src = "/opt/vp/Cargo.lock"
    if not os.path.exists(src):
        src = REPO + "/Cargo.lock"
    shutil.copyfile(src, d + "/Cargo.lock")


def forget(target):
    """Cargo judges freshness by mtime; what is under test is always rebuilt."""
    for p in glob.glob(target + "/*/.fingerprint/http-ntlm-*") + glob.glob(target + "/*/.fingerprint/harness-*") \
            + glob.glob(target + "/*/.fingerprint/replay-*"):
        shutil.rmtree(p, ignore_errors=True)


def cargo(d, target, rustflags, release, strict):
    lockfile(d)
    forget(target)
    cmd = ["cargo", "build", "--offline", "--message-format=json"]
    if release:
        cmd.append("--release")
    if strict:
        cmd += ["--features", "strict"]
    p = subprocess.run(cmd, cwd=d, env=env(CARGO_TARGET_DIR=target, RUSTFLAGS=rustflags),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        msgs = []
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    msgs.append(m["message"]["rendered"])
            except ValueError:
                pass
        raise BuildError("cargo build in %s failed:\n%s\n%s" % (d, "".join(msgs)[-4000:], p.stderr[-2000:]))
    files = []
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            files.append((m["target"]["kind"], m["target"]["name"], m["filenames"], m.get("executable")))
    return files


def ir(release=False, strict=False):
    """The linked IR of every harness with the code it reaches. Returns the .ll path."""
    name = "sym" + ("-rel" if release else "") + ("-strict" if strict else "")
    t = W + "/" + name
    files = cargo(V + "/harness/sym", t,
                  "--emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=no --cfg http_ntlm_verif",
                  release, strict)
    bcs, hs = [], None
    for kind, nm, fs, _ in files:
        if "custom-build" in kind or "proc-macro" in kind:
            continue
        for f in fs:
            if f.endswith((".rlib", ".a")):
                b = os.path.basename(f)
                b = b[3:].rsplit(".", 1)[0]
                d = os.path.dirname(f)
                if nm == "harness":
                    c = sorted(glob.glob(os.path.join(os.path.dirname(f), "deps", "harness*.bc")), key=os.path.getmtime)[-1:]
                    hs = c[0] if c else None
                else:
                    c = [x for x in (d + "/" + b + ".bc", d + "/deps/" + b + ".bc") if os.path.exists(x)]
                if not c:
                    raise BuildError("no bitcode for " + f)
                bcs.append(c[0])
    if hs is None:
        raise BuildError("no harness bitcode")
    nm = run([tool("llvm-nm"), "--defined-only", "--format=posix", hs])
    names = [l.split()[0] for l in nm.splitlines() if re.match(r"h[a-z]*_\w+ T", l)]
    api = W + "/" + name + ".api"
    open(api, "w").write("\n".join(names) + "\n")
    a, b, ll = (W + "/" + name + x for x in (".l.bc", ".o.bc", ".ll"))
    run([tool("llvm-link"), "-o", a] + bcs + [std_bc()])
    run([tool("opt"), "-passes=internalize,globaldce", "--internalize-public-api-file=" + api, "--strip-debug", a, "-o", b])
    run([tool("llvm-dis"), b, "-o", ll])
    os.remove(a)
    os.remove(b)
    return ll


def native(release=False, strict=False):
    name = "native" + ("-rel" if release else "") + ("-strict" if strict else "")
    for kind, nm, fs, exe in cargo(V + "/harness/native", W + "/" + name, "--cfg http_ntlm_verif", release, strict):
        if nm == "replay" and exe:
            return exe
    raise BuildError("no replay binary")


def cross_check(queries, seed, tier):
    """Queries the engine's solver called unsatisfiable, put to two other solvers."""
    import random
    qs = sorted(set(queries))
    random.Random(seed).shuffle(qs)
    qs = qs[:12 if tier == "quick" else 60]
    r = dict(queries=len(qs), agreed=0, disagreed=0, unknown=0, solvers=["cvc5", "z3-new"])
    jobs = []
    for i, q in enumerate(qs):
        f = "%s/q-%d-%d.smt2" % (W, os.getpid(), i)
        open(f, "w").write(q)
        for cmd in (["cvc5", "--tlimit=15000", f], ["z3-new", "-T:15", f]):
            jobs.append((f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        if len(jobs) >= 8 or i + 1 == len(qs):
            for _, p in jobs:
                o = p.communicate()[0].strip().splitlines()
                v = o[0] if o else ""
                r["agreed" if v == "unsat" else "disagreed" if v == "sat" else "unknown"] += 1
            for f in {f for f, _ in jobs}:
                os.remove(f)
            jobs = []
    return r


class Lock:
    def __enter__(self):
        os.makedirs(W, exist_ok=True)
        self.f = open(W + "/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


if __name__ == "__main__":
    t = time.time()
    with Lock():
        for a in sys.argv[1:] or ["engine", "ir", "native"]:
            f, *o = a.split("-")
            r = globals()[f](**{k: True for k in o})
            print(a, r, "%.1f s" % (time.time() - t))
