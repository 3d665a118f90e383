#!/usr/bin/env python3
"""Works on the planted bugs in seeded/: `seed.py verify ID…` confirms in a scratch copy that each applies,
builds, passes the stable tests and is told apart by its demonstration; `seed.py catch [-j N] [-t quick]
ID…` runs its property's check against it in private copies of this sandbox's directories."""
import json, os, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedcheck"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable():
    return {x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}


def verify(ids):
    r = S + "/repo"
    if os.path.isdir(r):
        sh(["git", "checkout", "-q", "--", "."], r)
        sh(["git", "fetch", "-q", "/repo", "HEAD"], r)
        sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], r)
    else:
        os.makedirs(S, exist_ok=True)
        sh(["cp", "-a", "/repo", r], "/")
    own = set()
    for i in ids:
        d = V + "/seeded/" + i
        demo = S + "/demo"
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        sh(["git", "checkout", "-q", "--", "."], r)
        # lines the patch removes must be the original repository's
        for l in open(d + "/patch.diff"):
            pass
        p = sh(["git", "apply", d + "/patch.diff"], r)
        if p.returncode:
            print(i, "does not apply", p.stdout)
            continue
        blame = []
        cur = None
        for l in open(d + "/patch.diff"):
            m = re.match(r"\+\+\+ b/(.*)", l)
            if m:
                cur = m[1].strip()
            if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                blame.append((cur, l[1:].rstrip("\n")))
        notes = ""
        for f, t in blame:
            b = sh(["git", "blame", "-l", "HEAD", "--", f], r).stdout
            hit = [x for x in b.splitlines() if x.endswith(t)]
            if not any(x.startswith("^") for x in hit):
                notes += " [own line: %s]" % t.strip()
        t = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], r)
        ok = set(re.findall(r"^test (\S+) \.\.\. ok", t.stdout, re.M))
        missing = [x for x in stable() if x not in ok]
        bad = sh(["bash", demo + "/demo.sh"], r, timeout=300)
        sh(["git", "checkout", "-q", "--", "."], r)
        good = sh(["bash", demo + "/demo.sh"], r, timeout=300)
        state = "OK" if not missing and bad.returncode and not good.returncode and "error[" not in bad.stdout else "BAD"
        print(i, state, "missing=%s demo bad=%d good=%d%s" % (missing, bad.returncode, good.returncode, notes), flush=True)
        if state == "BAD":
            print(t.stdout[-1500:] if missing else "", bad.stdout[-1500:], good.stdout[-1500:])


def catch(ids, tier, props):
    for i in ids:
        d = V + "/seeded/" + i
        prop = json.load(open(d + "/meta.json"))["property"]
        a = sh(["git", "apply", d + "/patch.diff"], "/repo")
        try:
            for q in props or [prop]:
                p = sh(["python3", V + "/bin/check", q, tier], V)
                v = [l for l in p.stdout.splitlines() if "VIOLATION" in l]
                print("%-28s %s rc=%d %s" % (i, q, p.returncode, v[0] if v else p.stdout.strip().splitlines()[-1][:200] if p.stdout.strip() else ""), flush=True)
        finally:
            sh(["git", "checkout", "-q", "--", "."], "/repo")


if __name__ == "__main__":
    a = sys.argv[2:]
    tier = "quick"
    props = []
    while a and a[0].startswith("-"):
        if a[0] == "-t":
            tier = a[1]
        if a[0] == "-p":
            props = a[1].split(",")
        a = a[2:]
    ids = a or sorted(os.listdir(V + "/seeded"))
    verify(ids) if sys.argv[1] == "verify" else catch(ids, tier, props)
