#!/usr/bin/env python3
"""seed.py SEEDS.py [id...] : SEEDS.py defines S = {id: dict(property, edits=[(file,old,new)], demo, needs, breaks)}.
Each planted bug is applied to a scratch copy of /repo, built, run through the stable tests, and its demonstration is run
with and without it; it is stored under seeded/<id>/ only when all of that comes out as it should."""
import json, os, subprocess, sys
W = "/tmp/seedwt"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", INSTA_UPDATE="no", NO_COLOR="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


def sh(c, **k):
    k.setdefault("env", ENV)
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def main():
    only = sys.argv[2:]
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if not os.path.exists(W + "/.git"):
        sh("cp -a /repo %s" % W)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base if isinstance(base, list) else next(v for v in base.values() if isinstance(v, list) and len(v) > 100)
    for id, d in ns["S"].items():
        if only and id not in only:
            continue
        sh("git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=W)
        ok = True
        for f, a, b in d["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(a) != 1:
                print("%s: %d matches in %s for:\n%s" % (id, s.count(a), f, a[:300]))
                ok = False
                break
            open(p, "w").write(s.replace(a, b))
        if not ok:
            continue
        r = sh("cargo test --workspace --no-run --offline 2>&1 | grep -A12 '^error' | head -60", cwd=W)
        if r.stdout.strip():
            print("%s: does not build\n%s" % (id, r.stdout))
            continue
        sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp.log 2>&1", cwd=W)
        sh("python3 /opt/vp/results.py /tmp/seed.out.json cargo:%s/target/vp.log" % W, cwd=W)
        out = json.load(open("/tmp/seed.out.json"))
        passed = set(out.get("passed", []))
        bad = [t for t in stable if t not in passed]
        if bad:
            print("%s: %d stable tests fail: %s" % (id, len(bad), bad[:5]))
            continue
        dd = "/tmp/seeddemo"
        sh("rm -rf /tmp/seeddemo; mkdir -p /tmp/seeddemo")
        open(dd + "/demo.sh", "w").write(d["demo"])
        os.chmod(dd + "/demo.sh", 0o755)
        r1 = sh("timeout 250 bash %s/demo.sh" % dd, cwd=W)
        r0 = sh("timeout 250 bash %s/demo.sh" % dd, cwd="/repo")
        if r0.returncode != 0 or r1.returncode == 0:
            print("%s: demo clean=%d patched=%d\n-- clean\n%s\n-- patched\n%s" % (id, r0.returncode, r1.returncode, r0.stdout[-1500:], r1.stdout[-1500:]))
            continue
        o = os.path.join(HERE, "seeded", id)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
        open(o + "/demo.sh", "w").write(d["demo"])
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print(id, "stored")
    sh("git checkout -q -f .", cwd=W)


main()
