#!/usr/bin/env python3
"""mk.py EDITS.py : EDITS.py defines E = {name: [(file, old, new), ...]}. Each set of edits is applied to a scratch
copy of /repo, type-checked, and stored as OUT/<name>.diff (OUT = second argument)."""
import os, subprocess, sys
S = "/tmp/mkwt"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    out = os.path.abspath(sys.argv[2])
    only = sys.argv[3:]
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if not os.path.exists(S + "/.git"):
        sh("rm -rf %s; cp -a /repo %s" % (S, S))
    for name, edits in ns["E"].items():
        if only and name not in only:
            continue
        sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=S)
        ok = True
        for f, a, b in edits:
            p = os.path.join(S, f)
            s = open(p).read()
            if s.count(a) != 1:
                print("%s: %d matches in %s for:\n%s" % (name, s.count(a), f, a[:300]))
                ok = False
                break
            open(p, "w").write(s.replace(a, b))
        if not ok:
            continue
        r = sh("cargo check --offline --quiet 2>&1 | grep -A12 '^error' | head -60", cwd=S)
        if r.stdout.strip():
            print("%s: does not compile\n%s" % (name, r.stdout))
            continue
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, name + ".diff"), "w").write(sh("git diff", cwd=S).stdout)
        print(name, "ok")
    sh("git checkout -q -f .", cwd=S)


main()
