#!/usr/bin/env python3
"""probe.py DIFF... : for each patch, applies it to a scratch copy of /repo, extracts facts and
runs every check; prints which properties fire. -p P01,P02 restricts, -v prints details."""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
S = "/tmp/probe"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    a = sys.argv[1:]
    verbose = "-v" in a
    if verbose:
        a.remove("-v")
    props = ["--all"]
    if "-p" in a:
        i = a.index("-p")
        props = a[i + 1].split(",")
        del a[i:i + 2]
    import concurrent.futures as cf, threading
    tl = threading.local()
    cnt = iter(range(100))
    lk = threading.Lock()
    def one(d):
        if not hasattr(tl, "s"):
            with lk:
                tl.s = S + "/w%d" % next(cnt)
        W = tl.s
        os.makedirs(W, exist_ok=True)
        d = os.path.abspath(d)
        nm = "/".join(d.split("/")[-2:])
        shutil.rmtree(W + "/repo", ignore_errors=True)
        os.makedirs(W + "/repo")
        sh("git ls-files -z | xargs -0 cp --parents -t %s/repo" % W, cwd="/repo")
        r = sh("patch -p1 --no-backup-if-mismatch < %s" % d, cwd=W + "/repo")
        if r.returncode:
            return "%-50s PATCH FAILED %s" % (nm, r.stdout[-300:])
        e = "AVDL_BUILD=%s/build AVDL_REPO=%s/repo" % (W, W)
        r = sh("%s python3 %s/analysis/extract.py %s/repo %s/facts" % (e, V, W, W))
        if r.returncode:
            return "%-50s EXTRACT FAILED\n%s" % (nm, r.stdout[-1500:])
        out = ""
        for p in props:
            out += sh("%s AVDL_EVIDENCE=%s/ev python3 %s/analysis/run_check.py %s --facts %s/facts" % (e, W, V, p, W)).stdout
        fired = re.findall(r"VIOLATION property=(\w+)", out)
        if "Traceback" in out:
            fired.append("TRACEBACK")
        s = "%-50s %s" % (nm, " ".join(fired) or "quiet")
        if verbose:
            s += "\n" + "\n".join(l for l in out.splitlines() if not l.startswith("ok "))
        return s
    with cf.ThreadPoolExecutor(7) as ex:
        for s in ex.map(one, a):
            print(s, flush=True)


main()
