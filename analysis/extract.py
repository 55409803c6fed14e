"""Build the fact extractor if needed and run it over /repo's working tree."""
import fcntl, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AVDL_REPO", "/repo")
BUILD = os.environ.get("AVDL_BUILD") or os.path.join(VERIF, ".build")


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def env_base():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def driver():
    e = env_base()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, out = sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"), env=e)
    if rc != 0:
        raise RuntimeError("building the fact extractor failed:\n" + out[-4000:])
    return os.path.join(BUILD, "driver", "debug", "avdl-facts")


def extract(repo=None, outdir=None):
    """Returns (lib.json, bin.json). Raises RuntimeError if /repo does not compile."""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], env=env_base())
        target = os.path.join(BUILD, "target")
        # make sure the crate itself is compiled (by the extractor) on every run
        for base, dirs, files in os.walk(target):
            for d in list(dirs):
                if d == "avdl" or d.startswith("avdl-") or d.startswith("libavdl"):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
                    dirs.remove(d)
            if base.count("/") - target.count("/") >= 3:
                dirs[:] = []
        facts = outdir or os.path.join(BUILD, "facts")
        shutil.rmtree(facts, ignore_errors=True)
        os.makedirs(facts)
        e = env_base()
        e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0",
                 AVDL_FACTS_DIR=facts, RUSTC_WORKSPACE_WRAPPER=drv,
                 LD_LIBRARY_PATH=sysroot.strip() + "/lib")
        rc, out = sh(["cargo", "check", "--offline", "--quiet"], cwd=repo, env=e)
        lib, bn = os.path.join(facts, "avdl-lib.json"), os.path.join(facts, "avdl-bin.json")
        if rc != 0 or not (os.path.exists(lib) and os.path.exists(bn)):
            raise RuntimeError("extracting facts from %s failed (does it build?):\n%s" % (repo, out[-4000:]))
        return lib, bn


if __name__ == "__main__":
    print(extract(*(sys.argv[1:])))
