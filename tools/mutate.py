#!/usr/bin/env python3
"""mutate.py gen OUT.jsonl            : small changes of /repo's hand-written code
mutate.py test IN.jsonl OUT.jsonl  : keep those that build and pass the stable tests (scratch copies under /tmp/mutw)
mutate.py check IN.jsonl OUT.jsonl : which properties' checks report each of those
Development aid: shows what the checks miss. No check uses it."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
REPO = os.environ.get("MUT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["main", "compiler", "doc_comments", "error", "import", "reader", "resolve", "suggest", "model/json", "model/schema"]


def mask(s):
    """comments and strings blanked (same length)"""
    out = list(s)
    i, n = 0, len(s)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j); i = j
        elif s.startswith("/*", i):
            j = s.find("*/", i) + 2
            blank(i, j); i = j
        elif s[i] == '"' or re.match(r'r#*"', s[i:i + 4]) and not (s[i - 1].isalnum() or s[i - 1] == "_"):
            if s[i] == '"':
                j = i + 1
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                j += 1
            else:
                h = re.match(r'r(#*)"', s[i:]).group(1)
                j = s.find('"' + h, i + 2 + len(h)) + 1 + len(h)
            blank(i + 1, j - 1)
            out[i] = '"'; out[j - 1] = '"'
            i = j
        elif s[i] == "'" and re.match(r"'(\\.[^']*|[^\\'])'", s[i:i + 12]):
            j = i + len(re.match(r"'(\\.[^']*|[^\\'])'", s[i:i + 12]).group(0))
            blank(i + 1, j - 1)
            i = j
        else:
            i += 1
    return "".join(out)


OPEN, CLOSE = "([{", ")]}"


def bal(m, i):
    """index after the bracket matching the one at i"""
    d = 0
    while True:
        if m[i] in OPEN:
            d += 1
        elif m[i] in CLOSE:
            d -= 1
            if d == 0:
                return i + 1
        i += 1


def upto(m, i, stop):
    """first index >= i at depth 0 where stop matches"""
    while i < len(m):
        if any(m.startswith(x, i) for x in stop):
            return i
        if m[i] in OPEN:
            i = bal(m, i)
            continue
        if m[i] in CLOSE:
            return i
        i += 1
    return i


def split0(m, a, b, op):
    out, st, i = [], a, a
    while i < b:
        if m[i] in OPEN:
            i = bal(m, i); continue
        if m.startswith(op, i):
            out.append((st, i)); i += len(op); st = i; continue
        i += 1
    out.append((st, b))
    return out


def gen_file(f):
    s = open("%s/src/%s.rs" % (REPO, f)).read()
    m = mask(s)
    k = m.find("#[cfg(test)]\nmod tests")
    if k < 0:
        k = len(s)
    skip = []
    for x in re.finditer(r"#\[cfg\(test\)\]", m[:k]):
        j = upto(m, x.end(), ["{", ";"])
        skip.append((x.start(), bal(m, j) if m[j] == "{" else j))
    for x in re.finditer(r"\b(miette!|bail!|format!|eprintln!|debug_assert\w*!|panic!|unreachable!|assert!|println!|use )", m[:k]):
        j = upto(m, x.end(), ["(", "{", ";"])
        skip.append((x.start(), bal(m, j) if m[j] in OPEN else j))
    for x in re.finditer(r"#!?\[", m[:k]):
        skip.append((x.start(), bal(m, x.end() - 1)))
    out = []
    def put(a, b, new, op):
        if b > k or s[a:b] == new or op not in ("stmt",) and any(x <= a < y for x, y in skip):
            return
        out.append({"file": "src/%s.rs" % f, "a": a, "b": b, "new": new, "op": op, "line": s.count("\n", 0, a) + 1, "old": s[a:b]})
    for x in re.finditer(r"\bif\b(?!\s+let)|\bif(?=\s+let)|\bwhile\b(?!\s+let)", m[:k]):
        a = x.end()
        guard = False
        b = upto(m, a, ["{", "=>"])
        guard = m.startswith("=>", b)
        # `if` in a match guard stops at =>
        parts = split0(m, a, b, "&&")
        if len(parts) > 1:
            for i, (p, q) in enumerate(parts):
                if re.match(r"\s*let\b", m[p:q]):
                    continue
                if i == 0:
                    put(p, parts[1][0], " ", "drop-and")
                else:
                    put(p - 2, q, " ", "drop-and")
        ors = split0(m, a, b, "||")
        if len(ors) > 1:
            for i, (p, q) in enumerate(ors):
                if i == 0:
                    put(p, ors[1][0], " ", "drop-or")
                else:
                    put(p - 2, q, " ", "drop-or")
        if not re.search(r"\blet\b", m[a:b]) and x.group(0) == "if":
            put(a, b, " true ", "cond-true")
            put(a, b, " false ", "cond-false")
    for x in re.finditer(r"(?<=[^=<>!+\-*/&|])(==|!=|<=|>=|(?<= )<(?= )|(?<= )>(?= ))(?=[^=])", m[:k]):
        o = x.group(0)
        for n in {"==": ["!="], "!=": ["=="], "<=": ["<"], ">=": [">"], "<": ["<="], ">": [">="]}[o]:
            put(x.start(), x.end(), n, "cmp")
    for x in re.finditer(r"&&|(?<=\s)\|\|(?=\s)", m[:k]):
        put(x.start(), x.end(), "||" if x.group(0) == "&&" else "&&", "andor")
    for x in re.finditer(r"(?<=[\s(])!(?=[\w(])", m[:k]):
        put(x.start(), x.end(), "", "not")
    for x in re.finditer(r"\b(true|false)\b", m[:k]):
        put(x.start(), x.end(), "false" if x.group(0) == "true" else "true", "bool")
    for x in re.finditer(r"(?<![\w.])\d+(?:_?[ui]\d+|usize)?(?![\w.])", m[:k]):
        t = re.match(r"\d+", x.group(0)).group(0)
        if not re.match(r"\s*\.\.", m[x.end():x.end() + 3]) or True:
            put(x.start(), x.end(), x.group(0).replace(t, str(int(t) + 1), 1), "int")
    for x in re.finditer(r"\b(continue|break);", m[:k]):
        put(x.start(), x.end(), ("break;" if x.group(1) == "continue" else "continue;"), "jump")
    # method calls removed
    for x in re.finditer(r"\s*\.\s*(\w+)(?:::<[^()]*>)?\(", m[:k]):
        e = bal(m, x.end() - 1)
        if x.group(1) in ("clone", "to_string", "to_owned", "as_str", "as_ref", "iter", "into_iter", "collect", "borrow", "borrow_mut", "unwrap", "expect", "with_context", "cloned", "copied", "as_deref", "display", "to_path_buf", "into", "with_label", "with_help", "context"):
            continue
        put(x.start(), e, "", "call")
    # statements removed
    for x in re.finditer(r"(?<=[;{}])\s*\n(\s*)(?=[\w*(&])", m[:k]):
        a = x.end()
        if re.match(r"(let|fn|pub|use|struct|enum|impl|mod|for|while|if|match|loop|const|static|unsafe|type|trait|else|break|continue)\b", m[a:a + 10]):
            continue
        e = upto(m, a, [";", ","])
        if e < len(m) and m[e] == ";":
            put(a, e + 1, "", "stmt")
    # loops over part
    for x in re.finditer(r"\bfor\s", m[:k]):
        i = upto(m, x.end(), [" in "])
        if not m.startswith(" in ", i):
            continue
        b = upto(m, i + 4, ["{"])
        e = s[i + 4:b].strip()
        if any(c in m[x.start():b] for c in ";<") and "fn" in m[x.start():b]:
            continue
        put(i + 4, b, "(%s).into_iter().take(1) " % e, "take1")
        put(i + 4, b, "(%s).into_iter().skip(1) " % e, "skip1")
    # fields of struct literals and arguments
    for x in re.finditer(r"\n\s*(\w+): ", m[:k]):
        b = upto(m, x.end(), [",", "\n"])
        b = upto(m, x.end(), [",", "}"])
        if b < k and m[b] == "," and not re.match(r"\s*(&|Option<|Vec<|HashMap<|String|bool|u\d|usize|Box<|pub|impl|dyn)", m[x.end():x.end() + 8]) :
            put(x.end(), b, "Default::default()", "field-default")
    for x in re.finditer(r"\n\s*(\w+),(?=\n)", m[:k]):
        put(x.start(1), x.end(1), x.group(1) + ": Default::default()", "field-default")
    # alternatives of patterns
    for x in re.finditer(r"\n(\s*)((?:[A-Z\"][^\n;{}=]*\|[^;={}]*?))\s*(=>|if )", m[:k]):
        a, b = x.start(2), x.end(2)
        ps = split0(m, a, b, "|")
        if len(ps) > 1:
            for i, (p, q) in enumerate(ps):
                if i == 0:
                    put(p, ps[1][0], "", "drop-alt")
                else:
                    put(p - 1, q, " ", "drop-alt")
    # short string literals
    for x in re.finditer(r'"([^"\n]{1,20})"', s[:k]):
        if m[x.start()] == '"' and m[x.end() - 1] == '"' and not m[x.start() + 1:x.end() - 1].strip() and re.fullmatch(r"[\w.\-<>\[\]]+", x.group(1)):
            put(x.start(1), x.end(1), x.group(1) + "q", "string")
    # Some(..) as a value
    for x in re.finditer(r"(?<=[:=] )Some\(|(?<=[(,] )Some\(|(?<=\()Some\(", m[:k]):
        e = bal(m, x.end() - 1)
        if not re.match(r"\s*(=>|=[^=]|\|)", m[e:e + 4]):
            put(x.start(), e, "None", "some-none")
    return out


def gen(o):
    n = 0
    with open(o, "w") as h:
        for f in FILES:
            l = gen_file(f)
            seen = set()
            for d in l:
                key = (d["a"], d["b"], d["new"])
                if key in seen:
                    continue
                seen.add(key)
                d["id"] = n
                n += 1
                h.write(json.dumps(d) + "\n")
            print(f, len(l))
    print(n)


ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", INSTA_UPDATE="no", NO_COLOR="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_BUILD_JOBS="2", RUSTFLAGS="-Awarnings")


def apply(d, root):
    src = open("%s/%s" % (REPO, d["file"])).read()
    assert src[d["a"]:d["b"]] == d["old"]
    open("%s/%s" % (root, d["file"]), "w").write(src[:d["a"]] + d["new"] + src[d["b"]:])


def undo(d, root):
    shutil.copyfile("%s/%s" % (REPO, d["file"]), "%s/%s" % (root, d["file"]))


def sh(c, cwd, t=300, env=ENV):
    try:
        return subprocess.run(["bash", "-c", "ulimit -v 8000000; timeout -k 5 %d bash -c '%s'" % (t, c)], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    except Exception as e:
        raise


def test(i, o, workers):
    muts = [json.loads(x) for x in open(i)]
    done = {json.loads(x)["id"] for x in open(o)} if os.path.exists(o) else set()
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base if isinstance(base, list) else next(v for v in base.values() if isinstance(v, list) and len(v) > 100)
    q = Queue()
    for w in range(workers):
        d = "/tmp/mutw/%d" % w
        if not os.path.exists(d):
            os.makedirs("/tmp/mutw", exist_ok=True)
            subprocess.run(["cp", "-a", REPO, d])
        q.put(d)
    h = open(o, "a")
    def one(d):
        root = q.get()
        try:
            apply(d, root)
            r = sh("cargo test --lib --no-run --offline 2>&1", root)
            if r.returncode != 0:
                res = "nobuild"
            else:
                r = sh("cargo test --lib --offline -- --test-threads 4 > target/vp1.log 2>&1; python3 /opt/vp/results.py target/o1.json cargo:target/vp1.log", root, 60)
                try:
                    p = set(json.load(open(root + "/target/o1.json"))["passed"])
                except Exception:
                    p = set()
                lib = [t for t in stable if t in LIB]
                bad = [t for t in lib if t not in p]
                if bad:
                    res = "killed"
                else:
                    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 4 > target/vp.log 2>&1; python3 /opt/vp/results.py target/o.json cargo:target/vp.log", root, 120)
                    try:
                        p = set(json.load(open(root + "/target/o.json"))["passed"])
                    except Exception:
                        p = set()
                    bad = [t for t in stable if t not in p]
                    res = "killed" if bad else "survived"
        finally:
            undo(d, root)
            for x in ("target/o.json", "target/o1.json"):
                try:
                    os.unlink(root + "/" + x)
                except OSError:
                    pass
            q.put(root)
        d["res"] = res
        h.write(json.dumps(d) + "\n")
        h.flush()
    root = q.get()
    sh("cargo test --lib --offline -- --test-threads 4 > target/vp1.log 2>&1; python3 /opt/vp/results.py target/o1.json cargo:target/vp1.log", root, 300)
    LIB = set(json.load(open(root + "/target/o1.json"))["passed"])
    print("lib tests", len(LIB), "of", len(stable))
    q.put(root)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, [d for d in muts if d["id"] not in done]))


def check(i, o, workers):
    muts = [json.loads(x) for x in open(i)]
    muts = [d for d in muts if d.get("res", "survived") == "survived"]
    done = {json.loads(x)["id"] for x in open(o)} if os.path.exists(o) else set()
    q = Queue()
    for w in range(workers):
        d = "/tmp/mutc/%d" % w
        shutil.rmtree(d + "/repo", ignore_errors=True)
        os.makedirs(d + "/repo")
        subprocess.run("git ls-files -z | xargs -0 cp --parents -t %s/repo" % d, shell=True, cwd=REPO)
        q.put(d)
    h = open(o, "a")
    def one(d):
        W = q.get()
        try:
            apply(d, W + "/repo")
            e = dict(os.environ, AVDL_BUILD=W + "/build", AVDL_REPO=W + "/repo", AVDL_EVIDENCE=W + "/ev", AVDL_FIRST="1")
            r = subprocess.run([sys.executable, HERE + "/analysis/extract.py", W + "/repo", W + "/facts"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
            if r.returncode:
                d["fired"], d["out"] = "EXTRACT", r.stdout[-500:]
            else:
                try:
                    r = subprocess.run([sys.executable, HERE + "/analysis/run_check.py", "--all", "--facts", W + "/facts"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, timeout=900)
                    out = r.stdout
                except subprocess.TimeoutExpired:
                    out = "TIMEOUT"
                f = re.findall(r"VIOLATION property=(\w+)", out)
                d["fired"] = " ".join(f) or ("TRACEBACK" if "Traceback" in out or out == "TIMEOUT" else "")
                d["out"] = "\n".join(l for l in out.splitlines() if not l.startswith("ok "))[:700] if d["fired"] else ""
        finally:
            undo(d, W + "/repo")
            q.put(W)
        h.write(json.dumps(d) + "\n")
        h.flush()
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, [d for d in muts if d["id"] not in done]))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    elif sys.argv[1] == "test":
        test(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 7)
    elif sys.argv[1] == "check":
        check(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 7)
