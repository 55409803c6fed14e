"""The command line and what it writes."""
from rules import rule
from base import *
from base import _next_edges
from rules.diag import succs
from rules.driver import names_checked, valid_name
from rules.errors import _called

N = "next(from_env())"
VAL = "string(%s.Value.0)" % N
POS = "[%s]" % VAL
DIR = "string(value(from_env()))"
DIRS = "[%s]" % DIR
NL = "�\x01\n\x00"
AVSC = "�\x05.avsc\x00"
PARTS = {"run_idl", "run_idl2schemata", "write_output", "parse_idl_args", "parse_idl2schemata_args"}
COMPILE = {"idl": ("Idl::convert", "Idl::convert_str", "Idl::convert_str_named"), "idl2schemata": ("Idl2Schemata::extract", "Idl2Schemata::extract_str", "Idl2Schemata::extract_str_named")}
IN = {"first(%s)" % POS, "%s[0]" % POS, "next(%s)" % POS, VAL + "[0]"}
OUT = {"%s[1]" % POS}


class Main:
    """the whole command line as one graph"""

    def __init__(self, ctx):
        self.fa = fa = ctx.fa("main", inline=PARTS)
        g = fa.g
        self.nexts = [b for b in fa.calls("next") if fa.argc(b)[:1] == ["from_env()"]]
        self.exits = {k: {b for b in fa.calls("exit") if fa.argc(b) == [k]} for k in ("0", "1", "2")}
        self.comp = {k: set(fa.calls(*v)) for k, v in COMPILE.items()}
        # the first argument is asked for once, the rest in loops
        self.first = [b for b in self.nexts if not any(run(fa, s, (), None, {b}) for s in succs(fa, b))]
        self.loops = [b for b in self.nexts if b not in self.first]
        self.subs = [b for b in fa.calls("string") if fa.argc(b) == [N + ".Value.0"] and not any(run(fa, s, (), None, {b}) for s in succs(fa, b))]
        self.of = {}
        for k in COMPILE:
            asm = A({}, {VAL: k})
            self.of[k] = [b for b in self.loops if any(run(fa, s, self.loops_but(b), None, {b}, asm) for x in self.subs for s in succs(fa, x))]
        self.known = {"in": IN, "out": OUT}

    def loops_but(self, b):
        return {x for x in self.loops if x != b}


def main(ctx):
    if not hasattr(ctx, "_cli"):
        ctx._cli = Main(ctx)
    return ctx._cli


def stderr(fa, what=None):
    out = set()
    for b in fa.calls("_eprint", "write_fmt", "write_all", "write"):
        a = fa.argc(b)
        if last(fa.g.B[b]["t"]["f"]) == "_eprint" or a and a[0].startswith(("stderr(", "lock(stderr(")):
            if what is None or any(what in x for x in a):
                out.add(b)
    return out


def stdout(fa):
    out = set()
    for b in fa.calls("_print", "write_fmt", "write_all", "write"):
        a = fa.argc(b)
        if last(fa.g.B[b]["t"]["f"]) == "_print" or a and a[0].startswith(("stdout(", "lock(stdout(")):
            out.add(b)
    return out


def refused(fa):
    """The function ends with an error."""
    fl = fa.flow(())
    return lambda y, e: fl.is_return(y) and not fl.ok_exit(y, e)


# -- P27 -------------------------------------------------------------------------------------
@rule("P27")
def structure(ctx, rep):
    m = main(ctx)
    rep.add("main/first", len(m.first) == 1 and len(m.subs) >= 1, "the subcommand is the first argument", m.fa.dn, "%s %s" % (m.first, m.subs))
    for k in COMPILE:
        rep.add("main/%s" % k, len(m.of[k]) == 1 and bool(m.comp[k]), "the %s subcommand reads its arguments and compiles" % k, m.fa.dn, "%s %s" % (m.of[k], m.comp[k]))


@rule("P27")
def subcommands(ctx, rep):
    m = main(ctx)
    fa = m.fa
    for x in m.subs:
        for s in succs(fa, x):
            for k in COMPILE:
                other = [o for o in COMPILE if o != k][0]
                asm = A({VAL: "Ok"}, {VAL: k})
                never(rep, "sub/%s/only" % k, "a subcommand does not do the other's work", fa, m.comp[other], assume=asm, start=s)
                must(rep, "sub/%s/does" % k, "a subcommand that succeeds has compiled its input", fa, m.comp[k], assume=asm, start=s)
                never(rep, "sub/%s/known" % k, "a known subcommand is not refused", fa, m.exits["2"], assume=asm, start=s)
            asm = A({VAL: "Ok"}, {VAL: "some-other"})
            never(rep, "sub/unknown", "an unknown subcommand does not succeed", fa, None, assume=asm, start=s)
            never(rep, "sub/unknown/work", "an unknown subcommand does nothing", fa, m.comp["idl"] | m.comp["idl2schemata"] | set(m.loops), assume=asm, start=s)
            must(rep, "sub/unknown/said", "an unknown subcommand is reported on standard error", fa, stderr(fa), assume=asm, start=s, target=m.exits["2"])
            never(rep, "sub/unknown/status", "the exit status tells a usage error", fa, m.exits["0"] | m.exits["1"], assume=asm, start=s)
    for b in m.first:
        for tag, d in (("none", {N: ["Ok", "None"]}), ("error", {N: "Err"})):
            for s in succs(fa, b):
                never(rep, "first/%s" % tag, "without a subcommand nothing succeeds", fa, None, assume=d, start=s)
                never(rep, "first/%s/zero" % tag, "without a subcommand the exit status is not 0", fa, m.exits["0"], assume=d, start=s)
                must(rep, "first/%s/said" % tag, "a missing subcommand is reported on standard error", fa, stderr(fa), assume=d, start=s, target=m.exits["2"])
        for s in succs(fa, b):
            known = options(("help", "version"), "hV")
            for nm, asm in (("long", {N: ["Ok", "Some", "Long"]}), ("short", {N: ["Ok", "Some", "Short"]})):
                never(rep, "first/option/%s" % nm, "an unknown option does not succeed", fa, None, assume=asm, start=s, excuse=known)
                never(rep, "first/option/%s/zero" % nm, "an unknown option is an error", fa, m.exits["0"] | m.comp["idl"] | m.comp["idl2schemata"], assume=asm, start=s, excuse=known)
                must(rep, "first/option/%s/said" % nm, "an unknown option is reported on standard error", fa, stderr(fa), assume=asm, start=s, target=m.exits["2"])
            for nm, asm in (("help", A({N: ["Ok", "Some", "Long"]}, {N + ".Long.0": "help"})), ("h", {N: ["Ok", "Some", "Short"], N + ".Short.0": 104}), ("version", A({N: ["Ok", "Some", "Long"]}, {N + ".Long.0": "version"})), ("V", {N: ["Ok", "Some", "Short"], N + ".Short.0": 86})):
                never(rep, "first/%s" % nm, "asking for help or the version is not an error", fa, m.exits["2"] | m.exits["1"] | m.comp["idl"] | m.comp["idl2schemata"], assume=asm, start=s)
                never(rep, "first/%s/refused" % nm, "asking for help or the version is not an error", fa, refused(fa), assume=asm, start=s)
                must(rep, "first/%s/said" % nm, "help and version go to standard output", fa, stdout(fa), assume=asm, start=s)


@rule("P27")
def arguments(ctx, rep):
    m = main(ctx)
    fa = m.fa
    fl = fa.flow(())
    work = m.comp["idl"] | m.comp["idl2schemata"]
    for k in COMPILE:
        for nb in m.of[k]:
            stop = lambda y, e: y == nb or y in work or fl.ok_exit(y, e)
            push = {b for b in fa.calls("push", "push_back", "extend_one") if fa.argc(b)[1:] == [VAL]}
            dirs = {b for b in fa.calls("push", "push_back", "import_dir") if fa.argc(b)[1:] == [DIR]}
            for s in succs(fa, nb):
                must(rep, "args/%s/value" % k, "every further argument counts", fa, push, assume={N: ["Ok", "Some", "Value"], VAL: "Ok"}, start=s, target=stop)
                asm = A({N: ["Ok", "Some", "Long"], "value(from_env())": "Ok", DIR: "Ok"}, {N + ".Long.0": "import-dir"})
                must(rep, "args/%s/import-dir" % k, "every import directory given counts", fa, dirs, assume=asm, start=s, target=stop)
                r = run(fa, s, (), None, lambda y, e: y == nb or y in work, asm)
                rep.add("args/%s/import-dir/accepted" % k, r is not None, "import directories are accepted", fa.where(nb))
                for nm, asm in (("long", {N: ["Ok", "Some", "Long"]}), ("short", {N: ["Ok", "Some", "Short"]}), ("error", {N: "Err"})):
                    never(rep, "args/%s/unknown/%s" % (k, nm), "an argument that is not understood is an error", fa, lambda y, e: y == nb or y in work or y in m.exits["0"] or fl.ok_exit(y, e), assume=asm, start=s, excuse=options(("help", "import-dir"), "h"))
                for nm, asm in (("help", A({N: ["Ok", "Some", "Long"]}, {N + ".Long.0": "help"})), ("h", {N: ["Ok", "Some", "Short"], N + ".Short.0": 104})):
                    must(rep, "args/%s/%s" % (k, nm), "help goes to standard output", fa, stdout(fa), assume=asm, start=s, target=lambda y, e: y in m.exits["0"] or fl.ok_exit(y, e))
                    never(rep, "args/%s/%s/only" % (k, nm), "asking for help does nothing else", fa, lambda y, e: y == nb or y in work or y in m.exits["2"] or y in m.exits["1"], assume=asm, start=s)
                    never(rep, "args/%s/%s/refused" % (k, nm), "asking for help is not an error", fa, refused(fa), assume=asm, start=s)
            # everything is passed on
            for x in m.subs:
                for s in succs(fa, x):
                    cb = {b for b in fa.calls("import_dir") if b in reach(fa, nb)}
                    foreach(rep, "args/%s/import-dir/passed" % k, "all import directories are passed on, in order", fa, DIRS, {b for b in cb if fa.argc(b)[1:] == [DIR]}, assume=A({VAL: "Ok"}, {VAL: k}), start=s, target=lambda y, e: y in m.comp[k])
    bad = [b for b in fa.calls("remove", "pop", "truncate", "clear", "swap_remove", "dedup", "sort", "reverse", "sort_unstable", "retain", "drain", "split_off", "swap", "insert", "sort_by", "sort_by_key") if fa.argc(b)[:1] in ([POS], [DIRS])]
    rep.add("args/kept", not bad, "arguments are neither dropped nor reordered", fa.where(bad[0]) if bad else fa.dn)
    # no other way to end well early
    for b in m.exits["0"]:
        r = run(fa, None, (), lambda at: any(v is True and s in ("eq('help',%s.Long.0)" % N, "eq('version',%s.Long.0)" % N) or s.startswith(N + ".Short.0") and v in (104, 86) or "Short.0" in s and v is True and ("104" in s or "'h'" in s) for s, v in at), {b})
        rep.add("exit/zero", r is None, "the command only ends early with success when help was asked for", fa.where(b), path_text(fa, r) if r else "")


def options(long, short):
    """the decision that an option is one of these"""
    L = {"eq('%s',%s.Long.0)" % (x, N) for x in long}
    def ok(at):
        for s, v in at:
            if v is True and s in L or s == N + ".Short.0" and v in [ord(c) for c in short]:
                return True
            if v is True and s in {"Eq(%s.Short.0,%s)" % (N, ord(c)) for c in short} | {"eq('%s',%s.Short.0)" % (c, N) for c in short} | {"eq(%s.Short.0,'%s')" % (N, c) for c in short}:
                return True
        return False
    return ok


def reach(fa, b):
    """blocks that can come after b"""
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = fa.g.B[x]["t"]
        y = t.get("t")
        st += [y] if isinstance(y, int) else list(y or [])
        if t["k"] == "switch":
            st += [z for _, z in t["br"]] + [t["o"]]
    return seen


def alts(fa, s):
    return set(fa._split(s)) if s.startswith("{") and fa._bal(s) else {s}


@rule("P27")
def inputs(ctx, rep):
    m = main(ctx)
    fa = m.fa
    named = [b for b in fa.calls("Idl::convert")]
    text = [b for b in fa.calls("Idl::convert_str", "Idl::convert_str_named")]
    rep.add("input/idl", bool(named) and bool(text), "the idl command reads a file or standard input", fa.dn)
    for b in named:
        rep.add("input/idl/file", alts(fa, fa.argc(b)[1]) - {"''"} and alts(fa, fa.argc(b)[1]) <= IN | {"''"}, "the file compiled is the first argument", fa.where(b), fa.argc(b)[1])
    for b in fa.calls("Idl2Schemata::extract"):
        rep.add("input/idl2schemata/file", fa.argc(b)[1] in IN, "the file or directory compiled is the first argument", fa.where(b), fa.argc(b)[1])
    stdin = {b for b in fa.calls("read_to_string", "read_to_end") if fa.argc(b)[0].startswith(("stdin(", "lock(stdin("))} | {b for b in fa.calls("read_to_string") if fa.argc(b) == ["stdin()"]}
    for x in m.subs:
        for s in succs(fa, x):
            for i in IN:
                if not any(i in str(fa.argc(b)) for b in named):
                    continue
                for nm, asm, want, no in (("file", A({VAL: "Ok", i: "Some"}, {VAL: "idl", i: "f.avdl"}), set(named), set(text) | stdin), ("dash", A({VAL: "Ok", i: "Some"}, {VAL: "idl", i: "-"}), set(text), set(named)), ("none", A({VAL: "Ok", i: "None"}, {VAL: "idl"}), set(text), set(named))):
                    must(rep, "input/idl/%s" % nm, "a named file is compiled; without a name, or with -, standard input is", fa, want, assume=asm, start=s)
                    never(rep, "input/idl/%s/only" % nm, "nothing else is compiled", fa, no, assume=asm, start=s)
                    if nm != "file":
                        must(rep, "input/idl/%s/read" % nm, "standard input is read", fa, stdin, assume=asm, start=s, target=lambda y, e: y in text)
            for i in IN:
                asm = A({VAL: "Ok", i: "None"}, {VAL: "idl2schemata"})
                if any(fa.argc(b)[1] == i for b in fa.calls("Idl2Schemata::extract")):
                    never(rep, "input/idl2schemata/required", "idl2schemata needs an input", fa, None, assume=asm, start=s)


# -- P28 -------------------------------------------------------------------------------------
def line_of(fa, t, b):
    """what the text consists of, when it is something and the end of a line"""
    s = fa._c(t)
    for h, e in (("fmt('%s'," % NL, ")"), ("add(", ",'\n')"), ("concat([", ",'\n'])"), ("join([", ",''],'\n')")):
        if s.startswith(h) and s.endswith(e):
            return s[len(h):-len(e)]
    x = t
    while x.k in ("ref", "cast") or x.k == "mut" and last(str(x.a[0])) in ("as_bytes", "deref", "as_str"):
        x = x.a[0] if x.k != "mut" else x.a[-1]
    if x.k == "call" and last(x.a[0]) in ("as_bytes", "into_bytes", "as_str", "deref", "as_ref", "into_boxed_str"):
        return line_of(fa, x.a[2], b)
    if x.k == "mut" and last(str(x.a[0])) in ("push", "push_str", "write_str", "extend_from_slice", "write_fmt", "add_assign"):
        args = fa.v.args(x.a[3])
        if len(args) > 1 and fa._c(args[1]) in ("'\n'", "10", "new('\n')", "from_str('\n')"):
            return fa._c(x.a[-1])
    return None


WRITES = ("write", "write_all", "write_fmt", "write_all_vectored")


def sinks(fa):
    """(block, destination, text term or None)"""
    out = []
    for b in fa.calls(*WRITES, "_print", "copy"):
        f = fa.g.B[b]["t"]["f"]
        a = fa.argc(b)
        l = last(f)
        if l == "_print":
            out.append((b, "stdout", None))
        elif f.startswith("std::fs::"):
            out.append((b, "file", b))
        elif a and a[0].startswith(("stdout(", "lock(stdout(", "new(stdout(", "new(lock(stdout(")):
            out.append((b, "stdout", None))
        elif a and ("create(" in a[0] or "open(" in a[0]):
            out.append((b, "file", None))
    return out


def dest(fa, b):
    a = fa.argc(b)[0]
    for h in ("create(", "new(create(", "create_new("):
        if a.startswith(h):
            a = a[len(h):-h.count("(")]
            break
    return a


EFFECTS = {
    "write": (r"^std::fs::(write|create_dir|create_dir_all|remove_\w+|rename|copy|hard_link|set_permissions|File::(create|create_new|set_\w+)|OpenOptions::|DirBuilder::)|^std::os::|symlink|tempfile"),
    "print": r"std::io::(_print|_eprint|stdout|stderr)$|std::io::stdio::(_print|_eprint|stdout|stderr)$|std::io::stdin$",
    "exit": r"std::process::",
    "env": r"std::env::(set|remove|var|vars)",
    "net": r"std::net::|std::thread::|std::os::unix::process",
}


@rule("P28")
def effects(ctx, rep):
    """the library only reads files; the command prints and writes"""
    n = 0
    for f in ctx.p.local_fns():
        if is_gen(f):
            continue
        bin_ = f["file"].endswith("main.rs")
        for b in f["bb"]:
            t = b["t"]
            if t["k"] != "call":
                continue
            for kind, pat in EFFECTS.items():
                if re.search(pat, t["f"]):
                    n += 1
                    where = "%s:%s (%s)" % (f["file"].replace("/repo/", ""), t["ln"], f["dn"].replace("avdl::", "", 1))
                    ok = bin_ and kind in ("write", "print", "exit")
                    rep.add("effect/%s" % kind, ok, "the library neither writes, prints, ends the process nor looks at the environment", where, t["f"])
                    if bin_ and kind == "write":
                        rep.add("effect/known", last(t["f"]) in ("write", "create_dir_all", "create", "create_dir"), "nothing is removed, renamed or linked", where, t["f"])
    rep.add("effect/floor", n >= 6, "effects are found (%d)" % n)


@rule("P28")
def written(ctx, rep):
    m = main(ctx)
    fa = m.fa
    after = {k: set().union(*[reach(fa, b) for b in m.of[k]]) if m.of[k] else set() for k in COMPILE}
    sk = sinks(fa)
    files = [(b, w) for b, w, _ in sk if w == "file"]
    for b, _ in files:
        rep.add("written/where", b in after["idl"] or b in after["idl2schemata"], "files are written by the subcommands", fa.where(b))
    comp = {k: {outcome(fa, b) for b in m.comp[k]} for k in COMPILE}
    made = [b for b in fa.v.calls() if re.search(EFFECTS["write"], fa.g.B[b]["t"]["f"])]
    for k in COMPILE:
        asm = {c: "Err" for c in comp[k]}
        ev = {b for b, _ in files if b in after[k]} | {b for b in made if b in after[k]} | ({b for b, w, _ in sk if w == "stdout"} & reach_from(fa, m.comp[k]))
        for x in m.subs:
            for s in succs(fa, x):
                for c in m.comp[k]:
                    for y in succs(fa, c):
                        never(rep, "written/%s/failed" % k, "nothing is written when the compilation fails", fa, ev, assume={outcome(fa, c): "Err"}, start=y)
                never(rep, "written/%s/before" % k, "nothing is written before the compilation is done", fa, {b for b in ev}, assume=A({VAL: "Ok"}, {VAL: k}), start=s, avoid=m.comp[k])
    # idl: one output
    out = [o for o in OUT]
    O = out[0]
    J = comp["idl"]
    def json(x):
        """the compiled JSON, printed"""
        if not (x.startswith("to_string_pretty(") and x.endswith(")")):
            return False
        x = x[len("to_string_pretty("):-1]
        if x.endswith("}.json"):
            return alts(fa, x[:-len(".json")]) <= J
        return {y for y in alts(fa, x)} <= {y + ".json" for y in J} if x.startswith("{") else x in {y + ".json" for y in J}
    idl = [b for b, _ in files if b in after["idl"]]
    so = [b for b, w, _ in sk if w == "stdout" and b in reach_from(fa, m.comp["idl"]) and b in after["idl"]]
    for b in idl:
        rep.add("written/idl/file", dest(fa, b) in OUT, "the file written is the second argument", fa.where(b), dest(fa, b)[:200])
        if fa.g.B[b]["t"]["f"].startswith("std::fs::"):
            x = line_of(fa, fa.v.args(b)[1], b)
            rep.add("written/idl/text", x is not None and json(x), "the file holds the compiled JSON and the end of the line", fa.where(b), str(x or fa.argc(b)[1])[:200])
        else:
            rep.add("written/idl/text", any(json(x) for x in body(fa, b)) or fa.argc(b)[1:] in (["'\n'"], ["as_bytes('\n')"]), "the file holds the compiled JSON", fa.where(b), str(fa.argc(b)[1:])[:200])
    for b in so:
        rep.add("written/idl/stdout", any(json(x) for x in body(fa, b)), "standard output gets the compiled JSON and nothing else", fa.where(b), str(fa.argc(b))[:300])
    flush = {b for b in fa.calls("flush") if fa.argc(b)[0].startswith(("stdout(", "lock(stdout(", "new(stdout(", "new(lock(stdout("))}
    pipe = lambda at: any((s.startswith("eq(") and "BrokenPipe" in s and v is True) or (s.startswith("kind(") and v == "BrokenPipe") for s, v in at)
    for c in m.comp["idl"]:
        for y in succs(fa, c):
            for nm, asm, want, no in (("file", A({O: "Some"}, {O: "f.json"}), set(idl), set(so)), ("dash", A({O: "Some"}, {O: "-"}), set(so), set(idl)), ("none", A({O: "None"}), set(so), set(idl))):
                must(rep, "written/idl/%s" % nm, "the output goes to the file named, or to standard output without a name or with -", fa, want, assume=asm, start=y)
                never(rep, "written/idl/%s/only" % nm, "and nowhere else", fa, no, assume=asm, start=y)
                if nm != "file":
                    must(rep, "written/idl/%s/flushed" % nm, "what is written to standard output is flushed, so that failing to write it is noticed", fa, flush, assume=asm, start=y, excuse=pipe)
    once(rep, fa, "written/idl/once", "output is written once", set(idl) | set(so))


def once(rep, fa, key, desc, ev):
    """no two whole outputs"""
    for b in ev:
        if not fa.g.B[b]["t"]["f"].startswith("std::fs::"):
            continue
        r = None
        for s in succs(fa, b):
            r = r or run(fa, s, (), None, set(ev))
        rep.add(key, r is None, desc, fa.where(b), path_text(fa, r) if r else "")


def reach_from(fa, bs):
    out = set()
    for b in bs:
        out |= reach(fa, b)
    return out


def body(fa, b):
    """what is written by a write on a stream"""
    a = fa.argc(b)
    f = last(fa.g.B[b]["t"]["f"])
    out = []
    for s in a[1:] if f != "_print" else a:
        if f in ("write_all", "write"):
            out.append(s[len("as_bytes("):-1] if s.startswith("as_bytes(") else s)
        for h in ("new('�\x00',[new_display(", "new('%s',[new_display(" % NL):
            if s.startswith(h) and s.endswith(")])"):
                out.append(s[len(h):-3])
    return out


@rule("P28")
def schemata(ctx, rep):
    m = main(ctx)
    fa = m.fa
    after = set().union(*[reach(fa, b) for b in m.of["idl2schemata"]]) if m.of["idl2schemata"] else set()
    files = [b for b, w, _ in sinks(fa) if w == "file" and b in after]
    comp = {outcome(fa, b) for b in m.comp["idl2schemata"]}
    colls = {c + ".schemas" for c in comp}
    dirs = set()
    for o in OUT:
        dirs |= {"{'.'|%s}" % o, o}
    rep.add("schemata/files", bool(files), "each schema goes to a file", fa.dn)
    for b in files:
        d = dest(fa, b)
        ok = None
        for c in colls:
            for D in dirs:
                for p in ("join(%s,fmt('%s',%s[].name))" % (D, AVSC, c), "join(%s,add(%s[].name,'.avsc'))" % (D, c), "with_extension(join(%s,%s[].name),'avsc')" % (D, c)):
                    if d == p:
                        ok = (D, c)
        rep.add("schemata/path", ok is not None, "a schema is written to a file of its own simple name, directly inside the output directory", fa.where(b), d[:250])
        if ok and fa.g.B[b]["t"]["f"].startswith("std::fs::"):
            x = line_of(fa, fa.v.args(b)[1], b)
            rep.add("schemata/text", x == "to_string_pretty(%s[].schema)" % ok[1], "the file holds that schema and the end of the line", fa.where(b), str(x or fa.argc(b)[1])[:200])
    for c in m.comp["idl2schemata"]:
        for y in succs(fa, c):
            asm = {outcome(fa, c): "Ok"}
            q = Report("")
            good = foreach(q, "schemata/each", "every schema is written", fa, lambda s: s in colls, set(files), assume=asm, start=y)
            lists = {b for b in fa.calls("push", "push_back") if any(z + "[].name" in fa.argc(b)[1] for z in colls)}
            if not good and lists:
                # rendered first, then written
                foreach(rep, "schemata/each", "every schema is rendered", fa, lambda s: s in colls, lists, assume=asm, start=y)
                foreach(rep, "schemata/each", "everything rendered is written", fa, lambda s: any(s == fa.argc(b)[0] or s.startswith("[") and fa.argc(b)[1] in s for b in lists), set(files), assume=asm, start=y)
            else:
                rep.obl += q.obl
    for b in fa.calls("create_dir_all", "create_dir"):
        rep.add("schemata/dir", b in after and fa.argc(b)[0] in dirs, "only the output directory is created", fa.where(b), fa.argc(b)[0][:200])
    for c in m.comp["idl2schemata"]:
        for y in succs(fa, c):
            d = {}
            for D in dirs | {"'.'"}:
                d.update({"exists(%s)" % D: True, "is_dir(%s)" % D: False, "try_exists(%s)" % D: True, "is_file(%s)" % D: True})
            never(rep, "schemata/not-a-dir", "an output directory that is something else is an error", fa, None, assume=d, start=y)
            never(rep, "schemata/not-a-dir/written", "and nothing is written then", fa, set(files) | set(fa.calls("create_dir_all", "create_dir")), assume=d, start=y)
            made = fa.calls("create_dir_all")
            for nm, there in (("missing", False), ("present", True)):
                d = {N: ["Ok", "None"]}
                for D in dirs:
                    d.update({"exists(%s)" % D: there, "is_dir(%s)" % D: there, "try_exists(%s)" % D: ["Ok", there], "is_file(%s)" % D: False, "metadata(%s)" % D: "Ok" if there else "Err"})
                    for f in fa.calls("create_dir_all", "create_dir", "to_string_pretty", "write"):
                        d[outcome(fa, f)] = "Ok"
                d[outcome(fa, c)] = "Ok"
                r = run(fa, y, (), None, lambda z, e: z in files, d)
                rep.add("schemata/%s" % nm, r is not None, "an output directory that is %s can be written to" % ("not there yet" if not there else "there"), fa.where(c))
                never(rep, "schemata/%s/refused" % nm, "an output directory that is %s is not an error" % ("not there yet" if not there else "there"), fa, refused(fa), assume=d, start=y)
                if not there:
                    must(rep, "schemata/missing/made", "an output directory that is not there yet is created before anything is written to it", fa, made, assume=d, start=y, target=lambda z, e: z in files)
    # names of files cannot lead elsewhere
    fe = ctx.fa("compiler::Idl2Schemata::extract_impl")
    bl = fe.builds("NamedSchema", None)
    rep.add("schemata/named", bool(bl), "the schemas returned carry their names", fe.dn)
    for b, i, fs in bl:
        nm = fe._c(fs["name"]) if not isinstance(fs["name"], str) else fs["name"]
        rep.add("schemata/simple-name", nm in ("name(schemas($CompileOutput.registry)[])", "name($CompileOutput.registry.schemas[])"), "a schema is named by its simple name, which registration checked", fe.where(b), nm[:200])


rule("P28")(valid_name)
rule("P28")(names_checked)
