"""Each compilation stands alone and compiles what was given: the file, the text or the directory."""
from rules import rule
from base import *
from base import _next_edges
from rules.diag import succs
from rules.warn import Contents, GROW, whole, INL

ENTRY = {"compiler::Idl::convert": "file", "compiler::Idl::convert_str": "text", "compiler::Idl::convert_str_named": "text",
         "compiler::Idl2Schemata::extract": "file", "compiler::Idl2Schemata::extract_str": "text", "compiler::Idl2Schemata::extract_str_named": "text"}
PW, VW = "parse_and_resolve", "validate_all_references"
LISTED = ("new", "sort_by_file_name", "into_iter", "sort_by", "sort_by_key", "contents_first", "max_open", "collect", "next", "min_depth")
SHARED = ("Cell", "Mutex", "RwLock", "Atomic", "Once", "thread_local", "LocalKey", "*mut")


@rule("P33")
def state(ctx, rep):
    """nothing survives a compilation but the builder's import directories and warnings"""
    n = 0

    def statics(o, f, b):
        nonlocal n
        if isinstance(o, dict):
            v = o.get("v")
            if isinstance(v, dict) and v.get("k") == "static":
                n += 1
                ty = ctx.p.tyname(o["t"])
                rep.add("state/static", not any(x in ty.replace("LazyLock", "") for x in SHARED), "no global state", "%s (%s)" % (f["file"].replace("/repo/", ""), short(f["dn"])), "%s: %s" % (v["n"], ty))
            for x in o.values():
                statics(x, f, b)
        elif isinstance(o, list):
            for x in o:
                statics(x, f, b)
    m = 0
    for f in ctx.p.local_fns():
        if is_gen(f) or "bb" not in f:
            continue
        m += 1
        for b, blk in enumerate(f["bb"]):
            statics(blk, f, b)
            t = blk["t"]
            if t["k"] == "call" and ("LocalKey" in t["f"] or "set_var" in t["f"] or last(t["f"]) == "set_current_dir"):
                rep.bad("state/thread", "no global state", "%s:%s (%s)" % (f["file"], t.get("ln"), short(f["dn"])), t["f"])
    rep.ok("state/floor", "functions looked at for global state: %d; globals they use: %d" % (m, n), "")
    rep.add("state/seen", m > 100, "the functions of the library are looked at", "src")
    fc = ctx.fa("compiler::IdlCompiler::compile", inline={"compiler::CompileContext::*", "import::ImportContext::new", "resolve::SchemaRegistry::new", "default"})
    me, src, name, here, at = fc.pname[:5]
    EMPTY = {"[]", "new()", "default()", "Default", "''", "None", "False", "0", "default", "with_capacity(0)"}
    for b in fc.calls(PW):
        a = fc.argc(b)
        rep.add("state/fresh", a[:2] == [src, name] and not re.search(re.escape(me) + r"\.(?!import_dirs\b)", " ".join(a)), "every compilation compiles the text it is given", fc.where(b), str(a)[:300])
        t = fc.v.args(b)[-1]
        t = t.a[0] if t.k == "ref" else t
        fs = list(zip(t.a[2], t.a[3:])) if t.k == "agg" else []
        rep.add("state/context", bool(fs), "a compilation starts with a context of its own", fc.where(b), fc._c(t)[:300])
        while fs:
            k, x = fs.pop()
            s = fc._c(x)
            if x.k == "agg" and x.a[2] and s not in EMPTY:
                fs += [("%s.%s" % (k, y), z) for y, z in zip(x.a[2], x.a[3:])]
                continue
            dirs = s == me + ".import_dirs" and last(k.replace(".", "::")) == "import_dirs"
            rep.add("state/context/%s" % k, s in EMPTY or dirs, "the context of a compilation starts empty, but for the import directories", fc.where(b), "%s: %s" % (k, s[:200]))
    rep.add("state/compiles", len(fc.calls(PW)) == 1, "a compilation parses and resolves its input", fc.dn)
    must(rep, "state/always", "a compilation parses and resolves its input", fc, fc.calls(PW))
    for b in fc.calls(VW):
        a = " ".join(fc.argc(b))
        rep.add("state/validated", not re.search(r"\$IdlCompiler\.(?!import_dirs\b)", a), "references are resolved among the types of this compilation", fc.where(b), a[:300])
    bl = fc.builds("CompileOutput")
    rep.add("state/output", bool(bl), "the outcome of a compilation is returned", fc.dn)
    for b, i, fs in bl:
        for k in ("idl_file", "registry"):
            s = fs.get(k)
            s = s if isinstance(s, str) or s is None else fc._c(s)
            rep.add("state/output/%s" % k, bool(s) and s.startswith(PW + "("), "what is returned is what this compilation found", fc.where(b), str(s)[:200])
    fp = ctx.fa("compiler::parse_and_resolve")
    ps = fp.calls("parse_idl_named", "parse_idl")
    must(rep, "text/parsed", "the text given is parsed", fp, ps)
    for b in ps:
        rep.add("text/whole", fp.argc(b)[0] == fp.pname[0], "the text given is parsed, all of it and nothing else", fp.where(b), str(fp.argc(b))[:200])


@rule("P33")
def given(ctx, rep):
    """the file or text given is the one compiled"""
    for fn, kind in ENTRY.items():
        nm = fn.split("::", 1)[1]
        fa = ctx.fa(fn, inline=INL - {"compiler::IdlCompiler::*"} | {"compiler::IdlCompiler::compile_file", "compiler::IdlCompiler::compile_str", "!compile"})
        me, x = fa.pname[:2]
        isd = {}
        for b in fa.calls("is_dir", "is_file"):
            if fa.argc(b)[0] == x:
                isd[outcome(fa, b)] = last(fa.g.B[b]["t"]["f"]) == "is_file"
        cs = [b for b in fa.calls("compile") if run(fa, None, (), None, {b}, isd) is not None]
        rep.add("given/%s" % nm, len(cs) == 1, "the %s given is compiled" % kind, fa.dn, str(len(cs)))
        must(rep, "given/%s/always" % nm, "the %s given is compiled" % kind, fa, cs, assume=isd)
        for b in cs:
            a = fa.argc(b)
            want = "read_to_string(%s)" % x if kind == "file" else x
            rep.add("given/%s/text" % nm, a[1] == want and a[0] == me + ".inner", "the whole %s is compiled" % ("text of the file" if kind == "file" else "text given"), fa.where(b), str(a)[:300])
            got = flat(fa, fa.vals(fa.v.args(b)[3], b))
            if kind == "file":
                ok = {"parent(%s)" % x, "canonicalize(parent(%s))" % x, "canonicalize({'.'|parent(%s)})" % x, "canonicalize('.')", "'.'"}
            else:
                ok = {"current_dir()", "canonicalize(current_dir())"}
            rep.add("given/%s/base" % nm, bool(got) and got <= ok, "imports are relative to the %s" % ("directory of the file" if kind == "file" else "working directory"), fa.where(b), str(sorted(got))[:300])
        # the builder stays as it was
        fw = ctx.fa(fn, inline=INL)
        for z in fw.g.rpo:
            if fw.g.B[z]["t"]["k"] == "return":
                t = fw.v.read(("D", fw.g.argl[0], ()), ("inner", "import_dirs"), z, 1 << 30)
                c = Contents(fw, lambda u: "own" if u.k == "fld" and fw._c(u) == me + ".inner.import_dirs" else None)
                rep.add("given/%s/builder" % nm, c.of(t) == {"own"} and not c.twice, "a compilation leaves the import directories of the builder as they were", fw.where(z), fw._c(t)[:300])
        # what is returned comes from it
        for b in cs:
            out = outcome(fa, b)
            keep = [r for r in rets(fa) if r.startswith(("SchemataOutput{", "IdlOutput{"))]
            rep.add("given/%s/result" % nm, bool(keep) or not cs, "the result is that of the compilation", fa.dn, str(rets(fa))[:200])
        never(rep, "given/%s/listed" % nm, "a directory is only listed when one is given", fa, set(fa.calls("read_dir")) | {b for b in fa.calls("new") if "WalkDir" in fa.g.B[b]["t"]["f"]}, assume=isd)


@rule("P33")
def directory(ctx, rep):
    fa = ctx.fa("compiler::Idl2Schemata::extract", inline={"extract_directory"})
    me, x = fa.pname[:2]
    isd = {}
    for b in fa.calls("is_dir", "is_file"):
        if fa.argc(b)[0] == x:
            isd[outcome(fa, b)] = last(fa.g.B[b]["t"]["f"]) == "is_dir"
    rep.add("dir/asked", bool(isd), "directories are told from files", fa.dn)
    lists = [b for b in fa.calls("new", "read_dir") if fa.argc(b)[:1] == [x] and ("WalkDir" in fa.g.B[b]["t"]["f"] or last(fa.g.B[b]["t"]["f"]) == "read_dir")]
    lists = [b for b in lists if run(fa, None, (), None, {b}, isd) is not None]
    must(rep, "dir/listed", "a directory is listed", fa, lists, assume=isd)
    for b in lists:
        rep.add("dir/deep", "WalkDir" in fa.g.B[b]["t"]["f"], "the directories inside it are listed as well", fa.where(b), fa.g.B[b]["t"]["f"])
    for b in fa.calls():
        f = fa.g.B[b]["t"]["f"]
        if "walkdir" in f.lower() and not re.search(r"walkdir::(DirEntry|Error)", f):
            ok = last(f) in LISTED and (last(f) != "min_depth" or fa.argc(b)[1] in ("0", "1"))
            rep.add("dir/all", ok, "nothing inside a directory is left out", fa.where(b), short(f))
    cs = [b for b in fa.calls("compile_file") if run(fa, None, (), None, {b}, isd) is not None]
    rep.add("dir/compiled", len(cs) >= 1, "the files found are compiled", fa.dn, str(len(cs)))
    listing = lambda s: s.endswith("[]") is False and re.match(r"^(sort_by\w*\(|contents_first\(|min_depth\(|max_open\()*new\(%s\)" % re.escape(x), s) is not None
    for b in cs:
        e = fa.argc(b)[1]
        e = re.sub(r"^\[([^{|]*)\]\[\]$", r"\1", e)
        m = re.match(r"^(?:path|into_path)\((.*\[\])\)$", e)
        rep.add("dir/which", bool(m) and listing(m.group(1)[:-2]), "what is compiled is a file found in the directory", fa.where(b), e[:200])
        if not m:
            continue
        ent = m.group(1)
        names = {"path(%s)" % ent, "into_path(%s)" % ent}
        ext = {"extension(%s)" % p for p in names}

        def atom_ext(s, val, yes):
            """s=val says the extension is (yes) or is not (no) avdl"""
            if not any(x in s for x in ext):
                return False
            if s.startswith("eq(") and "'avdl'" in s:
                return val is yes
            if not yes and (s in ext or s in {"to_str(%s)" % x for x in ext} or s.startswith("{None|to_str(")):
                return val == "None"
            return False
        def dirs(s, val, yes):
            if re.match(r"^(is_dir|is_file)\((%s|metadata\((%s)\))\)$" % (("|".join(re.escape(p) for p in names),) * 2), s):
                return (val is yes) if s.startswith("is_dir") else (val is not yes and isinstance(val, bool))
            return False
        def other(atoms):
            return any(atom_ext(s, v, False) or dirs(s, v, True) for s, v in atoms)
        def good(atoms):
            return any(atom_ext(s, v, True) for s, v in atoms)
        listed = {q for q in fa.calls("push", "push_back", "extend_one") if fa.argc(q)[-1] in names}
        first = listed or {b}
        foreach(rep, "dir/each", "every avdl file in the directory is compiled", fa, lambda s: s == ent[:-2], first, excuse=other, assume=isd, start=succs(fa, lists[0])[0] if lists else None, allow_names=())
        # only such files
        nodir = lambda at: any(dirs(s, v, False) for s, v in at)
        for it in iterations(fa, lambda s: s == ent[:-2]):
            if it["kind"] != "loop":
                continue
            for key, desc, pred in (("dir/only", "no file without the extension avdl is compiled", good), ("dir/files", "directories are not compiled", nodir)):
                if filters_pass(fa, it, pred, isd, True):
                    rep.ok(key, desc, fa.where(it["b"]))
                    continue
                for y in _next_edges(fa, it["b"])[0]:
                    r = run(fa, y, {it["b"]}, pred, first, isd)
                    rep.add(key, r is None, desc, fa.where(it["b"]), path_text(fa, r, isd) if r else "")
        if listed:
            coll = {fa.argc(q)[0] for q in listed} | {"[%s]" % p for p in names}
            foreach(rep, "dir/each/compiled", "every file found is compiled", fa, lambda s: s in coll, {b}, assume=isd, start=succs(fa, lists[0])[0] if lists else None)
        # the schemas of each reach the result
        F = outcome(fa, b)
        ok = dict(isd, **{F: "Ok"})

        def label(t):
            s = fa._c(t)
            if t.k == "fld" and t.a[1] == "schemas" and s.startswith("extract_impl(%s" % F):
                return "done"
            return None
        ex = [q for q in fa.calls(*GROW) if Contents(fa, label).of(fa.v.args(q)[-1]) == {"done"}]
        for q in ex:
            rep.add("dir/schemas/whole", whole(fa, fa.v.args(q)[-1]) and last(fa.g.B[q]["t"]["f"]) != "insert", "all schemas of a file are added, after those before it", fa.where(q), fa.argc(q)[-1][:200])
        for y in succs(fa, b):
            must(rep, "dir/schemas", "the schemas of every file are part of the result", fa, ex, assume=ok, start=y, target=lambda z, e: z == b or fa.g.B[z]["t"]["k"] == "return")
        g, fl = fa.g, fa.flow((), ok)
        got = set()

        def tgt(z, e):
            if g.B[z]["t"]["k"] != "return":
                return False
            r = fl.rs(fa.v.read(g.ret, (), z, 1 << 30), e)
            if (fl.variant(r) or fl._fact(r, e, "std::result::Result")) != "Err":
                c = Contents(fa, label, fl, e)
                t = fa.v.fld(fa.v.fld(r, "Ok.0"), "schemas")
                got.add((c.of(t), whole(fa, t), frozenset(c.twice)))
            return False
        for z, e, _ in list(fl.run(g.entry, avoid=(), target=lambda z, e: z == b, find_all=True)):
            list(fl.run(z, env=e, target=tgt, find_all=True))
        rep.add("dir/result", bool(got) and all(c == {"done"} and w and not tw for c, w, tw in got), "the result of a directory is the schemas of its files, in order", fa.dn, str([(sorted(c), w, sorted(tw)) for c, w, tw in got])[:300])
