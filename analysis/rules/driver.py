"""The compile driver: registration, names, imports, message merging, ordering."""
from rules import rule
from base import *
from base import _next_edges

FULL = "full_name($AvroSchema)"
SCH = "$SchemaRegistry.schemas"


def is_map_insert(t):
    return last(t["f"]) == "insert" and "Map" in t["f"]


# -- P02 duplicates ---------------------------------------------------------------------------
@rule("P02")
def register_rejects(ctx, rep):
    fa = ctx.fa("resolve::SchemaRegistry::register", inline={"validate_schema_name"})
    mi = map_inserts(fa, SCH)
    ins = [b for b, k, v in mi]
    has = {"has(%s,%s)" % (SCH, FULL): True}
    never(rep, "register/duplicate", "registering a full name that is already taken fails", fa, None, assume=has)
    never(rep, "register/duplicate-kept", "a failed registration leaves the earlier definition in place", fa, set(ins), assume=has)
    must(rep, "register/stores", "a successful registration stores the type", fa, ins, assume={"has(%s,%s)" % (SCH, FULL): False})
    for b, k, val in mi:
        rep.add("register/key", k == FULL, "types are stored under their full name", fa.where(b), k)
        rep.add("register/value", val == "$AvroSchema", "the type stored is the one registered", fa.where(b), str(val))
    never(rep, "register/unnamed", "a type without a name is never registered", fa, None, assume={FULL: "None"})
    only_in(rep, "register/only", "definitions are only added to the registry by registration", field_mutators(ctx, "SchemaRegistry", "schemas"), {"register", "reserve", "new"})
    fq = ctx.fa("model::schema::AvroSchema::full_name", inline={"make_full_name"})
    full_name_rule(rep, ctx)


def full_name_rule(rep, ctx):
    fa = ctx.fa("model::schema::AvroSchema::full_name")
    adt = {v["n"]: [f["n"] for f in v["f"]] for v in ctx.p.adts["avdl::model::schema::AvroSchema"]["v"]}
    for var, fs in adt.items():
        got = ret_under(fa, {"$AvroSchema": var})
        if var in ("Record", "Enum", "Fixed"):
            want = "make_full_name($AvroSchema.%s.name,$AvroSchema.%s.namespace)" % (var, var)
            rep.add("full-name/%s" % var, got == {want}, "a %s is identified by its namespace and name" % var.lower(), fa.dn, str(got))
        elif var != "Reference":
            rep.add("full-name/%s" % var, got == {"None"}, "a %s has no full name" % var, fa.dn, str(got))


@rule("P02")
def make_full_name(ctx, rep):
    fa = ctx.fa("model::schema::make_full_name")
    N, NS = "$str", "$Option"
    none = ret_under(fa, {NS: "None"})
    rep.add("make/none", bool(none) and all(N in x and NS not in x for x in none), "without namespace the full name is the name", fa.dn, str(none))
    some = ret_under(fa, A({NS: "Some", "empty(%s)" % NS: False}))
    rep.add("make/some", bool(some) and all(NS in x and N in x and x.index(NS) < x.rindex(N) and "'." not in x.replace("'.'", "") for x in some),
            "with a namespace the full name is namespace, dot, name", fa.dn, str(some))


@rule("P02")
def declarations_registered(ctx, rep):
    fa = ctx.fa("compiler::process_decl_items")
    regs = fa.calls("SchemaRegistry::register", arg={1: lambda s: s == "$DeclItem[].Type.0"})
    foreach(rep, "decl/each", "every type declaration is registered", fa, "$DeclItem", regs, excuse=exc(("$DeclItem[]", "Import")))
    err_fatal(rep, "decl/fatal", "a declaration that cannot be registered fails the compilation", fa, regs)
    for b in regs:
        rep.add("decl/where", fa.argc(b)[0] == "$CompileContext.registry", "declarations are registered in the compilation's registry", fa.where(b), fa.argc(b)[0])
    imps = fa.calls("resolve_single_import", arg={0: lambda s: s == "$DeclItem[].Import.0"})
    foreach(rep, "decl/imports", "every import is resolved", fa, "$DeclItem", imps, excuse=exc(("$DeclItem[]", "Type")))
    err_fatal(rep, "decl/imports-fatal", "an import that cannot be resolved fails the compilation", fa, imps)


# -- P03 names ------------------------------------------------------------------------------
@rule("P03")
def names_checked(ctx, rep):
    fa = ctx.fa("resolve::SchemaRegistry::register", inline={"validate_schema_name"})
    for var in ("Record", "Enum", "Fixed"):
        P = "$AvroSchema.%s." % var
        base = A({"$AvroSchema": var})
        # under a fixed variant the name phi resolves only at path level: accept the merged spelling too
        def valid(s, what):
            return s == "is_valid_avro_name(%s)" % what
        nm = [P + "name", merged("name")]
        ns = [P + "namespace", merged("namespace")]
        for tag, val in (("invalid", False),):
            d = {"is_valid_avro_name(%s)" % x: val for x in nm}
            never(rep, "name/%s/%s" % (var, tag), "a %s whose name is not a valid Avro name is rejected" % var.lower(), fa, None, assume=base.also(d))
        d = {}
        colls = set()
        for x in ns:
            d[x] = "Some"
            d["empty(%s)" % x] = False
            colls.add("split(%s,'.')" % x)
            d["is_valid_avro_name(split(%s,'.')[])" % x] = False
        rejects_each(rep, "namespace/%s" % var, "a %s with an invalid namespace segment is rejected" % var.lower(), fa, lambda s: s in colls, base.also(d))
        # the segments are looked at at all
        ev = fa.calls("is_valid_avro_name", arg={0: lambda s: s in {c + "[]" for c in colls}})
        dd = {x: "Some" for x in ns}
        dd.update({"empty(%s)" % x: False for x in ns})
        foreach(rep, "namespace/%s/each" % var, "every namespace segment of a %s is checked" % var.lower(), fa, lambda s: s in colls, ev, assume=base.also(dd))


@rule("P03")
def not_primitive(ctx, rep):
    fa = ctx.fa("resolve::SchemaRegistry::register")
    for n in ("null", "boolean", "int", "long", "float", "double", "bytes", "string"):
        for var in ("Record", "Enum", "Fixed"):
            never(rep, "primitive/%s/%s" % (n, var), "a type whose full name is that of a primitive type is rejected", fa, None, assume=A({"$AvroSchema": var, FULL: "Some"}, {FULL: n}))


@rule("P03")
def imports_checked(ctx, rep):
    for fn in ("import::import_protocol", "import::import_schema"):
        fa = ctx.fa(fn, inline={"flatten_and_register", "flatten_schema"})
        regs = fa.calls("SchemaRegistry::register")
        rep.add("import/%s" % fn, bool(regs), "imported types go through registration", fa.dn)
        err_fatal(rep, "import/fatal/%s" % fn, "an imported type that cannot be registered fails the import", fa, regs)


def merged(f):
    return "{" + "|".join("$AvroSchema.%s.%s" % (v, f) for v in ("Enum", "Fixed", "Record")) + "}"


@rule("P03")
def valid_name(ctx, rep):
    fa = ctx.fa("resolve::is_valid_avro_name")
    CH = "chars($str)"
    ch = CH + "[]"
    def us(v):
        return {"eq('_',%s)" % ch: v, "eq(%s,'_')" % ch: v, "eq(95,%s)" % ch: v, "eq(%s,95)" % ch: v}
    bad = {"is_alphanumeric(%s)" % ch: False, "is_alphabetic(%s)" % ch: False, "is_numeric(%s)" % ch: False, **us(False)}
    digit = {"is_alphanumeric(%s)" % ch: True, "is_alphabetic(%s)" % ch: False, "is_numeric(%s)" % ch: True, **us(False)}
    letter = {"is_alphanumeric(%s)" % ch: True, "is_alphabetic(%s)" % ch: True, "is_numeric(%s)" % ch: False, **us(False)}
    under = {"is_alphanumeric(%s)" % ch: False, "is_alphabetic(%s)" % ch: False, "is_numeric(%s)" % ch: False, **us(True)}
    some = {"next(%s)" % CH: "Some", "empty($str)": False}
    r = ret_under(fa, A({"next(%s)" % CH: "None", "empty($str)": True}))
    rep.add("valid/empty", r == {"False"}, "the empty name is invalid", fa.dn, str(r))
    # every way of going through the characters
    its = iterations(fa, CH)
    nexts = [it["b"] for it in its if it["kind"] == "loop"]
    fl = fa.flow(())
    singles = []          # next() calls outside loops: the first character
    for b in nexts:
        somes, _ = _next_edges(fa, b)
        if all(run(fa, s, (), None, {b}) is None for s in somes):
            singles.append(b)
    n = 0
    for b in singles:
        somes, _ = _next_edges(fa, b)
        for nm, d in (("other", bad), ("digit", digit)):
            n += 1
            got = set()
            for s in somes:
                got |= ret_under(fa, A(d), start=s)
            # the remaining characters say nothing here: only the first is constrained by reaching False at once
            rep.add("valid/first/%s" % nm, got == {"False"}, "a name must start with a letter or underscore", fa.where(b), str(got))
    cand = 0
    for it in its:
        if it["kind"] == "loop" and it["b"] not in singles:
            somes, _ = _next_edges(fa, it["b"])
            cand += 1
            for nm, d, want in (("other", bad, "reject"), ("letter", letter, "go on"), ("underscore", under, "go on")):
                rj = go = False
                for s in somes:
                    for bb, e, path in fa.flow((), A(d)).run(s, target=lambda b, e: b == it["b"] or fl.is_return(b), find_all=True):
                        if bb == it["b"]:
                            go = True
                        else:
                            v = fa.flow((), A(d)).ev(fa.v.read(fa.g.ret, (), bb, 1 << 30), e)
                            rj = rj or v[2] is False
                            go = go or v[2] is True
                rep.add("valid/rest/%s" % nm, (rj and not go) if want == "reject" else go, "the characters of a name must be letters, digits or underscores, and all of those are accepted", fa.where(it["b"]), "rejected: %s, accepted: %s" % (rj, go))
        elif it["kind"] == "clo" and it["how"] in ("all", "any", "find", "position"):
            cand += 1
            outc = fa._c(fa.v.callval(fa.g.B[it["b"]]["t"], it["b"]))
            for nm, d, want in (("other", bad, False), ("letter", letter, True), ("digit", digit, True), ("underscore", under, True)):
                hit = fa._pred(fa.v.callval(fa.g.B[it["b"]]["t"], it["b"]), fa._mkassume(A(d)))
                # what the search reports for such a character, and what the function makes of it
                if hit is None:
                    if nm == "digit" or singles == []:
                        continue
                    rep.add("valid/rest/%s" % nm, False, "the characters of a name must be letters, digits or underscores, and all of those are accepted", fa.where(it["b"]), "undetermined")
                    continue
                how = it["how"]
                val = {"all": hit, "any": hit, "find": "Some" if hit else "None", "position": "Some" if hit else "None"}[how]
                fd = {outc: val}
                got = set()
                f2 = fa.flow([], fd)
                for bb, e, path in f2.run(it["b"], target=lambda b, e: fl.is_return(b), find_all=True):
                    v = f2.ev(f2.rs(fa.v.read(fa.g.ret, (), bb, 1 << 30), e), e)
                    got.add(v[2] if v[0] != "nbool" or v[2] is None else not v[2])
                rep.add("valid/rest/%s" % nm, got == {want}, "the characters of a name must be letters, digits or underscores, and all of those are accepted", fa.where(it["b"]), "%s is %s, result %s" % (how, val, got))
            rep.add("valid/all", not [x for x in it["names"] if x in SUBSET], "every remaining character is looked at", fa.where(it["b"]), str(it["names"]))
    rep.add("valid/floor", cand >= 1, "iterations over the characters of a name: %d" % cand)
    if not singles:
        # first and later characters told apart inside the loop
        al = [b for b in fa.calls("is_alphabetic", arg={0: lambda s: s == ch})]
        rep.add("valid/first/class", bool(al), "the first character has its own rule", fa.dn)


# -- P04 / P05 imports ------------------------------------------------------------------------
RES = "resolve_import($CompileContext.import_ctx,$ImportEntry.path,$Path)"
READ = "$CompileContext.import_ctx.read_locations"


def rsi(ctx):
    return ctx.fa("compiler::resolve_single_import", inline={"mark_imported"})


PROCESS = ("read_to_string", "import_protocol", "import_schema", "parse_idl_named", "process_decl_items")


@rule("P04")
def once(ctx, rep):
    fa = rsi(ctx)
    proc = [b for n in PROCESS for b in fa.calls(n)]
    rep.add("once/sites", len(proc) >= 4, "processing operations of an import (floor 4): %d" % len(proc))
    ins = fa.calls("insert", arg={0: lambda s: s == READ})
    for b in ins:
        rep.add("once/key", fa.argc(b)[1] == RES, "an import is remembered under the path it was resolved to", fa.where(b), fa.argc(b)[1])
    never(rep, "once/skip", "an import that was already processed is not processed again", fa, set(proc), assume={"has(%s,%s)" % (READ, RES): True})
    never(rep, "once/marked-first", "an import is remembered before it is processed", fa, set(proc), avoid=ins)
    r = run(fa, assume={"has(%s,%s)" % (READ, RES): True, RES: "Ok"}, target=lambda b, e: fa.flow().is_return(b))
    ok = ret_under(fa, {"has(%s,%s)" % (READ, RES): True, RES: "Ok"})
    rep.add("once/skip-ok", ok == {"()"}, "meeting an import again is not an error", fa.dn, str(ok)[:200])
    never(rep, "once/resolved", "only resolved imports are processed", fa, set(proc), assume={RES: "Err"})
    # the identity is a canonical path
    fr = ctx.fa("import::ImportContext::resolve_import")
    ok = [x for x in rets(fr) if not x.startswith("Err(")]
    rep.add("once/canonical", bool(ok) and all(x.startswith("canonicalize(") for x in ok), "an import is identified by its canonical path", fr.dn, str(ok))
    # the root file counts as imported
    fp = ctx.fa("compiler::parse_and_resolve", inline={"mark_imported"})
    ins = fp.calls("insert", arg={0: lambda s: s == READ, 1: lambda s: s == "$Option"})
    dec = fp.calls("process_decl_items")
    rep.add("once/root-decl", bool(dec), "the root file's declarations are processed", fp.dn)
    never(rep, "once/root", "the root file is remembered before its imports are processed", fp, set(dec), avoid=ins, assume={"$Option": "Some"}, excuse=exc(("has(%s,$Option)" % READ, True)))
    fc = ctx.fa("compiler::IdlCompiler::compile_file")
    for b in fc.calls("IdlCompiler::compile"):
        one_of(rep, "once/root-canonical", "the root file is identified by its canonical path", fc, fc.v.args(b)[4], b, {"canonicalize($Path)"}, assume={"canonicalize($Path)": "Ok"})
    rep.add("once/root-sites", bool(fc.calls("IdlCompiler::compile")), "compiling a file passes its path on", fc.dn)
    fi = ctx.fa("compiler::IdlCompiler::compile")
    for b in fi.calls("parse_and_resolve"):
        a = fi.argc(b)
        rep.add("once/root-passed", a[3] == "$Option", "the root file's path reaches import resolution", fi.where(b), a[3])
    # nothing forgets
    only_in(rep, "once/set", "the set of processed imports is only extended", field_mutators(ctx, "ImportContext", "read_locations"), {"mark_imported", "new"})
    fm = ctx.fa("import::ImportContext::mark_imported")
    for b in fm.v.calls():
        if last(fm.g.B[b]["t"]["f"]) in ("remove", "clear", "take", "drain", "retain"):
            rep.bad("once/forget", "the set of processed imports is only extended", fm.where(b), "an entry is removed")
    r = rets(fm)
    # one set per compilation
    inner = {"avdl::compiler::parse_and_resolve"}
    todo = list(inner)
    by = {}
    for f in ctx.p.local_fns():
        by.setdefault(f["dn"].split("::{")[0], []).append(f)
    while todo:
        for f in by.get(todo.pop(), ()):
            for blk in f["bb"]:
                n = re.sub(r"<[^<>]*>", "", blk["t"]["f"]).split("::{")[0] if blk["t"]["k"] == "call" else None
                if n in by and n not in inner:
                    inner.add(n)
                    todo.append(n)
    rep.add("once/inner", len(inner) > 20, "the functions that read and resolve a file and its imports: %d" % len(inner), "")
    for adt in ("ImportContext", "CompileContext"):
        made = constructors(ctx, adt) + [c for c in callers(ctx, lambda n: re.search(r"\b%s\b.*::(new|default)$" % adt, n))]
        rep.add("once/made/%s" % adt, bool(made), "a compilation has a context", "")
        for c in made:
            rep.add("once/context/%s" % adt, "avdl::" + c[0].replace("avdl::", "") not in inner, "imports share the context of the compilation", "%s:%s (%s)" % (c[1], c[2], c[0]), "a %s is made here" % adt)
    for b in fa.calls("process_decl_items"):
        rep.add("once/same-context", fa.argc(b)[1] == "$CompileContext", "nested imports share the compilation's context", fa.where(b), fa.argc(b)[1])


@rule("P05")
def search_order(ctx, rep):
    fr = ctx.fa("import::ImportContext::resolve_import")
    DIRS = "$ImportContext.import_dirs"
    here, there = "join($Path,$str)", "join(%s[],$str)" % DIRS
    ex, ex2 = "exists(%s)" % here, "exists(%s)" % there
    ok = {x for x in ret_under(fr, {ex: True, "canonicalize(%s)" % here: "Ok"})}
    rep.add("order/here", ok == {"canonicalize(%s)" % here}, "a file next to the importing file is found first", fr.dn, str(ok)[:200])
    never(rep, "order/here-only", "a file next to the importing file hides the import directories", fr, set(fr.calls("exists", arg={0: lambda s: s == there})), assume={ex: True})
    ev = fr.calls("exists", arg={0: lambda s: s == there})
    foreach(rep, "order/dirs", "every import directory is searched before giving up", fr, DIRS, ev, assume={ex: False}, target=lambda b, e: fr.g.B[b]["t"]["k"] == "return",
            outer=exc((ex2, True)))
    its = iterations(fr, DIRS)
    rep.add("order/rev", all(n not in ("rev",) for it in its for n in it["names"]) and all(last(fr.g.B[it["b"]]["t"].get("f", "")) not in ("next_back", "pop") for it in its if it["kind"] == "loop"),
            "import directories are searched in the order given", fr.dn)
    starts = [x for it in its if it["kind"] == "loop" for x in _next_edges(fr, it["b"])[0]] or [None]
    ok = set().union(*[ret_under(fr, {ex: False, ex2: True, "next(%s)" % DIRS: "Some", "canonicalize(%s)" % there: "Ok"}, start=x) for x in starts])
    rep.add("order/first-dir", ok == {"canonicalize(%s)" % there}, "the first import directory containing the file wins", fr.dn, str(ok)[:200])
    ok = {x for x in ret_under(fr, {ex: False, ex2: False}) if not x.startswith("Err(")}
    rep.add("order/missing", not ok, "an import that is found nowhere is an error", fr.dn, str(ok)[:200])
    for b in fr.v.calls("exists"):
        a = fr.argc(b)[0]
        rep.add("order/only", a in (here, there), "only the importing file's directory and the import directories are searched", fr.where(b), a)
    # which directory is 'here'
    fa = rsi(ctx)
    for b in fa.calls("ImportContext::resolve_import"):
        a = fa.argc(b)
        rep.add("here/args", a[1] == "$ImportEntry.path" and a[2] == "$Path", "an import is looked up by its own path in the importing file's directory", fa.where(b), str(a[1:]))
    for b in fa.calls("process_decl_items"):
        one_of(rep, "here/nested", "nested imports are relative to the imported file", fa, fa.v.args(b)[2], b, {"parent(%s)" % RES}, assume={"parent(%s)" % RES: "Some"})
    fp = ctx.fa("compiler::process_decl_items")
    for b in fp.calls("resolve_single_import"):
        rep.add("here/pass", fp.argc(b)[2] == "$Path", "imports are relative to the importing file", fp.where(b), fp.argc(b)[2])
    fq = ctx.fa("compiler::parse_and_resolve")
    for b in fq.calls("process_decl_items"):
        rep.add("here/root", fq.argc(b)[2] == "$Path", "the root file's imports are relative to its directory", fq.where(b), fq.argc(b)[2])
    fi = ctx.fa("compiler::IdlCompiler::compile")
    for b in fi.calls("parse_and_resolve"):
        rep.add("here/compile", fi.argc(b)[2] == "$Path", "the root file's directory reaches import resolution", fi.where(b), fi.argc(b)[2])
    fc = ctx.fa("compiler::IdlCompiler::compile_file")
    for b in fc.calls("IdlCompiler::compile"):
        one_of(rep, "here/file", "the root file's imports are relative to the directory it is in", fc, fc.v.args(b)[3], b,
               {"canonicalize(parent($Path))", "parent($Path)", "parent(canonicalize($Path))"}, assume={"parent($Path)": "Some"})
    fs = ctx.fa("compiler::IdlCompiler::compile_str")
    for b in fs.calls("IdlCompiler::compile"):
        rep.add("here/str", fs.argc(b)[3] == "current_dir()", "imports of a source string are relative to the working directory", fs.where(b), fs.argc(b)[3])
    # the import directories arrive in order
    fn = ctx.fa("compiler::IdlCompiler::compile", inline={"compiler::CompileContext::*", "import::ImportContext::new", "default"})
    want = fn.pname[0] + ".import_dirs"
    for b in fn.calls("parse_and_resolve"):
        t = fn.v.args(b)[-1]
        t = t.a[0] if t.k == "ref" else t
        leaves, dirs = [t], []
        while leaves:
            x = leaves.pop()
            for k, y in zip(x.a[2], x.a[3:]) if x.k == "agg" else ():
                if last(k.replace(".", "::")) == "import_dirs":
                    dirs.append(fn._c(y))
                    from rules.emit import order_ops
                    ops = order_ops(fn, y)
                    rep.add("dirs/all", not ops, "a compilation searches all of the builder's import directories, in their order", fn.where(b), str(ops))
                elif y.k == "agg":
                    leaves.append(y)
        rep.add("dirs/compile", dirs == [want], "a compilation searches the builder's import directories", fn.where(b), str(dirs)[:300])
    fd = ctx.fa("compiler::IdlCompiler::import_dir")
    push = fd.calls("push", arg={0: lambda s: s.startswith("$IdlCompiler.import_dirs"), 1: lambda s: s == fd.pname[1]})
    must(rep, "dirs/add", "an added import directory is appended", fd, push)
    only_in(rep, "dirs/only", "import directories are only added by the caller", field_mutators(ctx, "IdlCompiler", "import_dirs") + field_mutators(ctx, "ImportContext", "import_dirs"), {"import_dir", "new"})
    for ty in ("Idl", "Idl2Schemata"):
        for f in ctx.p.fn("compiler::%s::import_dir" % ty)[:1]:
            fx = FA(ctx, f, set(), None)
            must(rep, "dirs/%s" % ty, "%s passes import directories on" % ty, fx, fx.calls("IdlCompiler::import_dir"))
    for fnn, nm in (("run_idl", "Idl"), ("run_idl2schemata", "Idl2Schemata")):
        fm = ctx.fa(fnn if ctx.p.fn(fnn) else "main::" + fnn)
        dv = {p for p in fm.pname if p.startswith("$Vec") or p.startswith("$PathBuf")} | {p + ".import_dirs" for p in fm.pname}
        ev = fm.calls("import_dir")
        comp = fm.calls("convert", "convert_str_named", "extract", "convert_str", "extract_str", "extract_str_named")
        rep.add("cli/%s/sites" % fnn, bool(ev) and bool(comp), "the command line configures the builder", fm.dn)
        its = [it for it in iterations(fm, lambda s: s in dv)]
        good = [it for it in its if not set(it["names"]) & (SUBSET | {"rev"})]
        foreach(rep, "cli/%s" % fnn, "every --import-dir reaches the builder, in order", fm, lambda s: s in dv, ev, target=set(comp))


# -- P10 messages ------------------------------------------------------------------------------
@rule("P10")
def messages(ctx, rep):
    fa = rsi(ctx)
    CM = "$CompileContext.messages"
    ip = "import_protocol(%s,$CompileContext.registry)" % RES
    idl = "parse_idl_named(read_to_string(%s),display(%s))" % (RES, RES)
    def merges(fa, src):
        into = lambda s: s == CM or s.startswith("[%s[]," % CM) or s == "[%s[]]" % CM
        return [b for b in fa.v.calls() if last(fa.g.B[b]["t"]["f"]) in ("extend", "insert") and into(fa.argc(b)[0]) and (fa.argc(b)[1] == src or fa.argc(b)[1:] == [src + "[].0", src + "[].1"])]

    def merge_all(key, desc, fa, src, ms, asm):
        whole = [b for b in ms if last(fa.g.B[b]["t"]["f"]) == "extend"]
        if whole or not ms:
            must(rep, key, desc, fa, whole, assume=asm)
        else:
            foreach(rep, key, desc, fa, src, ms, assume=asm)
    notdone = {"has(%s,%s)" % (READ, RES): False}
    m1 = merges(fa, ip)
    merge_all("merge/avpr", "messages of an imported .avpr join the importing protocol", fa, ip, m1, {"$ImportEntry.kind": "Protocol", **notdone})
    own = idl + ".0.Protocol.0.messages"
    m2 = merges(fa, own)
    merge_all("merge/idl", "messages of an imported IDL protocol join the importing protocol", fa, own, m2, {"$ImportEntry.kind": "Idl", idl + ".0": "Protocol", **notdone})
    # an imported file's own messages win over those of files it imports in turn
    nested = fa.calls("process_decl_items")
    for b in m2:
        r = run(fa, b, target=set(nested))
        rep.add("merge/idl/order", r is None, "an imported file's own messages take precedence over those it imports itself", fa.where(b),
                "the nested imports' messages are merged after (over) the importing file's own")
    fp = ctx.fa("compiler::parse_and_resolve")
    P = "parse_idl_named($str,$str2)"
    own = P + ".0.Protocol.0.messages"
    asm = {P + ".0": "Protocol"}
    m3 = merges(fp, own)
    merge_all("own/merge", "a protocol's own messages are merged over the imported ones", fp, own, m3, asm)
    for b in m3:
        r = run(fp, b, target=set(fp.calls("process_decl_items")))
        rep.add("own/last", r is None, "a protocol's own messages are merged after all imports", fp.where(b))
    got = {x for x in ret_under(fp, asm) if not x.startswith("Err(")}
    rep.add("own/result", bool(got) and all("messages=%s" % CM in x or "messages:%s" % CM in x or "messages=[%s[]" % CM in x or "messages:[%s[]" % CM in x for x in got), "the compiled protocol carries the merged messages", fp.dn, str(got)[:300])
    # nothing removes messages
    for f, nm in ((fa, "import"), (fp, "root")):
        for b in f.v.calls():
            t = f.g.B[b]["t"]
            if last(t["f"]) in ("remove", "clear", "retain", "drain", "remove_entry") and f.argc(b)[:1] == [CM]:
                rep.bad("merge/removal/%s" % nm, "no merged message is dropped", f.where(b), last(t["f"]))
    fi = ctx.fa("compiler::process_decl_items")
    for b in fi.calls("resolve_single_import"):
        rep.add("merge/context", fi.argc(b)[1] == "$CompileContext", "imports are merged into the compilation at hand", fi.where(b), fi.argc(b)[1])


# -- P30 import kinds ---------------------------------------------------------------------------
@rule("P30")
def kinds(ctx, rep):
    fa = rsi(ctx)
    notdone = {"has(%s,%s)" % (READ, RES): False}
    ops = {"Protocol": "import_protocol", "Schema": "import_schema", "Idl": "parse_idl_named"}
    for k, fn in ops.items():
        asm = {"$ImportEntry.kind": k, **notdone}
        ev = fa.calls(fn, arg={0: lambda s: s.startswith(RES) or s.startswith("read_to_string(" + RES)})
        must(rep, "kind/%s" % k, "an import of kind %s is read as such" % k.lower(), fa, ev, assume=asm)
        for k2, fn2 in ops.items():
            if k2 != k:
                never(rep, "kind/%s/not-%s" % (k, k2), "an import of kind %s is read as nothing else" % k.lower(), fa, set(fa.calls(fn2)), assume=asm)
        if k != "Idl":
            for b in ev:
                rep.add("kind/%s/registry" % k, fa.argc(b)[1] == "$CompileContext.registry", "imported types join the compilation's registry", fa.where(b), fa.argc(b)[1])
    asm = {"$ImportEntry.kind": "Idl", **notdone}
    pd = fa.calls("process_decl_items", arg={0: lambda s: s == "parse_idl_named(read_to_string(%s),display(%s)).1" % (RES, RES)})
    must(rep, "kind/Idl/decls", "the declarations of an imported IDL file are processed", fa, pd, assume=asm)


# -- P11 order ----------------------------------------------------------------------------------
@rule("P11")
def order(ctx, rep):
    a = ctx.p.adts["avdl::resolve::SchemaRegistry"]["v"][0]["f"]
    f = [x for x in a if x["n"] == "schemas"]
    tn = ctx.p.tyname(f[0]["t"]) if f else ""
    rep.add("order/map", "IndexMap<" in tn or "Vec<" in tn or "BTreeMap<usize" in tn, "the registry keeps definition order", "src/resolve.rs", tn)
    for c in callers(ctx, lambda n: "indexmap" in n.lower() and last(n) in ("swap_remove", "swap_remove_entry", "sort_keys", "sort_by", "sort_unstable_keys", "sort_by_cached_key", "sort_unstable_by", "move_index", "swap_indices", "shift_insert", "reverse", "insert_before", "insert_sorted", "sort_by_key")):
        rep.bad("order/shuffle/%s" % c[0], "definition order is never rearranged", "%s:%s (%s)" % (c[1], c[2], c[0]), c[3])
    fa = ctx.fa("compiler::process_decl_items")
    its = iterations(fa, "$DeclItem")
    evs = fa.calls("SchemaRegistry::register") + fa.calls("resolve_single_import")
    rep.add("order/decls", len(its) >= 1 and all(not (set(it["names"]) & (SUBSET | {"rev"})) and last(fa.g.B[it["b"]]["t"].get("f", "")) not in ("next_back", "pop") for it in its if it["kind"] == "loop"),
            "declarations and imports are processed in source order", fa.dn, str([it["names"] for it in its]))
    # one pass: a type is never registered before an earlier import or declaration was processed
    bodies = 0
    for it in its:
        somes, _ = _edges(fa, it)
        for s in somes:
            if run(fa, s, {it["b"]}, None, set(evs)) is not None:
                bodies += 1
    rep.add("order/one-pass", bodies == 1, "imports and declarations are processed in one pass, interleaved as written", fa.dn, "%d passes" % bodies)
    fp = ctx.fa("compiler::parse_and_resolve", inline={"schemas", "resolve::SchemaRegistry::schemas"})
    P = "parse_idl_named($str,$str2)"
    got = {x for x in ret_under(fp, {P + ".0": "Protocol"}) if not x.startswith("Err(")}
    want = "$CompileContext.registry.schemas[].1"
    rep.add("order/types", bool(got) and all("types=[%s]" % want in x or "types:[%s]" % want in x for x in got), "a protocol's types are all registered types in registration order", fp.dn, str(got)[:300])
    for it in iterations(fp, "$CompileContext.registry.schemas"):
        rep.add("order/types-iter", not (set(it["names"]) & (SUBSET | {"rev"})), "a protocol's types are all registered types in registration order", fp.where(it["b"]), str(it["names"]))
    from rules.emit import ORDER_BAD, order_ops
    d = "the list of a protocol's types is not rearranged or cut after it was taken from the registry"
    for b, i, fs in fp.builds("IdlFile", "Protocol"):
        t = fp.v.fld(fs["0"], "types")
        ops = order_ops(fp, t)
        rep.add("order/types/kept", not ops, d, fp.where(b), str(ops))
    for fn in ("extract_impl", "extract_directory"):
        fx = ctx.fa("compiler::Idl2Schemata::" + fn)
        for b, i, fs in fx.builds("SchemataOutput"):
            ops = order_ops(fx, fs["schemas"], ORDER_BAD - {"filter", "filter_map"})
            rep.add("order/%s/kept" % fn, not ops, "the list of extracted schemas is not rearranged or cut", fx.where(b), str(ops))
    fe = ctx.fa("compiler::Idl2Schemata::extract_impl", inline={"schemas", "resolve::SchemaRegistry::schemas"})
    REG = "$CompileOutput.registry.schemas"
    its = [it for it in iterations(fe, lambda s: s.startswith(REG)) if not (set(it["names"]) & {"cloned"})]
    builds = fe.builds("NamedSchema")
    rep.add("order/extract", bool(builds) and all(not (set(it["names"]) & (SUBSET - {"filter_map", "filter"} | {"rev"})) for it in its), "extracted schemas come in registration order", fe.dn, str([it["names"] for it in its]))
    fi = ctx.fa("import::flatten_and_register", inline={"flatten_schema"})
    its = iterations(fi, "[]")
    for it in its:
        rep.add("order/hoisted", not (set(it["names"]) & (SUBSET | {"rev"})) and last(fi.g.B[it["b"]]["t"].get("f", "")) not in ("pop", "next_back"), "hoisted types are registered in the order found, inner types first", fi.where(it["b"]), str(it["names"]))
    fj = ctx.fa("import::import_protocol")
    doc = "parse_json_with_comments(read_to_string($Path))"
    for it in iterations(fj, doc + "['types'].arr"):
        rep.add("order/avpr", not (set(it["names"]) & {"rev"}) and last(fj.g.B[it["b"]]["t"].get("f", "")) not in ("pop", "next_back"), "types of an imported protocol are registered in file order", fj.where(it["b"]), str(it["names"]))


def _edges(fa, it):
    from base import _next_edges
    return _next_edges(fa, it["b"]) if it["kind"] == "loop" else ([it["clo"]["body"]], [])
