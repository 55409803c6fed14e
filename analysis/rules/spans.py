"""Diagnostics point at the construct they are about, in the file it is in."""
from rules import rule
from base import *
from rules.errors import analysed

CTX = "$BaseParserRuleContext"
S, E, F = "get_start(start(%s))" % CTX, "get_stop(stop(%s))" % CTX, "get_stop(start(%s))" % CTX
HELP = {"span_from_offsets", "span_from_context", "span", "source_span"}


def arith(s, env):
    """the number a canonical expression stands for, its leaves having the values of env"""
    for k in sorted(env, key=len, reverse=True):
        s = s.replace(k, str(env[k]))
    old = None
    while s != old:
        old = s
        s = re.sub(r"(-?\d+) as [iu]\w+", r"\1", s)
        s = re.sub(r"\((-?\d+) (Add|Sub|Mul)\w* (-?\d+)\)", lambda m: str({"Add": int(m[1]) + int(m[3]), "Sub": int(m[1]) - int(m[3]), "Mul": int(m[1]) * int(m[3])}[m[2]]), s)
        s = re.sub(r"\b(max|min)\((-?\d+),(-?\d+)\)", lambda m: str((max if m[1] == "max" else min)(int(m[2]), int(m[3]))), s)
        s = re.sub(r"\b(?:saturating_sub|wrapping_sub|abs_diff)\((-?\d+),(-?\d+)\)", lambda m: str(max(0, int(m[1]) - int(m[2]))), s)
        s = re.sub(r"\b(?:saturating_add|wrapping_add)\((-?\d+),(-?\d+)\)", lambda m: str(int(m[1]) + int(m[2])), s)
    return int(s) if re.fullmatch(r"-?\d+", s) else None


def extent(fa, b, x, env):
    """the values of the term x at b where the tokens' positions are those of env"""
    cache = {}
    def val(t):
        if t not in cache:
            cache[t] = None
            cache[t] = env.get(fa.c(t)) if t.k in ("call", "param", "fld", "join", "phi", "arg") or t.k not in ("bin", "un", "cast", "const") else None
        return cache[t]
    out = set()
    for s in flat(fa, fa.vals(x, b, assume=concrete(fa, val))):
        out.add(arith(s, env))
    return out


def covers(rep, key, fa, blocks, i, cases):
    """the arguments i and i+1 of the calls are offset and length, as the cases say"""
    for b in blocks:
        b, a = b if isinstance(b, tuple) else (b, fa.v.args(b))
        for nm, env, want in cases:
            got = (extent(fa, b, a[i], env), extent(fa, b, a[i + 1], env))
            rep.add("%s/%s" % (key, nm), got == ({want[0]}, {want[1]}), "a position covers what it is about, from its first to its last character", fa.where(b), "%s gives %s, not %s" % (nm, got, want))
    if not blocks:
        rep.bad(key, "positions are computed from tokens", fa.dn)


def tri(s, e, f, whole):
    """positions of first and last token of a construct"""
    out = []
    for n, (x, y, z) in enumerate(((10, 20, 14), (0, 33, 12), (7, 7, 7), (0, 0, 0))):
        out.append(("whole%d" % n, {s: x, e: y, f: z}, (x, (y if whole else z) - x + 1)))
    out.append(("empty", {s: 10, e: 3, f: 14}, (10, 5)))
    out.append(("none", {s: -1, e: -1, f: -1}, (0, 0)))
    return out


def two(s, e):
    return [("one%d" % n, {s: x, e: y}, (x, y - x + 1)) for n, (x, y) in enumerate(((10, 20), (0, 33), (7, 7), (0, 0)))] + [("back", {s: 10, e: 3}, (10, 1)), ("none", {s: -1, e: -1}, (0, 0))]


@rule("P26")
def extents(ctx, rep):
    for fn, cases in (("make_diagnostic", tri(S, E, F, True)), ("make_diagnostic_from_token", None), ("Warning::annotations_dropped_on_union", tri(S, E, F, True)), ("Warning::non_standard_alias_name", tri(S, E, F, True)), ("Warning::out_of_place_doc_comment", None)):
        seen = False
        for f in ctx.find("reader::" + fn):
            fa = FA(ctx, f, {"span_from_offsets"}, None)
            seen = True
            cs = cases
            if fn == "make_diagnostic_from_token":
                t = [p for p in fa.pname if p not in ("$SourceInfo",)][0]
                cs = two("get_start(%s)" % t, "get_stop(%s)" % t)
            if fn.endswith("doc_comment"):
                # what the caller passes
                ps = [p for p in fa.pname if p.startswith("$isize")]
                cs = two(ps[2], ps[3]) if len(ps) == 4 else None
            if cs is None:
                rep.bad("extent/%s" % fn, "positions are computed from tokens", fa.dn, str(fa.pname))
                continue
            bs = fa.calls("SourceInfo::span")
            if bs:
                covers(rep, "extent/%s" % fn, fa, bs, 1, cs)
            elif fa.calls("SpanWithSource::new"):
                covers(rep, "extent/%s" % fn, fa, fa.calls("SpanWithSource::new"), 0, cs)
            else:
                bl = fa.builds("SpanWithSource", None)
                covers(rep, "extent/%s" % fn, fa, [(b, (fs["offset"], fs["length"])) for b, i, fs in bl], 0, cs)
        if not seen:
            rep.bad("extent/%s" % fn, "positions are computed from tokens", fn)
    for f in ctx.find("reader::collect_orphaned_doc_comment_warnings"):
        fa = FA(ctx, f, set(), None)
        for b in fa.calls("out_of_place_doc_comment"):
            a = fa.argc(b)
            m = re.fullmatch(r"get_line\((.*)\)", a[0])
            x = m and m.group(1)
            rep.add("extent/orphan", bool(x) and [y for y in a if y != "$SourceInfo"] == ["get_line(%s)" % x, "get_column(%s)" % x, "get_start(%s)" % x, "get_stop(%s)" % x], "a stray documentation comment is reported where it is", fa.where(b), str(a)[:300])
    for f in ctx.find("reader::Warning::out_of_place_doc_comment"):
        fa = FA(ctx, f, {"span_from_offsets"}, None)
        ps = [p for p in fa.pname if p.startswith("$isize")]
        for b, i, fs in fa.builds("Warning", None):
            c = fa.c(fs["message"])
            rep.add("extent/orphan/line", "%s,(%s Add 1)" % (ps[0], ps[1]) in c, "the line and column printed are the comment's", fa.where(b), c[:300])
    # what a token or a construct is when only its first token counts
    for f in ctx.find("reader::span_from_context"):
        fa = FA(ctx, f, {"span_from_offsets"}, None)
        for b in [x for x in fa.g.rpo if fa.g.B[x]["t"]["k"] == "return"]:
            r = fa.v.read(fa.g.ret, (), b, 1 << 30)
            for nm, env, want in tri(S, E, F, False):
                if nm == "empty":
                    env = dict(env)
                got = set()
                cache = {}
                def val(t):
                    if t.k in ("bin", "un", "cast", "const"):
                        return None
                    if t not in cache:
                        cache[t] = None
                        cache[t] = env.get(fa.c(t))
                    return cache[t]
                for s in flat(fa, fa.vals(r, b, assume=concrete(fa, val))):
                    if s == "None":
                        got.add(None)
                        continue
                    p = [s + ".0", s + ".1"]
                    if s.startswith("(") and fa._bal(s):
                        p = split_args(s[1:-1])
                    got.add(tuple(arith(x, env) for x in p))
                want2 = None if want == (0, 0) else want
                rep.add("extent/first/%s" % nm, got == {want2}, "the position kept for a declaration is its first token", fa.where(b), "%s not %s" % (got, want2))


def split_args(s):
    out, d, st = [], 0, 0
    q = False
    for i, c in enumerate(s):
        if c == "'":
            q = not q
        if q:
            continue
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == "," and d == 0:
            out.append(s[st:i])
            st = i + 1
    return out + [s[st:]]


# -- name and text belong together ---------------------------------------------------------
def paired(fa, name, text):
    """(what the text must be of, ...) the name and the text of one file"""
    ts = set(fa._split(text)) if text.startswith("{") and fa._bal(text) else {text}
    base = None
    for t in ts:
        m = re.fullmatch(r"(.*)\[RangeTo\{end:.*\}\]", t, re.S)
        t = m.group(1) if m else t
        m = re.fullmatch(r"split(?:_once)?\((.*),('[^']*')\)(?:\.0|\[0?\])", t, re.S)
        t = m.group(1) if m else t
        if base not in (None, t):
            return None
        base = t
    for n, c in ((".name", ".source"), (".source_name", ".source"), (".name", ".content")):
        if name.endswith(n) and base == name[:-len(n)] + c:
            return "kept"
    m = re.fullmatch(r"read_to_string\((.*)\)", base, re.S)
    if m:
        return "file" if name in ("display(%s)" % m.group(1), "display(%s)" % m.group(1), m.group(1)) else None
    if name in fa.pname and base in fa.pname:
        return (fa.pname.index(name), fa.pname.index(base))
    return None


@rule("P26")
def sources(ctx, rep):
    todo, done = [], set()
    n = 0
    allf = analysed(ctx)

    def see(fa, b, name, text, key):
        p = paired(fa, name, text)
        rep.add(key, p is not None, "a position comes with the name and the text of one file", fa.where(b), "%s / %s" % (name[:150], text[:200]))
        if isinstance(p, tuple):
            todo.append((fa.f["dn"].split("::{closure")[0], p))
    for f, fa in allf:
        if f["dn"].endswith(("SpanWithSource::new", "SourceInfo::span")):
            continue
        for b in fa.calls("SpanWithSource::new"):
            a = fa.argc(b)
            n += 1
            see(fa, b, a[2], a[3], "source/new")
        for ad, nm, tx in (("SpanWithSource", "name", "content"), ("SourceInfo", "name", "source"), ("CompileOutput", "source_name", "source")):
            for b, i, fs in fa.builds(ad, None):
                n += 1
                see(fa, b, fa._c(fs[nm]), fa._c(fs[tx]), "source/%s" % ad)
    PUBLIC = ("convert_str_named", "extract_str_named", "convert_str", "extract_str")
    while todo:
        dn, (i, j) = todo.pop()
        if (dn, i, j) in done:
            continue
        done.add((dn, i, j))
        if last(dn) in PUBLIC:
            continue
        for f, fa in allf:
            for b in fa.v.calls():
                t = fa.g.B[b]["t"]
                if t["k"] == "call" and t["f"].split("::<")[0] == dn:
                    a = fa.argc(b)
                    n += 1
                    if last(f["dn"]) in PUBLIC and (a[i].startswith("'") or a[i] in fa.pname) and a[j] in fa.pname:
                        rep.ok("source/given", "the caller names the text", fa.where(b))
                        continue
                    see(fa, b, a[i], a[j], "source/passed")
    rep.add("source/floor", n >= 6, "positions are made (%d)" % n)
    for f in ctx.find("error::SpanWithSource::new"):
        fa = FA(ctx, f, set(), None)
        for b, i, fs in fa.builds("SpanWithSource", None):
            rep.add("source/ctor", [fa._c(fs[x]) for x in ("offset", "length", "name", "content")] == list(fa.pname), "a position holds what it was made from", fa.where(b), str({x: fa._c(y) for x, y in fs.items()}))
    for f in ctx.find("reader::SourceInfo::span"):
        fa = FA(ctx, f, set(), None)
        for b in fa.calls("SpanWithSource::new"):
            rep.add("source/span", fa.argc(b) == ["$usize", "$usize2", "$SourceInfo.name", "$SourceInfo.source"], "a position holds what it was made from", fa.where(b), str(fa.argc(b)))
    # what is lexed is what is shown
    fp = ctx.fa("reader::parse_idl_named")
    texts = {fp.argc(b)[0] for b in fp.calls("InputStream::new")} | {fp.argc(b)[0] for b in fp.calls("new") if "InputStream" in fp.g.B[b]["t"]["f"]}
    for b, i, fs in fp.builds("SourceInfo", None):
        rep.add("source/lexed", {fp._c(fs["source"])} == texts, "positions are positions in the text that was parsed", fp.where(b), str(texts)[:200])
    for b in fp.calls("SpanWithSource::new"):
        rep.add("source/lexed", {fp.argc(b)[3]} == texts, "positions are positions in the text that was parsed", fp.where(b), str(texts)[:200])
        a = fp.argc(b)
        rep.add("source/error", a[0].endswith(".offset") and a[1] == a[0][:-len("offset")] + "length", "a syntax error is shown where it was found", fp.where(b), str(a[:2])[:300])


# -- showing them -----------------------------------------------------------------------------
@rule("P26")
def shown(ctx, rep):
    for ty, fld in (("error::ParseDiagnostic", "$ParseDiagnostic.span"), ("reader::Warning", "$Warning.span")):
        for m in ("source_code", "labels"):
            fs = [f for f in ctx.p.local_fns() if f["dn"] == "<avdl::%s as miette::Diagnostic>::%s" % (ty, m)]
            if not fs:
                rep.bad("shown/%s/%s" % (ty, m), "a diagnostic shows its position", ty)
            for f in fs:
                fa = FA(ctx, f, {"source_span"}, None)
                if m == "source_code":
                    r = rets(fa) - {"None"}
                    rep.add("shown/%s/source" % ty, r == {fld}, "a diagnostic shows an excerpt of the file its position is in", fa.dn, str(r)[:200])
                    if ty.startswith("error"):
                        never(rep, "shown/%s/source/always" % ty, "the excerpt is always there", fa, lambda y, e, fa=fa: fa.flow(()).is_return(y) and rets(fa) == {"None"})
                else:
                    sp = fa.calls("LabeledSpan::new_with_span")
                    rep.add("shown/%s/label" % ty, bool(sp) and all(fa.argc(b)[1] in ("new(%s.offset,%s.length)" % (fld, fld), "source_span(%s)" % fld) for b in sp), "the place underlined is the diagnostic's position", fa.where(sp[0]) if sp else fa.dn, str([fa.argc(b) for b in sp])[:300])
                    r = rets(fa)
                    if ty.startswith("error"):
                        rep.add("shown/%s/label/always" % ty, "None" not in r, "the place is underlined", fa.dn, str(r)[:200])
                    else:
                        r = ret_under(fa, {"$Warning.span": "Some"})
                        rep.add("shown/%s/label/always" % ty, "None" not in r, "the place is underlined", fa.dn, str(r)[:200])
    for f in ctx.find("error::SpanWithSource::source_span"):
        fa = FA(ctx, f, set(), None)
        for b in fa.calls("SourceSpan::new"):
            rep.add("shown/span", fa.argc(b) == ["$SpanWithSource.offset", "$SpanWithSource.length"], "the place underlined is the diagnostic's position", fa.where(b), str(fa.argc(b)))
    fs = [f for f in ctx.p.local_fns() if f["dn"].endswith("SpanWithSource as miette::SourceCode>::read_span")]
    rep.add("shown/read", bool(fs), "excerpts are read from the position's text")
    for f in fs:
        fa = FA(ctx, f, set(), None)
        rd = [b for b in fa.calls("read_span")]
        rep.add("shown/read/text", bool(rd) and all(fa.argc(b) == ["$SpanWithSource.content", "$SourceSpan", "$usize", "$usize2"] for b in rd), "excerpts are read from the position's text", fa.where(rd[0]) if rd else fa.dn, str([fa.argc(b) for b in rd])[:300])
        mk = fa.calls("new_named")
        for b in mk:
            a = fa.argc(b)
            x = [y[len("data("):-1] for y in a[1:2] if y.startswith("data(")]
            rep.add("shown/read/name", a[0] == "$SpanWithSource.name" and bool(x) and a[1:] == ["%s(%s)" % (h, x[0]) for h in ("data", "span", "line", "column", "line_count")], "an excerpt carries the name of its file", fa.where(b), str(a)[:300])
        rep.add("shown/read/named", bool(mk), "an excerpt carries the name of its file", fa.dn)


# -- the construct meant -----------------------------------------------------------------------
def coll_paths(s, root):
    """the collections (of the tree below root) whose elements an expression is about"""
    out = set()
    i = 0
    while True:
        i = s.find(")[", i)
        if i < 0:
            return out
        # balanced text before i
        d, j = 0, i
        while j >= 0:
            if s[j] == ")":
                d += 1
            elif s[j] == "(":
                d -= 1
                if d == 0:
                    break
            j -= 1
        k = j
        while k > 0 and (s[k - 1].isalnum() or s[k - 1] == "_"):
            k -= 1
        x = s[k:i + 1]
        if root in x:
            out.add(x)
        i += 1


def node_paths(s, root):
    """single parts of the tree below root that an expression mentions"""
    out = set(re.findall(re.escape(root) + r"\.(\w+)", s))
    for m in re.finditer(r"(\w+)\(%s\)" % re.escape(root), s):
        out.add(m.group(1))
    return out


@rule("P26")
def places(ctx, rep):
    n = 0
    for f, fa in analysed(ctx):
        if not f["file"].endswith("reader.rs") or last(f["dn"]) in ("make_diagnostic",):
            continue
        for b in fa.calls("make_diagnostic", "make_diagnostic_from_token"):
            n += 1
            a = fa.argc(b)
            root = CTX if CTX in a[1] else "$Rc" if "$Rc" in a[1] else CTX
            rep.add("place/tree", a[0] == "$SourceInfo" and (root in a[1] or a[1] in fa.pname), "an error is reported at a construct of the file being read", fa.where(b), a[1][:200])
            msg = a[2]
            if root not in msg:
                continue
            c, m = coll_paths(a[1], root), coll_paths(msg, root)
            sel = re.search(r"\b(first|last|nth|get|next_back|min_by_key|max_by_key|min_by|max_by)\((?=\w+_all\(|[^()]*\.\w+\b)", a[1])
            rep.add("place/element/chosen", not sel or sel.group(0) + a[1][sel.end():].split(")")[0] in msg, "an error about one element is reported at that element", fa.where(b), a[1][:300])
            rep.add("place/element", not c or bool(c & m), "an error about one element is reported at that element", fa.where(b), "at %s, about %s" % (a[1][:200], sorted(m)[:3]))
            if c:
                # the very element: same index expression or the loop's
                ok = any(x + "[]" in a[1] or x + "[#" in a[1] for x in c & m)
                rep.add("place/element/this", ok, "an error about one element is reported at that element", fa.where(b), a[1][:200])
            else:
                p, q = node_paths(a[1], root), node_paths(msg, root)
                rep.add("place/part", not p or bool(p & q), "an error is reported at the part of the construct it is about", fa.where(b), "at %s, about %s" % (a[1][:200], sorted(q)[:5]))
    rep.add("place/floor", n >= 40, "errors are reported with positions (%d)" % n)


# -- kept until reported ------------------------------------------------------------------------
@rule("P26")
def kept(ctx, rep):
    """declarations keep the position of their own construct"""
    n = 0
    for f, fa in analysed(ctx):
        if not f["file"].endswith("reader.rs"):
            continue
        for b in fa.calls("SourceInfo::span"):
            a = fa.argc(b)
            if not a[1].endswith(".0") and "span_from_context(" not in a[1]:
                continue
            n += 1
            rep.add("kept/pair", [x for x in a[2:3]] == [re.sub(r"\.0(?=\||\}|$)", ".1", a[1])] and a[0] == "$SourceInfo", "offset and length are of the same construct", fa.where(b), "%s / %s" % (a[1][:150], a[2][:150]))
        for b, i, fs in fa.builds("AvroSchema", "Reference"):
            nm = fa._c(fs["name"])
            m = re.search(r"identifier_text\(", nm)
            if not m:
                continue
            x = balanced(nm, m.end() - 1)
            keeps(rep, "kept/reference", "a reference keeps the position of its own name", fa, b, fs["span"], x)
        for b, i, fs in fa.builds("DeclItem", "Type"):
            if "0" not in fs or "1" not in fs:
                continue
            s = fa._c(fs["0"]) + fa._c(fs["2"])
            m = re.search(r"walk_named_schema_no_register\(", s)
            if not m:
                if "walk_" in s:
                    rep.bad("kept/type", "a declaration keeps its own position", fa.where(b), s[:200])
                continue
            x = split_args(balanced(s, m.end() - 1))[0]
            keeps(rep, "kept/type", "a declaration keeps its own position", fa, b, fs["1"], x)
        for b, i, fs in fa.builds("ImportEntry", None):
            m = re.search(r"get_text\((.*?)\.location\)", fa._c(fs["path"]))
            if m:
                keeps(rep, "kept/import", "an import keeps its own position", fa, b, fs["span"], m.group(1))
    rep.add("kept/floor", n >= 5, "positions of declarations are kept (%d)" % n)
    for dn in ("model::schema::AvroSchema::with_merged_properties",):
        for f in ctx.find(dn):
            fa = FA(ctx, f, set(), None)
            for b, i, fs in fa.builds("AvroSchema", "Reference"):
                rep.add("kept/merged", fa._c(fs["span"]) == "$AvroSchema.Reference.span", "annotating a reference keeps its position", fa.where(b), fa._c(fs["span"])[:200])
    # the positions kept for the fields of a record
    fr = ctx.fa("reader::walk_record")
    ins = [b for b in fr.calls("insert") if len(fr.argc(b)) == 3 and "SourceInfo" in fr.argc(b)[2] and fr.argc(b)[2].startswith("span(")]
    rep.add("kept/fields", len(ins) >= 1, "a record keeps the positions of its fields", fr.dn)
    foreach(rep, "kept/fields/all", "a record keeps the position of every field that has one", fr, lambda s: s.startswith(("variableDeclaration_all(", "zip(", "walk_field_declaration(")), ins,
            excuse=lambda at: any("span_from_context(" in s and x == "None" for s, x in at), round_only=True)
    for b in ins:
        k, v = fr.argc(b)[1], fr.argc(b)[2]
        ck, cv = coll_paths(k, CTX), coll_paths(v, CTX)
        rep.add("kept/field", bool(ck & cv), "a field's position is that of the field", fr.where(b), "%s / %s" % (k[:150], v[:200]))
        vs = [x for x in cv if "variableDeclaration_all(" in x]
        rep.add("kept/field/variable", any("," + x.split("(")[0] in k or x in k or "variableDeclaration_all" in x for x in vs), "a field's position is that of its own variable", fr.where(b), "%s / %s" % (k[:150], v[:200]))


def balanced(s, i):
    """what is between the bracket at i and its partner"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in "([{":
            d += 1
        elif s[j] in ")]}":
            d -= 1
            if d == 0:
                return s[i + 1:j]
    return ""


def keeps(rep, key, desc, fa, b, t, x):
    """t is the position of x, whenever x has one"""
    sp = "span_from_context(%s)" % x
    want = "span($SourceInfo,%s.0,%s.1)" % (sp, sp)
    got = flat(fa, fa.vals(t, b, assume={sp: "Some"}))
    rep.add(key, got == {want}, desc, fa.where(b), "%s, not that of %s" % (sorted(got)[:2], x[:200]))


def imported(fa, s, b, t, msg):
    """the position s is that of an import whose file mentions the name the message is about"""
    m = re.search(r"(\$\w+\[\])\.\w+", s)
    ks = set()
    for x in fa.calls("contains", "contains_key"):
        a = fa.argc(x)
        if (m is None or a[0].startswith(m.group(1))) and a[1] in msg:
            ks |= {"contains(%s,%s)" % tuple(a[:2]), "has(%s,%s)" % tuple(a[:2])}
    if not ks:
        return False
    got = flat(fa, fa.vals(t, b, assume={k: False for k in ks}))
    return not any(x == s or m and m.group(1) in x for x in got)


@rule("P26")
def reported(ctx, rep):
    """what is reported about a declaration is reported at its position"""
    n = ni = 0
    for f, fa in analysed(ctx, "compiler.rs", True):
        for b, i, fs in fa.builds("ParseDiagnostic", None):
            n += 1
            sp, msg = fa._c(fs["span"]), fa._c(fs["message"])
            al = set(fa._split(sp)) if sp.startswith("{") and fa._bal(sp) else {sp}
            for s in sorted(al):
                if s.startswith("$DeclItem[]"):
                    ok = "$DeclItem[]" in msg
                elif s.startswith("$ImportEntry"):
                    ok = "$ImportEntry" in msg
                elif s.startswith("new("):
                    ok = True           # checked by sources
                elif imported(fa, s, b, fs["span"], msg):
                    ok = True
                elif s == "$Option":
                    ok = True           # checked below
                elif s.endswith("[].1") or s.endswith("[0].1"):
                    ok = s[:-1] + "0" in msg
                else:
                    ok = imported(fa, s, b, fs["span"], msg)
                rep.add("reported/own", ok, "an error about a declaration, reference or import is reported at its own position", fa.where(b), "%s / %s" % (s[:200], msg[:200]))
            fv = [s for s in al if s.startswith("$DeclItem[].Type.2[")]
            for s in fv:
                k = s[len("$DeclItem[].Type.2["):-1]
                rep.add("reported/field", k in msg, "an error about a field is reported at that field", fa.where(b), "%s / %s" % (k[:200], msg[:300]))
                got = flat(fa, fa.vals(fs["span"], b, assume={s: "Some"}))
                rep.add("reported/field/first", got == {s}, "a field's own position is preferred", fa.where(b), str(sorted(got))[:300])
            if al & {"$DeclItem[].Type.1"} and "validate_record_field_defaults" in msg:
                rep.add("reported/field/known", bool(fv), "an error about a field is reported at that field", fa.where(b), sp[:200])
        for b in fa.calls("push"):
            a = fa.argc(b)
            if len(a) != 2 or "$ImportEntry.span" not in a[1] or "validate_schema(" not in a[1] and "display(" not in a[1]:
                continue
            x = split_args(a[1][1:-1]) if a[1].startswith("(") else [a[1]]
            ni += 1
            rep.add("reported/import/names", any("validate_schema($CompileContext.registry," in y for y in x) and "$ImportEntry.span" in x and any("display(" in y and "resolve_import(" in y for y in x), "what an imported file leaves undefined is kept with the import", fa.where(b), a[1][:300])
        for b in fa.calls("wrap_import_error"):
            a = fa.argc(b)
            rep.add("reported/import", a[1] == "$ImportEntry.span" and "$ImportEntry.path" in a[0], "an import that fails is reported at the import", fa.where(b), str([x[:100] for x in a]))
    rep.add("reported/import/floor", ni >= 2, "what imported JSON files leave undefined is kept (%d)" % ni)
    rep.add("reported/floor", n >= 8, "errors are reported with positions (%d)" % n)
