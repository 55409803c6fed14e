"""Syntax errors, documentation comments and warnings: nothing malformed is accepted, nothing is lost."""
from rules import rule
from base import *
from rules.parse import on, num, tokens, CMP
from rules.defaults import closure_answers, closure_variants

ROOT = "reader::parse_idl_named"
SUB = "'\\x1a'"


def unwrapped(t):
    """the thing behind borrows, clones and in-place changes"""
    n = 0
    while n < 60:
        n += 1
        if t.k == "mut":
            t = t.a[-1]
        elif t.k == "upd":
            t = t.a[0]
        elif t.k == "call" and len(t.a) > 2 and last(t.a[0]) in ("deref", "deref_mut", "borrow", "borrow_mut", "clone", "as_ref", "as_mut", "by_ref", "as_slice", "as_deref", "unwrap", "expect", "get_mut", "get_ref"):
            t = t.a[2]
        else:
            return t
    return t


def inner(t):
    """all the terms on the way to it"""
    out = [t]
    n = 0
    while n < 60:
        n += 1
        if t.k == "mut":
            t = t.a[-1]
        elif t.k == "upd":
            t = t.a[0]
        elif t.k == "call" and len(t.a) > 2 and last(t.a[0]) in ("deref", "deref_mut", "borrow", "borrow_mut", "clone", "as_ref", "as_mut", "by_ref", "as_slice", "get_mut", "get_ref"):
            t = t.a[2]
        else:
            break
        out.append(t)
    return out


def sized(fa, E, n, base=None):
    """the list E holds n elements"""
    inn = fa._mkassume(base) if base is not None else None

    def size(t):
        if t.k == "const" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
            return t.a[0]
        if t.k == "cast":
            return size(t.a[3])
        if t.k == "len" and E in inner(t.a[0]):
            return n
        if t.k == "call" and len(t.a) > 2 and last(t.a[0]) in ("len", "count"):
            x = t.a[2]
            if x.k == "call" and len(x.a) > 2 and last(x.a[0]) in ("iter", "into_iter"):
                x = x.a[2]
            if E in inner(x):
                return n
        return None

    def f(t, adt=None):
        if inn is not None:
            r = inn(t, adt)
            if r is not None:
                return r
        if t.k == "call" and len(t.a) > 2:
            l = last(t.a[0])
            if l == "is_empty" and E in inner(t.a[2]):
                return n == 0
            if l in ("first", "last", "first_mut", "last_mut", "split_first", "split_last", "pop") and E in inner(t.a[2]):
                return "Some" if n > 0 else "None"
            if l == "get" and len(t.a) > 3 and E in inner(t.a[2]) and size(t.a[3]) is not None:
                return "Some" if size(t.a[3]) < n else "None"
            if l == "next":
                x = t.a[2]
                m = 0
                while m < 9 and x.k in ("mut", "call") and x is not E:
                    m += 1
                    if x.k == "call" and len(x.a) > 2 and last(x.a[0]) in ("iter", "into_iter", "drain"):
                        return ("Some" if n > 0 else "None") if E in inner(x.a[2]) else None
                    x = x.a[-1] if x.k == "mut" else x.a[2] if len(x.a) > 2 else x
                return None
            if l in ("is_some", "is_none") and adt is None:
                r = f(t.a[2], "std::option::Option")
                return None if r not in ("Some", "None") else (r == "Some") == (l == "is_some")
        if adt is None and t.k == "bin" and t.a[0] in CMP:
            x, y = size(t.a[1]), size(t.a[2])
            if x is not None and y is not None:
                return CMP[t.a[0]](x, y)
        return None
    return RawAssume(f)


def entry(ctx):
    return sorted({c[0] for c in callers(ctx, lambda n: last(n) == "idlFile")})


def setup(ctx, fn):
    """(fa, block of the parse, the list its listener fills, the list the lexer's listener fills, the text read)"""
    f0 = ctx.fa(fn)
    pb = f0.calls("idlFile")
    out = {"f0": f0, "parse": pb, "perr": [], "lerr": [], "in": [f0.v.args(b)[0] for b in f0.calls("<&'a Data>::new", "InputStream::new") if "Data" in f0.g.B[b]["t"]["f"] or "InputStream" in f0.g.B[b]["t"]["f"]]}
    if not pb:
        return out
    P = unwrapped(f0.v.args(pb[0])[0])
    out["P"] = P
    for b in f0.calls("add_error_listener"):
        recv, lst = f0.v.args(b)[:2]
        E = unwrapped(lst.a[3 + list(lst.a[2]).index("errors")]) if lst.k == "agg" and "errors" in lst.a[2] else None
        out["perr" if unwrapped(recv) is P else "lerr"].append((b, E))
    return out


TOUCH = ("borrow_mut", "take", "replace", "replace_with", "swap", "get_mut", "make_mut", "clear", "retain", "pop", "drain", "truncate", "remove", "swap_remove")


@rule("P16")
def parse_errors(ctx, rep):
    fns = entry(ctx)
    rep.add("parse/sites", len(fns) >= 1, "the functions that run the parser: %s" % fns)
    for fn in fns:
        s = setup(ctx, fn)
        fa = s["f0"]
        rep.add("parse/one", len(s["parse"]) == 1, "the parser is run once", fa.dn, str(len(s["parse"])))
        if not s["parse"]:
            continue
        pb = s["parse"][0]
        adds = [b for b, E in s["perr"] if E is not None]
        lists = {E for b, E in s["perr"] if E is not None}
        rep.add("listener/list", len(lists) == 1, "the parser's errors are collected in one list", fa.where(pb), str(len(lists)))
        must(rep, "listener/installed", "syntax errors are collected while parsing", fa, adds, target={pb})
        rem = [b for b in fa.calls("remove_error_listeners", "remove_error_listener") if unwrapped(fa.v.args(b)[0]) is s.get("P")]
        for a in adds:
            never(rep, "listener/kept", "the listener stays installed until the input is parsed", fa, set(rem), start=a, avoid={pb})
        err_fatal(rep, "parse/failed", "an input the parser gives up on is rejected", fa, s["parse"])
        for E in lists:
            for b in fa.calls(*TOUCH):
                ar = fa.v.args(b)
                rep.add("errors/untouched", not (ar and E in inner(ar[0])), "collected errors are not taken away", fa.where(b), fa.g.B[b]["t"]["f"]) if ar and E in inner(ar[0]) else None
            for n in (1, 2, 3, 10):
                never(rep, "errors/%d" % n, "an input with syntax errors is rejected, however many there are", fa, None, start=pb, assume=sized(fa, E, n))
            rep.add("errors/none", run(fa, pb, assume=sized(fa, E, 0)) is not None, "an input without syntax errors is not rejected outright", fa.where(pb))


@rule("P16")
def listener(ctx, rep):
    ls = sorted({f["dn"] for f in ctx.p.local_fns() if last(f["dn"]) == "syntax_error" and not is_gen(f)})
    rep.add("listener/impl", len(ls) >= 1, "error listeners: %s" % [last(x) for x in ls])
    for dn in ls:
        for f in ctx.find(dn):
            fa = FA(ctx, f, set(), None)
            p = fa.calls("push", arg={0: lambda s: s.endswith(".errors")})
            must(rep, "listener/records", "every error reported while parsing is recorded", fa, p, target="return")


@rule("P16")
def end_of_file(ctx, rep):
    for fn in entry(ctx):
        fa = ctx.fa(fn)
        src = fa.pname[0]
        fd = fa.calls("find", "split_once", "split", "splitn", "split_terminator", "position", "rfind", "rsplit_once", "rsplit", "char_indices", "chars", "match_indices", arg={0: lambda s: s == src})
        rep.add("eof/sought", any(SUB in [x.replace("'\x1a'", SUB) for x in fa.argc(b)[1:]] for b in fd), "the end-of-file character is looked for", fa.dn, str([fa.argc(b)[1:] for b in fd])[:200])
        ins = [b for b in fa.g.rpo if fa.g.B[b]["t"]["k"] == "call" and "InputStream" in fa.g.B[b]["t"]["f"]]
        rep.add("eof/read", len(ins) >= 1, "the text is given to the lexer", fa.dn)
        for b in ins:
            t = fa.v.args(b)[0]
            for l in ("find", "split_once"):
                k = "%s(%s,'')" % (l, src)
                if not [x for x in fa.calls(l) if fa.argc(x)[0] == src]:
                    continue
                F = outcome(fa, [x for x in fa.calls(l) if fa.argc(x)[0] == src][0])
                some = flat(fa, fa.vals(t, b, assume={F: "Some"}))
                none = flat(fa, fa.vals(t, b, assume={F: "None"}))
                cut = {"%s[RangeTo{end:%s[]}]" % (src, src), F + ".0"}
                either = "%s[RangeTo{end:{%s[]|len(%s)}}]" % (src, src, src)
                if some | none == {either}:
                    # up to the character, or to the end of the text where there is none
                    rep.ok("eof/cut", "what follows the end-of-file character is not read", fa.where(b))
                    break
                rep.add("eof/cut", bool(some) and some <= cut, "what follows the end-of-file character is not read", fa.where(b), str(sorted(some))[:200])
                rep.add("eof/whole", none == {src}, "without one the whole text is read", fa.where(b), str(sorted(none))[:200])
                break
            else:
                got = flat(fa, {fa._c(t)})
                rep.add("eof/cut", bool(got) and all(x.startswith("next(split") or x.startswith("split") for x in got), "what follows the end-of-file character is not read", fa.where(b), str(sorted(got))[:200])


@rule("P16")
def lexer_errors(ctx, rep):
    for fn in entry(ctx):
        s = setup(ctx, fn)
        lists = {E for b, E in s["lerr"] if E is not None}
        rep.add("lexer/list", len(lists) == 1, "characters the lexer does not know are collected", s["f0"].dn, str(len(lists)))
        if len(lists) != 1 or len(s["in"]) != 1:
            continue
        fa = FA(ctx, ctx.find(fn)[0], set(), None)
        (E,) = lists
        fa._cm[E], fa._cm[s["in"][0]] = "@LEX", "@IN"
        must(rep, "lexer/installed", "characters the lexer does not know are collected while parsing", fa, [b for b, E2 in s["lerr"]], target=set(s["parse"]))
        for b in fa.calls(*TOUCH):
            ar = fa.v.args(b)
            if ar and E in inner(ar[0]):
                rep.bad("lexer/untouched", "collected errors are not taken away", fa.where(b), fa.g.B[b]["t"]["f"])
        want = "Warning{message:@LEX[].message,span:new(@LEX[].offset,@LEX[].length,%s,@IN)}" % fa.pname[1]
        ev = [b for b, i, f in fa.builds("Warning")]
        foreach(rep, "lexer/each", "each of them is reported", fa, "@LEX", ev)
        raw = s["f0"]._c(s["in"][0])
        alts = [raw] + (fa._split(raw) if raw.startswith("{") and fa._bal(raw) else [])

        def norm(x):
            for a in alts:
                x = x.replace("%s,%s)" % (fa.pname[1], a), "%s,@IN)" % fa.pname[1])
            return x
        ok = [norm(x) for x in ret_under(fa) if not x.startswith("Err(")]
        for x in ok:
            c = fa._commas(x[1:-1]) or []
            w = flat(fa, {c[2]}) if len(c) == 3 else set()
            rep.add("lexer/returned", bool(w) and all(want in y for y in w), "the reports reach the caller, with the place they are about", fa.dn, str(sorted(w))[:400])
        rep.add("lexer/some", bool(ok), "a successful parse returns the warnings", fa.dn)


@rule("P16")
def json(ctx, rep):
    n = 0
    for fn in ("import::import_protocol", "import::import_schema"):
        fa = ctx.fa(fn, inline={"parse_json_with_comments"})
        ps = [b for b in fa.g.rpo if fa.g.B[b]["t"]["k"] == "call" and "serde_json" in fa.g.B[b]["t"]["f"] and last(fa.g.B[b]["t"]["f"]) in ("from_reader", "from_str", "from_slice")]
        n += len(ps)
        rep.add("json/parsed/%s" % last(fn), len(ps) == 1, "the file is parsed as one JSON value", fa.dn, str(len(ps)))
        err_fatal(rep, "json/malformed/%s" % last(fn), "a file that is not well-formed JSON is rejected", fa, ps)
        for b in ps:
            a = fa.argc(b)[0]
            rep.add("json/text/%s" % last(fn), "strip_comments(" in a and "c_style" in a and "read_to_string($Path)" in a, "the whole file is parsed, comments aside", fa.where(b), a[:200])
    other = callers(ctx, lambda x: "serde_json" in x and last(x) in ("into_iter", "end", "from_deserializer", "Deserializer::from_str") or x.startswith("serde_json::Deserializer"))
    rep.add("json/whole", not other, "nothing is left unread at the end of a JSON file", "", str(other)[:200])


# -- documentation comments ---------------------------------------------------------------------
EXTRACT = "doc_comments::extract_doc_comment"
COLLECT = "reader::collect_orphaned_doc_comment_warnings"


def kinds(fa, k, rest=True):
    """every token looked at is of kind k"""
    def f(t, adt=None):
        if adt is not None or t.k != "bin" or t.a[0] not in CMP:
            return None

        def n(x):
            if x.k == "const" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool):
                return x.a[0]
            if x.k == "cast":
                return n(x.a[3])
            if x.k == "call" and last(x.a[0]) == "get_token_type":
                return k
            return None
        a, b = n(t.a[1]), n(t.a[2])
        if a is not None and b is not None:
            return CMP[t.a[0]](a, b)
        return None
    return f


@rule("P23")
def orphans(ctx, rep):
    tk = tokens(ctx)
    fa = ctx.fa(COLLECT)
    ts, used = fa.pname[0], fa.pname[1]
    ev = fa.calls("out_of_place_doc_comment") + [b for b, i, f in fa.builds("Warning")]
    rng = lambda s: s == "size(%s)" % ts or s == "Range{end:size(%s),start:0}" % ts
    its = iterations(fa, rng)
    rep.add("orphan/all", bool(its) and all(not set(it["names"]) & SUBSET - {"filter", "filter_map"} for it in its), "all tokens of the file are looked at", fa.dn, str([it["names"] for it in its]))
    push = fa.calls("push", "push_within_capacity", "extend") or ev
    refused = {}
    for it in its:
        el = "Range{end:size(%s),start:0}[]" % ts
        seen = lambda v: {"contains(%s,%s)" % (used, el): v, "has(%s,%s)" % (used, el): v}
        base = fa._mkassume(seen(False))
        k = kinds(fa, tk["DocComment"])
        asm = RawAssume(lambda t, adt=None: k(t, adt) if k(t, adt) is not None else base(t, adt))
        if it["kind"] == "loop":
            somes, nones = _next(fa, it["b"])
            for x in somes:
                r = run(fa, x, set(push), None, lambda b, e: b == it["b"] or fa.flow().is_return(b), asm)
                rep.add("orphan/reported", r is None, "a documentation comment nothing took is reported", fa.where(it["b"]), path_text(fa, r) if r else "")
                for v, kk, what in ((True, tk["DocComment"], "a documentation comment that was taken is not reported"), (False, tk["DocComment"] + 7, "nothing else is reported")):
                    b2, k2 = fa._mkassume(seen(v)), kinds(fa, kk)
                    r = run(fa, x, {it["b"]}, None, set(ev), RawAssume(lambda t, adt=None: k2(t, adt) if k2(t, adt) is not None else b2(t, adt)))
                    rep.add("orphan/only", r is None, what, fa.where(it["b"]), path_text(fa, r) if r else "")
        else:
            c = it["clo"]
            says = lambda asm: closure_answers(fa, it, asm) if it["how"] == "filter" else {{"Some": True, "None": False}.get(x) for x in closure_variants(fa, it, asm)}
            what = it["how"]
            if what in ("filter", "filter_map"):
                rep.add("orphan/reported", says(asm) == {True}, "a documentation comment nothing took is reported", fa.where(it["b"]), str(says(asm)))
            elif what not in ("map", "enumerate"):
                rep.add("orphan/reported", run(fa, c["body"], set(push), None, {c["end"]}, asm) is None, "a documentation comment nothing took is reported", fa.where(it["b"]))
            for v, kk, txt in ((True, tk["DocComment"], "a documentation comment that was taken is not reported"), (False, tk["DocComment"] + 7, "nothing else is reported")):
                b2, k2 = fa._mkassume(seen(v)), kinds(fa, kk)
                asm2 = RawAssume(lambda t, adt=None: k2(t, adt) if k2(t, adt) is not None else b2(t, adt))
                if what in ("filter", "filter_map"):
                    ok = says(asm2) == {False}
                elif what == "map":
                    ok = True
                else:
                    ok = run(fa, c["body"], {c["end"]}, None, set(ev), asm2) is None
                refused.setdefault(txt, []).append((ok, what, fa.where(it["b"])))
    for txt, l in refused.items():
        fs = [ok for ok, what, _ in l if what in ("filter", "filter_map")]
        rep.add("orphan/only", any(fs) if fs else all(ok for ok, _, _ in l), txt, l[0][2])
    for b in fa.calls("out_of_place_doc_comment"):
        a = fa.argc(b)
        toks = {x[x.index("("):] for x in a if x.startswith("get_")}
        rep.add("orphan/place", len(toks) == 1 and [x.split("(")[0] for x in a if x.startswith("get_")] == ["get_line", "get_column", "get_start", "get_stop"], "the report is about that comment", fa.where(b), str(a)[:300])
    got = rets(fa)
    rep.add("orphan/result", bool(got) and all("out_of_place_doc_comment" in x or "Warning{" in x for x in got), "the reports are returned", fa.dn, str(got)[:200])
    fo = ctx.fa("reader::Warning::out_of_place_doc_comment", inline={"span_from_offsets"})
    L, C, S0, S1 = fo.pname[0], fo.pname[1], fo.pname[3], fo.pname[4]
    for b in fo.calls("span") + fo.calls("SpanWithSource::new"):
        for (x, y), o, n in (((4, 9), None, None),):
            asm = on(fo, {}, {S0: x, S1: y})
            off, ln = [flat(fo, fo.vals(t, b, assume=asm)) for t in fo.v.args(b)[1:3]]
            rep.add("orphan/span", off == {"%s as usize" % S0} and ln == {"((%s Sub %s) Add 1) as usize" % (S1, S0)}, "the whole comment is marked", fo.where(b), "%s %s" % (off, ln))
    r = rets(fo)
    rep.add("orphan/line", bool(r) and all("%s,(%s Add 1))" % (L, C) in x for x in r), "line and column of the comment are reported, counted from one", fo.dn, str(r)[:300])


def _next(fa, nb):
    from base import _next_edges
    return _next_edges(fa, nb)


@rule("P23")
def extraction(ctx, rep):
    tk = tokens(ctx)
    for f in ctx.find(EXTRACT):
        fa = FA(ctx, f, set(), None)
        ts, ix, used = fa.pname[:3]
        gets = fa.calls("get", arg={0: lambda s: s == ts})
        rep.add("doc/looks", bool(gets), "the tokens before a declaration are looked at", fa.dn)
        for b in gets:
            got = flat(fa, {fa.argc(b)[1]})
            rep.add("doc/back", got <= {"(%s Sub 1)" % ix, "(\u03bc Sub 1)", "Range{end:%s,start:0}[]" % ix} and bool(got & {"(%s Sub 1)" % ix, "Range{end:%s,start:0}[]" % ix}), "one after the other, from the one right before it", fa.where(b), str(got))
            again = run(fa, succs(fa, b)[0], (), None, lambda y, e: y == b, None) is not None if succs(fa, b) else False
            rep.add("doc/moves", not again or bool(got & {"(\u03bc Sub 1)", "Range{end:%s,start:0}[]" % ix}), "the search moves on with every token it skips", fa.where(b), str(got))
        WS = [tk["WS"], tk["EmptyComment"]]
        for b in gets:
            nx = [y for y in succs(fa, b)]
            for name, k in sorted(tk.items()):
                if name in ("DocComment", "WS", "EmptyComment") or not isinstance(k, int):
                    continue
                asm = RawAssume(kinds(fa, k))
                for y in nx:
                    r = run(fa, y, set(), None, set(gets), asm)
                    rep.add("doc/stops", r is None, "the search stops at the first token that is neither white space nor an empty comment", fa.where(b), "%s: %s" % (name, path_text(fa, r)) if r else "")
                    ins = set(fa.calls("insert"))
                    r = run(fa, y, set(), None, ins, asm)
                    rep.add("doc/only", r is None, "only documentation comments are taken", fa.where(b), "%s: %s" % (name, path_text(fa, r)) if r else "")
            ge0 = lambda t, adt=None: (True if adt is None and t.k == "bin" and ((t.a[0] == "Ge" and fa._c(t.a[2]) == "0") or (t.a[0] == "Le" and fa._c(t.a[1]) == "0") or (t.a[0] == "Gt" and fa._c(t.a[2]) == "-1")) else None)
            for k in WS:
                kk = kinds(fa, k)
                asm = RawAssume(lambda t, adt=None: kk(t, adt) if kk(t, adt) is not None else ge0(t, adt))
                for y in nx:
                    r = run(fa, y, set(gets), None, lambda x, e: fa.flow().is_return(x), asm)
                    stop = [z for z in iterations(fa, lambda s: "Range{" in s)]
                    rep.add("doc/skips", r is None or bool(stop), "white space and empty comments are skipped", fa.where(b), path_text(fa, r) if r else "")
        # what is returned was taken
        ins = fa.calls("insert", arg={0: lambda s: s == used})
        dt = RawAssume(_and(kinds(fa, tk["DocComment"]), fa._mkassume({used: "Some"})))
        for b in gets:
            for y in succs(fa, b):
                r = run(fa, y, set(ins), None, lambda x, e: fa.flow().is_return(x), dt)
                rep.add("doc/taken", r is None, "a documentation comment that is found counts as taken", fa.where(b), path_text(fa, r) if r else "")
        gi = {fa.argc(b)[1] for b in gets}
        for b in ins:
            got = flat(fa, fa.vals(fa.v.args(b)[1], b, assume=dt)) - {"None"}
            rep.add("doc/which", bool(got) and got <= set().union(*[flat(fa, {x}) for x in gi]), "the one that counts as taken is the one found", fa.where(b), str(got))
        txt = [x for x in rets(fa) if x != "None"]
        tok = "get_text(%s[" % ts
        rep.add("doc/text", bool(txt) and all(tok in x for x in txt), "the documentation is the text of the comment found", fa.dn, str(txt)[:300])
        # an empty comment documents nothing, any other something
        em = [b for b in fa.calls("is_empty")]
        rep.add("doc/empty", len(em) >= 1, "a comment without text is no documentation", fa.dn)
        blank = {}
        for b in em:
            if tok in fa.argc(b)[0]:
                blank["empty(%s)" % fa.argc(b)[0]] = True
        if blank:
            got = set()
            for b in gets:
                for y in succs(fa, b):
                    got |= ret_under(fa, blank, y)
            rep.add("doc/blank", got <= {"None"}, "a comment without text is no documentation", fa.dn, str(got)[:200])
    fx = [FA(ctx, f, set(), None) for f in ctx.find("reader::extract_doc_from_context")]
    rep.add("doc/context", len(fx) >= 1, "the parser asks for documentation", "src/reader.rs", str(len(fx)))
    for fa in fx:
        cs = fa.calls("extract_doc_comment")
        must(rep, "doc/context/calls", "documentation is looked for before the first token of a declaration", fa, cs, target="return")
        for b in cs:
            a = fa.argc(b)
            rep.add("doc/context/args", "get_token_index(start(%s))" % fa.pname[0] == a[1] and a[2].endswith(".consumed_doc_indices"), "the search begins at the first token of the declaration, and what it takes is remembered", fa.where(b), str(a)[:200])
        rep.add("doc/context/result", rets(fa) == {outcome(fa, b) for b in cs}, "what is found is the documentation", fa.dn, str(rets(fa))[:200])
    mut = field_mutators(ctx, "SourceInfo", "consumed_doc_indices")
    only_in(rep, "taken/only", "comments count as taken only when a declaration takes them", mut, {"extract_doc_from_context"}, floor=0)
    for g in ctx.p.local_fns():
        if is_gen(g):
            continue
        nm = top(g["dn"])
        if last(nm) in ("extract_doc_from_context", "parse_idl_named"):
            continue
    bm = [(c[0], c[1], c[2], c[3]) for c in callers(ctx, lambda n: last(n) == "extract_doc_comment")]
    only_in(rep, "taken/via", "comments are taken only through the function that remembers it", bm, {"extract_doc_from_context"})


def _and(*fs):
    def f(t, adt=None):
        for g in fs:
            r = g(t, adt)
            if r is not None:
                return r
        return None
    return f


def succs(fa, b):
    t = fa.g.B[b]["t"]
    x = t.get("t")
    return [x] if isinstance(x, int) else list(x or [])


@rule("P23")
def reported(ctx, rep):
    for fn in entry(ctx):
        s = setup(ctx, fn)
        fa = s["f0"]
        cs = fa.calls("collect_orphaned_doc_comment_warnings")
        must(rep, "reported/always", "after parsing, the documentation comments nothing took are looked for", fa, cs)
        walk = fa.calls("walk_idl_file")
        for b in cs:
            r = run(fa, b, target=set(walk))
            rep.add("reported/after", r is None, "and only once everything was read", fa.where(b))
            a, w = fa.v.args(b), [fa.v.args(x) for x in walk]
            si = [unwrapped(x) for x in a if fa._c(x).startswith("SourceInfo{")]
            rep.add("reported/same", bool(si) and all(si[0] is unwrapped(y[2]) for y in w), "against what the declarations of this file took", fa.where(b))
            field = [x for x in a if fa._c(x) == "new([])"]
            agg = si[0] if si else None
            if agg is not None and agg.k == "agg":
                cons = unwrapped(agg.a[3 + list(agg.a[2]).index("consumed_doc_indices")])
                rep.add("reported/taken", any(cons in inner(x) for x in a), "the comments declarations took are those recorded while reading", fa.where(b))
            for x in [x for x in ret_under(fa) if not x.startswith("Err(")]:
                c = fa._commas(x[1:-1]) or []
                ws = flat(fa, {c[2]}) if len(c) == 3 else set()
                rep.add("reported/returned", bool(ws) and all("collect_orphaned_doc_comment_warnings(" in y for y in ws), "they reach the caller as warnings", fa.where(b), str(ws)[:200])
