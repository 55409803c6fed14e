"""Warnings: every one is passed on, none is left over from an earlier compilation."""
from rules import rule
from base import *
from base import _next_edges
from rules.parse import on
from rules.defaults import closure_answers
from rules.diag import succs, setup, entry, unwrapped

GROW = ("append", "extend", "extend_from_slice", "push", "insert", "extend_one", "push_back", "splice")
THRU = ("into_iter", "iter", "collect", "from_iter", "drain", "map", "cloned", "copied", "clone", "to_vec", "into_inner", "borrow", "borrow_mut", "deref", "deref_mut", "as_slice", "rev", "peekable",
        "inspect", "chain", "to_owned", "into_boxed_slice", "into_vec", "by_ref", "as_mut", "as_ref", "fuse", "unwrap_or_default")
FRESH = ("new", "default", "with_capacity", "clear", "from_elem")


class Contents:
    """What a list is made of: a set of labels, given by label(term) for the lists it can draw on;
    '?' for anything not understood.  `twice` holds the labels put in more than once."""

    def __init__(self, fa, label, fl=None, env=None):
        self.fa, self.label, self.fl, self.env, self.twice = fa, label, fl, env, set()

    def of(self, t, seen=()):
        if self.fl is not None:
            t = self.fl.rs(t, self.env)
        if t in seen:
            return frozenset()
        seen = seen + (t,)
        l = self.label(t)
        if l is not None:
            return frozenset([l]) if isinstance(l, str) else frozenset(l)
        k, a = t.k, t.a
        if k in ("phi", "join"):
            out = frozenset()
            for o in (self.fa.v.ops(t) if k == "phi" else a):
                if o.k in ("undef", "bot"):
                    continue
                out |= self.of(o, seen)
            return out
        if k == "arr":
            return frozenset() if not a else frozenset().union(*[self.elem(x, seen) for x in a])
        if k == "const":
            return frozenset() if a[0] == ("seq", ()) or a[0] in ((), "") else frozenset("?")
        if k == "mut":
            f = last(str(a[0]))
            old = a[-1]
            if f in ("clear", "take") or f == "append" and a[2] == 1 or f == "drain" and self.fa._c(self.arg(t, 1)) == "RangeFull":
                return frozenset()
            if f == "replace":
                return self.of(self.arg(t, 1), seen)
            if f in ("drain", "sort", "sort_by", "sort_by_key", "reserve", "shrink_to_fit", "iter_mut", "as_mut_slice", "borrow_mut", "deref_mut", "iter", "reverse", "get_mut", "next", "for_each", "collect", "into_iter", "from_iter", "count") or f == "extend" and a[2] == 1:
                return self.of(old, seen)
            if f == "elemstore" and getattr(a[1], "k", "") == "mut" and last(str(a[1].a[0])) in ("collect", "into_iter", "from_iter", "count"):
                return self.of(old, seen)
            if f in GROW:
                arg = self.arg(t, 1)
                more = self.elem(arg, seen) if f in ("push", "insert", "extend_one", "push_back") else self.of(arg, seen)
                base = self.of(old, seen)
                self.twice |= {x for x in more & base if not x.startswith("*")}
                return base | more
            return frozenset("?")
        if k == "call":
            f = last(a[0])
            if f in ("take", "replace") and "mem" in a[0]:
                return self.of(a[2], seen)
            if f in FRESH and len(a) <= 3 and ("Vec" in a[0] or "Default" in a[0] or "default" in a[0]):
                return frozenset()
            if f in THRU and len(a) > 2:
                out = self.of(a[2], seen)
                return out | self.of(a[3], seen) if f == "chain" else out
            return frozenset("?")
        if k == "elem":
            return self.of(a[0], seen)
        if k == "fld" and a[0].k in ("phi", "join"):
            out = frozenset()
            for o in (self.fa.v.ops(a[0]) if a[0].k == "phi" else a[0].a):
                if o.k not in ("undef", "bot"):
                    out |= self.of(self.fa.v.fld(o, a[1]), seen)
            return out
        if k in ("fld", "ref", "agg", "cast"):
            s = self.fa._c(t)
            if s in ("[]", "Default", "default()"):
                return frozenset()
            if k == "fld" and a[1] in ("Some.0", "Ok.0"):
                return self.of(a[0], seen)
        return frozenset("?")

    def elem(self, t, seen):
        """what list t is an element of"""
        for x in self.fa.v.leaves(t):
            if x.k == "elem":
                return self.of(x.a[0], seen)
        return self.of(t, seen)

    def arg(self, t, i):
        b = self.fa.site2b.get(t.a[1]) if t.a[1] in self.fa.site2b else t.a[3]
        return self.fa.v.args(b)[i]


def whole(fa, t):
    """No adaptor on the way leaves elements out."""
    return all(not set(n) & SUBSET for n, s, b in adaptor_bases(fa, t))


def returns(fa, asm, watch=()):
    """(block, env) of every way out under asm."""
    g = fa.g
    ends = {b for b in g.rpo if g.B[b]["t"]["k"] == "return"}
    return [(b, e) for b, e, _ in run(fa, None, (), None, ends, asm, watch, find_all=True)]


API = ["compiler::Idl::convert", "compiler::Idl::convert_str", "compiler::Idl::convert_str_named",
       "compiler::Idl2Schemata::extract", "compiler::Idl2Schemata::extract_str", "compiler::Idl2Schemata::extract_str_named"]
INL = {"compiler::IdlCompiler::*", "convert_impl", "extract_impl", "convert_str", "convert_str_named", "extract_str", "extract_str_named", "extract_directory", "drain_warnings"}
PW, VW = "parse_and_resolve", "validate_all_references"


def _label(fa):
    def label(t):
        if t.k == "fld" and t.a[1] == "warnings" and t.a[0].k == "mut" and last(str(t.a[0].a[0])) == PW:
            return "found"
        if t.k == "fld" and t.a[1] == "accumulated_warnings":
            return "old"
        return None
    return label


def _acc(fa, path=("inner", "accumulated_warnings")):
    me = fa.g.argl[0]
    for b in fa.g.rpo:
        if fa.g.B[b]["t"]["k"] == "return":
            return fa.v.read(("D", me, ()), path, b, 1 << 30), fa.v.read(fa.g.ret, (), b, 1 << 30)
    return None, None


def ends(fa, asm, label, avoid=(), via=None):
    """{(outcome, what the builder still holds, what the result holds, what is held twice)} of
    every way out (that goes through block via)."""
    acc, res = _acc(fa)
    g = fa.g
    rb = {b for b in g.rpo if g.B[b]["t"]["k"] == "return"}
    fl = fa.flow([acc, res], asm)
    out = set()

    def tgt(b, e):
        if b not in rb:
            return False
        r = fl.rs(res, e)
        c = Contents(fa, label, fl, e)
        a = c.of(acc)
        v = fl.variant(r) or fl._fact(r, e, "std::result::Result") or "?"
        w = c.of(fa.v.fld(fa.v.fld(r, "Ok.0"), "warnings")) if v != "Err" else frozenset()
        out.add((v, a, w, frozenset(c.twice)))
        return False
    if via is None:
        list(fl.run(g.entry, avoid=set(avoid), target=tgt, find_all=True))
        return out
    for b, e, _ in list(fl.run(g.entry, avoid=set(avoid), target=lambda b, e: b == via, find_all=True)):
        list(fl.run(b, env=e, target=tgt, find_all=True))
    return out


def show(rs):
    return "; ".join("%s: builder %s result %s%s" % (v, sorted(a), sorted(w), " twice %s" % sorted(d) if d else "") for v, a, w, d in sorted(rs, key=str))[:400]


ALL, NO = frozenset(["found"]), frozenset()


@rule("P24")
def kept(ctx, rep):
    for fn in API:
        fa = ctx.fa(fn, inline=INL)
        label = _label(fa)
        pc = fa.calls(PW)
        nm = fn.split("::", 1)[1]
        isd = {}
        for b in fa.calls("is_dir", "is_file"):
            isd[outcome(fa, b)] = last(fa.g.B[b]["t"]["f"]) == "is_file"
        pc = [b for b in pc if run(fa, None, (), None, {b}, isd) is not None]
        rep.add("kept/%s" % nm, len(pc) == 1, "the input is compiled", fa.dn, str(len(pc)))
        for b in pc:
            F = outcome(fa, b)
            d = dict(isd)
            pre = ends(fa, d, label, avoid={b})
            rep.add("stale/%s/unread" % nm, bool(pre) and all(a == NO and v == "Err" for v, a, w, t in pre), "when the input cannot be read no earlier warnings are left over", fa.dn, show(pre))
            d[F] = "Err"
            r = ends(fa, d, label, via=b)
            rep.add("kept/%s/unparsed" % nm, bool(r) and all((v, a, t) == ("Err", ALL, NO) for v, a, w, t in r), "when a file fails to compile the warnings found until then can be asked for", fa.where(b), show(r))
            d[F] = "Ok"
            vc = [x for x in fa.calls(VW) if run(fa, b, (), None, {x}, d) is not None]
            rep.add("kept/%s/validated" % nm, len(vc) == 1, "references are validated", fa.dn)
            for x in vc:
                V = outcome(fa, x)
                d[V] = "Err"
                r = ends(fa, d, label, via=b)
                rep.add("kept/%s/unresolved" % nm, bool(r) and all((v, a, t) == ("Err", ALL, NO) for v, a, w, t in r), "when a reference cannot be resolved the warnings can be asked for", fa.where(x), show(r))
                d[V] = "Ok"
                for kind in ("Protocol", "Schema", "NamedSchemas"):
                    d[F + ".0"] = kind
                    r = ends(fa, d, label, via=b)
                    if kind == "NamedSchemas" and "Idl2Schemata" not in fn:
                        ok = all((v, a, t) == ("Err", ALL, NO) for v, a, w, t in r)
                    else:
                        ok = all(v == "Ok" and w == ALL and a == NO and t == NO for v, a, w, t in r)
                    rep.add("kept/%s/%s" % (nm, kind), bool(r) and ok, "a successful compilation returns all its warnings, a refused document leaves them to be asked for", fa.where(x), show(r))


@rule("P24")
def drained(ctx, rep):
    """asking for the warnings hands them all over, once"""
    for fn in ("compiler::Idl::drain_warnings", "compiler::Idl2Schemata::drain_warnings"):
        fa = ctx.fa(fn, inline=INL)
        label = _label(fa)
        acc, res = _acc(fa)
        c = Contents(fa, label)
        rep.add("drain/%s/all" % fn, c.of(res) == {"old"} and whole(fa, res), "all warnings kept are handed over", fa.dn, fa._c(res)[:200])
        rep.add("drain/%s/once" % fn, c.of(acc) == NO, "warnings handed over are not handed over again", fa.dn, fa._c(acc)[:200])


@rule("P24")
def directory(ctx, rep):
    fa = ctx.fa("compiler::Idl2Schemata::extract_directory")
    cf = fa.calls("compile_file")
    rep.add("dir/compile", len(cf) == 1, "each file is compiled", fa.dn)

    def label(t):
        if t.k == "fld" and t.a[1] == "accumulated_warnings":
            return "failed" if t.a[0].k == "mut" and last(str(t.a[0].a[0])) == "compile_file" else "old"
        s = fa._c(t)
        if t.k == "fld" and t.a[1] == "warnings" and s.startswith(("extract_impl(compile_file(", "compile_file(")):
            return "done"
        return None
    for b in cf:
        F = outcome(fa, b)
        r = ends(fa, {F: "Err"}, label, via=b)
        rep.add("dir/failed", bool(r) and all(v == "Err" and a == {"done", "failed"} and t == NO for v, a, w, t in r), "a file that fails leaves its own warnings and those of the files before it", fa.where(b), show(r))
        r = ends(fa, {F: "Ok"}, label, via=b)
        oks = {x for x in r if x[0] == "Ok"}
        rep.add("dir/done", bool(oks) and all(w == {"done"} and t == NO for v, a, w, t in oks), "the warnings of every file are returned", fa.where(b), show(r))
        pre = ends(fa, {}, label, avoid={b})
        rep.add("dir/stale", bool(pre) and all(a == NO and w <= {"done"} for v, a, w, t in pre), "no earlier warnings are left over", fa.dn, show(pre))
        ex = [x for x in fa.calls(*GROW) if Contents(fa, label).of(fa.v.args(x)[-1]) == {"done"}]
        for y in succs(fa, b):
            must(rep, "dir/each", "the warnings of each file are added", fa, ex, assume={F: "Ok"}, start=y, target=lambda x, e: x == b or fa.g.B[x]["t"]["k"] == "return")
        for x in ex:
            rep.add("dir/whole", whole(fa, fa.v.args(x)[-1]), "all warnings of a file are added", fa.where(x), fa.argc(x)[-1][:200])


def handed_on(rep, key, desc, fa, src, dst, start, assume=None, target=None):
    """Everything in list src is put into list dst on every way from `start` to target (any way out),
    and only once."""
    stop = target or (lambda b, e: fa.g.B[b]["t"]["k"] == "return")
    label = lambda t: "found" if fa._c(t) == src else "old" if fa._c(t) == dst else None
    bulk, single = [], []
    for b in fa.calls(*GROW):
        a = fa.v.args(b)
        if len(a) < 2 or not {"old"} <= Contents(fa, label).of(a[0]) <= {"old", "found"}:
            continue
        l = last(fa.g.B[b]["t"]["f"])
        c = Contents(fa, label)
        if l in ("push", "insert", "push_back"):
            if c.elem(a[-1], ()) == {"found"}:
                single.append(b)
        elif "found" in c.of(a[1]):
            bulk.append(b)
    good = [b for b in bulk if whole(fa, fa.v.args(b)[1])]
    if bulk:
        rep.add(key + "/whole", good == bulk, desc, fa.where(bulk[0]), fa.argc(bulk[0])[1][:200])
        for x in start:
            must(rep, key, desc, fa, good, assume=assume, start=x, target=stop)
    else:
        for x in start:
            foreach(rep, key, desc, fa, src, single, assume=assume, start=x, target=stop)
    rep.add(key + "/some", bool(bulk or single), desc, fa.dn)
    for b in bulk + single:
        for x in succs(fa, b):
            loops = {it["b"] for it in iterations(fa, src) if it["kind"] == "loop"} | {it["clo"]["end"] for it in iterations(fa, src) if it["kind"] == "clo"}
            r = run(fa, x, loops if b in single else (), None, set(bulk + single), assume)
            if r is not None and b in bulk and r[0] == b and not any(y in fa.g.preds[b] for y in ()):
                continue                       # the next file
            rep.add(key + "/once", r is None, "no warning is reported twice", fa.where(b), path_text(fa, r) if r else "")


@rule("P24")
def gathered(ctx, rep):
    for fn, what in (("compiler::parse_and_resolve", "file"), ("compiler::resolve_single_import", "import")):
        fa = ctx.fa(fn)
        pb = fa.calls("parse_idl_named")
        rep.add("%s/parse" % what, len(pb) == 1, "the source is parsed", fa.dn)
        for b in pb:
            F = outcome(fa, b)
            handed_on(rep, "%s/warnings" % what, "every warning about a file that was parsed is kept, whatever happens next", fa, F + ".2", "$CompileContext.warnings", succs(fa, b), assume={F: "Ok"})


@rule("P24")
def parsed(ctx, rep):
    for fn in entry(ctx):
        s = setup(ctx, fn)
        fa = s["f0"]
        lists = {E for b, E in s["lerr"] if E is not None}
        own = {unwrapped(f["warnings"]) for b, i, f in fa.builds("SourceInfo")}
        rep.add("parsed/lists", len(lists) == 1 and len(own) == 1, "one list of lexer errors and one of warnings", fa.dn, "%d %d" % (len(lists), len(own)))

        def label(t):
            u = unwrapped(t)
            if u in lists:
                return "lexer"
            if u in own:
                return "walk"
            if t.k == "call" and last(t.a[0]) == "collect_orphaned_doc_comment_warnings":
                return "docs"
            return None
        _, res = _acc(fa)
        fl = fa.flow([res])
        got = set()

        def tgt(b, e):
            if fa.g.B[b]["t"]["k"] == "return":
                r = fl.rs(res, e)
                if (fl.variant(r) or fl._fact(r, e, "std::result::Result")) != "Err":
                    c = Contents(fa, label, fl, e)
                    w = fa.v.fld(fa.v.fld(r, "Ok.0"), "2")
                    got.add((c.of(w), frozenset(c.twice), whole(fa, w)))
            return False
        list(fl.run(fa.g.entry, target=tgt, find_all=True))
        rep.add("parsed/all", bool(got) and all(c == {"lexer", "walk", "docs"} and not t for c, t, _ in got), "a file's own warnings are those of the lexer, of its declarations and of its comments", fa.dn, str([(sorted(c), sorted(t)) for c, t, _ in got]))
        for b in fa.calls(*GROW):
            a = fa.v.args(b)
            if len(a) > 1 and Contents(fa, label).of(a[1]) & {"lexer", "walk", "docs"}:
                rep.add("parsed/whole", whole(fa, a[1]), "none of them is left out", fa.where(b), fa.argc(b)[1][:200])
        for b in fa.calls("collect"):
            a = fa.v.args(b)
            if Contents(fa, label).of(a[0]) & {"lexer", "walk", "docs"}:
                rep.add("parsed/whole", whole(fa, a[0]), "none of them is left out", fa.where(b), fa.argc(b)[0][:200])


@rule("P24")
def raised(ctx, rep):
    """every warning made is added to the list of the file it is about"""
    makers = sorted({f["dn"].replace("avdl::", "") for f in ctx.p.local_fns() if not is_gen(f) and "{closure" not in f["dn"] and ctx.p.tyname(f["lt"][0]).split("::")[-1] == "Warning"})
    rep.add("raised/makers", len(makers) >= 3, "functions that make a warning: %s" % [last(m) for m in makers])
    for fn, fl, ln, callee in callers(ctx, lambda n: n.replace("avdl::", "") in makers):
        fa = ctx.fa(fn)
        for b in fa.calls(last(callee)):
            t = fa.v.callval(fa.g.B[b]["t"], b)
            push = [x for x in fa.calls("push", "insert", "push_back") if any(y is t for y in fa.v.leaves(fa.v.args(x)[-1]))]
            own = [x for x in push if fa.argc(x)[0].endswith("SourceInfo.warnings")]
            ret = any(fa._c(t) in fa._c(r) for bb, r in _rets(fa))
            if ret and not own:
                rep.ok("raised/%s" % last(callee), "the warning is part of what is returned", fa.where(b))
            else:
                for x in succs(fa, b):
                    must(rep, "raised/%s" % last(callee), "the warning is added to the list of its file", fa, own, start=x, target="return")


def _rets(fa):
    return [(b, fa.v.read(fa.g.ret, (), b, 1 << 30)) for b in fa.g.rpo if fa.g.B[b]["t"]["k"] == "return"]


@rule("P24")
def owned(ctx, rep):
    """lists of warnings only ever grow, until they are handed over"""
    allowed = {("CompileContext", "warnings"): {"parse_and_resolve", "resolve_single_import", "compile", "new"},
               ("IdlCompiler", "accumulated_warnings"): {"compile", "compile_file", "compile_str", "drain_warnings", "convert_impl", "extract_directory", "new"}}
    for (adt, f), al in allowed.items():
        only_in(rep, "owned/%s" % adt, "warnings are not touched elsewhere", field_mutators(ctx, adt, f), al)
    for f in ctx.p.local_fns():
        if is_gen(f) or "{closure" in f["dn"]:
            continue
        if not any(t["k"] == "call" and last(t["f"]) in ("borrow_mut", "take", "replace", "swap", "replace_with", "get_mut", "into_inner") and "RefCell" in t["f"] for t in (b["t"] for b in f["bb"])):
            continue
        fa = ctx.fa(f["dn"].replace("avdl::", ""))
        for b in fa.calls("take", "replace", "swap", "replace_with", "get_mut", "clear", "truncate", "retain", "pop", "remove", "drain", "swap_remove", "dedup", "dedup_by", "dedup_by_key", "split_off", "resize", "set_len"):
            a = fa.argc(b)
            if a and ("SourceInfo.warnings" in a[0]):
                rep.bad("owned/untouched", "warnings of a file are not taken away", fa.where(b), fa.g.B[b]["t"]["f"])
    rep.ok("owned/scan", "no function takes warnings away")


def stderr_prints(fa, what):
    """Blocks that print something matching `what` to standard error."""
    out = []
    for b in fa.calls("_eprint", "write_fmt", "write_all", "write"):
        a = fa.argc(b)
        l = last(fa.g.B[b]["t"]["f"])
        if l != "_eprint" and not (a and a[0].startswith(("stderr", "lock(stderr"))):
            continue
        if any(what(x) for x in a):
            out.append(b)
    return out


@rule("P24")
def printed(ctx, rep):
    for fn, comp in (("run_idl", ("Idl::convert", "Idl::convert_str_named", "Idl::convert_str")), ("run_idl2schemata", ("Idl2Schemata::extract", "Idl2Schemata::extract_str_named", "Idl2Schemata::extract_str"))):
        fa = ctx.fa(fn)
        cb = fa.calls(*comp)
        rep.add("printed/%s" % fn, len(cb) >= 1, "the command compiles its input", fa.dn)
        for b in cb:
            F = outcome(fa, b)
            okc = lambda s: F + ".warnings" in s and s.endswith((".warnings", ".warnings}"))
            erc = lambda s: s.startswith("drain_warnings(")
            for nm, coll, v, txt in (("ok", okc, "Ok", "all warnings are printed when compilation succeeds"), ("err", erc, "Err", "all warnings are printed when compilation fails")):
                ev = stderr_prints(fa, lambda s: any(coll(x[:-2]) for x in _mentioned(fa, s)))
                for x in succs(fa, b):
                    foreach(rep, "printed/%s/%s" % (fn, nm), txt, fa, coll, ev, assume={F: v}, start=x, target=lambda y, e: fa.g.B[y]["t"]["k"] == "return")
        for b in fa.calls("_print"):
            rep.add("printed/%s/stdout" % fn, not any("warnings" in x for x in fa.argc(b)), "warnings do not go to standard output", fa.where(b), str(fa.argc(b))[:200])


def _mentioned(fa, s):
    """what is formatted in the printed s"""
    out, i = [], 0
    for h in ("new_debug(", "new_display("):
        i = s.find(h)
        while i >= 0:
            d, j = 0, i + len(h)
            while j < len(s) and (d or s[j] != ")"):
                d += {"(": 1, ")": -1, "[": 1, "]": -1, "{": 1, "}": -1}.get(s[j], 0)
                j += 1
            out.append(s[i + len(h):j])
            i = s.find(h, i + 1)
    return out


@rule("P24")
def dropped(ctx, rep):
    """what is dropped or out of the ordinary is warned about, and nothing else"""
    fa = ctx.fa("reader::walk_full_type")
    w = fa.calls("annotations_dropped_on_union")
    sch = [b for b in fa.calls("walk_plain_type")]
    prop = [b for b in fa.calls("walk_schema_properties")]
    rep.add("dropped/parts", len(sch) == 1 and len(prop) == 1, "a type and its annotations are read", fa.dn)
    if len(sch) == 1 and len(prop) == 1:
        S, P = outcome(fa, sch[0]), outcome(fa, prop[0])
        un, em = "is_non_nullable_union(%s)" % S, "empty(%s.properties)" % P
        rep.add("dropped/names", bool(w) and all(P + ".properties" in fa.argc(b)[0] for b in w), "the warning names the annotations dropped", fa.dn, str([fa.argc(b)[0][:200] for b in w]))
        base = {"is_type_reference(%s)" % S: False}
        must(rep, "dropped/warned", "annotations that a union cannot carry are warned about", fa, w, assume=dict(base, **{un: True, em: False}))
        never(rep, "dropped/union", "annotations on other types are not reported as dropped", fa, set(w), assume={un: False})
        never(rep, "dropped/none", "a union without annotations is not reported", fa, set(w), assume={em: True})
    fn = ctx.fa("reader::is_non_nullable_union")
    x = fn.pname[0]
    for v, n, want in (("Union", False, "True"), ("Union", True, "False"), ("Record", None, "False"), ("Reference", None, "False"), ("Array", None, "False")):
        d = {x: v}
        if n is not None:
            d[x + ".Union.is_nullable_type"] = n
            d[x + ".is_nullable_type"] = n
        got = ret_under(fn, on(fn, d, {"len(%s.Union.types)" % x: 2, "len(%s.types)" % x: 2}))
        rep.add("dropped/which/%s" % v, got == {want}, "only a union written as a union cannot carry annotations", fn.dn, str(got))
    fp = ctx.fa("reader::walk_schema_properties")
    w = fp.calls("non_standard_alias_name")
    vb = fp.calls("is_valid_avro_name", arg={0: lambda s: s.startswith("split(") and s.endswith(".arr[].str,'.')[]")})
    rep.add("alias/checked", bool(vb) and bool(w), "each part of an alias is looked at", fp.dn)
    for it in iterations(fp, lambda s: s.startswith("split(") and s.endswith(".arr[].str,'.')")):
        rep.add("alias/every-part", not set(it["names"]) & SUBSET, "every part of an alias is looked at", fp.where(it["b"]), str(it["names"]))
    put = set(fp.calls("push", arg={1: lambda s: s.endswith(".arr[].str")}))
    for b in vb:
        V = outcome(fp, b)
        srch = [it for it in iterations(fp, lambda s: s.startswith("split(") and s.endswith(".arr[].str,'.')")) if it["kind"] == "clo" and it["how"] in ("all", "any")]
        for it in srch:
            says = closure_answers(fp, it, {V: False})
            rep.add("alias/test", says == {it["how"] == "any"} and not set(it["names"]) & SUBSET, "every part of an alias must be an Avro name", fp.where(it["b"]), str(says))
            must(rep, "alias/warned", "an alias that is not an Avro name is warned about", fp, w, start=it["b"],
                 assume={outcome(fp, it["b"]): it["how"] == "any"}, target=lambda y, e: y in put or fp.g.B[y]["t"]["k"] == "return")
        if not srch:
            must(rep, "alias/warned", "an alias that is not an Avro name is warned about", fp, w, start=b, assume={V: False}, target=lambda y, e: y in put or fp.g.B[y]["t"]["k"] == "return")
        never(rep, "alias/fine", "an ordinary alias is not warned about", fp, set(w), assume={V: True})
    for b in w:
        rep.add("alias/names", fp.argc(b)[0].endswith(".arr[].str"), "the warning names that alias", fp.where(b), fp.argc(b)[0][:200])
