"""Failures: none is passed over."""
from rules import rule
from base import *
from base import _next_edges

# Error types of tests rather than failures: a conversion of a value or a question about it.
TESTS = ("std::fmt::Error", "std::num::TryFromIntError", "std::num::ParseIntError", "std::num::ParseFloatError", "std::rc::Rc<", "std::sync::Arc<", "serde_json::Value", "regex::Error", "miette::MietteError",
         "avdl::model::schema::ParsePrimitiveTypeError", "std::char::CharTryFromError", "std::char::ParseCharError", "std::str::ParseBoolError", "()", "never", "std::convert::Infallible", "usize", "&")
PASS = ("from_residual", "branch", "from_output")
# Iterator methods that hand every element on, or stop with the first failure.
KEEP = {"next", "try_for_each", "try_fold", "map", "inspect", "by_ref", "peekable", "enumerate", "into_iter", "size_hint", "sum", "product", "for_each", "fold", "rev", "fuse", "partition", "chain", "cloned", "copied",
        "zip", "scan", "step_by_", "next_back", "try_collect"}


def errty(ty):
    i = ty.index("<") + 1
    d, at = 0, i
    for j in range(i, len(ty) - 1):
        ch = ty[j]
        d += ch in "<([{"
        d -= ch in ")]}" or ch == ">" and ty[j - 1] != "-"
        if ch == "," and d == 0:
            at = j + 1
    return ty[at:-1].strip()


def result_of(ty):
    """the error type of a Result that matters"""
    if not ty.startswith(("std::result::Result<", "Result<")):
        return None
    e = errty(ty)
    return None if e.startswith(TESTS) else e


def _called(ctx):
    out = set()
    for f in ctx.p.fns:
        for b in f.get("bb", ()):
            t = b["t"]
            if t["k"] == "call" and 0 <= t["i"] < len(ctx.p.fns):
                out.add(ctx.p.fns[t["i"]]["dn"])
    return out


def analysed(ctx, only="", firsts=False):
    """(function, analysis) for all hand-written functions and the closures not analysed with them"""
    called = _called(ctx)
    seen = set()
    out = []
    for clo in (False, True):
        for f in ctx.p.local_fns():
            if is_gen(f) or not f["file"].endswith(only) or ("{closure" in f["dn"]) != clo or clo and f["dn"] in seen:
                continue
            if not clo and f["dn"] not in ctx.vocab and f["dn"] in called:
                continue        # a helper analysed where it is called
            fa = FA(ctx, f, set(), None)
            fa.v.firsts = firsts
            for b in fa.g.rpo:
                w = fa.where(b)
                seen.add("avdl::" + w[w.find("(") + 1:-1])
            out.append((f, fa))
    return out


def _excuse(fa, b, O):
    """the failures that may be passed over"""
    l = last(fa.g.B[b]["t"]["f"])
    if l in ("write", "write_all", "write_fmt", "flush") and fa.argc(b) and fa.argc(b)[0].startswith(("stdout(", "lock(stdout(")):
        return lambda at: any(O in s and (s.startswith("eq(") and "BrokenPipe" in s and v is True or s.startswith("kind(") and v == "BrokenPipe") for s, v in at), "a reader that closed the pipe is not a failure"
    return None, ""


def _canonical(fa, b):
    """The path of the input is replaced by its canonical form, if it has one."""
    t = fa.g.B[b]["t"]
    return last(t["f"]) == "canonicalize" and fa.dn.endswith("IdlCompiler::compile_file")


def _number(fa, b):
    """A number always has a JSON form."""
    t = fa.g.B[b]["t"]
    if last(t["f"]) not in ("to_value", "to_string"):
        return False
    return all(ctx_ty in ("i32", "i64", "u32", "u64", "bool") for ctx_ty in [fa.ctx.p.tyname(x) for x in t.get("ga", ())][:1])


def _question(fa, b):
    """A function that only says whether a name is a primitive type: its failure is an answer, as that of the test it makes is."""
    dn = fa.g.B[b]["t"]["f"]
    fs = [f for f in fa.ctx.p.local_fns() if f["dn"] == dn]
    if not fs:
        return False
    tests = 0
    for x in fs[0]["bb"]:
        t = x["t"]
        if t["k"] == "call":
            ty = fa.ctx.p.tyname(fs[0]["lt"][t["d"]["l"]])
            if ty.startswith(("std::result::Result<", "Result<")) and last(t["f"]) not in ("map", "map_err"):
                if result_of(ty) or tests:
                    return False
                if "ParsePrimitiveTypeError" not in ty:
                    return False
                tests += 1
        for s in x.get("s", ()):
            if "'Err'" in repr(s):
                return False
    return tests == 1


@rule("P25")
def fatal(ctx, rep):
    """every failing call fails its caller"""
    n = 0
    for f, fa in analysed(ctx):
        short_dn = f["dn"].replace("avdl::", "")
        for b in fa.g.rpo:
            t = fa.g.B[b]["t"]
            if t["k"] != "call" or last(t["f"]) in PASS:
                continue
            ty = ctx.p.tyname(fa.g._optype(("p",) + tuple(t["d"])))
            starts = [b]
            if ty.startswith("std::option::Option<std::result::Result<"):
                E, O = result_of(ty[len("std::option::Option<"):-1]), outcome(fa, b)
                if E and last(t["f"]) in ("next", "next_back", "pop", "pop_front"):
                    O = fa.argc(b)[0] + "[]"
                    starts = _next_edges(fa, b)[0] or starts
                asm = {O: "Err"}
            else:
                E, O = result_of(ty), outcome(fa, b)
                asm = {O: "Err"}
            if not E:
                continue
            if _canonical(fa, b) or _number(fa, b) or _question(fa, b):
                continue
            n += 1
            asm.update(err_collected(fa, b, asm))
            exc, why = _excuse(fa, b, O)
            r = next((r for r in (run(fa, x, (), exc, None, asm) for x in starts) if r is not None), None)
            rep.add("fatal/%s/%s" % (short_dn, last(t["f"])), r is None, "a failure here is the failure of the whole function" + (": " + why if why else ""), fa.where(b), path_text(fa, r, asm) if r else "")
    if n < 100:
        rep.bad("fatal/floor", "calls that can fail are found", "", "only %d" % n)


@rule("P25")
def elements(ctx, rep):
    """a sequence with failures among its elements is gone through so that the first one counts"""
    n = 0
    for f in ctx.p.local_fns():
        if is_gen(f):
            continue
        for i, b in enumerate(f["bb"]):
            t = b["t"]
            if t["k"] != "call":
                continue
            where = "%s:%s (%s)" % (f["file"], t["ln"], f["dn"].replace("avdl::", "", 1))
            l = last(t["f"])
            if t.get("it", -1) >= 0:
                ty = ctx.p.tyname(t["it"])
                if not ty.startswith("std::option::Option<") or not result_of(ty[len("std::option::Option<"):-1]):
                    continue
                n += 1
                if l in ("collect", "from_iter", "sum", "product"):
                    to = ctx.p.tyname(f["lt"][t["d"]["l"]])
                    rep.add("elements/%s" % l, "Result<" in to, "what is collected from elements that can be failures fails as well", where, to[:120])
                else:
                    rep.add("elements/%s" % l, l in KEEP, "no failure among the elements is left out", where, t["f"])
            elif l in ("into_iter", "extend", "iter", "iter_mut", "from_iter", "chain", "zip"):
                for a in t["a"]:
                    if a.get("o") in ("move", "copy"):
                        ty = ctx.p.tyname(f["lt"][a["p"]["l"]]).lstrip("&")
                        if not a["p"].get("p") and result_of(ty):
                            rep.bad("elements/result", "a failure is not treated as an empty sequence", where, "%s of %s" % (t["f"], ty[:100]))
    if n < 4:
        rep.bad("elements/floor", "sequences of results are found", "", "only %d" % n)


# what is read, and as what: function -> (call, index of the text) and the text expected
TEXTS = (
    ("compiler::IdlCompiler::compile_file", "compile", 1, lambda a: a == "read_to_string($Path)"),
    ("compiler::IdlCompiler::compile_str", "compile", 1, lambda a: a == "$str"),
    ("compiler::IdlCompiler::compile", "parse_and_resolve", 0, lambda a: a == "$str"),
    ("compiler::parse_and_resolve", "parse_idl_named", 0, lambda a: a == "$str"),
    ("compiler::Idl::convert_str", "compile_str", 1, lambda a: a == "$str"),
    ("compiler::Idl::convert_str_named", "compile_str", 1, lambda a: a == "$str"),
    ("compiler::Idl2Schemata::extract_str", "compile_str", 1, lambda a: a == "$str"),
    ("compiler::Idl2Schemata::extract_str_named", "compile_str", 1, lambda a: a == "$str"),
    ("compiler::resolve_single_import", "parse_idl_named", 0, lambda a: a.startswith("read_to_string(resolve_import(") and a.endswith(",$ImportEntry.path,$Path))")),
    ("import::import_protocol", "parse_json_with_comments", 0, lambda a: a == "read_to_string($Path)"),
    ("import::import_schema", "parse_json_with_comments", 0, lambda a: a == "read_to_string($Path)"),
)


@rule("P16")
def texts(ctx, rep):
    """what is parsed is exactly what was given or read, which must be UTF-8"""
    inl = {"convert_str_named", "extract_str_named", "import::read_*"}
    for fn, call, i, ok in TEXTS:
        fa = ctx.fa(fn, inline={last(x) for x in inl} - {fn.rsplit("::", 1)[-1]})
        bl = fa.calls(call)
        rep.add("text/%s" % fn, len(bl) >= 1, "the text is parsed", fa.dn)
        for b in bl:
            a = fa.argc(b)
            rep.add("text/%s/whole" % fn, len(a) > i and ok(a[i]), "what is parsed is exactly the text given", fa.where(b), a[i][:200] if len(a) > i else "")
    fa = ctx.fa("run_idl")
    for b in fa.calls("convert_str_named", "convert_str"):
        x = fa.v.args(b)[1]
        n = 0
        while x.k in ("mut", "ref", "cast", "fld") and n < 20:
            if x.k == "mut":
                f = last(str(x.a[0]))
                if f == "read_to_string":
                    break
                x = x.a[-1] if f in ("as_str", "as_mut_str", "leak") else x.a[-1] if f.startswith("as_") else x
                if f not in ("as_str", "as_mut_str", "leak"):
                    break
            else:
                x = x.a[0]
            n += 1
        good = x.k == "mut" and last(str(x.a[0])) == "read_to_string" or x.k == "call" and last(x.a[0]) in ("read_to_string",)
        rep.add("text/run_idl/stdin", good, "what is parsed is exactly what standard input holds", fa.where(b), fa._c(x)[:200])
