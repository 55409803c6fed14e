"""Documentation: the text of the comment, less its decoration."""
import regular
from rules import rule
from base import *
from base import _next_edges
from rules.attrs import num_
from rules.diag import EXTRACT, succs

NL, H = r"\r?\n", r"[\t ]*"
PLAIN = r"[^\r\n]*"


def starred(k):
    s = r"\*" * k
    return r"^%s%s(?:%s%s%s%s|%s%s)*$" % (s, PLAIN, NL, H, s, PLAIN, NL, H)


def marks(k):
    return r"(?:^|(%s)%s)%s[\t ]?" % (NL, H, r"\*" * k)


INDENTED = r"\n[\t ]"


def patterns(ctx):
    """static -> the pattern it is made from"""
    out = {}
    for f in ctx.p.local_fns():
        m = re.match(r"^(.*)::\{closure", f["dn"])
        if not m or is_gen(f) or "bb" not in f:
            continue
        if not any(blk["t"]["k"] == "call" and last(blk["t"]["f"]) == "new" and "Regex" in blk["t"]["f"] for blk in f["bb"]):
            continue
        fa = FA(ctx, f, set(), None)
        for b in fa.calls("new"):
            t = fa.v.args(b)[0] if "Regex" in fa.g.B[b]["t"]["f"] else None
            if t is not None:
                out.setdefault(m.group(1), set()).add(t.a[0] if t.k == "const" and isinstance(t.a[0], str) else None)
    return {k: v.pop() for k, v in out.items() if len(v) == 1 and None not in v}


def pattern(fa, t, table):
    if t.k == "const":
        c = t.a[0]
        return table.get(c[1]) if isinstance(c, tuple) and c[:1] == ("static",) else None
    if t.k == "call":
        f = last(t.a[0])
        if f == "new" and "Regex" in t.a[0] and t.a[2].k == "const" and isinstance(t.a[2].a[0], str):
            return t.a[2].a[0]
        if f in ("deref", "force", "get", "unwrap", "expect", "as_ref", "get_or_init", "borrow") and len(t.a) > 2:
            return pattern(fa, t.a[2], table)
    if t.k == "fld" and t.a[1] in ("Ok.0", "Some.0"):
        return pattern(fa, t.a[0], table)
    if t.k == "ref":
        return pattern(fa, t.a[0], table)
    return None


def same(f, *a):
    try:
        w = f(*a)
    except regular.Unknown as e:
        return False, "not decided: %s" % e
    return w is None, "they differ on %r" % w if w is not None else ""


@rule("P34")
def between(ctx, rep):
    """the text between the marks, trimmed"""
    for f in ctx.find(EXTRACT):
        fa = FA(ctx, f, set(), None)
        got = flat(fa, set(rets(fa)))
        T = r"to_display\(get_text\(.*\)\)"
        bare = r"(?:strip_suffix\(strip_prefix\(%s,'/\*\*'\),'\*/'\)|strip_prefix\(strip_suffix\(%s,'\*/'\),'/\*\*'\)|%s|\{.*\})" % (T, T, T)
        for s in sorted(got):
            if s == "None":
                continue
            m = re.match(r"^strip_indents\(trim\((.*)\)\)$", s)
            alts = flat(fa, {m.group(1)}) if m else set()
            ok = bool(m) and bool(alts) and all(re.match("^%s$" % bare, x) for x in alts) and any("strip_suffix(" in x and "strip_prefix(" in x for x in alts)
            rep.add("between/text", ok, "documentation is what stands between /** and */, without the white space around it and without decoration", fa.dn, s[:300])
        rep.add("between/some", any(x != "None" for x in got), "documentation is returned", fa.dn)
        # a comment that has its marks loses them
        d = {}
        for b in fa.calls("strip_prefix", "strip_suffix"):
            d[outcome(fa, b)] = "Some"
        for b in fa.calls("strip_indents"):
            arg = flat(fa, fa.vals(fa.v.args(b)[0], b, assume=A(d)))
            rep.add("between/marks", bool(arg) and all("strip_suffix(" in x and "strip_prefix(" in x for x in arg), "the marks of the comment are no part of its text", fa.where(b), str(sorted(arg))[:300])
        # empty or not
        em = [b for b in fa.calls("is_empty") if fa.argc(b)[0].startswith("trim(")]
        for b in fa.calls("strip_indents"):
            E = "empty(%s)" % fa.argc(b)[0]
            tests = {outcome(fa, y) for y in em} | {E}
            no = {x: False for x in tests}
            must(rep, "between/kept", "a comment with text is documentation", fa, [b], assume=A(no), start=[y for y in fa.calls("trim")][0] if fa.calls("trim") else None, target=lambda z, e: fa.g.B[z]["t"]["k"] == "return")
            yes = {x: True for x in tests}
            r = run(fa, None, (), None, {b}, A(yes))
            rep.add("between/empty", r is None, "a comment without text is no documentation", fa.where(b), path_text(fa, r, A(yes)) if r else "")


def own(ctx):
    return ctx.fa("doc_comments::strip_indents", inline={"try_strip_ws_indent"})


@rule("P34")
def decoration(ctx, rep):
    fa = own(ctx)
    doc = fa.pname[0]
    table = patterns(ctx)
    tests = {}
    for b in fa.calls("is_match"):
        p = pattern(fa, fa.v.args(b)[0], table)
        if p is None and re.match(r"^\{.*\}$", fa.argc(b)[0]) and fa.argc(b)[1] == doc:
            # one test with several patterns: which replacement goes with which is not decided
            return rep.ok("stars/other", "how the decoration is removed is not decided in this form", fa.where(b))
        rep.add("stars/known", p is not None and fa.argc(b)[1] == doc, "what the whole comment is tested for", fa.where(b), str(fa.argc(b))[:200])
        if p is None:
            continue
        kind = None
        why = []
        for k in (1, 2):
            ok, w = same(regular.same_search, p, starred(k))
            why.append(w)
            if ok:
                kind = k
        if kind is None:
            ok, w = same(regular.found_in, INDENTED, p)
            kind = "indent" if ok else None
            why.append(w)
        rep.add("stars/test", kind is not None, "a comment is decorated when every further line that is not blank starts like its first: with one star or with two (or when its further lines are indented)", fa.where(b), "%s: %s" % (p, "; ".join(why)))
        if kind is not None:
            tests.setdefault(kind, []).append(b)
    for k in (1, 2):
        rep.add("stars/tested/%d" % k, k in tests, "comments decorated with %d star%s are recognised" % (k, "s" * (k - 1)), fa.dn)
    if not {1, 2} <= set(tests):
        return
    subs = {}
    for b in fa.calls("replace_all", "replace", "replacen", "replace_first"):
        f = last(fa.g.B[b]["t"]["f"])
        subs[b] = (f, pattern(fa, fa.v.args(b)[0], table))

    def asm(**k):
        d = {}
        for n, v in k.items():
            for b in tests.get({"two": 2, "one": 1, "ind": "indent"}[n], ()):
                d[fa.g.B[b]["t"]["site"]] = v

        def f(t, adt=None):
            return d.get(t.a[1]) if adt is None and t.k == "call" and t.a[1] in d else None
        return RawAssume(f)
    for k, a in ((2, asm(two=True)), (1, asm(two=False, one=True))):
        want = []
        for b, (f, p) in subs.items():
            if p is None:
                continue
            ok, w = same(regular.same_match, p, marks(k))
            if ok and f == "replace_all" and fa.argc(b)[1] == doc and keeps_break(fa, b):
                want.append(b)
        must(rep, "stars/removed/%d" % k, "the decoration of every line is removed: %s and one blank after it" % ("the star" if k == 1 else "the two stars"), fa, want, assume=a, target=lambda z, e: fa.g.B[z]["t"]["k"] == "return")
        got = {x for x in ret_under(fa, a)}
        outs = {fa._c(fa.v.result(b)) if hasattr(fa.v, "result") else outcome(fa, b) for b in want}
        rep.add("stars/result/%d" % k, bool(got) and got <= outs | {"into_owned(%s)" % x for x in outs}, "and nothing else is changed", fa.dn, "%s" % sorted(got)[:3])
    plain = asm(two=False, one=False, ind=False)
    if "indent" in tests:
        got = ret_under(fa, plain)
        rep.add("plain/result", got == {doc}, "a comment without decoration stays as it is", fa.dn, str(sorted(got))[:300])


def keeps_break(fa, b, always=False):
    """the replacement at b is the line break of the match (group 1; always: every match has one)"""
    s = fa.argc(b)[2] if len(fa.argc(b)) > 2 else ""
    if s in ("'$1'", "'${1}'"):
        return True
    t = fa.g.B[b]["t"]
    if not t.get("clo"):
        return False
    r = fa.v.closure_ret(t["site"])
    got = {"''" if x in ("new()", "default()") else x for x in flat(fa, {fa._c(r)})}
    group = "cparam(%s,0)[1]" % last(t["f"])
    return group in got and got <= {"''", group} and (always or "''" in got)


@rule("P34")
def indentation(ctx, rep):
    fa = own(ctx)
    doc = fa.pname[0]
    lines = {"lines(%s)[RangeFrom{start:1}]" % doc: False, "lines(%s)" % doc: True}
    for b in fa.calls():
        for s in fa.argc(b)[:1]:
            if re.match(r"^lines\(%s\)\[Range[^\[\]]*\]$" % re.escape(doc), s):
                lines.setdefault(s, s.endswith(("[RangeFull]", "[RangeFrom{start:0}]")) or None)

    def loops(b):
        return any(run(fa, y, (), None, {b}) is not None for y in succs(fa, b))
    its = [it for it in iterations(fa, lambda s: s in lines) if it["kind"] == "loop"]
    once = [it for it in its if not loops(it["b"])]
    its = [it for it in its if it not in once]

    def width(e):
        return ("(len(%s) Sub len(trim_start(%s)))" % (e, e), "strip_suffix(%s,trim_start(%s))" % (e, e))

    def has(s):
        return any(w in s for l in lines for w in width(l + "[]"))
    if not its or not any(has(s) for b in fa.calls() for s in fa.argc(b)):
        # another way of finding the common indentation: not decided
        return rep.ok("indent/other", "how the common indentation is found is not decided in this form", fa.dn)
    two = {"len(lines(%s))" % doc: 2, "count(lines(%s))" % doc: 2}

    def shared(s):
        return "common_prefix(" in s and has(s)

    def enough(t, adt=None):
        if adt is None and t.k == "bin" and t.a[0] in CMPOPS:
            x, y = (num_(fa, z, two) for z in t.a[1:3])
            if x is not None and y is not None:
                return CMPOPS[t.a[0]](x, y)
        return None

    def found(t, adt=None):
        c = fa._c(t)
        if not shared(c) or c.startswith("replace"):
            return enough(t, adt)
        if adt is not None:
            return "Some" if last(adt) == "Option" else None
        return False if c.startswith("empty(") else None
    gone = lambda at: any(s.startswith("empty(") and shared(s) and v is True for s, v in at)
    ret = lambda z, e: fa.g.B[z]["t"]["k"] == "return"
    for it in its:
        base = fa.c(it["base"])
        e = base + "[]"
        names = [n for n in it["names"] if n in SUBSET]
        first = bool(once)
        for s in it["sites"]:
            b = fa.site2b.get(s)
            if b is not None and last(fa.g.B[b]["t"]["f"]) == "skip" and fa.argc(b)[1:] == ["1"]:
                first = True
        rep.add("indent/all-lines", first is lines[base] and not set(names) - {"skip", "filter"}, "every line after the first counts", fa.where(it["b"]), "%s %s" % (base, names))
        blank = {"empty(trim(%s))" % e: True, "empty(trim_start(%s))" % e: True, "empty(trim_end(%s))" % e: True}
        isblank = lambda at: any(s in blank and v is True for s, v in at)
        events = [b for b in fa.calls() if any(w in s for s in fa.argc(b) for w in width(e)) and not last(fa.g.B[b]["t"]["f"]) in ("is_empty",)]
        events += [b for b, i, fs in fa.builds("Option", "Some") if any(w in (x if isinstance(x, str) else fa._c(x)) for x in fs.values() for w in width(e))]
        if "filter" in names:
            rep.add("indent/filter", filters_pass(fa, it, isblank, None, False), "every line that is not blank counts", fa.where(it["b"]))
        foreach(rep, "indent/each", "every line that is not blank counts", fa, lambda s: s == base, events, excuse=lambda at: isblank(at) or gone(at), allow_names=tuple(names), assume=RawAssume(enough), start=fa.calls("lines")[0] if fa.calls("lines") else None)
        if "filter" not in names:
            for y in _next_edges(fa, it["b"])[0]:
                r = run(fa, y, {it["b"]}, None, set(events), A(blank))
                rep.add("indent/blank", r is None, "blank lines do not count", fa.where(it["b"]), path_text(fa, r) if r else "")
                r = run(fa, y, {it["b"]}, None, ret, A(blank))
                rep.add("indent/after-blank", r is None, "the lines after a blank line count as well", fa.where(it["b"]), path_text(fa, r) if r else "")
    # both lines count in the common part
    cps = [b for b in fa.calls() if last(fa.g.B[b]["t"]["f"]) == "common_prefix"]
    for b in cps:
        a = fa.v.args(b)
        rep.add("indent/narrowed", len(a) == 2 and any(has(fa._c(x)) for x in a) and a[0] is not a[1] and a[0] != a[1], "each line narrows what the lines before it have in common", fa.where(b), str(fa.argc(b))[:300])
    def one(s):
        """nothing but the indentation of single lines"""
        al = [x for x in flat(fa, {s}) if x not in ("''", "None", "\u22a5")]
        return bool(al) and all(any(x in ("%s[RangeTo{end:%s}]" % (l + "[]", width(l + "[]")[0]), width(l + "[]")[1]) for l in lines) for x in al)
    # what is removed
    outs = []
    for b in fa.calls("replace_all", "replace", "replacen", "replace_first"):
        a = fa.argc(b)
        f = last(fa.g.B[b]["t"]["f"])
        m = re.match(r"^new\(fmt\('(.*)',escape\((.*)\)\)\)$", a[0], re.S)
        if m and a[1] == doc:
            tpl = template(m.group(1))
            ok, w = same(regular.same_match, tpl.replace("\0", "/"), r"(%s)/" % NL)
            rep.add("indent/removed", ok and f == "replace_all" and keeps_break(fa, b, True), "that indentation is removed from every line, line breaks stay", fa.where(b), "%r %s" % (tpl, w))
            rep.add("indent/which", shared(m.group(2)) if cps else has(m.group(2)) and not one(m.group(2)), "what is removed is what the lines have in common", fa.where(b), m.group(2)[:300])
            outs.append(b)
        elif a[0] == doc and f == "replace" and has(a[1]) and len(a) > 2:
            m = re.match(r"^fmt\('(.*)',(.*)\)$", a[1], re.S)
            rep.add("indent/removed", bool(m) and template(m.group(1)) == "\n\0" and a[2] in ("'\n'", "'\\n'"), "that indentation is removed from every line, line breaks stay", fa.where(b), str(a)[:300])
            rep.add("indent/which", bool(m) and (shared(m.group(2)) if cps else has(m.group(2)) and not one(m.group(2))), "what is removed is what the lines have in common", fa.where(b), str(a)[:300])
            outs.append(b)
    # two lines are enough
    for b in fa.calls("lines"):
        r = run(fa, b, {it["b"] for it in its}, None, ret, RawAssume(enough))
        rep.add("indent/two-lines", r is None, "two lines are enough", fa.where(b), path_text(fa, r) if r else "")
    # an indentation that was found is removed
    for it in its:
        for y in _next_edges(fa, it["b"])[1]:
            if outs and cps:
                must(rep, "indent/applied", "an indentation that all lines have is removed", fa, outs, assume=RawAssume(found), start=y, target=ret)


@rule("P34")
def common(ctx, rep):
    """what two lines have in common: as many characters as are equal from the start"""
    for f in ctx.find("doc_comments::common_prefix"):
        fa = FA(ctx, f, set(), None)
        A_, B_ = fa.pname[0], fa.pname[1]
        for s in sorted(flat(fa, set(rets(fa)))):
            m = re.match(r"^(.*?)\[RangeTo\{end:(.*)\}\]$", s)
            if not m or m.group(1) not in (A_, B_):
                continue
            a = m.group(1)
            pairs = ("eq(chars(%s)[],chars(%s)[])" % (A_, B_), "eq(chars(%s)[],chars(%s)[])" % (B_, A_))
            base = ("chars(%s)" % A_, "chars(%s)" % B_)
            zips = [it for it in iterations(fa, lambda x: x in base) if it["kind"] == "clo"]

            def equal(b):
                t = fa.g.B[b]["t"]
                return last(t["f"]) == "take_while" and t.get("clo") and flat(fa, {fa._c(fa.v.closure_ret(t["site"]))}) <= set(pairs)
            whole = [it for it in zips if it["names"] == ["zip"] and equal(it["b"])]
            if m.group(2) == "sum([len_utf8(chars(%s)[])])" % a:
                for it in zips:
                    if last(fa.g.B[it["b"]]["t"]["f"]) != "map" or not it["sites"] and it["names"]:
                        continue
                    ok = False
                    if it["names"] == ["take"]:
                        n = fa.v.args(fa.site2b[it["sites"][0]])[1]
                        ok = n.k == "call" and last(n.a[0]) == "count" and n.a[2].k == "call" and any(n.a[2].a[1] == fa.g.B[w["b"]]["t"]["site"] for w in whole)
                    elif sorted(it["names"]) == ["take_while", "zip"]:
                        ok = any(fa.g.B[w["b"]]["t"]["site"] in it["sites"] for w in whole)
                    rep.add("common/length", ok, "what two lines have in common ends at the first difference", fa.where(it["b"]), str(it["names"]))
            elif re.match(r"^count\(", m.group(2)):
                rep.bad("common/bytes", "the length of what two lines have in common is its length in bytes", fa.dn, s[:200])


def template(s):
    """a format string as kept in the program: pieces with their length, \\0 for the arguments"""
    out, i = "", 0
    while i < len(s):
        n = ord(s[i])
        if n == 0:
            break
        if n < 0x80:
            out += s[i + 1:i + 1 + n]
            i += 1 + n
        else:
            out += "\0"
            i += 1
    return out
