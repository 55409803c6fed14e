"""Default values fit the types they are defaults of."""
from rules import rule
from base import *
from rules.emit import variants_of
from rules.parse import is_, on, wk, lg, sh, parts

V, S = "$Value", "$AvroSchema"
KINDS = ("Null", "Bool", "Number", "String", "Array", "Object")
VIEW = {"Bool": "bool", "Number": "num", "String": "str", "Array": "arr", "Object": "obj"}
ASK = {"is_null": "Null", "is_boolean": "Bool", "is_number": "Number", "is_string": "String", "is_array": "Array", "is_object": "Object"}


def kind(fa, k, d=None, *fs, of=V):
    """the value `of` is JSON of kind k"""
    d = dict(d or {})
    d[of] = k
    for n, s in VIEW.items():
        d.setdefault("%s.%s" % (of, s), "Some" if n == k else "None")
    if k != "Number":
        d.setdefault(of + ".i64", "None")
    inner = fa._mkassume(A(d) if not isinstance(d, A) else d)

    def f(t, adt=None):
        if adt is None and t.k == "call" and last(t.a[0]) in ASK and len(t.a) > 2 and fa._c(t.a[2]) == of:
            return ASK[last(t.a[0])] == k
        if adt is None and k != "Number" and t.k == "call" and last(t.a[0]) in ("is_i64", "is_u64", "is_f64") and len(t.a) > 2 and fa._c(t.a[2]) == of:
            return False
        for g in fs:
            r = g(t, adt)
            if r is not None:
                return r
        return inner(t, adt)
    return RawAssume(f)


def calls_say(fa, pred, ans):
    """every call whose canonical form satisfies pred answers ans (a truth value)"""
    def f(t, adt=None):
        if adt is None and t.k == "call" and pred(fa._c(t)):
            return ans
        return None
    return f


def answers(fa, asm, start=None, stop=None):
    """truth values the function can return under asm ('next': stop reached first, None: undecided)"""
    got = set()
    for b in fa.g.rpo:
        if fa.g.B[b]["t"]["k"] != "return":
            continue
        t = fa.v.read(fa.g.ret, (), b, 1 << 30)
        fl = fa.flow([t], asm)
        for bb, env, path in fl.run(fa.g.entry if start is None else start, target=lambda x, e: x == b or x == stop, find_all=True):
            if bb == stop and bb != b:
                got.add("next")
                continue
            x = fl.rs(t, env)
            r = fl.ev(x, env)
            v = r[2]
            got.add(v if r[0] != "nbool" or v is None else not v)
    return got


def closure_answers(fa, it, asm):
    site = fa.g.B[it["b"]]["t"]["site"]
    ret = fa.v.closure_ret(site)
    fl = fa.flow([ret], asm)
    got = set()

    def tgt(bb, e):
        if bb == it["clo"]["end"]:
            r = fl.ev(fl.rs(ret, e), e)
            got.add(r[2] if r[0] != "nbool" or r[2] is None else not r[2])
        return False
    list(fl.run(it["clo"]["body"], target=tgt, find_all=True))
    return got


def closure_variants(fa, it, asm):
    ret = fa.v.closure_ret(fa.g.B[it["b"]]["t"]["site"])
    fl = fa.flow([ret], asm)
    got = set()

    def tgt(bb, e):
        if bb == it["clo"]["end"]:
            x = fl.rs(ret, e)
            got.add(fl.variant(x) or fl._fact(x, e, "std::option::Option"))
        return False
    list(fl.run(it["clo"]["body"], target=tgt, find_all=True))
    return got


def quantifier(rep, key, desc, fa, coll, good, bad, base, every, excuse=None):
    """the function holds iff every (some) element of coll does; good and bad: lists of assumptions on an element"""
    why = []
    for it in iterations(fa, coll):
        if set(it["names"]) & set(SUBSET):
            why.append("the search at %s leaves elements out" % fa.where(it["b"]))
            continue
        w = []
        r = run(fa, None, {it["b"]}, excuse, None, base)
        if r is not None:
            w.append("the search at %s can be skipped: %s" % (fa.where(it["b"]), path_text(fa, r, base)))
        if it["kind"] == "loop":
            somes, nones = _edges(fa, it["b"])
            if not somes or not nones:
                continue
            for want, cases in ((True, good), (False, bad)):
                for a in cases:
                    for s in somes:
                        got = answers(fa, a, start=s, stop=it["b"])
                        exp = {"next"} if want == every else {not every}
                        if got != exp:
                            w.append("an element that is %svalid: %s" % ("" if a in good else "in", sorted(map(str, got))))
            for n in nones:
                got = answers(fa, base, start=n)
                if got != {every}:
                    w.append("all elements seen: %s" % sorted(map(str, got)))
        elif it["how"] in ("all", "any"):
            # `all fit` or `not any that does not fit`
            neg = it["how"] != ("all" if every else "any")
            for a in good + bad:
                got = closure_answers(fa, it, a)
                if got != {(a in good) != neg}:
                    w.append("an element that is %svalid: %s" % ("" if a in good else "in", sorted(map(str, got))))
            s = fa._c(fa.v.callval(fa.g.B[it["b"]]["t"], it["b"]))
            for x in (True, False):
                got = answers(fa, also(fa, base, {s: x}), start=it["b"])
                if got != {x != neg}:
                    w.append("the outcome of the search does not decide: %s" % sorted(map(str, got)))
        else:
            continue
        if not w:
            rep.ok(key, desc, fa.where(it["b"]))
            return True
        why += w
    rep.bad(key, desc, fa.dn, "; ".join(why)[:600] or "no search over these elements found")
    return False


def _edges(fa, nb):
    from base import _next_edges
    return _next_edges(fa, nb)


def also(fa, base, d):
    x = fa._mkassume(d)
    y = base.f

    def f(t, adt=None):
        r = x(t, adt)
        return r if r is not None else y(t, adt)
    return RawAssume(f)


@rule("P18")
def table(ctx, rep):
    fa = ctx.fa("model::schema::is_valid_default_with")
    FN, R = "is_valid_default_with", fa.pname[2]
    simple = {"Null": {"Null"}, "Boolean": {"Bool"}, "String": {"String"}, "Bytes": {"String"}, "Enum": {"String"}, "Fixed": {"String"}}
    for v, ks in simple.items():
        for k in KINDS:
            got = answers(fa, kind(fa, k, {S: v}))
            rep.add("table/%s/%s" % (v, k), got == {k in ks}, "a JSON %s is %sa default for %s" % (k.lower(), "" if k in ks else "not ", v), fa.dn, str(got))
    # numbers
    def number(v, x):
        """the value is the number x (None: not a 64 bit integer)"""
        n = "None" if x is None else "Some"
        names = ("as_i64($Value.num)", "$Value.i64")
        fs = [calls_say(fa, lambda s: s in ("is_i64($Value.num)", "is_i64($Value)"), x is not None)]
        if x is not None:
            fs.append(concrete(fa, lambda t: x if fa._c(t) in names else None).f)

            def narrow(t, adt=None):
                if adt is not None and "Result" in adt and fa._c(t) in ["try_from(%s)" % y for y in names]:
                    return "Ok" if -2**31 <= x < 2**31 else "Err"
                return None
            fs.append(narrow)
        return kind(fa, "Number", dict({y: n for y in names}, **{S: v}), *fs)
    for v in ("Int", "Long"):
        for k in KINDS:
            if k != "Number":
                got = answers(fa, kind(fa, k, {S: v}))
                rep.add("table/%s/%s" % (v, k), got == {False}, "a JSON %s is not a default for %s" % (k.lower(), v), fa.dn, str(got))
        got = answers(fa, number(v, None))
        rep.add("table/%s/not-integer" % v, got == {False}, "a number that is no 64 bit integer is not a default for %s" % v, fa.dn, str(got))
    for x, yes in ((0, True), (2147483647, True), (2147483648, False), (-2147483648, True), (-2147483649, False), (9223372036854775807, False)):
        got = answers(fa, number("Int", x))
        rep.add("table/Int/%d" % x, got == {yes}, "%d is %sa default for an int" % (x, "" if yes else "not "), fa.dn, str(got))
        got = answers(fa, number("Long", x))
        rep.add("table/Long/%d" % x, got == {True}, "%d is a default for a long" % x, fa.dn, str(got))
    for v in ("Float", "Double"):
        for k in KINDS:
            if k != "String":
                got = answers(fa, kind(fa, k, {S: v}))
                rep.add("table/%s/%s" % (v, k), got == {k == "Number"}, "a JSON %s is %sa default for %s" % (k.lower(), "" if k == "Number" else "not ", v), fa.dn, str(got))
        for w, yes in (("NaN", True), ("Infinity", True), ("-Infinity", True), ("1.0", False), ("", False)):
            inner = fa._mkassume(A({}, {V + ".str": w}))
            got = answers(fa, kind(fa, "String", {S: v}, inner))
            rep.add("table/%s/'%s'" % (v, w), got == {yes}, "the text %r is %sa default for %s" % (w, "" if yes else "not ", v), fa.dn, str(got))
    # types that stand for a primitive one
    for v, under in (("AnnotatedPrimitive", "to_schema(%s.AnnotatedPrimitive.kind)" % S), ("Logical", "to_schema(expected_base_type(%s.Logical.logical_type))" % S)):
        got = ret_under(fa, {S: v})
        rep.add("table/%s" % v, got == {"%s(%s,%s,%s)" % (FN, V, under, R)}, "a default for %s is one for the primitive type it stands for" % v, fa.dn, str(got)[:300])
    known = known_(fa, R)
    is_(rep, "table/Reference", "a type that is not known yet is not judged", fa, {"True"}, {S: "Reference", known: "None"})
    for x in (True, False):
        judged = "%s(%s,%s,%s)" % (FN, V, known, R)
        got = {str(x) if y == judged else y for y in ret_under(fa, {S: "Reference", known: "Some", judged: x})}
        rep.add("table/Reference/known/%s" % x, got == {str(x)}, "a default for a type that is known by its full name is judged against that type", fa.dn, str(sorted(got))[:300])
    # nested types
    for v, k, coll, el, ty in (("Array", "Array", V + ".arr", V + ".arr[]", "items"), ("Map", "Object", "[%s.obj[].1]" % V, V + ".obj[].1", "values")):
        for kk in KINDS:
            if kk != k:
                got = answers(fa, kind(fa, kk, {S: v}))
                rep.add("table/%s/%s" % (v, kk), got == {False}, "a JSON %s is not a default for %s" % (kk.lower(), v), fa.dn, str(got))
        c = "%s(%s,%s.%s.%s,%s)" % (FN, el, S, v, ty, R)
        base = kind(fa, k, {S: v})
        colls = {coll, coll[1:-1], V + ".obj"} if v == "Map" else {coll}
        quantifier(rep, "table/%s/elements" % v, "every element of the default of %s fits its element type" % v, fa, lambda s, cs=colls: s in cs,
                   [also(fa, base, {c: True})], [also(fa, base, {c: False})], base, True)
    c = "%s(%s,%s.Union.types[],%s)" % (FN, V, S, R)
    base = RawAssume(fa._mkassume({S: "Union"}))
    quantifier(rep, "table/Union/branches", "a default for a union fits one of its branches", fa, S + ".Union.types",
               [also(fa, base, {c: True})], [also(fa, base, {c: False})], base, False, excuse=exc(("empty(%s.Union.types)" % S, True)))
    got = answers(fa, also(fa, base, {"empty(%s.Union.types)" % S: True, c: False}))
    rep.add("table/Union/empty", got in ({False}, {None}), "an empty union has no default", fa.dn, str(got))
    for kk in KINDS:
        if kk != "Object":
            got = answers(fa, kind(fa, kk, {S: "Record"}))
            rep.add("table/Record/%s" % kk, got == {False}, "a JSON %s is not a default for a record" % kk.lower(), fa.dn, str(got))
    F = S + ".Record.fields[]"
    g = "%s.obj[%s.name]" % (V, F)
    base = kind(fa, "Object", {S: "Record"})
    c = "%s(%s,%s.schema,%s)" % (FN, g, F, R)
    quantifier(rep, "table/Record/fields", "every field of a record has a value that fits it, or a default", fa, S + ".Record.fields",
               [also(fa, base, {g: "Some", c: True}), also(fa, base, {g: "None", F + ".default": "Some"})],
               [also(fa, base, {g: "Some", c: False}), also(fa, base, {g: "None", F + ".default": "None"})], base, True)


def known_(fa, R):
    """what the resolver R finds for the name a reference gives"""
    return "call(%s,(make_full_name(%s.Reference.name,%s.Reference.namespace)))" % (R, S, S)


def closure_fa(ctx, t):
    if t.k != "clo":
        return None
    f = [x for x in ctx.p.local_fns() if x["dn"] == t.a[0]]
    return FA(ctx, f[0], set(), None) if f else None


@rule("P18")
def verdict(ctx, rep):
    fa = ctx.fa("model::schema::validate_default_with")
    R = fa.pname[2]
    known = known_(fa, R)
    ok = "is_valid_default_with(%s,%s,%s)" % (V, S, R)
    inner, inok = "validate_default_with(%s,%s,%s)" % (V, known, R), "is_valid_default_with(%s,%s,%s)" % (V, known, R)
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        for k in ("Some", "None") if v == "Reference" else (None,):
            n = v if k is None else "%s/%s" % (v, {"Some": "known", "None": "unknown"}[k])
            d = {S: v} if k is None else {S: v, known: k}
            acc = {"None"} | ({inner} if k == "Some" else set())
            got = ret_under(fa, dict(d, **{ok: True, inner: "None", inok: True}))
            rep.add("verdict/valid/%s" % n, bool(got) and got <= acc, "a default that fits its type is accepted", fa.dn, str(sorted(got))[:300])
            got = ret_under(fa, dict(d, **{ok: False, inner: "Some", inok: False}))
            rep.add("verdict/invalid/%s" % n, bool(got) and "None" not in got, "a default that does not fit its type is refused", fa.dn, str(sorted(got))[:300])
    f0 = ctx.fa("model::schema::validate_default")
    # the judgement at the declaration itself knows no named types
    direct = FA(ctx, f0.f, set(), None)
    bs = [b for b in direct.calls("validate_default_with", "is_valid_default_with")]
    rep.add("verdict/start", len(bs) >= 1, "the default of a declaration is judged by the same rule", direct.dn)
    for b in bs:
        a = direct.argc(b)
        rep.add("verdict/start/subject", a[:2] == [V, S], "the default of a declaration is judged against its type", direct.where(b), str(a))
        # (a closure without captures is a constant)
        known = closure_fa(ctx, direct.v.args(b)[2])
        inside = [x for x in ctx.p.local_fns() if x["dn"].startswith(f0.f["dn"] + "::")]
        for c in [known] if known is not None else [FA(ctx, x, set(), None) for x in inside]:
            got = ret_under(c, {})
            rep.add("verdict/start/unknown", got == {"None"}, "no type is known by name before the declarations are registered", c.dn, str(sorted(got)))


@rule("P18")
def declared(ctx, rep):
    fa = wk(ctx, "walk_variable")
    J = "jsonValue(@)"
    bs = fa.calls("validate_default", "is_valid_default")
    d = {J: "Some"}
    must(rep, "declared/checked", "the default of every field and parameter is checked", fa, bs, assume=on(fa, d))
    for b, i, f in fa.builds("Field"):
        for c in bs:
            a = fa.v.args(c)
            asm = on(fa, {J: "Some"})
            v, t = flat(fa, fa.vals(a[0], c, assume=asm)), flat(fa, fa.vals(a[1], c, assume=asm))
            fv, ft = flat(fa, fa.vals(f["default"], b, assume=asm)), flat(fa, fa.vals(f["schema"], b, assume=asm))
            rep.add("declared/value", v == fv, "the default checked is the one the field gets", fa.where(c), "%s / %s" % (sorted(v), sorted(fv)))
            rep.add("declared/type", t == ft, "it is checked against the type the field gets", fa.where(c), "%s / %s" % (sorted(t)[:2], sorted(ft)[:2]))
    for c in bs:
        s = outcome(fa, c)
        bad = {s: "Some"} if last(fa.g.B[c]["t"]["f"]) == "validate_default" else {s: False}
        never(rep, "declared/fatal", "a default that does not fit is rejected", fa, None, start=c, assume=on(fa, dict(d, **bad)))
        good = {s: "None"} if last(fa.g.B[c]["t"]["f"]) == "validate_default" else {s: True}
        r = run(fa, c, (), None, lambda b, e: fa.g.B[b]["t"]["k"] == "return" and not fa.flow().ok_exit(b, e), on(fa, dict(d, **good)))
        rep.add("declared/accepted", r is None, "a default that fits is accepted", fa.where(c), path_text(fa, r) if r else "")


@rule("P18")
def referenced(ctx, rep):
    fa = ctx.fa("model::schema::validate_record_field_defaults")
    F = S + ".Record.fields[]"
    bs = fa.calls("validate_default_with", arg={0: lambda s: s == F + ".default"})
    rep.add("referenced/anchor", len(bs) == 1, "the fields of a record are checked once their types are known", fa.dn, str(bs))
    if len(bs) != 1:
        return
    s = outcome(fa, bs[0])
    a = fa.argc(bs[0])
    rep.add("referenced/type", a[1] == F + ".schema", "a default is checked against the type of its field", fa.where(bs[0]), a[1])
    rep.add("referenced/types", a[2] == fa.pname[1], "a default is checked against the types known", fa.where(bs[0]), a[2])
    d = {S: "Record", F + ".default": "Some", s: "Some"}
    desc = "every default that does not fit is reported"
    fm = [it for it in iterations(fa, S + ".Record.fields") if it["kind"] == "clo" and it["how"] == "filter_map" and not set(it["names"]) & set(SUBSET)]
    if fm:
        for it in fm:
            for x, want in ((d, "Some"), (dict(d, **{s: "None"}), "None")):
                got = closure_variants(fa, it, x)
                rep.add("referenced/reported/%s" % want, got == {want}, desc, fa.where(it["b"]), str(got))
        got = ret_under(fa, d)
        rep.add("referenced/result", got == {"[(%s.name,%s)]" % (F, s)}, desc, fa.dn, str(sorted(got))[:300])
    else:
        foreach(rep, "referenced/reported", desc, fa, S + ".Record.fields", fa.calls("push"), assume=d)
    for b in fa.calls("push"):
        never(rep, "referenced/false-report", "a default that fits is not reported", fa, {b}, assume=dict(d, **{s: "None"}))
    # the driver: every declared type, against the types registered so far
    fd = ctx.fa("compiler::process_decl_items")
    T = "$DeclItem[].Type.0"
    vs = fd.calls("validate_record_field_defaults", arg={0: lambda s: s == T})
    foreach(rep, "driver/each", "the defaults of every declared type are checked", fd, "$DeclItem", vs, assume={"$DeclItem[]": "Type", "register($CompileContext.registry,%s)" % T: "Ok"})
    for b in vs:
        c = closure_fa(ctx, fd.v.args(b)[1])
        if c is not None:
            got = ret_under(c, {})
            rep.add("driver/known", len(got) == 1 and all(x.endswith(".schemas[%s]" % c.pname[-1]) for x in got), "the types known are those registered, under their full names", c.dn, str(sorted(got)))
        e = outcome(fd, b)
        never(rep, "driver/fatal", "a default that does not fit is rejected", fd, lambda x, env: x in nexts(fd, "$DeclItem") or (fd.g.B[x]["t"]["k"] == "return" and fd.flow().ok_exit(x, env)), start=b,
              assume={"empty(%s)" % e: False, "next(%s)" % e: "Some"})
        r = run(fd, b, (), None, lambda x, env: fd.g.B[x]["t"]["k"] == "return" and not fd.flow().ok_exit(x, env) , {"empty(%s)" % e: True, "next(%s)" % e: "None", "next($DeclItem)": "None", "next(Range{end:len($DeclItem),start:0})": "None"})
        rep.add("driver/accepted", r is None, "a type whose defaults fit is accepted", fd.where(b), path_text(fd, r) if r else "")


def nexts(fa, coll):
    return {it["b"] for it in iterations(fa, coll) if it["kind"] == "loop"}
