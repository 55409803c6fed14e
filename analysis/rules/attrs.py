"""Annotations of the IDL: @namespace, @aliases, @order and custom properties."""
from rules import rule
from base import *
from rules.parse import on, lg, sh, built, tokens, ID, wk, num as num_

N = "identifier_text(identifier($Rc[]))"
V = "walk_json_value(jsonValue($Rc[]),$CommonTokenStream,$SourceInfo)"
FLAGS = ("namespace", "aliases", "order")


def fa_(ctx):
    return ctx.fa("reader::walk_schema_properties", inline={"SchemaProperties::new", "reader::SchemaProperties::new"})


def field_writes(fa, field):
    """[(block, term)] of assignments to a field of that name"""
    out = []
    for b in fa.g.rpo:
        for i, (pl, rv, ln) in enumerate(fa.g.B[b]["s"]):
            if pl[1] and pl[1][-1][:2] == ("f", field):
                out.append((b, fa.v._rvval(rv, (), b, i)))
        t = fa.g.B[b]["t"]
        if t["k"] == "call":
            a = fa.argc(b)
            l = last(t["f"])
            if l in ("replace", "insert", "get_or_insert", "set") and a and a[0].endswith("." + field) and len(a) == 2:
                out.append((b, fa.v.args(b)[1]))
    return out


def flag(n, on_=True):
    return {"$PropertyContext.with_" + n: on_}


def is_value(fa, want):
    return lambda b, t, a: flat(fa, fa.vals(t, b, assume=a)) == {want}


@rule("P22")
def annotations(ctx, rep):
    fa = fa_(ctx)
    ws = {f: field_writes(fa, f) for f in FLAGS}
    props = [(b, k, v) for b, k, v in map_inserts(fa, lambda s: True) if k == N]
    coll = "$Rc"

    def writes_of(f, want, a):
        return [b for b, t in ws[f] if run(fa, None, target={b}, assume=a) is not None and flat(fa, fa.vals(t, b, assume=a)) == {want}]

    # each recognised annotation sets the attribute to the value written
    cases = [("namespace", "String", V + ".str", {}, "the namespace annotation gives the namespace")]
    for name, kind, want, eqs, desc in cases:
        a = A(dict(flag(name), **{V: kind}), dict(eqs, **{N: name}))
        foreach(rep, "annotation/%s" % name, desc, fa, coll, writes_of(name, want, a), assume=a)
    a = A(dict(flag("aliases"), **{V: "Array", V + ".arr[]": "String"}), {N: "aliases"})
    al = [b for b, t in ws["aliases"] if run(fa, None, target={b}, assume=a) is not None]
    push = [b for b in fa.calls("push", "extend") if fa.argc(b)[1] == V + ".arr[].str"]
    foreach(rep, "annotation/aliases/set", "the aliases annotation gives the aliases", fa, coll, al, assume=a)
    for b, t in ws["aliases"]:
        got = flat(fa, fa.vals(t, b, assume=a))
        from rules.emit import order_ops, ORDER_BAD
        ops = order_ops(fa, t, ORDER_BAD - {"map_while", "filter_map"})
        rep.add("annotation/aliases/whole", not ops, "the aliases are those written, all of them and in order", fa.where(b), "the list goes through %s" % ops)
        rep.add("annotation/aliases/value", got <= {"[%s.arr[].str]" % V, "[]"}, "the aliases are the strings written", fa.where(b), str(sorted(got))[:300])
    if push:
        foreach(rep, "annotation/aliases/each", "every alias written is kept", fa, V + ".arr", push, assume=a, round_only=True)
    else:
        its = [it for it in iterations(fa, V + ".arr") if it["kind"] == "clo" and it["how"] == "map" and not set(it["names"]) & SUBSET]
        rep.add("annotation/aliases/each", bool(its), "every alias written is kept", fa.dn, "aliases are not collected from the value")
    for it in iterations(fa, V + ".arr"):
        rep.add("annotation/aliases/order", "rev" not in it["names"], "aliases keep their order", fa.where(it["b"]))
    up = "to_uppercase(%s.str)" % V
    alt_up = "to_ascii_uppercase(%s.str)" % V
    for lit, v in (("ASCENDING", "Ascending"), ("DESCENDING", "Descending"), ("IGNORE", "Ignore")):
        a = A(dict(flag("order"), **{V: "String"}), {N: "order", up: lit, alt_up: lit})
        foreach(rep, "annotation/order/%s" % v, "the order annotation gives the sort order written", fa, coll, writes_of("order", v, a), assume=a)
        bad = [b for b, t in ws["order"] if run(fa, None, target={b}, assume=a) is not None and flat(fa, fa.vals(t, b, assume=a)) != {v}]
        rep.add("annotation/order/%s/only" % v, not bad, "no other sort order is set", fa.where(bad[0]) if bad else fa.dn)
    # nothing else sets them
    for f in FLAGS:
        bs = {b for b, t in ws[f]}
        never(rep, "annotation/%s/other" % f, "no other annotation sets the %s" % f, fa, bs, assume=A({}, {N: "no-such-attribute"}))
        for g in FLAGS:
            if g != f:
                never(rep, "annotation/%s/%s" % (f, g), "no other annotation sets the %s" % f, fa, bs, assume=A({}, {N: g}))
        if f == "namespace":
            for b, t in ws[f]:
                got = flat(fa, fa.vals(t, b))
                rep.add("annotation/namespace/value", got == {V + ".str"}, "the namespace is the string written", fa.where(b), str(sorted(got))[:300])
    # any other annotation is kept with its value
    a = A({}, {N: "no-such-attribute"})
    foreach(rep, "annotation/custom", "any other annotation is kept with the value written", fa, coll, [b for b, k, v in props if v == V], assume=a)
    for b, k, v in props:
        rep.add("annotation/custom/value", v == V, "an annotation keeps the value written", fa.where(b), v)
    for f in FLAGS:
        foreach(rep, "annotation/%s/kept" % f, "where @%s has no special meaning it is kept as an annotation" % f, fa, coll, [b for b, k, v in props if v == V],
                assume=A(dict(flag(f, False), **{"contains($PropertyContext.reserved,%s)" % N: False, "has($PropertyContext.reserved,%s)" % N: False}), {N: f}))
    for b, i, f in fa.builds("SchemaProperties"):
        rep.ok("annotation/result", "the result holds the annotations", fa.where(b))
    for it in iterations(fa, coll):
        rep.add("annotation/direction", "rev" not in it["names"], "annotations are read in the order written", fa.where(it["b"]))
    return fa


@rule("P19")
def annotation_values(ctx, rep):
    fa = fa_(ctx)
    for f, kind in (("namespace", "String"), ("aliases", "Array"), ("order", "String")):
        for v in ("Null", "Bool", "Number", "String", "Array", "Object"):
            if v != kind:
                rejects_each(rep, "annotation/%s/%s" % (f, v), "an @%s annotation of the wrong type is rejected" % f, fa, "$Rc", A(dict(flag(f), **{V: v}), {N: f}))
    for v in ("Null", "Bool", "Number", "Array", "Object"):
        rejects_each(rep, "annotation/aliases/element/%s" % v, "an alias that is not a string is rejected", fa, V + ".arr", A(dict(flag("aliases"), **{V: "Array", V + ".arr[]": v, V + ".arr[].str": "None"}), {N: "aliases"}))
    up = {"%s(%s.str)" % (u, V): "NO-SUCH-ORDER" for u in ("to_uppercase", "to_ascii_uppercase")}
    rejects_each(rep, "annotation/order/unknown", "a sort order other than ascending, descending or ignore is rejected", fa, "$Rc", A(dict(flag("order"), **{V: "String"}), dict(up, **{N: "order"})))


# -- optional types -----------------------------------------------------------------------------
@rule("P32")
def optional(ctx, rep):
    fa = ctx.fa("reader::walk_nullable_type", inline={"extract_name", "compute_namespace", "split_full_name"})
    P = "walk_primitive_type(primitiveType(@))"
    I = "identifier_text(identifier(@))"
    from rules.parse import is_, gives, parts
    gives(rep, "optional/primitive", "an optional type is a union of null and the type, in that order", fa, "Union", {"types": "[Null,%s]" % P, "is_nullable_type": "True"},
          on(fa, {"@.optional": "Some", "primitiveType(@)": "Some"}))
    for case, d in (("plain", "None"), ("dotted", "Some")):
        gives(rep, "optional/reference/%s" % case, "an optional type is a union of null and the type, in that order", fa, "Union",
              {"types": lambda s: s.startswith("[Null,Reference{name:"), "is_nullable_type": "True"},
              on(fa, {"@.optional": "Some", "primitiveType(@)": "None", "identifier(@)": "Some", "rsplit_once(%s,'.')" % I: d}))
    for fn, par in (("walk_field_declaration", "@"), ("walk_message", "formalParameter_all(@)[]")):
        g = wk(ctx, fn)
        calls = g.calls("walk_variable")
        rep.add("declared/%s" % fn, bool(calls), "variables are read with the type declared for them", g.dn)
        for b in calls:
            got = {sh(g, x) for x in flat(g, g.vals(g.v.args(b)[1], b))}
            rep.add("declared/%s/type" % fn, all(x.startswith("walk_full_type(fullType(%s)," % par) for x in got) and bool(got), "each variable starts from the type declared, not from what another variable's default made of it", g.where(b), str(sorted(got))[:300])
    is_(rep, "required/primitive", "a type without ? is just that type", fa, P, on(fa, {"@.optional": "None", "primitiveType(@)": "Some"}))
    for b, i, f in fa.builds("AvroSchema", "Union"):
        never(rep, "required/not-optional", "a type without ? is not made optional", fa, {b}, assume=on(fa, {"@.optional": "None"}))

    fa = ctx.fa("reader::fix_optional_schema")
    S, U, D = "$AvroSchema", "$AvroSchema.Union", "$Option"
    rep.add("default/params", fa.pname[:2] == [S, D], "parameters", fa.dn, str(fa.pname))
    nul = {S: "Union", U + ".is_nullable_type": True, "len(%s.types)" % U: 2}
    ints = {"len(%s.types)" % U: 2}
    for v in ("Bool", "Number", "String", "Array", "Object"):
        d = dict(nul, **{D: ["Some", v], D + ".Some": v, D + ".0": v})
        a = on(fa, d, ints)
        sw = [b for b in fa.calls("swap", "reverse", "rotate_left", "rotate_right") if run(fa, None, target={b}, assume=a) is not None]
        if sw:
            # two branches exchanged in place
            ok = len(sw) == 1 and fa.argc(sw[0])[0] == U + ".types" and (last(fa.g.B[sw[0]]["t"]["f"]) != "swap" or sorted(fa.argc(sw[0])[1:]) == ["0", "1"]) and run(fa, None, avoid=set(sw), assume=a) is None
            got = built(fa, a)
            ok = ok and all(re.match(r"^Union\{.*types:%s\}$" % re.escape(U + ".types"), x) or x == S or x.startswith("μ") for x in got)
            rep.add("default/%s" % v, ok, "the branch matching a non-null default comes first", fa.where(sw[0]), str(sorted(got))[:300])
            continue
        gives(rep, "default/%s" % v, "the branch matching a non-null default comes first", fa, "Union", {"types": "[%s.types[1],%s.types[0]]" % (U, U), "is_nullable_type": lambda s: s in ("True", U + ".is_nullable_type")}, on(fa, d, ints))
    is_(rep, "default/null", "null stays first when the default is null", fa, S, on(fa, dict(nul, **{D: ["Some", "Null"]}), ints))
    is_(rep, "default/none", "null stays first without a default", fa, S, on(fa, dict(nul, **{D: "None"}), ints))
    is_(rep, "default/written-union", "a union written out keeps its order", fa, S, on(fa, {S: "Union", U + ".is_nullable_type": False}))
    from rules.emit import variants_of
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v != "Union":
            is_(rep, "default/other/%s" % v, "other types are left alone", fa, S, {S: v})
    fa = ctx.fa("reader::walk_variable")
    for b, i, f in fa.builds("Field"):
        got = flat(fa, fa.vals(f["schema"], b))
        jv = "walk_json_value(jsonValue(@),$CommonTokenStream,$SourceInfo)"
        ok = got and all(x.startswith("fix_optional_schema($AvroSchema,") for x in got)
        rep.add("field/applied", bool(ok), "the type of a field is ordered after its default", fa.where(b), str(sorted(got))[:300])


# -- JSON literals ------------------------------------------------------------------------------
@rule("P31")
def json_values(ctx, rep):
    tk = tokens(ctx)
    from rules.parse import is_, each
    fa = ctx.fa("reader::walk_json_value", inline={"walk_json_object", "walk_json_array", "walk_json_literal"})
    O, Ar, L = "jsonObject(@)", "jsonArray(@)", "jsonLiteral(@)"
    kinds = (O, Ar, L)
    def only(k, **x):
        return dict({y: ("Some" if y == k else "None") for y in kinds}, **x)
    el = "walk_json_value(jsonValue_all(%s)[])" % Ar
    is_(rep, "array", "an array has the elements written", fa, "Array([%s])" % el, on(fa, only(Ar)))
    val = "walk_json_value(jsonValue(jsonPair_all(%s)[]))" % O
    key = "get_string_from_literal(get_text(jsonPair_all(%s)[].name))" % O
    is_(rep, "object", "an object has the members written", fa, {"Object([%s=%s])" % (key, val), "Object([(%s,%s)])" % (key, val)}, on(fa, only(O)))
    C = lg(fa, "jsonValue_all(%s)" % Ar)
    from rules.parse import added
    evs = added(fa, "walk_json_value", C + "[]", C)
    foreach(rep, "array/each", "every element of an array is kept", fa, C, evs, assume=on(fa, only(Ar)))
    C2 = lg(fa, "jsonPair_all(%s)" % O)
    evs = [b for b, k, v in map_inserts(fa, lambda s: True) if k == lg(fa, key) and sh(fa, v or "") == val]
    evs += [it["clo"]["body"] for it in iterations(fa, C2) if it["kind"] == "clo" and it["how"] == "map"]
    foreach(rep, "object/each", "every member of an object is kept", fa, C2, evs, assume=on(fa, only(O)))
    for c in (C, C2):
        for it in iterations(fa, c):
            rep.add("direction", "rev" not in it["names"], "elements and members keep their order", fa.where(it["b"]))
    from rules.parse import returned_terms, ok_parts, order_ops
    for b, t in returned_terms(fa):
        for x in ok_parts(fa, t):
            ops = order_ops(fa, x)
            rep.add("order", not ops, "elements and members keep their order", fa.where(b), str(ops))
    tt, tx = "get_token_type(%s.literal)" % L, "get_text(%s.literal)" % L
    which = {"Bool((%s Eq %s))" % (tt, tk["BTrue"]), "Bool((%s Ne %s))" % (tt, tk["BFalse"])}
    for n, want in (("Null", {"Null"}), ("BTrue", {"Bool(True)"} | which), ("BFalse", {"Bool(False)"} | which), ("StringLiteral", {"String(get_string_from_literal(%s))" % tx}),
                    ("IntegerLiteral", {"parse_integer_literal(%s)" % tx}), ("FloatingPointLiteral", {"parse_floating_point_literal(%s)" % tx})):
        is_(rep, "literal/%s" % n, "a literal has the value written", fa, want, on(fa, only(L, **{L + ".literal": "Some"}), {tt: tk[n]}))
    for n in ("parse_integer_literal", "parse_floating_point_literal"):
        err_fatal(rep, "literal/%s/fatal" % n, "a malformed number is rejected", fa, fa.calls(n))
    never(rep, "literal/unknown", "anything else is rejected", fa, None, assume=on(fa, only(L, **{L + ".literal": "Some"}), {tt: 9999}))
    never(rep, "empty", "an empty value is rejected", fa, None, assume=on(fa, {k: "None" for k in kinds}))
    for b in fa.calls("walk_json_value"):
        err_fatal(rep, "nested/fatal", "a malformed nested value is rejected", fa, [b])
    # strings and floats
    f = ctx.fa("reader::get_string_from_literal")
    got = ret_under(f)
    s = f.pname[0]
    inner = [x for x in got if x.startswith("unescape_java(")]
    rep.add("string/unquoted", len(inner) == 1 and got <= {inner[0], s} if inner else False, "a string literal is what stands between its quotes, with escapes replaced", f.dn, str(sorted(got))[:300])
    for x in inner:
        odd = set(re.findall(r"(\w+)\(", x)) - {"unescape_java", "len", "strip_prefix", "strip_suffix", "get", "chars", "as_str", "next", "next_back", "split_at", "split_first", "split_last", "saturating_sub", "unwrap_or"}
        rep.add("string/quotes", not odd, "of a string literal exactly its two quotes are taken off", f.dn, "it goes through %s" % sorted(odd))
    f = ctx.fa("reader::parse_floating_point_literal")
    x = "parse_float_text(%s)" % f.pname[0]
    def cls(**k):
        return {"is_nan(%s)" % x: k.get("nan", False), "is_infinite(%s)" % x: k.get("inf", False), "is_sign_positive(%s)" % x: k.get("pos", True), "is_sign_negative(%s)" % x: not k.get("pos", True),
                "is_finite(%s)" % x: not (k.get("nan") or k.get("inf"))}
    for n, a, w in (("nan", cls(nan=True), "String('NaN')"), ("infinity", cls(inf=True), "String('Infinity')"), ("-infinity", cls(inf=True, pos=False), "String('-Infinity')")):
        is_(rep, "float/%s" % n, "NaN and infinities become the strings Avro uses for them", f, w, a)
    is_(rep, "float/finite", "a finite number is that number", f, lambda s: s.startswith("Number(") and "from_f64(%s)" % x in s or s.startswith("String(") or "from_f64(%s)" % x in s, cls())


@rule("P31")
def integers(ctx, rep):
    from rules.parse import is_
    fa = ctx.fa("reader::parse_integer_literal")
    N = "replace(%s,'_','')" % fa.pname[0]
    pre = ("0x", "0X", "-", "-0x", "-0X", "0", "-0")

    def at(text, fits=True):
        """the literal (without separators and suffix) starts as `text` does"""
        d = {"starts_with(%s,'%s')" % (N, p): text.startswith(p) for p in pre}
        d["contains(%s,'.')" % N] = False
        d["len(%s)" % N] = len(text)
        d.update({"strip_prefix(%s,'%s')" % (N, p): "Some" if text.startswith(p) else "None" for p in pre})
        inner = fa._mkassume({k: v for k, v in d.items() if not k.startswith("len")})

        def f(t, adt=None):
            r = inner(t, adt)
            if r is not None or adt is not None or t.k != "bin":
                return r
            if t.a[0] in ("Eq", "Ne") and any(x.k == "cast" for x in t.a[1:3]):
                return (t.a[0] == "Eq") == fits
            x, y = (num_(fa, z, {"len(%s)" % N: len(text)}) for z in t.a[1:3])
            from rules.parse import CMP
            return CMP[t.a[0]](x, y) if t.a[0] in CMP and x is not None and y is not None else None
        return RawAssume(f)

    def cut(n, *names):
        alts = {"%s[RangeFrom{start:%d}]" % (N, n)}
        alts |= {"strip_prefix(%s,'%s')" % (N, x) for x in names} | {"trim_start_matches(%s,'%s')" % (N, x) for x in names}
        return alts
    neg = lambda xs: {"Neg(%s)" % x for x in xs}
    table = [
        ("hexadecimal", ("0x1F", "0X1F"), {"from_str_radix(%s,16)" % c for c in cut(2, "0x", "0X")}),
        ("negative-hexadecimal", ("-0x1F", "-0X1F"), neg("from_str_radix(%s,16)" % c for c in cut(3, "-0x", "-0X"))),
        ("octal", ("017",), {"from_str_radix(%s,8)" % c for c in {N} | cut(1, "0")}),
        ("negative-octal", ("-017",), neg("from_str_radix(%s,8)" % c for c in cut(1, "-") | cut(2, "-0"))),
        ("decimal", ("17", "-17", "0"), {"parse(%s)" % N, "from_str_radix(%s,10)" % N}),
    ]
    for name, texts, vals in table:
        for t in texts:
            for fits in (True, False):
                got = built(fa, at(t, fits))
                want = {"Number(%s)" % v for v in vals} | {"Number(try_from(%s))" % v for v in vals}
                if fits:
                    want |= {"Number(%s as i32)" % v for v in vals}
                rep.add("integer/%s/%s/%s" % (name, t, "int" if fits else "long"), bool(got) and got <= want, "a %s literal has the value written" % name, fa.dn, str(sorted(got))[:400])
    sizes(ctx, rep)
    # separators and the suffix
    rep.add("integer/separators", bool(fa.calls("replace", arg={0: lambda s: s == fa.pname[0]})) or bool(fa.calls("filter", "chars")), "digit separators are ignored", fa.dn)


@rule("P31")
def floats(ctx, rep):
    """words, suffixes, signs and the hexadecimal form of floating-point numbers"""
    from rules.parse import built
    fa = ctx.fa("reader::parse_float_text", inline={"parse_hex_float_mantissa_and_exponent"})
    T = fa.pname[0]
    for lit, want in (("NaN", {"'NaN'", "Neg('NaN')"}), ("+NaN", {"'NaN'"}), ("-NaN", {"'NaN'", "Neg('NaN')"}), ("Infinity", {"'inf'"}), ("+Infinity", {"'inf'"}), ("-Infinity", {"'-inf'", "Neg('inf')"})):
        got = built(fa, A({}, {T: lit}))
        rep.add("float/word/%s" % lit, bool(got) and got <= want | {"parse(%s)" % T}, "NaN and the infinities have the value written", fa.dn, str(sorted(got))[:300])
    letters = "['f','F','d','D']"
    ends = [b for b in fa.calls("ends_with", "strip_suffix") if fa.argc(b)[0] == T]
    for b in ends:
        chars = fa.argc(b)[1]
        if chars.startswith("["):
            rep.add("float/suffix", sorted(re.findall(r"'(.)'", chars)) == sorted("fFdD"), "the suffixes f, F, d and D, and no others, are no part of the number", fa.where(b), chars)
    signs = [b for b in fa.calls("strip_prefix") if fa.argc(b)[1] in ("'-'", "'+'")]
    pre = [b for b in fa.calls("starts_with", "strip_prefix") if fa.argc(b)[1].lower() == "'0x'"]
    dec = [b for b in fa.calls("parse") if "'p'" not in fa.argc(b)[0]]
    rep.add("float/decimal", bool(dec), "a decimal number is read", fa.dn)
    for p in ("0x", "0X"):
        d = {}
        for b in pre:
            x, y = fa.argc(b)[:2]
            hit = y == ("'%s'" % (p.lower() if "lowercase(" in x else p.upper() if "uppercase(" in x else p))
            d[outcome(fa, b)] = hit if last(fa.g.B[b]["t"]["f"]) == "starts_with" else ("Some" if hit else "None")
        if not pre:
            continue
        rep.add("float/hex/%s" % p, any(v in (True, "Some") for v in d.values()), "%s starts a hexadecimal number" % p, fa.dn)
        for b in dec:
            r = run(fa, None, (), None, {b}, A(d))
            rep.add("float/hex/%s/read" % p, r is None, "a hexadecimal number is not read as a decimal one", fa.where(b), path_text(fa, r) if r else "")
    for b in fa.calls("from_str_radix", "to_digit"):
        rep.add("float/hex/base", fa.argc(b)[1] == "16", "the digits of a hexadecimal number have base sixteen", fa.where(b), str(fa.argc(b)[1]))
    # the sign
    minus = [b for b in signs if fa.argc(b)[1] == "'-'"]
    if minus and pre:
        on_ = {outcome(fa, b): True if last(fa.g.B[b]["t"]["f"]) == "starts_with" else "Some" for b in pre}
        for s, neg in (("Some", True), ("None", False)):
            got = [x for x in built(fa, A(dict(on_, **{outcome(fa, b): s for b in minus}))) if "powi(" in x]
            rep.add("float/sign/%s" % ("minus" if neg else "plus"), bool(got) and all(bool(re.match(r"^(\('-1' Mul |Neg\(|.* Mul '-1'\)$)", x)) is neg for x in got), "a hexadecimal number has the sign written", fa.dn, str(sorted(got))[:300])
    # the exponent
    for b in fa.calls("powi", "powf", "exp2"):
        a = fa.v.args(b)
        base, e = (a[0], a[1]) if len(a) == 2 else (None, a[0])
        if base is not None and fa.c(base) in ("'16'", "'0.0625'"):
            continue
        c = fa.c(e)
        rep.add("float/exponent/base", base is None or fa.c(base) == "'2'", "the exponent of a hexadecimal number is one of two", fa.where(b), str(fa.argc(b))[:200])
        rep.add("float/exponent/range", bounded(fa, e) <= 1022, "scaling by the exponent stays within the numbers that can be represented", fa.where(b), c[:300])
    for it in iterations(fa, lambda s: s.startswith(("chars(", "bytes(", "char_indices("))):
        rep.add("float/every-digit", not set(it["names"]) & SUBSET, "every digit of a number counts", fa.where(it["b"]), str(it["names"]))
    for x in sorted(built(fa, A({}, {T: "no-word"}))):
        for m in re.finditer(r"to_digit\(.{0,400}?,16\) as f64 Mul ('[^']*'|\('1' Div '16'\))\)", x):
            rep.bad("float/fraction/place", "each digit after the point is worth a sixteenth of the one before", fa.dn, m.group(0)[-200:])
        for m in re.finditer(r"to_digit\(.{0,400}?,16\) as f64 Mul \{([^|{}]*)\|\(μ (Div|Mul) '([^']*)'\)\}", x):
            rep.add("float/fraction", m.group(1) in ("('1' Div '16')", "'0.0625'") and (m.group(2), m.group(3)) in (("Div", "16"), ("Mul", "0.0625")), "each digit after the point is worth a sixteenth of the one before", fa.dn, m.group(0)[-200:])


def bounded(fa, t):
    """a bound of the absolute value of an integer term"""
    inf = 1 << 64
    if t.k == "const":
        try:
            return abs(int(str(fa.c(t))))
        except ValueError:
            return inf
    if t.k == "bin" and t.a[0].startswith("Rem"):
        return max(bounded(fa, t.a[2]) - 1, 0)
    if t.k == "bin" and t.a[0].startswith(("Mul", "Add", "Sub")):
        x, y = bounded(fa, t.a[1]), bounded(fa, t.a[2])
        return x * y if t.a[0].startswith("Mul") else x + y
    if t.k in ("fld", "cast") and hasattr(t.a[0], "k"):
        return bounded(fa, t.a[0])
    if t.k == "un":
        return bounded(fa, t.a[1])
    if t.k == "call":
        f = last(t.a[0])
        if f == "signum":
            return 1
        if f in ("clamp", "min", "max", "rem_euclid") and len(t.a) > 3:
            bs = [bounded(fa, x) for x in t.a[3:]]
            return max(bs) if f == "clamp" else bs[0] if f == "rem_euclid" else inf
    if t.k == "phi":
        return max([bounded(fa, x) for x in fa.v.ops(t)] or [inf])
    return inf


def sizes(ctx, rep):
    """sizes of fixed types, precisions and scales"""
    fa = ctx.fa("reader::parse_integer_as_u32")
    N = "replace(%s,'_','')" % fa.pname[0]
    T = {"trim_start_matches(%s,C)" % N, "trim_start(%s)" % N, N}
    pre = ("0x", "0X", "-", "0", "+")
    cut = lambda n, *names: {"%s[RangeFrom{start:%d}]" % (N, n)} | {"%s(%s,'%s')" % (f, N, x) for x in names for f in ("strip_prefix", "trim_start_matches")}
    table = [("hexadecimal", ("0x1F", "0X1F"), {"from_str_radix(%s,16)" % c for c in cut(2, "0x", "0X")}), ("octal", ("017",), {"from_str_radix(%s,8)" % c for c in {N} | cut(1, "0")}),
             ("decimal", ("17", "0", "9"), {"parse(%s)" % N, "from_str_radix(%s,10)" % N}), ("negative", ("-17", "-0x1", "-017"), {"parse(%s)" % N, "from_str_radix(%s,10)" % N, "from_str_radix(%s,8)" % N})]
    for name, texts, want in table:
        for t in texts:
            d = {}
            for x in T:
                d.update({"starts_with(%s,'%s')" % (x, p): t.startswith(p) for p in pre})
                d.update({"strip_prefix(%s,'%s')" % (x, p): "Some" if t.startswith(p) else "None" for p in pre})
            inner = fa._mkassume(d)

            def f(u, adt=None, inner=inner, t=t):
                if adt is None and u.k == "bin" and u.a[0] in CMPOPS:
                    x, y = (num_(fa, z, {"len(%s)" % N: len(t)}) for z in u.a[1:3])
                    if x is not None and y is not None:
                        return CMPOPS[u.a[0]](x, y)
                if adt is None and u.k == "call" and last(u.a[0]) == "starts_with" and fa._c(u.a[2]) in T and fa._c(u.a[3]) not in {"'%s'" % p for p in pre}:
                    return None
                return inner(u, adt)
            got = {x for x in ret_under(fa, RawAssume(f)) if not x.startswith("Err(")}
            rep.add("size/%s/%s" % (name, t), (bool(got) or name == "negative") and got <= (want | {"from_str_radix(%s,8)" % N} if t == "0" else want), "a %s size, precision or scale has the value written (a negative one has none)" % name, fa.dn, str(sorted(got))[:300])
    rep.add("size/used", bool(callers(ctx, lambda n: n == fa.dn or last(n) == last(fa.dn))), "sizes, precisions and scales are read so", fa.dn)


# -- escapes in strings ---------------------------------------------------------------------------
ESC = {"n": "\n", "r": "\r", "t": "\t", "b": "\x08", "f": "\x0c", "\\": "\\", '"': '"', "'": "'"}


def char_tests(fa):
    """term (a character read from the text) -> set of characters it is compared with"""
    out = {}
    for b in fa.g.rpo:
        t = fa.g.B[b]["t"]
        if t["k"] != "switch":
            continue
        c = fa.v.cond(b)
        if c.k == "bin" and c.a[0] in ("Eq", "Ne"):
            for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                if y.k == "const" and isinstance(y.a[0], (int, str)):
                    out.setdefault(x, set()).add(chr(y.a[0]) if isinstance(y.a[0], int) else y.a[0].strip("'"))
        elif len(t["br"]) > 1 and all(32 <= v < 128 for v, _ in t["br"]):
            out.setdefault(c, set()).update(chr(v) for v, _ in t["br"])
    return out


def charis(fa, terms, ch, d=None):
    """the characters in `terms` (identical reads) are ch"""
    inner = fa._mkassume(d or {})
    cs = {fa._c(t) for t in terms}

    def f(t, adt=None):
        if adt is None and t.k == "bin" and t.a[0] in ("Eq", "Ne", "Le", "Ge", "Lt", "Gt"):
            for x, y, sw in ((t.a[1], t.a[2], False), (t.a[2], t.a[1], True)):
                if x in terms and y.k == "const":
                    k = y.a[0]
                    k = k if isinstance(k, int) else ord(k.strip("'")) if isinstance(k, str) and len(k.strip("'")) == 1 else None
                    if k is None:
                        return None
                    from rules.parse import CMP
                    return CMP[t.a[0]](*((k, ord(ch)) if sw else (ord(ch), k)))
        return inner(t, adt)
    return RawAssume(f)


def linear(t, names):
    """integer term as {name or 1: coefficient}; names: predicate giving the name of an opaque subterm"""
    n = names(t)
    if n:
        return {n: 1}
    if t.k == "const" and isinstance(t.a[0], int):
        return {1: t.a[0]}
    if t.k == "cast":
        return linear(t.a[3], names)
    if t.k == "bin":
        x, y = linear(t.a[1], names), linear(t.a[2], names)
        if x is None or y is None:
            return None
        op = t.a[0].replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("Add", "Sub"):
            out = dict(x)
            for k, v in y.items():
                out[k] = out.get(k, 0) + (v if op == "Add" else -v)
            return {k: v for k, v in out.items() if v}
        if op == "Mul":
            for p, q in ((x, y), (y, x)):
                if set(p) <= {1}:
                    c = p.get(1, 0)
                    return {k: v * c for k, v in q.items() if v * c}
        if op == "Shl" and set(y) <= {1}:
            return {k: v << y.get(1, 0) for k, v in x.items()}
    return None


@rule("P31")
def escapes(ctx, rep):
    fa = ctx.fa("reader::unescape_java")
    tests = char_tests(fa)
    table = {t for t, cs in tests.items() if len({"n", "t", "r", "b", "f"} & cs) >= 4}
    if not table:
        raise Missing("no table of escape characters in unescape_java")
    switches = _switches(fa, table)
    reads = fa.calls("next")
    first = {b for b in reads if run(fa, None, target={b}, avoid={r for r in reads if r != b}) is not None}
    # reads of the character that selects the escape
    second = [b for b in reads if b not in first and run(fa, b, target=lambda x, e: x in switches and x != b, avoid={r for r in reads if r != b}) is not None]
    rep.add("escape/reads", bool(first) and bool(second), "an escape is read as a backslash and what follows it", fa.dn)
    pushes = fa.calls("push", "push_str")
    gone = lambda atoms: any(re.match(r"^next\(", s) and v == "None" for s, v in atoms)
    end = lambda b, e: b in first

    itself = {fa._c(t) for t in table}

    def pushed(want, a, st, same=()):
        out = []
        for b in pushes:
            if run(fa, st, target={b}, avoid=first, assume=a) is not None:
                got = flat(fa, fa.vals(fa.v.args(b)[1], b, assume=a, start=st))
                if got and got <= {want} | set(same):
                    out.append(b)
        return out

    def exactly(key, desc, st, a, wants, ch=None):
        seq = []
        for w in wants:
            good = pushed(w, a, st, itself if ch is not None and w == "'%s'" % ch else ())
            must(rep, "%s/%s" % (key, ascii(w)), desc, fa, good, start=st, target=end, assume=a, excuse=gone)
            seq += good
        r = run(fa, st, target={b for b in pushes if b not in seq}, avoid=first, assume=a)
        r = r if r is None or not any(v == "None" and s.startswith("next(") for b, at in r[2] for s, v in fa.atoms(at, r[1], fa.flow((), a))) else None
        rep.add(key + "/only", r is None, desc, fa.where(r[0]) if r else fa.dn, path_text(fa, r) if r else "")

    for st in second:
        for ch, o in ESC.items():
            w = o
            exactly("escape/%s" % ch, "the escape \\%s stands for the character it denotes" % ch, st, charis(fa, table, ch), ["'%s'" % w], ch)
        # a backslash before any other character stands for itself
        x = flat(fa, {fa._c(t) for t in table}).pop() if len(table) == 1 else None
        nodig = {s: False for s in ("contains(RangeInclusive('0','7',False),%s)" % x, "has(RangeInclusive('0','7',False),%s)" % x, "is_digit(%s,8)" % x)}
        if x:
            exactly("escape/other", "a backslash before any other character is kept", st, charis(fa, table, "q", nodig), ["'\\'", x])
        # numeric escapes are read in their base
        for ch, d, radix in (("u", {}, 16), ("7", {k: True for k in nodig}, 8)):
            a = charis(fa, table, ch, d)
            ps = [b for b in fa.calls("from_str_radix", "to_digit") if run(fa, st, target={b}, avoid=first, assume=a) is not None]
            rep.add("escape/radix/%d" % radix, bool(ps) and all(fa.argc(b)[1] == str(radix) for b in ps), "the digits of a numeric escape are read in base %d" % radix, fa.dn, str([fa.argc(b) for b in ps])[:300])
            for b in ps:
                made = [x for x in flat(fa, fa.vals(fa.v.args(b)[0], b)) if re.match(r"^'.+'$", x)]
                rep.add("escape/digits/%d" % radix, not made, "the digits of a numeric escape are those written", fa.where(b), str(made))
            must(rep, "escape/code/%d" % radix, "a numeric escape stands for the character with that code", fa, [b for b in pushes if any("from_u32(" in x for x in flat(fa, fa.vals(fa.v.args(b)[1], b)))], start=st, target=end,
                 assume=charis(fa, table, ch, dict(d, **{fa._c(fa.v.callval(fa.g.B[b]["t"], b)): "Ok" for b in ps})), excuse=lambda atoms: gone(atoms) or any(s.startswith("from_u32(") and v == "None" for s, v in atoms) or any("try_parse_low_surrogate" in s for s, v in atoms))
    # what is read is otherwise copied
    for f in first:
        a = charis(fa, set(tests), "q")
        x = {fa._c(t) for t in tests}
        good = [b for b in pushes if flat(fa, fa.vals(fa.v.args(b)[1], b)) & x]
        nxt = [y for y in reads if y == f]
        r = run(fa, _some_edge(fa, f), target=end, avoid=set(good), assume=a)
        rep.add("copied", r is None and bool(good), "a character that is not a backslash stands for itself", fa.where(f), path_text(fa, r) if r else "")
        r = run(fa, _some_edge(fa, f), target=set(pushes) - set(good), avoid=first, assume=a)
        rep.add("copied/only", r is None, "a character that is not a backslash stands for itself", fa.where(f), path_text(fa, r) if r else "")
    # surrogate pairs
    for b in fa.calls("from_u32"):
        t = fa.v.args(b)[0]
        if t.k != "bin":
            continue

        def nm(x):
            if x.k in ("bin", "const", "cast"):
                return None
            s = fa._c(x)
            return "low" if "try_parse_low_surrogate" in s else "high" if "from_str_radix" in s else None
        got = linear(t, nm)
        rep.add("escape/pair", got == {"high": 1024, "low": 1, 1: 0x10000 - 0xD800 * 0x400 - 0xDC00}, "a surrogate pair stands for the character it encodes", fa.where(b), str(got))


@rule("P31")
def code_points(ctx, rep):
    """where the ranges of code points and the numbers of digits end"""
    fa = ctx.fa("reader::unescape_java")
    LOW = fa.calls("try_parse_low_surrogate")
    pushes = fa.calls("push", "push_str")
    tests = char_tests(fa)
    table = {t for t, cs in tests.items() if len({"n", "t", "r", "b", "f"} & cs) >= 4}
    heads = {b for b in fa.calls("next") if run(fa, None, target={b}, avoid={r for r in fa.calls("next") if r != b}) is not None}
    hexs = [b for b in fa.calls("from_str_radix") if fa.argc(b)[1] == "16"]
    if not hexs:
        raise Missing("no hexadecimal escapes are read in unescape_java")
    for b in hexs:
        t = fa.v.callval(fa.g.B[b]["t"], b)
        s = fa._c(t)

        def code(n, low=None):
            d = {s: "Ok"}
            for l in LOW:
                d[fa._c(fa.v.callval(fa.g.B[l]["t"], l))] = "Some" if low is not None else "None"
            for u in fa.calls("from_u32"):
                d[fa._c(fa.v.callval(fa.g.B[u]["t"], u))] = "Some"

            def val(x):
                if x.k in ("bin", "const", "cast"):
                    return None
                return n if fa._c(x) == s else low if low is not None and "try_parse_low_surrogate" in fa._c(x) else None
            return concrete(fa, val, d)
        for n, lo in ((0xD800, 0xDC00), (0xDBFF, 0xDFFF), (0xDBFF, 0xDC00)):
            a = code(n, lo)
            good = [p for p in pushes if any("try_parse_low_surrogate" in x and x.startswith("from_u32(") for x in flat(fa, fa.vals(fa.v.args(p)[1], p, assume=a, start=b)))]
            must(rep, "escape/pair/%X-%X" % (n, lo), "a high surrogate followed by a low one is one character", fa, good, start=b, target=lambda x, e: x in heads, assume=a)
        for n in (0x41, 0xD7FF, 0xE000, 0xFFFF):
            a = code(n, 0xDC00)
            good = [p for p in pushes if flat(fa, fa.vals(fa.v.args(p)[1], p, assume=a, start=b)) <= {"from_u32(%s)" % s}]
            must(rep, "escape/single/%X" % n, "an escape that is no high surrogate is one character of its own", fa, good, start=b, target=lambda x, e: x in heads, assume=a)
            never(rep, "escape/single/%X/alone" % n, "an escape that is no high surrogate does not take in the next one", fa, set(LOW), start=b, assume=a, avoid=heads)
    digits = lambda f, b: [f.argc(x) for x in f.calls("take") if len(f.argc(x)) > 1 and f.argc(x)[1].isdigit()]
    for x in digits(fa, None):
        rep.add("escape/hex-digits", x[1] == "4", "a unicode escape has four digits", fa.dn, x[1])
    # octal escapes: up to two digits, three when the first is at most 3
    octs = {b for b in fa.calls("from_str_radix") if fa.argc(b)[1] == "8"}
    reads = set(fa.calls("next", "next_if", "next_if_eq")) - heads
    peeks = {fa._c(fa.v.callval(fa.g.B[b]["t"], b)) for b in fa.calls("peek")}
    switches = _switches(fa, table)
    allr = fa.calls("next")
    second = [b for b in allr if b not in heads and run(fa, b, target=lambda x, e: x in switches and x != b, avoid={r for r in allr if r != b}) is not None]
    rep.add("escape/selected", bool(second), "an escape is read as a backslash and what follows it", fa.dn)
    for st in second:
        for ch, nx, want in (("0", "7", 2), ("3", "0", 2), ("4", "7", 1), ("7", "0", 1), ("3", "8", 0), ("5", "9", 0)):
            def val(x, ch=ch, nx=nx):
                if x in table:
                    return ord(ch)
                if x.k in ("call", "fld", "phi") and any(y.k == "call" and last(y.a[0]) == "peek" for y in fa.v.leaves(x)) and fa._c(x).startswith("peek("):
                    return ord(nx)
                return None
            base = concrete(fa, val, {p: "Some" for p in peeks})
            got = path_counts(fa, st, octs, reads - {st}, base, avoid=heads)
            if got and max(got) < 6 and len(reads - {st}) > 1:
                rep.add("escape/octal/%s%s" % (ch, nx), got == {want}, "an octal escape has up to two digits, or three when the first is at most 3", fa.where(st), "%s further digits" % sorted(got))
    f = ctx.fa("reader::try_parse_low_surrogate")
    hexs = [b for b in f.calls("from_str_radix")]
    for x in digits(f, None):
        rep.add("escape/low/digits", x[1] == "4", "a unicode escape has four digits", f.dn, x[1])
    for b in hexs:
        rep.add("escape/low/radix", f.argc(b)[1] == "16", "the digits of a unicode escape are read in base 16", f.where(b), f.argc(b)[1])
        s = f._c(f.v.callval(f.g.B[b]["t"], b))
        for n, want in ((0xDC00, "Some"), (0xDFFF, "Some"), (0xDBFF, "None"), (0xE000, "None"), (0x41, "None")):
            a = concrete(f, lambda x, n=n: n if x.k not in ("bin", "const", "cast") and f._c(x) == s else None, {s: "Ok"})
            got = set()
            for r, env, path in run(f, b, target="return", assume=a, find_all=True):
                got.add(f.flow((), a).variant(f.flow((), a).retval(r, env)))
            rep.add("escape/low/%X" % n, got == {want}, "exactly the codes DC00 to DFFF are low surrogates", f.where(b), str(got))
        for bb, t in returned_some(f):
            rep.add("escape/low/value", set(flat(f, {f._c(t)})) == {s}, "the low surrogate is the code written", f.where(bb), f._c(t)[:200])


def returned_some(f):
    for b in f.g.rpo:
        if f.g.B[b]["t"]["k"] == "return":
            for x in f.v.alts(f.v.read(f.g.ret, (), b, 1 << 30)):
                if x.k == "agg" and x.a[1] == "Some":
                    yield b, x.a[3]


def _switches(fa, table):
    return {b for b in fa.g.rpo if fa.g.B[b]["t"]["k"] == "switch" and (fa.v.cond(b) in table or fa.v.cond(b).k == "bin" and fa.v.cond(b).a[0] in ("Eq", "Ne") and any(x in table for x in fa.v.cond(b).a if isinstance(x, Term)))}


def _some_edge(fa, b):
    return fa.g.B[b]["t"]["t"][0]


# -- which annotations mean something on which construct -----------------------------------------
MEANING = {"walk_protocol": ("namespace",), "walk_record": ("namespace", "aliases"), "walk_enum": ("namespace", "aliases"), "walk_fixed": ("namespace", "aliases"),
           "walk_variable": ("aliases", "order"), "walk_message": (), "walk_full_type": ()}


def placed(ctx, rep, which, meant=False):
    from rules.parse import WALKERS, walker, prop_inserts, structural, _each_annotation, _annotation_next
    for fn, has in MEANING.items():
        fa = walker(ctx, fn)
        name, ins = prop_inserts(fa)
        nxt = _annotation_next(fa)
        start = _each_annotation(fa)
        if start is None or not ins:
            rep.bad("%s/annotations" % fn, "annotations are read one by one", fa.dn)
            continue
        value = None
        for b, k, v in map_inserts(fa, lambda s: True):
            if k == name:
                value = v
        kinds = WALKERS[fn] if isinstance(WALKERS[fn], tuple) else (WALKERS[fn],)
        attributes = set().union(*(structural(ctx, k) for k in kinds))
        for f in which:
            a = A({name: "Some"}, {name: f})
            writes = {b for b, t in field_writes(fa, f) if run(fa, start, nxt, target={b}, assume=a) is not None}
            if f in has:
                never(rep, "%s/%s/special" % (fn, f), "@%s means the %s here, it is no custom property" % (f, f), fa, set(ins), assume=a, start=start)
                rep.add("%s/%s/set" % (fn, f), bool(writes), "@%s means the %s here" % (f, f), fa.dn)
                continue
            if meant:
                continue
            rep.add("%s/%s/unset" % (fn, f), not writes, "@%s has no meaning here" % f, fa.where(min(writes)) if writes else fa.dn)
            if f not in attributes and fn != "walk_full_type":
                must(rep, "%s/%s/kept" % (fn, f), "@%s has no meaning here and is kept as it is" % f, fa, ins, assume=a, start=start, target=lambda b, e, n=nxt: b in n)
                rep.add("%s/%s/allowed" % (fn, f), run(fa, start, (), None, set(ins), a) is not None, "@%s has no meaning here and is kept as it is" % f, fa.dn)


@rule("P22")
def placed_attributes(ctx, rep):
    placed(ctx, rep, FLAGS)


@rule("P21")
def placed_namespace(ctx, rep):
    placed(ctx, rep, ("namespace",), meant=True)
