"""What the IDL reader must reject: duplicates and constructs the Avro specification forbids."""
from rules import rule
from base import *
from rules.emit import variants_of
from rules.parse import on, lg, sh, built, tokens, ID, wk, is_, dotted, num, CMP, only_kind, pcall, num as num_

SETS = ("insert", "insert_full", "contains", "contains_key", "has", "replace", "get", "entry")


# -- duplicates -------------------------------------------------------------------------------
def seen_assume(fa, key, d=None):
    """`key` was met before: what a search of the keys met so far answers then; d: further assumptions"""
    base = fa._mkassume(A(d or {}))

    def f(t, adt=None):
        r = base(t, adt)
        if r is not None:
            return r
        h = seen_test(fa, fa._c(t), key)
        if adt is None:
            if h is not None:
                return h
            for s2, val in fa.batoms(t, True):
                h2 = seen_test(fa, s2, key)
                if h2 is not None:
                    if val in ("Some", "None"):
                        return h2 == (val == "Some")
                    if isinstance(val, bool):
                        return h2 == val
            return None
        if h is not None and adt.endswith("Option"):
            return "Some" if h else "None"
        return None
    return RawAssume(f)


def seen_test(fa, s, key):
    """what the test s (of the keys met so far) answers when key was met before; None when s is no such test"""
    m = re.match(r"^(insert|insert_full|contains|contains_key|has|replace|get|any|all|find|position)\((.*)\)$", s, re.S)
    if not m:
        return None
    n, rest = m.groups()
    if n in ("any", "all", "find", "position"):
        for x in re.finditer(r"(eq|ne)\(", rest):
            if _eqkey(fa, _call_at(rest, x.start()), key):
                pos = (x.group(1) == "eq") != (rest[:x.start()].endswith("Not("))
                if n == "all":
                    return False if not pos else None
                return True if pos else None
        return None
    a = fa._commas(rest) or []
    if len(a) >= 2 and a[1] == key and not a[0].startswith(("$PropertyContext", "['")):
        return n not in ("insert", "insert_full")
    return None


def _call_at(s, i):
    d = 0
    for k in range(i, len(s)):
        d += s[k] in "([{"
        d -= s[k] in ")]}"
        if d == 0 and s[k] in ")]}":
            return s[i:k + 1]
    return s[i:]


def _eqkey(fa, s, key):
    x = fa._commas(s[3:-1]) if s.endswith(")") else None
    return bool(x) and key in x


def seen_tests(fa, key):
    """(blocks that look key up among the keys met so far, those of them that also record it, other places recording it)"""
    look, both, rec = [], [], []
    for b in fa.g.rpo:
        t = fa.g.B[b]["t"]
        if t["k"] != "call":
            continue
        l = last(t["f"])
        a = fa.argc(b)
        if l in ("insert", "insert_full", "replace") and len(a) == 2 and a[1] == key:
            look.append(b)
            both.append(b)
        elif l in ("contains", "contains_key", "get") and len(a) == 2 and a[1] == key:
            look.append(b)
        elif l in ("any", "find", "position", "find_map", "all") and t.get("clo") and key in fa._c(fa.v.callval(t, b)):
            look.append(b)
    return look, both


THROUGH = ("iter", "into_iter", "chain", "map", "deref", "as_slice", "take", "take_while", "rev", "enumerate", "as_ref", "borrow", "keys", "iter_mut", "filter", "by_ref", "cloned", "copied", "zip")


def roots(fa, b):
    """memory the container searched or extended by the call at b lives in"""
    out, seen = set(), set()
    st = [fa.g.B[b]["t"]["a"][0]]
    while st:
        o = st.pop()
        if o[0] not in ("p", "m", "c") or len(o) < 3 or not isinstance(o[1], int) or o[0] == "c":
            continue
        for path in (tuple(o[2]) + ("*",), tuple(o[2])):
            for r in fa.v.resolve((o[1], path)):
                k = r[0]
                if k in seen:
                    continue
                seen.add(k)
                while isinstance(k, tuple) and k and k[0] == "D":
                    k = k[1]
                d = defining(fa, k)
                if d is None:
                    out.add(k)
                elif d[0] == "call":
                    st += list(d[1])
                else:
                    st += list(d[1])
    return out


def defining(fa, loc):
    """('call', args) when the local is the result of passing a collection through an iterator adaptor or a reborrow"""
    ds = []
    for d in fa.g.rpo:
        for i, (pl, rv, ln) in enumerate(fa.g.B[d]["s"]):
            if pl[0] == loc and not pl[1]:
                ds.append(("s", rv))
        t = fa.g.B[d]["t"]
        if t["k"] == "call" and t.get("d") and t["d"][0] == loc and not t["d"][1]:
            ds.append(("c", t))
    if len(ds) != 1:
        return None
    k, x = ds[0]
    if k == "c":
        return ("call", x["a"]) if last(x["f"]) in THROUGH else None
    if x["r"] == "ref" and x.get("p"):
        return ("ref", [("p",) + tuple(x["p"])])
    if x["r"] == "use" and x.get("a") and x["a"][0] == "p":
        return ("ref", [x["a"]])
    return None


SHRINK = ("clear", "drain", "remove", "retain", "take", "truncate", "pop", "swap_remove")


def resets(fa, rs, b):
    """places at which the container in memory rs is created afresh or loses elements"""
    out = []
    for d in fa.g.rpo:
        for i, (pl, rv, ln) in enumerate(fa.g.B[d]["s"]):
            if pl[0] in rs and not pl[1]:
                out.append(d)
        t = fa.g.B[d]["t"]
        if t["k"] == "call":
            dd = t.get("d")
            if dd and dd[0] in rs and not dd[1]:
                out.append(d)
            elif last(t["f"]) in SHRINK and t["a"] and d != b and roots(fa, d) & rs:
                out.append(d)
    return out


def no_duplicates(rep, key, what, fa, coll, k, d=None, extra=(), excuse=None, start=None):
    """Two elements of coll with the same key k are never both accepted."""
    look, both = seen_tests(fa, k)
    desc = "two %s are rejected" % what
    foreach(rep, key + "/checked", desc, fa, coll, look, round_only=True, excuse=excuse)
    rejects_each(rep, key + "/fatal", desc, fa, coll, seen_assume(fa, k, d), some=True, start=start)
    # the keys accumulate over all elements
    mem = set()
    for b in look:
        rs = roots(fa, b)
        mem |= rs
        x = resets(fa, rs, b)
        r = run(fa, b, target=set(x)) if x else None
        ok = r is None or (len(rs) > 1 and any(not set(resets(fa, {m}, b)) or run(fa, b, target=set(resets(fa, {m}, b))) is None for m in rs))
        rep.add(key + "/accumulate", ok, "every earlier element is remembered (%s)" % what, fa.where(b), "the keys met so far are forgotten: " + path_text(fa, r) if r else "")
    if not both:
        recs = list(extra)
        for b in fa.calls("push", "insert", "append", "extend", "push_back", "insert_full"):
            if fa.g.B[b]["t"]["a"] and roots(fa, b) & mem:
                recs.append(b)
        foreach(rep, key + "/recorded", "every element is remembered (%s)" % what, fa, coll, recs, round_only=True, excuse=excuse)


@rule("P17")
def duplicates(ctx, rep):
    fa = wk(ctx, "walk_record")
    fc = [b for b in fa.calls("walk_field_declaration")]
    rep.add("fields/walked", bool(fc), "fields are read", fa.dn)
    for b in fc:
        F = outcome(fa, b)
        no_duplicates(rep, "fields", "fields of a record with the same name", fa, F, F + "[].name", start=b)
    fa = wk(ctx, "walk_enum")
    sc = lg(fa, "enumSymbol_all(@)")
    no_duplicates(rep, "symbols", "symbols of an enum with the same name", fa, sc, "identifier_text(identifier(%s[]))" % sc, {"identifier(%s[])" % sc: "Some"}, excuse=exc(("identifier(%s[])" % sc, "None")))
    fa = wk(ctx, "walk_message")
    pc = lg(fa, "formalParameter_all(@)")
    for b in fa.calls("walk_variable"):
        no_duplicates(rep, "params", "parameters of a message with the same name", fa, pc, outcome(fa, b) + ".name")
    fa = wk(ctx, "walk_union_type")
    for b in fa.calls("walk_full_type"):
        T = outcome(fa, b)
        bc = lambda s, T=T: s in ("[%s]" % T, lg(fa, "fullType_all(@)"))
        no_duplicates(rep, "union", "branches of a union of the same type", fa, bc, "union_type_key(%s)" % T)
        rejects_each(rep, "union/nested", "a union directly inside a union is rejected", fa, bc, {T: "Union"}, some=True)
    keys(ctx, rep)


def keys(ctx, rep):
    """what counts as the same type in a union"""
    f = ctx.fa("model::schema::AvroSchema::union_type_key", inline={"full_name", "primitive_type_name", "as_str"})
    S = "$AvroSchema"
    prim = {}
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        got = ret_under(f, {S: v})
        if v in ("Record", "Enum", "Fixed", "Reference"):
            want = {"make_full_name(%s.%s.name,%s.%s.namespace)" % (S, v, S, v)}
            rep.add("union/key/%s" % v, got == want, "a named type is known in a union by its full name", f.dn, str(sorted(got))[:300])
        elif v in ("Array", "Map", "Union") or v not in ("AnnotatedPrimitive", "Logical"):
            ok = len(got) == 1 and re.match(r"^'\w+'$", list(got)[0]) is not None
            rep.add("union/key/%s" % v, ok, "an unnamed type is known in a union by its kind", f.dn, str(sorted(got))[:300])
            if ok:
                prim[v] = list(got)[0]
    for v, s in prim.items():
        rep.add("union/key/distinct/%s" % v, [x for x in prim if prim[x] == s] == [v], "different kinds of type do not clash in a union", f.dn, s)
    f2 = ctx.fa("model::schema::AvroSchema::union_type_key", inline={"full_name"})
    pk = variants_of(ctx, "avdl::model::schema::PrimitiveType")
    st = ctx.fa("model::schema::PrimitiveType::as_str")
    strs = {}
    for p in pk:
        g = ret_under(st, {st.pname[0]: p})
        strs[p] = g
        rep.add("union/key/primitive/%s" % p, p not in prim or g == {prim[p]}, "an annotated primitive type is known in a union by its type", st.dn, "%s, not %s" % (sorted(g), prim.get(p)))
    got = ret_under(f2, {S: "AnnotatedPrimitive"})
    got.discard("primitive_type_name(%s)" % S)
    rep.add("union/key/AnnotatedPrimitive", got <= {"as_str(%s.AnnotatedPrimitive.kind)" % S, S + ".AnnotatedPrimitive.kind"} and bool(got), "an annotated primitive type is known in a union by its type", f2.dn, str(sorted(got))[:300])
    got = ret_under(f2, {S: "Logical"})
    L = "expected_base_type(%s.Logical.logical_type)" % S
    got.discard("primitive_type_name(%s)" % S)
    rep.add("union/key/Logical", got <= {"as_str(%s)" % L, L} and bool(got), "a logical type is known in a union by its underlying type", f2.dn, str(sorted(got))[:300])


# -- semantic rejections -----------------------------------------------------------------------
@rule("P19")
def names(ctx, rep):
    f = ctx.fa("reader::is_invalid_type_name")
    n = f.pname[0]
    for lit in ("null", "boolean", "int", "long", "float", "double", "bytes", "string", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid"):
        got = ret_under(f, A({}, {n: lit}))
        r = run(f, None, target=lambda b, e, f=f: False)
        rep.add("builtin/%s" % lit, _always(f, A({}, {n: lit}), True), "%s is recognised as the name of a built-in type" % lit, f.dn, str(got))
    rep.add("builtin/other", _always(f, A({}, {n: "NoSuchType"}), False), "other names are not taken for built-in types", f.dn, str(ret_under(f, A({}, {n: "NoSuchType"}))))
    for fn, what in (("walk_record", "record or error"), ("walk_enum", "enum"), ("walk_fixed", "fixed"), ("walk_protocol", "protocol")):
        fa = wk(ctx, fn)
        for case, name, d in (("plain", ID, {dotted(ID): "None"}), ("dotted", dotted(ID) + ".1", {dotted(ID): "Some"})):
            w = [fa.v.args(b)[0] for b in fa.calls("is_invalid_type_name")]
            never(rep, "%s/builtin-name/%s" % (fn, case), "a %s named like a built-in type is rejected" % what, fa, None, assume=on(fa, dict(d, **{"is_invalid_type_name(%s)" % name: True})), watch=w)


def _always(f, a, want):
    """f returns the truth value `want` under a"""
    got = set()
    for b in f.g.rpo:
        if f.g.B[b]["t"]["k"] != "return":
            continue
        t = f.v.read(f.g.ret, (), b, 1 << 30)
        fl = f.flow([t], a)
        for bb, env, path in fl.run(f.g.entry, target=lambda x, e: x == b, find_all=True):
            x = fl.rs(t, env)
            r = fl.ev(x, env)
            v = r[2]
            got.add(v if r[0] != "nbool" or v is None else not v)
    return got == {want}


@rule("P19")
def enum_default(ctx, rep):
    fa = wk(ctx, "walk_enum")
    D = lg(fa, "identifier_text(identifier(enumDefault(@)))")
    d = {lg(fa, "enumDefault(@)"): "Some", lg(fa, "identifier(enumDefault(@))"): "Some"}
    never(rep, "enum-default", "an enum whose default is not one of its symbols is rejected", fa, None, assume=absent(fa, D, d))


def absent(fa, key, d):
    """no element of any collection equals key"""
    pos = seen_assume(fa, key).f
    base = fa._mkassume(A(d))

    def f(t, adt=None):
        r = base(t, adt)
        if r is not None:
            return r
        r = pos(t, adt)
        if r is True or r is False:
            return not r
        if r == "Some":
            return "None"
        if adt is None:
            for s, val in fa.batoms(t, True):
                if s.startswith("eq(") and key in s and isinstance(val, bool):
                    return val is False
        return None
    return RawAssume(f)


@rule("P19", "P20")
def decimals(ctx, rep):
    tk = tokens(ctx)
    fa = wk(ctx, "walk_primitive_type")
    tt = "get_token_type(@.typeName)"
    P, S = "parse_integer_as_u32(get_text(@.precision))", "parse_integer_as_u32(get_text(@.scale))"
    base = {"@.typeName": "Some", "@.precision": "Some"}
    never(rep, "decimal/precision-0", "a decimal of precision zero is rejected", fa, None, assume=on(fa, dict(base), {tt: tk["Decimal"], P: 0}))
    for p, s in ((1, 2), (5, 6), (5, 9)):
        never(rep, "decimal/scale/%d-%d" % (p, s), "a decimal whose scale exceeds its precision is rejected", fa, None, assume=on(fa, dict(base, **{"@.scale": "Some"}), {tt: tk["Decimal"], P: p, S: s}))
    for v, w in (("precision", P), ("scale", S)):
        never(rep, "decimal/%s/bad" % v, "a decimal whose %s is not a number is rejected" % v, fa, None, assume=on(fa, dict(base, **{"@.scale": "Some", w: "Err"}), {tt: tk["Decimal"]}))
    for p, s in ((1, 1), (5, 5), (5, 4), (9, 0)):
        r = run(fa, None, assume=on(fa, dict(base, **{"@.scale": "Some", P: "Ok", S: "Ok"}), {tt: tk["Decimal"], P: p, S: s}))
        rep.add("decimal/valid/%d-%d" % (p, s), r is not None, "a valid decimal is accepted", fa.dn)
    fa = wk(ctx, "walk_fixed")
    never(rep, "fixed/size", "a fixed whose size is not a number is rejected", fa, None, assume=on(fa, {"parse_integer_as_u32(get_text(@.size))": "Err"}))


@rule("P19")
def messages(ctx, rep):
    fa = wk(ctx, "walk_message", "walk_result_type")
    R = "walk_plain_type(plainType(resultType(@)),$CommonTokenStream,$SourceInfo,$Option)"
    base = {"@.oneway": "Some", "Void(resultType(@))": "None", "plainType(resultType(@))": "Some"}
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v != "Null":
            never(rep, "oneway/%s" % v, "a one-way message that does not respond with void is rejected", fa, None, assume=nonnull(fa, dict(base, **{R: v}), lg(fa, R), v))
    R2 = lg(fa, R)
    never(rep, "annotated-response", "annotations on a message that responds with a named type are rejected", fa, None,
          assume=on(fa, {"is_type_reference(%s)" % R: True, "empty(@P.properties)": False, "Void(resultType(@))": "None", "plainType(resultType(@))": "Some"}),
          watch=[fa.v.args(b)[0] for b in fa.calls("is_type_reference")])
    fa = wk(ctx, "walk_full_type")
    T = "walk_plain_type(plainType(@),$CommonTokenStream,$SourceInfo,$Option)"
    never(rep, "annotated-reference", "annotations on a reference to a named type are rejected", fa, None, assume=on(fa, {"is_type_reference(%s)" % T: True, "empty(@P.properties)": False}))
    f = ctx.fa("reader::is_type_reference")
    S = "$AvroSchema"
    rep.add("reference/plain", _always(f, {S: "Reference"}, True), "a reference is recognised", f.dn)
    U = S + ".Union"
    a = {S: "Union", U + ".is_nullable_type": True, U + ".types[]": "Reference", "next(%s.types)" % U: "Some"}
    rep.add("reference/optional", _always(f, a, True), "an optional reference is recognised", f.dn)
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v not in ("Reference", "Union"):
            rep.add("reference/not/%s" % v, _always(f, {S: v}, False), "other types are not taken for references", f.dn)


def nonnull(fa, d, t, v):
    """assumptions d, and any comparison of t (a value of variant v) with null finds them different"""
    base = on(fa, d)
    inner = fa._mkassume(base)

    def f(x, adt=None):
        r = inner(x, adt)
        if r is not None or adt is not None:
            return r
        for s, val in fa.batoms(x, True):
            if s.startswith("eq(") and s.endswith(")") and isinstance(val, bool):
                y = fa._commas(s[3:-1])
                if y and "Null" in y and any(t in z for z in y if z != "Null"):
                    return val is False
        return None
    return RawAssume(f)


@rule("P19")
def optional_null(ctx, rep):
    fa = wk(ctx, "walk_nullable_type")
    T = "walk_primitive_type(primitiveType(@),$SourceInfo)"
    never(rep, "optional-null", "an optional null type is rejected", fa, None, assume=on(fa, {"@.optional": "Some", "primitiveType(@)": "Some", T: "Null"}))
