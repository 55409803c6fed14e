"""JSON emission: completeness, one definition per named type, structural keys, determinism."""
from rules import rule
from base import *
from base import _next_edges

S = "$AvroSchema"
NAMED = {"Record": "record", "Enum": "enum", "Fixed": "fixed"}
ORDER_BAD = {"rev", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "swap",
             "dedup", "dedup_by", "dedup_by_key", "retain", "truncate", "drain", "pop", "remove", "swap_remove", "split_off", "clear", "rotate_left", "rotate_right"} | SUBSET


def sj(ctx):
    return ctx.fa("model::json::schema_to_json", inline={"named_type_preamble", "finish_named_type", "primitive_type_name"})


def full(v):
    return "make_full_name(%s.%s.name,%s.%s.namespace)" % (S, v, S, v)


def fresh(v, extra=None):
    """assumptions: a schema of variant v that has not been serialized yet"""
    d = {S: v}
    if v in NAMED or v == "Reference":
        d["has($HashSet,%s)" % full(v)] = False
    d.update(extra or {})
    return d


def puts(fa):
    """[(block, key, value, term of the value)] of everything that puts entries into a JSON object"""
    if getattr(fa, "_puts", None) is not None:
        return fa._puts
    out = [(b, k, v, fa.v.args(b)[-1]) for b, k, v in map_inserts(fa, lambda s: not s.startswith("$HashSet"))]
    for b in fa.calls("extend", "from_iter", "collect", "append", "from"):
        t = fa.v.args(b)[-1]
        if last(fa.g.B[b]["t"]["f"]) in ("from_iter", "collect", "from") and fa._dty(fa.g.B[b]["t"]["site"]) not in ("Map", "HashMap", "BTreeMap", "IndexMap"):
            continue
        e = fa.v.elemof(t)
        for x in fa.v.alts(e) if e.k in ("phi", "join") else [e]:
            if x.k == "tup" and len(x.a) == 2:
                out.append((b, fa.c(x.a[0]), fa.c(x.a[1]), x.a[1]))
            elif x.k == "elem":
                s = fa._elem(x.a[0])
                p = fa._commas(s[1:-1]) if s.startswith("(") else None
                if s.startswith("{"):
                    for y in fa._split(s):
                        p = fa._commas(y[1:-1]) if y.startswith("(") else None
                        if p and len(p) == 2:
                            out.append((b, p[0], p[1], None))
                elif p and len(p) == 2:
                    out.append((b, p[0], p[1], None))
                else:
                    out.append((b, s + ".0", s + ".1", None))
    fa._puts = out
    return out


def keyed(fa, key):
    """blocks that put `key` into some JSON object"""
    k = "'%s'" % key
    return [(b, val, t) for b, kk, val, t in puts(fa) if kk == k]


def anyret(fa):
    return lambda b, e: fa.g.B[b]["t"]["k"] == "return"


def entries(fa, s):
    """[(key, value)] of the canonical contents of a map"""
    out = []
    for x in fa._commas(s) or []:
        p = fa._commas(x[1:-1]) if x.startswith("(") and x.endswith(")") else None
        if p and len(p) == 2:
            out.append((p[0], p[1]))
        else:
            d = 0
            for i, ch in enumerate(x):
                d += (ch in "{([") - (ch in "})]")
                if ch == "=" and d == 0:
                    out.append((x[:i], x[i + 1:]))
                    break
            else:
                out.append((x, ""))
    return out


def has_entry(fa, key, assume):
    """the returned objects under `assume`: {value strings of `key`}, None if some returned value has no such entry"""
    out = set()
    for r in ret_under(fa, assume):
        m = re.match(r"^Object\(\[(.*)\]\)$", r)
        if not m:
            return None, r
        ent = [x for k, x in entries(fa, m.group(1)) if k == "'%s'" % key]
        if not ent:
            return None, r
        out |= set(ent)
    return out, None


def attr(rep, tag, fa, key, want, assume, desc, bad_ops=None):
    """Under `assume`, every returned object has `key` with the value `want` (string or predicate)."""
    ok_ = want if callable(want) else (lambda s: s == want)
    ks = keyed(fa, key)
    evs = [b for b, v, t in ks]
    if not must(rep, "%s/%s" % (tag, key), desc, fa, evs, assume=assume, target="return"):
        return False
    # with the right value, wherever it is inserted
    good = True
    for b, v, t in ks:
        if run(fa, target={b}, assume=assume) is None:
            continue
        got = flat(fa, fa.vals(t, b, assume=assume)) if t is not None else flat(fa, {v})
        bad = sorted(x for x in got if not ok_(x))
        if bad or not got:
            good = False
            rep.bad("%s/%s/value" % (tag, key), desc, fa.where(b), "\"%s\" is given the value %s" % (key, bad[:3] or "unreachable"))
        for n in order_ops(fa, t, bad_ops) if t is not None else []:
            rep.bad("%s/%s/elements" % (tag, key), "all elements are emitted, in order", fa.where(b), "the emitted list goes through %s" % n)
            good = False
    ent, r = has_entry(fa, key, assume)
    if ent is None:
        good = False
        rep.bad("%s/%s/returned" % (tag, key), desc, fa.dn, "a returned value lacks \"%s\": %s" % (key, r[:200]))
    if good:
        rep.ok("%s/%s/value" % (tag, key), desc, fa.where(evs[0]))
    return good


def absent(rep, tag, fa, key, assume, desc):
    never(rep, "%s/no-%s" % (tag, key), desc, fa, {b for b, _, _ in keyed(fa, key)}, assume=assume)


def chain(fa, t):
    """(name, term) of the operations between a list value and the collection its elements come from"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, Term):
            continue
        seen.add(x)
        if x.k in ("phi", "join"):
            st += self_ops(fa, x)
        elif x.k == "agg" and len(x.a) == 4:
            st.append(x.a[3])
        elif x.k == "fld":
            st.append(x.a[0])
        elif x.k == "mut":
            out.append((last(str(x.a[0])), x))
            st.append(x.a[4])
        elif x.k == "call" and len(x.a) > 2:
            out.append((last(str(x.a[0])), x))
            st.append(x.a[2])
    return out


def self_ops(fa, x):
    return list(fa.v.ops(x)) if x.k == "phi" else list(x.a)


def order_ops(fa, t, bad_ops=None):
    """operations applied to the elements of an emitted list that drop or reorder them"""
    return [n for n, x in chain(fa, t) if n in (bad_ops or ORDER_BAD)]


def elements(rep, tag, fa, coll, evs, assume, desc):
    """Each element of coll meets one of evs, in order, before anything is returned."""
    ok = foreach(rep, tag + "/each", desc, fa, coll, evs, assume=assume, target=anyret(fa))
    for it in iterations(fa, coll):
        n = [x for x in it["names"] if x in ("rev",)]
        rep.add(tag + "/order", not n, desc + ", in order", fa.where(it["b"]), "iterated through %s" % n)
    return ok


def props(rep, tag, fa, P, assume):
    """Every custom property is copied with its value."""
    ins = [x for x in puts(fa) if x[1] == P + "[].0" and x[2] == P + "[].1"]
    evs = [x[0] for x in ins if last(fa.g.B[x[0]]["t"]["f"]) not in ("extend", "from_iter", "collect", "append")]
    ext = [x[0] for x in ins if x[0] not in evs and not set(n for n, _ in chain(fa, fa.v.args(x[0])[-1])) & SUBSET]
    d = "every custom property of a %s is emitted with its value" % tag
    if ext and must(Report(""), "", "", fa, ext, assume=assume, target="return"):
        rep.ok("%s/properties" % tag, d, fa.where(ext[0]))
    else:
        foreach(rep, "%s/properties" % tag, d, fa, P, evs, assume=assume, target=anyret(fa))
    for r in ret_under(fa, assume):
        rep.add("%s/properties/returned" % tag, r.startswith("Object([") and {(P + "[].0", P + "[].1"), (P + "[]", "")} & set(entries(fa, r[8:-2])), d, fa.dn, "returned: " + r[:300])


def only_value(rep, tag, fa, assume, desc, want):
    """what is returned under `assume`"""
    got = ret_under(fa, assume)
    bad = [x for x in got if not want(x)]
    rep.add(tag, bool(got) and not bad, desc, fa.dn, "returns " + "; ".join(x[:300] for x in bad))


# -- P12: completeness --------------------------------------------------------------------------
def rec(fa, fn, X, ns):
    """value of a recursive call on X within enclosing namespace ns"""
    def f(s):
        m = re.match(r"^%s\((.*)\)$" % fn, s)
        if not m:
            return False
        a = fa._commas(m.group(1))
        return a is not None and len(a) == 4 and a[0] == X and "$HashSet" in a[1] and a[2] in ns and a[3] == "$HashMap"
    return f


def arr(p):
    def f(s):
        m = re.match(r"^Array\(\[(.*)\]\)$", s)
        return bool(m) and p(m.group(1))
    return f


def nsalts(ns):
    return {ns, "{%s|''}" % ns, "{''|%s}" % ns}


@rule("P12")
def named(ctx, rep):
    fa = sj(ctx)
    for v, tn in NAMED.items():
        X = "%s.%s" % (S, v)
        a = fresh(v)
        if v == "Record":
            for e, w in ((True, "error"), (False, "record")):
                attr(rep, "record" if not e else "error", fa, "type", "String('%s')" % w, fresh(v, {X + ".is_error": e}), "%s definition is emitted with type \"%s\"" % (("an error's" if e else "a record's"), w))
        else:
            attr(rep, tn, fa, "type", "String('%s')" % tn, a, "the definition of a %s has type \"%s\"" % (tn, tn))
        attr(rep, tn, fa, "name", "String(%s.name)" % X, a, "the definition of a %s has its name" % tn)
        attr(rep, tn, fa, "doc", "String(%s.doc)" % X, fresh(v, {X + ".doc": "Some"}), "the doc of a %s is emitted" % tn)
        absent(rep, tn, fa, "doc", fresh(v, {X + ".doc": "None"}), "no doc is invented for a %s" % tn)
        attr(rep, tn, fa, "aliases", "Array([String(alias_ref_name(%s.aliases[],%s.namespace))])" % (X, X), fresh(v, {"empty(%s.aliases)" % X: False}), "the aliases of a %s are emitted" % tn)
        its = [it["b"] for it in iterations(fa, X + ".aliases")]
        rep.add("%s/aliases/iter" % tn, bool(its), "each alias of a %s is visited" % tn, fa.dn)
        props(rep, tn, fa, X + ".properties", a)
        # namespace: emitted exactly as needed to give the type its own namespace
        for case, d in (("own", {X + ".namespace": "Some", "$Option": "None"}), ("other", {X + ".namespace": "Some", "$Option": "Some"}), ("null", {X + ".namespace": "None", "$Option": "Some"})):
            asm = differ(fa, fresh(v, d), X + ".namespace", "$Option", case)
            def okv(s, X=X, case=case):
                m = re.match(r"^String\((.*)\)$", s)
                if not m:
                    return False
                al = alts_of(fa, m.group(1)) - {"None"}
                return al <= {X + ".namespace", "''"} and ("''" if case == "null" else X + ".namespace") in al
            ks = keyed(fa, "namespace")
            evs = [b for b, _, _ in ks]
            d2 = "a %s whose namespace differs from the enclosing one is emitted with it" % tn
            if must(rep, "%s/namespace/%s" % (tn, case), d2, fa, evs, assume=asm, target="return"):
                for b, v0, t in ks:
                    if run(fa, target={b}, assume=asm) is None:
                        continue
                    got = fa.vals(t, b, assume=asm) if t is not None else {v0}
                    rep.add("%s/namespace/%s/value" % (tn, case), bool(got) and all(okv(g) for g in got), d2, fa.where(b), "value %s" % sorted(got)[:4])
    X = S + ".Record"
    attr(rep, "record", fa, "fields", arr(rec(fa, "field_to_json", X + ".fields[]", nsalts(X + ".namespace"))), fresh("Record"), "a record is emitted with its fields, in the record's own namespace")
    elements(rep, "record/fields", fa, X + ".fields", fa.calls("field_to_json", arg={0: lambda s: s == X + ".fields[]"}), fresh("Record"), "every field of a record is emitted")
    X = S + ".Enum"
    attr(rep, "enum", fa, "symbols", "Array([String(%s.symbols[])])" % X, fresh("Enum"), "an enum is emitted with its symbols")
    its = iterations(fa, X + ".symbols")
    for it in its:
        rep.add("enum/symbols/order", "rev" not in it["names"] and not set(it["names"]) & SUBSET, "all symbols are emitted, in order", fa.where(it["b"]), str(it["names"]))
    attr(rep, "enum", fa, "default", "String(%s.default)" % X, fresh("Enum", {X + ".default": "Some"}), "the default symbol of an enum is emitted")
    absent(rep, "enum", fa, "default", fresh("Enum", {X + ".default": "None"}), "no default symbol is invented for an enum")
    X = S + ".Fixed"
    attr(rep, "fixed", fa, "size", "Number(%s.size)" % X, fresh("Fixed"), "a fixed is emitted with its size")


def differ(fa, d, a, b, case):
    """Assumptions d plus: namespaces a and b (absent = empty) are different and the present ones are not empty."""
    base = fa._mkassume(d)
    def side(y):
        al = alts_of(fa, y)
        x = al - {"''", "None", "Default"}
        if not x:
            return "absent"
        return "a" if x == {a} else "b" if x == {b} else None
    def f(t, adt=None):
        r = base(t, adt)
        if r is not None or adt is not None:
            return r
        for s, val in fa.batoms(t, True):
            if s.startswith("eq(") and s.endswith(")"):
                x = fa._commas(s[3:-1])
                if x and len(x) == 2:
                    z = sorted(str(side(y)) for y in x)
                    if z == ["a", "b"]:
                        return val is False
                    if z == ["a", "absent"]:
                        return (case == "null") == val
                    if z == ["absent", "b"]:
                        return (case == "own") == val
            m = re.match(r"^empty\((.*)\)$", s)
            if m:
                z = side(m.group(1))
                if z == "a":
                    return (case == "null") == val
                if z == "b":
                    return (case == "own") == val
        return None
    return RawAssume(f)


def alts_of(fa, s):
    return set(fa._split(s)) if s.startswith("{") and fa._bal(s) else {s}


@rule("P12")
def containers(ctx, rep):
    fa = sj(ctx)
    X = S + ".Array"
    attr(rep, "array", fa, "type", "String('array')", fresh("Array"), "an array has type \"array\"")
    attr(rep, "array", fa, "items", rec(fa, "schema_to_json", X + ".items", {"$Option"}), fresh("Array"), "an array is emitted with its items")
    props(rep, "array", fa, X + ".properties", fresh("Array"))
    X = S + ".Map"
    attr(rep, "map", fa, "type", "String('map')", fresh("Map"), "a map has type \"map\"")
    attr(rep, "map", fa, "values", rec(fa, "schema_to_json", X + ".values", {"$Option"}), fresh("Map"), "a map is emitted with its values")
    props(rep, "map", fa, X + ".properties", fresh("Map"))
    X = S + ".Union"
    p = rec(fa, "schema_to_json", X + ".types[]", {"$Option"})
    only_value(rep, "union/value", fa, fresh("Union"), "a union is emitted as the array of its branches", arr(p))
    elements(rep, "union/types", fa, X + ".types", fa.calls("schema_to_json", arg={0: lambda s: s == X + ".types[]"}), fresh("Union"), "every branch of a union is emitted")
    for b in fa.g.rpo:
        if fa.g.B[b]["t"]["k"] == "return":
            t = fa.v.read(fa.g.ret, (), b, 1 << 30)
            for x in fa.v.alts(t):
                if fa.c(x).startswith("Array("):
                    n = order_ops(fa, x)
                    rep.add("union/elements", not n, "all branches of a union are emitted, in order", fa.where(b), str(n))
    # annotated primitives and logical types
    X = S + ".AnnotatedPrimitive"
    attr(rep, "annotated", fa, "type", lambda s: s in ("String(%s.kind)" % X, "String(as_str(%s.kind))" % X), fresh("AnnotatedPrimitive"), "an annotated primitive is emitted with its type")
    props(rep, "annotated", fa, X + ".properties", fresh("AnnotatedPrimitive"))
    X = S + ".Logical"
    L = X + ".logical_type"
    attr(rep, "logical", fa, "type", lambda s: s in ("String(expected_base_type(%s))" % L, "String(as_str(expected_base_type(%s)))" % L), fresh("Logical"), "a logical type is emitted with its base type")
    attr(rep, "logical", fa, "logicalType", "String(name(%s))" % L, fresh("Logical"), "a logical type is emitted with its name")
    dec = fresh("Logical", {L: "Decimal"})
    attr(rep, "decimal", fa, "precision", "Number(%s.Decimal.precision)" % L, dec, "a decimal is emitted with its precision")
    attr(rep, "decimal", fa, "scale", "Number(%s.Decimal.scale)" % L, dec, "a decimal is emitted with its scale")
    others = [v["n"] for v in ctx.p.adts["avdl::model::schema::LogicalType"]["v"] if v["n"] != "Decimal"]
    rep.add("logical/floor", len(others) >= 5, "logical types other than decimal (floor 5): %d" % len(others))
    absent(rep, "logical", fa, "precision", fresh("Logical", {L: others[0]}), "only decimals have a precision")
    props(rep, "logical", fa, X + ".properties", fresh("Logical"))


def variants_of(ctx, adt):
    return [v["n"] for v in ctx.p.adts[adt]["v"]]


@rule("P12")
def primitives(ctx, rep):
    """bare primitives and names of the primitive types"""
    fa = ctx.fa("model::json::schema_to_json", inline={"named_type_preamble", "finish_named_type", "primitive_type_name"})
    names = {"Null": "null", "Boolean": "boolean", "Int": "int", "Long": "long", "Float": "float", "Double": "double", "Bytes": "bytes", "String": "string"}
    for v, n in names.items():
        only_value(rep, "primitive/%s" % v, fa, {S: v}, "the primitive %s is emitted as \"%s\"" % (v, n), lambda s: s == "String('%s')" % n)
    fk = ctx.fa("model::schema::PrimitiveType::as_str")
    for v in variants_of(ctx, "avdl::model::schema::PrimitiveType"):
        only_value(rep, "kind/%s" % v, fk, {fk.pname[0]: v}, "an annotated %s is emitted as \"%s\"" % (v, names.get(v)), lambda s: s == "'%s'" % names.get(v))
    # no other schema is taken for a bare primitive
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v not in names:
            got = ret_under(fa, fresh(v))
            rep.add("primitive/not-%s" % v, all(not re.match(r"^String\('", x) for x in got) and bool(got), "a %s is not emitted as a primitive" % v, fa.dn, str(sorted(got))[:200])


@rule("P12")
def fields(ctx, rep):
    fa = ctx.fa("model::json::field_to_json")
    F = "$Field"
    attr(rep, "field", fa, "name", "String(%s.name)" % F, {}, "a field is emitted with its name")
    attr(rep, "field", fa, "type", rec(fa, "schema_to_json", F + ".schema", {"$Option"}), {}, "a field is emitted with its type")
    attr(rep, "field", fa, "doc", "String(%s.doc)" % F, {F + ".doc": "Some"}, "the doc of a field is emitted")
    absent(rep, "field", fa, "doc", {F + ".doc": "None"}, "no doc is invented for a field")
    attr(rep, "field", fa, "default", F + ".default", {F + ".default": "Some"}, "the default of a field is emitted, null included")
    absent(rep, "field", fa, "default", {F + ".default": "None"}, "no default is invented for a field")
    attr(rep, "field", fa, "aliases", "Array([String(%s.aliases[])])" % F, {"empty(%s.aliases)" % F: False}, "the aliases of a field are emitted")
    for v, n in (("Descending", "descending"), ("Ignore", "ignore")):
        attr(rep, "field/%s" % n, fa, "order", "String('%s')" % n, {F + ".order": ["Some", v]}, "the sort order of a field is emitted")
    for d in ({F + ".order": "None"}, {F + ".order": ["Some", "Ascending"]}):
        for b, val, t in keyed(fa, "order"):
            if run(fa, target={b}, assume=d) is not None:
                got = fa.vals(t, b, assume=d) if t is not None else {val}
                rep.add("field/order/default", got <= {"String('ascending')"}, "fields in ascending order are not given another order", fa.where(b), str(got))
            else:
                rep.ok("field/order/default", "fields in ascending order are not given another order", fa.where(b))
    props(rep, "field", fa, F + ".properties", {})


@rule("P12")
def messages(ctx, rep):
    fa = ctx.fa("model::json::message_to_json")
    X = "$Message"
    attr(rep, "message", fa, "doc", "String(%s.doc)" % X, {X + ".doc": "Some"}, "the doc of a message is emitted")
    absent(rep, "message", fa, "doc", {X + ".doc": "None"}, "no doc is invented for a message")
    props(rep, "message", fa, X + ".properties", {})
    attr(rep, "message", fa, "request", arr(rec(fa, "field_to_json", X + ".request[]", {"$Option"})), {}, "a message is emitted with its parameters")
    elements(rep, "message/request", fa, X + ".request", fa.calls("field_to_json", arg={0: lambda s: s == X + ".request[]"}), {}, "every parameter of a message is emitted")
    attr(rep, "message", fa, "response", rec(fa, "schema_to_json", X + ".response", {"$Option"}), {}, "a message is emitted with its response")
    er = {X + ".errors": "Some"}
    attr(rep, "message", fa, "errors", arr(rec(fa, "schema_to_json", X + ".errors[]", {"$Option"})), er, "the errors of a message are emitted")
    elements(rep, "message/errors", fa, X + ".errors", fa.calls("schema_to_json", arg={0: lambda s: s == X + ".errors[]"}), er, "every error of a message is emitted")
    absent(rep, "message", fa, "errors", {X + ".errors": "None"}, "no errors are invented for a message")
    attr(rep, "message", fa, "one-way", "Bool(True)", {X + ".one_way": True}, "a one-way message is emitted as such")
    for b, val, t in keyed(fa, "one-way"):
        d = {X + ".one_way": False}
        got = (fa.vals(t, b, assume=d) if t is not None else {val}) if run(fa, target={b}, assume=d) is not None else set()
        rep.add("message/two-way", got <= {"Bool(False)"}, "a message that is not one-way is not emitted as one-way", fa.where(b), str(got))


@rule("P12")
def protocol(ctx, rep):
    fa = ctx.fa("model::json::protocol_to_json")
    X = "$Protocol"
    attr(rep, "protocol", fa, "protocol", "String(%s.name)" % X, {}, "a protocol is emitted with its name")
    attr(rep, "protocol", fa, "namespace", "String(%s.namespace)" % X, {X + ".namespace": "Some", "empty(%s.namespace)" % X: False}, "a protocol is emitted with its namespace")
    attr(rep, "protocol", fa, "doc", "String(%s.doc)" % X, {X + ".doc": "Some"}, "the doc of a protocol is emitted")
    absent(rep, "protocol", fa, "doc", {X + ".doc": "None"}, "no doc is invented for a protocol")
    props(rep, "protocol", fa, X + ".properties", {})
    def ty(s):
        m = re.match(r"^schema_to_json\((.*)\)$", s)
        a = fa._commas(m.group(1)) if m else None
        return a is not None and len(a) == 4 and a[0] == X + ".types[]" and a[2] == X + ".namespace" and a[3].startswith("build_lookup(%s.types," % X)
    ks = keyed(fa, "types")
    must(rep, "protocol/types", "a protocol is emitted with its types", fa, [b for b, _, _ in ks], target="return")
    for b, _, t in ks:
        got = flat(fa, fa.vals(t, b))
        rep.add("protocol/types/value", bool(got) and all(arr(ty)(x) for x in got), "a protocol is emitted with its types, in its namespace", fa.where(b), str(sorted(got))[:300])
        only_inlined_dropped(rep, fa, b, t)
    elements(rep, "protocol/types", fa, X + ".types", fa.calls("schema_to_json", arg={0: lambda s: s == X + ".types[]"}), {}, "every type of a protocol is emitted")
    def ms(s):
        m = re.match(r"^Object\(\[(.*)\]\)$", s)
        en = entries(fa, m.group(1)) if m else []
        return bool(en) and all(k == X + ".messages[].0" and mv(v) for k, v in en)
    def mv(v):
        x = re.match(r"^message_to_json\((.*)\)$", v)
        a = fa._commas(x.group(1)) if x else None
        return a is not None and len(a) == 4 and a[0] == X + ".messages[].1" and a[2] == X + ".namespace" and a[3].startswith("build_lookup(%s.types," % X)
    attr(rep, "protocol", fa, "messages", ms, {}, "a protocol is emitted with its messages", SUBSET)
    mi = [b for b, k, v, _ in puts(fa) if k == X + ".messages[].0" and mv(v)]
    loop = [b for b in mi if last(fa.g.B[b]["t"]["f"]) not in ("extend", "from_iter", "collect")]
    foreach(rep, "protocol/messages/each", "every message of a protocol is emitted under its name", fa, X + ".messages", loop or fa.calls("message_to_json", arg={0: lambda s: s == X + ".messages[].1"}), target=anyret(fa))


def only_inlined_dropped(rep, fa, b, t):
    """A type may be left out of the list only because it was emitted as a bare name before."""
    d = "only types already defined inside earlier ones are left out of the list"
    bad = []
    for l, x in chain(fa, t):
        if l in ("filter", "retain", "filter_map"):
            r = dropped_when(fa, x)
            if r is not None:
                bad.append("%s can drop a value: %s" % (l, r))
        elif l in ORDER_BAD:
            bad.append(l)
    # pushes that are skipped
    for n, x in chain(fa, t):
        if n in ("push", "push_back") and x.k == "mut":
            pb = x.a[3]
            foreach(rep, "protocol/types/pushed", d, fa, "$Protocol.types", [pb], assume=not_string(fa), round_only=True)
    rep.add("protocol/types/filter", not bad, d, fa.where(b), "; ".join(bad))


def dropped_when(fa, x):
    """None when the filter at x keeps everything that is not a JSON string"""
    site = x.a[1] if x.k == "call" else x.a[3]
    b = fa.site2b.get(site, site)
    t = fa.g.B[b]["t"] if b in fa.g.rpoi else None
    if not t or not t.get("clo"):
        return "unknown predicate"
    ret = fa.v.closure_ret(t["site"])
    c = t["clo"][0]
    l = last(t["f"])
    fl = fa.flow((), not_string(fa))
    vals = set()
    def tgt(bb, e):
        if bb == c["end"]:
            r = fl.ev(fl.rs(ret, e), e)
            if l == "filter_map":
                vals.add(fl.variant(fl.rs(ret, e)) == "Some")
            else:
                vals.add(r[2] if r[0] != "nbool" or r[2] is None else not r[2])
        return False
    run(fa, c["body"], (), None, tgt, not_string(fa))
    return None if vals == {True} else "kept = %s for a value that is not a string" % sorted(map(str, vals))


def not_string(fa):
    def f(t, adt=None):
        if adt is not None and adt.endswith("value::Value"):
            return "Object"
        if adt is None:
            for s, val in fa.batoms(t, True):
                if isinstance(val, str):
                    x = val.lstrip("!")
                    if x in ("String", "Object"):
                        return (x == "Object") != val.startswith("!")
        return None
    return RawAssume(f)


# -- P13: each named type defined once, at its first use --------------------------------------------
KNOWN = "$HashSet"


def setops(fa, *names):
    return [b for b in fa.calls(*names) if fa.argc(b) and fa.argc(b)[0].startswith(("$HashSet", "[$HashSet[]")) ]


def mutated_by(fa, t):
    """blocks of the calls whose mutation of the value t is visible in it"""
    return {x.a[3] for x in fa.v.leaves(t) if x.k == "mut"}


def ref_form(X, s):
    return s in ("String(schema_ref_name(%s.name,%s.namespace,$Option))" % (X, X), "String(make_full_name(%s.name,%s.namespace))" % (X, X))


@rule("P13")
def once(ctx, rep):
    fa = sj(ctx)
    rec_calls = fa.calls("schema_to_json") + fa.calls("field_to_json")
    for v in NAMED:
        X = "%s.%s" % (S, v)
        again = {S: v, "has(%s,%s)" % (KNOWN, full(v)): True}
        only_value(rep, "again/%s" % v, fa, again, "a %s that was already emitted is emitted as its name" % v.lower(), lambda s: ref_form(X, s))
        never(rep, "again/%s/nested" % v, "nothing inside a %s that was already emitted is emitted again" % v.lower(), fa, set(rec_calls), assume=again)
        ev = [b for b in setops(fa, "insert", "replace") if fa.argc(b)[1:] == [full(v)]]
        d = "emitting the definition of a %s records its full name, before anything inside it is emitted" % v.lower()
        tg = set(rec_calls)
        must(rep, "first/%s" % v, d, fa, ev, assume=fresh(v), target=lambda b, e: b in tg or fa.g.B[b]["t"]["k"] == "return")
        only_value(rep, "first/%s/defined" % v, fa, fresh(v), "the first use of a %s is its definition" % v.lower(), lambda s: s.startswith("Object("))
    # references
    X = S + ".Reference"
    F = full("Reference")
    L = "$HashMap[%s]" % F
    only_value(rep, "ref/again", fa, {S: "Reference", "has(%s,%s)" % (KNOWN, F): True}, "a reference to a type that was already emitted is its name", lambda s: ref_form(X, s))
    d = "a reference to a type not emitted yet is the type's definition"
    only_value(rep, "ref/first", fa, fresh("Reference", {L: "Some"}), d, lambda s: s == "schema_to_json(%s,%s,$Option,$HashMap)" % (L, KNOWN))
    only_value(rep, "ref/unknown", fa, fresh("Reference", {L: "None"}), "a reference to an unknown type is its name", lambda s: ref_form(X, s))
    never(rep, "ref/not-recorded", "a reference does not itself record the type as emitted", fa, set(setops(fa, "insert", "replace")), assume={S: "Reference"})
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v not in NAMED:
            never(rep, "other/%s" % v, "only definitions of named types are recorded as emitted", fa, set(setops(fa, "insert", "replace")), assume={S: v})
    # the set of emitted names only grows and is shared by everything emitted into one output
    for fn in ("schema_to_json", "field_to_json", "message_to_json", "protocol_to_json"):
        f = fa if fn == "schema_to_json" else ctx.fa("model::json::" + fn)
        n = 0
        bad = [b for b in setops(f, "remove", "clear", "retain", "take", "drain", "extract_if")]
        rep.add("set/%s/grows" % fn, not bad, "names recorded as emitted are not forgotten", f.where(bad[0]) if bad else f.dn, "a name is removed here" if bad else "")
        for b in f.calls("schema_to_json", "field_to_json", "message_to_json"):
            n += 1
            a = f.argc(b)
            if fn != "protocol_to_json":
                rep.add("set/%s/passed" % fn, KNOWN in a[1] and a[3] == "$HashMap", "everything emitted into one output shares the record of emitted names and the definitions", f.where(b), str(a[1:]))
        rep.add("set/%s/floor" % fn, n >= 1, "nested emissions: %d" % n)
        for b in f.v.calls():
            t = f.g.B[b]["t"]
            if fn != "protocol_to_json" and last(t["f"]) in ("clone", "new", "default", "with_capacity", "from_iter", "collect", "to_owned", "take", "replace") and f._dty(t["site"]) == "HashSet":
                rep.bad("set/%s/copy" % fn, "the record of emitted names is never copied or replaced", f.where(b), "%s makes another set" % last(t["f"]))


@rule("P13")
def once_protocol(ctx, rep):
    fa = ctx.fa("model::json::protocol_to_json")
    ty, ms = fa.calls("schema_to_json"), fa.calls("message_to_json")
    rep.add("protocol/floor", bool(ty) and bool(ms), "types and messages are emitted")
    for b in ty:
        m = mutated_by(fa, fa.v.args(b)[1])
        rep.add("protocol/types-shared", b in m, "all types of a protocol share the record of emitted names", fa.where(b), "each type starts from a new record")
    for b in ms:
        m = mutated_by(fa, fa.v.args(b)[1])
        rep.add("protocol/messages-shared", b in m and set(ty) <= m, "the messages of a protocol share the record of emitted names with each other and with its types", fa.where(b),
                "the names emitted by %s are not known here" % ("other messages" if b not in m else "the types"))
    fl = fa.flow(())
    its = [it["b"] for it in iterations(fa, "$Protocol.types") if set(ty) & set(_round(fa, it))]
    never(rep, "protocol/types-first", "the types of a protocol are emitted before its messages", fa, set(ms), avoid=its)
    for b in ty + ms:
        a = fa.argc(b)
        rep.add("protocol/lookup", a[3] in ("build_lookup($Protocol.types,None)",), "references are resolved among all types of the protocol", fa.where(b), a[3])
    # fields, parameters, errors and branches emitted one after the other
    for fn, X in (("schema_to_json", S), ("message_to_json", "$Message")):
        f = sj(ctx) if fn == "schema_to_json" else ctx.fa("model::json::" + fn)
        for b in f.calls("schema_to_json", "field_to_json"):
            a = f.argc(b)
            if "[]" in a[0]:
                rep.add("shared/%s/%s" % (fn, a[0]), b in mutated_by(f, f.v.args(b)[1]), "types emitted for one element are known when the next is emitted", f.where(b), "each element starts from the same record")
    f = ctx.fa("model::json::message_to_json")
    def at(x):
        return [b for b in f.calls("schema_to_json", "field_to_json") if f.argc(b)[0] == x]
    q, p, e = at("$Message.request[]"), at("$Message.response"), at("$Message.errors[]")
    for b in q + p + e:
        m = mutated_by(f, f.v.args(b)[1])
        others = [x for x in q + p + e if x != b and run(f, start=x, target={b}) is not None and x not in _self_round(f, b)]
        rep.add("shared/message/%s" % f.argc(b)[0], all(x in m for x in others), "types emitted for one part of a message are known when the next part is emitted", f.where(b), "")


def _self_round(fa, b):
    return {b}


def _round(fa, it):
    """blocks of one round of an iteration"""
    out = set()
    if it["kind"] == "clo":
        start, stop = [it["clo"]["body"]], {it["clo"]["end"]}
    else:
        start, stop = list(_next_edges(fa, it["b"])[0]), {it["b"]}
    st = list(start)
    while st:
        b = st.pop()
        if b in out or b in stop:
            continue
        out.add(b)
        st += [x for x in fa.g.B[b]["t"]["t"]] if isinstance(fa.g.B[b]["t"].get("t"), list) else []
        t = fa.g.B[b]["t"]
        if t["k"] == "switch":
            st += [x for _, x in t["br"]] + [t["o"]]
    return out


@rule("P13")
def reference_names(ctx, rep):
    fa = ctx.fa("model::json::schema_ref_name", inline={"is_schema_type_name"})
    N, NS, E_ = fa.pname
    FN = "make_full_name(%s,%s)" % (N, NS)
    eq = "eq(%s)" % ",".join(sorted((NS, E_)))
    same = {eq: True, NS: "Some", E_: "Some"}
    for i, case in enumerate(({NS: "None", E_: "Some"}, {NS: "Some", E_: "None"}, {NS: "Some", E_: "Some", eq: False})):
        only_value(rep, "name/other/%d" % i, fa, case, "a type of another namespace is referred to by its full name", lambda s: s == FN)
    for n in ("null", "boolean", "int", "long", "float", "double", "bytes", "string", "record", "enum", "array", "map", "union", "fixed"):
        only_value(rep, "name/builtin/%s" % n, fa, A(same, {N: n}), "a type named like the built-in %s is referred to by its full name" % n, lambda s: s == FN)
    only_value(rep, "name/same", fa, A(same, {N: "Employee"}), "a type of the same namespace is referred to by its name", lambda s: s in (N, FN))
    fb = ctx.fa("model::json::alias_ref_name", inline={"schema_ref_name", "is_schema_type_name"})
    a, ns = fb.pname
    sp = "split(%s)" % a
    eq = "eq(%s)" % ",".join(sorted((sp + ".1", ns)))
    FN = "make_full_name(%s.0,%s.1)" % (sp, sp)
    only_value(rep, "alias/plain", fb, {sp + ".1": "None"}, "an alias without namespace is kept", lambda s: s in (sp + ".0", a))
    only_value(rep, "alias/other", fb, {sp + ".1": "Some", eq: False}, "an alias in another namespace keeps it", lambda s: s in (FN, a))
    only_value(rep, "alias/same", fb, A({sp + ".1": "Some", eq: True}, {sp + ".0": "Employee"}), "an alias in the type's namespace is kept", lambda s: s in (FN, a, sp + ".0"))


@rule("P13")
def definitions(ctx, rep):
    """the table references are resolved against holds every named type"""
    from rules.refs import child_paths
    fa = ctx.fa("model::json::collect_named_types")
    D = "$Option"
    for v, paths in child_paths(ctx).items():
        ns = "%s.%s.namespace" % (S, v)
        cases = [{S: v}]
        if v in NAMED:
            cases = [{S: v, ns: "Some"}, {S: v, ns: "None"}]
            for c in cases:
                eff = ns if c[ns] == "Some" else D
                ev = fa.calls("insert", arg={0: lambda s: s.startswith(("$HashMap", "[$HashMap[]")), 2: lambda s: s == S})
                must(rep, "table/%s" % v, "every %s is entered into the table of definitions" % v.lower(), fa, ev, assume=c, target="return")
                for b in ev:
                    if run(fa, target={b}, assume=c) is None:
                        continue
                    got = fa.vals(fa.v.args(b)[1], b, assume=c)
                    rep.add("table/%s/key" % v, got == {"make_full_name(%s.%s.name,%s)" % (S, v, eff)}, "a %s is entered under its full name" % v.lower(), fa.where(b), str(sorted(got)))
        for s in paths:
            for c in cases:
                X = "%s.%s" % (S, s)
                evs = fa.calls("collect_named_types", arg={0: lambda x: X in alts_of(fa, x)}, assume=c)
                d = "definitions nested in %s are entered too" % s
                if "[]" in s:
                    foreach(rep, "table/nested/%s" % s, d, fa, X[:X.index("[]")], evs, assume=c, target=anyret(fa))
                else:
                    must(rep, "table/nested/%s" % s, d, fa, evs, assume=c, target="return")
                want = (ns if c[ns] == "Some" else D) if v in NAMED else D
                for b in evs:
                    got = fa.vals(fa.v.args(b)[1], b, assume=c)
                    rep.add("table/nested/%s/ns" % s, got <= {want}, d + ", in the right namespace", fa.where(b), str(sorted(got)))
    fb = ctx.fa("model::json::build_lookup")
    X = fb.pname[0]
    ev = fb.calls("collect_named_types", arg={0: lambda s: s == X + "[]", 1: lambda s: s == fb.pname[1]})
    foreach(rep, "table/all", "the table of definitions is built from all given types", fb, X, ev)
    for b in fb.g.rpo:
        if fb.g.B[b]["t"]["k"] == "return":
            m = mutated_by(fb, fb.v.read(fb.g.ret, (), b, 1 << 30))
            rep.add("table/returned", set(ev) <= m and bool(ev), "the table that was filled is the one used", fb.where(b))


@rule("P13")
def extracted(ctx, rep):
    fa = ctx.fa("compiler::Idl2Schemata::extract_impl")
    R = "schemas($CompileOutput.registry)"
    cs = fa.calls("schema_to_json")
    LK = "build_lookup(%s,None)" % R
    ok_ns = {"None", "''"}
    rep.add("extract/floor", len(cs) == 1, "schemas are emitted at one place: %d" % len(cs))
    for b in cs:
        a = fa.argc(b)
        rep.add("extract/args", a[0] == R + "[]" and a[2] in ok_ns and a[3] == LK, "each extracted schema is emitted on its own, resolving references among all types of the compilation", fa.where(b), str(a))
        m = mutated_by(fa, fa.v.args(b)[1])
        rep.add("extract/self-contained", not (m & set(cs)) and a[1] == "[]", "each extracted schema starts with no name known", fa.where(b), "names emitted in earlier schemas are taken as known")
    foreach(rep, "extract/each", "a schema is extracted for every named type", fa, R, cs, excuse=exc(("name(%s[])" % R, "None")), target=anyret(fa))
    got = ret_under(fa)
    want = "NamedSchema{name:name(%s[]),schema:schema_to_json(%s[],[],None,%s)}" % (R, R, LK)
    rep.add("extract/returned", bool(got) and all("schemas:[%s]" % want in g or "schemas:[%s]" % want.replace("[],None", "[],''") in g for g in got), "the extracted schemas are returned under the names of their types", fa.dn, str(sorted(got))[:400])
    fn = ctx.fa("model::schema::AvroSchema::name")
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v in NAMED:
            only_value(rep, "extract/name/%s" % v, fn, {S: v}, "a %s is extracted under its name" % v.lower(), lambda s: s == "%s.%s.name" % (S, v))
    # the main schema of a schema file, and the protocol
    fc = ctx.fa("compiler::Idl::convert_impl")
    I = "$CompileOutput.idl_file"
    R = "schemas($CompileOutput.registry)"
    def ms(s):
        m = re.match(r"^IdlOutput\{json:schema_to_json\((.*)\),warnings:\$CompileOutput\.warnings\}$", s)
        a = fc._commas(m.group(1)) if m else None
        return bool(a) and a[0] == I + ".Schema.0" and a[1] == "[]" and a[2] in ok_ns and a[3] == "build_lookup(%s,None)" % R
    only_value(rep, "convert/schema", fc, {I: "Schema"}, "the main schema is emitted on its own, resolving references among all types of the compilation", ms)
    only_value(rep, "convert/protocol", fc, {I: "Protocol"}, "a protocol file is emitted as that protocol", lambda s: s == "IdlOutput{json:protocol_to_json(%s.Protocol.0),warnings:$CompileOutput.warnings}" % I)
    only_value(rep, "convert/named", fc, {I: "NamedSchemas"}, "a file without protocol and main schema is not converted", lambda s: s.startswith("Err("))
