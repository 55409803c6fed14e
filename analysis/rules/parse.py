"""The IDL reader: what is written is what is built, and what is invalid is rejected."""
from rules import rule
from base import *
from rules.emit import puts, sj, only_value, variants_of, alts_of, anyret, order_ops, ORDER_BAD

WALKERS = {  # walker -> what the annotations it reads end up on
    "walk_record": "Record", "walk_enum": "Enum", "walk_fixed": "Fixed", "walk_variable": "Field", "walk_message": "Message", "walk_protocol": "Protocol",
    "walk_full_type": ("Array", "Map", "AnnotatedPrimitive", "Logical"),
}


def walker(ctx, fn, *inl):
    return ctx.fa("reader::" + fn, inline={"walk_schema_properties", "reader::SchemaProperties::new", *inl})


def annotation(fa):
    """canonical string of the annotations written on the construct"""
    return "schemaProperty_all(%s)" % fa.pname[0]


def prop_inserts(fa):
    n = "identifier_text(identifier(%s[]))" % annotation(fa)
    return n, [b for b, k, v in map_inserts(fa, lambda s: True) if k == n]


def structural(ctx, kind):
    if kind == "Field":
        fa, asm = ctx.fa("model::json::field_to_json"), None
    elif kind == "Message":
        fa, asm = ctx.fa("model::json::message_to_json"), None
    elif kind == "Protocol":
        fa, asm = ctx.fa("model::json::protocol_to_json"), None
    else:
        fa, asm = sj(ctx), {"$AvroSchema": kind}
    out = set()
    for b, k, v, t in puts(fa):
        if re.match(r"^'[^']*'$", k) and run(fa, target={b}, assume=asm) is not None:
            out.add(k[1:-1])
    return out


@rule("P14")
def reserved(ctx, rep):
    for fn, kinds in WALKERS.items():
        fa = walker(ctx, fn)
        name, ins = prop_inserts(fa)
        must(rep, "%s/kept" % fn, "an annotation of any other name is kept", fa, ins, assume=A({name: "Some"}, {name: "no-such-attribute"}),
             start=_each_annotation(fa), target=lambda b, e, n=_annotation_next(fa): b in n)
        keys = set()
        for k in kinds if isinstance(kinds, tuple) else (kinds,):
            ks = structural(ctx, k)
            rep.add("%s/attributes/%s" % (fn, k), bool(ks), "attributes emitted for a %s: %s" % (k, sorted(ks)), fa.dn)
            if k == "Logical":
                ks -= {"logicalType", "precision", "scale"}
            if k == "Protocol":
                ks -= set()
            keys |= ks
        for k in sorted(keys):
            never(rep, "%s/reserved/%s" % (fn, k), "an annotation @%s cannot replace the attribute of that name" % k, fa, set(ins), assume=A({}, {name: k}))


def _annotation_next(fa):
    its = [it for it in iterations(fa, annotation(fa)) if it["kind"] == "loop"]
    return {it["b"] for it in its}


def _each_annotation(fa):
    from base import _next_edges
    for b in _annotation_next(fa):
        return _next_edges(fa, b)[0][0]


@rule("P14", "P20")
def logical_keyword(ctx, rep):
    f = ctx.fa("reader::walk_full_type", inline={"overwritten_logical_key"})
    ap = f.calls("apply_properties")
    rep.add("keyword/applied", bool(ap), "annotations are applied to the type they precede", f.dn)
    for b in ap:
        S, P = f.argc(b)[:2]
        L = S + ".Logical.logical_type"
        for v in variants_of(ctx, "avdl::model::schema::LogicalType"):
            for key in ("logicalType",) + (("precision", "scale") if v == "Decimal" else ()):
                val = {"logicalType": "name(%s)" % L, "precision": L + ".Decimal.precision", "scale": L + ".Decimal.scale"}[key]
                d = {S: "Logical", L: v, "%s['%s']" % (P, key): "Some"}
                never(rep, "keyword/%s/%s" % (v, key), "an annotation cannot change the %s of a logical type keyword" % key, f, {b}, assume=differing(f, d, "%s['%s']" % (P, key), val))
                never(rep, "keyword/%s/%s/fatal" % (v, key), "an annotation that changes the %s of a logical type keyword is rejected" % key, f, None,
                      assume=differing(f, dict(d, **{"empty(%s)" % P: False}), "%s['%s']" % (P, key), val))
        U = S + ".Union.types"
        d = {S: "Union", S + ".Union.is_nullable_type": True, "empty(%s)" % P: False}
        cs = f.calls("overwritten_logical_key", arg={0: lambda s: s == U + "[]", 1: lambda s: s == P})
        if cs:
            its = [it for it in iterations(f, U) if it["kind"] == "clo" and it["how"] == "find_map" and not set(it["names"]) & SUBSET]
            if its:
                rep.ok("keyword/optional", "the keyword of an optional type is protected as well", f.where(cs[0]))
                never(rep, "keyword/optional/fatal", "an annotation that changes an attribute of the keyword of an optional type is rejected", f, {b},
                      assume=dict(d, **{"find_map(%s:overwritten_logical_key(%s[],%s))" % (U, U, P): "Some"}))
            else:
                must(rep, "keyword/optional", "the keyword of an optional type is protected as well", f, cs, assume=d, target={b}, excuse=exc(("next(%s)" % U, "None")))
                never(rep, "keyword/optional/fatal", "an annotation that changes an attribute of the keyword of an optional type is rejected", f, {b},
                      assume=dict(d, **{"overwritten_logical_key(%s[],%s)" % (U, P): "Some"}), start=cs[0])
        else:
            rep.bad("keyword/optional", "the keyword of an optional type is protected as well", f.dn, "the branches of an optional type are not checked")


def differing(fa, d, a, b):
    """assumptions d, and whatever compares the values a and b finds them different"""
    base = fa._mkassume(A(d))

    def f(t, adt=None):
        r = base(t, adt)
        if r is not None or adt is not None:
            return r
        for s, val in fa.batoms(t, True):
            if s.startswith("eq(") and s.endswith(")"):
                x = fa._commas(s[3:-1])
                if x and len(x) == 2 and ((a in x[0] and b in x[1]) or (a in x[1] and b in x[0])):
                    return val is False
        return None
    return RawAssume(f)


# -- what is written is what is built ---------------------------------------------------------
NAMES = {"extract_name", "compute_namespace", "split_full_name"}
TOK = {}


def tokens(ctx):
    """token symbol -> number, from the generated parser's constants"""
    if not TOK:
        import extract
        for n, v in re.findall(r"pub const Idl_(\w+)\s*:\s*\w+\s*=\s*(\d+)\s*;", open(os.path.join(extract.REPO, "src/generated/idlparser.rs")).read()):
            TOK[n] = int(v)
        if not TOK:
            raise Missing("token numbers of the generated parser not found")
    return TOK


def wk(ctx, fn, *inl):
    return ctx.fa("reader::" + fn, inline={*NAMES, *inl})


def pcall(fa):
    bs = fa.calls("walk_schema_properties", arg={0: lambda s: s == annotation(fa)})
    return outcome(fa, bs[0]) if bs else None


def sh(fa, s):
    """shortened canonical string: @ the construct's context, @P its annotations"""
    p = pcall(fa)
    if p:
        s = s.replace(p, "@P")
    return s.replace(",$CommonTokenStream", "").replace(",$SourceInfo", "").replace(root(fa), "@")


def lg(fa, s):
    s = s.replace("@P", pcall(fa) or "@P") if "@P" in s else s
    return s.replace("@", root(fa)) if "@" in s else s


def root(fa):
    """the parse tree node a walker is given"""
    for n in fa.pname:
        if n.endswith("Context"):
            return n
    return "@"


def on(fa, d, ints=None, base=None):
    """assumptions: d on shortened strings, ints {shortened string: integer value}"""
    d = {lg(fa, k): v for k, v in d.items()}
    inner = fa._mkassume(d)
    ints = {lg(fa, k): v for k, v in (ints or {}).items()}
    if not ints and base is None:
        return d

    def f(t, adt=None):
        if base is not None:
            r = base(t, adt)
            if r is not None:
                return r
        r = inner(t, adt)
        if r is not None or adt is not None or t.k != "bin" or t.a[0] not in CMP:
            return r
        x, y = num(fa, t.a[1], ints), num(fa, t.a[2], ints)
        return CMP[t.a[0]](x, y) if x is not None and y is not None else None
    return RawAssume(f)


CMP = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y}


def num(fa, t, ints):
    if t.k == "const" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
        return t.a[0]
    if t.k == "cast":
        return num(fa, t.a[3], ints)
    s = fa._c(t)
    if s in ints:
        return ints[s]
    if s.startswith("{") and fa._bal(s):
        z = {ints.get(x) for x in fa._split(s)}
        return z.pop() if len(z) == 1 else None
    return None


def built(fa, assume=None):
    """shortened non-error values returned under `assume`"""
    out = set()
    for s in ret_under(fa, assume):
        if s.startswith("{") and fa._bal(s):
            out |= set(fa._split(s))
        else:
            out.add(s)
    return {sh(fa, s) for s in out if not s.startswith("Err(")}


def parts(fa, s):
    """'Head{a:x,b:y}' -> ('Head', {a: x, b: y})"""
    m = re.match(r"^(\w+)\{(.*)\}$", s, re.S)
    if not m or not fa._bal(s[len(m.group(1)):]):
        return None, {}
    d = {}
    for x in fa._commas(m.group(2)) or []:
        k, _, v = x.partition(":")
        d[k] = v
    return m.group(1), d


def gives(rep, key, desc, fa, head, want, assume, unwrap=None):
    """Under `assume` every successful result is a `head` whose components satisfy `want`."""
    got = built(fa, assume)
    rep.add(key, bool(got), desc, fa.dn, "no successful result is possible")
    for s in got:
        s0 = s
        if unwrap:
            s = unwrap(fa, s)
        h, d = parts(fa, s or "")
        if h != head:
            rep.bad(key, desc, fa.dn, "the result is %s" % s0[:300])
            continue
        for k, w in want.items():
            v = d.get(k)
            ok = v is not None and (w(v) if callable(w) else v == w)
            if not ok:
                rep.bad("%s/%s" % (key, k), desc, fa.dn, "%s is %s" % (k, str(v)[:300]))
            else:
                rep.ok("%s/%s" % (key, k), desc, fa.dn)


def alt(*xs):
    return lambda s: s in xs


ID = "identifier_text(identifier(@))"


def dotted(s):
    return "rsplit_once(%s,'.')" % s


def named_cases(idt):
    """(case, assumptions, name)"""
    return [("plain", {dotted(idt): "None"}, idt), ("dotted", {dotted(idt): "Some"}, dotted(idt) + ".1")]


def call_of(fn, *args):
    """predicate: a (shortened) call of fn whose first arguments are these"""
    pre = "%s(%s" % (fn, ",".join(args))
    return lambda s: s.startswith(pre + ")") and s.endswith(")") or s.startswith(pre + ",") and s.endswith(")")


def tup0(fa, s):
    p = fa._commas(s[1:-1]) if s.startswith("(") and s.endswith(")") else None
    return p[0] if p else None


def promoted(fa, s):
    m = re.match(r"^try_promote_logical_type\((.*)\)$", s, re.S)
    return m.group(1) if m else s


ATTR = {"aliases": "@P.aliases", "properties": "@P.properties"}
DOC = "extract_doc_from_context(@)"


@rule("P22")
def named_types(ctx, rep):
    tk = tokens(ctx)
    for fn, kind, un in (("walk_record", "Record", tup0), ("walk_enum", "Enum", None), ("walk_fixed", "Fixed", promoted)):
        fa = wk(ctx, fn)
        for case, d, name in named_cases(ID):
            want = dict(ATTR, name=name, doc=DOC)
            if kind == "Fixed":
                want["size"] = "parse_integer_as_u32(get_text(@.size))"
            if kind == "Enum":
                want["symbols"] = "[identifier_text(identifier(enumSymbol_all(@)[]))]"
            if kind == "Record":
                want["fields"] = call_of("walk_field_declaration", "fieldDeclaration_all(recordBody(@))[]")
            gives(rep, "%s/%s" % (fn, case), "the %s built has the name, doc, annotations and contents written" % kind.lower(), fa, kind, want, on(fa, d), un)
    fa = wk(ctx, "walk_record")
    tt = "get_token_type(@.recordType)"
    for n, w in (("Error", "True"), ("Record", "False")):
        yes = {w} | ({"(%s Eq %d)" % (tt, tk["Error"]), "(%s Ne %d)" % (tt, tk["Record"])})
        gives(rep, "walk_record/%s" % n.lower(), "a declaration with the keyword %s is %s error" % (n.lower(), "an" if w == "True" else "not an"), fa, "Record", {"is_error": lambda s, yes=yes: s in yes},
              on(fa, {"@.recordType": "Some"}, {tt: tk[n]}), tup0)
    each(rep, "walk_record/fields", "every field declaration of a record becomes fields of it", fa, "fieldDeclaration_all(recordBody(@))", "walk_field_declaration", "fieldDeclaration_all(recordBody(@))[]", ("AvroSchema", "Record", "fields"))
    fa = wk(ctx, "walk_enum")
    sym = "identifier_text(identifier(enumSymbol_all(@)[]))"
    each(rep, "walk_enum/symbols", "every symbol of an enum is kept", fa, "enumSymbol_all(@)", "identifier_text", "identifier(enumSymbol_all(@)[])", ("AvroSchema", "Enum", "symbols"), excuse=exc((lg(fa, "identifier(enumSymbol_all(@)[])"), "None")))
    dn = "identifier_text(identifier(enumDefault(@)))"
    # either the name written or the symbol found equal to it
    from rules.reject import seen_tests
    found = any(last(fa.g.B[b]["t"]["f"]) == "find" for b in seen_tests(fa, lg(fa, dn))[0])
    gives(rep, "walk_enum/default", "the default symbol written is the enum's default", fa, "Enum", {"default": lambda s: s == dn or found and s == sym}, on(fa, {"enumDefault(@)": "Some", "identifier(enumDefault(@))": "Some"}))
    gives(rep, "walk_enum/no-default", "an enum without a default has none", fa, "Enum", {"default": "None"}, on(fa, {"enumDefault(@)": "None"}))


def each(rep, key, desc, fa, coll, fn, arg, where, excuse=None, extra=()):
    """Each element of coll is turned by fn into a component (field of the aggregate `where`) and none is
    dropped or moved on the way."""
    C = lg(fa, coll)
    evs = added(fa, fn, lg(fa, arg), C)
    foreach(rep, key, desc, fa, C, evs, excuse=excuse, outer=exc() if excuse else None)
    n = 0
    for b, i, f in fa.builds(*where[:2]):
        if where[2] in f:
            n += 1
            ops = order_ops(fa, f[where[2]], ORDER_BAD | {"reverse"})
            rep.add(key + "/order", not ops, desc + ", in order", fa.where(b), "the list goes through %s" % ops)
    its = iterations(fa, C)
    for it in its:
        rep.add(key + "/direction", "rev" not in it["names"], desc + ", in order", fa.where(it["b"]), "iterated in reverse")
    return n


def added(fa, fn, arg, C):
    """Blocks that put fn(arg..) into a collection: pushes of that value, or the call itself inside the
    closure of an iterator chain."""
    out = []
    inclo = set()
    for it in iterations(fa, C):
        if it["kind"] == "clo" and it["how"] in ("map", "flat_map", "try_for_each", "for_each", "filter_map", "try_fold", "fold"):
            inclo |= clo_blocks(fa, it["clo"])
    def isv(s):
        return re.sub(r"\[\]$", "", s).startswith("%s(%s" % (fn, arg))
    for b in fa.g.rpo:
        t = fa.g.B[b]["t"]
        if t["k"] != "call":
            continue
        l = last(t["f"])
        a = fa.argc(b)
        if l in ("push", "push_back", "extend", "append", "insert", "insert_full", "extend_from_slice") and len(a) >= 2 and isv(a[-1]) and not _seenset(fa, b):
            out.append(b)
        elif l == fn and b in inclo and a and a[0] == arg:
            out.append(b)
    return out


def _seenset(fa, b):
    """an insertion into a set only used to recognise duplicates"""
    t = fa.g.B[b]["t"]
    return last(t["f"]) == "insert" and len(t["a"]) == 2


def clo_blocks(fa, c):
    seen, st = set(), [c["body"]]
    while st:
        b = st.pop()
        if b in seen or b == c["end"]:
            continue
        seen.add(b)
        st += list(fa.g.B[b]["t"].get("t") or []) if not isinstance(fa.g.B[b]["t"].get("t"), int) else [fa.g.B[b]["t"]["t"]]
        if fa.g.B[b]["t"]["k"] == "switch":
            st += [x for _, x in fa.g.B[b]["t"]["br"]] + [fa.g.B[b]["t"]["o"]]
    return seen


def returned_terms(fa):
    return [(b, fa.v.read(fa.g.ret, (), b, 1 << 30)) for b in fa.g.rpo if fa.g.B[b]["t"]["k"] == "return"]


def ok_parts(fa, t):
    """alternatives of a returned term, Ok(..) unwrapped, errors left out"""
    out = []
    for x in fa.v.alts(t):
        if x.k == "agg" and x.a[0].endswith("Result"):
            if x.a[1] == "Ok":
                out += fa.v.alts(x.a[3])
        else:
            out.append(x)
    return out


def is_(rep, key, desc, fa, want, assume):
    """Under `assume` the successful results are exactly `want` (string, set, or predicate)."""
    got = built(fa, assume)
    w = want if callable(want) else (lambda s: s == want) if isinstance(want, str) else (lambda s: s in want)
    bad = [s for s in got if not w(s)]
    rep.add(key, bool(got) and not bad, desc, fa.dn, ("the result is %s" % bad[0][:400]) if bad else "no successful result is possible")


@rule("P22")
def fields(ctx, rep):
    fa = wk(ctx, "walk_field_declaration")
    V = "variableDeclaration_all(@)"
    pre = ("walk_variable(%s[],walk_full_type(fullType(@),$Option)," % V)
    is_(rep, "fields/value", "each variable of a field declaration becomes a field of the declared type", fa, lambda s: s.startswith("[" + pre) and s.endswith("]"), None)
    doc = lambda s: sh(fa, s) == "extract_doc_from_context(@)"
    for b in fa.calls("walk_variable"):
        rep.add("fields/doc", doc(fa.argc(b)[2]), "the doc comment of a field declaration applies to its variables", fa.where(b), fa.argc(b)[2])
    evs = added(fa, "walk_variable", lg(fa, V) + "[]", lg(fa, V))
    foreach(rep, "fields/each", "every variable of a field declaration becomes a field", fa, lg(fa, V), evs)
    for b, t in returned_terms(fa):
        for x in ok_parts(fa, t):
            ops = order_ops(fa, x)
            rep.add("fields/order", not ops, "the fields keep their order", fa.where(b), str(ops))
    for it in iterations(fa, lg(fa, V)):
        rep.add("fields/direction", "rev" not in it["names"], "the fields keep their order", fa.where(it["b"]))

    fa = wk(ctx, "walk_variable")
    jv = "walk_json_value(jsonValue(@))"
    for case, d, dv in (("default", {"jsonValue(@)": "Some"}, jv), ("no-default", {"jsonValue(@)": "None"}, "None")):
        gives(rep, "variable/%s" % case, "a field has the name, type, default, order, aliases and annotations written", fa, "Field",
              dict(ATTR, name=ID, default=dv, order="@P.order", schema="fix_optional_schema($AvroSchema,%s)" % dv), on(fa, d))
    gives(rep, "variable/doc", "a variable's own doc comment comes first", fa, "Field", {"doc": DOC}, on(fa, {DOC: "Some"}, base=docs(fa)))
    gives(rep, "variable/default-doc", "a variable without a doc comment has that of its declaration", fa, "Field", {"doc": "$Option"}, on(fa, {"$Option": "Some"}, base=docs(fa, "None")))
    gives(rep, "variable/no-doc", "no doc comment is invented for a field", fa, "Field", {"doc": alt("$Option", "None")}, on(fa, {"$Option": "None"}, base=docs(fa, "None")))
    # the declaration's doc is the only Option<&str> parameter walk_variable's doc may come from
    rep.add("variable/params", fa.pname.count("$Option") == 1, "parameters of walk_variable", fa.dn)


def docs(fa, v="Some"):
    """extract_doc_from_context answers v"""
    def f(t, adt=None):
        if adt is not None and t.k == "call" and last(t.a[0]) == "extract_doc_from_context":
            return v
        if adt is None:
            for s, val in fa.batoms(t, True):
                if s.startswith("extract_doc_from_context(") and val in ("Some", "None"):
                    return val == v
        return None
    return f


@rule("P22")
def messages(ctx, rep):
    fa = wk(ctx, "walk_message", "walk_result_type")
    is_(rep, "message/name", "a message is known by the name written", fa, lambda s: tup0(fa, s) == "identifier_text(@.name)", None)
    un = lambda fa, s: (fa._commas(s[1:-1]) or ["", ""])[1] if s.startswith("(") else None
    par = "formalParameter_all(@)[]"
    req = "walk_variable(variableDeclaration(%s),walk_full_type(fullType(%s),$Option),extract_doc_from_context(%s)," % (par, par, par)
    base = {"doc": DOC, "properties": "@P.properties", "request": lambda s: s.startswith("[" + req) and s.endswith("]") or s == "[]"}
    R = "resultType(@)"
    gives(rep, "message/void", "a void message responds with null", fa, "Message", dict(base, response="Null"), on(fa, {"Void(%s)" % R: "Some"}), un)
    gives(rep, "message/response", "a message responds with the type written", fa, "Message", dict(base, response=call_of("walk_plain_type", "plainType(%s)" % R, "$Option")),
          on(fa, {"Void(%s)" % R: "None", "plainType(%s)" % R: "Some"}), un)
    for v, w in (("Some", "True"), ("None", "False")):
        ok = {w, "(tag(@.oneway) Eq 1)", "(tag(@.oneway) Ne 0)"}
        gives(rep, "message/oneway-%s" % w, "a message is one-way exactly if declared so", fa, "Message", {"one_way": lambda s, ok=ok: s in ok}, on(fa, {"@.oneway": v}), un)
    gives(rep, "message/no-errors", "a message without a throws clause has no errors", fa, "Message", {"errors": "None"}, on(fa, {"empty(@.errors)": True, "len(@.errors)": 0}, {"len(@.errors)": 0}), un)
    E = "identifier_text(@.errors[])"
    for case, d, name in named_cases(E):
        ns = dotted(E) + ".0" if case == "dotted" else "$Option"
        want = "Reference{name:%s,namespace:%s," % (name, ns)
        for b, i, f in fa.builds("AvroSchema", "Reference"):
            d = dict(d, **{"$Option": "Some"})
            if run(fa, None, target={b}, assume=on(fa, d)) is None:
                continue
            for k, w in (("name", name), ("namespace", ns)):
                got = {sh(fa, x) for x in flat(fa, fa.vals(f[k], b, assume=on(fa, d)))}
                rep.add("message/errors/%s/%s" % (case, k), got == {w}, "each type in a throws clause is referenced as written", fa.where(b), str(sorted(got))[:300])
    gives(rep, "message/errors", "a message has the errors of its throws clause", fa, "Message", {"errors": lambda s: s.startswith("[") and s.count("Reference{") >= 1 and "@.errors[]" in s}, on(fa, {"empty(@.errors)": False}, {"len(@.errors)": 1}), un)
    evs = [b for b in fa.calls("push", "extend", "append", "push_back") if fa.argc(b)[-1].startswith("Reference{")]
    evs += [b for b, i, f in fa.builds("AvroSchema", "Reference") if any(b in clo_blocks(fa, it["clo"]) for it in iterations(fa, lg(fa, "@.errors")) if it["kind"] == "clo")]
    foreach(rep, "message/errors/each", "every type of a throws clause is kept", fa, lg(fa, "@.errors"), evs, assume=on(fa, {"empty(@.errors)": False}, {"len(@.errors)": 1}))
    V = "formalParameter_all(@)"
    evs = added(fa, "walk_variable", lg(fa, "variableDeclaration(%s[])" % V), lg(fa, V))
    foreach(rep, "message/request/each", "every parameter of a message is kept", fa, lg(fa, V), evs)
    for b, i, f in fa.builds("Message"):
        for k in ("request", "errors"):
            ops = order_ops(fa, f[k])
            rep.add("message/%s/order" % k, not ops, "parameters and errors keep their order", fa.where(b), str(ops))


def orders(rep, key, desc, fa, builds, field):
    for b, i, f in builds:
        ops = order_ops(fa, f[field])
        rep.add(key, not ops, desc, fa.where(b), "the list goes through %s" % ops)


PLAIN = {"walk_array_type", "walk_map_type", "walk_union_type", "walk_nullable_type"}
KINDS = ("arrayType(@)", "mapType(@)", "unionType(@)", "nullableType(@)")


def only_kind(k, extra=None):
    d = {x: ("Some" if x == k else "None") for x in KINDS}
    d.update(extra or {})
    return d


@rule("P22")
def types(ctx, rep):
    fa = wk(ctx, "walk_plain_type", *PLAIN)
    gives(rep, "array", "an array type has the element type written", fa, "Array", {"items": call_of("walk_full_type", "fullType(arrayType(@))", "$Option"), "properties": "[]"}, on(fa, only_kind("arrayType(@)")))
    gives(rep, "map", "a map type has the value type written", fa, "Map", {"values": call_of("walk_full_type", "fullType(mapType(@))", "$Option"), "properties": "[]"}, on(fa, only_kind("mapType(@)")))
    U = "fullType_all(unionType(@))"
    pre = "[walk_full_type(%s[],$Option" % U
    a = on(fa, only_kind("unionType(@)"))
    gives(rep, "union", "a union type has the branches written", fa, "Union", {"types": lambda s: s.startswith(pre) and s.endswith("]"), "is_nullable_type": "False"}, a)
    evs = added(fa, "walk_full_type", lg(fa, U + "[]"), lg(fa, U))
    foreach(rep, "union/each", "every branch of a union is kept", fa, lg(fa, U), evs, assume=a)
    for b, i, f in fa.builds("AvroSchema", "Union"):
        ops = order_ops(fa, f["types"])
        rep.add("union/order", not ops, "the branches of a union keep their order", fa.where(b), str(ops))
    N = "nullableType(@)"
    nk = only_kind(N)
    is_(rep, "primitive", "a primitive type keyword is read as a primitive", fa, call_of("walk_primitive_type", "primitiveType(%s)" % N), on(fa, dict(nk, **{"primitiveType(%s)" % N: "Some", N + ".optional": "None"})))
    I = "identifier_text(identifier(%s))" % N
    for case, d, name in named_cases(I):
        d = dict(nk, **d, **{"primitiveType(%s)" % N: "None", "identifier(%s)" % N: "Some", N + ".optional": "None", "$Option": "Some"})
        gives(rep, "reference/%s" % case, "a type name refers to the type of that name", fa, "Reference",
              {"name": name, "namespace": dotted(I) + ".0" if case == "dotted" else "$Option", "properties": "[]"}, on(fa, d))
    # annotations on a type
    fa = wk(ctx, "walk_full_type", "overwritten_logical_key", "apply_properties")
    plain = "walk_plain_type(plainType(@),$Option)"
    is_(rep, "annotated/none", "a type without annotations is the type written", fa, plain, on(fa, {"empty(@P.properties)": True}))
    fa = wk(ctx, "walk_full_type")
    is_(rep, "annotated", "annotations on a type are applied to it", fa, "apply_properties(%s,@P.properties)" % plain, on(fa, {"empty(@P.properties)": False}))


@rule("P22")
def applied(ctx, rep):
    fa = wk(ctx, "apply_properties", "apply_properties_to_schema")
    U = "$AvroSchema.Union"
    app = lambda x: "try_promote_logical_type(with_merged_properties(%s,$HashMap))" % x
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v == "Union":
            continue
        is_(rep, "apply/%s" % v, "annotations on a type that is not optional are merged into it", fa, app("$AvroSchema"), {"$AvroSchema": v})
    is_(rep, "apply/union", "annotations on a union written out are merged into the union itself", fa, app("$AvroSchema"), {"$AvroSchema": "Union", U + ".is_nullable_type": False})
    ws = writes(fa)
    for first, k in (("Null", "1"), ("String", "0")):
        d = {"$AvroSchema": "Union", U + ".is_nullable_type": True, U + ".types[0]": first, U + ".types[1]": "String" if first == "Null" else "Null"}
        a = on(fa, d, {"len(%s.types)" % U: 2})
        good, bad = [], []
        for b, tgt, val in ws:
            if run(fa, None, target={b}, assume=a) is None:
                continue
            T, V = flat_(fa, tgt, b, a), flat_(fa, val, b, a)
            idx = {U + ".types[%s]" % k, U + ".types[]"}
            if T and T <= idx and V == {app(x) for x in T}:
                good.append(b)
            elif any(".types" in x for x in T):
                bad.append("%s = %s" % (sorted(T), sorted(V)))
        key = "apply/optional/%s-first" % first.lower()
        desc = "annotations on an optional type are merged into its non-null branch"
        if bad:
            rep.bad(key, desc, fa.dn, "; ".join(bad)[:500])
        elif good:
            must(rep, key, desc, fa, good, assume=a, target="return")
        else:
            got = built(fa, a)
            rep.add(key, bool(got) and all(("try_promote_logical_type(with_merged_properties(") in s for s in got), desc, fa.dn, "the result is %s" % sorted(got)[:1])
        for s in built(fa, a):
            h, p = parts(fa, s)
            rep.add(key + "/kept", h == "Union" and p.get("is_nullable_type") in ("True", U + ".is_nullable_type") and U + ".types" in p.get("types", ""), "an optional type stays one when annotated", fa.dn, s[:300])


def flat_(fa, t, b, a):
    return flat(fa, fa.vals(t, b, assume=a))


def writes(fa):
    """[(block, term of the place, term of the value)] of assignments through references"""
    out = []
    for b in fa.g.rpo:
        for i, (pl, rv, ln) in enumerate(fa.g.B[b]["s"]):
            if pl[1] and pl[1][0] == "*" and len(pl[1]) == 1 and rv.get("r") == "use":
                out.append((b, fa.v.read(pl[0], (), b, i), fa.v.op(rv["a"], (), b, i)))
        t = fa.g.B[b]["t"]
        if t["k"] == "call" and last(t["f"]) == "replace" and "mem" in t["f"]:
            x = fa.v.args(b)
            out.append((b, x[0], x[1]))
    return out


@rule("P22")
def merged(ctx, rep):
    fa = ctx.fa("model::schema::AvroSchema::with_merged_properties", inline={"to_primitive_type"})
    adt = ctx.p.adts["avdl::model::schema::AvroSchema"]
    for v in adt["v"]:
        n = v["n"]
        fs = [f["n"] for f in v["f"]]
        a = {"$AvroSchema": n}
        S = "$AvroSchema.%s." % n
        if "properties" in fs:
            want = {f: alt(S + f) for f in fs if f != "properties"}
            want["properties"] = lambda s, S=S: s in ("[%sproperties[],$HashMap[]]" % S, "[$HashMap[],%sproperties[]]" % S) or s == S + "properties"
            got = ret_under(fa, a)
            if got == {"$AvroSchema"}:
                muts = [b for b in fa.calls("extend") if fa.argc(b)[1] == "$HashMap" and
                        {x for x in flat(fa, fa.vals(fa.v.args(b)[0], b, assume=a)) if not re.match(r"^\$AvroSchema\.(?!%s\.)\w+\.properties$" % n, x)} == {S + "properties"}]
                must(rep, "merge/%s" % n, "annotations are added to those of the type", fa, muts, assume=a, target="return")
            else:
                gives(rep, "merge/%s" % n, "merging annotations into a type keeps everything else about it", fa, n, want, a)
                ext = [b for b in fa.calls("extend") if fa.argc(b)[1] in ("$HashMap",)]
                ins = [b for b in fa.calls("insert") if fa.argc(b)[1:] == ["$HashMap[].0", "$HashMap[].1"]]
                if ins:
                    foreach(rep, "merge/%s/all" % n, "every annotation is merged", fa, "$HashMap", ins, assume=a, target=anyret(fa))
                else:
                    must(rep, "merge/%s/all" % n, "every annotation is merged", fa, ext, assume=a, target="return")
        elif n == "Union":
            is_(rep, "merge/Union", "a union keeps its branches", fa, "$AvroSchema", a)
        else:
            gives(rep, "merge/%s" % n, "an annotated primitive keeps its type and its annotations", fa, "AnnotatedPrimitive", {"kind": alt(n), "properties": alt("$HashMap")}, a)


def downcast_to(fa, want):
    """a parse tree child that is a `want` node"""
    def f(t, adt=None):
        x = t
        if adt is None and t.k == "bin" and t.a[1].k == "discr":
            return None
        if x.k == "call" and last(x.a[0]).startswith("downcast") and adt is not None:
            b = fa.site2b.get(x.a[1])
            ga = fa.g.B[b]["t"].get("ga", []) if b is not None else []
            names = " ".join(fa.p.tyname(i) for i in ga if isinstance(i, int))
            hit = want in names
            return {True: "Ok", False: "Err"}[hit] if adt.endswith("Result") else {True: "Some", False: "None"}[hit]
        if adt is None:
            for b, i in ((x, True),):
                for s, val in fa.batoms(x, True):
                    if s.startswith("downcast") and val in ("Ok", "Err", "Some", "None"):
                        r = f(_find_call(x, "downcast"), "Result")
                        if r is not None:
                            return (r == "Ok") == (val in ("Ok", "Some"))
        return None
    return f


def _find_call(t, pre):
    st = [t]
    while st:
        x = st.pop()
        if x.k == "call" and last(x.a[0]).startswith(pre):
            return x
        st += [y for y in x.a if isinstance(y, Term)]
    return t


NSD = {"walk_named_schema_no_register"}
DECLS = (("fixedDeclaration", "walk_fixed"), ("enumDeclaration", "walk_enum"), ("recordDeclaration", "walk_record"))


@rule("P22")
def declarations(ctx, rep):
    for fn, coll, what in (("walk_idl_file", "get_children(@)", "schema file"), ("walk_protocol", "get_children(protocolDeclarationBody(@))", "protocol")):
        fa = wk(ctx, fn, *NSD)
        C = lg(fa, coll)
        node = "downcast_rc(%s[])" % coll
        d0 = {"protocolDeclaration(@)": "None"} if fn == "walk_idl_file" else {}
        a = on(fa, d0, base=downcast_to(fa, "ImportStatement"))
        evs = fa.calls("collect_single_import", arg={0: lambda s: sh(fa, s) == node, 1: lambda s: "$Vec" in s})
        foreach(rep, "%s/imports" % fn, "every import statement of a %s takes part in the compilation" % what, fa, C, evs, assume=a)
        for acc, w in DECLS:
            d = dict(d0, **{"%s(%s)" % (k, node): ("Some" if k == acc else "None") for k, _ in DECLS})
            a = on(fa, d, base=downcast_to(fa, "NamedSchemaDeclaration"))
            pre = "%s(%s(%s)" % (w, acc, node)
            evs, loc = [], []
            for b in fa.calls("push", "push_back", "extend"):
                if run(fa, None, target={b}, assume=a) is None:
                    continue
                v = fa.v.args(b)[-1]
                got = {sh(fa, x) for x in flat_(fa, v, b, a)}
                if got and all(re.match(r"^Type\(%s" % re.escape(pre), x) for x in got):
                    evs.append(b)
                elif got and all(x.startswith(pre) for x in got):
                    loc.append(b)
            foreach(rep, "%s/%s" % (fn, acc), "every type declared in a %s takes part in the compilation" % what, fa, C, evs, assume=a)
            if fn == "walk_idl_file":
                foreach(rep, "%s/%s/named" % (fn, acc), "every type declared in a schema file is one of its named schemas", fa, C, loc, assume=dict_and(fa, a, {"mainSchemaDeclaration(@)": "None"}))
        for it in iterations(fa, C):
            rep.add("%s/direction" % fn, "rev" not in it["names"], "declarations keep their order", fa.where(it["b"]))
    # messages
    fa = wk(ctx, "walk_protocol", *NSD)
    C, node = lg(fa, "get_children(protocolDeclarationBody(@))"), "downcast_rc(get_children(protocolDeclarationBody(@))[])"
    a = on(fa, {}, base=downcast_to(fa, "MessageDeclaration"))
    evs = [b for b, k, v in map_inserts(fa, lambda s: True) if v and sh(fa, k).startswith("walk_message(" + node) and k.endswith(".0") and v.endswith(".1") and k[:-2] == v[:-2]]
    foreach(rep, "walk_protocol/messages", "every message declared in a protocol is one of its messages", fa, C, evs, assume=a)
    for case, d, name in named_cases(ID):
        gives(rep, "walk_protocol/%s" % case, "a protocol has the name, doc, annotations and messages written", fa, "Protocol",
              {"name": name, "doc": DOC, "properties": "@P.properties", "messages": lambda s: s.startswith("[walk_message(" + node) or s == "[]"}, on(fa, d))
    fa = wk(ctx, "walk_idl_file", *NSD)
    is_(rep, "idl/protocol", "a file with a protocol is that protocol", fa, lambda s: s.startswith("Protocol(walk_protocol(protocolDeclaration(@)"), on(fa, {"protocolDeclaration(@)": "Some"}))
    is_(rep, "idl/schema", "a file with a main schema is that schema", fa, lambda s: s.startswith("Schema(walk_full_type(fullType(mainSchemaDeclaration(@))"),
        on(fa, {"protocolDeclaration(@)": "None", "mainSchemaDeclaration(@)": "Some", "fullType(mainSchemaDeclaration(@))": "Some"}))
    is_(rep, "idl/named", "any other file is the types it declares", fa, lambda s: s.startswith("NamedSchemas("), on(fa, {"protocolDeclaration(@)": "None", "mainSchemaDeclaration(@)": "None"}))


def dict_and(fa, a, d):
    """assumption a (already expanded) together with d on shortened strings"""
    f1, f2 = fa._mkassume(a), fa._mkassume({lg(fa, k): v for k, v in d.items()})

    def f(t, adt=None):
        r = f1(t, adt)
        return r if r is not None else f2(t, adt)
    return RawAssume(f)


PRIMS = {"Boolean": "Boolean", "Int": "Int", "Long": "Long", "Float": "Float", "Double": "Double", "Bytes": "Bytes", "String": "String", "Null": "Null",
         "Date": "Date", "Time": "TimeMillis", "Timestamp": "TimestampMillis", "LocalTimestamp": "LocalTimestampMillis", "UUID": "Uuid"}


@rule("P22", "P20")
def keywords(ctx, rep):
    tk = tokens(ctx)
    fa = wk(ctx, "walk_primitive_type")
    tt = "get_token_type(@.typeName)"
    for n, v in PRIMS.items():
        want = v if n in list(PRIMS)[:8] else "Logical{logical_type:%s,properties:[]}" % v
        is_(rep, "keyword/%s" % n, "the keyword for %s means that type" % v, fa, want, on(fa, {"@.typeName": "Some"}, {tt: tk[n]}))
    P, Sc = "parse_integer_as_u32(get_text(@.precision))", "parse_integer_as_u32(get_text(@.scale))"
    for case, d, sc in (("scale", {"@.scale": "Some"}, Sc), ("no-scale", {"@.scale": "None"}, "0")):
        is_(rep, "keyword/Decimal/%s" % case, "decimal means a decimal of the precision and scale written", fa,
            {"Logical{logical_type:Decimal{precision:%s,scale:%s},properties:[]}" % (P, sc)}, on(fa, dict(d, **{"@.typeName": "Some"}), {tt: tk["Decimal"]}))
    # identifiers: written as is, backquotes aside
    fa = wk(ctx, "identifier_text")
    is_(rep, "identifier", "a name is read as written, without quoting backquotes", fa, alt("replace(get_text(@),'`','')", "replace(get_text(@),\"`\",'')"), None)


@rule("P22", "P30")
def imports(ctx, rep):
    """an import statement becomes an import of the kind its keyword names and of the path written"""
    tk = tokens(ctx)
    fa = wk(ctx, "collect_single_import")
    tt = "get_token_type(@.importType)"
    have = {"@.importType": "Some", "@.location": "Some"}
    path = "get_string_from_literal(get_text(@.location))"
    pushes = fa.calls("push", "extend", "insert", arg={0: lambda s: s.startswith("$Vec")})
    rep.add("import/sites", bool(pushes), "import statements are collected", fa.dn)
    for n, kind in (("IDL", "Idl"), ("Protocol", "Protocol"), ("Schema", "Schema")):
        a = on(fa, have, {tt: tk[n]})
        ev = []
        for b in pushes:
            if run(fa, None, target={b}, assume=a) is None:
                continue
            got = {sh(fa, x) for x in flat_(fa, fa.v.args(b)[-1], b, a)}
            okk = bool(got)
            for s in got:
                m = re.match(r"^Import\((.*)\)$", s, re.S)
                h, d = parts(fa, m.group(1)) if m else (None, {})
                okk = okk and h == "ImportEntry" and d.get("kind") == kind and d.get("path") == path
            rep.add("import/%s/value" % n, okk, "an import is of the kind its keyword names and of the path written", fa.where(b), str(got)[:300])
            ev.append(b)
        must(rep, "import/%s" % n, "every import statement is collected", fa, ev, assume=a)
