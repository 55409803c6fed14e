"""JSON imports (.avsc / .avpr): attribute fidelity, custom properties, namespaces, hoisting."""
import re
from rules import rule
from base import *

ROOT = "$Value"
M = ROOT + ".obj"
T = M + "['type'].str"
PARSE = "parse(%s)" % T

SHAPES = {
    "record": ("Record", A({ROOT: "Object", M + "['type']": "Some", T: "Some"}, {T: "record"})),
    "error": ("Record", A({ROOT: "Object", M + "['type']": "Some", T: "Some"}, {T: "error"})),
    "enum": ("Enum", A({ROOT: "Object", M + "['type']": "Some", T: "Some"}, {T: "enum"})),
    "fixed": ("Fixed", A({ROOT: "Object", M + "['type']": "Some", T: "Some"}, {T: "fixed"})),
    "array": ("Array", A({ROOT: "Object", M + "['type']": "Some", T: "Some"}, {T: "array"})),
    "map": ("Map", A({ROOT: "Object", M + "['type']": "Some", T: "Some"}, {T: "map"})),
}


NOT_OBJ = frozenset({"None", "Null", "Bool", "Number", "String", "Array"})
NOT_ARR = frozenset({"None", "Null", "Bool", "Number", "String", "Object"})


def js(ctx):
    return ctx.fa("import::json_to_schema", inline={"import::*"})


def jm(ctx):
    return ctx.fa("import::json_to_message", inline={"import::*", "!json_to_schema"})


def rec_calls(fa):
    return fa.calls("json_to_schema")


def sub(x, key):
    return "%s['%s']" % (x, key)


def reachable_builds(fa, adt, variant, assume):
    return [(b, i, f) for b, i, f in fa.builds(adt, variant) if run(fa, target={b}, assume=assume) is not None]


def opt_str(rep, key, desc, fa, term, block, path, assume):
    """term is Some(path.str) when present as a string, and None when absent."""
    present = assume.also({path: ["Some", "String"], path + ".str": "Some"})
    expect(rep, key + "/present", desc, fa, term, block, path + ".str", assume=present)
    from rules.emit import order_ops, ORDER_BAD
    ops = order_ops(fa, term, (ORDER_BAD | SHRINK) - {"filter", "filter_map", "map_while", "last", "nth"})
    rep.add(key + "/whole", not ops, desc + ", all of it and in order", fa.where(block), "the list goes through %s" % ops)
    absent = assume.also({path: "None", path + ".arr": "None"})
    expect(rep, key + "/absent", desc + " (nothing is invented when it is absent)", fa, term, block, "None", assume=absent)


def str_list(rep, key, desc, fa, term, block, path, assume):
    present = assume.also({path: ["Some", "Array"], path + ".arr": "Some"})
    expect(rep, key + "/present", desc, fa, term, block, "[%s.arr[].str]" % path, maybe="[]", assume=present)
    from rules.emit import order_ops, ORDER_BAD
    ops = order_ops(fa, term, (ORDER_BAD | SHRINK) - {"filter", "filter_map", "map_while", "last", "nth"})
    rep.add(key + "/whole", not ops, desc + ", all of it and in order", fa.where(block), "the list goes through %s" % ops)
    absent = assume.also({path: "None", path + ".arr": "None"})
    # the elements of an array that is absent are none
    got = flat(fa, fa.vals(term, block, assume=absent))
    rep.add(key + "/absent", bool(got) and got <= {"[]", "[%s.arr[].str]" % path}, desc + " (nothing is invented when it is absent)", fa.where(block), str(sorted(got))[:300])


def intact(rep, key, desc, fa, term, block):
    """a list of converted entries is neither cut, thinned out nor reordered on its way"""
    from rules.emit import order_ops, ORDER_BAD
    ops = order_ops(fa, term, (ORDER_BAD | SHRINK) - {"map_while"})
    rep.add(key + "/whole", not ops, desc + ", all of it and in order", fa.where(block), "the list goes through %s" % ops)


@rule("P06")
def dispatch(ctx, rep):
    fa = js(ctx)
    for tn, (var, asm) in SHAPES.items():
        good = reachable_builds(fa, "AvroSchema", var, asm)
        bs = [b for b, _, _ in good]
        must(rep, "dispatch/%s" % tn, "a JSON object of type \"%s\" becomes a %s" % (tn, var), fa, bs, assume=asm)
        for b, i, f in fa.builds("AvroSchema"):
            v2 = fa.g.B[b]["s"][i][1]["v"]
            if v2 != var:
                r = run(fa, target={b}, assume=asm)
                if r is not None:
                    rep.bad("dispatch/%s/other" % tn, "a JSON object of type \"%s\" becomes nothing but a %s" % (tn, var), fa.where(b), "it can become a %s" % v2)
    # primitives
    prim = A({ROOT: "Object", M + "['type']": "Some", T: "Some", PARSE: "Ok"}, {T: "int"})
    bs = [b for v in ("Logical", "AnnotatedPrimitive") for b, _, _ in fa.builds("AvroSchema", v)] + fa.calls("to_schema")
    must(rep, "dispatch/primitive", "a JSON object of a primitive type becomes that primitive, annotated or logical", fa, bs, assume=prim)
    # an unknown type name or shape is an error
    unknown = A({ROOT: "Object", M + "['type']": "Some", T: "Some", PARSE: "Err"}, {T: "no-such-type"})
    never(rep, "dispatch/unknown", "an unknown type name is rejected", fa, None, assume=unknown)
    never(rep, "dispatch/no-type", "a schema object without a type is rejected", fa, None, assume=A({ROOT: "Object", M + "['type']": "None"}))
    for v in ("Null", "Bool", "Number"):
        never(rep, "dispatch/%s" % v, "a JSON %s where a schema is expected is rejected" % v.lower(), fa, None, assume=A({ROOT: v}))
    # strings and arrays
    st = A({ROOT: "String", "parse(%s.str)" % ROOT: "Err"})
    must(rep, "dispatch/string-name", "a string that is no primitive becomes a reference", fa, [b for b, _, _ in fa.builds("AvroSchema", "Reference")], assume=st)
    st = A({ROOT: "String", "parse(%s.str)" % ROOT: "Ok"})
    prims = fa.calls("to_schema", arg={0: lambda s: s == "parse(%s.str)" % ROOT})
    must(rep, "dispatch/string-primitive", "a string naming a primitive becomes that primitive", fa, prims, assume=st)
    ar = A({ROOT: "Array"})
    un = fa.builds("AvroSchema", "Union")
    must(rep, "dispatch/union", "a JSON array becomes a union", fa, [b for b, _, _ in un], assume=ar)
    for b, i, f in un:
        expect(rep, "union/types", "a union has exactly the array's branches, converted", fa, f["types"], b, "[json_to_schema(%s.arr[],$Option)]" % ROOT, assume=ar)
        intact(rep, "union/types", "a union has exactly the array's branches", fa, f["types"], b)
        expect(rep, "union/flag", "an imported union is not marked as IDL optional syntax", fa, f["is_nullable_type"], b, "False", assume=ar)


@rule("P06")
def named_attrs(ctx, rep):
    fa = js(ctx)
    name = "split(%s['name'].str)" % M
    for tn, (var, asm) in SHAPES.items():
        for b, i, f in reachable_builds(fa, "AvroSchema", var, asm):
            if var in ("Record", "Enum", "Fixed"):
                expect(rep, "%s/name" % tn, "the imported %s keeps its simple name" % tn, fa, f["name"], b, name + ".0", assume=asm)
                opt_str(rep, "%s/doc" % tn, "the imported %s keeps its doc" % tn, fa, f["doc"], b, M + "['doc']", asm)
                str_list(rep, "%s/aliases" % tn, "the imported %s keeps its aliases" % tn, fa, f["aliases"], b, M + "['aliases']", asm)
            if var == "Record":
                one_of(rep, "%s/is_error" % tn, "the imported record is an error exactly when its type says so", fa, f["is_error"], b,
                       {"eq($T,'error')".replace("$T", T), str(tn == "error")}, assume=asm)
                fl = M + "['fields']"
                intact(rep, tn + "/fields", "an imported record keeps its fields", fa, f["fields"], b)
                got = flat(fa, fa.vals(f["fields"], b, assume=asm.also({fl: ["Some", "Array"], fl + ".arr": "Some"})))
                rep.add("%s/fields" % tn, bool(got) and all(x == "[]" or (x.startswith("[Field{") and "name:%s.arr[].obj['name'].str," % fl in x) for x in got) and any(x != "[]" for x in got),
                        "the imported record has one field per entry of its fields array", fa.where(b), str(sorted(got))[:300])
            if var == "Enum":
                str_list(rep, "enum/symbols", "the imported enum keeps its symbols", fa, f["symbols"], b, M + "['symbols']", asm)
                opt_str(rep, "enum/default", "the imported enum keeps its default symbol", fa, f["default"], b, M + "['default']", asm)
            if var == "Fixed":
                one_of(rep, "fixed/size", "the imported fixed keeps its size", fa, f["size"], b, {"try_from(%s['size'].u64)" % M, "try_into(%s['size'].u64)" % M, "%s['size'].u64 as u32" % M}, assume=asm)
            if var == "Array":
                expect(rep, "array/items", "the imported array keeps its item type", fa, f["items"], b, "json_to_schema(%s['items'],$Option)" % M, assume=asm)
            if var == "Map":
                expect(rep, "map/values", "the imported map keeps its value type", fa, f["values"], b, "json_to_schema(%s['values'],$Option)" % M, assume=asm)
    req = {"record": ["name"], "error": ["name"], "enum": ["name"], "fixed": ["name", "size"], "array": ["items"], "map": ["values"]}
    for tn, ks in req.items():
        for k in ks:
            never(rep, "%s/required/%s" % (tn, k), "an imported %s without %s is rejected" % (tn, k), fa, None, assume=SHAPES[tn][1].also({sub(M, k): "None"}))
    asm = SHAPES["fixed"][1].also({"try_from(%s['size'].u64)" % M: "Err", "try_into(%s['size'].u64)" % M: "Err"})
    never(rep, "fixed/size-range", "an imported fixed whose size does not fit is rejected", fa, None, assume=concrete(fa, lambda t: 1 << 32 if fa._c(t) == M + "['size'].u64" else None, asm))
    never(rep, "fixed/size-type", "an imported fixed whose size is not a non-negative integer is rejected", fa, None, assume=SHAPES["fixed"][1].also({M + "['size'].u64": "None"}))


def field_attrs(rep, fa, tag, xs, asm):
    n = 0
    for b, i, f in fa.builds("Field"):
        s = fa.c(f["name"])
        m = re.match(r"^(.*)\['name'\]\.str$", s)
        if not rep.add("%s/name" % tag, bool(m), "an imported field or parameter keeps its name", fa.where(b), s):
            continue
        X = m.group(1)
        if xs and not X.startswith(xs):
            continue
        n += 1
        a0 = asm
        opt_str(rep, "%s/doc" % tag, "an imported field keeps its doc", fa, f["doc"], b, X + "['doc']", a0)
        str_list(rep, "%s/aliases" % tag, "an imported field keeps its aliases", fa, f["aliases"], b, X + "['aliases']", a0)
        expect(rep, "%s/default" % tag, "an imported field keeps its default value", fa, f["default"], b, X + "['default']", assume=a0.also({X + "['default']": "Some"}))
        expect(rep, "%s/no-default" % tag, "an imported field without default gets none", fa, f["default"], b, {"None"}, maybe={X + "['default']"}, assume=a0.also({X + "['default']": "None"})) if "None" in flat(fa, fa.vals(f["default"], b)) else rep.ok("%s/no-default" % tag, "an imported field without default gets none", fa.where(b))
        o = X + "['order']"
        for lit, v in (("ascending", "Ascending"), ("descending", "Descending"), ("ignore", "Ignore")):
            expect(rep, "%s/order/%s" % (tag, lit), "an imported field keeps its sort order", fa, f["order"], b, v, assume=a0.also({o: "Some", o + ".str": "Some"}, {o + ".str": lit}))
        expect(rep, "%s/order/absent" % tag, "an imported field without order gets none", fa, f["order"], b, "None", assume=a0.also({o: "None"}))
        sc = fa.c(f["schema"])
        rep.add("%s/type" % tag, sc.startswith("json_to_schema(%s['type']," % X), "an imported field keeps its type", fa.where(b), sc)
        for k in ("name", "type"):
            never(rep, "%s/required/%s" % (tag, k), "an imported field without %s is rejected" % k, fa, {b}, assume=a0.also({sub(X, k): "None"}))
    rep.add("%s/floor" % tag, n >= 1, "imported field constructions (floor 1): %d" % n)


@rule("P06")
def fields(ctx, rep):
    field_attrs(rep, js(ctx), "field", M + "['fields']", SHAPES["record"][1])
    field_attrs(rep, jm(ctx), "param", "$Value.obj['request']", A())


@rule("P06")
def messages(ctx, rep):
    fa = jm(ctx)
    bl = fa.builds("Message")
    must(rep, "message", "a JSON message becomes a message", fa, [b for b, _, _ in bl])
    for b, i, f in bl:
        a0 = A()
        opt_str(rep, "message/doc", "an imported message keeps its doc", fa, f["doc"], b, M + "['doc']", a0)
        ow = M + "['one-way']"
        got = flat(fa, fa.vals(f["one_way"], b, assume=A({ow: ["Some", "Bool"], ow + ".bool": "Some"})))
        each = {v: flat(fa, fa.vals(f["one_way"], b, assume=A({ow: ["Some", "Bool"], ow + ".bool": v, ow + ".Bool.0": v}))) for v in (True, False)}
        rep.add("message/one-way", got == {ow + ".bool"} or all(each[v] == {str(v)} for v in each), "an imported message keeps its one-way flag", fa.where(b), "%s %s" % (sorted(got), each))
        expect(rep, "message/one-way/absent", "an imported message is two-way unless it says otherwise", fa, f["one_way"], b, "False", assume=A({ow: "None"}))
        e = M + "['errors']"
        expect(rep, "message/errors", "an imported message keeps its declared errors", fa, f["errors"], b, "[json_to_schema(%s.arr[],$Option)]" % e, maybe="[]",
               assume=A({e: ["Some", "Array"], e + ".arr": "Some"}))
        intact(rep, "message/errors", "an imported message keeps its declared errors", fa, f["errors"], b)
        intact(rep, "message/request", "an imported message keeps its parameters", fa, f["request"], b)
        expect(rep, "message/errors/absent", "an imported message without errors gets none", fa, f["errors"], b, "None", assume=A({e: "None"}))
        r = M + "['response']"
        expect(rep, "message/response", "an imported message keeps its response type", fa, f["response"], b, "json_to_schema(%s,$Option)" % r, assume=A({r: "Some"}))
        q = M + "['request']"
        got = flat(fa, fa.vals(f["request"], b, assume=A({q: ["Some", "Array"], q + ".arr": "Some"})))
        rep.add("message/request", any(x.startswith("[Field{") for x in got) and all(x == "[]" or (x.startswith("[Field{") and "name:%s.arr[].obj['name'].str" % q in x) for x in got),
                "an imported message has one parameter per entry of its request array", fa.where(b), str(sorted(got))[:300])


@rule("P06")
def protocol_file(ctx, rep):
    """every entry of `types` is converted"""
    fa = ctx.fa("import::import_protocol", inline={"flatten_and_register", "flatten_schema"})
    doc = "parse_json_with_comments(read_to_string($Path))"
    ty = [s for s in {fa.c(fa.v.args(b)[0]) for b in fa.calls("json_to_schema")}]
    rep.add("avpr/types-source", ty == [doc + "['types'].arr[]"], "the types converted are the entries of the file's types array", fa.dn, str(ty))
    foreach(rep, "avpr/types", "every entry of the types array is converted", fa, doc + "['types'].arr", fa.calls("json_to_schema"), outer=exc((doc + "['types']", NOT_ARR), (doc + "['types'].arr", "None"), (doc + "['types']", lambda v: v != "Array" and v not in ("Some",))))
    fs = ctx.fa("import::import_schema", inline={"flatten_and_register", "flatten_schema"})
    c = fs.calls("json_to_schema", arg={0: lambda s: s == doc})
    must(rep, "avsc/convert", "the schema of an imported .avsc is converted", fs, c)


@rule("P06", "P09")
def registered(ctx, rep):
    """whatever a file defines, nested or not, is hoisted and registered"""
    fa = ctx.fa("import::import_protocol", inline={"flatten_and_register", "flatten_schema"})
    doc = "parse_json_with_comments(read_to_string($Path))"
    fl = fa.calls("flatten_schema_inner", arg={0: lambda s: s.startswith("json_to_schema(")})
    foreach(rep, "avpr/flatten", "every converted type is hoisted", fa, doc + "['types'].arr", fl, outer=exc((doc + "['types']", NOT_ARR), (doc + "['types'].arr", "None")), round_only=True)
    registers(rep, "avpr", fa)
    fs = ctx.fa("import::import_schema", inline={"flatten_and_register", "flatten_schema"})
    must(rep, "avsc/flatten", "the schema of an imported .avsc is hoisted", fs, fs.calls("flatten_schema_inner", arg={0: lambda s: s.startswith("json_to_schema(%s" % doc)}))
    registers(rep, "avsc", fs)


@rule("P06", "P10")
def messages_taken(ctx, rep):
    """every entry of `messages` is converted and returned under its name"""
    fa = ctx.fa("import::import_protocol", inline={"flatten_and_register", "flatten_schema"})
    doc = "parse_json_with_comments(read_to_string($Path))"
    ms = fa.calls("json_to_message", arg={0: lambda s: s == doc + "['messages'].obj[].1"})
    foreach(rep, "avpr/messages", "every entry of the messages object is converted", fa, doc + "['messages'].obj", ms, outer=exc((doc + "['messages']", NOT_OBJ), (doc + "['messages'].obj", "None")))
    ret = sorted({fa.c(fa.v.read(fa.g.ret, (), b, 1 << 30)) for b in fa.g.rpo if fa.g.B[b]["t"]["k"] == "return"})
    oks = [x for r in ret for x in (fa._split(r) if r.startswith("{") else [r]) if not x.startswith("Err(")]
    want = "[%s['messages'].obj[].0=json_to_message(%s['messages'].obj[].1,%s['namespace'].str)]" % (doc, doc, doc)
    oks2 = [x.replace("{%s['namespace'].str|None}" % doc, doc + "['namespace'].str").replace("{None|%s['namespace'].str}" % doc, doc + "['namespace'].str") for x in oks]
    rep.add("avpr/result", bool(oks) and set(oks2) <= {want, "[]"} and want in oks2, "each converted message is returned under its own name", fa.dn, str(oks)[:400])


def registers(rep, tag, fa):
    regs = fa.calls("SchemaRegistry::register")
    col = {fa.c(x) for b in fa.calls("flatten_schema_inner") for x in fa.v.args(b)[1:2]}
    rep.add("%s/register" % tag, bool(regs), "hoisted types are registered", fa.dn)
    for b in regs:
        a = fa.v.args(b)
        # the registered value is an element of the list the hoisting filled
        src = {x.a[3] for x in fa.v.leaves(a[1]) if x.k == "mut"}
        ok = any(c in src for c in fa.calls("flatten_schema_inner"))
        rep.add("%s/register/source" % tag, ok, "what is registered is what hoisting collected", fa.where(b), fa.c(a[1])[:200])
    # every round over the collected list registers the element
    good = False
    why = []
    taken, tw = [], []
    counted = {it["b"]: it["base"] for it in iterations(fa, lambda s: True) if it["b"] in fa.g.rpoi and (fa.g.B[it["b"]]["t"]["k"] == "switch" or last(fa.g.B[it["b"]]["t"]["f"]) == "get")}
    for b in fa.g.rpo:
        t = fa.g.B[b]["t"]
        if b in counted or t["k"] == "call" and (last(t["f"]) in ("next", "pop") or t.get("clo")) and t["a"]:
            base = counted[b] if b in counted else adaptors(fa, fa.v.args(b)[0])[2]
            if base is not None and base.k == "agg" and base.a[0].endswith("ops::Range") and fa.c(base.a[3]) == "0" and base.a[4].a:
                base = base.a[4].a[-1]         # the positions of a list
            if base is None or not isinstance(base, Term):
                continue
            lv = {x.a[3] for x in fa.v.leaves(base) if x.k == "mut"}
            if not any(c in lv for c in fa.calls("flatten_schema_inner")):
                continue
            r2 = Report("")
            want = fa.c(base)
            asm = {}
            for rb in regs:
                e = "full_name(%s)" % fa.argc(rb)[1]
                # a name that is already taken is kept as it was
                asm.update({e: "Some", "lookup($SchemaRegistry,%s)" % e: "None", "has($SchemaRegistry.schemas,%s)" % e: False, "$SchemaRegistry.schemas[%s]" % e: "None"})
            if foreach(r2, "x", "", fa, lambda s: s == want, regs, round_only=True, assume=asm):
                good = True
            else:
                why += [o.get("detail", "") for o in r2.obl]
            # meeting one that is taken does not end the search
            from base import _next_edges
            from rules.diag import succs
            first = {y for it in iterations(fa, lambda s: s == want) for y in ([it["clo"]["body"]] if it["kind"] != "loop" else _next_edges(fa, it["b"])[0])}
            flats = set(fa.calls("flatten_schema_inner"))
            fl = fa.flow()
            r3 = Report("")
            on = all([foreach(r3, "x", "", fa, lambda s: s == want, first, start=y, target=lambda z, e: z in flats or fl.ok_exit(z, e)) for c in flats for y in succs(fa, c)])
            taken.append(on)
            tw += [o.get("detail", "") for o in r3.obl]
    rep.add("%s/register/each" % tag, good, "every hoisted type is registered", fa.dn, "; ".join(why)[:400])
    rep.add("%s/register/rest" % tag, any(taken), "a hoisted type whose name is taken does not keep the others from being registered", fa.dn, "; ".join(tw)[:400])


# -- custom properties ------------------------------------------------------------------------
def carried(fa, s, X):
    """Is s the custom properties of X: inserted one by one, or collected"""
    return s in ("[%s[].0=%s[].1]" % (X, X), "[(%s[].0,%s[].1)]" % (X, X))


def filtered(fa, props, X):
    """the filters between X and properties collected from it (None: they are not)"""
    for names, sites, base in adaptor_bases(fa, props):
        if base is not None and fa.c(base) == X and any(n in ("filter", "filter_map") for n in names):
            return {"sites": sites}
    return None


def filter_says(fa, it, asm):
    """per filter: its answers on the ways to it under asm"""
    out = []
    for site in it["sites"]:
        b = fa.site2b.get(site)
        t = fa.g.B[b]["t"] if b is not None else None
        if t is None or not t.get("clo") or last(t["f"]) not in ("filter", "filter_map"):
            continue
        ret, end = fa.v.closure_ret(site), t["clo"][0]["end"]
        fl, got = fa.flow([ret], asm), set()

        def tgt(bb, e):
            if bb == end:
                if last(t["f"]) == "filter_map":
                    v = fl.variant(fl.rs(ret, e))
                    got.add(v == "Some" if v in ("Some", "None") else None)
                else:
                    r = fl.ev(fl.rs(ret, e), e)
                    got.add(r[2] if r[0] != "nbool" or r[2] is None else not r[2])
            return False
        list(fl.run(fa.g.entry, target=tgt, find_all=True))
        out.append(got)
    return out


def never_in(fa, it, asm):
    return any(x == {False} for x in filter_says(fa, it, asm))


def always_in(fa, it, asm):
    r = filter_says(fa, it, asm)
    return bool(r) and all(x == {True} for x in r)


def prop_keys(rep, tag, fa, X, asm, block, consumed_extra=(), props=None):
    """For one JSON object shape: keys consumed as structure are not repeated as custom
    properties, every other key is carried over with its value."""
    kv = X + "[].0"
    consumed = set()
    fl = fa.flow((), asm)
    reach = fl.reach(fa.g.entry)
    for b in reach:
        t = fa.g.B[b]["t"]
        if t["k"] == "call" and last(t["f"]) == "get" and len(t["a"]) == 2:
            ar = fa.argc(b)
            if ar[0] == X and ar[1].startswith("'"):
                consumed.add(ar[1][1:-1])
    ins = [b for b in fa.calls("insert") if fa.argc(b)[1:] == [kv, X + "[].1"] and b in reach]
    it = filtered(fa, props, X) if not ins and props is not None else None
    rep.add("%s/carrier" % tag, bool(ins or it), "custom properties of an imported %s are carried over, key and value" % tag, fa.where(block), "no insertion of the object's remaining keys and values found")
    if not ins and not it:
        return consumed
    for k in sorted(consumed | set(consumed_extra)):
        a = asm.also(None, {kv: k})
        r = run(fa, target=set(ins), assume=a) if ins else None if never_in(fa, it, a) else block
        rep.add("%s/structural/%s" % (tag, k), r is None, "the structural key %s of an imported %s is not duplicated as a custom property" % (k, tag), fa.where(block), "it is inserted as a custom property" if r else "")
    for k in ["custom-key", "x", "java-class", "Type", "names"] + [k for k in UNIVERSE if k not in consumed and k not in consumed_extra]:
        a = asm.also(None, {kv: k})
        r2 = Report("")
        ok = foreach(r2, "x", "", fa, X, ins, assume=a, target=[block]) if ins else always_in(fa, it, a)
        rep.add("%s/custom/%s" % (tag, k), ok, "a key \"%s\" of an imported %s is carried over as a custom property" % (k, tag), fa.where(block), "; ".join(o.get("detail", "") for o in r2.obl if not o["ok"])[:500])
    return consumed


UNIVERSE = ["name", "namespace", "doc", "type", "fields", "symbols", "size", "aliases", "default", "order", "items", "values",
            "logicalType", "precision", "scale", "request", "response", "errors", "one-way"]


@rule("P07")
def custom_properties(ctx, rep):
    fa = js(ctx)
    for tn, (var, asm) in SHAPES.items():
        for b, i, f in reachable_builds(fa, "AvroSchema", var, asm):
            c = prop_keys(rep, tn, fa, M, asm, b, props=f["properties"])
            s = fa.c(f["properties"])
            rep.add("%s/into-model" % tn, carried(fa, s, M), "the collected custom properties are stored on the %s" % tn, fa.where(b), s)
    # fields of records, parameters and messages
    for fa2, xs, asm, tag in ((fa, M + "['fields']", SHAPES["record"][1], "field"), (jm(ctx), M + "['request']", A(), "param")):
        for b, i, f in fa2.builds("Field"):
            m = re.match(r"^(.*)\['name'\]\.str$", fa2.c(f["name"]))
            if m and m.group(1).startswith(xs):
                X = m.group(1)
                prop_keys_at(rep, tag, fa2, X, asm, b, f["properties"])
                s = fa2.c(f["properties"])
                rep.add("%s/into-model" % tag, carried(fa, s, X), "the collected custom properties are stored on the field", fa2.where(b), s)
    fm = jm(ctx)
    for b, i, f in fm.builds("Message"):
        prop_keys(rep, "message", fm, M, A(), b, props=f["properties"])
        s = fm.c(f["properties"])
        rep.add("message/into-model", carried(fa, s, M), "the collected custom properties are stored on the message", fm.where(b), s)
    # annotated primitives and logical types
    base = A({ROOT: "Object", M + "['type']": "Some", T: "Some", PARSE: "Ok"}, {T: "int"})
    lt = M + "['logicalType']"
    cases = {
        "primitive": (base.also({lt: "None"}), "AnnotatedPrimitive"),
        "unknown-logical": (base.also({lt: "Some", lt + ".str": "Some"}), "AnnotatedPrimitive"),
        "logical": (base.also({lt: "Some", lt + ".str": "Some"}), "Logical"),
    }
    for tag, (asm, var) in cases.items():
        def asm2(base=asm):
            return base
        for b, i, f in reachable_builds(fa, "AvroSchema", var, asm):
            s = fa.c(f["properties"])
            rep.add("%s/into-model" % tag, carried(fa, s, M), "the remaining keys are stored on the imported %s" % tag, fa.where(b), s)
            kv = M + "[].0"
            ins = [x for x in fa.calls("insert") if fa.argc(x)[1:] == [kv, M + "[].1"]]
            flt = filtered(fa, f["properties"], M) if not ins else None
            if flt:
                L = fa.c(f["logical_type"]) if var == "Logical" else None
                for k in UNIVERSE + ["custom-key"]:
                    a = asm.also(None, {kv: k})
                    own = k == "type" or var == "Logical" and k == "logicalType"
                    if var == "Logical" and k in ("precision", "scale"):
                        rep.add("logical/structural/%s" % k, never_in(fa, flt, a.also({L: ["Some", "Decimal"]})), "the attribute %s of an imported decimal is not duplicated as a custom property" % k, fa.where(b))
                        rep.add("logical/custom/%s" % k, always_in(fa, flt, a.also({L: ["Some", "Date"]})), "the key %s of an imported logical type other than decimal is carried over" % k, fa.where(b))
                    elif own:
                        rep.add("%s/structural/%s" % (tag, k), never_in(fa, flt, a), "the structural key %s is not duplicated as a custom property" % k, fa.where(b))
                    else:
                        rep.add("%s/custom/%s" % (tag, k), always_in(fa, flt, a), "the key %s of an imported primitive is carried over" % k, fa.where(b))
                continue
            struct = {"type"} | ({"logicalType", "precision", "scale"} if var == "Logical" else set())
            for k in UNIVERSE + ["custom-key"]:
                a = asm.also(None, {kv: k})
                # every iteration over the object on the way to this construction
                r2 = Report("")
                if k in ("precision", "scale") and var == "Logical":
                    # attributes of decimal only: custom keys of every other logical type
                    L = fa.c(f["logical_type"])
                    dec, oth = (asm.also({L: ["Some", x]}, {kv: k}) for x in ("Decimal", "Date"))
                    bad = any(run(fa, target={x}, assume=dec) is not None and _leads(fa, x, b, dec, f["properties"]) for x in ins)
                    rep.add("logical/structural/%s" % k, not bad, "the attribute %s of an imported decimal is not duplicated as a custom property" % k, fa.where(b))
                    src = {x.a[3] for x in fa.v.leaves(f["properties"]) if x.k == "mut"}
                    ok = foreach(r2, "x", "", fa, M, [x for x in ins if x in src], assume=oth, target=[b])
                    rep.add("logical/custom/%s" % k, ok, "the key %s of an imported logical type other than decimal is carried over" % k, fa.where(b), "; ".join(o.get("detail", "") for o in r2.obl if not o["ok"])[:400])
                    continue
                if k in struct:
                    # reach block through an insertion of k?
                    bad = False
                    for x in ins:
                        if run(fa, target={x}, assume=a) is not None and _leads(fa, x, b, a, f["properties"]):
                            bad = True
                    rep.add("%s/structural/%s" % (tag, k), not bad, "the structural key %s is not duplicated as a custom property" % k, fa.where(b))
                else:
                    src = {x.a[3] for x in fa.v.leaves(f["properties"]) if x.k == "mut"}
                    ev = [x for x in ins if x in src]
                    ok = bool(ev) and foreach(r2, "x", "", fa, M, ev, assume=a, target=[b])
                    rep.add("%s/custom/%s" % (tag, k), ok, "the key %s of an imported primitive is carried over" % k, fa.where(b), "; ".join(o.get("detail", "") for o in r2.obl if not o["ok"])[:400])
    # a primitive with custom keys is not reduced to the bare primitive
    bare = fa.calls("to_schema", arg={0: lambda s: s == PARSE})
    r = run(fa, target=set(bare), assume=cases["primitive"][0].also({"empty([%s[].0=%s[].1])" % (M, M): False, "empty([(%s[].0,%s[].1)])" % (M, M): False}))
    rep.add("primitive/not-bare", r is None, "an annotated primitive is never reduced to the bare primitive", fa.dn, path_text(fa, r) if r else "")
    r = run(fa, target=set(bare), assume=cases["unknown-logical"][0])
    rep.add("primitive/unknown-logical-kept", r is None, "a primitive with an unrecognised logical type keeps it as a property", fa.dn, path_text(fa, r) if r else "")


def _leads(fa, x, b, a, props):
    return x in {t.a[3] for t in fa.v.leaves(props) if t.k == "mut"} and run(fa, start=x, target={b}, assume=a) is not None


def prop_keys_at(rep, tag, fa, X, asm, block, props=None):
    """as prop_keys, for an object met once per element (rounds only)"""
    kv = X + "[].0"
    consumed = set()
    for b in fa.v.calls():
        t = fa.g.B[b]["t"]
        if last(t["f"]) == "get" and len(t["a"]) == 2:
            ar = fa.argc(b)
            if ar[0] == X and ar[1].startswith("'"):
                consumed.add(ar[1][1:-1])
    ins = [b for b in fa.calls("insert") if fa.argc(b)[1:] == [kv, X + "[].1"]]
    it = filtered(fa, props, X) if not ins and props is not None else None
    rep.add("%s/carrier" % tag, bool(ins or it), "custom properties of an imported %s are carried over" % tag, fa.where(block))
    if not ins and not it:
        return
    for k in sorted(consumed):
        a = asm.also(None, {kv: k})
        r = run(fa, target=set(ins), assume=a) if ins else None if never_in(fa, it, a) else block
        rep.add("%s/structural/%s" % (tag, k), r is None, "the structural key %s of an imported %s is not duplicated as a custom property" % (k, tag), fa.where(block))
    for k in ["custom-key"] + [k for k in UNIVERSE if k not in consumed]:
        a = asm.also(None, {kv: k})
        r2 = Report("")
        ok = foreach(r2, "x", "", fa, X, ins, assume=a, round_only=True) if ins else always_in(fa, it, a)
        rep.add("%s/custom/%s" % (tag, k), ok, "a key \"%s\" of an imported %s is carried over as a custom property" % (k, tag), fa.where(block), "; ".join(o.get("detail", "") for o in r2.obl if not o["ok"])[:400])


# -- namespaces ---------------------------------------------------------------------------------
@rule("P08")
def namespaces(ctx, rep):
    fa = js(ctx)
    name = "split(%s['name'].str).1" % M
    nsk = M + "['namespace']"
    cases = [
        ("explicit", {nsk: ["Some", "String"], nsk + ".str": "Some"}, nsk + ".str", "an explicit namespace attribute wins"),
        ("qualified", {nsk: "None", name: "Some"}, name, "otherwise the namespace part of the name is used"),
        ("inherited", {nsk: "None", name: "None", "$Option": "Some"}, "$Option", "otherwise the enclosing namespace is inherited"),
        ("none", {nsk: "None", name: "None", "$Option": "None"}, "None", "otherwise there is no namespace"),
    ]
    for tn in ("record", "error", "enum", "fixed"):
        var, asm = SHAPES[tn]
        for b, i, f in reachable_builds(fa, "AvroSchema", var, asm):
            for cn, d, want, text in cases:
                one_of(rep, "ns/%s/%s" % (tn, cn), "namespace of an imported %s: %s" % (tn, text), fa, f["namespace"], b, {want} | ({"$Option"} if cn == "none" else set()), assume=asm.also(d))
    # fields resolve bare names in the record's own namespace
    n = 0
    for b in fa.calls("json_to_schema"):
        ar = fa.v.args(b)
        s = fa.c(ar[0])
        if s.startswith(M + "['fields']") and s.endswith("['type']"):
            n += 1
            for tn in ("record", "error"):
                for cn, d, want, text in cases:
                    one_of(rep, "ns/field-of-%s/%s" % (tn, cn), "bare names in fields resolve in the record's namespace: %s" % text, fa, ar[1], b, {want} | ({"$Option"} if cn == "none" else set()), assume=SHAPES[tn][1].also(d))
        else:
            n += 1
            expect(rep, "ns/nested/%s" % s.replace(M, "obj").replace(ROOT, "value"), "nested schemas resolve in the enclosing namespace", fa, ar[1], b, "$Option")
    rep.add("ns/floor", n >= 4, "nested conversions (floor 4): %d" % n)
    # references by name
    st = A({ROOT: "String", "parse(%s.str)" % ROOT: "Err"})
    ro = "rsplit_once(%s.str,'.')" % ROOT
    m = 0
    for b, i, f in fa.builds("AvroSchema", "Reference"):
        if run(fa, target={b}, assume=st) is None:
            continue
        m += 1
        dotted = st.also({ro: "Some", "split(%s.str).1" % ROOT: "Some"})
        plain = st.also({ro: "None", "split(%s.str).1" % ROOT: "None"})
        if run(fa, target={b}, assume=dotted) is not None:
            one_of(rep, "ref/dotted/name", "a dotted reference is split into name", fa, f["name"], b, {ro + ".1", "split(%s.str).0" % ROOT}, assume=dotted)
            one_of(rep, "ref/dotted/namespace", "a dotted reference is split into namespace", fa, f["namespace"], b, {ro + ".0", "split(%s.str).1" % ROOT}, assume=dotted)
        if run(fa, target={b}, assume=plain) is not None:
            one_of(rep, "ref/plain/name", "a bare reference keeps its name", fa, f["name"], b, {ROOT + ".str", "split(%s.str).0" % ROOT}, assume=plain)
            one_of(rep, "ref/plain/namespace", "a bare reference is resolved in the enclosing namespace", fa, f["namespace"], b, {"$Option"}, assume=plain.also({"$Option": "Some"}))
    rep.add("ref/floor", m >= 1, "reference constructions: %d" % m)
    # messages and files
    fm = jm(ctx)
    for b in fm.calls("json_to_schema"):
        ar = fm.v.args(b)
        expect(rep, "ns/message/%s" % fm.c(ar[0]).replace(M, "msg"), "types in imported messages resolve in the protocol's namespace", fm, ar[1], b, "$Option")
    fp = ctx.fa("import::import_protocol")
    doc = "parse_json_with_comments(read_to_string($Path))"
    for nm in ("json_to_schema", "json_to_message"):
        bs = fp.calls(nm)
        rep.add("ns/file/%s/floor" % nm, bool(bs), "%s call sites in the protocol import: %d" % (nm, len(bs)))
        for b in bs:
            ar = fp.v.args(b)
            expect(rep, "ns/file/%s" % nm, "the protocol's namespace is inherited by its types and messages", fp, ar[1], b, doc + "['namespace'].str", assume=A({doc + "['namespace']": ["Some", "String"], doc + "['namespace'].str": "Some"}))
    fs = ctx.fa("import::import_schema")
    for b in fs.calls("json_to_schema"):
        expect(rep, "ns/file/avsc", "a schema file has no enclosing namespace", fs, fs.v.args(b)[1], b, "None")


# -- hoisting ------------------------------------------------------------------------------------
@rule("P09")
def hoisting(ctx, rep):
    from rules.refs import child_paths
    fa = ctx.fa("import::flatten_schema_inner")
    R = "$AvroSchema"
    cp = child_paths(ctx)
    adt = {v["n"]: [f["n"] for f in v["f"]] for v in ctx.p.adts["avdl::model::schema::AvroSchema"]["v"]}
    recs = fa.calls("flatten_schema_inner")
    rep.add("walk/floor", sum(len(x) for x in cp.values()) >= 4, "nested-schema positions derived from the model (floor 4)")
    for var, paths in cp.items():
        for s in paths:
            full = R + "." + s
            evs = fa.calls("flatten_schema_inner", arg={0: lambda x: x == full})
            if "[]" in s:
                foreach(rep, "walk/%s" % s, "hoisting descends into %s" % s, fa, R + "." + s[:s.index("[]")], evs, assume={R: var}, target=lambda b, e: fa.g.B[b]["t"]["k"] == "return")
            else:
                must(rep, "walk/%s" % s, "hoisting descends into %s" % s, fa, evs, assume={R: var}, target="return")
    for b in recs:
        c = fa.argc(b)[1]
        rep.add("walk/collector", c in ("$Vec",) or c.strip("{}").split("|")[0] == "$Vec", "nested hoisting collects into the same list", fa.where(b), c)
    rets = [b for b in fa.g.rpo if fa.g.B[b]["t"]["k"] == "return"]
    for var in adt:
        asm = A({R: var})
        for rb in rets:
            t = fa.v.read(fa.g.ret, (), rb, 1 << 30)
            got = flat(fa, fa.vals(t, rb, assume=asm))
            P = R + "." + var + "."
            if var in ("Record", "Enum", "Fixed"):
                want = "Reference{name:%sname,namespace:%snamespace,properties:[],span:None}" % (P, P)
                rep.add("result/%s" % var, got == {want}, "a nested %s is replaced by a reference to its own full name" % var.lower(), fa.where(rb), str(sorted(got))[:300])
            elif cp.get(var):
                fs = []
                for f in sorted(adt[var]):
                    s = [x for x in cp[var] if x.split(".")[1].startswith(f) and x.split(".")[1].replace("[]", "") == f]
                    if s and "[]" in s[0]:
                        fs.append("%s:[flatten_schema_inner(%s%s[],$Vec)]" % (f, P, f))
                    elif s:
                        fs.append("%s:flatten_schema_inner(%s%s,$Vec)" % (f, P, f))
                    else:
                        fs.append("%s:%s%s" % (f, P, f))
                want = "%s{%s}" % (var, ",".join(fs))
                rep.add("result/%s" % var, got == {want}, "a %s keeps its own attributes around the hoisted contents" % var.lower(), fa.where(rb), "%s expected %s" % (sorted(got), want))
            else:
                rep.add("result/%s" % var, got == {R}, "a %s is left unchanged" % var, fa.where(rb), str(sorted(got))[:300])
    # what is collected
    into = [b for b in fa.calls("push") if fa.argc(b)[0].strip("{}").split("|")[0].startswith("$Vec")]
    for var in ("Record", "Enum", "Fixed"):
        asm = A({R: var})
        pushes = [b for b in into if run(fa, target={b}, assume=asm) is not None]
        must(rep, "collect/%s" % var, "a nested %s is collected" % var.lower(), fa, pushes, assume=asm, target="return")
        P = R + "." + var + "."
        for b in pushes:
            t = fa.v.args(b)[1]
            got = flat(fa, fa.vals(t, b, assume=asm))
            if var == "Record":
                ff = [f["n"] for f in ctx.p.adts["avdl::model::schema::Field"]["v"][0]["f"]]
                fld = "Field{%s}" % ",".join("%s:%s" % (n, "flatten_schema_inner(%sfields[].schema,$Vec)" % P if n == "schema" else "%sfields[].%s" % (P, n)) for n in sorted(ff))
                fld2 = "%sfields[] with schema=flatten_schema_inner(%sfields[].schema,$Vec)" % (P, P)
                ws = set()
                for fx in (fld, fld2):
                    ws.add("Record{%s}" % ",".join("%s:%s" % (n, "[%s]" % fx if n == "fields" else P + n) for n in sorted(adt["Record"])))
                rep.add("collect/Record/intact", got <= ws and got, "a hoisted record keeps every attribute of itself and of its fields", fa.where(b), "%s" % sorted(got))
                # inner types first
                r = None
                for c in recs:
                    if run(fa, start=b, target={c}, assume=asm) is not None:
                        r = c
                rep.add("collect/inner-first", r is None, "nested types are collected before the record containing them", fa.where(b))
            else:
                whole = "%s{%s}" % (var, ",".join("%s:%s%s" % (n, P, n) for n in sorted(adt[var])))
                rep.add("collect/%s/intact" % var, got and got <= {R, whole}, "a hoisted %s is collected unchanged" % var.lower(), fa.where(b), str(sorted(got)))
    for var in adt:
        if var not in ("Record", "Enum", "Fixed"):
            r = run(fa, target=set(into), assume=A({R: var}))
            rep.add("collect/%s" % var, r is None, "only named types are collected", fa.dn)
