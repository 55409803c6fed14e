"""How the full names of declared and referenced types are formed."""
from rules import rule
from base import *
from rules.parse import wk, on, sh, lg, built, parts, tup0, promoted, dotted, ID, NSD, writes, PLAIN, only_kind, gives, named_cases, dict_and
from rules.driver import make_full_name

D0 = dotted(ID) + ".0"
FORMS = (("dotted", {dotted(ID): "Some"}, D0), ("annotated", {dotted(ID): "None", "@P.namespace": "Some"}, "@P.namespace"))


@rule("P21")
def declared(ctx, rep):
    for fn, kind, un in (("walk_record", "Record", tup0), ("walk_enum", "Enum", None), ("walk_fixed", "Fixed", promoted)):
        fa = wk(ctx, fn)
        for en in ("Some", "None"):
            for case, d, ns in FORMS:
                gives(rep, "%s/%s" % (fn, case), "a name written with dots is the full name, and @namespace applies to one without", fa, kind, {"namespace": ns}, on(fa, dict(d, **{"$Option": en})), un)
            want = ("$Option",) if en == "Some" else ("$Option", "None")
            gives(rep, "%s/enclosing/%s" % (fn, en), "a type that states no namespace is in the enclosing one", fa, kind, {"namespace": lambda s, w=want: s in w},
                  on(fa, {dotted(ID): "None", "@P.namespace": "None", "$Option": en}), un)
    # fields are read in the namespace of their record
    fa = wk(ctx, "walk_record")
    for b in fa.calls("walk_field_declaration"):
        for case, d, ns in FORMS + (("enclosing", {dotted(ID): "None", "@P.namespace": "None"}, "$Option"),):
            got = [{sh(fa, x) for x in flat(fa, fa.vals(t, b, assume=on(fa, dict(d, **{"$Option": "Some"}))))} for t in fa.v.args(b)[1:]]
            rep.add("record/scope/%s" % case, {ns} in got, "names in a record are looked up in the record's own namespace", fa.where(b), str(got)[:300])


@rule("P21")
def no_leak(ctx, rep):
    """a record's namespace is not that of what follows it"""
    fa = wk(ctx, "walk_record")
    ws = [(b, p, v) for b, p, v in writes(fa) if flat(fa, {fa._c(p)}) and "$Option" in fa._c(p)]
    roots = set()
    for b in fa.g.rpo:
        for pl, rv, ln in fa.g.B[b]["s"]:
            if pl[1] and pl[1][0] == "*" and len(pl[1]) == 1:
                roots |= {r[0] for r in fa.v.resolve(pl)}
    ps = {l: n for l, n in zip(fa.g.argl, fa.pname)}
    mem = [r for r in roots if isinstance(r, tuple) and r[0] == "D" and ps.get(r[1]) == "$Option" and not r[2]]
    if not mem:
        rep.ok("restored", "the enclosing namespace is not changed by a record", fa.dn)
        return
    for b in fa.g.rpo:
        if fa.g.B[b]["t"]["k"] != "return":
            continue
        for m in mem:
            t = fa.v.read(m, (), b, 1 << 30)
            fl = fa.flow([t])
            bad = [(e, p) for y, e, p in fl.run(fa.g.entry, target=lambda y, e: y == b and fl.ok_exit(y, e), find_all=True) if fa.c(t, e, fl) != "$Option"]
            rep.add("restored", not bad, "after a record the enclosing namespace is what it was before", fa.where(b), fa.c(t, bad[0][0], fl)[:300] if bad else "")


@rule("P21")
def enclosing(ctx, rep):
    # a protocol's namespace
    fa = wk(ctx, "walk_protocol", *NSD)
    kids = fa.calls("walk_message", "walk_record", "walk_enum", "walk_fixed")
    rep.add("protocol/scope", len(kids) >= 4, "the declarations of a protocol are read", fa.dn, str(len(kids)))
    allowed = {D0, "@P.namespace", "None"}
    for b in kids:
        got = [{sh(fa, x) for x in flat(fa, {fa._c(t)})} for t in fa.v.args(b)[1:]]
        rep.add("protocol/scope/%s" % last(fa.g.B[b]["t"]["f"]), any(g and g <= allowed for g in got), "the declarations of a protocol are in the protocol's namespace", fa.where(b), str(got)[:300])
    ws = [(b, p, v) for b, p, v in writes(fa) if fa._c(p) == "$Option"]
    for case, d, ns in FORMS + (("none", {dotted(ID): "None", "@P.namespace": "None"}, "None"),):
        a = on(fa, d)
        if ws:
            for b, p, v in ws:
                got = {sh(fa, x) for x in flat(fa, fa.vals(v, b, assume=a))}
                rep.add("protocol/%s" % case, got <= ({ns} | ({"@P.namespace"} if ns == "None" else set())) and bool(got), "a protocol's namespace is that of its dotted name, or else its @namespace, or none", fa.where(b), str(sorted(got)))
            for b in kids:
                must(rep, "protocol/%s/first" % case, "a protocol's namespace is known before its declarations are read", fa, [w[0] for w in ws], target={b}, assume=a)
        else:
            for b in kids:
                got = [{sh(fa, x) for x in flat(fa, fa.vals(t, b, assume=a))} for t in fa.v.args(b)[1:]]
                rep.add("protocol/%s" % case, any(g and g <= ({ns} | ({"@P.namespace"} if ns == "None" else set())) for g in got), "a protocol's namespace is that of its dotted name, or else its @namespace, or none", fa.where(b), str(got)[:300])
    for b, i, f in fa.builds("Protocol"):
        got = {sh(fa, x) for x in flat(fa, {fa._c(f["namespace"])})}
        rep.add("protocol/emitted", bool(got) and got <= allowed, "the protocol states the namespace its declarations are in", fa.where(b), str(sorted(got)))
    # a schema file's namespace
    fa = wk(ctx, "walk_idl_file", *NSD)
    X = "identifier_text(identifier(namespaceDeclaration(@)))"
    kids = fa.calls("walk_full_type", "walk_record", "walk_enum", "walk_fixed")
    rep.add("file/scope", len(kids) >= 4, "the declarations of a schema file are read", fa.dn, str(len(kids)))
    schema = {"protocolDeclaration(@)": "None"}
    yes = dict(schema, **{"namespaceDeclaration(@)": "Some", "identifier(namespaceDeclaration(@))": "Some"})
    no = dict(schema, **{"namespaceDeclaration(@)": "None"})
    ws = [(b, p, v) for b, p, v in writes(fa) if fa._c(p) == "$Option"]
    if ws:
        for b, p, v in ws:
            rep.add("file/declared", {sh(fa, x) for x in flat(fa, fa.vals(v, b))} == {X}, "a file's namespace is the one declared", fa.where(b), sh(fa, fa._c(v))[:200])
        for b in kids:
            must(rep, "file/declared/first", "a file's namespace applies to all its declarations", fa, [w[0] for w in ws], target={b}, assume=on(fa, yes))
        never(rep, "file/undeclared", "a file that declares no namespace has none", fa, {w[0] for w in ws}, assume=on(fa, no))
    for b in kids:
        got = [{sh(fa, x) for x in flat(fa, {fa._c(t)})} for t in fa.v.args(b)[1:]]
        rep.add("file/scope/%s" % last(fa.g.B[b]["t"]["f"]), any(g and g <= {X, "$Option", "None"} and (X in g or not ws) for g in got), "the declarations of a file are in the file's namespace", fa.where(b), str(got)[:300])
        if not ws:
            got = [{sh(fa, x) for x in flat(fa, fa.vals(t, b, assume=on(fa, yes)))} for t in fa.v.args(b)[1:]]
            rep.add("file/declared", {X} in got, "a file's namespace applies to all its declarations", fa.where(b), str(got)[:300])
    # each file starts without one
    fa = ctx.fa("reader::parse_idl_named")
    cs = fa.calls("walk_idl_file")
    rep.add("initial/called", bool(cs), "a file is read", fa.dn)
    for b in cs:
        got = [flat(fa, fa.vals(t, b)) for t in fa.v.args(b)[1:]]
        rep.add("initial", any(g and g <= {"None", "Default", "default()"} for g in got) or len(fa.v.args(b)) < 5, "a file that declares no namespace has none", fa.where(b), str(got)[:300])


PASS = ("walk_field_declaration", "walk_full_type", "walk_plain_type", "walk_array_type", "walk_map_type", "walk_union_type", "walk_result_type", "walk_message", "walk_named_schema_no_register")
TO = ("walk_full_type", "walk_plain_type", "walk_array_type", "walk_map_type", "walk_union_type", "walk_nullable_type", "walk_result_type", "walk_record", "walk_enum", "walk_fixed")


@rule("P21")
def passed_on(ctx, rep):
    """every nested type is read in the same scope"""
    n = 0
    for fn in PASS:
        if not ctx.p.by_simple(fn) if hasattr(ctx.p, "by_simple") else False:
            continue
        fa = wk(ctx, fn)
        for b in fa.calls(*TO):
            n += 1
            got = [flat(fa, fa.vals(t, b)) for t in fa.v.args(b)[1:]]
            rep.add("passed/%s/%s" % (fn, last(fa.g.B[b]["t"]["f"])), {"$Option"} in got, "names in nested types are looked up in the same namespace", fa.where(b), str(got)[:300])
    rep.add("passed", n >= 8, "nested types are read", "reader", str(n))


@rule("P21")
def references(ctx, rep):
    fa = wk(ctx, "walk_plain_type", *PLAIN)
    NT = "nullableType(@)"
    I = "identifier_text(identifier(%s))" % NT
    for case, d, name in named_cases(I):
        d = dict(only_kind(NT), **d, **{"primitiveType(%s)" % NT: "None", "identifier(%s)" % NT: "Some", NT + ".optional": "None"})
        for en in ("Some", "None"):
            want = (dotted(I) + ".0",) if case == "dotted" else ("$Option",) if en == "Some" else ("$Option", "None")
            gives(rep, "reference/%s" % case, "a dotted type name is taken as written and any other in the enclosing namespace", fa, "Reference",
                  {"name": name, "namespace": lambda s, w=want: s in w}, on(fa, dict(d, **{"$Option": en})))
    # throws clauses
    fa = wk(ctx, "walk_message")
    E = "identifier_text(@.errors[])"
    n = 0
    for b, i, f in fa.builds("AvroSchema", "Reference"):
        for case, d, name in named_cases(E):
            a = on(fa, dict(d, **{"$Option": "Some"}))
            if run(fa, None, target={b}, assume=a) is None:
                continue
            n += 1
            ns = dotted(E) + ".0" if case == "dotted" else "$Option"
            for k, w in (("name", name), ("namespace", ns)):
                got = {sh(fa, x) for x in flat(fa, fa.vals(f[k], b, assume=a))}
                rep.add("throws/%s/%s" % (case, k), got == {w}, "a dotted error name is taken as written and any other in the enclosing namespace", fa.where(b), str(sorted(got))[:300])
    rep.add("throws", n >= 2, "errors are referenced by name", fa.dn, str(n))


@rule("P21")
def full_names(ctx, rep):
    """what a name and a namespace make, and how a full name comes apart"""
    fa = ctx.fa("reader::extract_name", inline={"split_full_name"})
    p = fa.pname[0]
    for case, d, w in (("dotted", {dotted(p): "Some"}, {dotted(p) + ".1"}), ("plain", {dotted(p): "None"}, {p})):
        got = ret_under(fa, d)
        rep.add("simple-name/%s" % case, got == w, "the simple name is what follows the last dot", fa.dn, str(sorted(got)))


rule("P21")(make_full_name)
