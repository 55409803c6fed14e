"""Reference completeness, duplicate definitions, name validity."""
from rules import rule
from base import *

# Child schema positions of the model, derived from the type definitions on every run.
def child_paths(ctx):
    """{variant: [canonical suffix of each nested schema]} from AvroSchema's own field types."""
    p = ctx.p
    a = p.adts["avdl::model::schema::AvroSchema"]
    out = {}
    for v in a["v"]:
        l = []
        for f in v["f"]:
            l += _paths(p, f["t"], "%s.%s" % (v["n"], f["n"]), 0)
        out[v["n"]] = l
    return out


def _paths(p, ty, pre, d):
    if d > 5 or ty < 0:
        return []
    t = p.types[ty]
    if t["k"] == "ref":
        return _paths(p, t["t"], pre, d)
    if t["k"] != "adt":
        return []
    n = t["n"]
    if n == "avdl::model::schema::AvroSchema":
        return [pre]
    s = n.split("::")[-1]
    if s in ("Box", "Option", "Rc", "Arc"):
        return _paths(p, t["a"][0], pre, d + 1)
    if s in ("Vec",):
        return _paths(p, t["a"][0], pre + "[]", d + 1)
    a = p.adts.get(n)
    if a and n.startswith("avdl::") and a["kind"].lower() == "struct":
        r = []
        for f in a["v"][0]["f"]:
            r += _paths(p, f["t"], pre + "." + f["n"], d + 1)
        return r
    return []


def struct_paths(ctx, dn, pre=""):
    a = ctx.p.adts[dn]
    r = []
    for f in a["v"][0]["f"]:
        r += _paths(ctx.p, f["t"], pre + f["n"], 0)
    return r


def visits_child(rep, key, desc, fa, root, suffix, evname, argi, assume):
    """fa visits root+suffix (which may go through one collection) by calling evname on it."""
    full = root + "." + suffix
    evs = fa.calls(evname, arg={argi: lambda s: s == full}, assume=assume)
    if "[]" in suffix:
        coll = root + "." + suffix[:suffix.index("[]")]
        return foreach(rep, key, desc, fa, coll, evs, assume=assume, target="return" and (lambda b, e: fa.g.B[b]["t"]["k"] == "return"))
    return must(rep, key, desc, fa, evs, assume=assume, target="return")


@rule("P01")
def walk_children(ctx, rep):
    """The unresolved-reference walk visits every nested schema of every variant."""
    fa = ctx.fa("resolve::collect_unresolved_refs")
    root = "$AvroSchema"
    cp = child_paths(ctx)
    n = 0
    for var, paths in cp.items():
        for s in paths:
            n += 1
            visits_child(rep, "walk/%s" % s, "collecting unresolved references descends into %s" % s, fa, root, s, "collect_unresolved_refs", 0, {root: var})
    rep.add("walk/floor", n >= 4, "nested-schema positions derived from the model (floor 4): %d" % n)
    # the recursive calls keep accumulating into the same list against the same names
    for b in fa.calls("collect_unresolved_refs"):
        a = fa.argc(b)
        rep.add("walk/args", len(a) == 3 and a[1] == "$IndexMap" and "$Vec" in a[2], "the recursive walk passes on the same registry and result list", fa.where(b), str(a))


@rule("P01")
def walk_reference(ctx, rep):
    fa = ctx.fa("resolve::collect_unresolved_refs", inline={"make_full_name"})
    fa0 = ctx.fa("resolve::collect_unresolved_refs")
    root = "$AvroSchema"
    name = "make_full_name(%s.Reference.name,%s.Reference.namespace)" % (root, root)
    push = [b for b in fa0.calls("push", "push_back", "insert", "extend") if name in " ".join(fa0.argc(b)[1:])]
    must(rep, "walk/Reference", "a reference whose full name is not a registered name is reported", fa0, push,
         assume={root: "Reference"}, excuse=exc(("has($IndexMap,%s)" % name, True)), target="return")


def chained(fa, b):
    t = fa.v.args(b)[0]
    while t.k in ("fld", "ref", "deref") and t.a:
        t = t.a[0]
    return t.k == "join"


@rule("P01")
def validate_covers_all(ctx, rep):
    """validate_all_references feeds every schema position through the walk."""
    fa = ctx.fa("compiler::validate_all_references", inline={"validate_references", "validate_schema", "resolve::SchemaRegistry::validate_references", "resolve::SchemaRegistry::validate_schema", "schemas", "resolve::SchemaRegistry::schemas"})
    W = "collect_unresolved_refs"
    reg = "$SchemaRegistry.schemas"
    # every registered schema
    ev = fa.calls(W, arg={0: lambda s: s == reg + "[].1" or s == reg + "[]"})
    r2 = foreach(Report(""), "", "", fa, reg, ev)
    foreach(rep, "all/registry", "every registered schema is checked", fa, reg, ev)
    # file-level schemas
    ev = fa.calls(W, arg={0: lambda s: s == "$IdlFile.Schema.0"})
    must(rep, "all/main-schema", "the main schema of a schema file is checked", fa, ev, assume={"$IdlFile": "Schema"})
    ev = fa.calls(W, arg={0: lambda s: s == "$IdlFile.NamedSchemas.0[]"})
    foreach(rep, "all/named-schemas", "every top-level named schema is checked", fa, "$IdlFile.NamedSchemas.0", ev, assume={"$IdlFile": "NamedSchemas"})
    msgs = "$IdlFile.Protocol.0.messages"
    mpaths = struct_paths(ctx, "avdl::model::protocol::Message")
    rep.add("all/message-floor", len(mpaths) >= 3, "schema positions of a message derived from the model (floor 3): %s" % mpaths)
    for s in mpaths:
        full = msgs + "[].1." + s
        # (an argument that ranges over chained collections visits each of them)
        evs = [b for b in fa.calls(W) if fa.argc(b)[0] == full or chained(fa, b) and full in fa._split(fa.argc(b)[0])]
        if "[]" in s:
            coll = msgs + "[].1." + s[:s.index("[]")]
            # inner iteration: within one message every element is visited
            inner = foreach(rep, "all/message.%s/each" % s, "within a message every %s is checked" % s, fa, coll, evs, assume={"$IdlFile": "Protocol"}, round_only=True)
            its = [it for it in iterations(fa, coll)]
            marks = [it["b"] for it in its]
            foreach(rep, "all/message.%s" % s, "for every message its %s are checked" % s, fa, msgs, marks,
                    assume={"$IdlFile": "Protocol"}, excuse=exc((coll, "None")), outer=exc())
        else:
            # directly, or by going through a collection it was put into
            marks = [it["b"] for it in iterations(fa, "once(%s)" % full)]
            if marks:
                foreach(rep, "all/message.%s/each" % s, "within a message its %s is checked" % s, fa, "once(%s)" % full, evs, assume={"$IdlFile": "Protocol"}, round_only=True)
            else:
                marks = evs
            foreach(rep, "all/message.%s" % s, "for every message its %s is checked" % s, fa, msgs, marks, assume={"$IdlFile": "Protocol"})
    # what the walk found decides: no ok exit once something was found.
    # Modelled as: the success exit is only reachable over the edge 'the list is empty'.
    calls = fa.calls(W)
    rep.add("all/sites", len(calls) >= 1, "walk call sites (floor 1): %d" % len(calls))
    bad = []
    for b in calls:
        out = fa.v.args(b)[2]
        bad.append(b)
    # every list the walk fills flows into the emptiness test
    empt = []
    for b in fa.g.rpo:
        if fa.g.B[b]["t"]["k"] == "switch":
            c = fa.v.cond(b)
            if c is not None and any(s.startswith("empty(") for s, _ in fa.batoms(c, True)):
                empt.append((b, c))
    good = set()
    for b, c in empt:
        sites = {x.a[1] for x in fa.v.leaves(c) if x.k == "mut"}
        # through extend(): the lists appended
        seen = set()
        st = [c]
        tot = set()
        while st:
            t = st.pop()
            for x in fa.v.leaves(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.k == "call" and last(x.a[0]) in ("flat_map", "map", "filter_map") and len(x.a) > 3:
                    y = fa.v.closure_ret(x.a[1])
                    if y is not None:
                        st.append(y)
                if x.k == "mut":
                    tot.add(x.a[3])
                    if isinstance(x.a[3], int) and x.a[3] in fa.g.rpoi and fa.g.B[x.a[3]]["t"]["k"] == "call":
                        st += [y for y in fa.v.args(x.a[3])[1:]]
        if all(w in tot for w in calls):
            good.add(b)
    # unreachable Ok unless through an "empty" edge of a good test
    def excuse(atoms):
        return False
    fl = fa.flow(())
    def allow(b, atom, env):
        return b in good and any(s.startswith("empty(") and v is True for s, v in fa.atoms(atom, env, fl))
    r = fl.run(fa.g.entry, allow=allow, target=lambda b, e: fl.ok_exit(b, e))
    rep.add("all/empty-test", bool(good) and r is None, "validation succeeds only when the list collected from every walk is empty", fa.where(r[0]) if r else fa.dn,
            "a success exit does not depend on every collected list" if r or not good else "")
    # nothing but whole-name duplicates is removed from the list
    for b in fa.v.calls():
        t = fa.g.B[b]["t"]
        l = last(t["f"])
        if l in ("clear", "truncate", "drain", "pop", "remove", "swap_remove", "split_off", "dedup", "dedup_by", "dedup_by_key", "retain_mut") and "Vec" in t["f"]:
            a0 = fa.v.args(b)[0]
            if any(x.k == "mut" and x.a[3] in calls for x in fa.v.leaves(a0)):
                if l in ("dedup", "dedup_by", "dedup_by_key"):
                    continue
                rep.bad("all/removal/%s" % l, "no collected reference is discarded", fa.where(b), "the list of unresolved references is shortened by %s" % l)
        if l == "retain" and t.get("clo"):
            c = t["clo"][0]
            ret = fa.v.closure_ret(t["site"])
            # may only drop an element when inserting its name into a set reports a duplicate
            def tgt(bb, e):
                if bb != c["end"]:
                    return False
                rr = fl.rs(ret, e)
                r = fl.ev(rr, e)
                kv = r[2]
                if isinstance(kv, bool):
                    kv = kv if r[0] == "bool" else not kv
                    return kv is False
                return not any(s.startswith("insert(") and val is False for s, val in fa.batoms(fl.deep(rr, e), False))
            rr = run(fa, c["body"], (), exc((lambda s: s.startswith("insert("), False)), tgt)
            rep.add("all/retain", rr is None, "only repeated names are dropped from the list of unresolved references", fa.where(b), "an element can be dropped that is not a repeated name")


@rule("P01")
def compile_gate(ctx, rep):
    """Nothing is produced without passing the reference check."""
    fa = ctx.fa("compiler::IdlCompiler::compile")
    ev = fa.calls("validate_all_references")
    must(rep, "gate/compile", "every successful compilation has run the reference check", fa, ev)
    for b in ev:
        site = fa.g.B[b]["t"]["site"]
        # Err of the check is never turned into success
        fl = fa.flow((), {"§": True})
        a = fa.argc(b)
        rep.add("gate/args", any("parse_and_resolve" in x for x in a[:1]) and any("parse_and_resolve" in x for x in a[1:2]), "the check runs on the parsed file and its registry", fa.where(b), str(a[:2]))
        def asm(s, adt):
            if adt is not None and adt.endswith("Result") and s.startswith("validate_all_references("):
                return "Err"
            return None
        r = run(fa, fa.g.entry, (), None, None, asm)
        rep.add("gate/err", r is None, "a failed reference check fails the compilation", fa.where(b), path_text(fa, r, asm) if r else "")
    who = constructors(ctx, "CompileOutput")
    for fn, fl_, ln in who:
        rep.add("gate/who/%s" % fn, fn.endswith("IdlCompiler::compile") or not fn, "compiled output is only produced by the compile step", "%s:%d (%s)" % (fl_, ln, fn))
    rep.add("gate/who-floor", len(who) >= 1, "construction sites of the compiled output: %d" % len(who))
