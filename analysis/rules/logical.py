"""Logical types: one table of names and underlying types, recognised exactly when valid."""
import re
from rules import rule
from base import *
from rules.emit import variants_of
from rules.parse import is_, on

# the logical types of the Avro specification that overlay a primitive type
SPEC = {
    "Date": ("date", "Int"), "TimeMillis": ("time-millis", "Int"), "TimeMicros": ("time-micros", "Long"),
    "TimestampMillis": ("timestamp-millis", "Long"), "TimestampMicros": ("timestamp-micros", "Long"),
    "LocalTimestampMillis": ("local-timestamp-millis", "Long"), "LocalTimestampMicros": ("local-timestamp-micros", "Long"),
    "Uuid": ("uuid", "String"), "Decimal": ("decimal", "Bytes"),
}
LT = "avdl::model::schema::LogicalType"
PT = "avdl::model::schema::PrimitiveType"
S = "$AvroSchema"
AP = S + ".AnnotatedPrimitive"


@rule("P20")
def tables(ctx, rep):
    vs = variants_of(ctx, LT)
    rep.add("table/known", set(vs) <= set(SPEC), "every logical type of the model is one of the specification", "src/model/schema.rs", str(sorted(set(vs) - set(SPEC))))
    fname, fbase, fparse = ctx.fa("model::schema::LogicalType::name"), ctx.fa("model::schema::LogicalType::expected_base_type"), ctx.fa("model::schema::parse_logical_type")
    for v in vs:
        if v not in SPEC:
            continue
        n, b = SPEC[v]
        is_(rep, "table/%s/name" % v, "the logical type %s has its name" % v, fname, {"'%s'" % n}, A({"$LogicalType": v}))
        is_(rep, "table/%s/base" % v, "the logical type %s is laid over its underlying type" % v, fbase, {b}, A({"$LogicalType": v}))
        if v == "Decimal":
            for case, d, want in (("scale", {"$Option": "Some", "$Option2": "Some"}, "Decimal{precision:$Option,scale:$Option2}"),
                                  ("no-scale", {"$Option": "Some", "$Option2": "None"}, "Decimal{precision:$Option,scale:0}"),
                                  ("no-precision", {"$Option": "None"}, "None")):
                is_(rep, "table/Decimal/parse/%s" % case, "a decimal has the precision given, and the scale given or else 0", fparse, {want}, A(d, {"$str": n}))
        else:
            is_(rep, "table/%s/parse" % v, "the name %s denotes that logical type" % n, fparse, {v}, A({}, {"$str": n}))
    is_(rep, "table/unknown", "any other name is no logical type", fparse, {"None"}, A({}, {"$str": "some-other-name"}))


@rule("P20")
def primitives(ctx, rep):
    vs = variants_of(ctx, PT)
    rep.add("primitive/all", set(vs) == {"Null", "Boolean", "Int", "Long", "Float", "Double", "Bytes", "String"}, "the primitive types are those of the specification", "src/model/schema.rs", str(vs))
    fas, fto, fpr, ffs = (ctx.fa("model::schema::" + x) for x in ("PrimitiveType::as_str", "PrimitiveType::to_schema", "AvroSchema::to_primitive_type", "PrimitiveType::from_str"))
    for v in vs:
        is_(rep, "primitive/%s/name" % v, "the primitive type has its name", fas, {"'%s'" % v.lower()}, A({"$PrimitiveType": v}))
        is_(rep, "primitive/%s/schema" % v, "the primitive type is that schema", fto, {v}, A({"$PrimitiveType": v}))
        is_(rep, "primitive/%s/back" % v, "the primitive schema is that type", fpr, {v}, A({S: v}))
        is_(rep, "primitive/%s/parse" % v, "the name denotes that primitive type", ffs, {v}, A({}, {"$str": v.lower()}))
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v not in vs:
            is_(rep, "primitive/not/%s" % v, "no other schema is a primitive type", fpr, {"None"}, A({S: v}))
    got = ret_under(ffs, A({}, {"$str": "other"}))
    rep.add("primitive/other", bool(got) and all(x.startswith("Err(") for x in got), "no other name denotes a primitive type", ffs.dn, str(got)[:200])


KEPT = {S, "AnnotatedPrimitive{kind:%s.kind,properties:%s.properties}" % (AP, AP)}


def recognised(fa):
    bs = fa.calls("parse_logical_type")
    if len(bs) != 1:
        raise Missing("%s: one place that recognises logical types expected, found %d" % (fa.dn, len(bs)))
    return bs[0], outcome(fa, bs[0])


def compared(fa, base, same):
    """whatever compares the kind with the underlying type of the recognised logical type finds `same`"""
    def f(t, adt=None):
        if adt is not None:
            return None
        for s, val in fa.batoms(t, True):
            if s.startswith("eq(") and "expected_base_type(" in s and base in s:
                return val is same
        return None
    return f


def with_(fa, d, *fs):
    inner = fa._mkassume(d)

    def f(t, adt=None):
        r = inner(t, adt)
        if r is not None:
            return r
        for g in fs:
            r = g(t, adt)
            if r is not None:
                return r
        return None
    return RawAssume(f)


@rule("P20")
def promotion(ctx, rep):
    fa = ctx.fa("reader::try_promote_logical_type")
    P = AP + ".properties"
    for v in variants_of(ctx, "avdl::model::schema::AvroSchema"):
        if v != "AnnotatedPrimitive":
            is_(rep, "annotated/other/%s" % v, "only an annotated primitive becomes a logical type", fa, {S}, A({S: v}))
    b, L = recognised(fa)
    lt, pr, sc = ("%s['%s']" % (P, k) for k in ("logicalType", "precision", "scale"))
    base = {S: "AnnotatedPrimitive"}

    def kept(key, desc, asm):
        got = ret_under(fa, asm)
        rep.add("annotated/" + key, bool(got) and got <= KEPT, desc, fa.dn, "the result is %s" % sorted(got)[:2])
    kept("none", "a primitive without the annotation is left as it is", dict(base, **{lt: "None"}))
    kept("not-string", "an annotation that is no name is left as it is", dict(base, **{lt: ["Some", "Number"]}))
    ok = dict(base, **{lt: ["Some", "String"]})
    kept("unknown", "an unknown logical type is left as it is", dict(ok, **{L: "None"}))
    for v in SPEC:
        is_base, not_base = compared(fa, "expected_base_type(%s)" % L, True), compared(fa, "expected_base_type(%s)" % L, False)
        d = dict(ok, **{L: ["Some", v]})
        kept("%s/other-base" % v, "a logical type over another type than its own is left as it is", with_(fa, d, not_base))
        if v == "Decimal":
            has, hasnt = ("contains_key(%s,'scale')" % P, True), ("contains_key(%s,'scale')" % P, False)
            for case, x in (("unusable", {"json_value_as_u32(%s)" % sc: "None"}),):
                kept("Decimal/scale/%s" % case, "a decimal whose scale is no scale is left as it is", with_(fa, dict(d, **dict(x, **{sc: "Some", has[0]: True})), is_base))
            cases = {"scale": {sc: "Some", has[0]: True, "json_value_as_u32(%s)" % sc: "Some"}, "no-scale": {sc: "None", has[0]: False}}
            extra = [small(fa, True)]
        else:
            cases, extra = {"": {}}, []
        for case, x in cases.items():
            asm = with_(fa, dict(d, **x), is_base, *extra)
            tag = "annotated/%s" % "/".join(y for y in (v, case) if y)
            is_(rep, tag + "/promoted", "a valid annotation makes the primitive that logical type, its other annotations kept", fa,
                lambda s: s.startswith("Logical{logical_type:parse_logical_type(%s.str," % lt) and s.endswith("),properties:%s}" % P), asm)
            bs = [y for y, _, _ in fa.builds("AvroSchema", "Logical")]
            for k in ("logicalType", "precision", "scale"):
                rm = removed(fa, P, k, asm)
                if k == "logicalType" or v == "Decimal":
                    must(rep, "%s/taken/%s" % (tag, k), "the attribute is part of the logical type, not one of its annotations as well", fa, rm, assume=asm)
                else:
                    never(rep, "%s/left/%s" % (tag, k), "an annotation that is no attribute of the logical type is kept", fa, set(rm), assume=asm)
            other = {y for y in fa.calls("remove", "remove_entry", "clear", "drain") if fa.argc(y)[0] == P and not any(fa.argc(y)[1:2] == ["'%s'" % k] for k in ("logicalType", "precision", "scale"))}
            def keys_at(y):
                # the keys as written, for one of a list that is gone through those of the list
                x = fa.argc(y)[1]
                return fa._split(x) if x.startswith("{") and fa._bal(x) else [x]
            other = {y for y in other if len(fa.argc(y)) < 2 or any(x.startswith("'") and x.strip("'") not in ("logicalType", "precision", "scale") for x in keys_at(y))}
            never(rep, "%s/left/other" % tag, "an annotation that is no attribute of the logical type is kept", fa, other, assume=asm)
    params(rep, "annotated", fa, b, lt + ".str", pr, sc, base=ok, val="json_value_as_u32(%s)", limit=True)
    # what counts as a number
    fj = ctx.fa("reader::json_value_as_u32")
    for v in ("Null", "Bool", "String", "Array", "Object"):
        is_(rep, "number/%s" % v, "only a number is a precision or scale", fj, {"None"}, A({"$Value": v}))
    N = "$Value.num"
    got = ret_under(fj, {"$Value": "Number", "as_u64(%s)" % N: "Some", "try_from(as_u64(%s))" % N: "Ok"})
    rep.add("number/integer", got == {"try_from(as_u64(%s))" % N}, "an integer counts when it is in range", fj.dn, str(got)[:300])
    for x, yes in ((6.0, True), (0.0, True), (4294967295.0, True), (-1.0, False), (0.5, False), (6.25, False), (4294967296.0, False)):
        got = ret_under(fj, with_(fj, {"$Value": "Number", "as_u64(%s)" % N: "None", "as_f64(%s)" % N: "Some"}, float_is(fj, "as_f64(%s)" % N, x)))
        rep.add("number/float/%s" % x, "None" not in got and bool(got) if yes else got == {"None"}, "a number counts when it is whole and in range", fj.dn, str(got)[:300])


def float_is(fa, name, x):
    """comparisons of the floating point number `name` when it is x"""
    def ev(t):
        if t.k == "const":
            try:
                return float(str(t.a[0]).strip("'"))
            except ValueError:
                return None
        if t.k == "cast":
            return ev(t.a[3])
        s = fa._c(t)
        if s == name:
            return x
        if t.k == "call":
            y = ev(t.a[2]) if len(t.a) > 2 else None
            return None if y is None else {"fract": y - int(y), "trunc": float(int(y)), "floor": float(y // 1), "round": float(round(y))}.get(last(t.a[0]))
        return None

    def f(t, adt=None):
        if adt is None and t.k == "bin" and t.a[0] in CMPOPS:
            a, b = ev(t.a[1]), ev(t.a[2])
            if a is not None and b is not None:
                return CMPOPS[t.a[0]](a, b)
        if adt is None:
            return range_test(t, ev)
        return None
    return f


def removed(fa, P, k, asm):
    """blocks at which the key k leaves the map P, or that begin a loop over keys which takes k"""
    out = []
    for b in fa.calls("remove", "remove_entry", "swap_remove", "shift_remove", arg={0: lambda s: s == P}):
        s = fa.argc(b)[1]
        if s == "'%s'" % k:
            out.append(b)
        elif s.endswith("[]"):
            for it in iterations(fa, lambda x, s=s: x == s[:-2]):
                if not set(it["names"]) & set(SUBSET):
                    bases = [x for n, st, x in adaptor_bases(fa, fa.v.args(it["b"])[0]) if x is not None]
                    got = {y for x in bases for y in fa.vals(x, it["b"], assume=asm)}
                    keys = [fa._commas(x[1:-1]) or [x[1:-1]] for x in flat(fa, got) if x.startswith("[")]
                    if keys and all("'%s'" % k in x for x in keys) and foreach(Report(""), "x", "", fa, s[:-2], [b], assume=asm, round_only=True):
                        out.append(it["b"])
        elif s.startswith("{") and "'%s'" % k in fa._split(s):
            # a loop over the keys as they are written
            cs = set()
            its = iterations(fa, lambda x, s=s: set(fa._commas(x[1:-1]) or ()) == set(fa._split(s)) and x.startswith("[") and not cs.add(x))
            for it in its:
                if not set(it["names"]) & set(SUBSET) and any(foreach(Report(""), "x", "", fa, c, [b], assume=asm) for c in cs):
                    out.append(it["b"])
    return out


def small(fa, yes):
    """comparisons of a number with the largest int when it is the largest int (yes) or the next"""
    n = (1 << 31) - 1 + (not yes)

    def near(t):
        while t.k == "cast":
            t = t.a[3]
        m = re.match(r"^(\d+)\b|^\w*::MAX\b", fa._c(t))
        return (int(m.group(1)) if m and m.group(1) else (1 << 31) - 1 if m else None) if t.k == "const" or m else None

    def f(t, adt=None):
        if adt is None and t.k == "bin" and t.a[0] in CMPOPS:
            a, b = near(t.a[1]), near(t.a[2])
            if b is not None and a is None and abs(b - n) < 4:
                return CMPOPS[t.a[0]](n, b)
            if a is not None and b is None and abs(a - n) < 4:
                return CMPOPS[t.a[0]](a, n)
        if adt is None:
            return range_test(t, lambda x: near(x) if near(x) is not None else n)
        return None
    return f


def params(rep, tag, fa, b, name, pr, sc, base, val, limit):
    a = fa.v.args(b)
    got = flat(fa, fa.vals(a[0], b, assume=base))
    rep.add(tag + "/param/name", got == {name}, "the name of the logical type is the one given", fa.where(b), str(got)[:200])
    for i, (k, x) in ((1, ("precision", pr)), (2, ("scale", sc))):
        v = val % x
        got = flat(fa, fa.vals(a[i], b, assume=with_(fa, dict(base, **{x: "None"}))))
        rep.add("%s/param/%s/none" % (tag, k), got == {"None"}, "a %s that is not given is absent" % k, fa.where(b), str(got)[:200])
        got = flat(fa, fa.vals(a[i], b, assume=with_(fa, dict(base, **{x: "Some", v: "None"}))))
        rep.add("%s/param/%s/no-number" % (tag, k), got == {"None"} or got == {v}, "a %s that is no number is absent" % k, fa.where(b), str(got)[:200])
        got = flat(fa, fa.vals(a[i], b, assume=with_(fa, dict(base, **{x: "Some", v: "Some"}), small(fa, True))))
        rep.add("%s/param/%s" % (tag, k), got == {v}, "the %s is the one given" % k, fa.where(b), str(got)[:200])
        if limit:
            got = flat(fa, fa.vals(a[i], b, assume=with_(fa, dict(base, **{x: "Some", v: "Some"}), small(fa, False))))
            rep.add("%s/param/%s/too-large" % (tag, k), got == {"None"}, "a %s beyond the largest int is none" % k, fa.where(b), str(got)[:200])


@rule("P20")
def imported(ctx, rep):
    fa = ctx.fa("import::parse_annotated_primitive")
    M = "$Map"
    lt, pr, sc = ("%s['%s']" % (M, k) for k in ("logicalType", "precision", "scale"))
    b, L = recognised(fa)
    base = {lt: "Some", lt + ".str": "Some"}
    annotated = lambda s: s.startswith("AnnotatedPrimitive{kind:str_to_primitive_type($str),")

    def kept(key, desc, asm):
        got = ret_under(fa, asm)
        rep.add("imported/" + key, bool(got) and all(annotated(x) for x in got), desc, fa.dn, "the result is %s" % sorted(got)[:2])
    kept("unknown", "an unknown logical type is kept as an attribute of the primitive", dict(base, **{L: "None"}))
    for v in SPEC:
        same, differ = compared(fa, "expected_base_type(%s)" % L, True), compared(fa, "expected_base_type(%s)" % L, False)
        d = dict(base, **{L: ["Some", v]})
        name = SPEC[v][0]
        eqs = A({}, {lt + ".str": name})
        kept("%s/other-base" % v, "a logical type over another type than its own stays an attribute of the primitive", with_(fa, eqs.also(d), differ))
        if v == "Decimal":
            has = "contains_key(%s,'scale')" % M
            u = sc + ".u64"
            for case, x in (("not-number", {sc: "Some", has: True, u: "None"}), ("too-large", {sc: "Some", has: True, u: "Some", "try_from(%s)" % u: "Err"})):
                kept("Decimal/scale/%s" % case, "a decimal whose scale is no scale stays an attribute of the primitive", with_(fa, eqs.also(dict(d, **x)), same))
            cases = {"scale": {sc: "Some", has: True, u: "Some", "try_from(%s)" % u: "Ok"}, "no-scale": {sc: "None", has: False}}
            extra = [positive(fa, L + ".Decimal.precision", True)]
        else:
            cases, extra = {"": {}}, []
        for case, x in cases.items():
            asm = with_(fa, eqs.also(dict(d, **x)), same, *extra)
            tag = "imported/%s" % "/".join(y for y in (v, case) if y)
            got = ret_under(fa, asm)
            rep.add(tag + "/recognised", bool(got) and all(s.startswith("Logical{logical_type:parse_logical_type(%s.str," % lt) for s in got), "a valid logical type is imported as that type", fa.dn, "the result is %s" % sorted(got)[:2])
        if v == "Decimal":
            got = ret_under(fa, with_(fa, eqs.also(dict(d, **cases["no-scale"])), same, positive(fa, L + ".Decimal.precision", False)))
            rep.add("imported/Decimal/precision/zero", bool(got) and not any(s.startswith("Logical{") for s in got), "a decimal of precision 0 is no decimal", fa.dn, str(got)[:200])
    a = fa.v.args(b)
    got = flat(fa, fa.vals(a[0], b, assume=base))
    rep.add("imported/param/name", got == {lt + ".str"}, "the name of the logical type is the one given", fa.where(b), str(got)[:200])
    for i, (k, x) in ((1, ("precision", pr)), (2, ("scale", sc))):
        u = x + ".u64"
        for case, d, want in (("none", {x: "None"}, {"None"}), ("no-number", {x: "Some", u: "None"}, {"None"}), ("", {x: "Some", u: "Some", "try_from(%s)" % u: "Ok"}, {"try_from(%s)" % u}),
                              ("too-large", {x: "Some", u: "Some", "try_from(%s)" % u: "Err"}, {"None", "try_from(%s)" % u})):
            got = flat(fa, fa.vals(a[i], b, assume=dict(base, **d)))
            rep.add("imported/param/%s" % "/".join(y for y in (k, case) if y), bool(got) and got <= want, "the %s is the one given" % k, fa.where(b), str(got)[:200])


def positive(fa, x, yes):
    def f(t, adt=None):
        if t.k == "bin" and t.a[0] in ("Lt", "Ge", "Eq", "Ne", "Gt", "Le"):
            s = (fa._c(t.a[1]), fa._c(t.a[2]))
            if x in s:
                o = s[1 - s.index(x)]
                m = re.match(r"^(\d+)\b", o)
                if m:
                    n = int(m.group(1))
                    v = 1 if yes else 0
                    l, r = (v, n) if s[0] == x else (n, v)
                    return {"Lt": l < r, "Ge": l >= r, "Eq": l == r, "Ne": l != r, "Gt": l > r, "Le": l <= r}[t.a[0]]
        return None
    return f
