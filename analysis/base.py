"""Rule vocabulary: canonical provenance strings, normalised branch atoms, and the
must/never/per-element path queries every rule is written with."""
import json, os, re, time
from prog import *
from val import *
from flow import Flow

HERE = os.path.dirname(os.path.abspath(__file__))


def ty_short(n):
    """'&mut avdl::x::Foo<..>' -> 'Foo'"""
    while n.startswith("&"):
        n = n[1:].replace("mut ", "", 1) if n[1:].startswith("mut ") else n[1:]
    n = n.split("<")[0].strip("[]")
    return n.split("::")[-1]


STRIP_CALLS = {
    "as_ref", "as_mut", "as_deref", "as_deref_mut", "clone", "cloned", "copied", "to_string", "to_owned", "into",
    "as_str", "must_use", "into_owned", "by_ref", "to_path_buf", "as_bytes_", "into_boxed_str",
}
JSON_AS = {"as_str": "str", "as_array": "arr", "as_object": "obj", "as_u64": "u64", "as_i64": "i64", "as_bool": "bool", "as_f64": "f64"}
VALUE_PAYLOAD = {"String.0": "str", "Array.0": "arr", "Object.0": "obj", "Bool.0": "bool", "Number.0": "num"}
SHRINK = {"retain", "retain_mut", "truncate", "pop", "pop_front", "remove", "swap_remove", "drain", "clear", "split_off", "dedup", "dedup_by", "dedup_by_key", "extract_if", "resize"}
REORDER = {"sort", "sort_unstable", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable_by", "sort_unstable_by_key", "reverse", "deref_mut", "as_mut_slice", "as_mut", "reserve", "shrink_to_fit", "borrow_mut", "iter_mut", "swap", "make_contiguous"}
SUBSET = {"mut:" + x for x in SHRINK} | {"skip", "take", "filter", "step_by", "take_while", "skip_while", "filter_map", "map_while", "dedup", "nth", "last"}


# accessors that only name a part of their receiver
ALWAYS = {"resolve::SchemaRegistry::lookup"}


def close_assumptions(d):
    """Different ways of asking the same question get the same answer."""
    if not isinstance(d, dict):
        return d
    out = dict(d)
    def put(k, v):
        out.setdefault(k, v)
    for k, v in d.items():
        x = None
        if k.startswith("empty(") and isinstance(v, bool):
            o = k[6:-1]
            put("eq(%s)" % ",".join(sorted(("''", o))), v)
        if k.startswith("has(") and isinstance(v, bool):
            x = FA._commas(k[4:-1])
            has = v
        elif k.endswith("]") and v in ("Some", "None"):
            d_ = 0
            for i in range(len(k) - 1, -1, -1):
                d_ += (k[i] == "]") - (k[i] == "[")
                if d_ == 0:
                    break
            x = [k[:i], k[i + 1:-1]] if i > 0 and k[i + 1:-1] else None
            has = v == "Some"
        if x and len(x) == 2:
            put("has(%s,%s)" % tuple(x), has)
            put("insert(%s,%s)" % tuple(x), not has)
            put("%s[%s]" % tuple(x), "Some" if has else "None")
            put("entry(%s,%s)" % tuple(x), "Occupied" if has else "Vacant")
            for f in ("get_mut", "get_index_of", "get_full", "get_key_value"):
                put("%s(%s,%s)" % (f, x[0], x[1]), "Some" if has else "None")
    return out


class FA:
    """Everything known about one anchored function under one inlining policy."""

    def __init__(self, ctx, f, inline, allinl):
        self.ctx = ctx
        self.p = ctx.p
        self.f = f
        self.dn = f["dn"].replace("avdl::", "")
        voc = ctx.vocab

        def stop(c):
            n = c["dn"]
            if n == f["dn"]:
                return True
            if allinl:
                return n.replace("avdl::", "") in allinl
            s = n.replace("avdl::", "")
            if "!" + s in inline or "!" + s.split("::")[-1] in inline:
                return True
            if s in inline or s.split("::")[-1] in inline or any(x.endswith("*") and (s.startswith(x[:-1]) or s.startswith("<avdl::" + x[:-1])) for x in inline):
                return False
            return n in voc and s not in ALWAYS
        self.g = Graph(ctx.p, f, stop=stop)
        self.v = Val(self.g)
        self._flows = {}
        self.site2b = {}
        for b in self.g.rpo:
            t = self.g.B[b]["t"]
            if t["k"] == "call":
                self.site2b[t["site"]] = b
        names = [ty_short(self.p.tyname(self.g.lt[l])) for l in self.g.argl]
        self.pname = []
        for i, n in enumerate(names):
            k = names[:i].count(n)
            self.pname.append("$" + n + ("" if k == 0 else str(k + 1)))
        self._cm = {}
        self._busy = set()
        self._sbusy = set()

    # -- canonical strings -----------------------------------------------------------
    def c(self, t, env=None, fl=None):
        """Canonical provenance string; alternatives as {a|b}."""
        if env is not None and fl is not None:
            t = fl.deep(t, env)
        return self._c(t)

    def _c(self, t):
        r = self._cm.get(t)
        if r is not None:
            return r
        if t in self._busy:
            return "μ"
        self._busy.add(t)
        try:
            r = self._c1(t)
        finally:
            self._busy.discard(t)
        if "μ" not in r or not self._busy:
            self._cm[t] = r
        return r

    def _alt(self, ts):
        s = set()
        for x in ts:
            y = self._c(x)
            if y == "μ":
                continue
            if y.startswith("{") and y.endswith("}") and self._bal(y):
                s |= set(self._split(y))
            else:
                s.add(y)
        s.discard("⊥")
        if not s:
            return "⊥"
        if len(s) == 1:
            return s.pop()
        return "{" + "|".join(sorted(s)) + "}"

    # -- loop counters --------------------------------------------------------------------
    def counter(self, t):
        """Is t the value of a variable that starts at 0 and only ever goes up by one, round by round?"""
        if t.k != "phi":
            return False
        memo = self.__dict__.setdefault("_counters", {})
        if t in memo:
            return memo[t]
        memo[t] = False
        up = zero = False
        st, seen = [t], set()
        ok = True
        while st and ok:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for o in self.v.ops(x):
                if o is t:
                    continue
                if o.k == "const" and o.a[0] == 0 and o.a[0] is not False and x is t:
                    zero = True
                elif o.k == "bin" and o.a[0] == "Add" and o.a[1] is t and o.a[2].k == "const" and o.a[2].a[0] == 1:
                    up = True
                elif o.k == "phi" and self.v.dominates(t.a[0], o.a[0]):
                    st.append(o)
                else:
                    ok = False
                    break
        memo[t] = ok and up and zero
        return memo[t]

    def countloop(self, b):
        """(counter, bound, value of the condition when the loop is over) of a loop kept going
        by a comparison of its counter with a bound at switch block b."""
        memo = self.__dict__.setdefault("_countloops", {})
        if b in memo:
            return memo[b]
        memo[b] = None
        if self.g.B[b]["t"]["k"] != "switch":
            return None
        c, over = self.v.cond(b), False      # False: the value that ends  i < n
        while c.k == "un" and c.a[0] == "Not":
            c, over = c.a[1], not over
        if c.k != "bin" or c.a[0] not in ("Lt", "Gt", "Ge", "Le", "Ne", "Eq"):
            return None
        op, x, y = c.a
        if op in ("Gt", "Le"):
            op, x, y = {"Gt": "Lt", "Le": "Ge"}[op], y, x
        if op in ("Ne", "Eq") and not self.counter(x):
            x, y = y, x
        if not self.counter(x) or self.counter(y):
            return None
        if op in ("Ge", "Eq"):
            over = not over
        # the comparison must be what ends the loop
        h = x.a[0]
        body, st = {h}, [q for q in self.g.preds[h] if self.v.dominates(h, q)]
        while st:
            q = st.pop()
            if q not in body:
                body.add(q)
                st += self.g.preds[q]
        t = self.g.B[b]["t"]
        to = {bool(v): g for v, g in t["br"]}
        to.setdefault(False, t["o"]), to.setdefault(True, t["o"])
        if b not in body or to[over] in body or to[not over] not in body:
            return None
        memo[b] = (x, y, over)
        return memo[b]

    def overdone(self, b, atom):
        """Is this the branch on which the counting loop kept going by switch block b ends?"""
        c = self.countloop(b)
        if c is None:
            return False
        def odd(t):
            n = 0
            while t.k == "un" and t.a[0] == "Not":
                t, n = t.a[1], n + 1
            return n & 1
        return (bool(atom[2]) ^ bool(odd(atom[1]) != odd(self.v.cond(b)))) == c[2]

    def _countstr(self, t):
        if not self.counter(t):
            return None
        busy = self.__dict__.setdefault("_counting", set())
        if t in busy:
            return None
        busy.add(t)
        try:
            out, got = set(), set()
            for b in self.g.rpo:
                tm = self.g.B[b]["t"]
                if tm["k"] == "switch":
                    c = self.countloop(b)
                    if c is not None and c[0] is t:
                        out.add("Range{end:%s,start:0}[]" % self._c(c[1]))
                elif tm["k"] == "call" and last(tm["f"]) == "get" and len(tm["a"]) == 2:
                    a = self.v.args(b)
                    if a[1] is t:
                        got.add("Range{end:len(%s),start:0}[]" % self._c(a[0]))
            out = out or got
            return out.pop() if len(out) == 1 else None
        finally:
            busy.discard(t)

    @staticmethod
    def _at(s, y):
        """s[y], the element of s when y goes through the positions of s."""
        m = re.match(r"^(?:RangeTo\{end:(r?split_once\(.*\))\}|Range\{end:(r?split_once\(.*\)),start:0\})$", y, re.S)
        if m:
            # what stands before (after) the first (last) place a character is found at
            p = m.group(1) or m.group(2)
            if re.match(r"^r?split_once\(%s,'[^']'\)$" % re.escape(s), p):
                return p + ".0"
        m = re.match(r"^RangeFrom\{start:\((?:(r?split_once\(.*\)) Add 1|1 Add (r?split_once\(.*\)))\)\}$", y, re.S)
        if m:
            p = m.group(1) or m.group(2)
            if re.match(r"^r?split_once\(%s,'[^']'\)$" % re.escape(s), p):
                return p + ".1"
        if y == s + "[].0":
            return s + "[].1"
        if y in ("Range{end:len(%s),start:0}[]" % s, "Range{end:size(%s),start:0}[]" % s):
            return s + "[]"
        return "%s[%s]" % (s, y)

    def _phialt(self, t):
        ops = self.v.phi_ops.get(t, ())
        r = self._alt([o for _, o in ops])
        if not (r.startswith("{") and self._bal(r)):
            return r
        parts = self._split(r)
        if "None" not in parts:
            return r
        # None only where the scrutinised option itself was None
        rest = [x for x in parts if x != "None"]
        for q, o in ops:
            if o.k == "agg" and o.a[1] == "None" or (o.k == "const" and isinstance(o.a[0], tuple) and o.a[0][:1] == ("adt",) and o.a[0][2] == "None"):
                if q < 0 or not any(self._under_none(q, x) for x in rest):
                    return r
            elif "None" in (self._split(self._c(o)) if self._c(o).startswith("{") and self._bal(self._c(o)) else [self._c(o)]):
                return r
        return "{" + "|".join(rest) + "}" if len(rest) > 1 else rest[0]

    def _under_none(self, q, s):
        """Is block q only reached where the option with canonical string s is None?"""
        v, g = self.v, self.g
        b = q
        n = 0
        while b != g.entry and n < 12:
            d = v.idom[b]
            t = g.B[d]["t"]
            if t["k"] == "switch":
                c = v.cond(d)
                if c.k == "discr" and c.a[1].endswith("Option") and self._c(c.a[0]) == s:
                    for val, tgt in t["br"]:
                        if val == 0 and v.dominates(tgt, q) and len(g.preds[tgt]) == 1:
                            return True
                    if 1 in {x for x, _ in t["br"]} and v.dominates(t["o"], q) and len(g.preds[t["o"]]) == 1:
                        return True
            b = d
            n += 1
        return False

    @staticmethod
    def _bal(y):
        d = 0
        for i, ch in enumerate(y):
            if ch == "{":
                d += 1
            elif ch == "}":
                d -= 1
                if d == 0 and i != len(y) - 1:
                    return False
        return True

    @staticmethod
    def _split(y):
        out, d, cur = [], 0, ""
        for ch in y[1:-1]:
            if ch in "{([":
                d += 1
            elif ch in "})]":
                d -= 1
            if ch == "|" and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        out.append(cur)
        return out

    def _c1(self, t):
        k, a = t.k, t.a
        C = self._c
        if k == "param":
            return self.pname[a[0]] if a[0] < len(self.pname) else "$%d" % a[0]
        if k == "const":
            x = a[0]
            if isinstance(x, str):
                return "'%s'" % x
            if isinstance(x, tuple):
                if x[0] == "adt":
                    if x[1].endswith("Option") and x[2] == "None":
                        return "None"
                    if x[1].endswith("Option"):
                        return C(mk("const", x[3][0][1]))
                    return x[2] + ("(" + ",".join(C(mk("const", v)) for _, v in x[3]) + ")" if x[3] else "")
                if x[0] == "seq":
                    return "[" + ",".join(C(mk("const", v)) for v in x[1]) + "]"
                if x[0] == "tuple":
                    return "(" + ",".join(C(mk("const", v)) for v in x[1]) + ")"
                if x[0] == "ty":
                    return "<%s>" % ty_short(x[1])
            return str(x)
        if k == "fld":
            n = a[1]
            s = C(a[0])
            if s == "⊥":
                return s
            if s.startswith("{") and self._bal(s):
                al = self._split(s)
                if n in ("Ok.0", "Continue.0"):
                    al = [x for x in al if not x.startswith("Err(")] or al
                elif n == "Some.0":
                    al = [x for x in al if x != "None"] or al
                elif n == "Err.0":
                    al = [x for x in al if x.startswith("Err(") or not re.match(r"^(\(\)|'|None|\[|\d)", x)] or al
                ys = sorted({self._fs(x, n) for x in al})
                return "{" + "|".join(ys) + "}" if len(ys) > 1 else ys[0]
            return self._fs(s, n)
        if k in ("phi", "join"):
            if k == "phi":
                r = self._contents(t)
                if r is not None:
                    return r
                r = self._countstr(t)
                if r is not None:
                    return r
                return self._phialt(t)
            return self._alt(a)
        if k == "agg":
            nm = a[0].split("::")[-1]
            if nm == "Option":
                return "None" if a[1] == "None" else C(a[3])
            if nm == "Result":
                return ("Err(%s)" if a[1] == "Err" else "%s") % C(a[3])
            if nm in ("ControlFlow",):
                return C(a[3]) if len(a) > 3 else a[1]
            head = a[1] if a[1] == nm else a[1]
            if len(a) == 3:
                return head
            if all(n.isdigit() for n in a[2]):
                return "%s(%s)" % (head, ",".join(C(x) for x in a[3:]))
            return "%s{%s}" % (head, ",".join("%s:%s" % (n, C(x)) for n, x in sorted(zip(a[2], a[3:]), key=lambda z: z[0])))
        if k == "tup":
            return "(" + ",".join(C(x) for x in a) + ")"
        if k == "arr":
            return "[" + ",".join(C(x) for x in a) + "]"
        if k == "elem":
            return self._elem(a[0])
        if k == "idx":
            return self._at(C(a[0]), C(a[1]))
        if k == "idxof":
            return "#" + C(a[0])
        if k == "len":
            return "len(%s)" % C(a[0])
        if k == "discr":
            return "tag(%s)" % C(a[0])
        if k == "bin":
            return "(%s %s %s)" % (C(a[1]), a[0], C(a[2]))
        if k == "un":
            return "%s(%s)" % (a[0], C(a[1]))
        if k == "cast":
            return "%s as %s" % (C(a[3]), a[2])
        if k == "upd":
            v = a[2]
            if self._inplace(v, a[0], a[1]):
                return C(a[0])       # changed in place through a reference
            return "%s with %s=%s" % (C(a[0]), ".".join(a[1]), C(a[2]))
        if k == "slice":
            return self._at(C(a[0]), C(a[1]))
        if k == "call":
            return self._ccall(t)
        if k == "mut":
            r = self.v.pushed(t)
            if r is not None:
                return "[" + ",".join(C(x) for x in r) + "]"
            r = self._contents(t)
            if r is not None:
                return r
            l = last(str(a[0]))
            if l in ("next", "peek", "next_back"):
                return C(a[4])
            if l == "take" and a[2] == 0:
                return "Default"
            if l in ("push", "push_str") and a[2] == 0 and "String::" in str(a[0]) and a[3] in self.g.rpoi:
                x = self.v.args(a[3])
                if len(x) == 2:
                    return "add(%s,%s)" % (C(a[4]), C(x[1]))
            return C(a[4])
        if k == "clo":
            return "λ"
        if k == "undef":
            return "undef"
        if k == "bot":
            return "⊥"
        if k == "cparam":
            return "cparam(%s,%s)" % (last(str(a[0])), a[3])
        return k

    def _inplace(self, v, base, path):
        """Is v the old value of base.path changed by in-place operations?"""
        old = base
        for n in path:
            old = self.v.fld(old, n)
        olds = set(self.v.alts(old)) | {old}
        seen, st, hit = set(), [v], False
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "mut":
                hit = True
                st.append(x.a[-1])
            elif x in olds:
                continue
            elif x.k in ("phi", "join"):
                st += self.v.ops(x) if x.k == "phi" else list(x.a)
            elif x.k == "undef":
                continue
            else:
                return False
        return hit

    def _fs(self, s, n):
        if n in ("Some.0", "Ok.0", "Continue.0", "Break.0"):
            return s
        if n == "Err.0":
            return s + ".Err" if not s.startswith("Err(") else s[4:-1]
        if n in VALUE_PAYLOAD:
            return s + "." + VALUE_PAYLOAD[n]
        if s.startswith("(") and s.endswith(")") and n.isdigit():
            parts = self._commas(s[1:-1])
            if parts is not None and int(n) < len(parts) and len(parts) > 1:
                return parts[int(n)]
        return s + "." + n

    @staticmethod
    def _commas(s):
        out, d, cur = [], 0, ""
        for ch in s:
            if ch in "{([":
                d += 1
            elif ch in "})]":
                d -= 1
                if d < 0:
                    return None
            if ch == "," and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        out.append(cur)
        return out

    def _elem(self, t):
        s = self._c(t)
        if s in ("[]", "Default"):
            return "⊥"
        if s.startswith("{") and self._bal(s):
            al = [x for x in self._split(s) if x not in ("[]", "Default", "[default()]", "default()")]
            if len(al) == 1:
                s = al[0]
        if s.startswith("[") and s.endswith("]") and not s.endswith("[]"):
            p = self._commas(s[1:-1])
            if p is not None and len(p) == 1 and p[0]:
                return p[0]
            if p:
                return "{" + "|".join(sorted(set(p))) + "}"
        return s + "[]"

    def _cont(self, els):
        """container with these element strings"""
        els = sorted(set(e for e in els if e not in ("⊥", "μ")))
        if len(els) == 1 and els[0].endswith("[]"):
            return els[0][:-2]
        return "[" + ",".join(els) + "]"

    CONT_MUT = {"push", "push_back", "insert", "extend", "append", "push_str_", "extend_from_slice", "entry_"}
    CONT_NEUTRAL = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reserve", "dedup_", "iter_mut", "sort_by_cached_key", "reverse_"}
    CONT_NEW = {"new", "with_capacity", "default", "new_const"}

    def _contents(self, t):
        """A container built up by insertions: canonical '[elements]'. None if t is not one."""
        els = []
        base = []
        seen = set()
        st = [t]
        hit = False
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k in ("phi", "join"):
                st += self.v.ops(x) if x.k == "phi" else list(x.a)
                continue
            if x.k == "mut":
                l = last(str(x.a[0]))
                if x.a[2] == 0 and l in self.CONT_MUT and isinstance(x.a[3], int) and x.a[3] in self.g.rpoi and self.g.B[x.a[3]]["t"]["k"] == "call":
                    hit = True
                    ar = self.v.args(x.a[3])
                    if l in ("push", "push_back"):
                        els.append(self._c(ar[1]))
                    elif l == "insert":
                        if len(ar) == 3:
                            els.append("%s=%s" % (self._c(ar[1]), self._c(ar[2])))
                        else:
                            els.append(self._c(ar[1]))
                    else:
                        e = self.v.elemof(ar[1])
                        if e.k == "elem":
                            els.append(self._elem(e.a[0]))
                        else:
                            els.append(self._c(e))
                    st.append(x.a[4])
                    continue
                if x.a[2] == 0 and l in self.CONT_NEUTRAL:
                    st.append(x.a[4])
                    continue
                base.append(x)
                continue
            if x.k == "call" and last(x.a[0]) in self.CONT_NEW and ("Vec" in x.a[0] or "Map" in x.a[0] or "Set" in x.a[0] or "String" in x.a[0] or last(x.a[0]) == "default") :
                continue
            if x.k == "undef":
                continue
            base.append(x)
        if not hit:
            return None
        bs = [self._c(x) for x in base]
        bs = sorted(set(b for b in bs if b not in ("μ", "⊥", "undef")))
        for b in bs:
            if b.startswith("[") and b.endswith("]"):
                els += [x for x in (self._commas(b[1:-1]) or []) if x]
            else:
                els.append(b + "[]")
        return self._cont(els)

    def _ccall(self, t):
        nm, site = t.a[0], t.a[1]
        l = last(nm)
        a = t.a[2:]
        C = self._c
        if l in JSON_AS and "Value" in nm:
            s = C(a[0])
            if s.startswith("{"):
                return "{" + "|".join(x if x == "None" else x + "." + JSON_AS[l] for x in self._split(s)) + "}"
            return s + "." + JSON_AS[l]
        if l in STRIP_CALLS and a and len(a) == 1:
            return C(a[0])
        if l in CHAIN_CALLS and a:
            return C(a[0])
        if l in ("find", "rfind") and "str" in t.a[0] and len(a) == 2:
            y = C(a[1])
            if len(y) == 3 and y[0] == y[2] == "'" and ord(y[1]) < 128:
                return "%s(%s,%s)" % ("split_once" if l == "find" else "rsplit_once", C(a[0]), y)
        if l == "next" and len(a) == 1:
            k, base = self.v.advanced(a[0])
            if k or self.v.firsts and base.k != "phi":
                return self._at(C(base), str(k))
        if l in ("get", "index_mut") and len(a) == 2:
            return self._at(C(a[0]), C(a[1]))
        if l in ("collect", "from_iter") and a and self._dty(site) in ("String", "str"):
            # the characters of a text other than one
            x = a[0]
            if isinstance(x, Term) and x.k == "call" and last(x.a[0]) == "filter" and len(x.a) == 4 and x.a[2].k == "call" and last(x.a[2].a[0]) == "chars" and len(x.a[2].a) == 3:
                r = self.v.closure_ret(x.a[1])
                m = r is not None and re.match(r"^\((.*)\[\] Ne ('.')\)$", C(r))
                if m and m.group(1) == C(x.a[2]):
                    return "replace(%s,%s,'')" % (C(x.a[2].a[2]), m.group(2))
        if l in ("collect", "from_iter", "into_boxed_slice", "to_vec", "into_vec", "map", "filter_map", "flat_map", "enumerate", "filter", "cloned", "iter", "into_iter", "rev", "chain", "take", "skip", "zip", "peekable", "values", "keys", "values_mut", "into_values") and a:
            if l in ("collect", "from_iter", "map", "filter_map", "flat_map", "into_iter", "iter", "cloned", "peekable", "chain", "zip", "enumerate", "filter", "values", "keys", "into_values", "values_mut"):
                e = self.v.elemof(t)
                if l in ("collect", "from_iter") and self._dty(site) in ("Result", "Option"):
                    r = self._cont([self._elem(e.a[0]) if e.k == "elem" else C(e)])
                    if r.startswith("[") and r.endswith("]"):
                        y = r[1:-1]
                        if y.startswith("{") and self._bal(y):
                            z = [x for x in self._split(y) if not x.startswith("Err(") and x != "None"]
                            return self._cont(["{" + "|".join(z) + "}" if len(z) > 1 else z[0]]) if z else r
                    return r
                if e.k == "elem" and e.a[0] is t:
                    if l in ("collect", "from_iter") and C(a[0]).startswith("["):
                        return C(a[0])
                    return "%s(%s)" % (l, ",".join(C(x) for x in a))
                if e.k == "elem":
                    return self._cont([self._elem(e.a[0])])
                return self._cont([C(e)])
        if l in ("is_empty",) and len(a) == 1:
            return "empty(%s)" % C(a[0])
        if l == "len" and len(a) == 1:
            return "len(%s)" % C(a[0])
        if l == "take" and "mem" in nm:
            return C(a[0])
        if nm.endswith("fmt::format"):
            return "fmt(%s)" % self._fmt(a[0])
        if l == "default" and not a:
            ty = self._dty(site)
            if re.match(r"^[iu](8|16|32|64|128|size)$", ty):
                return "0"
            if ty == "bool":
                return "False"
        if l == "default" and not a and self._dty(site) in ("str", "String"):
            return "''"
        if l == "default" and not a and self._dty(site) in ("Vec", "Map", "HashMap", "IndexMap", "BTreeMap", "HashSet", "BTreeSet", "IndexSet"):
            return "[]"
        if l in ("collect", "from_iter") and a and self._dty(site) in ("Map", "HashMap", "IndexMap", "BTreeMap"):
            r = C(a[0])
            if r.startswith("["):
                return r
        if l in ("new", "with_capacity", "default") and ("Vec" in nm or "Map" in nm or "Set" in nm) :
            return "[]"
        if l in ("eq", "ne") and len(a) == 2:
            return "%s(%s)" % (l, ",".join(sorted((C(a[0]), C(a[1])))))
        if l in ("all", "any", "position", "find_map", "find", "rposition") and len(a) == 2:
            r = self.v.closure_ret(site)
            if r is not None:
                return "%s(%s:%s)" % (l, C(a[0]), C(r))
        if l == "split_full_name":
            return "split(%s)" % C(a[0])
        return "%s(%s)" % (l, ",".join(C(x) for x in a))

    def _dty(self, site):
        b = self.site2b.get(site)
        if b is None:
            return ""
        t = self.g.pltype(self.g.B[b]["t"]["d"])
        return ty_short(self.p.tyname(t)) if t >= 0 else ""

    def _fmt(self, t):
        """the interpolated values of a format_args"""
        out = []
        seen = set()
        st = [t]
        while st:
            x = st.pop(0)
            if x in seen:
                continue
            seen.add(x)
            if x.k == "call" and last(x.a[0]) in ("new_display", "new_debug", "new_lower_hex", "new_upper_hex", "new_lower_exp"):
                out.append(self._c(x.a[2]))
                continue
            if x.k in ("call", "arr", "tup", "agg"):
                st += [y for y in x.a if isinstance(y, Term)]
            elif x.k == "const" and isinstance(x.a[0], str):
                out.append("'%s'" % x.a[0])
        return ",".join(out)

    # -- atoms --------------------------------------------------------------------------
    def atoms(self, atom, env=None, fl=None):
        """Canonical readings of a branch edge: list of (string, value)."""
        if atom is None:
            return []
        k = atom[0]
        if k == "variant":
            t = atom[1]
            s = self.c(t, env, fl)
            out = [(s, n) for n in atom[2]] if len(atom[2]) == 1 else [(s, tuple(atom[2]))]
            if atom[2] in (("Some",), ("None",)) and t.k == "call" and last(t.a[0]) == "get":
                r = fl.deep(t, env) if fl is not None and env is not None else t
                out.append(("has(%s,%s)" % (self._c(r.a[2]), self._c(r.a[3])), atom[2] == ("Some",)))
            return out
        if k == "bool":
            t = atom[1]
            if env is not None and fl is not None:
                t = fl.deep(t, env)
            return self.batoms(t, atom[2])
        if k == "int":
            t = atom[1]
            if env is not None and fl is not None:
                t = fl.deep(t, env)
            if isinstance(atom[2], int) and not isinstance(atom[2], bool):
                return [(self._c(t), atom[2])] + self.batoms(mk("bin", "Eq", t, mk("const", atom[2])), True)
            return [(self._c(t), atom[2])]
        return []

    def batoms(self, t, val):
        C = self._c
        if t.k == "un" and t.a[0] == "Not":
            return self.batoms(t.a[1], not val)
        if t.k == "const" and isinstance(t.a[0], bool):
            return []
        if t.k == "phi":
            al = self.v.alts(t)
            if len(al) == 1 and al[0] is not t:
                return self.batoms(al[0], val)
        if t.k == "bin":
            op, x, y = t.a
            if op in ("Gt", "Ge"):
                op, x, y = {"Gt": "Lt", "Ge": "Le"}[op], y, x
            if op == "Ne":
                op, val = "Eq", not val
            if op == "Le":            # x <= y  ==  !(y < x)
                op, x, y, val = "Lt", y, x, not val
            cx, cy = C(x), C(y)
            if op == "Lt":
                out = [("%s<%s" % (cx, cy), val)]
                if cx == "0":
                    m = self._lenof(cy)
                    if m:
                        out.append(("empty(%s)" % m, not val))
                    out.append(("eq(0,%s)" % cy, not val))
                if cy == "1":
                    m = self._lenof(cx)
                    if m:
                        out.append(("empty(%s)" % m, val))
                    out.append(("eq(0,%s)" % cx, val))
                return out
            if op == "Eq":
                out = [("eq(%s)" % ",".join(sorted((cx, cy))), val)]
                for p, q in ((x, y), (y, x)):
                    if p.k == "discr" and q.k == "const" and p.a[1] in self.p.adts:
                        for vv in self.p.adts[p.a[1]]["v"]:
                            if int(vv["d"]) == q.a[0] and (val or len(self.p.adts[p.a[1]]["v"]) == 2):
                                n = vv["n"] if val else [z["n"] for z in self.p.adts[p.a[1]]["v"] if z is not vv][0]
                                out += self.atoms(("variant", p.a[0], (n,)))
                for p, q in ((cx, cy), (cy, cx)):
                    if p == "0" and self._lenof(q):
                        out.append(("empty(%s)" % self._lenof(q), val))
                return out
            return [("(%s %s %s)" % (cx, op, cy), val)]
        if t.k == "call":
            l = last(t.a[0])
            a = t.a[2:]
            if l in ("eq", "ne") and len(a) == 2:
                if l == "ne":
                    val = not val
                x, y = sorted((C(a[0]), C(a[1])))
                out = [("eq(%s,%s)" % (x, y), val)]
                if x == "''":
                    out.append(("empty(%s)" % y, val))
                return out
            if l in ("contains", "contains_key") and len(a) == 2:
                return [("has(%s,%s)" % (C(a[0]), C(a[1])), val)]
            if l == "insert" and len(a) == 2:
                return [("has(%s,%s)" % (C(a[0]), C(a[1])), not val), ("insert(%s,%s)" % (C(a[0]), C(a[1])), val)]
            if l in ("is_some", "is_none"):
                return [(C(a[0]), "Some" if (l == "is_some") == val else "None")]
            if l in ("is_string", "is_array", "is_object", "is_null", "is_boolean", "is_number") and "Value" in t.a[0]:
                n = {"is_string": "String", "is_array": "Array", "is_object": "Object", "is_null": "Null", "is_boolean": "Bool", "is_number": "Number"}[l]
                return [(C(a[0]), n if val else "!" + n)]
        return [(C(t), val)]

    @staticmethod
    def _lenof(s):
        return s[4:-1] if s.startswith("len(") and s.endswith(")") else None

    # -- events -------------------------------------------------------------------------
    def argmatch(self, t, pr, assume=None, b=None):
        """Is t what pr wants: as a whole, as one of the things an iteration goes through, or in
        every way control can get to b under assume?"""
        s = self._c(t)
        if pr(s):
            return True
        if not (s.startswith("{") and self._bal(s)):
            return False
        if t.k == "join" and any(pr(self._c(x)) for x in t.a):
            return True
        if assume is not None and b is not None and any(pr(x) for x in self._split(s)):
            got = flat(self, self.vals(t, b, assume=assume))
            return bool(got) and all(pr(x) for x in got)
        return False

    def calls(self, *names, arg=None, where=None, assume=None):
        """Call blocks; arg: {i: predicate on canonical string} """
        out = []
        for b in self.v.calls(*names):
            if arg:
                ar = self.v.args(b)
                if not all(i < len(ar) and self.argmatch(ar[i], pr, assume, b) for i, pr in arg.items()):
                    continue
            if where and not where(b):
                continue
            out.append(b)
        return out

    def argc(self, b):
        return [self._c(x) for x in self.v.args(b)]

    def builds(self, adt, variant=None):
        """[(block, idx, {field: term})] of aggregate constructions."""
        out = []
        for b in self.g.rpo:
            for i, (pl, rv, ln) in enumerate(self.g.B[b]["s"]):
                if rv.get("r") == "agg" and rv.get("ak") == "adt" and rv["n"].split("::")[-1] == adt and (variant is None or rv["v"] == variant):
                    out.append((b, i, {n: self.v.op(o, (), b, i) for n, o in zip(rv["fn"], rv["ops"])}))
        return out

    # -- flows ----------------------------------------------------------------------------
    def flow(self, watch=(), assume=None):
        key = (tuple(sorted(t.id for t in watch)), None)
        fl = self._flows.get(key)
        if fl is None:
            fl = self._flows[key] = Flow(self.v, watch=watch)
        return fl.under(self._mkassume(assume)) if assume else fl

    def _mkassume(self, d):
        """d: {canonical scrutinee: variant name / bool / list of names}, an A, or callable(str, adt)"""
        if isinstance(d, RawAssume):
            return d.f
        if isinstance(d, A):
            inner = self._mkassume(d.d)
            def h(t, adt=None):
                r = inner(t, adt)
                if r is None and adt is None and d.eqs:
                    for s, val in self.batoms(t, True):
                        r = d.decide(self, s)
                        if r is not None:
                            return r == val
                return r
            return h
        if callable(d):
            return lambda t, adt=None: d(self._c(t), adt)
        d = close_assumptions(d)
        def f(t, adt=None):
            r = f0(t, adt)
            if r is None and t.k == "call" and last(t.a[0]) in ("any", "all", "find", "position", "find_map") and len(t.a) == 4:
                r = self._search(t, adt, f, d)
            return r
        def f0(t, adt=None):
            if adt is None:
                for s, val in self.batoms(t, True):
                    if s in d and isinstance(d[s], bool):
                        return d[s] == val
                    if s.startswith("eq(") and s.endswith(")") and isinstance(val, bool):
                        # an Option that is there differs from one that is not
                        x = self._commas(s[3:-1])
                        if x and len(x) == 2 and {d.get(y) if isinstance(d.get(y), str) else None for y in x} == {"Some", "None"}:
                            return not val
                s = self._c(t)
                if s in d:
                    x = d[s]
                    return x if not isinstance(x, list) else None
                # an Option compared through is_some & co.
                for s, val in self.batoms(t, True):
                    if s in d and isinstance(val, str):
                        x = d[s]
                        xs = x if isinstance(x, list) else [x]
                        if val in xs:
                            return True
                        if val.lstrip("!") in JVARS:
                            if not set(xs) & JVARS:
                                continue
                            return val.startswith("!") and val[1:] not in xs
                        if {"Some": "None", "None": "Some"}.get(val) in xs:
                            return False
                        if val.startswith("!"):
                            return val[1:] not in xs
                return None
            s = self._c(t)
            if s not in d:
                return None
            x = d[s]
            names = {n["n"] for n in self.p.adts[adt]["v"]} if adt in self.p.adts else None
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, str) and (names is None or y in names):
                    return y
            return None
        return f

    def _search(self, t, adt, assume, d):
        """The outcome of any/all/find/.. when every element gets the same answer under `assume`."""
        key = ("search", t)
        if key in self._sbusy:
            return None
        self._sbusy.add(key)
        try:
            l = last(t.a[0])
            hit = self._pred(t, assume)
            if hit is None:
                return None
            some = any(d.get("next(%s)" % x) == "Some" or d.get("empty(%s)" % x) is False for x in [self._c(y) for y in self._bases(t.a[2])])
            if l == "all":
                return True if hit else (False if some else None)
            if l == "any":
                return False if not hit else (True if some else None)
            if not hit:
                return "None"
            return "Some" if some else None
        finally:
            self._sbusy.discard(key)

    def _bases(self, it):
        t, n = it, 0
        while t is not None and n < 20:
            yield t
            n += 1
            b = self.v.itbase(t)
            if b is not None and b is not t:
                t = b
                yield t
            if t.k == "call" and len(t.a) > 2:
                t = t.a[2]
            else:
                return

    def _pred(self, t, assume):
        """The answer (True/False) the closure of a search gives to every element under assume."""
        b = self.site2b.get(t.a[1])
        if b is None or not self.g.B[b]["t"].get("clo"):
            return None
        c = self.g.B[b]["t"]["clo"][0]
        ret = self.v.closure_ret(t.a[1])
        if ret is None or c["end"] not in self.g.preds:
            return None
        fl = self.flow([ret]).under(assume)
        got = set()
        fm = last(t.a[0]) == "find_map"
        def tgt(bb, e):
            if bb == c["end"]:
                x = fl.rs(ret, e)
                if fm:
                    n = fl.variant(x) or fl._fact(x, e, "std::option::Option")
                    got.add({"Some": True, "None": False}.get(n))
                else:
                    r = fl.ev(x, e)
                    v = r[2]
                    got.add(v if r[0] != "nbool" or v is None else not v)
            return False
        fl.run(c["body"], target=tgt)
        return got.pop() if len(got) == 1 else None

    def vals(self, term, block, idx=None, assume=None, start=None):
        """Set of canonical strings `term` can have when control reaches `block`."""
        fl = self.flow([term], assume)
        out = set()
        for b, env, path in fl.run(self.g.entry if start is None else start, target=lambda b, e: b == block, find_all=True, through=start is None):
            # one more: env at block entry, phis of the block included
            out.add(self.c(term, env, fl))
        return out

    def where(self, b):
        return self.g.where(b)


JVARS = {"Null", "Bool", "Number", "String", "Array", "Object"}


class RawAssume:
    """An assumption given on terms rather than canonical strings."""

    def __init__(self, f):
        self.f = f


class A:
    """Assumptions: d as in FA._mkassume; eqs {path: string literal it equals}."""

    def __init__(self, d=None, eqs=None):
        self.d = d or {}
        self.eqs = eqs or {}

    def also(self, d=None, eqs=None):
        return A({**self.d, **(d or {})}, {**self.eqs, **(eqs or {})})

    def decide(self, fa, s):
        for p, lit in self.eqs.items():
            if s.startswith("eq(") and s.endswith(")"):
                x = fa._commas(s[3:-1])
                if x and len(x) == 2 and p in x:
                    o = x[0] if x[1] == p else x[1]
                    if o.startswith("'") and o.endswith("'"):
                        return o[1:-1] == lit
            if s.startswith("has({") and s.endswith("}," + p + ")"):
                al = s[4:-len("," + p + ")")]
                if fa._bal(al):
                    rs = {self.decide(fa, "has(%s,%s)" % (x, p)) for x in fa._split(al)}
                    if len(rs) == 1:
                        return rs.pop()
                    continue
            if s.startswith("has([") and s.endswith("]," + p + ")"):
                x = fa._commas(s[5:-len("]," + p + ")")])
                if x is not None and all(y.startswith("'") for y in x):
                    return "'" + lit + "'" in x
            m = re.match(r"^any\(\[(.*)\]:eq\((.*)\)\)$", s, re.S)
            if m:
                # a search of a list of literals for one equal to p
                x = fa._commas(m.group(2))
                if x and len(x) == 2 and p in x and m.group(1) in x:
                    al = fa._split(m.group(1)) if m.group(1).startswith("{") else [m.group(1)]
                    if al and all(y.startswith("'") and y.endswith("'") for y in al):
                        return "'" + lit + "'" in al
            m = re.match(r"^any\((.*?):eq\((.*)\)\)$", s, re.S)
            if m and (m.group(1).startswith("[") or m.group(1).startswith("{[") and fa._bal(m.group(1))):
                # the same, of one of several lists of literals
                x = fa._commas(m.group(2))
                al = fa._split(m.group(1)) if m.group(1).startswith("{") else [m.group(1)]
                ls = [fa._commas(y[1:-1]) if y.startswith("[") and y.endswith("]") else None for y in al]
                ls = [l and [z for y in l for z in (fa._split(y) if y.startswith("{") and fa._bal(y) else [y])] for l in ls]
                if x and len(x) == 2 and p in x and x[0 if x[1] == p else 1].endswith("[]") and all(l and all(y.startswith("'") and y.endswith("'") for y in l) for l in ls):
                    rs = {"'" + lit + "'" in l for l in ls}
                    if len(rs) == 1:
                        return rs.pop()
            if s == "empty(%s)" % p:
                return lit == ""
        return None


CHAIN_CALLS = {"deref", "deref_mut", "borrow", "borrow_mut", "as_slice", "iter_", "unwrap_or_default_"}


def flat(fa, got):
    out = set()
    for x in got:
        if x.startswith("{") and fa._bal(x):
            out |= set(fa._split(x))
        else:
            out.add(x)
    return out


def one_of(rep, key, desc, fa, term, block, allowed, assume=None):
    """Every value `term` can have at `block` is one of `allowed` (equivalent spellings)."""
    got = flat(fa, fa.vals(term, block, assume=assume))
    ok = bool(got) and got <= set(allowed)
    return rep.add(key, ok, desc, fa.where(block), "" if ok else "is %s; expected %s" % (sorted(got)[:6] or "unreachable", sorted(allowed)[:4]))


def expect(rep, key, desc, fa, term, block, want, maybe=(), assume=None, where=None):
    """The values `term` can have at `block` are exactly `want` (plus any of `maybe`)."""
    got = fa.vals(term, block, assume=assume)
    want, maybe = set([want] if isinstance(want, str) else want), set([maybe] if isinstance(maybe, str) else maybe)
    flat = set()
    for x in got:
        if x.startswith("{") and fa._bal(x):
            flat |= set(fa._split(x))
        else:
            flat.add(x)
    extra, missing = flat - want - maybe, want - flat
    w = where or fa.where(block)
    if not extra and not missing:
        rep.ok(key, desc, w)
        return True
    d = []
    if extra:
        d.append("unexpected: " + "; ".join(sorted(extra))[:600])
    if missing:
        d.append("missing: " + "; ".join(sorted(missing))[:600])
    rep.bad(key, desc, w, " / ".join(d))
    return False


class Report:
    ctx = None

    def __init__(self, prop):
        self.prop = prop
        self.obl = []

    def ok(self, key, desc, where=""):
        self.obl.append({"key": key, "ok": True, "desc": desc, "where": where})

    def bad(self, key, desc, where="", detail=""):
        self.obl.append({"key": key, "ok": False, "desc": desc, "where": where, "detail": detail})

    def add(self, key, cond, desc, where="", detail=""):
        (self.ok if cond else lambda k, d, w: self.bad(k, d, w, detail))(key, desc, where)
        return bool(cond)


class Missing(Exception):
    pass


class Ctx:
    def __init__(self, lib, bn):
        self.p = Prog(lib, bn)
        Report.ctx = self
        vp = os.path.join(HERE, "vocab.json")
        if os.path.exists(vp):
            self.vocab = set(json.load(open(vp)))
        else:
            self.vocab = {f["dn"] for f in self.p.local_fns() if not f["closure"]}
        self._fa = {}
        self._fallback = {}

    def find(self, dn):
        r = [f for f in self.p.fn(dn) if not f["closure"]]
        if not r:
            # moved to another module / impl: unique function of the same simple name
            s = dn.split("::")[-1]
            r = [f for f in self.p.local_fns() if not f["closure"] and not is_gen(f) and f["dn"].split("::")[-1] == s]
            if len({f["dn"] for f in r}) != 1:
                raise Missing("function %s not found" % dn)
        return r

    def fa(self, dn, inline=(), only=None):
        """only: inline everything except these."""
        key = (dn, tuple(sorted(inline)), tuple(sorted(only)) if only is not None else None)
        r = self._fa.get(key)
        if r is None:
            r = FA(self, self.find(dn)[0], set(inline), set(only) if only is not None else None)
            self._fa[key] = r
        return r

    def fas(self, dn, inline=()):
        """All instances of a (generic) function."""
        return [FA(self, f, set(inline), None) for f in self.find(dn)]


# -- path queries ---------------------------------------------------------------------------
def exc(*pairs):
    """Edge excuse: the edge establishes one of these (atom string, value) facts.
    A value may be a set/tuple of acceptable values; the string may be a predicate."""
    def f(atoms):
        for s, val in atoms:
            for ps, pv in pairs:
                if (ps(s) if callable(ps) else ps == s):
                    if callable(pv):
                        if pv(val):
                            return True
                    elif isinstance(pv, (set, frozenset)):
                        if val in pv or (isinstance(val, tuple) and set(val) <= pv):
                            return True
                    elif val == pv or (isinstance(val, tuple) and val == pv):
                        return True
        return False
    return f


def run(fa, start=None, avoid=(), excuse=None, target=None, assume=None, watch=(), find_all=False, env=None):
    fl = fa.flow(watch, assume)
    allow = None
    if excuse is not None:
        memo = {}
        def allow(b, atom, env):
            return excuse(fa.atoms(atom, env, fl))
    if target is None:
        target = lambda b, e: fl.ok_exit(b, e)
    elif target == "return":
        target = lambda b, e: fl.is_return(b)
    elif isinstance(target, (set, frozenset, list)):
        ts = set(target)
        target = lambda b, e: b in ts
    r = fl.run(fa.g.entry if start is None else start, env=env, avoid=set(avoid), allow=allow, target=target, find_all=find_all)
    return r


def path_text(fa, r, assume=None):
    fl = fa.flow((), assume)
    out = []
    for b, atom in r[2]:
        for s, val in fa.atoms(atom, r[1], fl)[:1]:
            out.append("%s=%s" % (s[:90], val))
    return "exit at %s; decisions: %s" % (fa.where(r[0]), " ; ".join(out[-8:]) or "none")


def must(rep, key, desc, fa, events, assume=None, excuse=None, start=None, target=None, need=True):
    """Every path from start to target passes one of `events` (or an excused edge)."""
    if need and not events:
        rep.bad(key, desc, fa.g.root["file"].replace("/repo/", "") + " (%s)" % fa.dn, "no such operation found in %s" % fa.dn)
        return False
    if start is not None and start in events:
        rep.ok(key, desc, fa.where(start))
        return True
    r = run(fa, start, events, excuse, target, assume)
    if r is None:
        rep.ok(key, desc, fa.where(sorted(events)[0]) if events else fa.dn)
        return True
    rep.bad(key, desc, fa.where(r[0]), "path without it: " + path_text(fa, r, assume))
    return False


def never(rep, key, desc, fa, targets, assume=None, excuse=None, start=None, avoid=(), watch=()):
    """No path from start reaches `targets` (a set of blocks or predicate)."""
    r = run(fa, start, avoid, excuse, targets, assume, watch)
    if r is None:
        rep.ok(key, desc, fa.dn)
        return True
    rep.bad(key, desc, fa.where(r[0]), "reachable: " + path_text(fa, r, assume))
    return False


CMPOPS = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y}


def range_test(t, ev):
    """range.contains(x), x and the ends of the range having values under ev"""
    if t.k != "call" or last(t.a[0]) != "contains" or len(t.a) < 4:
        return None
    r, x = t.a[2], ev(t.a[3])
    nm, ends = None, []

    def num(v):
        return v if isinstance(v, (int, float)) else ord(v.strip("'")) if isinstance(v, str) and len(v.strip("'")) == 1 else float(v) if isinstance(v, str) and re.match(r"^-?[\d.]+(e[+-]?\d+)?$", v) else None
    if r.k == "const" and isinstance(r.a[0], tuple) and r.a[0][0] == "adt":
        nm, ends = r.a[0][2], [num(v) for n, v in r.a[0][3] if n in ("start", "end")]
    elif r.k == "agg":
        nm, ends = r.a[1], [ev(y) for n, y in zip(r.a[2], r.a[3:]) if n in ("start", "end")]
    elif r.k == "call" and last(r.a[0]) == "new":
        nm, ends = r.a[0], [ev(y) for y in r.a[2:]]
    if x is None or not nm or not ends or any(v is None for v in ends):
        return None
    if "RangeInclusive" in nm:
        return ends[0] <= x <= ends[1]
    if "RangeFrom" in nm:
        return ends[0] <= x
    if "Range" in nm and len(ends) == 2:
        return ends[0] <= x < ends[1]
    return None


def concrete(fa, val, d=None):
    """Assumptions d, and terms t with val(t) not None have that (integer or character code) value:
    comparisons and range tests of them are decided."""
    inner = fa._mkassume(d or {})

    def ev(t, n=0):
        if n > 12:
            return None
        if t.k == "const":
            k = t.a[0]
            if isinstance(k, bool):
                return None
            return k if isinstance(k, int) else ord(k.strip("'")) if isinstance(k, str) and len(k.strip("'")) == 1 else None
        v = val(t)
        if v is not None:
            return v
        if t.k == "cast":
            return ev(t.a[3], n + 1)
        if t.k == "bin":
            x, y = ev(t.a[1], n + 1), ev(t.a[2], n + 1)
            if x is None or y is None:
                return None
            op = t.a[0].replace("WithOverflow", "").replace("Unchecked", "")
            return {"Add": x + y, "Sub": x - y, "Mul": x * y, "BitAnd": x & y, "BitOr": x | y, "Shl": x << y if 0 <= y < 64 else None, "Shr": x >> y if 0 <= y < 64 else None}.get(op)
        return None

    def f(t, adt=None):
        if adt is None:
            if t.k == "bin" and t.a[0] in CMPOPS:
                x, y = ev(t.a[1]), ev(t.a[2])
                if x is not None and y is not None:
                    return CMPOPS[t.a[0]](x, y)
            r = range_test(t, ev)
            if r is not None:
                return r
            if t.k == "call" and last(t.a[0]) in ("eq", "ne") and len(t.a) >= 4:
                x, y = ev(t.a[2]), ev(t.a[3])
                if x is not None and y is not None:
                    return (x == y) == (last(t.a[0]) == "eq")
            if t.k == "call" and last(t.a[0]) in ("is_digit",) and len(t.a) >= 4:
                x, y = ev(t.a[2]), ev(t.a[3])
                if x is not None and y in (8, 10, 16):
                    return chr(x).lower() in "0123456789abcdef"[:y]
            if t.k not in ("const", "bin", "cast"):
                x = val(t)
                if x is not None and not isinstance(x, bool):
                    return x
        return inner(t, adt)
    return RawAssume(f)


def path_counts(fa, start, target, events, assume=None, avoid=(), cap=6):
    """How many of `events` the paths from start to target can pass (cap: that many or more)."""
    fl = fa.flow((), assume)
    seen, out = set(), set()
    st = [(start, {}, 0)]
    while st:
        b, e, n = st.pop()
        k = (b, frozenset(e.items()), n)
        if k in seen:
            continue
        seen.add(k)
        if b in target:
            out.add(n)
            continue
        if b in events:
            n = min(cap, n + 1)
        for s, atom, fact in fl.succ(b, e):
            if s not in avoid:
                st.append((s, fl.step(b, e, s, fact), n))
    return out


def adaptors(fa, it):
    """(names of the adaptors between a collection and this iterator, base terms)"""
    return adaptor_bases(fa, it)[0] if it is not None else ([], [], None)


def adaptors1(fa, it):
    v = fa.v
    names = []
    sites = []
    t = v.itbase(it)
    while t is not None and (t.k == "call" and len(t.a) > 2 or t.k == "mut"):
        l = last(str(t.a[0]))
        if t.k == "mut":
            # a list changed as a whole after it was built
            if l not in SHRINK | REORDER or t.a[2] != 0:
                break
            if l in SHRINK:
                names.append("mut:" + l)
            elif l.startswith("sort") or l == "reverse":
                names.append("rev")
            t = v.itbase(t.a[-1]) or t.a[-1]
            continue
        if l in ITER_SAME or l in ("enumerate", "map", "filter_map", "flat_map", "values", "keys", "into_values", "into_keys", "values_mut", "zip", "map_while", "iter", "into_iter", "deref", "as_slice", "as_ref", "bytes_", "flatten"):
            names.append("mem_take" if l == "take" and ("mem::" in t.a[0] or "Option" in t.a[0]) else l)
            sites.append(t.a[1])
            t = v.itbase(t.a[2]) or t.a[2]
            continue
        break
    return names, sites, t


def adaptor_bases(fa, it):
    """As adaptors, one entry per collection chained into the iterator."""
    out = []
    st = [([], [], it)]
    n = 0
    while st and n < 200:
        n += 1
        names, sites, t = st.pop()
        a, b, base = adaptors1(fa, t)
        names, sites = names + a, sites + b
        if base is not None and base.k == "call" and last(base.a[0]) == "chain" and len(base.a) == 4:
            st += [(names + ["chain"], sites, base.a[3]), (names + ["chain"], sites, base.a[2])]
        else:
            out.append((names, sites, base))
    return out


def _nonempty(fa, s):
    """drop alternatives that have no elements"""
    if s.startswith("{") and fa._bal(s):
        al = [x for x in fa._split(s) if x not in ("[]", "Default", "[default()]", "default()")]
        if len(al) == 1:
            return al[0]
    return s


def iterations(fa, coll):
    """Iteration sites over the collection with canonical path coll (string or predicate):
    dicts {block, body (start blocks), exh (exhausted-edge successor), end (blocks ending one round), names}"""
    v, g = fa.v, fa.g
    ok = coll if callable(coll) else (lambda s: s == coll)
    out = []
    for b in g.rpo:
        t = g.B[b]["t"]
        if t["k"] == "switch":
            c = fa.countloop(b)
            if c is not None:
                e = fa.c(c[1])
                l = fa._lenof(e)
                if ok(l or e) or ok("Range{end:%s,start:0}" % e):
                    out.append({"kind": "loop", "b": b, "names": [], "sites": [], "base": c[1].a[-1] if l and c[1].k in ("len", "call") else c[1]})
            continue
        if t["k"] != "call":
            continue
        if last(t["f"]) == "get" and len(t["a"]) == 2:
            a = v.args(b)
            if fa.counter(a[1]) and ok(fa.c(a[0])):
                out.append({"kind": "loop", "b": b, "names": [], "sites": [], "base": a[0]})
            continue
        if last(t["f"]) in ("next", "next_back", "pop", "pop_front") and t["a"]:
          it = v.args(b)[0]
          for names, sites, base in adaptor_bases(fa, it):
            if base is None:
                continue
            s = _nonempty(fa, fa.c(base))
            if base.k == "agg" and base.a[0].endswith("ops::Range"):
                e = fa.c(base.a[4])
                s = fa._lenof(e) or s
                if fa.c(base.a[3]) != "0":
                    names = names + ["skip"]
            if ok(s) or (last(t["f"]).startswith("pop") and ok(fa.c(it))):
                out.append({"kind": "loop", "b": b, "names": names, "sites": sites, "base": base})
                break
        if t.get("clo") and t["a"]:
            l = last(t["f"])
            if l in ("map", "for_each", "filter", "filter_map", "flat_map", "any", "all", "find", "try_for_each", "fold", "try_fold", "retain", "position", "find_map", "partition", "inspect", "sum", "map_while", "take_while", "skip_while"):
                for names, sites, base in adaptor_bases(fa, v.args(b)[0]):
                  if base is not None and ok(_nonempty(fa, fa.c(base))):
                    out.append({"kind": "clo", "b": b, "clo": t["clo"][0], "names": names, "sites": sites, "how": l, "base": base})
                    break
    return out


def foreach(rep, key, desc, fa, coll, events, assume=None, excuse=None, outer=None, start=None, target=None, allow_names=(), round_only=False):
    """Every element of `coll` meets one of `events` before control reaches target."""
    its = iterations(fa, coll)
    g, v = fa.g, fa.v
    outer = outer or excuse
    if not events:
        rep.bad(key, desc, fa.dn, "no such operation found in %s" % fa.dn)
        return False
    cands = []
    why = []
    evs = set(events)
    for it in its:
        bad = [n for n in it["names"] if n in SUBSET and n not in allow_names]
        if bad:
            # a filter whose predicate is itself an excuse is fine
            if not all(n in ("filter", "filter_map") for n in bad) or not _filters_excused(fa, it, excuse, assume):
                why.append("iteration at %s only sees part of the elements (%s)" % (fa.where(it["b"]), ",".join(bad)))
                continue
        if not _fed(fa, it, coll, excuse, assume):
            why.append("iteration at %s is over a list that need not hold all the elements" % fa.where(it["b"]))
            continue
        if it["kind"] == "loop":
            nb = it["b"]
            # edges of the switch on the result
            somes, nones = _next_edges(fa, nb)
            if not somes:
                continue
            fl = fa.flow((), assume)
            tb = {nb}
            bad_path = None
            for s in somes:
                if s in evs:
                    continue
                tgt = lambda b, e: b == nb or (fl.is_return(b) and fl.ok_exit(b, e))
                r = run(fa, s, evs, excuse, tgt, assume)
                if r is not None:
                    r = _rounds(fa, nb, {s}, evs, excuse, tgt, assume, start)
                if r is not None:
                    bad_path = r
                    break
            if bad_path is not None:
                why.append("an element can be skipped at %s: %s" % (fa.where(nb), path_text(fa, bad_path, assume)))
                continue
            cands.append(("edge", nb, nones))
        else:
            c = it["clo"]
            if it["how"] in ("any", "find", "position", "find_map", "take_while", "map_while", "skip_while"):
                # these may stop early; only accept if the stop is an excused/erroring outcome
                pass
            if c["body"] in evs:
                cands.append(("blk", it["b"], None))
                continue
            end, watch = _goes_on(fa, it, target, assume)
            r = run(fa, c["body"], evs, excuse, end, assume, watch)
            if r is not None:
                r = _rounds(fa, c["head"], {c["body"]}, evs, excuse, end, assume, start, watch)
            if r is not None:
                why.append("an element can be skipped at %s: %s" % (fa.where(it["b"]), path_text(fa, r, assume)))
                continue
            cands.append(("blk", it["b"], None))
    if round_only:
        if cands:
            rep.ok(key, desc, fa.where(cands[0][1]))
            return True
    if cands:
        # every path to the target completes one of the good iterations
        avoid = {c[1] for c in cands if c[0] == "blk"}
        nedges = {}
        for c in cands:
            if c[0] == "edge":
                for n in c[2]:
                    nedges.setdefault(n, c[1])
        fl = fa.flow((), assume)
        # cut exhausted edges by avoiding their target blocks when only reached that way
        def allow(b, atom, env):
            if atom is not None and b in cutsrc and (atom[0] == "variant" and atom[2] == ("None",) or atom[0] == "bool" and fa.overdone(b, atom)):
                return True
            return bool(outer and outer(fa.atoms(atom, env, fl)))
        cutsrc = set()
        for c in cands:
            if c[0] == "edge":
                cutsrc |= _next_switches(fa, c[1])
        tg = target
        if tg is None:
            tg = lambda b, e: fl.ok_exit(b, e)
        elif isinstance(tg, (set, list)):
            ts = set(tg)
            tg = lambda b, e: b in ts
        r = fl.run(g.entry if start is None else start, avoid=avoid, allow=allow, target=tg)
        if r is None:
            rep.ok(key, desc, fa.where(cands[0][1]))
            return True
        why.append("success is reachable without visiting the elements: " + path_text(fa, r, assume))
    if not why:
        why.append("no iteration over these elements found in %s" % fa.dn)
    rep.bad(key, desc, fa.where(its[0]["b"]) if its else fa.dn, " | ".join(why))
    return False


def _goes_on(fa, it, target, assume):
    """The end of a closure's round, unless its failure ends the iteration and that is fatal."""
    c = it["clo"]
    if it["how"] not in ("try_for_each", "try_fold"):
        return {c["end"]}, ()
    if run(fa, it["b"], (), None, target, {outcome(fa, it["b"]): "Err"}) is not None:
        return {c["end"]}, ()
    ret = fa.v.closure_ret(fa.g.B[it["b"]]["t"]["site"])
    fl = fa.flow([ret], assume)
    def end(b, e):
        if b != c["end"]:
            return False
        x = fl.rs(ret, e)
        return (fl.variant(x) or fl._fact(x, e, "std::result::Result")) not in ("Err", "Break")
    return end, [ret]


def _envs(fa, b, assume, start=None):
    """The distinct flow states in which control can be at block b, or None when too many."""
    fl = fa.flow((), assume)
    out, seen = [], set()
    def tgt(bb, e):
        if bb == b:
            k = frozenset(e.items())
            if k not in seen:
                seen.add(k)
                out.append(e)
        return False
    fl.run(fa.g.entry if start is None else start, target=tgt)
    return out if len(out) <= 200 else None


def _rounds(fa, nb, starts, evs, excuse, tgt, assume, start=None, watch=()):
    """A round (from one of `starts`, entered from nb) that misses evs, considering only the
    states control can really be in; None if there is none."""
    envs = _envs(fa, nb, assume, start)
    if envs is None:
        return run(fa, sorted(starts)[0], evs, excuse, tgt, assume, watch)
    for e in envs:
        for b2, e2, _ in run(fa, nb, (), None, set(starts), assume, find_all=True, env=e):
            if b2 in evs:
                continue
            r = run(fa, b2, evs, excuse, tgt, assume, watch, env=e2)
            if r is not None:
                return r
    return None


def _fed(fa, it, coll, excuse, assume):
    """A list filled element by element from coll has been given each of them."""
    base = it.get("base")
    if base is None or not isinstance(coll, str) or base.k not in ("phi", "mut"):
        return True
    v, g = fa.v, fa.g
    seen, st, fills, other = set(), [base], set(), False
    while st:
        t = st.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        if t.k == "phi":
            st += list(v.ops(t)) if t in v.phi_ops else []
        elif t.k == "mut":
            l = last(str(t.a[0]))
            if l in ("push", "push_back", "insert", "extend", "append") and t.a[2] == 0 and t.a[3] in g.rpoi and g.B[t.a[3]]["t"]["k"] == "call":
                a = v.args(t.a[3])
                s = fa.c(a[-1])
                if l in ("extend", "append"):
                    if s == coll or s == "[" + coll + "[]]":
                        other = True
                elif s == coll + "[]":
                    fills.add(t.a[3])
            st.append(t.a[-1])
        elif fa.c(t) == coll:
            other = True
    if other or not fills:
        return True
    key = (base, coll)
    if key in fa.__dict__.setdefault("_feeding", set()):
        return True
    fa._feeding.add(key)
    try:
        return foreach(Report(""), "", "", fa, coll, fills, assume=assume, excuse=excuse, round_only=True)
    finally:
        fa._feeding.discard(key)


def _filters_excused(fa, it, excuse, assume):
    """Whatever the filters on the way leave out is excused."""
    return excuse is not None and filters_pass(fa, it, excuse, assume, False)


def filters_pass(fa, it, excuse, assume, keep):
    """Every way a filter on the way keeps (keep) or leaves out (not keep) an element is excused;
    with keep one such filter is enough, without it all of them count."""
    for site in it["sites"]:
        b = fa.site2b.get(site)
        if b is None:
            continue
        t = fa.g.B[b]["t"]
        if last(t["f"]) not in ("filter", "filter_map") or not t.get("clo"):
            if last(t["f"]) in SUBSET and not keep:
                return False
            continue
        c = t["clo"][0]
        ret = fa.v.closure_ret(site)
        fl = fa.flow([ret], assume)

        def tgt(bb, e):
            if bb != c["end"]:
                return False
            rr = fl.rs(ret, e)
            if last(t["f"]) == "filter_map":
                return fl.variant(rr) != ("None" if keep else "Some")
            r = fl.ev(rr, e)
            kv = r[2]
            if isinstance(kv, bool):
                kv = kv if r[0] == "bool" else not kv
                return kv is keep
            return not excuse(fa.batoms(fl.deep(rr, e), keep))
        found = run(fa, c["body"], (), excuse, tgt, assume, [ret]) is not None
        if keep and not found:
            return True
        if not keep and found:
            return False
    return not keep


def _next_switches(fa, nb):
    """Switch blocks deciding on the result of the next() call at nb (or nb itself, where a
    counter is compared with its bound)."""
    if fa.g.B[nb]["t"]["k"] == "switch":
        return {nb}
    site = fa.g.B[nb]["t"]["site"]
    out = set()
    for b in fa.g.rpo:
        if fa.g.B[b]["t"]["k"] == "switch":
            c = fa.v.cond(b)
            if c.k == "discr" and c.a[0].k == "call" and c.a[0].a[1] == site:
                out.add(b)
    return out


def _next_edges(fa, nb):
    somes, nones = [], []
    if fa.g.B[nb]["t"]["k"] == "switch":
        over = fa.countloop(nb)[2]
        t = fa.g.B[nb]["t"]
        for val, tgt in t["br"]:
            (nones if bool(val) == over else somes).append(tgt)
        vals = {bool(v) for v, _ in t["br"]}
        if fa.g.B[t["o"]]["t"]["k"] != "dead" and len(vals) == 1:
            (nones if (not vals.pop()) == over else somes).append(t["o"])
        return somes, nones
    for b in _next_switches(fa, nb):
        t = fa.g.B[b]["t"]
        for val, tgt in t["br"]:
            (somes if val == 1 else nones).append(tgt)
        vals = {v for v, _ in t["br"]}
        if fa.g.B[t["o"]]["t"]["k"] != "dead":
            if 1 not in vals:
                somes.append(t["o"])
            elif 0 not in vals:
                nones.append(t["o"])
    return somes, nones


# -- whole-program queries -------------------------------------------------------------------
def top(dn):
    """Enclosing named function of a closure."""
    return dn.split("::{closure")[0]


def callers(ctx, pred):
    """[(fn dn, file, line, callee)] of every call in local non-generated code matching pred(name)."""
    out = []
    for f in ctx.p.local_fns():
        if is_gen(f):
            continue
        for blk in f["bb"]:
            t = blk["t"]
            if t["k"] == "call" and pred(t["f"]):
                out.append((top(f["dn"]).replace("avdl::", ""), f["file"].replace("/repo/", ""), t["ln"], t["f"]))
    return out


def constructors(ctx, adt, variant=None):
    out = []
    for f in ctx.p.local_fns():
        if is_gen(f):
            continue
        for blk in f["bb"]:
            for s in blk["s"]:
                if s["s"] == "a" and s["r"]["r"] == "agg" and s["r"].get("ak") == "adt" and s["r"]["n"].split("::")[-1] == adt and (variant is None or s["r"]["v"] == variant):
                    out.append((top(f["dn"]).replace("avdl::", ""), f["file"].replace("/repo/", ""), s["ln"]))
    return out


def _projs(pl):
    return pl.get("p") or []


def _hits(pl, adt, field):
    return any(e.get("p") == "field" and e.get("n") == field and str(e.get("o", "")).split("::")[-1] == adt for e in _projs(pl))


def map_inserts(fa, ok):
    """[(block, key, value)] of everything that can put an entry into a map with canonical string ok."""
    pr = ok if callable(ok) else (lambda s: s == ok)
    out = []
    for b in fa.calls("insert", "insert_full", "or_insert", "or_insert_with", "insert_entry", "replace"):
        a = fa.argc(b)
        nm = fa.g.B[b]["t"]["f"]
        if last(nm) in ("insert", "insert_full", "replace") and len(a) in (2, 3) and pr(a[0]):
            out.append((b, a[1], a[2] if len(a) == 3 else None))
            continue
        m = re.match(r"^entry\((.*)\)(\.Vacant\.0)?$", a[0])
        if m:
            x = fa._commas(m.group(1))
            if x and len(x) == 2 and pr(x[0]):
                out.append((b, x[1], a[1] if len(a) > 1 else None))
    return out


def field_mutators(ctx, adt, field):
    """Functions that can change adt.field in place: [(fn, file, line, how)]"""
    out = []
    for f in ctx.p.local_fns():
        if is_gen(f):
            continue
        fn, fl = top(f["dn"]).replace("avdl::", ""), f["file"].replace("/repo/", "")
        for blk in f["bb"]:
            for s in blk["s"]:
                if s["s"] != "a":
                    continue
                if _hits(s["p"], adt, field):
                    out.append((fn, fl, s["ln"], "assignment"))
                r = s["r"]
                if r["r"] in ("ref", "addr", "raw") and (r.get("m") is True or r["r"] != "ref") and _hits(r["p"], adt, field):
                    out.append((fn, fl, s["ln"], "mutable borrow"))
            t = blk["t"]
            if t["k"] == "call" and t.get("d") and _hits(t["d"], adt, field):
                out.append((fn, fl, t["ln"], "assignment"))
    return out


def in_allowed(ctx, fn, allowed, seen=None):
    """fn is allowed, or a helper only ever called from allowed functions."""
    if fn in allowed or fn.split("::")[-1] in allowed:
        return True
    if ctx is None or "avdl::" + fn in ctx.vocab:
        return False
    seen = seen or set()
    if fn in seen:
        return True
    seen.add(fn)
    return all(in_allowed(ctx, c[0], allowed, seen) for c in callers(ctx, lambda n: n.replace("avdl::", "") == fn))


def only_in(rep, key, desc, sites, allowed, floor=1):
    """Every site (fn, file, line, ..) lies in an allowed function (last path component)."""
    n = 0
    for s in sites:
        n += 1
        ok = in_allowed(rep.ctx, s[0], allowed)
        if not ok:
            rep.bad(key + "/" + s[0], desc, "%s:%s (%s)" % (s[1], s[2], s[0]), "%s happens here" % (s[3] if len(s) > 3 else "it"))
    rep.add(key, n >= floor, desc + " (%d sites, floor %d)" % (n, floor))


def rejects_each(rep, key, desc, fa, coll, assume, outer=None, round_start=None, some=False, watch=(), start=None):
    """If an element of coll satisfies `assume`, no success exit is reachable from its round.
    some: one iteration that no success avoids does that; else all of them do."""
    its = iterations(fa, coll)
    good, why = [], []
    for it in its:
        w = []
        if set(it["names"]) & SUBSET:
            w.append("iteration at %s only sees part of the elements" % fa.where(it["b"]))
        if it["kind"] == "loop":
            somes, nones = _next_edges(fa, it["b"])
            fl = fa.flow(watch, assume)
            for s in somes:
                r = run(fa, s, (), None, lambda b, e: b == it["b"] or (fl.is_return(b) and fl.ok_exit(b, e)), assume, watch)
                if r is not None:
                    w.append("such an element is accepted at %s: %s" % (fa.where(it["b"]), path_text(fa, r, assume)))
            if not somes:
                continue
        elif it["how"] in ("all", "any", "find", "position", "find_map"):
            # the predicate's answer under the assumption decides the outcome of the search
            site = fa.g.B[it["b"]]["t"]["site"]
            ret = fa.v.closure_ret(site)
            fl = fa.flow(list(watch) + [ret], assume)
            vals = set()
            fm = it["how"] == "find_map"
            def tgt(bb, e):
                if bb == it["clo"]["end"]:
                    if fm:
                        x = fl.rs(ret, e)
                        vals.add({"Some": True, "None": False}.get(fl.variant(x) or fl._fact(x, e, "std::option::Option")))
                    else:
                        r = fl.ev(fl.rs(ret, e), e)
                        vals.add(r[2] if r[0] != "nbool" or r[2] is None else not r[2])
                return False
            run(fa, it["clo"]["body"], (), None, tgt, assume, list(watch) + [ret])
            if not vals or None in vals or len(vals) != 1:
                continue
            hit = vals.pop()
            s = fa._c(fa.v.callval(fa.g.B[it["b"]]["t"], it["b"]))
            want = {"all": False, "any": True}.get(it["how"], True)
            if s is None:
                continue
            if hit != want:
                w.append("the check at %s accepts such an element" % fa.where(it["b"]))
            else:
                r = run(fa, it["b"], (), None, None, {s: want if it["how"] in ("all", "any") else "Some"})
                if r is not None:
                    w.append("the outcome of the check at %s does not decide: %s" % (fa.where(it["b"]), path_text(fa, r)))
        elif it["how"] in ("try_for_each", "try_fold"):
            fl = fa.flow(list(watch) + [fa.v.closure_ret(fa.g.B[it["b"]]["t"]["site"])], assume)
            ret = fa.v.closure_ret(fa.g.B[it["b"]]["t"]["site"])
            vals = set()
            def tgt2(bb, e):
                if bb == it["clo"]["end"]:
                    x = fl.rs(ret, e)
                    vals.add(fl.variant(x) or fl._fact(x, e, "std::result::Result"))
                return False
            run(fa, it["clo"]["body"], (), None, tgt2, assume, list(watch) + [ret])
            if not vals <= {"Err", "Break", "None"} or not vals:
                w.append("such an element is accepted at %s" % fa.where(it["b"]))
            else:
                s = outcome(fa, it["b"])
                r = run(fa, it["b"], (), None, None, {s: "Err"})
                if r is not None:
                    w.append("the outcome of the check at %s does not decide: %s" % (fa.where(it["b"]), path_text(fa, r)))
        else:
            continue
        if some and not w:
            r = run(fa, start, {it["b"]}, None, None)
            if r is not None:
                w.append("the check at %s can be skipped: %s" % (fa.where(it["b"]), path_text(fa, r)))
        if not w:
            good.append(it)
        why += w
    ok = bool(good) and (some or not why)
    rep.add(key, ok, desc, fa.where(its[0]["b"]) if its else fa.dn, "; ".join(why) or "no check over these elements found")


def outcome(fa, b):
    """Canonical string of the value of the call at b."""
    return fa._c(fa.v.callval(fa.g.B[b]["t"], b))


def clo_blocks(fa, c):
    """blocks of an inlined closure body"""
    seen, st = set(), [c["body"]]
    while st:
        b = st.pop()
        if b in seen or b == c["end"]:
            continue
        seen.add(b)
        t = fa.g.B[b]["t"]
        x = t.get("t") or []
        st += [x] if isinstance(x, int) else list(x)
        if t["k"] == "switch":
            st += [y for _, y in t["br"]] + [t["o"]]
    return seen


def err_collected(fa, b, asm):
    """b lies in a closure mapped over elements and its failure is that closure's result: what collects the
    results into one then fails as well. Returns the assumption that it does."""
    out = {}
    for cb in fa.g.rpo:
        t = fa.g.B[cb]["t"]
        if t["k"] != "call" or not t.get("clo") or last(t["f"]) not in ("map", "try_for_each", "try_fold", "and_then", "map_while"):
            continue
        for c in t["clo"]:
            if b not in clo_blocks(fa, c) or c["ret"] is None:
                continue
            x = fa.v.read((c["ret"]), (), c["end"], 0)
            got = flat(fa, fa.vals(x, c["end"], assume=asm, start=b))
            if not got or not all(y.startswith("Err(") or y in asm for y in got):
                continue
            if last(t["f"]) in ("try_for_each", "try_fold"):
                out[outcome(fa, cb)] = "Err"
                continue
            for d in fa.g.rpo:
                u = fa.g.B[d]["t"]
                if u["k"] == "call" and last(u["f"]) in ("collect", "from_iter", "sum", "product", "try_for_each", "try_fold") and fa._dty(u["site"]) == "Result":
                    if any(y.k == "call" and y.a[1] == t["site"] for y in fa.v.leaves(fa.v.args(d)[0])):
                        out[outcome(fa, d)] = "Err"
    return out


def err_fatal(rep, key, desc, fa, blocks, target=None, floor=1):
    """A failing call at any of these blocks never leads to success."""
    for b in blocks:
        asm = {outcome(fa, b): "Err"}
        asm.update(err_collected(fa, b, asm))
        r = run(fa, b, (), None, target, asm)
        rep.add(key, r is None, desc, fa.where(b), path_text(fa, r, asm) if r else "")
    if len(blocks) < floor:
        rep.bad(key, desc, fa.dn, "no such call found in %s" % fa.dn)


def rets(fa):
    """Canonical alternatives of the returned value."""
    out = set()
    for b in fa.g.rpo:
        if fa.g.B[b]["t"]["k"] == "return":
            s = fa.c(fa.v.read(fa.g.ret, (), b, 1 << 30))
            out |= set(fa._split(s)) if s.startswith("{") and fa._bal(s) else {s}
    return out


def ret_under(fa, assume=None, start=None):
    """Canonical alternatives of the returned value on the paths possible under `assume`."""
    out = set()
    for b in fa.g.rpo:
        if fa.g.B[b]["t"]["k"] == "return":
            t = fa.v.read(fa.g.ret, (), b, 1 << 30)
            fl = fa.flow([t], assume)
            for bb, env, path in fl.run(fa.g.entry if start is None else start, target=lambda x, e: x == b, find_all=True):
                s = fa.c(t, env, fl)
                out |= set(fa._split(s)) if s.startswith("{") and fa._bal(s) else {s}
    return out
