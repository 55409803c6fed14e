"""P15: the result depends on the inputs only.

A type-directed effect analysis over every function of the library and the program: wherever a hash
map or hash set is iterated, what the iteration feeds must not depend on the order (another keyed
collection, a search or count, or a list that is sorted by something that tells the elements apart
before anything else reads it).  Other sources that differ between runs are not used at all."""
from rules import rule
from base import *
from prog import is_gen

UITER = re.compile(r"collections::hash(_map|_set|::map|::set)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|Difference|Intersection|Union|SymmetricDifference|ExtractIf)\b")
COLL = {"std::collections::HashMap", "std::collections::HashSet"}
KEYED = {"std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap", "std::collections::BTreeSet", "serde_json::Map", "std::collections::BinaryHeap"}
LISTS = {"std::vec::Vec", "std::collections::VecDeque"}
POSITION = {"enumerate", "take", "skip", "step_by", "take_while", "skip_while", "map_while", "zip", "scan", "rev", "peekable", "array_chunks", "map_windows", "intersperse"}
NEUTRAL = {"map", "filter", "filter_map", "cloned", "copied", "by_ref", "inspect", "flat_map", "flatten", "fuse", "into_iter", "iter", "chain", "any", "all", "count", "max", "min", "len", "size_hint", "clone", "drop", "is_empty"}
INJ = {"clone", "cloned", "copied", "to_string", "to_owned", "as_str", "as_ref", "as_deref", "deref", "borrow", "into", "from", "as_bytes", "to_vec", "as_slice", "into_owned", "cmp", "partial_cmp", "then", "then_with", "Reverse", "reverse", "full_name", "as_mut", "into_boxed_str", "file_name", "path", "into_path", "to_path_buf", "to_os_string", "into_os_string", "to_string_lossy", "as_os_str", "as_path"}
SORTS = {"sort", "sort_unstable", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable_by", "sort_unstable_by_key"}
VIEW = {"deref", "deref_mut", "as_mut_slice", "as_slice", "borrow", "borrow_mut", "as_mut", "as_ref", "by_ref", "index_mut"}
GROW = {"push", "extend", "extend_from_slice", "append", "push_back", "insert", "len", "is_empty", "reserve", "capacity", "shrink_to_fit"}
# operations that visit a collection handed to them as a whole
WHOLE = {"to_value", "to_string", "to_writer", "to_vec", "to_string_pretty", "to_writer_pretty", "to_vec_pretty", "serialize", "fmt", "new_debug", "hash", "for_each", "retain", "collect_map", "collect_seq"}
FORBIDDEN = re.compile(r"(^|::)(SystemTime|Instant)::now$|(^|::)env::(vars|vars_os|temp_dir)$|(^|::)thread::|(^|::)process::id$|(^|::)rand(::|$)|RandomState::(new|default|build_hasher|hash_one)$|available_parallelism|Metadata::(modified|accessed|created)$|Argument::<'_>::new_pointer$|Argument::new_pointer$|(^|::)uuid::")


class Body:
    def __init__(self, p, f):
        self.p, self.f = p, f
        self.bb = f["bb"]
        self.succ = [self._succ(b["t"]) for b in self.bb]
        self.defs = {}
        for i, b in enumerate(self.bb):
            for s in b["s"]:
                if s["s"] == "a":
                    self.defs.setdefault(s["p"]["l"], []).append((i, s))
            t = b["t"]
            if t["k"] == "call":
                self.defs.setdefault(t["d"]["l"], []).append((i, t))
        self.users = {d["p"]["l"] for d in f.get("dbg", []) if isinstance(d.get("p"), dict)}

    def _succ(self, t):
        out = []
        if t["k"] == "switch":
            out = [x[1] for x in t["br"]] + [t["o"]]
        elif "t" in t and isinstance(t["t"], int) and t["t"] >= 0:
            out = [t["t"]]
        return [x for x in out if x is not None and x >= 0]

    def where(self, b):
        t = self.bb[b]["t"]
        return "%s:%s (%s)" % (self.f["file"], t.get("ln") or self.f["line"], self.f["dn"].replace("avdl::", ""))

    def opty(self, o):
        if o["o"] == "const":
            return o["t"]
        if o["o"] not in ("move", "copy"):
            return -1
        return self.plty(o["p"])

    def plty(self, pl):
        t = self.f["lt"][pl["l"]]
        for e in pl.get("p", []):
            if t < 0:
                return -1
            x = self.p.types[t]
            if e["p"] == "deref":
                t = x["t"] if x["k"] in ("ref", "ptr") else (x["a"][0] if x["k"] == "adt" and x["a"] else -1)
            elif e["p"] == "field":
                t = e.get("t", -1)
            elif e["p"] in ("index", "cindex"):
                t = x.get("t", -1)
        return t

    def reach(self, starts, stop=()):
        seen, work = set(), [s for s in starts]
        while work:
            b = work.pop()
            if b in seen or b in stop:
                continue
            seen.add(b)
            work += self.succ[b]
        return seen

    # roots of a (mutable) operand: locals or parameters it leads to
    def roots(self, pl, depth=0, seen=None):
        """[(local, through)]: locals a place's storage belongs to, following references."""
        seen = seen if seen is not None else set()
        l = pl["l"]
        proj = pl.get("p", [])
        if not any(e["p"] == "deref" for e in proj):
            t = self.f["lt"][l]
            if self.p.types[t]["k"] not in ("ref", "ptr"):
                if not self._guard(l):
                    return {l}
        if (l, ) in seen or depth > 12:
            return {l}
        seen.add((l,))
        if 1 <= l <= self.f["argc"]:
            return {l}
        out = set()
        for i, s in self.defs.get(l, []):
            if "r" in s:
                r = s["r"]
                if r["r"] in ("ref", "reborrow"):
                    out |= self.roots(r["p"], depth + 1, seen)
                elif r["r"] in ("use", "cast") and r["a"]["o"] in ("move", "copy"):
                    out |= self.roots(r["a"]["p"], depth + 1, seen)
                else:
                    out.add(l)
            else:
                ops = [a for a in s["a"] if a["o"] in ("move", "copy")]
                if last(s["f"]) in VIEW | {"unwrap", "expect", "iter_mut", "get_mut", "last_mut", "first_mut", "unwrap_or_else"} and ops:
                    out |= self.roots(ops[0]["p"], depth + 1, seen)
                else:
                    out.add(l)
        return out or {l}

    def _guard(self, l):
        return "RefMut" in self.p.tyname(self.f["lt"][l]) or "cell::Ref<" in self.p.tyname(self.f["lt"][l])


class Det:
    def __init__(self, ctx, rep):
        self.ctx, self.p, self.rep = ctx, ctx.p, rep
        self.bodies = {}
        for f in self.p.fns:
            if "bb" in f and not is_gen(f) and f["file"].startswith("src/") and f["crate"] in ("lib", "bin"):
                self.bodies.setdefault(f["id"], Body(self.p, f))
        self.byid = {f["id"]: f for f in self.p.fns}
        self.tn = {}
        self.todo = []            # lists to be sorted: (body, local, block, why)
        self.done = set()
        self.deep = {}
        self.n = 0
        m = self.p.adts.get("serde_json::Map")
        under = self.p.tyname(m["v"][0]["f"][0]["t"]) if m else ""
        self.keyed = set(KEYED)
        if "BTreeMap" not in under:
            self.keyed.discard("serde_json::Map")

    def name(self, t):
        if t not in self.tn:
            self.tn[t] = self.p.tyname(t) if t >= 0 else "?"
        return self.tn[t]

    def kind(self, t):
        if t < 0:
            return None
        s = re.sub(r"closure [^,>]*", "closure", self.name(t))
        if UITER.search(s):
            return "iter"
        x = self.p.types[self.p.strip_ref(t)]
        if x["k"] == "adt" and x["n"] in COLL:
            return "coll"
        return None

    def cont(self, t):
        """collection type name behind references and Option"""
        while t >= 0:
            x = self.p.types[t]
            if x["k"] in ("ref", "ptr"):
                t = x["t"]
            elif x["k"] == "adt" and x["n"] in ("std::option::Option", "std::boxed::Box", "std::cell::RefMut") and x["a"]:
                t = x["a"][0]
            else:
                return x["n"] if x["k"] == "adt" else x["k"]
        return "?"

    def bad(self, B, b, why):
        self.rep.bad("order/%s" % B.f["dn"].replace("avdl::", "").split("::{closure")[0], "nothing depends on the iteration order of a hash table", B.where(b), why)

    def fine(self, B, b, why):
        self.rep.ok("order/%s/%d" % (B.f["dn"].replace("avdl::", ""), self.n), "nothing depends on the iteration order of a hash table: " + why, B.where(b))
        self.n += 1

    # -- all sites ------------------------------------------------------------------------
    def scan(self):
        for B in self.bodies.values():
            for b, blk in enumerate(B.bb):
                t = blk["t"]
                if t["k"] != "call":
                    continue
                self.other_sources(B, b, t)
                ks = [self.kind(B.opty(a)) for a in t["a"]]
                if not any(ks):
                    continue
                self.call(B, b, t, ks)
        while self.todo:
            x = self.todo.pop()
            key = (x[0].f["id"],) + x[1:3]
            if key not in self.done:
                self.done.add(key)
                self.sorted_before_use(*x)

    def closures(self, B, t):
        """bodies of the closures among a call's arguments"""
        out = []
        for a in t["a"]:
            ty = B.opty(a)
            if ty >= 0 and self.p.types[self.p.strip_ref(ty)]["k"] == "closure":
                c = self.p.types[self.p.strip_ref(ty)]
                f = self.byid.get(c.get("i"))
                cands = [X for X in self.bodies.values() if X.f["n"] == c["n"] or X.f["dn"] == c["n"]] if f is None or f["id"] not in self.bodies else [self.bodies[f["id"]]]
                out.append((a, c, cands[0] if cands else None))
        return out

    def call(self, B, b, t, ks):
        n = last(t["f"])
        res = B.plty(t["d"])
        local = self.byid.get(t.get("i"), {}).get("local") and "bb" in self.byid.get(t.get("i"), {})
        if local:
            return
        if "iter" in ks:
            if n in POSITION:
                return self.bad(B, b, "%s depends on the position" % n)
            if n in ("collect", "from_iter"):
                return self.gathered(B, b, t, res, t["d"]["l"])
            if n == "extend":
                return self.extended(B, b, t)
            if n == "next":
                return self.loop(B, b, t)
            if n in NEUTRAL or n == "for_each":
                for a, c, C in self.closures(B, t):
                    if any(self.p.ty_has_mut(u) for u in c["up"]):
                        if C is None or not self.body_ok(C, set(range(len(C.bb))), set(range(2, C.f["argc"] + 1)), None, B, b, a):
                            return self.bad(B, b, "the closure given to %s changes something in iteration order" % n)
                    elif n == "for_each":
                        return self.bad(B, b, "for_each visits the elements in iteration order")
                return self.fine(B, b, "%s does not depend on the order" % n) if n not in NEUTRAL or self.kind(res) is None else None
            if n in ("max_by_key", "min_by_key", "max_by", "min_by", "sum", "product", "find", "find_map", "position", "last", "nth", "fold", "try_fold", "reduce", "partition", "unzip", "try_for_each"):
                return self.bad(B, b, "the result of %s can depend on the order" % n)
            if n in ("as_ref", "as_mut", "deref", "deref_mut", "take", "replace", "unwrap", "branch"):
                return
            return self.bad(B, b, "%s is given an unordered iterator" % n)
        # a whole collection
        if n in ("extend",) and len(ks) > 1 and ks[1]:
            return self.extended(B, b, t)
        if n in ("from_iter", "from") and self.kind(res) is None:
            return self.gathered(B, b, t, res, t["d"]["l"])
        if n in WHOLE:
            if n == "retain":
                for a, c, C in self.closures(B, t):
                    if any(self.p.ty_has_mut(u) for u in c["up"]):
                        return self.bad(B, b, "retain visits the entries in iteration order")
                return self.fine(B, b, "retain looks at each entry by itself")
            return self.bad(B, b, "%s visits the entries in iteration order" % n)

    def gathered(self, B, b, t, res, dest):
        c = self.cont(res)
        x = self.p.types[res]
        if x["k"] == "adt" and x["n"] == "std::result::Result":
            return self.bad(B, b, "which error is met first depends on the order")
        if c in self.keyed:
            if not self.keys_kept(B, t):
                return self.bad(B, b, "entries with different keys can end up under one key")
            return self.fine(B, b, "collected into a %s" % c)
        if c in LISTS:
            self.todo.append((B, dest, b, "collected from a hash table"))
            return
        self.bad(B, b, "collected into a %s in iteration order" % c)

    def keys_kept(self, B, t):
        """No mapping on the way merges keys: closures producing pairs keep the first component."""
        for a in t["a"]:
            ty = B.opty(a)
            names = self.name(ty) if ty >= 0 else ""
            for m in re.finditer(r"closure ([\w:<>{}#@./ -]+?)(?=[,>]|$)", names):
                for X in self.bodies.values():
                    if X.f["n"] == m.group(1) or X.f["dn"] == m.group(1):
                        rt = self.p.types[X.f["lt"][0]]
                        if rt["k"] == "tuple" and len(rt["ts"]) == 2:
                            got = self.projections(X, {"l": 0}, only=0)
                            if not got:
                                return False
        return True

    def extended(self, B, b, t):
        c = self.cont(B.opty(t["a"][0]))
        if c in self.keyed:
            if not self.keys_kept(B, t):
                return self.bad(B, b, "entries with different keys can end up under one key")
            return self.fine(B, b, "added to a %s" % c)
        if c in LISTS and t["a"][0]["o"] in ("move", "copy"):
            for r in B.roots(t["a"][0]["p"]):
                self.todo.append((B, r, b, "extended from a hash table"))
            return
        self.bad(B, b, "a %s is extended in iteration order" % c)

    # -- loops ----------------------------------------------------------------------------
    def loop(self, B, b, t):
        d = t["d"]["l"]
        sw = None
        for x in B.reach(B.succ[b]):
            tt = B.bb[x]["t"]
            if tt["k"] == "switch" and any(s["s"] == "a" and s["r"]["r"] == "discr" and s["r"]["p"]["l"] == d for s in B.bb[x]["s"]):
                sw = x
                break
        if sw is None:
            return self.bad(B, b, "one element is taken in iteration order")
        brs = dict((v, x) for v, x in B.bb[sw]["t"]["br"])
        some, none = brs.get(1, B.bb[sw]["t"]["o"]), brs.get(0, B.bb[sw]["t"]["o"])
        L = {x for x in B.reach([some], stop={b}) if b in B.reach([x])}
        if some not in L and b not in B.reach([some]):
            return self.bad(B, b, "the first element met is taken")
        if self.body_ok(B, L | {b, sw}, {d}, (b, sw, none)):
            self.fine(B, b, "the loop treats each element by itself")

    def body_ok(self, B, L, elem, loop, outer=None, ob=None, clo=None):
        """Every effect of the blocks L (a loop body or a closure called per element) is independent of the order."""
        ok = True
        ob_ = ob

        def no(b, why):
            nonlocal ok
            ok = False
            self.bad(B, b, why)
        inL = lambda l: all(i in L for i, _ in B.defs.get(l, [])) and B.defs.get(l) and not (1 <= l <= B.f["argc"])
        tainted = self.taint(B, L, elem)
        nb = loop[0] if loop else None
        for b in sorted(L):
            t = B.bb[b]["t"]
            for s in B.bb[b]["s"]:
                if s["s"] == "a":
                    self.assigned(B, b, s, L, inL, no, loop, clo)
            if t["k"] != "call" or b == nb:
                continue
            n = last(t["f"])
            g = self.byid.get(t.get("i"), {})
            if self.effectful(g):
                no(b, "%s has an effect for each element, in iteration order" % n)
                continue
            for j, a in enumerate(t["a"]):
                if a["o"] not in ("move", "copy"):
                    continue
                ty = B.opty(a)
                if ty < 0 or not self.p.ty_has_mut(ty):
                    continue
                rs = B.roots(a["p"])
                if self.p.types[ty]["k"] == "closure":
                    rs = set()
                    for i, s in B.defs.get(a["p"]["l"], []):
                        if "r" in s and s["r"]["r"] == "agg":
                            for o in s["r"].get("ops", []):
                                if o["o"] in ("move", "copy") and self.p.ty_has_mut(B.opty(o)):
                                    rs |= B.roots(o["p"])
                out = {r for r in rs if not inL(r)}
                if not out:
                    continue
                if clo is not None:
                    out = self.captured(B, out, outer, clo)
                    if out is None:
                        no(b, "%s changes something captured" % n)
                        continue
                self.mutated(B, b, t, j, ty, out, tainted, no, outer, ob)
        if loop:
            nb, sw, none = loop
            for b in L:
                for s in B.succ[b]:
                    if s in L or (b == sw and s == none):
                        continue
                    if B.bb[s]["t"]["k"] in ("unreachable", "resume", "abort"):
                        continue
                    if b == sw:
                        continue
                    self.early(B, b, s, L, tainted, none, no)
        return ok

    def captured(self, B, roots, outer, clo):
        """locals of the enclosing function a closure's captured references lead to"""
        if roots - {1}:
            return None
        out = set()
        for i, s in outer.defs.get(clo["p"]["l"], []) if clo["o"] in ("move", "copy") else []:
            if "r" in s and s["r"]["r"] == "agg":
                for o in s["r"].get("ops", []):
                    if o["o"] in ("move", "copy") and self.p.ty_has_mut(outer.opty(o)):
                        out |= outer.roots(o["p"])
        return out or None

    def mutated(self, B, b, t, j, ty, roots, tainted, no, outer, ob):
        n = last(t["f"])
        c = self.cont(ty)
        g = self.byid.get(t.get("i"), {})
        W, wb = (outer, ob) if outer is not None else (B, b)
        if "bb" in g and g["id"] in self.bodies:
            if c in LISTS:
                for r in roots:
                    self.todo.append((W, r, wb, "filled in iteration order"))
                return
            if c in self.keyed and self.insert_only(g, j + 1, set()):
                return
            return no(b, "%s reads and changes %s for each element, in iteration order" % (n, c))
        if c in self.keyed:
            if n in ("insert", "entry", "extend", "append", "get_mut", "remove", "deref_mut", "borrow_mut", "reserve", "entry_ref", "replace"):
                if n == "insert" and len(t["a"]) > 2 and not self.dep(B, t["a"][1], tainted):
                    return no(b, "the last element written to the same key wins")
                return
            return no(b, "%s on a %s in iteration order" % (n, c))
        if c in LISTS and j == 0 and n in ("push", "extend", "extend_from_slice", "append", "push_back", "push_front"):
            for r in roots:
                self.todo.append((W, r, wb, "filled in iteration order"))
            return
        if n in VIEW or n in ("next", "len", "into_iter", "iter_mut"):
            return
        return no(b, "%s changes a %s in iteration order" % (n, c))

    def assigned(self, B, b, s, L, inL, no, loop, clo):
        l, proj = s["p"]["l"], s["p"].get("p", [])
        r = s["r"]
        through = any(e["p"] == "deref" for e in proj)
        if not through:
            if inL(l):
                # read after the loop?
                if l in B.users or l == 0:
                    pass
                else:
                    return
                if not self.used_outside(B, l, L):
                    return
            elif not self.used_outside(B, l, L) and l not in B.users and l != 0:
                return
            if loop is None and l == 0:
                return
        else:
            rs = B.roots({"l": l, "p": [{"p": "deref"}]})
            if all(inL(x) for x in rs):
                return
        if r["r"] == "use" and r["a"]["o"] == "const":
            vals = {repr(x["r"]["a"]["v"]) for i, x in B.defs.get(l, []) if i in L and "r" in x and x["r"]["r"] == "use" and x["r"]["a"]["o"] == "const"}
            if len(vals) == 1 or l not in B.users:
                return
        if r["r"] in ("ref", "discr") or (r["r"] == "use" and r["a"]["o"] in ("move", "copy") and r["a"]["p"].get("p") and l not in B.users):
            return
        if r["r"] in ("bin", "cbin") and r["op"].replace("WithOverflow", "") in ("Add", "BitOr", "BitAnd", "BitXor"):
            return
        if r["r"] == "use" and r["a"]["o"] in ("move", "copy"):
            # x = (x + e).0
            for i, d in B.defs.get(r["a"]["p"]["l"], []):
                if "r" in d and d["r"]["r"] in ("bin", "cbin") and d["r"]["op"].replace("WithOverflow", "") in ("Add", "BitOr", "BitAnd", "BitXor"):
                    return
        if l in B.users or l == 0 or through:
            no(b, "the element met last decides a value")

    def used_outside(self, B, l, L):
        ex = {s for b in L for s in B.succ[b] if s not in L}
        for b in B.reach(ex):
            if b in L:
                continue
            for s in B.bb[b]["s"]:
                if s["s"] == "a" and l in places(s["r"]):
                    return True
            t = B.bb[b]["t"]
            if t["k"] == "call" and l in {a["p"]["l"] for a in t["a"] if a["o"] in ("move", "copy")}:
                return True
            if t["k"] == "switch" and t["d"]["o"] in ("move", "copy") and t["d"]["p"]["l"] == l:
                return True
            if t["k"] == "return" and l == 0:
                return True
        return False

    def taint(self, B, L, elem):
        ts = set(elem)
        ch = True
        while ch:
            ch = False
            for b in L:
                for s in B.bb[b]["s"]:
                    if s["s"] == "a" and s["p"]["l"] not in ts and places(s["r"]) & ts:
                        ts.add(s["p"]["l"])
                        ch = True
                t = B.bb[b]["t"]
                if t["k"] == "call" and t["d"]["l"] not in ts and {a["p"]["l"] for a in t["a"] if a["o"] in ("move", "copy")} & ts:
                    ts.add(t["d"]["l"])
                    ch = True
        return ts

    def dep(self, B, op, tainted):
        return op["o"] in ("move", "copy") and op["p"]["l"] in tainted

    def early(self, B, b, s, L, tainted, none, no):
        """leaving the loop at an element must not carry the element away"""
        after = B.reach([none])
        region = B.reach([s], stop=L)
        t0 = {l for l in tainted}
        for x in sorted(region):
            blk = B.bb[x]
            for st in blk["s"]:
                if st["s"] == "a" and places(st["r"]) & t0 and (x not in after or True):
                    return no(b, "the element at which the loop is left depends on the order")
            t = blk["t"]
            if t["k"] == "call" and {a["p"]["l"] for a in t["a"] if a["o"] in ("move", "copy")} & t0:
                return no(b, "the element at which the loop is left depends on the order")
            if t["k"] == "return" and 0 in t0:
                return no(b, "the element at which the loop is left depends on the order")

    def effectful(self, g, seen=None):
        """Does the function print, write, or change something through shared references?"""
        seen = seen if seen is not None else set()
        if not g or g.get("id") in seen:
            return False
        seen.add(g["id"])
        if g["id"] not in self.bodies:
            n = g.get("n", "")
            return bool(re.search(r"_print$|_eprint$|::write_all$|::write_fmt$|::write_str$|fs::write$|RefCell.*borrow_mut$|::Cell.*::(set|replace|take)$|File::create", n))
        for blk in self.bodies[g["id"]].bb:
            t = blk["t"]
            if t["k"] == "call":
                h = self.byid.get(t.get("i"))
                if h is not None and self.effectful(h, seen):
                    return True
        return False

    def insert_only(self, g, param, seen):
        """The collection behind the parameter is only added to, and nothing depends on what it holds."""
        key = (g["id"], param)
        if key in seen:
            return True
        seen.add(key)
        B = self.bodies[g["id"]]
        for b, blk in enumerate(B.bb):
            t = blk["t"]
            if t["k"] != "call":
                continue
            for j, a in enumerate(t["a"]):
                if a["o"] not in ("move", "copy"):
                    continue
                ty = B.opty(a)
                if ty < 0 or self.p.types[ty]["k"] not in ("ref", "closure") or param not in B.roots(a["p"]):
                    continue
                h = self.byid.get(t.get("i"), {})
                if h.get("id") in self.bodies:
                    if not self.insert_only(h, j + 1, seen):
                        return False
                elif last(t["f"]) == "insert" and j == 0:
                    if t["d"]["l"] in {x for bb in B.bb for s in bb["s"] if s["s"] == "a" for x in places(s["r"])} | {bb["t"]["d"]["p"]["l"] for bb in B.bb if bb["t"]["k"] == "switch" and bb["t"]["d"]["o"] != "const"}:
                        return False
                elif last(t["f"]) in VIEW | {"extend", "reserve"}:
                    pass
                else:
                    return False
        return True

    # -- lists that have to be sorted --------------------------------------------------------
    def sorted_before_use(self, B, local, block, why):
        if 1 <= local <= B.f["argc"]:
            return self.to_callers(B, local, block, why)
        al = {local}
        ch = True
        while ch:
            ch = False
            for x, ds in B.defs.items():
                if x in al:
                    continue
                for i, s in ds:
                    if "r" in s:
                        r = s["r"]
                        if s["p"].get("p"):
                            continue
                        src = r["p"] if r["r"] in ("ref", "reborrow") else r["a"]["p"] if r["r"] in ("use", "cast") and r["a"]["o"] in ("move", "copy") else None
                        if src is None and r["r"] == "agg" and str(r.get("n", "")).startswith(("std::result::Result", "std::option::Option")) and r.get("ops"):
                            src = r["ops"][0].get("p")
                        if src is not None and src["l"] in al and not any(e["p"] in ("index", "cindex", "subslice") for e in src.get("p", [])):
                            al.add(x)
                            ch = True
                    elif last(s["f"]) in VIEW | {"into_iter", "iter", "drain", "branch", "unwrap", "expect"} and s["a"] and s["a"][0]["o"] in ("move", "copy") and s["a"][0]["p"]["l"] in al:
                        al.add(x)
                        ch = True
        seen, work, sorts = set(), list(B.succ[block]), 0
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            t = B.bb[b]["t"]
            use = None
            for s in B.bb[b]["s"]:
                if s["s"] == "a" and places(s["r"]) & al and s["p"]["l"] not in al and s["r"]["r"] != "discr":
                    use = "read"
                if s["s"] == "a" and s["p"].get("p") and s["p"]["l"] not in al and places(s["r"]) & al:
                    use = "stored"
            if use:
                return self.bad(B, b, "a list %s is %s before it is sorted" % (why, use))
            if t["k"] == "call":
                idx = [j for j, a in enumerate(t["a"]) if a["o"] in ("move", "copy") and a["p"]["l"] in al]
                if idx:
                    n = last(t["f"])
                    g = self.byid.get(t.get("i"), {})
                    if n in SORTS:
                        if not self.telling(B, b, t):
                            return self.bad(B, b, "a list %s is sorted by something that can be the same for different elements" % why)
                        sorts += 1
                        continue
                    if n in GROW | VIEW | {"into_iter", "iter", "drain", "branch", "unwrap", "expect", "drop", "clone_", "any", "all", "count"}:
                        pass
                    elif n in ("collect", "from_iter", "extend") and (self.cont(B.plty(t["d"])) in self.keyed or (n == "extend" and self.cont(B.opty(t["a"][0])) in self.keyed)):
                        pass
                    elif g.get("id") in self.bodies and all(self.p.types[B.opty(t["a"][j])]["k"] == "ref" and self.p.types[B.opty(t["a"][j])]["m"] for j in idx):
                        pass        # appended to by a local function (checked: it only grows it)
                    else:
                        return self.bad(B, b, "a list %s is used (%s) before it is sorted" % (why, n))
            if t["k"] == "return" and 0 in al:
                return self.to_callers(B, None, b, why)
            work += B.succ[b]
        self.fine(B, block, "a list %s is sorted before it is used" % why)

    def to_callers(self, B, param, block, why):
        n = 0
        for C in self.bodies.values():
            for b, blk in enumerate(C.bb):
                t = blk["t"]
                if t["k"] == "call" and t.get("i") == B.f["id"]:
                    n += 1
                    if param is None:
                        self.todo.append((C, t["d"]["l"], b, why))
                    elif t["a"][param - 1]["o"] in ("move", "copy"):
                        for r in C.roots(t["a"][param - 1]["p"]):
                            self.todo.append((C, r, b, why))
        if not n:
            self.bad(B, block, "a list %s leaves the function unsorted" % why)

    def telling(self, B, b, t):
        """The sort tells different elements apart: it uses the element itself, or its identifying component."""
        n = last(t["f"])
        if n in ("sort", "sort_unstable"):
            return True
        ok = False
        for a, c, C in self.closures(B, t):
            if C is None:
                return False
            got = self.projections(C, {"l": 0})
            et = self.elem(C)
            if "" in got:
                ok = True
            elif et == "tuple":
                ok = any(x == "0" or x.startswith("0.") for x in got)
            else:
                ok = bool(got)
        # a function such as str::cmp given by name
        if not self.closures(B, t):
            for a in t["a"][1:]:
                if a["o"] == "const" and self.p.types[a["t"]]["k"] == "fn" and last(self.p.types[a["t"]]["n"]) in INJ:
                    ok = True
        return ok

    def elem(self, C):
        t = self.p.strip_ref(C.f["lt"][2]) if C.f["argc"] >= 2 else -1
        return self.p.types[t]["k"] if t >= 0 else "?"

    def projections(self, C, pl, only=None, depth=0, seen=None):
        """Paths of the closure's element parameters that reach the value at `pl` unchanged."""
        seen = seen if seen is not None else set()
        l = pl["l"]
        path = [e["n"] for e in pl.get("p", []) if e["p"] == "field"]
        if 2 <= l <= C.f["argc"]:
            return {".".join(path)}
        if (l, tuple(path)) in seen or depth > 25:
            return set()
        seen.add((l, tuple(path)))
        out = set()
        for i, s in C.defs.get(l, []):
            if "r" in s:
                r = s["r"]
                if r["r"] in ("ref", "reborrow"):
                    src = r["p"]
                elif r["r"] in ("use", "cast") and r["a"]["o"] in ("move", "copy"):
                    src = r["a"]["p"]
                elif r["r"] == "agg":
                    ops = r.get("ops", [])
                    if only is not None and depth == 0:
                        ops = ops[only:only + 1]
                    elif path and path[0].isdigit() and int(path[0]) < len(ops) and not str(r.get("n", "")).startswith("std::option"):
                        ops = [ops[int(path[0])]]
                    for o in ops:
                        if o["o"] in ("move", "copy"):
                            out |= self.projections(C, o["p"], None, depth + 1, seen)
                    continue
                else:
                    continue
                sub = self.projections(C, src, only if depth == 0 else None, depth + (0 if only is not None and depth == 0 else 1), seen)
                out |= {".".join(x for x in [y] + path if x) for y in sub} if r["r"] not in ("agg",) else sub
            elif last(s["f"]) in INJ:
                for a in s["a"]:
                    if a["o"] in ("move", "copy"):
                        out |= self.projections(C, a["p"], None, depth + 1, seen)
        return out

    # -- anything else that differs from run to run --------------------------------------------
    def deep_hash(self, t, depth=0):
        if t < 0 or depth > 6:
            return False
        if t in self.deep:
            return self.deep[t]
        self.deep[t] = False
        x = self.p.types[t]
        r = False
        if x["k"] == "adt":
            if x["n"] in COLL:
                r = True
            elif x["n"] in self.p.adts and x["n"].startswith("avdl"):
                r = any(self.deep_hash(f["t"], depth + 1) for v in self.p.adts[x["n"]]["v"] for f in v["f"])
            r = r or any(self.deep_hash(y, depth + 1) for y in x["a"])
        elif x["k"] in ("ref", "ptr", "slice", "array"):
            r = self.deep_hash(x["t"], depth + 1)
        elif x["k"] == "tuple":
            r = any(self.deep_hash(y, depth + 1) for y in x["ts"])
        self.deep[t] = r
        return r

    def other_sources(self, B, b, t):
        if FORBIDDEN.search(t["f"]):
            self.rep.bad("source/%s" % B.f["dn"].replace("avdl::", ""), "nothing that differs from run to run is consulted", B.where(b), t["f"])
        if last(t["f"]) == "new_debug" and any(self.deep_hash(g) for g in t.get("ga", []) if isinstance(g, int)) and "fmt::Debug" not in B.f["dn"] and not B.f["dn"].endswith("::fmt"):
            self.rep.bad("debug/%s" % B.f["dn"].replace("avdl::", ""), "no message shows a hash table in iteration order", B.where(b), "a value holding a hash table is formatted with {:?}")


def places(r):
    out = set()
    if "p" in r and isinstance(r["p"], dict):
        out.add(r["p"]["l"])
    for k in ("a", "b"):
        if isinstance(r.get(k), dict) and r[k].get("o") in ("move", "copy"):
            out.add(r[k]["p"]["l"])
    for o in r.get("ops", []):
        if o.get("o") in ("move", "copy"):
            out.add(o["p"]["l"])
    return out


@rule("P15")
def hash_order(ctx, rep):
    d = Det(ctx, rep)
    d.scan()
    rep.add("order/floor", len(d.bodies) >= 200, "functions examined: %d" % len(d.bodies))
    m = ctx.p.adts.get("serde_json::Map")
    under = ctx.p.tyname(m["v"][0]["f"][0]["t"]) if m else "?"
    rep.add("json/sorted", "BTreeMap" in under, "emitted JSON objects list their keys in alphabetical order", "serde_json::Map", under)


@rule("P15")
def directories(ctx, rep):
    """directory listings are put in order before they are used"""
    n = 0
    det = Det(ctx, rep)
    for f in ctx.p.fns:
        if "bb" not in f or is_gen(f) or not f["file"].startswith("src/"):
            continue
        B = Body(ctx.p, f)
        for b, blk in enumerate(B.bb):
            t = blk["t"]
            if t["k"] != "call":
                continue
            if t["f"].endswith("WalkDir::new"):
                n += 1
                l, ok, hops = t["d"]["l"], False, 0
                while hops < 12:
                    hops += 1
                    nx = None
                    for x, ds in B.defs.items():
                        for i, s in ds:
                            if "r" not in s and any(a["o"] == "move" and a["p"]["l"] == l for a in s["a"]):
                                if last(s["f"]) == "sort_by_file_name" or last(s["f"]) in ("sort_by", "sort_by_key") and det.telling(B, i, s):
                                    ok = True
                                nx = x
                            elif "r" in s and s["r"]["r"] == "use" and s["r"]["a"]["o"] == "move" and s["r"]["a"]["p"]["l"] == l and not s["r"]["a"]["p"].get("p"):
                                nx = x
                    if nx is None or nx == l:
                        break
                    l = nx
                if not ok:
                    ok = listed_sorted(ctx, det, B, b)
                rep.add("dir/%s" % f["dn"].replace("avdl::", ""), ok, "the files of a directory are visited in a fixed order", B.where(b), "the order of the directory listing is used")
            elif re.search(r"(^|::)fs::read_dir$", t["f"]) or last(t["f"]) == "read_dir":
                n += 1
                rep.add("dir/%s" % f["dn"].replace("avdl::", ""), listed_sorted(ctx, det, B, b), "the files of a directory are visited in a fixed order", B.where(b), "the order of the directory listing is used")
    rep.add("dir/floor", n >= 1, "directory listings examined: %d" % n)


def listed_sorted(ctx, det, B, b):
    """the listing is collected into a list that is sorted (or an ordered set) in the same function"""
    after = B.reach(B.succ[b])
    for x in after:
        t = B.bb[x]["t"]
        if t["k"] == "call" and last(t["f"]) in SORTS and det.telling(B, x, t):
            return True
        if t["k"] == "call" and last(t["f"]) in ("collect", "from_iter") and "BTree" in ctx.p.tyname(B.plty(t["d"])):
            return True
    return False
