"""Facts loader and physical inliner.

The facts are the compiler's own monomorphic MIR for the `avdl` library and
binary (see ../driver).  Everything here works on that; source text is only
used for line numbers in reports."""
import json, os, sys

sys.setrecursionlimit(200000)

COMB_PREFIX = ("std::option::Option", "std::result::Result")
# combinators that keep the variant and (up to borrowing) the payload
COMB_SAME = {"as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied"}


class Prog:
    def __init__(self, lib_path, bin_path):
        lib = json.load(open(lib_path))
        self.types = lib["types"]
        self.fns = lib["fns"]
        self.adts = {a["n"]: a for a in lib["adts"]}
        self.consts = {c["n"]: c for c in lib["consts"]}
        for f in self.fns:
            f["crate"] = "lib"
        if bin_path:
            b = json.load(open(bin_path))
            self._merge(b)
        self.by_dn = {}
        for f in self.fns:
            self.by_dn.setdefault(f["dn"], []).append(f)
        self._deepmut = {}

    # -- merging the binary's facts into the library's ---------------------
    def _merge(self, b):
        toff = len(self.types)
        foff = len(self.fns)
        lib_at = {(f["file"], f["line"], f["dn"].rsplit("::", 1)[-1]): f for f in self.fns if f["local"] and not f["closure"]}
        generic_at = {}
        remap = {}
        for f in b["fns"]:
            h = lib_at.get((f["file"], f["line"], f["dn"].rsplit("::", 1)[-1])) if not f["local"] else None
            if h is not None and "bb" in h and "bb" not in f:
                remap[f["id"]] = h["id"]
            else:
                remap[f["id"]] = f["id"] + foff
        # the binary sees re-exported paths; use the library's own
        canon = {}
        for a in b["adts"]:
            n = a["n"]
            if n.startswith("avdl::") and n not in self.adts and not a["local"]:
                c = [x for x in self.adts if x.startswith("avdl::") and x.endswith("::" + n.rsplit("::", 1)[-1])]
                if len(c) == 1:
                    canon[n] = c[0]

        def cn(s):
            for k, v in canon.items():
                if s == k:
                    return v
                if s.startswith(k + "::"):
                    return v + s[len(k):]
                if s.startswith("<" + k + " "):
                    return "<" + v + s[1 + len(k):]
            return s

        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if isinstance(v, str):
                        if "avdl::" in v and k in ("n", "dn", "f", "o", "parent", "full"):
                            x[k] = cn(v)
                    else:
                        walk(v)
            elif isinstance(x, list):
                for y in x:
                    if not isinstance(y, (int, str)):
                        walk(y)
        if canon:
            walk(b)

        def fix(x):
            if isinstance(x, list):
                for y in x:
                    fix(y)
            elif isinstance(x, dict):
                for k, v in x.items():
                    if k in ("t", "ft", "ty") and isinstance(v, int) and not isinstance(v, bool) and "k" in x and x["k"] in TYK:
                        pass
                    fix(v)
        # types
        for t in b["types"]:
            if "t" in t:
                t["t"] += toff
            if "a" in t:
                t["a"] = [x + toff for x in t["a"]]
            if "ts" in t:
                t["ts"] = [x + toff for x in t["ts"]]
            if "up" in t:
                t["up"] = [x + toff for x in t["up"]]
            if "i" in t and t["i"] >= 0:
                t["i"] = remap[t["i"]]
            self.types.append(t)
        for a in b["adts"]:
            for v in a["v"]:
                for fl in v["f"]:
                    fl["t"] += toff
            self.adts.setdefault(a["n"], a)
        for c in b["consts"]:
            self._fix_const(c["v"], toff)
            self.consts.setdefault(c["n"], c)
        for f in b["fns"]:
            f["crate"] = "bin"
            f["id"] += foff
            f["args"] = [x + toff for x in f.get("args", [])]
            if "out" in f:
                f["out"] += toff
                f["in"] = [x + toff for x in f["in"]]
            if "bb" in f:
                f["lt"] = [x + toff for x in f["lt"]]
                for v in f["dbg"]:
                    self._fix_place(v["p"], toff)
                for blk in f["bb"]:
                    for s in blk["s"]:
                        self._fix_place(s["p"], toff)
                        if s["s"] == "a":
                            self._fix_rv(s["r"], toff)
                    t = blk["t"]
                    if "p" in t:
                        self._fix_place(t["p"], toff)
                    for k in ("d", "c"):
                        if k in t and isinstance(t[k], dict) and t["k"] != "call":
                            self._fix_op(t[k], toff)
                    if t["k"] == "switch" and t["ty"] >= 0:
                        t["ty"] += toff
                    for o in t.get("ops", []):
                        self._fix_op(o, toff)
                    if t["k"] == "call":
                        self._fix_place(t["d"], toff)
                        t["ga"] = [x + toff for x in t["ga"]]
                        if t.get("it", -1) >= 0:
                            t["it"] += toff
                        if t["fo"]:
                            self._fix_op(t["fo"], toff)
                        for o in t["a"]:
                            self._fix_op(o, toff)
                        if t["i"] >= 0:
                            t["i"] = remap[t["i"]]
            self.fns.append(f)

    def _fix_place(self, p, toff):
        for e in p.get("p", []):
            if "t" in e and e["t"] >= 0:
                e["t"] += toff

    def _fix_op(self, o, toff):
        if o["o"] in ("copy", "move"):
            self._fix_place(o["p"], toff)
        elif o["o"] == "const":
            o["t"] += toff
            self._fix_const(o["v"], toff)

    def _fix_const(self, v, toff):
        if v.get("k") == "zst" and "t" in v:
            v["t"] += toff
        for k in ("v", "f"):
            x = v.get(k)
            if isinstance(x, dict):
                self._fix_const(x, toff)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict):
                        self._fix_const(y["v"] if "n" in y and "k" not in y else y, toff)

    def _fix_rv(self, r, toff):
        if "p" in r:
            self._fix_place(r["p"], toff)
        for k in ("a", "b"):
            if isinstance(r.get(k), dict):
                self._fix_op(r[k], toff)
        for o in r.get("ops", []):
            self._fix_op(o, toff)
        for k in ("t", "ft"):
            if isinstance(r.get(k), int) and r[k] >= 0:
                r[k] += toff

    # -- types --------------------------------------------------------------
    def tyname(self, i, depth=0):
        if i < 0 or depth > 6:
            return "?"
        t = self.types[i]
        k = t["k"]
        if k == "adt":
            n = t["n"]
            return n + ("<" + ",".join(self.tyname(x, depth + 1) for x in t["a"]) + ">" if t["a"] else "")
        if k == "ref":
            return "&" + ("mut " if t["m"] else "") + self.tyname(t["t"], depth + 1)
        if k == "slice":
            return "[" + self.tyname(t["t"], depth + 1) + "]"
        if k == "array":
            return "[" + self.tyname(t["t"], depth + 1) + ";%d]" % t["len"]
        if k == "tuple":
            return "(" + ",".join(self.tyname(x, depth + 1) for x in t["ts"]) + ")"
        if k in ("int", "float"):
            return t["n"].lower()
        if k == "closure":
            return "closure " + t["n"]
        if k == "fn":
            return "fn " + t["n"]
        if k == "dyn":
            return "dyn " + t["n"]
        return t.get("n", k) if k not in ("bool", "char", "str", "never") else k

    def ty_has_mut(self, i, depth=0):
        """Could a value of this type contain a mutable borrow?"""
        if i < 0 or depth > 8:
            return False
        if i in self._deepmut:
            return self._deepmut[i]
        self._deepmut[i] = False
        t = self.types[i]
        k = t["k"]
        r = False
        if k == "ref":
            r = t["m"] or self.ty_has_mut(t["t"], depth + 1)
        elif k == "ptr":
            r = False
        elif k == "adt":
            n = t["n"]
            last = n.split("::")[-1]
            if last in ("IterMut", "ValuesMut", "Entry", "OccupiedEntry", "VacantEntry", "Drain", "ChunksMut", "RefMut", "DrainSorted", "ExtractIf", "OccEntry"):
                r = True
            else:
                r = any(self.ty_has_mut(x, depth + 1) for x in t["a"])
        elif k == "tuple":
            r = any(self.ty_has_mut(x, depth + 1) for x in t["ts"])
        elif k in ("array", "slice"):
            r = self.ty_has_mut(t["t"], depth + 1)
        elif k == "closure":
            r = any(self.ty_has_mut(x, depth + 1) for x in t["up"])
        self._deepmut[i] = r
        return r

    def strip_ref(self, i):
        while i >= 0 and self.types[i]["k"] in ("ref",):
            i = self.types[i]["t"]
        return i

    # -- lookup ---------------------------------------------------------------
    def fn(self, dn, crate=None):
        """Local function(s) by definition path suffix, e.g. 'import::parse_enum'."""
        r = []
        for k, v in self.by_dn.items():
            if k == "avdl::" + dn or k == dn:
                for f in v:
                    if "bb" in f and (crate is None or f["crate"] == crate):
                        r.append(f)
        return r

    def local_fns(self):
        return [f for f in self.fns if "bb" in f and f["dn"].startswith("avdl::") or ("bb" in f and f["local"])]


TRANSPARENT_OWNERS = {"std::boxed::BoxRaw", "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "core::ptr::Unique", "core::ptr::NonNull", "alloc::boxed::Box"}
TYK = {"adt", "ref", "ptr", "array", "slice", "tuple"}


def is_gen(f):
    return "/generated/" in f.get("file", "") or "::generated::" in f["dn"]


class Graph:
    """An inlined control-flow graph rooted at one function.

    Blocks: list of dicts {s:[(place,rv,ln)], t:term, fn:dn, ln, stack}."""

    CLOSURE_ITER = None

    def __init__(self, prog, root, stop=None, max_depth=40, max_blocks=60000):
        self.p = prog
        self.root = root
        self.stop = stop or (lambda f: False)
        self.lt = []       # type per local
        self.lname = []    # debug name per local
        self.lfn = []
        self.B = []
        self.nsite = 0
        self.closures = []
        self.max_blocks = max_blocks
        self.argl = []
        self.entry = self._copy(root, (), ())
        base = self.base0
        self.argl = [base + 1 + i for i in range(root["argc"])]
        self.ret = base
        self._prune()

    def _newlocal(self, ty, name="", fn=""):
        self.lt.append(ty)
        self.lname.append(name)
        self.lfn.append(fn)
        return len(self.lt) - 1

    def _vecmacro(self, ss, arg):
        """vec![..] writes its elements through a pointer to the box it allocates: say that the box is the array"""
        if arg[0] != "p" or arg[2] != ():
            return
        for i in range(len(ss) - 1, -1, -1):
            pl, rv, ln = ss[i]
            if pl == (arg[1], ()) and rv.get("r") == "use":
                for j in range(i - 1, -1, -1):
                    pj, rj, lj = ss[j]
                    if pj[1] == ("*",) and rj.get("r") == "agg" and rj.get("ak") == "array":
                        ss[i] = (pl, rj, lj)
                        return

    def _copy(self, f, stack, ids):
        """Copy f's blocks; returns entry index. Sets self.base0."""
        p = self.p
        base = len(self.lt)
        names = {}
        for v in f["dbg"]:
            if not v["p"].get("p"):
                names.setdefault(v["p"]["l"], v["n"])
        for i, t in enumerate(f["lt"]):
            self._newlocal(t, names.get(i, ""), f["dn"])
        b0 = len(self.B)
        todo = []
        stk = stack + (f["dn"],)
        fid = ids + (f["id"],)
        for i, blk in enumerate(f["bb"]):
            self.B.append(None)
        for i, blk in enumerate(f["bb"]):
            ss = []
            for s in blk["s"]:
                if s["s"] == "a":
                    ss.append((self._pl(s["p"], base), self._rv(s["r"], base), s["ln"]))
                else:
                    ss.append((self._pl(s["p"], base), {"r": "setdiscr", "v": s["v"]}, s["ln"]))
            t = blk["t"]
            k = t["k"]
            if k == "call" and t["f"] == "std::boxed::box_assume_init_into_vec_unsafe":
                self._vecmacro(ss, self._op(t["a"][0], base))
            nt = {"k": k}
            if k == "goto":
                nt["t"] = [b0 + t["t"]]
            elif k == "drop":
                nt = {"k": "goto", "t": [b0 + t["t"]]}
            elif k == "switch":
                nt["d"] = self._op(t["d"], base)
                nt["ty"] = t["ty"]
                nt["br"] = [(v, b0 + x) for v, x in t["br"]]
                nt["o"] = b0 + t["o"]
                nt["t"] = [x for _, x in nt["br"]] + [nt["o"]]
            elif k == "assert":
                nt["c"] = self._op(t["c"], base)
                nt["m"] = t["m"]
                nt["e"] = t["e"]
                nt["ops"] = [self._op(o, base) for o in t["ops"]]
                nt["t"] = [b0 + t["t"]]
            elif k == "call":
                nt.update(f=t["f"], i=t["i"], ga=t["ga"], a=[self._op(o, base) for o in t["a"]],
                          d=self._pl(t["d"], base), site=self.nsite)
                if t["fo"]:
                    nt["fo"] = self._op(t["fo"], base)
                self.nsite += 1
                nt["t"] = [b0 + t["t"]] if t["t"] >= 0 else []
                a = nt["a"]
                if t["f"] in ("std::mem::replace", "core::mem::replace") and len(a) == 2 and a[0][0] == "p" and nt["t"]:
                    # dest = *a; *a = b
                    here = (a[0][1], a[0][2] + ("*",))
                    ss += [(nt["d"], {"r": "use", "a": ("p",) + here}, t["ln"]), (here, {"r": "use", "a": a[1]}, t["ln"])]
                    nt = {"k": "goto", "t": nt["t"]}
                elif t["f"] == "std::clone::Clone::clone_from" and len(a) == 2 and a[0][0] == "p" and a[1][0] == "p" and nt["t"]:
                    # *a = *b
                    ss.append(((a[0][1], a[0][2] + ("*",)), {"r": "use", "a": (a[1][0], a[1][1], a[1][2] + ("*",))}, t["ln"]))
                    nt = {"k": "goto", "t": nt["t"]}
                else:
                    todo.append(b0 + i)
            elif k == "return":
                nt["t"] = []
            else:
                nt = {"k": "dead", "t": []}
            self.B[b0 + i] = {"s": ss, "t": nt, "fn": f["dn"], "file": f["file"], "ln": t["ln"], "fl": t["fl"], "stack": stk}
        if len(self.B) > self.max_blocks:
            raise RuntimeError("inlined graph of %s too large" % self.root["dn"])
        for bi in todo:
            self._expand(bi, fid, stk)
        self.base0 = base
        return b0

    # operand/place normalisation
    def _pl(self, p, base):
        proj = []
        variant = None
        for e in p.get("p", []):
            k = e["p"]
            if k == "deref":
                proj.append("*")
            elif k == "field":
                v = e.get("v") or None
                n = e["n"]
                t = e.get("t", -1)
                o = e.get("o", "")
                if o in TRANSPARENT_OWNERS:
                    continue
                if variant is not None:
                    n = variant + "." + n
                proj.append(("f", n, t))
            elif k == "down":
                variant = e["v"]
                continue
            elif k == "index":
                proj.append(("i", base + e["l"] if "l" in e else None))
            elif k == "cindex":
                proj.append(("c", e["i"], e["e"]))
            elif k == "subslice":
                proj.append(("s",))
            else:
                proj.append(("o",))
            variant = None
        return (base + p["l"], tuple(proj))

    def _op(self, o, base):
        if o["o"] in ("copy", "move"):
            return ("p",) + self._pl(o["p"], base)
        if o["o"] == "const":
            return ("c", o["t"], o["v"])
        return ("c", -1, {"k": "bool", "v": True})

    def _rv(self, r, base):
        k = r["r"]
        n = {"r": k}
        if "p" in r:
            n["p"] = self._pl(r["p"], base)
        for x in ("a", "b"):
            if isinstance(r.get(x), dict):
                n[x] = self._op(r[x], base)
        if "ops" in r:
            n["ops"] = [self._op(o, base) for o in r["ops"]]
        for x in ("m", "op", "ak", "n", "v", "vi", "fn", "t", "c", "ft", "raw"):
            if x in r:
                n[x] = r[x]
        if k in ("reborrow",):
            n["r"] = "ref"
        return n

    def _optype(self, o):
        if o[0] == "c":
            return o[1]
        return self.pltype((o[1], o[2]))

    def pltype(self, pl):
        t = self.lt[pl[0]]
        for e in pl[1]:
            if t < 0:
                return -1
            tt = self.p.types[t]
            if e == "*":
                if tt["k"] in ("ref", "ptr"):
                    t = tt["t"]
                elif tt["k"] == "adt" and tt["a"]:
                    t = tt["a"][0]
                else:
                    return -1
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = tt.get("t", -1)
            else:
                pass
        return t

    # -- call expansion -------------------------------------------------------
    def _expand(self, bi, ids, stk):
        p = self.p
        blk = self.B[bi]
        t = blk["t"]
        if t["i"] < 0:
            return
        callee = p.fns[t["i"]]
        args = t["a"]
        nm = t["f"]
        # FnOnce/FnMut/Fn on a function item: direct call
        if callee["kind"] == "shim" and nm.split("::")[-1] in ("call_once", "call_mut", "call") and len(args) == 2:
            t0 = p.types[p.strip_ref(self._optype(args[0]))] if self._optype(args[0]) >= 0 else {"k": "?"}
            if t0["k"] == "fn" and t0["i"] >= 0:
                n = self._untuple(args[1])
                t["f"] = t0["n"]
                t["i"] = t0["i"]
                t["a"] = n
                callee = p.fns[t["i"]]
                args = n
                nm = t["f"]
            elif t0["k"] == "closure" and t0["i"] >= 0:
                callee = p.fns[t0["i"]]
        # enum/struct constructor used as a function
        ctor = self._ctor(nm)
        if ctor and "bb" not in callee:
            ad, var, fns = ctor
            blk["s"].append((t["d"], {"r": "agg", "ak": "adt", "n": ad, "v": var, "vi": 0, "fn": fns, "ops": args}, blk["ln"]))
            blk["t"] = {"k": "goto", "t": t["t"]}
            return
        if nm.startswith(COMB_PREFIX) and nm.rsplit("::", 1)[-1] in COMB_SAME and len(args) == 1:
            return
        if nm.rsplit("::", 1)[-1] in ("iter", "iter_mut", "into_iter") and len(args) == 1 and not callee["local"] and (nm.startswith(COMB_PREFIX) or "option::Option" in callee["dn"]):
            return
        if nm == "std::clone::Clone::clone" and "avdl::" not in callee["dn"].split(" as ")[0].replace("<avdl::", "avdl::")[:6]:
            return
        if "bb" in callee:
            if callee["id"] in ids or len(ids) > 60:
                t["rec"] = True
                return
            if callee["closure"]:
                self._inline_closure(bi, callee, args, ids, stk)
                return
            if self.stop(callee) or is_gen(callee):
                return
            self._inline(bi, callee, args, ids, stk)
            return
        # external call with closures/function items among its arguments
        clos = []
        for i, a in enumerate(args):
            ty = self._optype(a)
            if ty < 0:
                continue
            tt = p.types[p.strip_ref(ty)]
            if tt["k"] == "closure" and tt["i"] >= 0 and "bb" in p.fns[tt["i"]] and not is_gen(p.fns[tt["i"]]):
                clos.append((i, a, p.fns[tt["i"]], "closure"))
            elif tt["k"] == "fn" and tt["i"] >= 0 and i > 0:
                clos.append((i, a, p.fns[tt["i"]], "fn"))
        if clos:
            self._closure_loop(bi, clos, ids, stk)

    def _ctor(self, nm):
        # 'path::Enum::Variant' or 'path::Struct'
        a = self.p.adts.get(nm)
        if a and a["kind"].lower() == "struct":
            return (nm, a["v"][0]["n"], [f["n"] for f in a["v"][0]["f"]])
        if "::" in nm:
            pre, v = nm.rsplit("::", 1)
            a = self.p.adts.get(pre)
            if a:
                for x in a["v"]:
                    if x["n"] == v:
                        return (pre, v, [f["n"] for f in x["f"]])
        return None

    def _untuple(self, op):
        ty = self._optype(op)
        tt = self.p.types[ty] if ty >= 0 else {"k": "?"}
        if tt["k"] != "tuple":
            return [op]
        if op[0] == "c":
            return [("c", x, {"k": "zst"}) for x in tt["ts"]]
        return [("p", op[1], op[2] + (("f", str(i), x),)) for i, x in enumerate(tt["ts"])]

    def _inline(self, bi, callee, args, ids, stk):
        blk = self.B[bi]
        t = blk["t"]
        ent = self._copy(callee, stk, ids)
        base = self.base0
        end = len(self.B)
        # note: _copy may append nested inlines after this range; returns of the
        # nested ones are already rewritten, so only this body's own blocks are
        # inspected.
        for i in range(ent, ent + len(callee["bb"])):
            if self.B[i]["t"]["k"] == "return":
                if t["t"]:
                    self.B[i]["s"].append((t["d"], {"r": "use", "a": ("p", base, ())}, blk["ln"]))
                    self.B[i]["t"] = {"k": "goto", "t": list(t["t"])}
                else:
                    self.B[i]["t"] = {"k": "dead", "t": []}
        for i, a in enumerate(args):
            blk["s"].append(((base + 1 + i, ()), {"r": "use", "a": a}, blk["ln"]))
        blk["inl"] = {"f": t["f"], "dn": callee["dn"], "ent": ent, "base": base, "site": t["site"]}
        blk["t"] = {"k": "goto", "t": [ent]}

    def _closure_args(self, callee, args):
        if len(args) == 2 and callee["argc"] >= 1:
            return [args[0]] + self._untuple(args[1])
        return args

    def _envfix(self, blk, callee, envop):
        """Closure bodies take self by value, & or &mut; give them what they expect."""
        want = self.p.types[callee["lt"][1]]
        have = self.p.types[self._optype(envop)] if self._optype(envop) >= 0 else {"k": "?"}
        if want["k"] == "ref" and have["k"] != "ref" and envop[0] == "p":
            n = self._newlocal(callee["lt"][1])
            blk["s"].append(((n, ()), {"r": "ref", "m": want["m"], "p": (envop[1], envop[2])}, blk["ln"]))
            return ("p", n, ())
        if want["k"] != "ref" and have["k"] == "ref" and envop[0] == "p":
            return ("p", envop[1], envop[2] + ("*",))
        return envop

    def _inline_closure(self, bi, callee, args, ids, stk):
        blk = self.B[bi]
        a = self._closure_args(callee, args)
        a[0] = self._envfix(blk, callee, a[0])
        self._inline(bi, callee, a, ids, stk)

    def _closure_loop(self, bi, clos, ids, stk):
        """external(f, ..., |x| body): model as  loop { nondet { body } }; call."""
        blk = self.B[bi]
        t = blk["t"]
        call_bi = len(self.B)
        nb = dict(blk)
        nb["s"] = []
        nb["t"] = t
        self.B.append(nb)
        head = len(self.B)
        self.B.append({**nb, "s": [], "t": {"k": "nondet", "t": [call_bi], "site": t["site"], "call": call_bi}})
        blk["t"] = {"k": "goto", "t": [head]}
        t["clo"] = []
        for argi, a, callee, kind in clos:
            st = {**nb, "s": [], "t": None}
            sb = len(self.B)
            self.B.append(st)
            if kind == "closure":
                argc = callee["argc"] - 1
                ptys = callee["lt"][2:2 + argc]
                ret = self._newlocal(callee["lt"][0])
            else:
                ptys = callee.get("in", [])
                ret = self._newlocal(callee.get("out", -1))
            pl = []
            for i, ty in enumerate(ptys):
                l = self._newlocal(ty)
                st["s"].append(((l, ()), {"r": "cparam", "site": t["site"], "arg": argi, "i": i, "call": call_bi}, blk["ln"]))
                pl.append(("p", l, ()))
            endb = len(self.B)
            self.B.append({**nb, "s": [], "t": {"k": "goto", "t": [head]}})
            st["t"] = {"k": "call", "f": callee["dn"], "i": callee["id"], "ga": [], "a": None, "d": (ret, ()), "site": self.nsite, "t": [endb]}
            self.nsite += 1
            if kind == "closure":
                env = self._envfix(st, callee, a)
                st["t"]["a"] = [env] + pl
            else:
                st["t"]["a"] = pl
            self.B[head]["t"]["t"].append(sb)
            t["clo"].append({"arg": argi, "body": sb, "end": endb, "ret": ret, "head": head, "dn": callee["dn"]})
            if kind == "closure":
                if callee["id"] in ids:
                    st["t"]["rec"] = True
                else:
                    self._inline(sb, callee, st["t"]["a"], ids, stk)
            else:
                ctor = self._ctor(callee["dn"])
                if ctor and "bb" not in callee:
                    ad, var, fns = ctor
                    st["s"].append(((ret, ()), {"r": "agg", "ak": "adt", "n": ad, "v": var, "vi": 0, "fn": fns, "ops": pl}, blk["ln"]))
                    st["t"] = {"k": "goto", "t": [endb]}
                elif "bb" in callee and not is_gen(callee) and not self.stop(callee) and callee["id"] not in ids:
                    self._inline(sb, callee, pl, ids, stk)

    def _prune(self):
        """Reachability, predecessors, reverse post-order."""
        seen = set()
        order = []
        stack = [(self.entry, 0)]
        seen.add(self.entry)
        while stack:
            b, i = stack.pop()
            ts = self.B[b]["t"]["t"]
            if i < len(ts):
                stack.append((b, i + 1))
                n = ts[i]
                if n not in seen:
                    seen.add(n)
                    stack.append((n, 0))
            else:
                order.append(b)
        order.reverse()
        self.rpo = order
        self.rpoi = {b: i for i, b in enumerate(order)}
        self.preds = {b: [] for b in order}
        for b in order:
            for n in dict.fromkeys(self.B[b]["t"]["t"]):
                self.preds[n].append(b)

    def where(self, b):
        blk = self.B[b]
        return "%s:%d (%s)" % (blk["fl"].replace("/repo/", ""), blk["ln"], blk["fn"].replace("avdl::", ""))
